"""C07: layout of the output file."""
from result import Result
from checks.filecommon import *


def bit(b):
    return b


def run(tier):
    r = Result("On every path of flbwt::bwt_file on which no call fails, the byte sequence written to the output stream is collected symbolically "
               "(bytes as bit vectors over the position, ranges of the result array as linear offsets and lengths) and compared, under the path's "
               "conditions, with the specified layout: bits 63..0 of the position from the most significant byte on, then the result array "
               "without the byte at that position. A non-empty input for which nothing fails must be written.",
               ["the in-memory transform returns a result whose position lies between 0 and n (C15, C30)"])
    e = explore(r, 0, False)
    if e is None:
        return r
    f, c, outs = e
    ok = 0
    for k, s, v, loc in outs:
        size = lin(atom('size', name='size', lo=0, hi=1 << 62))
        if k != 'ret':
            if s.decide(mk_le(sub(1, size))) is not None and s.decide(mk_le(size)) == 1:
                continue
            if all(set(a.name for a, _ in x.x.t) <= {'size', 'last'} for x in s.facts.s if x.k in ('le', 'eq', 'ne')) and all(
                    x.k in ('le', 'eq', 'ne') for x in s.facts.s) and not c.unmodelled:
                r.bad('nothing written', s.x.get('thrown', ('', loc))[1], 'bwt_file throws although no file operation fails%s: %s' % (
                    ' (when %s)' % ', '.join(map(repr, list(s.facts.s)[:4])) if s.facts.s else '', filex.path(s)))
            continue
        if 'input' not in s.x:
            continue
        n = s.x['input'][2]
        last = lin(c.last)
        if not is_num(n):
            r.count('undecided paths')
            continue
        r.count('successful paths')
        segs = [(d, l) for w, d, l in s.x.get('out', ()) if w == 'out']
        if any(w == '*' or d is None or d[0] == 'unknown' for w, d, l in s.x.get('out', ())):
            r.count('undecided paths')
            continue
        if not segs:
            r.bad('nothing written', loc, 'bwt_file returns without having written anything: %s' % filex.path(s))
            continue
        # header
        hdr, i = [], 0
        while i < len(segs) and segs[i][0][0] == 'bytes' and len(hdr) < 8:
            hdr += [(b, segs[i][1]) for b in segs[i][0][1]]
            i += 1
        if len(hdr) != 8:
            l = segs[i - 1 if i else 0][1]
            r.bad('position header', l, 'the output starts with a header of %d bytes, not 8' % len(hdr))
            continue
        wrong = und = 0
        for k8, (b, l) in enumerate(hdr):
            want = tuple((c.last, 8 * (7 - k8) + j) for j in range(8))
            # bits known from the path condition (position 0) do not matter
            if b is None:
                und += 1
                continue
            r.count('header bytes compared')
            diff = [j for j in range(8) if b[j] != want[j]]
            if diff:
                if any(x is None for x in b) or s.decide(mk_eq(last)) == 1 and all(x == 0 for x in b):
                    und += 1
                    continue
                src = ['%r.%d' % x if isinstance(x, tuple) else repr(x) for x in b]
                r.bad('position header', l, 'byte %d of the output is not byte %d (from the top) of the position: bit %d holds %s' % (k8, k8, diff[0], src[diff[0]]))
                wrong = 1
        if und:
            r.count('undecided header bytes', und)
        # body
        body = []
        bad = False
        for d, l in segs[i:]:
            if d[0] == 'bytes':
                r.bad('extra bytes', l, '%d bytes that are not part of the result are written after the header' % len(d[1]))
                bad = True
                break
            off, ln = d[1], d[2]
            if s.decide(mk_eq(ln)) == 1:
                continue
            if body and s.decide(mk_eq(sub(add(body[-1][0], body[-1][1]), off))) == 1:
                body[-1] = (body[-1][0], add(body[-1][1], ln), body[-1][2])
            else:
                body.append((off, ln, l))
        if bad:
            continue
        r.count('segments compared', len(body))
        N = add(n, 1)
        # expected: [0,last) [last+1,N)
        exp = []
        for a, b in ((0, last), (add(last, 1), sub(N, add(last, 1)))):
            if s.decide(mk_eq(b)) != 1:
                exp.append((a, b))
        where = segs[-1][1]

        def total(b):
            t = 0
            for x in b:
                t = add(t, x[1])
            return t
        d = s.decide(mk_eq(sub(total(body), n)))
        if d == 0:
            r.bad('number of bytes', where, '%r bytes of a result with %r bytes are written after the header (n = %r)%s' % (total(body), N, n, cond(s)))
            continue
        if len(body) == len(exp):
            for (a, b, l), (x, y) in zip(body, exp):
                for p, q, what in ((a, x, 'start'), (b, y, 'length')):
                    dd = s.decide(mk_eq(sub(p, q)))
                    if dd == 0:
                        r.bad('result bytes', l, 'a range of the result is written with %s %r instead of %r%s' % (what, p, q, cond(s)))
                    elif dd is None:
                        r.count('undecided segments')
            ok += 1
        else:
            # different cut: compare what can be compared
            if body and s.decide(mk_eq(sub(body[0][0], exp[0][0]))) == 0:
                r.bad('result bytes', body[0][2], 'the result is written from byte %r on instead of %r%s' % (body[0][0], exp[0][0], cond(s)))
            elif len(body) == 1 and len(exp) == 2:
                a, b, l = body[0]
                # one range cannot leave out a byte strictly inside it
                if s.decide(mk_eq(a)) == 1 and s.decide(mk_eq(sub(last, n))) != 1:
                    r.bad('result bytes', l, 'bytes 0..%r are written although the position may be smaller%s' % (sub(b, 1), cond(s)))
                elif s.decide(mk_eq(sub(a, 1))) == 1 and s.decide(mk_eq(last)) != 1:
                    r.bad('result bytes', l, 'bytes 1..%r are written although the position may be above 0%s' % (add(b, 0), cond(s)))
                else:
                    r.count('undecided segments')
            else:
                r.count('undecided segments')
    for k, l, m, s in c.bad:
        if k == 'null stream':
            r.bad('nothing written', l, m)
    if not r.coverage.get('successful paths') and not r.violations:
        raise AnalysisError('C07: no successful path')
    return r


def cond(s):
    f = [repr(x) for x in s.facts.s if x.k in ('le', 'eq', 'ne')]
    return ' (when %s)' % ', '.join(f[-4:]) if f else ''
