"""C24: the names of the substrings follow their order."""
from front import AnalysisError
from result import Result
from terms import *
from state import *
from interp import Budget
from tablex import String, byte, witness
from checks.c12 import shared
from checks.c21 import record
import sortx
from sortx import ordered, text


def cell(st, p, i):
    o = st.objs.get(p.base) if isinstance(p, Ptr) else None
    c = o.cells.get(add(p.off, 8 * i)) if o is not None and o.alive else None
    return c[1] if c is not None and isinstance(c[1], Ptr) else None


def one(M, name, st, *args):
    r = [(v, t) for k, t, v, l in M.call(name, st, Ptr('H', 0), *args) if k == 'ret']
    return r[0][0] if len(r) == 1 else None


def scenario(M, r, what, n, size, strings, head, bucket=None, moved=True, limit=1 << 60, each=None):
    if M.steps > limit or r.violations:
        r.count('scenarios skipped')
        return
    try:
        sts = M.filled(n, size, strings, bucket if bucket is not None else {s.name: i % size for i, s in enumerate(strings)}, head, moved)
        M.c.bad = []
        r.count('scenarios')
        for st in sts[:8]:
            for k, t, v, loc in M.run(st, head):
                r.count('executions judged')
                (each or judge)(M, r, what, k, t, v, loc, strings, head)
            if (each or judge) is judge:
                for rule, l, msg in M.c.bad:
                    r.bad(rule, l, '%s (%s)' % (msg, what))
            M.c.bad = []
    except Budget:
        M.steps += 2000000
        M.c.bad = []
        r.count('scenarios not followed to the end')


def judge(M, r, what, k, t, v, loc, strings, head):
    w = witness(t.facts)
    if w is None:
        r.count('undecided outcomes')
        return
    if k != 'ret':
        r.bad('fails', loc, 'the sorting of the substrings throws (%s)' % what)
        return
    m = len(strings)
    got = [cell(t, v, i) for i in range(1, m + 1)]
    recs = [record(M, t, p, strings) if p is not None else None for p in got]
    if None in recs:
        # known not to be a record?
        r.count('undecided outcomes')
        for i, p in enumerate(got):
            if p is not None and recs[i] is None:
                q, n = one(M, 'get_first_character_pointer', t, p), one(M, 'get_length', t, p)
                b = M.c.bytes_of(t, q, n) if isinstance(n, int) and 0 < n < 100000 and isinstance(q, Ptr) else None
                if b is not None and all(isinstance(x, int) or isinstance(x, Lin) for x in b):
                    r.bad('not a substring', loc, 'entry %d is a record of %d bytes that no substring has (%s)' % (i + 1, n, what))
                    return
        return
    for s in strings:
        if recs.count(s) != 1:
            r.bad('collected', loc, '%s has %d entries (%s)' % (s.show(w), recs.count(s), what))
            return
    for a, b in zip(recs, recs[1:]):
        x = ordered(t, b, a)
        if x is not None:
            r.bad('order', loc, '%s is put before %s (%s)' % (a.show(x), b.show(x), what))
            return
    M.c.hook_name = False
    try:
        for i, s in enumerate(recs):
            for k2, u, x, l2 in M.find(t, s):
                r.count('names judged')
                w = witness(u.facts)
                if w is None:
                    continue
                if k2 == 'throw':
                    r.bad('not found', l2, 'the lookup of %s finds nothing after sorting (%s)' % (s.show(w), what))
                elif not isinstance(x, int):
                    r.count('undecided outcomes')
                elif x != i + 1:
                    r.bad('name', l2, 'the name of substring number %d of %d, %s, is %d (%s)' % (i + 1, m, s.show(w), x, what))
    finally:
        M.c.hook_name = True
    # the beginning of the text
    p = cell(t, v, m + 1)
    q, n = (one(M, 'get_first_character_pointer', t, p), one(M, 'get_length', t, p)) if p is not None else (None, None)
    b = M.c.bytes_of(t, q, head.m) if isinstance(q, Ptr) else None
    if isinstance(n, int) and n != head.m:
        r.bad('beginning', loc, 'the record of the beginning of the text has %d bytes instead of %d (%s)' % (n, head.m, what))
    elif b is None or not isinstance(n, int):
        r.count('undecided outcomes')
    else:
        r.count('records of the beginning judged')
        for i, (x, y) in enumerate(zip(b, head.b)):
            c = mk_eq(sub(x, y))
            if t.decide(c) != 1:
                w = witness(t.facts, [notc(c)])
                if w is not None:
                    r.bad('beginning', loc, 'byte %d of the record of the beginning of the text is not that of the text (%s)' % (i, what))
                    break
                r.count('undecided outcomes')
                break
        lp = t.objs['C'].cells.get(sortx.field(sortx.F, 'lastptr')) if 'lastptr' in sortx.layout(sortx.F) else None
        if lp is not None and isinstance(lp[1], Ptr) and lp[1] != q:
            r.bad('beginning', loc, 'the pointer to the first byte of the text does not point to it (%s)' % what)
    # the end of the text
    p = cell(t, v, 0)
    n = one(M, 'get_length', t, p) if p is not None else None
    if isinstance(n, int) and n != 1:
        r.bad('end', loc, 'the record of the end marker has %d bytes (%s)' % (n, what))


def chains():
    yield 'eight long substrings in one bucket', 1000, 1, [shared('S%d' % m, m) for m in (300, 301, 40, 600, 3, 299, 512, 200)]
    yield 'eight long substrings in one bucket, small text', 10, 1, [shared('S%d' % m, m) for m in (300, 301, 40, 600, 3, 299, 512, 200)]
    yield 'two long substrings in one bucket', 1000, 1, [shared('S%d' % m, m) for m in (500, 501)]
    yield 'twenty substrings in three buckets', 200000, 3, [String('S%d' % m, [1 + (m * 7 + j * j) % 4 for j in range(3 + m % 5)] + [m]) for m in range(20)]
    yield 'substrings of 254 to 258 bytes in one bucket', 1000, 1, [shared('S%d' % m, m) for m in (256, 255, 257, 254, 258)]


def run(tier):
    quick = tier == 'quick'
    r = Result("sort_LMS_strings is interpreted abstractly - with the sorting algorithm of the library and the comparison - on tables that hold up to three "
               "substrings with all bytes unconstrained, and up to twenty with common beginnings over several blocks and buckets, beginnings of the text of "
               "1 to 600 bytes, the memory moving and growing in place. At the end of every path: the array holds each substring once, in the specified "
               "order; a lookup of each gives its rank; the last element leads to a record with exactly the bytes of the text's beginning and the first to one "
               "of the end marker; no access lies outside the memory.",
               ["a finite number of scenarios"])
    M = sortx.Sorter()
    limit = 12000000 if quick else 80000000
    sy = lambda n, m: String(n, [byte('%s%d' % (n, i)) for i in range(m)])
    go = lambda *a, **k: scenario(M, r, *a, limit=limit, **k)
    go('no substring', 10, 2, [], text(3))
    for n in (10, 1000, 200000):
        go('one substring', n, 1, [sy('A', 4)], text(2))
        for m, k in ((3, 3), (3, 4), (5, 4)):
            go('substrings of %d and %d bytes' % (m, k), n, 2, [sy('A', m), sy('B', k)], text(4), moved=bool(m & 1))
    go('three substrings', 1000, 3, [sy('A', 3), sy('B', 3), sy('D', 3)], text(1))
    if not quick:
        go('three substrings', 1000, 3, [sy('A', 3), sy('B', 4), sy('D', 5)], text(1))
    for w, n, size, S in chains():
        for h, mv in ((1, True), (300, False)):
            go(w, n, size, S, text(h, 1), moved=mv)
    for h in (2, 254, 255, 256, 257, 600) + (() if quick else (511, 512, 65535, 65536)):
        go('a beginning of %d bytes' % h, 1000, 1, [shared('S', 7)], text(h, 1), moved=bool(h & 1))
    for h in (1, 2, 300):
        go('a beginning of %d bytes' % h, 200000, 1, [shared('S', 7)], text(h, 1), moved=bool(h & 1))
    # one or two more buckets than strings
    go('empty buckets', 1000, 5, [shared('S', 7), shared('Z', 9)], text(3), {'S': 1, 'Z': 4})
    r.count('abstract instructions', M.steps)
    if not r.coverage.get('names judged') and not r.violations:
        raise AnalysisError('C24: no execution of sort_LMS_strings was judged')
    return r
