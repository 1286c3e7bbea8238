"""C21: the order used to sort the substrings is consistent."""
import re
from front import AnalysisError
from result import Result
from terms import *
from state import *
from interp import Budget, Dead
from tablex import String, byte, witness
from checks.c12 import shared
import sortx
from sortx import ordered, text


def sorts(M, st, head):
    """[(state, sorting function, its arguments)] at the calls of the sorting function"""
    got = []

    def catch(ip, s, ins, callee, args):
        got.append((s.copy(), callee, list(args), ip.fn.loc(ins)))
        raise Dead()
    M.c.catch = catch
    try:
        M.run(st, head)
    finally:
        M.c.catch = None
    return got


def comparators(M, callee, args, st):
    """[(function, leading arguments)]"""
    r = []
    for a in args[2:]:
        if isinstance(a, Ptr) and isinstance(a.base, tuple) and a.base[0] == 'glob' and a.base[1] in M.m.funcs:
            r.append((M.m.funcs[a.base[1]], []))
    if r:
        return r
    for f in M.comparator(callee):
        # (not one that takes its arguments by reference: then the result of sorting is judged)
        if f.ret == 'i1' and len(f.args) in (2, 3) and all(t == 'ptr' for t in f.argty) and not re.search('RK?(P|S[0-9A-Z]*_)', f.name):
            r.append((f, None))
    return r


def pair(M, r, what, A, B, limit):
    if M.steps > limit or r.violations:
        r.count('pairs skipped')
        return
    H = text(3, 0)
    try:
        same = A is B
        S = [A] if same else [A, B]
        sts = M.filled(1000, 2, S, {s.name: i for i, s in enumerate(S)}, H)
    except Budget:
        sts = []
    M.c.bad = []
    for st in sts[:4]:
        before = r.coverage.get('comparisons', 0)
        for s0, callee, args, loc in sorts(M, st, H):
            arr = args[0]
            o = s0.objs.get(arr.base) if isinstance(arr, Ptr) else None
            recs = {}
            for i in range(len(S)):
                c = o.cells.get(add(arr.off, 8 * i)) if o is not None else None
                if c is None or not isinstance(c[1], Ptr):
                    continue
                x = record(M, s0, c[1], S)
                if x is not None:
                    recs[x.name] = c[1]
            if len(recs) != len(S):
                r.count('undecided outcomes')
                continue
            for f, lead in comparators(M, callee, args, s0):
                t0 = s0.copy()
                if lead is None and len(f.args) == 3:
                    if len(args) == 3 and isinstance(args[2], Ptr) and args[2].base in t0.objs and t0.objs[args[2].base].kind == 'stack':
                        lead = [args[2]]
                    else:
                        t0.new_obj('stack', None, loc, 'the comparison object', True, key='F')
                        fo = t0.wobj('F')
                        for i, a in enumerate(args[2:]):
                            fo.cells[8 * i] = (8, a)
                        lead = [Ptr('F', 0)]
                for a, b in ((A, B),) if same else ((A, B), (B, A)):
                    r.count('comparisons')
                    judge(M, r, what, f, t0, lead or [], a, b, recs, same)
        if r.coverage.get('comparisons', 0) == before and not same:
            whole(M, r, what, st, A, B, H)


def whole(M, r, what, st, A, B, H):
    """no sorting algorithm of the library: the order of the result"""
    try:
        outs = M.run(st, H)
    except Budget:
        M.steps += 2000000
        outs = []
    M.c.bad = []
    for k, t, v, loc in outs:
        o = t.objs.get(v.base) if k == 'ret' and isinstance(v, Ptr) else None
        got = []
        for i in (1, 2):
            c = o.cells.get(add(v.off, 8 * i)) if o is not None else None
            got.append(record(M, t, c[1], (A, B)) if c is not None and isinstance(c[1], Ptr) else None)
        if None in got or got[0] is got[1]:
            r.count('undecided outcomes')
            continue
        r.count('comparisons')
        w = ordered(t, got[1], got[0])
        if w is not None:
            r.bad('order', loc, '%s is put before %s (%s)' % (got[0].show(w), got[1].show(w), what))


def record(M, st, p, strings):
    """the string a record holds"""
    q = [v for k, t, v, l in M.call('get_first_character_pointer', st, Ptr('H', 0), p) if k == 'ret']
    n = [v for k, t, v, l in M.call('get_length', st, Ptr('H', 0), p) if k == 'ret']
    for x in strings:
        b = M.c.bytes_of(st, q[0], x.m) if len(q) == 1 and n == [x.m] and isinstance(q[0], Ptr) else None
        if b is not None and tuple(b) == x.b:
            return x


def both(k, t, v, loc):
    """an outcome whose answer is a condition: one for each answer"""
    if k == 'ret' and isinstance(v, Cond):
        r = []
        for x, c in ((1, v), (0, notc(v))):
            d = t.decide(c)
            if d == 0:
                continue
            u = t.copy()
            if d is None:
                u.assume(c)
            r.append((k, u, x, loc))
        return r
    return [(k, t, v, loc)]


def judge(M, r, what, f, t0, lead, a, b, recs, same):
    M.c.bad = []
    try:
        outs = M.call(f, t0, *(lead + [recs[a.name], recs[b.name]]))
    except Budget:
        M.steps += 5000000
        r.count('comparisons not followed to the end')
        outs = []
    for k, t, v, loc in [x for o in outs for x in both(*o)]:
        r.count('ways through the comparison judged')
        if k != 'ret' or not isinstance(v, int):
            r.count('undecided outcomes')
            continue
        if v & 1:
            w = witness(t.facts) if same else ordered(t, b, a)
            if w is not None:
                r.bad('order', loc, ('a substring is ordered before itself: %s' % a.show(w)) if same else
                      '%s is ordered before %s (%s)' % (a.show(w), b.show(w), what))
        elif not same:
            w = ordered(t, a, b)
            if w is not None:
                r.bad('order', loc, '%s is not ordered before %s (%s)' % (a.show(w), b.show(w), what))
    for rule, loc, msg in M.c.bad:
        if rule not in ('memory never written',):
            r.bad(rule, loc, '%s (%s)' % (msg, what))
    M.c.bad = []


def run(tier):
    quick = tier == 'quick'
    r = Result("sort_LMS_strings is interpreted abstractly up to its call of the sorting algorithm, on a table that holds two substrings of fixed lengths "
               "with symbolic bytes; then the comparison that is handed to the algorithm is interpreted on their records in both orders. On every path the "
               "answer has to be that of the specification - first differing byte, unsigned, decides; a substring comes before its proper prefixes; nothing "
               "comes before itself - for all bytes the path allows. Since the specification is a strict order, a comparison that agrees with it is one.",
               ["lengths 3 to 7 with all bytes unconstrained; longer substrings, up to 600 bytes, with one place unconstrained"])
    M = sortx.Sorter()
    limit = 20000000 if quick else 100000000
    sy = lambda n, m: String(n, [byte('%s%d' % (n, i)) for i in range(m)])
    top = 6 if quick else 8
    for m in range(3, top):
        A = sy('A', m)
        pair(M, r, 'one substring of %d bytes' % m, A, A, limit)
        for k in range(3, top):
            pair(M, r, 'substrings of %d and %d bytes' % (m, k), sy('A', m), sy('B', k), limit)
    for m, k in ((255, 256), (256, 257), (3, 259), (258, 514), (512, 600), (300, 301)):
        pair(M, r, 'a substring of %d bytes that begins one of %d' % (m, k), shared('A', m), shared('B', k), limit)
    for m, k in ((20, 20), (255, 255), (256, 256), (300, 257), (600, 600), (600, 650), (1030, 1040)):
        for pos in sorted({0, 1, m // 2, min(m, k) - 1}):
            A, B = shared('A', m, pos, byte('x')), shared('B', k, pos, byte('y'))
            pair(M, r, 'substrings of %d and %d bytes that differ in byte %d' % (m, k, pos), A, B, limit)
    r.count('abstract instructions', M.steps)
    if not r.coverage.get('comparisons'):
        raise AnalysisError('C21: no comparison found at the sorting call of sort_LMS_strings')
    return r
