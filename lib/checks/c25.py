"""C25: positions fit the widths computed for them."""
from front import AnalysisError, field, layout
from result import Result
from terms import *
from state import *
from tablex import String, byte, witness
from checks.c12 import shared
from checks import c24
from checks.c24 import cell, one
import sortx
from sortx import text


def get(t, f):
    L = layout(sortx.F)
    if f not in L:
        return None
    c = t.objs['C'].cells.get(L[f][0])
    v = c[1] if c is not None else None
    if L[f][1].endswith('uint8_t') and isinstance(v, int):
        v &= 255
    return v


def judge(M, r, what, k, t, v, loc, strings, head, span=None):
    if k != 'ret' or witness(t.facts) is None:
        return
    m = len(strings)
    base, width, top = get(t, 'bwp_base'), get(t, 'bwp_width'), get(t, 'sa_max_value')
    if not isinstance(base, Ptr) or not isinstance(base.off, int):
        r.count('undecided outcomes')
        return
    for i in range(1, m + 2):
        p = cell(t, v, i)
        q, n = (one(M, 'get_first_character_pointer', t, p), one(M, 'get_length', t, p)) if p is not None else (None, None)
        if not isinstance(q, Ptr) or not isinstance(n, int) or q.base != base.base or not isinstance(q.off, int):
            r.count('undecided outcomes')
            continue
        lo, hi = q.off - base.off, q.off + n - 1 - base.off
        if span is not None:
            span.append(hi)
        r.count('records judged')
        name = 'the record of the beginning of the text (%d bytes)' % head.m if i > m else 'record %d' % i
        if lo < 0:
            r.bad('negative', loc, 'the positions in %s begin at %d (%s)' % (name, lo, what))
        if isinstance(width, int) and not hi < 1 << width:
            r.bad('queue width', loc, 'position %d in %s does not fit the %d bits of a queue entry (%s)' % (hi, name, width, what))
        elif not isinstance(width, int):
            r.count('undecided outcomes')
        if isinstance(top, int) and hi > top:
            r.bad('largest position', loc, 'position %d in %s is above the largest position computed, %d (%s)' % (hi, name, top, what))
        elif not isinstance(top, int):
            r.count('undecided outcomes')
    M.c.bad = []


def run(tier):
    quick = tier == 'quick'
    r = Result("sort_LMS_strings is interpreted abstractly on tables built by the insertion code - none to eight substrings in one to five buckets, beginnings of "
               "the text of many lengths, chosen so that the extent of the records comes close to powers of two from both sides, the memory moving and "
               "growing in place. At the end of every path the position of the first and last byte of every record, relative to the base pointer that was "
               "stored, has to be non-negative, less than two to the width stored for queue entries, and at most the largest position that was stored for "
               "the choice of the integer width.",
               ["a finite number of scenarios, memory of up to %s bytes" % ('70,000' if quick else '140,000')])
    M = sortx.Sorter()
    M.c.max_steps = 4000000
    limit = 12000000 if quick else 80000000
    go = lambda *a, span=None, **k: c24.scenario(M, r, *a, limit=limit, each=lambda *b: judge(*b, span=span), **k)
    go('no substring', 10, 2, [], text(3))
    one_ = lambda: [String('S', [2, 3, 1])]
    for n in (10, 1000, 200000):
        span = []
        go('one substring', n, 1, one_(), text(1, 0), span=span)
        if not span:
            continue
        d = max(span)
        for k in (10, 11) if quick else (10, 11, 12, 13, 16, 17):
            for x in range(-9, 12) if k < 12 else range(-2, 9, 2):
                h = (1 << k) - d + x
                if h > 0:
                    go('a beginning of %d bytes' % h, n, 1, one_(), text(h, 0), moved=bool(h & 1))
    for w, n, size, S in c24.chains():
        for h, mv in ((1, True), (300, False)):
            go(w, n, size, S, text(h, 0), moved=mv)
    for m in range(460, 530, 2 if quick else 1):
        go('a substring of %d bytes' % m, 10, 1, [String('S', [2] * (m - 1) + [1])], text(1 + m % 7, 0), moved=bool(m & 1))
    go('a beginning of 66,000 bytes', 1000, 1, one_(), text(66000, 0))
    for sizes, b in (((7, 9), {'S0': 1, 'S1': 4}), ((9, 7), {'S0': 4, 'S1': 1}), ((400, 300, 30), {'S0': 4, 'S1': 1, 'S2': 0})):
        go('several buckets', 1000, 5, [String('S%d' % i, [2] * (k - 1) + [1]) for i, k in enumerate(sizes)], text(5, 0), b)
    r.count('abstract instructions', M.steps)
    if not r.coverage.get('records judged') and not r.violations:
        raise AnalysisError('C25: no record was judged')
    return r
