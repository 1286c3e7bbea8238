"""C13: the chosen integer width holds every value."""
from front import AnalysisError
from result import Result
from terms import *
from state import *
from interp import Budget
import armx


def values(top, quick):
    r = [1, 2, 3, 5, 100]
    for k in range(4, top):
        r += [(1 << k) + d for d in ((-3, -2, -1, 0, 1, 2) if not quick or k % 8 in (0, 7) else (-1, 0))]
    return [x for x in r if x < (1 << top)]


def select(r, V, N, quick):
    try:
        c, outs = armx.execute(V, N)
    except Budget:
        r.count('undecided outcomes')
        return
    r.count('choices judged')
    r.count('abstract instructions', c.steps)
    what = 'largest position %d, %d substrings' % (V, N)
    for rule, loc, msg in c.bad:
        r.bad(rule, loc, '%s (%s)' % (msg, what))
    if len(c.sorted) > 1:
        r.count('undecided outcomes')
        return
    if not c.sorted:
        ret = [o for o in outs if o[0] == 'ret']
        if ret and len(outs) == len(ret):
            r.bad('no width', ret[0][3], 'no integer width is chosen: the suffix sorter is not called (%s)' % what)
        else:
            r.count('undecided outcomes')
        return
    w, arr, rest, loc = c.sorted[0]
    if max(V, N + 1) >= 1 << w - 1:
        r.bad('width', loc, '%d-bit integers are chosen, which do not hold %d (%s)' % (w, max(V, N + 1), what))
    ints = [a for a in rest if isinstance(a, int)]
    n = ints[1] if len(ints) >= 4 else None
    for (size, shift), s in zip(armx.PARTS[w], c.sizes):
        if not isinstance(s, int):
            r.count('undecided outcomes')
        elif s < size * max(N + 1, n or 0):
            r.bad('array too short', loc, 'an array of %d bytes is handed to the sorter for %d integers, %d bytes of each (%s)' % (s, max(N + 1, n or 0), size, what))
        r.count('arrays judged')


def run(tier):
    quick = tier == 'quick'
    r = Result("bwt_string is interpreted abstractly with the collecting, sorting and renaming steps replaced by given results. For each power of two below 2^62 "
               "and the values next to it as largest position (with few substrings) and as number of substrings below 2^59 (with a small largest position), "
               "and for both together, the suffix sorter that is called, its arrays and their sizes are found: the width has to hold the largest "
               "position and the number of substrings plus one as a signed value, and every array has to hold the elements sorted. For each of "
               "the five widths the execution is followed up to the inducing step: one sorter and one inducing step of the same width are called, with the "
               "same arrays, and every access to the arrays is inside them.",
               ["the widths at which a choice changes are powers of two (values in between are sampled)"])
    top = 62
    for V in values(top, False):
        select(r, V, 3, quick)
    for N in values(59, False):
        if N > 3:
            select(r, 10, N, quick)
    for k in range(4, 59):
        for x, y in ((-1, -1), (-1, 0), (0, -1), (0, 0), (-2, 1)):
            select(r, (1 << k) + x, (1 << k) + y, quick)
    for k in range(5, 61, 3):
        select(r, (1 << k) + (1 << k) // 3 * 2, 17, quick)
        if k < 58:
            select(r, 1000, (1 << k) + (1 << k) // 3, quick)
    for w in armx.W:
        for sa, names, U, lens in cases(quick):
            for free in (False, True):
                c, outs, want, V = armx.arm(len(sa) - 1, U, w, sa, names, lens, free)
                r.count('arms followed')
                what = '%d substrings, largest position %d' % (len(sa) - 1, V)
                for rule, loc, msg in c.bad:
                    r.bad(rule, loc, '%s (%s)' % (msg, what))
                for k, t, v, loc in outs:
                    ev = [e for e in t.events() if e[0] in ('sort', 'induce')]
                    if k != 'ret':
                        r.count('undecided outcomes')
                        continue
                    so, du = [e for e in ev if e[0] == 'sort'], [e for e in ev if e[0] == 'induce']
                    if len(so) != 1 or len(du) != 1:
                        r.bad('one width', loc, '%d suffix sorters and %d inducing steps are called (%s)' % (len(so), len(du), what))
                    elif so[0][1] != du[0][1]:
                        r.bad('one width', c.induced[0][3], 'the arrays were sorted as %d-bit integers and are taken for %d-bit integers (%s)' % (so[0][1], du[0][1], what))
                    elif any(not isinstance(a, Ptr) for a in so[0][2] + du[0][2]):
                        r.count('undecided outcomes')
                    elif so[0][2] != du[0][2] and not copied(c, want):
                        r.bad('other arrays', c.induced[0][3], 'the inducing step is not given the arrays that were sorted (%s)' % what)
    if not r.coverage.get('arrays judged') and not r.violations:
        raise AnalysisError('C13: no choice was followed to a suffix sorter')
    return r


def copied(c, want):
    """other arrays with the right content"""
    return len(c.induced) == 1 and (c.induced[0][2] == want or None in c.induced[0][2])


def cases(quick):
    yield (3, 1, 0, 2), (2, 1, 1, 0), 1, (1, 9, 30)
    yield (5, 4, 2, 0, 3, 1), (3, 2, 1, 2, 1, 0), 2, (1, 9, 4, 30)
    yield (0,), (1,), 0, (1, 5)
