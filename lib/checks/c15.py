"""C15: inducing the transform does not depend on the integer width."""
from front import AnalysisError, load
from result import Result
from terms import *
from state import *
from interp import Budget
from collections import Counter
from concurrent.futures import ProcessPoolExecutor
import armx, inducex
from checks import c13

QUICK = {1, 2, 3, 64, 97, 98, 127, 128, 129, 130, 200, 254, 255, 256}


def work(job):
    """one width of the inducing step; everything that is needed as plain data"""
    kind, w, high, chars, lasts = job
    try:
        if kind == 'fill':
            c = inducex.filled(w, high)
            return dict(first=c.first, bad=c.bad, steps=c.steps, unknown=c.unknown, result={}, where={}, visits=None)
        if kind == 'history':
            c = None
            res, where, bad, steps, unknown = {}, {}, [], 0, 0
            for n in range(chars):
                c = inducex.history(w, high, n)
                res.update(c.result)
                where.update(c.where)
                bad += c.bad
                steps += c.steps
                unknown += c.unknown
            return dict(first=None, bad=bad, steps=steps, unknown=unknown, result=res, where=where, visits=None)
        c = inducex.drive(w, high, chars, lasts)
        return dict(first=None, bad=c.bad, steps=c.steps, unknown=c.unknown, result=c.result, where=c.where, visits=c.visits)
    except Budget as e:
        return dict(undecided=str(e))
    except AnalysisError as e:
        return dict(error=str(e))


def drives(tier, chars, lasts, histories=0):
    """{(kind, high): {width: outcome}}"""
    inducex.machine()
    jobs = [('drive', w, False, chars, lasts) for w in armx.W]
    jobs = [('fill', w, h, None, ()) for w in armx.W for h in (False, True)] + jobs
    if histories:
        jobs += [('history', w, True, histories, ()) for w in armx.W]
    r = {}
    with ProcessPoolExecutor(6) as ex:
        for j, x in zip(jobs, ex.map(work, jobs)):
            if 'error' in x:
                raise AnalysisError(x['error'])
            r.setdefault((j[0], j[2]), {})[j[1]] = x
    return r


SLOT = ('put-aside', 'L', 'LMS')


def show(e):
    if e is None or len(e) != 2:
        return repr(e)
    a, b = e
    if isinstance(a, int):
        return 'position of the last character %d, bytes %s' % (a, dict(b[:4]))
    return 'queues %s, bytes stored %s' % (', '.join('%s[%d]: %s' % (SLOT[k[0]], k[1], list(v)) for k, v in a[:3]) or 'unchanged', dict(b[:6]))


def outliers(have):
    """widths whose effect differs from that of the others"""
    n = Counter(have.values()).most_common()
    if len(n) < 2:
        return [], None
    ref = n[0][0] if n[0][1] > n[1][1] else have.get(64, n[0][0])
    return [w for w in have if have[w] != ref], ref


def judge_arms(r, quick):
    seen = {}
    for w in armx.W:
        for sa, names, U, lens in list(c13.cases(quick)) + more(quick):
            for high in (False, True):
                N = len(sa) - 1
                try:
                    c, outs, want, V = armx.arm(N, U, w, sa, names, lens, False, high)
                except Budget:
                    r.count('undecided outcomes')
                    continue
                r.count('arms followed')
                r.count('abstract instructions', c.steps)
                what = '%d substrings, largest position %d' % (N, V)
                if len(c.sorted) != 1 or c.sorted[0][0] != w:
                    r.count('undecided outcomes')
                    continue
                sw, arr, rest, loc = c.sorted[0]
                ok = len(rest) == 5
                if ok:
                    T, fs, n, k, cs = rest
                    for name, v, bad, msg in (
                            ('text', T, isinstance(T, Ptr) and T != Ptr('arr', 0), 'the sorter is not given the beginning of the shortened string'),
                            ('length', n, isinstance(n, int) and n != N + 1, 'the sorter is told a length of %s' % (n,)),
                            ('alphabet', k, isinstance(k, int) and k < U + 2, 'the sorter is told an alphabet of %s symbols, there are %d' % (k, U + 2)),
                            ('bits', cs, isinstance(cs, int) and cs != armx.BITS, 'the sorter is told elements of %s bits, they have %d' % (cs, armx.BITS))):
                        r.count('arguments judged')
                        if bad:
                            r.bad('arguments of the sorter', loc, '%s (%s)' % (msg, what))
                        elif isinstance(v, int):
                            seen.setdefault((sa, name, v), loc)
                    for (size, shift), a in zip(armx.PARTS[w], arr):
                        s = next((x.objs[a.base].size for _, x, _, _ in outs if isinstance(a, Ptr) and a.base in x.objs), None)
                        if isinstance(s, int) and isinstance(fs, int) and isinstance(n, int) and s < (fs + n) * size:
                            r.bad('arguments of the sorter', loc, 'the sorter is told %d free places behind %d elements; the array has %d bytes (%s)' % (fs, n, s, what))
                else:
                    r.count('undecided outcomes')
                if not c.induced:
                    r.count('undecided outcomes')
                    continue
                got = c.induced[0][2]
                if None in got:
                    r.count('undecided outcomes')
                elif got != want:
                    i = next(i for i in range(len(got)) if got[i] != want[i])
                    r.bad('positions', c.induced[0][3], 'suffix number %d is turned into position %d, not %d, in the %d-bit arm (%s)' % (sa[i], got[i], want[i], w, what))
                r.count('positions compared', len(got))


def more(quick):
    return [] if quick else [((7, 6, 5, 4, 3, 2, 1, 0), (4, 3, 3, 2, 1, 2, 1, 1), 3, (1, 255, 4, 256, 30))]


def run(tier):
    quick = tier == 'quick'
    r = Result("Arms: for each width the part of bwt_string after the renaming is interpreted abstractly with given results of the other steps; the values that "
               "reach the inducing step are compared with the last positions of the substrings (two magnitudes per width, the largest included), and the "
               "arguments of the sorter with the shortened string. Inducing: the five functions are interpreted abstractly with ideal queues. "
               "The distribution of the sorted positions to queues is followed on positions of two magnitudes. For each pass, each bucket chosen and both of its queues, "
               "a path divides off on which this queue has several entries, with bytes before them below, at and above every bound of "
               "the bucket; what it stores and enqueues is recorded and has to be the same for the five widths, as has the order of the queues. "
               "Whole paths with twenty-five positions of given neighbourhoods have to store the same. The position of the last "
               "character is followed to the end of the function.",
               ["queues behave as the queue property (C16) says", "per-character counts are fixed for these paths; positions are offsets of them"])
    load(inducex.KEEP)
    judge_arms(r, quick)
    res = drives(tier, QUICK if quick else None, {2, 98, 256} if quick else {1, 2, 3, 98, 129, 255, 256}, 6 if quick else 48)
    for (kind, high), by in res.items():
        und = [w for w in by if 'undecided' in by[w]]
        for w in und:
            r.count('undecided outcomes')
        by = {w: x for w, x in by.items() if 'undecided' not in x}
        for w, x in by.items():
            r.count('abstract instructions', x['steps'])
            for rule, loc, msg in x['bad']:
                r.bad(rule, loc, msg)
        if kind == 'fill':
            have = {w: x['first'][0] for w, x in by.items() if x['first'] and x['first'][0] is not None}
            bad, ref = outliers(have)
            r.count('distributions compared', len(have))
            for w in bad:
                r.bad('distribution', by[w]['first'][1], 'the sorted positions are distributed in another way than by the other widths: %s; others: %s' % (show(diff(have[w], ref)), show(diff(ref, have[w]))))
            continue
        if kind == 'drive':
            have = {w: order(x['visits']) for w, x in by.items() if x['visits'] is not None}
            bad, ref = outliers(have)
            r.count('drain orders compared', len(have))
            for w in bad:
                i = next((i for i, (a, b) in enumerate(zip(have[w], ref)) if a != b), min(len(have[w]), len(ref)) - 1)
                k = have[w][min(i, len(have[w]) - 1)] if have[w] else None
                r.bad('drain order', next((v for q, v in by[w]['where'].items() if k and q[1:] == k), None),
                      'the %d-bit step drains the queues in another order than the others: number %d is the %s' % (w, i, '%s queue of bucket %d' % (SLOT[k[0]], k[1]) if k else 'none'))
        keys = set()
        for x in by.values():
            keys |= set(x['result'])
        done = set()
        for key in sorted(keys, key=repr):
            have = {w: x['result'].get(key, 'missing') for w, x in by.items()}
            if any(v is None for v in have.values()):
                r.count('undecided outcomes')
            have = {w: v for w, v in have.items() if v is not None and v != 'missing'}
            bad, ref = outliers(have)
            r.count('drains compared', len(have))
            for w in bad:
                if kind == 'history':
                    if (w, kind) not in done:
                        done.add((w, kind))
                        r.bad('history', by[w]['where'].get(key), 'the %d-bit step differs after a sequence of positions (number %d): %s; others: %s' % (w, key, show(diff(have[w], ref)), show(diff(ref, have[w]))))
                    continue
                p, t, c, sc = key
                if (w, p, t, sc[0]) in done:
                    continue
                done.add((w, p, t, sc[0]))
                r.bad('drain', by[w]['where'].get(key[:3]), 'pass %d, %s queue of bucket %d%s: the %d-bit step differs: %s; others: %s' % (
                    p, SLOT[t], c, ', entries behind byte %d' % sc[1] if sc[0] == 'before' else ', with the beginning of the text', w, show(diff(have[w], ref)), show(diff(ref, have[w]))))
    if not r.coverage.get('drains compared') and not r.coverage.get('undecided outcomes') and not r.violations:
        raise AnalysisError('C15: no queue was followed')
    return r


def order(visits):
    """queues that can hold entries, in the order in which they are drained"""
    return tuple((t, c) for p, t, c in visits if 1 < c < 256)


def diff(a, b):
    """the parts of an effect that the other one does not have"""
    if not isinstance(a, tuple) or not isinstance(b, tuple):
        return a
    x, y = a
    if isinstance(x, int):
        return x, tuple(i for i in y if i not in b[1])
    return tuple(i for i in x if i not in b[0]), tuple(i for i in y if i not in b[1])
