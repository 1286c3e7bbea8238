"""C20: all 256 byte values are handled, in bucket order."""
from front import AnalysisError, load
from result import Result
import armx, inducex
from checks.c15 import drives, SLOT

RULES = {'subscript': 'subscript', 'outside': 'outside', 'empty queue': 'empty queue'}


def needed():
    """(pass, queue, bucket) in the order in which they have to be drained; byte b is bucket b + 1"""
    r = []
    for c in range(1, 257):
        r.append((1, inducex.L, c))
        if c < 256:             # the largest byte never begins an LMS substring
            r.append((1, inducex.LMS, c))
    for c in range(256, 0, -1):
        if c < 256:             # no smaller byte follows the largest one in the second pass
            r.append((2, inducex.L, c))
        if c > 1:               # nothing is smaller than byte 0
            r.append((2, inducex.S, c))
    return r


def name(k):
    return '%s queue of byte %d (pass %d)' % (SLOT[k[1]], k[2] - 1, k[0])


def run(tier):
    quick = tier == 'quick'
    r = Result("The five inducing functions are interpreted abstractly with ideal queues, on a path on which every queue is found empty: the order in "
               "which the queues of the 256 bytes are asked for is compared with the specified one (pass 1 ascending, L before LMS; pass 2 descending, "
               "refilled before put-aside). At chosen buckets (smallest, largest, middle) paths divide off with entries behind every kind of "
               "byte; every subscript of a queue table or per-character table has to be inside its bounds, on these paths, in the loops over all "
               "buckets and in the distribution of positions of bytes 0 to 255.",
               ["queues behave as the queue property (C16) says", "a queue that can never hold an entry need not be drained (LMS of byte 255, put-aside of byte 0, refilled of byte 255)"])
    load(inducex.KEEP)
    res = drives(tier, {1, 2, 128, 255, 256} if quick else None, {1, 256})
    want = needed()
    for (kind, high), by in res.items():
        for w, x in by.items():
            if 'undecided' in x:
                r.count('undecided outcomes')
                continue
            r.count('abstract instructions', x['steps'])
            r.count('paths with entries', len(x['result']))
            for rule, loc, msg in x['bad']:
                r.bad(rule, loc, msg)
            if kind != 'drive':
                continue
            r.count('functions followed')
            vis = x['visits']
            if vis is None:
                r.count('undecided outcomes')
                continue
            pos, bad = {}, len(set(vis)) < len(vis)
            for i, k in enumerate(vis):
                pos.setdefault(k, i)
            if bad:
                r.count('undecided outcomes')
                continue
            r.count('queues in order', len(want))
            f = 'induce_bwt_%dbit' % w
            miss = [k for k in want if k not in pos]
            if miss:
                prev = next((x['where'].get(k) for k in want if k[0] == miss[0][0] and k in x['where']), None)
                r.bad('not drained', prev, '%s: the %s is never drained (%d queues are not)' % (f, name(miss[0]), len(miss)))
                continue
            for a, b in zip(want, want[1:]):
                if pos[a] > pos[b]:
                    r.bad('order', x['where'].get(b), '%s: the %s is drained before the %s' % (f, name(b), name(a)))
                    break
    if not r.coverage.get('functions followed') and not r.coverage.get('undecided outcomes') and not r.violations:
        raise AnalysisError('C20: no inducing function was followed')
    return r
