"""C01: the input buffer is read-only and released only on request."""
from front import AnalysisError
from result import Result
import heapruns
from checks.heapcommon import *


def run(tier):
    r = Result("Heap typestate analysis of bwt_string: every path is interpreted abstractly for lengths 1, 2, 3 and any larger length, with and "
               "without release of the input. The input buffer is a heap block of the caller: a store that can only go to it (directly, through "
               "a library function or through a callee that stores through that argument), a release without request, a missing, second or "
               "mismatched release, an access after the release and a result that refers to it are violations.",
               ["allocation succeeds (C19)", "the sorters and inducing steps release what they were found to release (C02, C03)",
                "stores through pointers of unknown origin do not reach the input buffer"])
    outs = heapruns.transforms(tier, {})
    fill(r, outs)
    r.coverage['calls that may store to the input'] = sum(o.maywrite for o in outs)
    n = 0
    for o in outs:
        n += 1
        for rule, loc, msg in o.tbad:
            r.bad(rule, loc, '%s (%s)' % (msg, o.name))
    return r
