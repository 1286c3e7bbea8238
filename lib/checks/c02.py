"""C02: a transform leaks no memory."""
from front import AnalysisError
from result import Result
import heapruns
from checks.heapcommon import *


def run(tier):
    r = Result(EXPL + "At every normal exit each block allocated must have been released or be reachable from the result (for a method: from its object); "
               "bwt_file must hold no block at any exit it causes itself.", ASSUME)
    outs = heapruns.everything(tier)
    fill(r, outs)
    for o in outs:
        if o.error:
            continue
        for site, loc in o.leaks:
            r.bad('leak', loc, 'memory allocated at %s is neither released nor reachable any more (%s)' % (site, o.name))
    if not r.coverage.get('allocation sites'):
        raise AnalysisError('C02: no allocation was seen')
    return r
