"""C03: memory is released correctly."""
from front import AnalysisError
from result import Result
import heapruns
from checks.heapcommon import *


def run(tier):
    r = Result(EXPL + "A second release, a release with a function that does not match the allocation or through a pointer into the middle of a block, "
               "a read or write of a released or moved block, and a released block that the result or the object still refers to are violations.", ASSUME)
    outs = heapruns.everything(tier)
    fill(r, outs)
    for o in outs:
        if o.error:
            continue
        for rule, loc, msg, name in o.bad:
            if name == 'T' and o.name.startswith('bwt_string'):
                if rule != 'use after release' and rule != 'released twice' and rule != 'mismatched release':
                    continue
            r.bad(rule, loc, '%s (%s)' % (msg, o.name))
        for msg, loc in o.dangling:
            r.bad('dangling reference', loc, '%s (%s)' % (msg, o.name))
    if not r.coverage.get('release sites'):
        raise AnalysisError('C03: no release was seen')
    return r
