"""C19: running out of memory is reported."""
from front import AnalysisError
from result import Result
import heapruns
from checks.heapcommon import fill


def run(tier):
    r = Result("Heap analysis with failing allocations: every entry (bwt_string, the inducing steps, the suffix sorters, insert_string, the queue's "
               "methods, the packed array's constructor, bwt_file) is interpreted abstractly on every path, and on every path each allocation in turn fails: "
               "malloc, calloc, realloc and nothrow new give null, operator new throws. Afterwards a read or write through null and a normal return "
               "are violations.",
               ["one allocation fails per path; allocations inside the standard library are not made to fail",
                "a function called opaquely reports its own failures (it is an entry itself or a table method without allocation)"])
    outs = heapruns.starving()
    fill(r, outs)
    r.coverage['allocation sites made to fail'] = len(set().union(*[o.failed for o in outs]))
    r.coverage.pop('release sites', None)
    for o in outs:
        if o.error:
            continue
        for rule, loc, msg, name in o.bad:
            if rule == 'null access':
                r.bad(rule, loc, '%s (%s)' % (msg, o.name))
        for site, loc in o.after:
            r.bad('failure not reported', site, 'this allocation fails, but %s returns normally at %s' % (o.name, loc))
    if not r.coverage['allocation sites made to fail']:
        raise AnalysisError('C19: no allocation was seen')
    return r
