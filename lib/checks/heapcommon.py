"""What C01-C03 have in common."""
import os, pickle, hashlib, time
from front import AnalysisError
import heapruns

EXPL = ("Heap typestate analysis: every entry is interpreted abstractly on every path with a heap of blocks (allocation site, kind of allocation, "
        "alive or released, pointers stored). Entries: bwt_string for lengths 1, 2, 3 and any larger length, with and without release of the "
        "input, the five inducing steps, the five suffix sorters, insert_string on a new and on a used table, the queue's methods in all "
        "short histories followed by the destructor, the packed array, and bwt_file with stdio operations failing. Callees judged on their own "
        "are represented in their callers by the effect found for them (which argument they release and with which function, what they return). ")
ASSUME = ["allocation succeeds (C19 covers failures)", "paths on which the transform returns a null result (no integer width of 64 bits or less suffices) are not real",
          "loops are summarised by a join of the states of their iterations; blocks that only some joined states hold are not judged"]


def fill(r, outs):
    e = 0
    for o in outs:
        if o.error:
            e += 1
            r.coverage.setdefault('entries not analysed', []).append('%s: %s' % (o.name, o.error))
            continue
        r.count('entries')
        r.count('exits', o.exits)
        r.count('abstract instructions', o.steps)
        r.count('accesses', o.accesses)
    r.coverage['allocation sites'] = len(set().union(*[o.allocs for o in outs]))
    r.coverage['release sites'] = len(set().union(*[set(o.frees) for o in outs]) - {'T'})
    r.coverage['blocks not followed after a join'] = sum(o.lost for o in outs)
    if e == len(outs):
        raise AnalysisError('no entry could be analysed: %s' % r.coverage['entries not analysed'][:2])
