"""C16: the position queue is an exact double-ended queue."""
from front import AnalysisError
from result import Result
import queuex
from queuex import *


def run(tier):
    r = Result("Shape analysis of the methods of flbwt::Queue from their IR: the methods are interpreted abstractly on the new queue and on queues "
               "of one, two and three blocks whose first and last offsets are symbols (every value allowed by the representation), in all "
               "sequences of operations up to a fixed length. A ghost list holds, in order, the places of the elements; each removal must read "
               "the place at the head of the list, each insertion must store the given value in a place of a block that holds no element of the "
               "queue, is_empty must answer whether the list is empty, and no null or released block may be accessed. It is also decided whether "
               "the states after one operation are again states the exploration starts from (then the result holds for histories of any length).",
               ["PackedArray::get_value returns what set_value stored at the same index (C10)",
                "a list of more than three blocks behaves like one of three: an operation follows at most one link",
                "dequeue is called on a queue that is not empty; allocation succeeds (C19)"])
    M = Machine()
    depth = 3 if tier == 'quick' else 5
    X = Explorer(M)
    r.coverage['sequence length'] = depth
    for s0 in M.new():
        G, note = starts(M, s0)
        open_ = []
        seen = {signature(M, g.st) for g in G}
        for g in G:     # grows
            for op in OPS:
                for n in X.step(g, op):
                    r.count('one-step outcomes')
                    if not closed(M, n):
                        open_.append(n)
                    elif M.chain(n.st) and len(M.chain(n.st)) <= 3 and len(G) < 12:
                        k = signature(M, n.st)
                        if k not in seen:
                            seen.add(k)
                            G.append(again(M, n, len(G)))
            X.run(g, depth)
        # states that do not have the expected representation: followed further
        for n in open_[:12]:
            X.run(n, depth + 1)
        r.count('starting states', len(G))
        r.count('outcomes outside the starting states', len(open_))
        if note:
            r.coverage['queues with blocks not analysed'] = note
    r.coverage['sequences'] = X.sequences
    r.coverage['obligations decided'] = X.decided
    r.coverage['obligations undecided'] = X.undecided
    r.coverage['abstract instructions'] = M.steps
    for rule, loc, msg in X.bad:
        r.bad(rule, loc, msg)
    for (rule, loc), (msg, o) in M.c.bad.items():
        if rule == 'use after release':
            r.bad(rule, loc, msg)
    if not X.decided:
        raise AnalysisError('C16: nothing was decided')
    return r
