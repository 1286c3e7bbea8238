"""C22: the input is read only inside its bounds."""
from front import AnalysisError
from result import Result
from terms import *
import scan


def run(tier):
    top = 7 if tier == 'quick' else 9
    r = Result("bwt_string is interpreted abstractly up to the call of the suffix sorter, for each length up to %d with every byte symbolic and each "
               "order of neighbouring bytes on its own path, and for longer inputs (substrings around 4 to 258 bytes) with a given order of neighbours: every access to the input and every range given to insert_string or find_name must "
               "lie in positions 0 to n, and the ranges have at least three bytes." % top,
               ["the methods of the table read the range they are given (judged with the table's own scenarios, C12)"])
    for n, c, ip in scan.runs(tier, r):
        r.count('accesses judged', c.reads - c.unknown)
        r.count('accesses undecided', c.unknown)
        for b in c.bad:
            if b[0] == 'outside the input':
                w = scan.witness(b[3], n)
                if w is not None:
                    r.bad(b[0], b[1], '%s, %s' % (scan.show(w), b[2]))
        seen = set()
        for s in c.done:
            r.count('paths')
            for e in s.events():
                if e[0] == 'some':
                    r.count('undecided paths')
                    break
                if e[0] not in ('insert', 'find'):
                    continue
                m, off = e[1:3]
                r.count('ranges judged')
                if not isinstance(m, int) or not isinstance(off, int):
                    r.count('ranges undecided')
                    continue
                if m < 3 or off < 0 or off + m - 1 > n:
                    if (e[0], e[3]) in seen:
                        continue
                    w = scan.witness(s, n)
                    if w is not None:
                        seen.add((e[0], e[3]))
                        r.bad('bad range', e[3], '%s, the range of %d bytes at offset %d is %s (the input has the positions 0 to %d)' % (
                            scan.show(w), m, off, 'inserted' if e[0] == 'insert' else 'looked up', n))
    if not r.coverage.get('accesses judged') and not r.violations:
        raise AnalysisError('C22: nothing was decided')
    return r
