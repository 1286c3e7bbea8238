"""C26: no length, position or count is cut."""
from result import Result
import quantx


def run(tier):
    r = Result("Interprocedural dataflow over the whole-program IR of the library (suffix sorters apart, which C14 judges). Quantities that grow with "
               "the input are the length, the size of a file, differences of pointers, whatever is counted in a loop or member without a constant "
               "bound, and everything calculated from these, through calls, returns and members. None of them may be converted to fewer bits, or "
               "counted in fewer bits, and then be compared, calculated with, used as subscript, returned, passed on or stored; parts of a quantity "
               "that are only stored (bytes of a record, halves of a split integer) and values bounded by masks, remainders and minima are no "
               "quantities that grow.",
               ["pointers and quantities have 64 bits", "values that go through arrays of integers are followed by C09, C10 and C14"])
    a = quantx.Analysis()
    a.judge(r)
    if len(a.fns) < 20 or len(a.big) < 20:
        from front import AnalysisError
        raise AnalysisError('C26: only %d functions and %d quantities found' % (len(a.fns), len(a.big)))
    return r
