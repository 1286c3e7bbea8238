"""C05: every stream is closed exactly once."""
from result import Result
from checks.filecommon import *


def run(tier):
    r = Result("Typestate of the streams of flbwt::bwt_file over every path of its IR, with every stdio call and every allocation of the library "
               "failing or succeeding, and with the transform failing or succeeding. A stream is created by a successful open, used only while "
               "it is open and not null, closed at most once, and closed on every exit of the function, normal or by exception.",
               ["stdio behaves as the C standard says; a failed fclose also ends the stream"])
    for faults in ((0, 1) if tier == 'quick' else (0, 1, 2, 3)):
        e = explore(r, faults, True)
        if e is None:
            continue
        f, c, outs = e
        for k, s, v, loc in outs:
            r.count('exits checked')
            for st in s.x.get('streams', {}).values():
                r.count('streams followed to an exit')
                if st.open:
                    at = s.x.get('thrown', ('', loc))[1] if k == 'throw' else loc
                    r.bad('stream left open', st.loc, 'the stream opened here is still open when bwt_file %s at %s: %s' % (
                        'throws' if k == 'throw' else 'returns', at, filex.path(s)))
        for k, l, m, s in c.bad:
            if k in ('null stream', 'closed stream'):
                r.bad(k, l, '%s: %s' % (m, filex.path(s)))
    if not r.coverage.get('streams followed to an exit'):
        raise AnalysisError('C05: no stream was followed to an exit')
    return r
