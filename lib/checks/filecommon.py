"""Shared by C04-C07: abstract executions of bwt_file."""
from front import AnalysisError
from terms import *
import filex


def explore(r, faults, oom):
    """returns (function, client, outcomes) or None when the analysis does not terminate"""
    c = filex.FileClient(faults, oom)
    try:
        f, ip, outs = filex.run(c)
    except AnalysisError as e:
        if 'anchor' in str(e) or 'signature' in str(e):
            raise
        r.count('runs without answer')
        return None
    if not any(n == 'fopen' for n, _ in c.sites):
        raise AnalysisError('flbwt::bwt_file calls no fopen')
    r.count('paths', len(outs))
    r.count('abstract instructions', ip.steps)
    sites = set(c.sites)
    r.coverage['stdio call sites'] = len(sites)
    r.coverage['stdio call site list'] = sorted('%s %s' % (n, l.split(' ')[0]) for n, l in sites)
    if c.unmodelled:
        r.coverage['calls without a model'] = sorted(c.unmodelled)
    return f, c, outs


def faults_of(s):
    return s.x.get('faults', ())
