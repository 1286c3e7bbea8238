"""C17: invalid arguments are rejected before anything happens; every other argument is accepted."""
import re
from front import AnalysisError, REPO, fmtloc
from result import Result
from terms import *
from interp import Client
import transform as tr


def own(ins):
    l = ins.get('loc')
    return bool(l) and l[0].startswith(REPO)


class Watch(Client):
    """records what happens before the exception"""

    def __init__(self):
        Client.__init__(self)
        self.nulls = {}
        self.deads = 0

    def call(self, ip, st, ins, name, callee, args):
        fn = ip.fn
        if name == '__cxa_throw':
            st.x['thrown'] = (args[1].base[1] if len(args) > 1 and isinstance(args[1], Ptr) and isinstance(args[1].base, tuple) else None, fn.loc(ins))
        elif name in ip.ALLOC and own(ins):
            st.x.setdefault('first', ('allocates memory', fn.loc(ins)))
        elif name in ip.FREE and own(ins) and args and isinstance(args[0], Ptr) and args[0].base == 'T':
            st.x.setdefault('first', ('releases the input', fn.loc(ins)))
        return None

    def access(self, ip, st, ins, p, size, write, val=None):
        if p.base == 'T':
            st.x.setdefault('first', ('%s the input' % ('writes' if write else 'reads'), ip.fn.loc(ins)))

    def null_access(self, ip, st, ins, write):
        self.nulls.setdefault(ip.fn.loc(ins), (write, [c for c in st.facts.s]))

    def dead_access(self, ip, st, ins, o, write):
        self.deads += 1


def thrown_ok(t):
    """is the thrown type std::invalid_argument (or something the analysis cannot see to be another type)"""
    if t == '_ZTISt16invalid_argument':
        return True
    return t is None or not (t.startswith('_ZTISt') or re.match(r'_ZTI[a-z]$', t) or t.startswith(('_ZTIPKc', '_ZTIPc')))


def run(tier):
    r = Result("flbwt::bwt_string is interpreted abstractly from its IR, with everything inlined except the methods of the substring table, the "
               "packed-array accessors, the suffix sorters and the inducing steps. Rejected arguments (null buffer with any length; length zero "
               "with any buffer; both values of the release flag): every path must end in std::invalid_argument, and before it no byte of the "
               "input is read or written and nothing is allocated or released. Accepted arguments (each length from 1 to a small bound with "
               "symbolic bytes; one run for all longer lengths): no path whose condition depends on the arguments alone ends in an exception, no "
               "null pointer is dereferenced, and some path returns.",
               ["allocation succeeds (C19 covers failing allocation)",
                "the methods of the substring table, the sorters and the inducing steps are taken by their effects; what they throw by themselves is not part of this check"])
    f = tr.entry()
    where = '%s (%s)' % (f.loc(f.blocks[f.entry][-1]).split(' ')[0], 'flbwt::bwt_string')
    # rejected
    for T, n, what in (('null', 'any', 'a null buffer'), ('obj', 0, 'length zero'), ('null', 0, 'a null buffer of length zero')):
        for fr in (False, True):
            reset()
            c = Watch()
            nv = lin(atom('n', name='n', w=64)) if n == 'any' else n
            ip, outs = tr.run(c, T, nv, fr)
            r.count('argument classes')
            for k, s, v, loc in outs:
                r.count('paths')
                if k == 'ret':
                    r.bad('not rejected', loc, 'bwt_string returns normally for %s (free_T=%d)' % (what, fr))
                    continue
                t = s.x.get('thrown')
                if t is None:
                    r.bad('not rejected', loc, 'for %s (free_T=%d) an exception other than std::invalid_argument leaves bwt_string' % (what, fr))
                    continue
                if not thrown_ok(t[0]):
                    r.bad('wrong exception', t[1], '%s (free_T=%d) is answered with an exception that is not std::invalid_argument' % (what, fr))
                if 'first' in s.x:
                    r.bad('effect before rejection', s.x['first'][1], 'for %s (free_T=%d) bwt_string %s before it rejects the call' % (what, fr, s.x['first'][0]))
            for l, (w, _) in c.nulls.items():
                r.bad('null access', l, 'for %s (free_T=%d) a null pointer is %s instead of the call being rejected' % (what, fr, 'written through' if w else 'read'))
            if not outs and not c.nulls:
                r.count('undecided argument classes')
    # accepted
    top = 4 if tier == 'quick' else 6
    for n in list(range(1, top + 1)) + [None]:
        for fr in ((False, True) if n in (1, 2, None) else (False,)):
            reset()
            c = Watch()
            nv = n if n is not None else tr.sym_n(top + 1)
            what = 'length %s' % (n if n is not None else 'above %d' % top)
            try:
                ip, outs = tr.run(c, 'obj', nv, fr)
            except AnalysisError as e:
                if 'anchor' in str(e):
                    raise
                r.count('undecided argument classes')
                continue
            r.count('argument classes')
            r.count('abstract instructions', ip.steps)
            ret = 0
            for k, s, v, loc in outs:
                r.count('paths')
                if k == 'ret':
                    ret += 1
                    if isinstance(v, Ptr) and v.base is None:
                        if all(tr.input_cond(x) for x in s.facts.s):
                            r.bad('no result', loc, 'bwt_string returns a null pointer for %s' % what)
                    continue
                t = s.x.get('thrown')
                if t is None:
                    continue
                bad = [x for x in s.facts.s if not tr.input_cond(x)]
                if not bad:
                    r.bad('valid argument rejected', t[1], 'for %s bwt_string throws an exception%s' % (
                        what, ' when ' + ', '.join(repr(x) for x in list(s.facts.s)[:4]) if s.facts.s else ''))
                else:
                    r.count('exceptions under other conditions')
            for l, (w, facts) in c.nulls.items():
                if all(tr.input_cond(x) for x in facts):
                    r.bad('null access', l, 'for %s a null pointer is %s' % (what, 'written through' if w else 'read'))
                else:
                    r.count('null accesses under other conditions')
            if not ret and not c.nulls and not c.deads and all(s.x.get('thrown') for k, s, v, l in outs):
                l = outs[0][1].x['thrown'][1] if outs else where
                r.bad('valid argument rejected', l, 'no path of bwt_string returns for %s' % what)
    if not r.coverage.get('paths'):
        raise AnalysisError('C17: nothing was decided')
    return r
