"""Abstract executions of the suffix sorters."""
from front import load, AnalysisError
from terms import *
from state import *
from interp import Interp, Client, Dead, Budget
from armx import PARTS, W, value

KEEP = ['flbwt::sais_%dbit' % w for w in W]


class SaisClient(Client):
    unroll_limit = 4000
    max_steps = 150000
    separate = True
    separate_limit = 4000
    keep_facts = True
    lazy_gc = 2000

    def __init__(self):
        Client.__init__(self)
        self.bad = []
        self.depth = 0
        self.nested = 0

    def forked(self, ip, st, ins, c):
        raise Budget('a value is not determined')

    def access(self, ip, st, ins, p, size, write, val=None):
        o = st.objs.get(p.base)
        if o is None or not isinstance(o.size, int) or not isinstance(p.off, int) or not isinstance(size, int):
            return
        if p.off < 0 or p.off + size > o.size:
            what = {'T': 'the text', 'SA0': 'the suffix array', 'SA1': 'the suffix array', 'SA2': 'the suffix array'}.get(p.base, 'an array')
            self.bad.append(('outside', ip.fn.loc(ins), '%s has %d bytes; byte %d is %s' % (what, o.size, p.off, 'written' if write else 'read')))
            raise Dead()

    def call(self, ip, st, ins, name, callee, args):
        if callee is not None and callee.base in KEEP and not callee.decl:
            self.depth += 1
            self.nested = max(self.nested, self.depth)
            if self.depth > 8:
                raise Budget('recursion')
            env = st.env
            s2 = st.copy()
            s2.env = dict(zip(callee.args, args))
            sub_ = Interp(ip.mod, self)
            sub_.held = ip.held | frozenset(ip.reach(st, list(env.values())))
            r = []
            for k, s, v, l in sub_.run(callee, s2):
                s.env = dict(env)
                r.append((s, v if k == 'ret' else 'THROW'))
            ip.steps += sub_.steps
            self.depth -= 1
            return r
        return None


def packed(text, bits):
    """words of the shortened string: element 0 is the beginning of the text"""
    n = len(text) + 1
    v = 0
    for x in [0] + list(text):
        v = v << bits | x
    words = n * bits // 64 + 1
    v <<= words * 64 - n * bits
    return [v >> 64 * (words - 1 - i) & (1 << 64) - 1 for i in range(words)]


def sort(w, text, k, fs, bits):
    """(client, list of values or None, location)"""
    m = load(KEEP)
    f = m.one('flbwt::sais_%dbit' % w)
    reset()
    c = SaisClient()
    st = State()
    n = len(text)
    ws = packed(text, bits)
    st.new_obj('malloc', 8 * len(ws), None, 'the text', True, key='T')
    o = st.wobj('T')
    for i, x in enumerate(ws):
        o.cells[8 * i] = (8, x - (1 << 64) if x >> 63 else x)
    arr = []
    for i, (size, shift) in enumerate(PARTS[w]):
        st.new_obj('new[]', size * (n + fs), None, 'the suffix array', True, key='SA%d' % i)
        arr.append(Ptr('SA%d' % i, 0))
    args = [Ptr('T', 0)] + ([Ptr(None, 0)] * len(arr) if w not in (32, 64) else []) + arr + [fs, n, k, bits]
    if len(args) != len(f.args):
        raise AnalysisError('unexpected signature of flbwt::sais_%dbit' % w)
    st.env = dict(zip(f.args, args))
    ip = Interp(m, c)
    outs = ip.run(f, st)
    c.steps = ip.steps
    if len(outs) != 1 or outs[0][0] != 'ret':
        return c, None, None
    t = outs[0][1]
    return c, [value(t, arr, i, w) for i in range(n)], outs[0][3]
