"""Abstract executions of the inducing steps with ideal queues."""
from front import load, AnalysisError, field, layout
from terms import *
from state import *
from interp import Interp, Client, Dead, Fork, Budget
from armx import PARTS, W, F, store
import re

QM = ['flbwt::Queue::' + x for x in ('Queue', '~Queue', 'enqueue', 'enqueue_l', 'dequeue', 'is_empty')]
KEEP = ['flbwt::induce_bwt_%dbit' % w for w in W] + QM
TABLES = ('M', 'M2', 'M3', 'C', 'C2', 'NL')


class IClient(Client):
    """x['q']: {queue object: tuple of entries}"""
    unroll_limit = 4000
    max_steps = 4000000
    separate = True
    separate_limit = 4000
    keep_facts = True
    lazy_gc = 5000
    subscripts = True

    def __init__(self, n, base, last, byte):
        Client.__init__(self)
        self.n, self.base, self.last, self.byte = n, base, last, byte
        self.bad = []
        self.forks = 0
        self.asked = None       # called at is_empty

    def shapex(self, x):
        return ()

    def joinx(self, a, b):
        return a, False

    def flag(self, rule, loc, msg):
        self.bad.append((rule, loc, msg))

    def forked(self, ip, st, ins, c):
        self.forks += 1
        if self.forks > 2000:
            raise Budget('too many paths')

    def access(self, ip, st, ins, p, size, write, val=None):
        o = st.objs.get(p.base)
        if o is not None and isinstance(o.size, int) and isinstance(p.off, int) and (o.kind == 'new[]' or o.kind == 'alloca' or p.base == 'C'):
            if p.off < 0 or p.off + size > o.size:
                if o.kind == 'new[]' and o.size == self.n + 1:
                    raise Dead()
                self.flag('outside', ip.fn.loc(ins), 'byte %d of %s of %d bytes is %s' % (
                    p.off, 'an array' if p.base != 'C' else 'the container', o.size, 'written' if write else 'read'))
                raise Dead()

    def initial(self, ip, st, ins, p, o, size, ty):
        if p.base == 'buf' and size == 1 and isinstance(p.off, int):
            return signed(self.byte(p.off))
        return None

    def qof(self, st, q):
        return st.x['q'].get(q.base) if isinstance(q, Ptr) else None

    def put(self, st, q, v):
        d = dict(st.x['q'])
        d[q.base] = v
        st.x = dict(st.x, q=d)

    def call(self, ip, st, ins, name, callee, args):
        b = callee.base if callee is not None else ''
        if b not in QM:
            return None
        k = b.split('::')[-1]
        q = args[0]
        if not isinstance(q, Ptr) or q.base is None:
            raise Budget('queue not known')
        if k == 'Queue':
            self.put(st, q, ())
            st.x = dict(st.x, order=st.x.get('order', ()) + (q.base,))
            return [(st, None)]
        if k == '~Queue':
            return [(st, None)]
        have = self.qof(st, q)
        if have is None:
            raise Budget('queue not known')
        if k == 'enqueue':
            self.put(st, q, have + (args[1],))
            return [(st, None)]
        if k == 'enqueue_l':
            self.put(st, q, (args[1],) + have)
            return [(st, None)]
        if k == 'is_empty':
            if self.asked:
                r = self.asked(ip, st, ins, q)
                if r is not None:
                    return r
            return [(st, int(not have))]
        if not have:
            self.flag('empty queue', ip.fn.loc(ins), 'an entry is taken from an empty queue')
            raise Dead()
        self.put(st, q, have[1:])
        return [(st, have[0])]


def signed(b):
    return b - 256 if b > 127 else b


def machine():
    return load(KEEP)


def start(w, tables, sa, c):
    """state at the entry of the inducing step of width w"""
    m = machine()
    f = m.one('flbwt::induce_bwt_%dbit' % w)
    reset()
    st = State()
    st.x = dict(q={}, roots=('C', 'buf'))
    L = layout(F)
    st.new_obj('new', L[''][0], None, 'the container', True, key='C')
    st.new_obj('malloc', None, None, 'the table', True, key='buf')
    o = st.wobj('C')
    for t in TABLES:
        if t in L and t in tables:
            for i, v in enumerate(tables[t]):
                o.cells[L[t][0] + 8 * i] = (8, v)
    for k, s, v in (('bwp_width', 1, 20), ('bwp_base', 8, Ptr('buf', -c.base)), ('lastptr', 8, Ptr('buf', c.last)), ('n', 8, c.n), ('num_of_substrings', 8, len(sa) - 1)):
        if k not in L:
            raise AnalysisError('anchor vanished: %s::%s' % (F, k))
        o.cells[L[k][0]] = (s, v)
    arr = []
    for i, (size, shift) in enumerate(PARTS[w]):
        st.new_obj('new[]', size * (len(sa) + 1), None, 'the suffix array', True, key='SA%d' % i)
        arr.append(Ptr('SA%d' % i, 0))
    for i, v in enumerate(sa):
        store(st, arr, i, w, v + c.base)
    if len(f.args) != len(arr) + 1:
        raise AnalysisError('unexpected signature of flbwt::induce_bwt_%dbit' % w)
    st.env = dict(zip(f.args, arr + [Ptr('C', 0)]))
    return m, f, st


ROW = 256 + 2
LMS, L, S = 2, 1, 0
BYTES = {}
STEP = 64
LAST = 1 << 16


def tables():
    r = dict(M=[], NL=[], C=[])
    for i in range(ROW):
        r['M'].append(25 + i * 7 % 11 if i else 1)
        r['NL'].append(15 + i % 3 if i else 0)
        r['C'].append(2 + i % 2 if i else 1)
    for t in ('M2', 'M3', 'C2'):
        r[t] = [0] * ROW
    return r


def base(w, high):
    if high:
        return (1 << w - 1) - (1 << 20) if w < 64 else 1 << 61
    return {32: 1 << 21, 40: 0xa5 << 30, 48: 0xa5b7 << 30, 56: 0xa5b7c9 << 30, 64: 0xa5b7c9d << 30}[w] + (0x5a5a5a5 >> 4)


class Drive(IClient):
    """One path on which every queue is taken for empty; where a queue is first asked for, a path divides off for each scenario: the
    queue has the entries given; the path ends when they are worked off (or follows the function to its end)."""

    def __init__(self, w, high, chars, lasts):
        self.tables = tables()
        IClient.__init__(self, sum(self.tables['M']) - 1, base(w, high), LAST, self.text)
        self.w, self.chars, self.lasts = w, chars, lasts
        self.asked = self.ask
        self.bytes = {}
        self.at = {}
        self.slot = {}
        self.result = {}        # (pass, t, c, scenario): effect
        self.where = {}
        self.visits = None
        self.first = None
        self.fill = False
        self.unknown = 0
        self.dims = set()

    def text(self, off):
        return self.bytes.get(off, (off * 5 + off // 64) & 255)

    def initial(self, ip, st, ins, p, o, size, ty):
        if o.kind == 'new[]' and size == 1 and o.size == self.n + 1 and isinstance(p.off, int):
            return signed((p.off * 37 + 11) & 255)
        return IClient.initial(self, ip, st, ins, p, o, size, ty)

    def subscript(self, ip, st, ins, p, sel):
        o = st.objs.get(p.base)
        if o is None or o.kind != 'alloca' and p.base != 'C':
            return
        if o.kind == 'alloca':
            self.dims.add(tuple(n for _, n, _ in sel))
        for x, n, es in sel:
            if isinstance(x, int) and n > 0 and not 0 <= sx(x) < n:
                self.flag('subscript', ip.fn.loc(ins), 'element %d of an array of %d elements is accessed' % (sx(x), n))
                raise Dead()

    def place(self, st, q):
        r = self.slot.get(q.base)
        if r is None:
            for b, o in st.objs.items():
                if o.kind == 'alloca' and isinstance(o.size, int) and o.size == 3 * ROW * 8:
                    for off, (sz, v) in o.cells.items():
                        if isinstance(v, Ptr) and v.off == 0 and isinstance(off, int):
                            self.slot[v.base] = divmod(off // 8, ROW)
            r = self.slot.get(q.base)
            if r is None:
                raise Budget('queues are kept in another way')
        return r

    def effect(self, st, queues=True):
        """what was stored, as far as it is seen later"""
        qs = {}
        for b, e in st.x['q'].items() if queues else ():
            if e and st.x['before'].get(b) != e:
                if b not in self.slot:
                    self.place(st, Ptr(b, 0))
                qs[self.slot[b]] = tuple(x - self.base if isinstance(x, int) else None for x in e)
        bw = {}
        for b, o in st.objs.items():
            if o.kind == 'new[]' and o.size == self.n + 1 and isinstance(o.size, int):
                for off, (sz, v) in o.cells.items():
                    if (sz, v) != st.x['cells'].get(off):
                        bw[off] = v if sz == 1 and isinstance(v, int) else None
                        if isinstance(bw[off], int):
                            bw[off] &= 255
        if None in bw.values() or any(None in x for x in qs.values()) or any(not isinstance(k, int) for k in bw):
            self.unknown += 1
            return None
        return tuple(sorted(qs.items())), tuple(sorted(bw.items()))

    def cells(self, st):
        r = {}
        for b, o in st.objs.items():
            if o.kind == 'new[]' and o.size == self.n + 1 and isinstance(o.size, int):
                r.update(o.cells)
        return r

    def ask(self, ip, st, ins, q):
        pr = st.x.get('probe')
        if pr is not None:
            if pr[3][0] == 'last':
                return None
            if self.place(st, q) == pr[1:3] and st.x['q'][q.base]:
                return None
            self.result[pr] = self.effect(st)
            raise Dead()
        if self.fill:
            st.x = dict(st.x, before={}, cells={})
            self.first = (self.effect(st), ip.fn.loc(ins))
            raise Dead()
        t, c = self.place(st, q)
        vis = st.x.get('vis', ())
        if vis and vis[-1] == (t, c):
            return [(st, 1)]
        st.x = dict(st.x, vis=vis + ((t, c),))
        if not vis:
            st.x = dict(st.x, early=frozenset(st.x['q']))
        second = t == S or t == L and ((t, c) in vis or q.base not in st.x['early'])
        st.x = dict(st.x, passes=st.x.get('passes', ()) + (2 if second else 1,))
        out = [(st, 1)]
        key = (2 if second else 1, t, c)
        self.where[key] = ip.fn.loc(ins)
        if not self.chars or c in self.chars:
            for sc, entries in self.scenarios(second, t, c):
                k = st.copy()
                d = dict(st.x['q'])
                d = {b: () for b in d}
                d[q.base] = tuple(e + self.base for e in entries)
                k.x = dict(st.x, q=d, probe=key + (sc,), before={q.base: d[q.base]}, cells=self.cells(st))
                out.append((k, 0))
        return out

    def entry(self, *near):
        """a position with the bytes given before it"""
        off = self.at.get(near)
        if off is None:
            off = self.at[near] = STEP * (len(self.at) + 2)
            for i, b in enumerate(near):
                self.bytes[off - 1 - i] = b
            self.bytes[off - 1 - len(near)] = (near[-1] + 128) & 255
        return off

    def scenarios(self, second, t, c):
        b = c - 1
        near = [x for x in sorted({0, 1, b - 2, b - 1, b, b + 1, b + 2, 127, 128, 254, 255}) if 0 <= x <= 255]
        for x in near:
            # impossible entries: the queue of a smaller bucket, or one that was not put aside
            if second and t == S and x >= b:
                continue
            es = [self.entry(x, y, 77) for y in (x, x + 1, max(x - 1, 0), 0, 255, x + 1) if 0 <= y <= 255]
            yield ('before', x), es
        if c in self.lasts:
            x = min(max(b - 1, 0), 255) if second or t != L else min(max(b + 1, 0), 255)
            l = LAST + 1 if second else LAST
            if second:
                self.bytes[LAST] = x
                self.bytes[LAST - 1] = 200
            yield ('last', 1), [self.entry(x, x, 77), l, self.entry(x, 0, 77)]
            yield ('last', 0), [l]


def sx(x):
    return x - (1 << 64) if x >= 1 << 63 else x


def drive(w, high, chars=None, lasts=()):
    """the client after all scenarios of one width"""
    c = Drive(w, high, chars, lasts)
    near = c.entry(5, 9, 77)
    m, f, st = start(w, c.tables, [near], c)
    ip = Interp(m, c)
    outs = ip.run(f, st)
    c.steps = ip.steps
    for kind, t, v, loc in outs:
        pr = t.x.get('probe')
        if pr is None:
            if kind == 'ret':
                c.visits = tuple(p + v for p, v in zip(((p,) for p in t.x.get('passes', ())), t.x.get('vis', ())))
            continue
        key = pr
        if kind != 'ret' or not isinstance(v, Ptr) or v.base not in t.objs:
            c.result[key] = None
            c.unknown += 1
            continue
        R = t.objs[v.base]
        Lr = layout('flbwt::BWT_result')
        last = R.cells.get(Lr['last'][0]) if 'last' in Lr else None
        e = c.effect(t, False)
        if last is None or not isinstance(last[1], int) or e is None:
            c.result[key] = None
            c.unknown += 1
        else:
            c.result[key] = (last[1], e[1])
    return c


def filled(w, high):
    """the client after the entries were put in their queues and the first one was worked off"""
    c = Drive(w, high, None, ())
    c.fill = True
    sa = []
    for i, (b, near) in enumerate((((0), (200, 7)), ((10), (3, 4)), ((10), (5, 6)), ((255), (3, 9)), ((0), (1, 2)), ((128), (9, 9)), ((255), (0, 0)), ((127), (1, 1)), ((10), (2, 2)))):
        off = c.entry(*near)
        c.bytes[off] = b
        sa.append(off)
    m, f, st = start(w, c.tables, sa, c)
    ip = Interp(m, c)
    outs = ip.run(f, st)
    c.steps = ip.steps
    return c


def history(w, high, n):
    """the client after a whole path with many positions; result: {n: effect}"""
    c = Drive(w, high, None, ())
    sa = []
    for i in range(24):
        b = (0, 10, 11, 12, 97, 127, 128, 129, 130, 200, 254, 255)[(i * 5 + n) % 12]
        near = [(b + (i * 7 + k * 5 + n) % 9 - 4) & 255 for k in range(4)]
        if i % 3 == 0:
            near = [min(b + k, 255) for k in range(4)]
        if i % 7 == 3:
            near[0] = near[1] = b
        off = c.entry(*near)
        c.bytes[off] = b
        sa.append(off)
    # the beginning of the text, met as LMS, L or S position
    for k, b in enumerate(((100, 90), (100, 120), (100, 90))[n % 3]):
        c.bytes[LAST + k] = b
    l = LAST + (0, 1, 2)[n % 3]
    c.bytes[LAST - 1] = c.bytes[LAST - 2] = 0
    c.bytes[l] = (100, 90, 150)[n % 3]
    if n % 3 == 2:
        c.bytes[LAST + 1], c.bytes[LAST] = 90, 80
    sa.insert(1, l)
    sa[1:] = sorted(sa[1:], key=lambda x: (c.text(x), x))
    m, f, st = start(w, c.tables, sa, c)
    st.x = dict(st.x, probe=(0, 0, 0, ('last', 0)), before={}, cells={})
    ip = Interp(m, c)
    outs = ip.run(f, st)
    c.steps = ip.steps
    c.result[n] = None
    if len(outs) == 1 and outs[0][0] == 'ret' and isinstance(outs[0][2], Ptr):
        _, t, v, loc = outs[0]
        R = t.objs.get(v.base)
        last = R.cells.get(layout('flbwt::BWT_result')['last'][0]) if R is not None else None
        e = c.effect(t, False)
        if last is not None and isinstance(last[1], int) and e is not None:
            c.result[n] = (last[1], e[1])
            c.where[n] = loc
    return c
