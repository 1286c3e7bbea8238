"""Abstract executions of the methods of flbwt::Queue, with the content of the queue as a ghost list.
Used by C16 (order of elements) and C02/C03 (blocks of the queue)."""
from front import load, AnalysisError, field, layout
from terms import *
from state import *
from interp import Interp, Dead
from heap import HeapClient, HEAPK

OPS = ('enqueue', 'enqueue_l', 'dequeue')
KEEPQ = ['flbwt::Queue::' + x for x in ('Queue', '~Queue', 'is_empty') + OPS] + \
    ['flbwt::PackedArray::set_value', 'flbwt::PackedArray::get_value']


class QClient(HeapClient):
    max_terms = None

    def __init__(self):
        HeapClient.__init__(self)
        self.nulls = {}

    def call(self, ip, st, ins, name, callee, args):
        b = callee.base if callee is not None else None
        if b == 'flbwt::PackedArray::set_value' and len(args) == 3:
            ip.getobj(st, args[0], ins, True, 1)
            st.event('set', args[0].base, args[1], args[2], ip.fn.loc(ins))
            return [(st, None)]
        if b == 'flbwt::PackedArray::get_value' and len(args) == 2:
            ip.getobj(st, args[0], ins, False, 1)
            a = fresh('element')
            a.meta = ('get', args[0].base, args[1])
            st.event('get', args[0].base, args[1], ip.fn.loc(ins))
            return [(st, lin(a))]
        return HeapClient.call(self, ip, st, ins, name, callee, args)

    def initial(self, ip, st, ins, p, o, size, ty):
        if ty == 'ptr' and not o.ext and o.kind in HEAPK and isinstance(p.off, int):
            a = fresh('unset')
            a.meta = 'unset'
            return Ptr(a, 0)

    def access(self, ip, st, ins, p, size, write, val=None):
        HeapClient.access(self, ip, st, ins, p, size, write, val)
        if isinstance(p.base, Atom) and p.base.meta == 'unset':
            self.nulls.setdefault(ip.fn.loc(ins), write)

    def null_access(self, ip, st, ins, write):
        self.nulls.setdefault(ip.fn.loc(ins), write)
        HeapClient.null_access(self, ip, st, ins, write)


class Machine:
    def __init__(self, client=None):
        self.m = load(KEEPQ)
        self.c = client or QClient()
        self.f = {x: self.m.one('flbwt::Queue::' + x) for x in ('Queue', '~Queue', 'is_empty') + OPS}
        L = layout('flbwt::Queue')
        self.o = {}
        for k in ('n', 'sb', 'eb', 's_ofs', 'e_ofs'):
            self.o[k] = field('flbwt::Queue', k)
        for k in ('next', 'prev', 'b'):
            self.o[k] = field('flbwt::qblock', k)
        self.len_ofs = field('flbwt::PackedArray', 'length')
        self.bits_ofs = field('flbwt::PackedArray', 'integer_bits')
        self.w = lin(atom('width', name='w', w=8, lo=1, hi=64))
        self.size = L[''][0]
        self.steps = 0

    def op(self, name, st, *args):
        """outcomes of one method call: list of (kind, state, value, loc)"""
        f = self.f[name]
        st.env = dict(zip(f.args, (Ptr('Q', 0),) + args))
        st.ev = None
        ip = Interp(self.m, self.c)
        outs = ip.run(f, st)
        self.steps += ip.steps
        self.ip = ip
        return outs

    def new(self):
        st = State()
        st.new_obj('new', self.size, None, 'the queue', True, key='Q')
        w = self.w
        r = [(s, v) for k, s, v, l in self.op('Queue', st, w) if k == 'ret']
        if not r:
            raise AnalysisError('the constructor of the queue does not return')
        return [x for x, _ in r]

    def slots(self, s0):
        """places of a block: an insertion at the front of a new queue uses the last one"""
        for k, t, v, l in self.op('enqueue_l', s0.copy(), lin(atom('y0', name='y0', lo=0))):
            if k == 'ret':
                e = [x for x in t.events() if x[0] == 'set']
                if len(e) == 1 and isinstance(e[0][2], int) and e[0][2] > 0:
                    return e[0][2] + 1
        return None

    def get(self, st, name, size=8):
        c = st.objs['Q'].cells.get(self.o[name])
        return c[1] if c is not None else None

    def put(self, st, name, v):
        st.wobj('Q').cells[self.o[name]] = (8, v)

    def chain(self, st):
        """blocks from sb along next to a null link; None: not a proper list"""
        r = []
        p = self.get(st, 'sb')
        eb = self.get(st, 'eb')
        if not isinstance(eb, Ptr):
            return None
        while isinstance(p, Ptr) and p.base is not None:
            o = st.objs.get(p.base)
            if o is None or not o.alive or p.off != 0 or p.base in r or len(r) > 6:
                return None
            r.append(p.base)
            c = o.cells.get(self.o['next'])
            if c is None and eb.base == p.base:
                return r        # link of the last block not set: the methods are judged on that, too
            if c is None or not isinstance(c[1], Ptr):
                return None
            p = c[1]
        if not isinstance(p, Ptr) or eb.base != (r[-1] if r else None):
            return None
        return r

    def arrays(self, st, ch):
        r = []
        for b in ch:
            c = st.objs[b].cells.get(self.o['b'])
            if c is None or not isinstance(c[1], Ptr) or c[1].base not in st.objs or not st.objs[c[1].base].alive:
                return None
            r.append(c[1].base)
        return r

    def capacity(self, st, arr):
        c = st.objs[arr].cells.get(self.len_ofs)
        return c[1] if c is not None and isinstance(c[1], int) else None


class Ghost:
    """a state of the queue together with the elements it must hold, in order"""

    def __init__(self, st, arrs, s, e, Q, pushed=(), front=(), taken=0, trace='', value=0):
        self.st, self.arrs, self.s, self.e, self.Q = st, arrs, s, e, Q
        self.front = front      # newest first: (value, location)
        self.back = pushed      # oldest first
        self.taken = taken      # elements removed from the initial content
        self.trace = trace
        self.value = value      # elements pushed so far

    def but(self, **k):
        g = Ghost(self.st, self.arrs, self.s, self.e, self.Q, self.back, self.front, self.taken, self.trace, self.value)
        for a, b in k.items():
            setattr(g, a, b)
        return g

    def total(self):
        """elements of the initial content"""
        if not self.arrs:
            return 0
        return add(add(sub(self.e, self.s), 1), (len(self.arrs) - 1) * self.Q)

    def cases(self):
        """(ghost with more facts, expected location of the first element or None for the empty queue)"""
        if self.front:
            yield self, self.front[0]
            return
        # one more element of the initial content?
        a = self.st.copy()
        if self.arrs and a.assume(mk_le(sub(self.taken + 1, self.total()))):
            i = add(self.s, self.taken)
            for j, arr in enumerate(self.arrs):
                b = a.copy()
                k = sub(i, j * self.Q)
                if b.assume(mk_le(sub(0, k))) and b.assume(mk_le(sub(k, self.Q - 1))):
                    yield self.but(st=b), ('initial', (arr, k))
        b = self.st.copy()
        if not self.arrs or b.assume(mk_le(sub(self.total(), self.taken))):
            yield self.but(st=b), (self.back[0] if self.back else None)


def rel(st, l, m):
    """True: the same place, False: different places, None: not known"""
    if l[0] != m[0]:
        return False
    d = sub(l[1], m[1])
    if isinstance(d, int):
        return d == 0
    if st.decide(mk_eq(d)) == 1:
        return True
    if st.decide(mk_eq(d)) == 0:
        return False
    return None


def value(x, val):
    if isinstance(x, int):
        return x
    r = x.c
    for a, k in x.t:
        if a not in val:
            return None
        r += k * val[a]
    return r


SAMPLE = (5, (1 << 40) + 5, (1 << 33) + (1 << 31) + 9, (1 << 15) + (1 << 7) + 1)


def evalx(x, a, n):
    """value of an expression over the one atom a, which has the value n; None: not known"""
    if isinstance(x, int):
        return x
    if isinstance(x, BV):
        r = 0
        for i, b in enumerate(x.bits):
            if isinstance(b, tuple) and b[0] is a:
                b = n >> b[1] & 1
            if b not in (0, 1):
                return None
            r |= b << i
        return r
    if not isinstance(x, Lin):
        return None
    r = x.c
    for y, k in x.t:
        if y is a:
            v = n
        else:
            q = y.key
            if not (isinstance(q, tuple) and q[0] == 'op' and len(q) == 4):
                return None
            v = evalx(q[3], a, n)
            if v is None:
                return None
            if q[1].startswith('tr'):
                w = int(q[1][2:])
                v &= (1 << w) - 1
            elif q[1] in ('zx', 'sx'):
                w = q[3].t[0][0].w
                v &= (1 << w) - 1
                if q[1] == 'sx' and v >> (w - 1):
                    v -= 1 << w
            elif q[1].startswith('zx'):
                v &= (1 << int(q[1][2:])) - 1
            else:
                return None
        r += k * v
    return r


def altered(x, a):
    """a sample value of a for which x is something else"""
    for n in SAMPLE:
        v = evalx(x, a, n)
        if v is not None and (v - n) % (1 << 64):
            return n, v % (1 << 64)
    return None


def only_get(x):
    """the one element atom an expression is made of"""
    if isinstance(x, BV):
        s = {b[0] for b in x.bits if isinstance(b, tuple)}
    elif isinstance(x, Lin):
        s = set()
        for y, k in x.t:
            q = y.key
            s.add(only_get(q[3]) if isinstance(q, tuple) and q[0] == 'op' and len(q) == 4 else y)
    else:
        return None
    return next(iter(s)) if len(s) == 1 else None


def feasible(g):
    """do some offsets satisfy the conditions of the path"""
    if not g.arrs:
        return True
    a, b = g.s.t[0][0], g.e.t[0][0]
    Q = g.Q
    near = sorted({0, 1, 2, 3, 4, 5, Q // 2, Q - 6, Q - 5, Q - 4, Q - 3, Q - 2, Q - 1} & set(range(Q)))
    fs = [c for c in g.st.facts.s if c.k in ('le', 'eq', 'ne')]
    for s in near:
        for e in near:
            val = {a: s, b: e}
            if len(g.arrs) == 1 and s > e + 1:
                continue
            ok = True
            for c in fs:
                v = value(c.x, val)
                if v is not None and not (v <= 0 if c.k == 'le' else v == 0 if c.k == 'eq' else v != 0):
                    ok = False
                    break
            if ok:
                return True
    return False


class Explorer:
    """all sequences of operations up to a length from a ghost state"""

    def __init__(self, M):
        self.M = M
        self.bad = []       # (rule, loc, message)
        self.undecided = 0
        self.decided = 0
        self.sequences = 0
        self.leaks = []
        self.dangling = []
        self.ends = []

    def report(self, rule, loc, msg, g):
        if not feasible(g):
            self.undecided += 1
            return
        self.bad.append((rule, loc, '%s (history: %s)' % (msg, g.trace)))

    def live(self, g, l):
        """does location l hold an element that is still in the queue"""
        for v, m in g.front + g.back:
            if rel(g.st, l, m):
                return True
        if l[0] in g.arrs:
            j = g.arrs.index(l[0])
            p = sub(add(l[1], j * g.Q), g.s)    # position in the initial content
            if g.st.decide(mk_le(sub(g.taken, p))) == 1 and g.st.decide(mk_le(sub(add(p, 1), g.total()))) == 1:
                return True
        return False

    def empty_query(self, g, first):
        """is_empty in a state whose first element is known (None: empty)"""
        for k, t, v, l in self.M.op('is_empty', g.st.copy()):
            if k != 'ret':
                self.report('wrong emptiness', l, 'is_empty ends with an exception', g)
                continue
            r = v if isinstance(v, int) else t.decide(v) if isinstance(v, Cond) else t.decide(mk_ne(v)) if is_num(v) else None
            if r not in (0, 1):
                self.undecided += 1
            elif bool(r) != (first is None):
                self.report('wrong emptiness', l, 'is_empty answers %s for a queue that holds %s' % (
                    'true' if r else 'false', 'no element' if first is None else 'elements'), g)
            else:
                self.decided += 1

    def heap(self, g, t, l):
        if not feasible(g.but(st=t)):
            return
        ip = self.M.ip
        seen = ip.reach(t, [Ptr('Q', 0)])
        for b, o in t.objs.items():
            if o.kind in HEAPK and not o.ext:
                if o.alive and b not in seen:
                    self.leaks.append((o.site or o.name, '%s (history: %s)' % (l, g.trace)))
                elif not o.alive and b in seen:
                    self.dangling.append((o.site or o.name, '%s (history: %s)' % (l, g.trace)))

    def step(self, g, op):
        """ghost states after one operation"""
        M = self.M
        res = []
        for h, first in g.cases():
            self.empty_query(h, first)
            if op == 'dequeue' and first is None:
                continue
            tr = '%s%s%s' % (h.trace, ', ' if h.trace else '', op)
            h = h.but(trace=tr)
            args = ()
            if op != 'dequeue':
                args = (lin(atom(('x', h.value), name='x%d' % h.value, w=64, lo=0)),)
            M.c.nulls = {}
            outs = M.op(op, h.st.copy(), *args)
            for l in M.c.nulls:
                self.report('null access', l, 'a null or unset pointer is %s' % ('written through' if M.c.nulls[l] else 'read'), h)
            for k, t, v, l in outs:
                if k != 'ret':
                    if op == 'dequeue':
                        self.report('unexpected exception', l, 'dequeue of a queue that is not empty ends with an exception', h)
                    continue
                self.heap(h, t, l)
                sets = [e for e in t.events() if e[0] == 'set']
                n = h.but(st=t)
                if op == 'dequeue':
                    a = only_get(v)
                    if isinstance(v, int):
                        self.report('element altered', l, 'dequeue returns %r instead of the stored element' % (v,), h)
                        continue
                    if a is not None and isinstance(a.meta, tuple) and a.meta[0] == 'get':
                        d = altered(v, a)
                        if d:
                            self.report('element altered', l, 'for the stored element %d dequeue returns %d' % d, h)
                            continue
                        if v != lin(a):
                            a = None
                    if a is None or not isinstance(a.meta, tuple) or a.meta[0] != 'get':
                        self.undecided += 1
                        continue
                    q = rel(t, (a.meta[1], a.meta[2]), first[1])
                    if q is False:
                        self.report('wrong element', l, 'dequeue returns the element at %s instead of the first element, which is at %s' % (
                            place((a.meta[1], a.meta[2])), place(first[1])), h)
                        continue
                    if q is None:
                        self.undecided += 1
                        continue
                    self.decided += 1
                    if n.front:
                        n.front = n.front[1:]
                    elif first[0] == 'initial':
                        n.taken += 1
                    else:
                        n.back = n.back[1:]
                else:
                    x = args[0]
                    at = None
                    for e in sets:
                        if isinstance(e[3], Lin) and e[3] == x:
                            at = e
                            continue
                        d = altered(e[3], x.t[0][0])
                        if d:
                            self.report('element altered', e[4], '%s stores %d when it is given %d' % (op, d[1], d[0]), h)
                    if at is None:
                        if sets:
                            self.undecided += 1
                        else:
                            self.report('element lost', l, '%s stores nothing' % op, h)
                        continue
                    loc = (at[1], at[2])
                    if self.live(h, loc):
                        self.report('element overwritten', at[4], '%s overwrites an element that is still in the queue' % op, h)
                        continue
                    cap = M.capacity(t, loc[0]) if loc[0] in t.objs else None
                    z = t.copy()
                    if cap is not None and is_num(loc[1]) and (t.decide(mk_le(add(loc[1], 1))) == 1 or z.assume(mk_le(sub(cap, loc[1]))) and feasible(h.but(st=z))):
                        self.report('outside the block', at[4], '%s stores at index %r of a block of %d elements' % (op, loc[1], cap), h)
                        continue
                    c = t.objs[loc[0]].cells.get(M.bits_ofs) if loc[0] in t.objs else None
                    if c is not None and is_num(c[1]):
                        d = sub(M.w, c[1])
                        if t.copy().assume(mk_le(sub(1, d))) and (isinstance(d, int) or [a for a, _ in d.t] == [self.M.w.t[0][0]]):
                            self.report('element altered', at[4], '%s stores into a block whose elements have %r bits in a queue of elements of %r bits' % (op, c[1], M.w), h)
                            continue
                    self.decided += 1
                    n.value += 1
                    if op == 'enqueue':
                        n.back = n.back + ((x, loc),)
                    else:
                        n.front = ((x, loc),) + n.front
                res.append(n)
        return res

    def run(self, g, depth):
        if depth == 0:
            for h, first in g.cases():
                self.empty_query(h, first)
            self.ends.append(g)
            return
        for op in OPS:
            for n in self.step(g, op):
                self.sequences += 1
                self.run(n, depth - 1)


def place(l):
    return 'index %r of block %s' % (l[1], l[0])


def starts(M, s0, top=3):
    """ghost states: the new queue s0, and queues of 1..top blocks with symbolic offsets.
    Returns (list of ghosts, note)"""
    M.empty_e = M.get(s0, 'e_ofs')
    M.Q = M.slots(s0)
    g0 = Ghost(s0, [], 0, 0, 0, trace='new queue')
    r = [g0]
    st = s0
    Q = None
    for k in range(1, top + 1):
        if k > 1:
            st = st.copy()
            M.put(st, 's_ofs', 0)
            M.put(st, 'e_ofs', Q - 1)
            M.put(st, 'n', (k - 1) * Q)
        outs = [(t, l) for kk, t, v, l in M.op('enqueue', st.copy(), lin(atom('y%d' % k, name='y%d' % k, lo=0))) if kk == 'ret']
        if len(outs) != 1:
            return r, 'enqueue has %d outcomes for %d full blocks' % (len(outs), k - 1)
        t, l = outs[0]
        ch = M.chain(t)
        ar = M.arrays(t, ch) if ch else None
        if not ar or len(ar) != k:
            return r, 'the blocks do not form the expected list'
        sets = [e for e in t.events() if e[0] == 'set']
        if len(sets) != 1 or (sets[0][1], sets[0][2]) != (ar[-1], M.get(t, 'e_ofs')) or M.get(t, 's_ofs') != 0 or M.get(t, 'n') != (k - 1) * (Q or 0) + 1 or M.get(t, 'e_ofs') != 0:
            return r, 'the offsets are not those of the first and the last element'
        if k == 1:
            Q = M.Q
            if Q is None or Q < 2:
                return r, 'the capacity of a block is not known'
        st = t
        z = t.copy()
        z.ev = None
        s = lin(atom(('s', k), name='s', lo=0, hi=Q - 1))
        e = lin(atom(('e', k), name='e', lo=0, hi=Q - 1))
        M.put(z, 's_ofs', s)
        M.put(z, 'e_ofs', e)
        M.put(z, 'n', add(add(sub(e, s), 1), (k - 1) * Q))
        if k == 1:
            z.assume(mk_le(sub(s, add(e, 1))))
        r.append(Ghost(z, ar, s, e, Q, trace='queue of %d block%s, first element at s, last at e' % (k, 's' if k > 1 else '')))
    return r, None


def signature(M, st):
    """blocks of the queue with what their links hold"""
    ch = M.chain(st) or []
    r = []
    for b in ch:
        x = []
        for k in ('prev', 'next'):
            c = st.objs[b].cells.get(M.o[k])
            v = c[1] if c is not None else None
            x.append('unset' if not isinstance(v, Ptr) else 'null' if v.base is None else ch.index(v.base) if v.base in ch else 'other')
        r.append(tuple(x))
    return tuple(r)


def again(M, g, k):
    """the queue after an operation, with symbolic offsets"""
    z = g.st.copy()
    z.ev = None
    ar = M.arrays(z, M.chain(z))
    Q = M.Q
    s = lin(atom(('sa', k), name='s', lo=0, hi=Q - 1))
    e = lin(atom(('ea', k), name='e', lo=0, hi=Q - 1))
    M.put(z, 's_ofs', s)
    M.put(z, 'e_ofs', e)
    M.put(z, 'n', add(add(sub(e, s), 1), (len(ar) - 1) * Q))
    if len(ar) == 1:
        z.assume(mk_le(sub(s, add(e, 1))))
    return Ghost(z, ar, s, e, Q, trace='(%s,) queue of %d block%s, first element at s, last at e' % (g.trace, len(ar), '' if len(ar) == 1 else 's'))


def destroy(M, X, g):
    """the destructor in a ghost state"""
    for k, t, v, l in M.op('~Queue', g.st.copy()):
        if k != 'ret':
            continue
        h = g.but(trace=g.trace + ', ~Queue', st=t)
        if not feasible(h):
            continue
        for b, o in t.objs.items():
            if o.kind in HEAPK and not o.ext and o.alive:
                X.leaks.append((o.site or o.name, '%s (history: %s)' % (l, h.trace)))


def closed(M, g):
    """is the state after an operation one of the states the exploration starts from"""
    st = g.st
    ch = M.chain(st)
    if ch is None:
        return False
    s, e, n = (M.get(st, x) for x in ('s_ofs', 'e_ofs', 'n'))
    if not (is_num(s) and is_num(e) and is_num(n)):
        return False
    if not ch:
        return s == 0 and e == M.empty_e and (n == 0 or st.decide(mk_le(n)) == 1 and st.decide(mk_le(sub(0, n))) == 1)
    ar = M.arrays(st, ch)
    if ar is None:
        return False
    Q = M.Q

    def yes(c):
        return st.decide(c) == 1
    if not (yes(mk_le(sub(0, s))) and yes(mk_le(sub(s, Q - 1))) and yes(mk_le(sub(0, e))) and yes(mk_le(sub(e, Q - 1)))):
        return False
    if len(ch) == 1 and not yes(mk_le(sub(s, add(e, 1)))):
        return False
    if not yes(mk_eq(sub(n, add(add(sub(e, s), 1), (len(ch) - 1) * Q)))):
        return False
    for p, q in zip(ch, ch[1:]):
        c = st.objs[q].cells.get(M.o['prev'])
        if c is None or not isinstance(c[1], Ptr) or c[1].base != p:
            return False
    return True
