"""Abstract executions of the substring table: strings of fixed lengths with symbolic bytes are entered and looked up,
in buckets given by the scenario."""
from front import load, AnalysisError, field, layout
from terms import *
from state import *
from interp import Interp, Client, Dead, Fork, Budget

B = 'flbwt::HashTable::'
KEEP = [B + x for x in ('HashTable', 'insert_string', 'find_name', 'set_name', 'get_name', 'get_length', 'get_first_character_pointer', 'hash_function')]
HEAPK = ('malloc', 'new', 'new[]')


def witness(facts, extra=(), dom=(1, 2, 3, 0, 255, 128, 254, 4)):
    """values of the bytes that satisfy the facts; None: none found or other symbols involved"""
    cs = []
    for c in list(facts.s) + list(extra):
        if isinstance(c, int):
            if not c:
                return None
        elif c.k in ('le', 'eq', 'ne') and isinstance(c.x, Lin):
            if any(not (isinstance(a.key, tuple) and a.key[0] in ('byte', 'unwritten', 'count')) for a, k in c.x.t):
                return None
            cs.append(c)
        elif not (isinstance(c.x, tuple) and c.x[0] == 'isnull'):
            return None
    order = sorted({a for c in cs for a, k in c.x.t}, key=lambda a: a.id)
    pos = {a: i for i, a in enumerate(order)}
    at = {}
    for c in cs:
        at.setdefault(max(pos[a] for a, k in c.x.t), []).append(c)
    val = {}
    budget = [200000]

    def go(i):
        if i == len(order):
            return True
        for v in dom if order[i].key[0] != 'count' else (0, 1 << 20, 1 << 38, 100, 5000, 40000):
            budget[0] -= 1
            if budget[0] < 0:
                return False
            val[order[i]] = v
            for c in at.get(i, ()):
                x = c.x.c + sum(k * val[b] for b, k in c.x.t)
                if not (x <= 0 if c.k == 'le' else x == 0 if c.k == 'eq' else x != 0):
                    break
            else:
                if go(i + 1):
                    return True
        return False
    return val if go(0) else None


def byte(name):
    return lin(atom(('byte', name), name=name, w=8, lo=0, hi=255))


class String:
    def __init__(self, name, bytes):
        self.name, self.b, self.m = name, tuple(bytes), len(bytes)
        self.rec = None

    def show(self, val=None):
        val = val or {}
        f = lambda x: x if isinstance(x, int) else val.get(x.t[0][0], 1) if isinstance(x, Lin) and len(x.t) == 1 and x.c == 0 else '?'
        r, i, b = [], 0, [f(x) for x in self.b]
        while i < self.m:
            k = i
            while k < self.m and b[k] == b[i]:
                k += 1
            r.append(str(b[i]) if k == i + 1 else '%s,%s' % (b[i], b[i]) if k == i + 2 else '%s (%d times)' % (b[i], k - i))
            i = k
        return '%d bytes %s' % (self.m, ','.join(r))


class TClient(Client):
    unroll_limit = 200000
    max_steps = 300000
    separate = True
    separate_limit = 100000
    keep_facts = True
    max_forks = 300
    lazy_gc = True

    def __init__(self):
        Client.__init__(self)
        self.bad = []           # (rule, loc, message)
        self.strings = {}
        self.bucket = {}        # tuple of bytes -> bucket
        self.nb = 1
        self.moved = True
        self.hook_name = True
        self.records = []       # (state id, pointer)
        self.accesses = 0
        self.forks = 0

    def flag(self, rule, loc, msg, st=None):
        if st is not None and witness(st.facts) is None:
            return
        self.bad.append((rule, loc, msg))

    def initial(self, ip, st, ins, p, o, size, ty):
        if not o.ext and o.kind in HEAPK and size == 1 and isinstance(p.off, int) and not any(
                isinstance(lo, int) and lo <= p.off and (hi is None or isinstance(hi, int) and p.off < hi) for lo, hi, v in o.fills):
            return lin(atom(('unwritten', p.base, p.off), name='unwritten', w=8, lo=0, hi=255))
        return None

    def access(self, ip, st, ins, p, size, write, val=None):
        self.accesses += 1
        if not isinstance(p.off, int) or not isinstance(size, int):
            return
        s = self.strings.get(p.base)
        if s is not None:
            if p.off < 0 or p.off + size > s.m:
                self.flag('outside the substring', ip.fn.loc(ins), 'byte %d of a substring of %d bytes is %s' % (p.off, s.m, 'written' if write else 'read'), st)
                raise Dead()
            if write:
                self.flag('substring changed', ip.fn.loc(ins), 'the input is written', st)
            return
        o = st.objs.get(p.base)
        if o is not None and isinstance(o.size, int) and o.kind in HEAPK:
            if p.off < 0 or p.off + size > o.size:
                self.flag('outside the memory', ip.fn.loc(ins), 'byte %d of a block of %d bytes (allocated at %s) is %s' % (
                    p.off if p.off < 0 else p.off + size - 1, o.size, o.site, 'written' if write else 'read'), st)
                raise Dead()

    def dead_access(self, ip, st, ins, obj, write):
        self.flag('use after release', ip.fn.loc(ins), 'memory is %s after it was released or moved' % ('written' if write else 'read'), st)

    def forked(self, ip, st, ins, c):
        self.forks += 1
        if self.forks > self.max_forks:
            raise Budget('too many paths')
        if isinstance(c.x, Lin) and any(isinstance(a.key, tuple) and a.key[0] == 'unwritten' for a, k in c.x.t):
            self.flag('memory never written', ip.fn.loc(ins), 'the way taken depends on memory nothing was written to', st)
            raise Dead()

    def endless(self, ip, fn, h, st):
        self.flag('does not end', fn.loc(next((i for i in fn.blocks[h] if i.get('loc')), {})), 'the loop comes back to the same state', st)

    def null_access(self, ip, st, ins, write):
        self.flag('null access', ip.fn.loc(ins), 'a null pointer is %s' % ('written through' if write else 'read'), st)

    def bytes_of(self, st, p, n):
        """values of n bytes at p; None: not known"""
        if not isinstance(p, Ptr) or not isinstance(p.off, int) or p.base not in st.objs:
            return None
        o = st.objs[p.base]
        r = []
        for i in range(n):
            c = o.cells.get(p.off + i)
            if c is None and not o.ext and o.alive and o.kind in HEAPK and isinstance(o.size, int) and 0 <= p.off + i < o.size and not o.fills and not any(
                    not isinstance(k, int) or k < p.off + i < k + z for k, (z, v) in o.cells.items()):
                # nothing was written there
                r.append(lin(atom(('unwritten', p.base, p.off + i), name='unwritten', w=8, lo=0, hi=255)))
                continue
            if c is None or c[0] != 1:
                return None
            r.append(c[1])
        return r

    def call(self, ip, st, ins, name, callee, args):
        b = callee.base if callee is not None else None
        if b == B + 'hash_function' and self.nb:
            m, p = args[1], args[2]
            s = self.strings.get(p.base) if isinstance(p, Ptr) else None
            if s is None or not isinstance(m, int) or not isinstance(p.off, int):
                return [(st, lin(fresh('hash', lo=0, hi=self.nb - 1)))] if self.nb > 1 else [(st, 0)]
            if p.off < 0 or m < 0 or p.off + m > s.m:
                self.flag('outside the substring', ip.fn.loc(ins), 'the hash value of %d bytes from byte %d of a substring of %d bytes is asked for' % (m, p.off, s.m), st)
                raise Dead()
            k = s.b[p.off:p.off + m]
            return [(st, self.bucket.setdefault(k, (self.bucket.get(s.b, 0) + 1) % self.nb))]
        if b == B + 'get_name' and self.hook_name:
            st.event('record', args[1], ip.fn.loc(ins))
            return [(st, lin(atom(('name of', repr(args[1])), name='name', lo=0, hi=1 << 60)))]
        if name == 'realloc':
            p, size = args
            if isinstance(p, Ptr) and p.base in st.objs:
                o = st.objs[p.base]
                if not o.alive:
                    self.flag('use after release', ip.fn.loc(ins), 'memory is resized after it was released or moved', st)
                    raise Dead()
                if self.moved:
                    q = ip.allocate(st, ip.fn, ins, 'malloc', size)
                    old, n = st.wobj(p.base), st.wobj(q.base)
                    n.cells, n.summ, n.fills, n.written = dict(old.cells), old.summ, old.fills, True
                    old.alive = False
                    return [(st, q)]
                w = st.wobj(p.base)
                w.size = size
                return [(st, p)]
        if name in ('memcmp', 'bcmp') and isinstance(args[2], int):
            for p in args[:2]:
                if isinstance(p, Ptr) and args[2]:
                    ip.getobj(st, p, ins, False, args[2])
                    self.access(ip, st, ins, p, args[2], False)
            x, y = self.bytes_of(st, args[0], args[2]), self.bytes_of(st, args[1], args[2])
            if x is not None and y is not None:
                for u, v in zip(x, y):
                    d = sub(u, v)
                    c = mk_eq(d)
                    e = st.decide(c)
                    if e is None:
                        raise Fork(c)
                    if not e:
                        if name == 'bcmp' or isinstance(d, int):
                            return [(st, 1 if name == 'bcmp' or d > 0 else -1)]
                        lt = mk_le(add(d, 1))
                        e = st.decide(lt)
                        if e is None:
                            raise Fork(lt)
                        return [(st, -1 if e else 1)]
                return [(st, 0)]
        if b is not None and b.startswith(B) and not callee.decl and callee.blocks:
            # followed into
            env, ev = st.env, ip.fn
            st2 = st.copy()
            st2.env = dict(zip(callee.args, args))
            sub_ = Interp(ip.mod, self)
            sub_.held = ip.held | frozenset(ip.reach(st, list(env.values())))
            r = []
            for k, s, v, l in sub_.run(callee, st2):
                s.env = dict(env)
                r.append((s, v if k == 'ret' else 'THROW'))
            ip.steps += sub_.steps
            return r
        return None


class Machine:
    def __init__(self):
        self.m = load(KEEP)
        self.c = TClient()
        self.f = {x[len(B):]: self.m.one(x) for x in KEEP[:5]}
        self.steps = 0
        self.n = 10

    def op(self, name, st, *args):
        f = self.f[name]
        st = st.copy()
        st.env = dict(zip(f.args, (Ptr('H', 0),) + args))
        st.ev = None
        self.c.forks = 0
        ip = Interp(self.m, self.c)
        outs = ip.run(f, st)
        self.steps += ip.steps
        return outs

    def new(self, n, size, strings, bucket=None, moved=True):
        reset()
        c = self.c
        c.bad, c.strings, c.moved, c.hook_name, c.nb = [], {}, moved, True, size
        c.bucket = {}
        st = State()
        st.new_obj('new', layout('flbwt::HashTable')[''][0], None, 'the table', True, key='H')
        for s in strings:
            st.new_obj('malloc', s.m, None, s.name, True, key=s.name)
            o = st.wobj(s.name)
            for i, b in enumerate(s.b):
                o.cells[i] = (1, b)
            c.strings[s.name] = s
            c.bucket[s.b] = (bucket or {}).get(s.name, 0)
        r = [s for k, s, v, l in self.op('HashTable', st, size, n) if k == 'ret']
        if len(r) != 1:
            raise AnalysisError('the constructor of the table has %d outcomes' % len(r))
        return r[0]

    def insert(self, st, s):
        return self.op('insert_string', st, s.m, Ptr(s.name, 0))

    def find(self, st, s):
        return self.op('find_name', st, s.m, Ptr(s.name, 0))

    def where(self, name):
        f = self.f[name]
        for b in f.blocks.values() if isinstance(f.blocks, dict) else f.blocks:
            for i in b:
                if i.get('loc'):
                    return f.loc(i)
        return name
