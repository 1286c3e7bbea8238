"""Path-sensitive abstract interpreter over the JSON IR.

Values are linear expressions, bit vectors and pointers (terms.py); the heap is a set of objects
with typestate.  Loops whose trip count is determined are unrolled; every other loop is summarised
by a fixpoint over a join of the states at its header (values that differ become fresh symbols,
heap objects that correspond are merged).  No path is handed to a solver; conditions that are not
entailed by the linear facts of a path are followed both ways."""
import re, sys
from terms import *
from state import *
from front import AnalysisError, fmtloc, operands
from summary import summary

sys.setrecursionlimit(20000)


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class Dead(Exception):
    """the path cannot continue (violation already reported, or trap)"""


class Budget(AnalysisError):
    pass


ITY = re.compile(r'^i(\d+)$')


def vwidth(x):
    """number of significant bits of a value"""
    if isinstance(x, int):
        return 1 if x in (0, 1) else 64 if x < 0 else x.bit_length()
    if len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1:
        return x.t[0][0].w
    return 64


def width(ty):
    m = ITY.match(ty)
    return int(m.group(1)) if m else None


class Client:
    """Checks derive from this. Every method may inspect / change the state."""
    unroll_limit = 1100
    peel = 0            # iterations of a loop of undetermined length that are followed one by one
    max_states = 4000
    max_steps = 6000000
    separate_limit = 40
    separate = False    # no joins in loops that are followed iteration by iteration
    subscripts = False  # tell about subscripts of arrays
    keep_facts = False  # states that know different facts stay apart
    moves = False       # a block resized by a function that is not looked into gets a new identity
    lazy_gc = False     # unreachable objects may stay for a while
    max_terms = None    # longer sums are forgotten

    def __init__(self):
        self.viol = {}
        self.stats = {}

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def report(self, rule, loc, msg):
        self.viol.setdefault((rule, loc, msg), 0)
        self.viol[(rule, loc, msg)] += 1

    def call(self, ip, st, ins, name, callee, args):
        """None: default model; otherwise list of (state, value) for the normal edge
        and (state, 'THROW') for the exceptional edge"""
        return None

    def access(self, ip, st, ins, p, size, write, val=None):
        pass

    def null_access(self, ip, st, ins, write):
        pass

    def dead_access(self, ip, st, ins, obj, write):
        pass

    def bad_free(self, ip, st, ins, what, obj):
        pass

    def freed(self, ip, st, ins, obj, base):
        pass

    def loop(self, ip, fn, header, mode, st):
        pass

    def forked(self, ip, st, ins, c):
        """the path divides on a condition; may raise Dead"""
        pass

    def endless(self, ip, fn, h, st):
        """a loop comes back to the same state"""
        pass

    def loaded(self, ip, st, ins, p, size, v):
        """after a load"""
        pass

    def subscript(self, ip, st, ins, p, sel):
        """an address computation that selects array elements: [(index value, element count or -1, element size)]"""
        pass

    def shapex(self, x):
        """the part of the client's data that partitions the states of a loop"""
        return tuple(sorted((k, repr(v)) for k, v in x.items()))

    def joinx(self, a, b):
        """join of the rest; returns (data, weaker than a)"""
        return a, False

    def initial(self, ip, st, ins, p, o, size, ty):
        """value of memory nothing was stored to; None: a fresh symbol"""
        return None


class Interp:
    held = frozenset()      # objects the callers of this function need

    def __init__(self, mod, client):
        self.mod = mod
        self.c = client
        self.steps = 0
        self.gobj = {}
        self.fn = None
        self.nsum = 0      # loops summarised so far

    # ------------------------------------------------------------------ values
    def opval(self, st, o):
        k = o[0]
        if k == 'v':
            try:
                return st.env[o[1]]
            except KeyError:
                return UNDEF
        if k == 'c':
            return sgn(int(o[1]), o[2]) if o[2] > 1 else int(o[1])
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'g':
            return Ptr(self.gbase(st, o[1]), 0)
        if k == 'f':
            return Ptr(self.gbase(st, o[1]), 0)
        if k == 'cgep':
            p = self.opval(st, o[1])
            return Ptr(p.base, add(p.off, sgn(int(o[2]), 64)))
        if k == 'zero':
            return 0
        return UNDEF

    def gbase(self, st, name):
        k = ('glob', name)
        if k not in st.objs:
            g = self.mod.globals.get(name)
            b = st.new_obj('global', g['size'] if g else None, None, name, True, key=k)
            if g and g.get('ints'):
                o = st.objs[b]
                es = g['es']
                for i, v in enumerate(g['ints']):
                    o.cells[i * es] = (es, sgn(int(v), es * 8))
            if g and g.get('str') is not None:
                o = st.objs[b]
                s = g['str']
                for i, ch in enumerate(s):
                    o.cells[i] = (1, sgn(ord(ch), 8))
        return k

    def fresh_of(self, ty, name, key=None, raw=True, st=None):
        w = width(ty)
        if w is not None:
            if w == 1:
                return Cond('t', key or ('b', fresh('b').id))
            a = atom(key, name=name, w=w) if key else fresh(name, w)
            if raw and w < 64:
                a.meta = 'raw'
            return lin(a)
        if ty == 'ptr':
            a = atom(key, name=name) if key else fresh(name)
            return Ptr(a, 0)
        if ty.startswith('{'):
            parts = split_types(ty)
            return Agg(tuple(self.fresh_of(t, name) for t in parts))
        return UNDEF

    # ------------------------------------------------------------------ memory
    def getobj(self, st, p, ins, write, size):
        """object a pointer refers to; creates an object for memory the analysis has not seen"""
        b = p.base
        if b is None or (isinstance(b, Atom) and Cond('t', ('isnull', b)) in st.facts.s):
            self.c.null_access(self, st, ins, write)
            raise Dead()
        o = st.objs.get(b)
        if o is None:
            if isinstance(b, Atom) and isinstance(b.meta, tuple) and b.meta and b.meta[0] == 'choice':
                cand = [x for x in b.meta[1] if x in st.objs]
                if cand and all(not st.objs[x].alive for x in cand):
                    self.c.dead_access(self, st, ins, st.objs[cand[0]], write)
                    raise Dead()
            st.new_obj('ext', None, None, repr(b), True, key=b)
            o = st.objs[b]
        elif not o.alive:
            self.c.dead_access(self, st, ins, o, write)
            raise Dead()
        return o

    def rng(self, st, off):
        return bounds(off)

    def may_alias(self, st, o1, s1, o2, s2):
        d = sub(o1, o2)  # o1 - o2
        if isinstance(d, int):
            return -s1 < d < s2
        lo, hi = bounds(d)
        if lo is not None and lo >= s2:
            return False
        if hi is not None and hi <= -s1:
            return False
        if st.facts.le0(sub(s2, d), 2) or st.facts.le0(add(d, s1), 2):
            return False
        return True

    def load(self, st, ins, p, size, ty):
        o = self.getobj(st, p, ins, False, size)
        self.c.access(self, st, ins, p, size, False)
        off = p.off
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            v = c[1]
            if ty == 'ptr' and is_num(v):
                v = self.int2ptr(v)
            elif ty != 'ptr' and isinstance(v, Ptr):
                v = self.ptr2int(v)
            return v
        w = width(ty)
        v = None
        if w is not None and not isinstance(v, Ptr):
            v = self.compose(o, off, size, w)
        if v is None:
            cands = None
            if ty == 'ptr':
                bs = set(o.summ)
                if not isinstance(off, int):
                    for k, (s, x) in o.cells.items():
                        if isinstance(x, Ptr) and self.may_alias(st, off, size, k, s):
                            bs.add(x.base)
                bs.discard(None)
                if len(bs) == 1:
                    v = Ptr(next(iter(bs)), lin(fresh('off')))
                elif bs:
                    if all(isinstance(b, int) for b in bs):
                        a = fresh('choice')
                        a.meta = ('choice', frozenset(bs))
                        v = Ptr(a, 0)
            if v is None:
                v = self.initial(st, ins, p, o, size, ty)
        wo = st.wobj(p.base)
        if isinstance(off, int) or len(wo.cells) < 400:
            wo.cells[off] = (size, v)
        return v

    def initial(self, st, ins, p, o, size, ty):
        """value of memory that has not been seen: a fresh symbol"""
        v = self.c.initial(self, st, ins, p, o, size, ty)
        if v is not None:
            return v
        for lo, hi, val in reversed(o.fills):
            if not isinstance(p.off, int):
                if lo == 0 and (hi is None or hi == o.size) and not any(self.may_alias(st, p.off, size, k, s) for k, (s, x) in o.cells.items()):
                    return val if ty != 'ptr' else NULL if val == 0 else self.fresh_of(ty, 'm')
                continue
            if isinstance(p.off, int) and lo <= p.off and (hi is None or p.off + size <= hi):
                if ty == 'ptr':
                    return NULL if val == 0 else self.fresh_of(ty, 'm')
                return val
        w = width(ty)
        if w is not None and not o.written and isinstance(p.off, int):
            # nothing was ever written here: every read finds the same
            nm = '%s[%r]' % (o.name or o.kind, p.off)
            return lin(atom(('init', p.base, p.off, w), name=nm, w=w, meta='raw' if w < 64 else None))
        return self.fresh_of(ty, '%s[%r]' % (o.name or o.kind, p.off))

    def compose(self, o, off, size, w):
        """read that does not match one store: assemble or cut bytes"""
        if not isinstance(off, int) and not (isinstance(off, Lin)):
            return None
        bits = []
        for i in range(size):
            b = self.byte_at(o, add(off, i))
            if b is None:
                return None
            bits += b
        return frombits(bits[:w])

    def byte_at(self, o, off):
        c = o.cells.get(off)
        if c is not None:
            b = tobits(c[1], c[0] * 8) if not isinstance(c[1], (Ptr, Cond, Undef, Agg)) else None
            return b[:8] if b is not None else None
        for d in range(1, 8):
            c = o.cells.get(sub(off, d))
            if c is not None and c[0] > d:
                b = tobits(c[1], c[0] * 8) if not isinstance(c[1], (Ptr, Cond, Undef, Agg)) else None
                return b[8 * d:8 * d + 8] if b is not None else None
        if isinstance(off, int):
            for lo, hi, val in reversed(o.fills):
                if lo <= off and (hi is None or off < hi):
                    return tobits(val, 8)
        return None

    def store(self, st, ins, p, size, v):
        self.getobj(st, p, ins, True, size)
        self.c.access(self, st, ins, p, size, True, v)
        o = st.wobj(p.base)
        o.written = True
        self.kill(st, o, p.off, size)
        o.cells[p.off] = (size, v)
        if isinstance(v, Ptr) and not isinstance(p.off, int) and v.base is not None:
            o.summ = o.summ | sbase(st, v.base)

    def kill(self, st, o, off, size):
        """forget cells that a write of [off, off+size) may overlap"""
        if isinstance(off, int) and isinstance(size, int):
            dead = []
            for d in range(-7, size if size <= 64 else 0):
                k = off + d
                c = o.cells.get(k)
                if c is not None and (d >= 0 or c[0] > -d):
                    dead.append(k)
            if size > 64:
                dead = [k for k in o.cells if isinstance(k, int) and off - o.cells[k][0] < k < off + size]
            for k in o.cells:
                if not isinstance(k, int) and self.may_alias(st, off, size, k, o.cells[k][0]):
                    dead.append(k)
        else:
            s = size if isinstance(size, int) else 1 << 62
            dead = [k for k, c in o.cells.items() if self.may_alias(st, off, s, k, c[0])]
        for k in dead:
            s, x = o.cells[k]
            del o.cells[k]
            # partially overwritten cells keep their other bytes
            if isinstance(off, int) and isinstance(k, int) and isinstance(size, int) and s > 1 and (k < off or k + s > off + size):
                b = tobits(x, s * 8) if not isinstance(x, (Ptr, Cond, Undef, Agg)) else None
                if b is not None:
                    for i in range(s):
                        if not off <= k + i < off + size:
                            o.cells[k + i] = (1, frombits(b[8 * i:8 * i + 8]))
            if isinstance(x, Ptr) and x.base is not None and not (isinstance(off, int)):
                o.summ = o.summ | sbase(st, x.base)
        if o.fills:
            if isinstance(off, int) and isinstance(size, int):
                pass
            else:
                o.fills = ()
        return dead

    # ------------------------------------------------------------------ pointers and integers
    def ptr2int(self, p):
        if p.base is None:
            return p.off
        return add(lin(atom(('addr', p.base), name='addr(%s)' % (p.base,), lo=1)), p.off)

    def int2ptr(self, v):
        if isinstance(v, int):
            return Ptr(None, v)
        if isinstance(v, Lin):
            for a, k in v.t:
                if k == 1 and isinstance(a.key, tuple) and a.key[0] == 'addr':
                    return Ptr(a.key[1], sub(v, lin(a)))
        return Ptr(fresh('i2p'), 0)

    # ------------------------------------------------------------------ arithmetic
    def num(self, v, w=64):
        if isinstance(v, (int, Lin)):
            return v
        if isinstance(v, Ptr):
            return self.ptr2int(v)
        if isinstance(v, BV):
            lo, hi = self.brange(v.b, len(v.b))
            if hi >> (len(v.b) - 1):
                lo = hi = None
            return lin(atom(('bv', v), name=repr(v), w=w, lo=lo, hi=hi))
        if isinstance(v, Cond):
            return self.cond_num(v)
        return lin(fresh('u', w))

    def cond_num(self, c):
        if isinstance(c, int):
            return c & 1
        return lin(atom(('cond', c), name='[%r]' % c, w=8, lo=0, hi=1))

    def bitsof(self, v, w):
        if isinstance(v, (int, BV, Lin)):
            return tobits(v, w)
        return None

    def binop(self, st, op, a, b, w):
        r = self.binop0(st, op, a, b, w)
        if self.c.max_terms and isinstance(r, Lin) and len(r.t) > self.c.max_terms:
            return lin(fresh('sum', w))
        return r

    def binop0(self, st, op, a, b, w):
        if w == 1:
            return self.bool_op(st, op, a, b)
        if isinstance(a, Undef) or isinstance(b, Undef):
            return lin(fresh('u', w))
        if isinstance(a, int) and isinstance(b, int):
            return self.const_op(op, a, b, w)
        ba = bb = None
        if op in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'add', 'sub', 'mul', 'udiv', 'urem'):
            # bit level whenever an operand carries bit provenance
            if self.has_bits(a) or self.has_bits(b):
                ba, bb = self.bitsof(a, w), self.bitsof(b, w)
                r = self.bit_op(op, a, b, ba, bb, w)
                if r is not None and not (op in ('add', 'sub', 'mul') and isinstance(r, BV) and any(isinstance(x, BDD) or x is None for x in r.b)
                                          and not any(isinstance(x, BDD) for v in (ba, bb) for x in v)):
                    return r
        a, b = self.num(a, w), self.num(b, w)
        if op == 'add':
            return add(a, b)
        if op == 'sub':
            return sub(a, b)
        if op == 'mul':
            if isinstance(a, int):
                return scale(b, a)
            if isinstance(b, int):
                return scale(a, b)
            x, y = sorted((a, b), key=repr)
            return opq('mul', x, y)
        if op == 'shl' and isinstance(b, int):
            return scale(a, 1 << b)
        if op in ('lshr', 'ashr') and isinstance(b, int):
            return self.divpow(st, a, b, op)
        if op in ('udiv', 'sdiv') and isinstance(b, int) and b > 0:
            if b & (b - 1) == 0:
                return self.divpow(st, a, b.bit_length() - 1, 'lshr' if op == 'udiv' else 'sdiv')
            lo, hi = bounds(a)
            if lo is not None and lo >= 0 and hi is not None and lo // b == hi // b:
                return lo // b
            return opq(op, a, b, lo=lo // b if lo is not None and lo >= 0 else None, hi=hi // b if hi is not None else None)
        if op in ('urem', 'srem') and isinstance(b, int) and b > 0:
            if b & (b - 1) == 0 and op == 'urem':
                return self.modpow(st, a, b.bit_length() - 1)
            return opq(op, a, b, lo=0 if op == 'urem' else 1 - b, hi=b - 1)
        if op == 'and':
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int) and y >= 0 and (y & (y + 1)) == 0:
                    return self.modpow(st, x, (y + 1).bit_length() - 1)
                if isinstance(y, int) and y == -1:
                    return x
            x, y = sorted((a, b), key=repr)
            hi = None
            if isinstance(x, int) and x >= 0:
                hi = x
            if isinstance(y, int) and y >= 0:
                hi = y
            return opq('and', x, y, lo=0 if hi is not None else None, hi=hi)
        if op == 'or':
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int) and y == 0:
                    return x
                if isinstance(x, Lin):
                    lo, hi = bounds(y)
                    if lo is not None and lo >= 0 and hi is not None:
                        g = 1 << hi.bit_length()
                        if all(k % g == 0 for _, k in x.t) and x.c % g == 0:
                            return add(x, y)
        if op == 'xor':
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int) and y == -1:
                    return sub(-1, x)
                if isinstance(y, int) and y == 0:
                    return x
        if op in ('and', 'or', 'xor'):
            a, b = sorted((a, b), key=repr)
        return opq(op, a, b)

    def has_bits(self, v):
        return isinstance(v, BV) or (isinstance(v, Lin) and any(x.bits for x, _ in v.t))

    def const_op(self, op, a, b, w):
        ua, ub = uns(a, w), uns(b, w)
        if op == 'add':
            r = a + b
        elif op == 'sub':
            r = a - b
        elif op == 'mul':
            r = a * b
        elif op == 'and':
            r = ua & ub
        elif op == 'or':
            r = ua | ub
        elif op == 'xor':
            r = ua ^ ub
        elif op == 'shl':
            if ub >= w:
                return lin(fresh('undefined_shift', w, bits=True))
            r = ua << ub
        elif op == 'lshr':
            if ub >= w:
                return lin(fresh('undefined_shift', w, bits=True))
            r = ua >> ub
        elif op == 'ashr':
            if ub >= w:
                return lin(fresh('undefined_shift', w, bits=True))
            r = a >> ub
        elif op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0:
            return lin(fresh('poison', w))
        elif op == 'udiv':
            r = ua // ub
        elif op == 'urem':
            r = ua % ub
        elif op == 'sdiv':
            r = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        elif op == 'srem':
            r = a - b * (abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1))
        else:
            return lin(fresh(op, w))
        return sgn(r, w)

    def bit_op(self, op, a, b, ba, bb, w):
        if op in ('udiv', 'urem'):
            if not isinstance(b, int) or b <= 0 or b & (b - 1) or ba is None:
                return None
            k = b.bit_length() - 1
            return frombits(ba[k:] + [0] * k if op == 'udiv' else ba[:k] + [0] * (w - k))
        if op in ('shl', 'lshr', 'ashr'):
            if ba is None:
                return None
            if not isinstance(b, int):
                return self.var_shift(op, ba, bb, w)
            k = uns(b, w)
            if k >= w:
                return lin(fresh('undefined_shift', w, bits=True))
            if op == 'shl':
                return frombits([0] * k + ba[:w - k])
            if op == 'lshr':
                return frombits(ba[k:] + [0] * k)
            return frombits(ba[k:] + [ba[-1]] * k)
        if op in ('add', 'sub', 'mul'):
            if ba is None or bb is None:
                return None
            if op == 'add':
                return frombits(badd(ba, bb))
            if op == 'sub':
                return frombits(badd(ba, [bnot(x) for x in bb], 1))
            if isinstance(b, int):
                a, b, ba, bb = b, a, bb, ba
            if not isinstance(a, int):
                return None
            k = uns(a, w)
            acc = [0] * w
            i = 0
            while k:
                if k & 1:
                    acc = badd(acc, [0] * i + bb[:w - i])
                k >>= 1
                i += 1
            return frombits(acc)
        if ba is None:
            ba = [None] * w
        if bb is None:
            bb = [None] * w
        return frombits([bitop(op, x, y) for x, y in zip(ba, bb)])

    def var_shift(self, op, ba, bb, w):
        """barrel shifter; a shift count of w or more leaves no bit known"""
        if bb is None:
            return None
        n = w.bit_length() - 1
        r = list(ba)
        for j in range(n):
            k = 1 << j
            if op == 'shl':
                sh = [0] * k + r[:w - k]
            elif op == 'lshr':
                sh = r[k:] + [0] * k
            else:
                sh = r[k:] + [r[-1]] * k
            r = [bite(bb[j], x, y) for x, y in zip(sh, r)]
        for x in bb[n:]:
            if not (isinstance(x, int) and x == 0):
                return BV((None,) * w)
        return frombits(r)

    def divpow(self, st, a, k, op):
        if k == 0:
            return a
        g = 1 << k
        if isinstance(a, Lin) and all(c % g == 0 for _, c in a.t):
            return add(Lin(0, tuple((x, c // g) for x, c in a.t)), a.c // g)
        # split off the part divisible by g when the remainder is bounded
        if isinstance(a, Lin):
            hi_t = tuple((x, c // g) for x, c in a.t if c % g == 0)
            rest = Lin(a.c % g, tuple((x, c) for x, c in a.t if c % g))
            lo, hi = bounds(rest)
            if hi_t and lo is not None and hi is not None and lo >= 0 and hi < g:
                return add(Lin(0, hi_t), a.c // g)
        lo, hi = bounds(a)
        if lo is not None and hi is not None and lo >= 0 and hi < g:
            return 0
        nn = st.nonneg(a)
        if nn and lo is not None and hi is not None and lo >= 0 and lo >> k == hi >> k:
            return lo >> k
        return opq('div', a, g, lo=lo >> k if nn and lo is not None and lo >= 0 else 0 if nn or op == 'lshr' else None,
                   hi=hi >> k if hi is not None and nn else None)

    def modpow(self, st, a, k):
        g = 1 << k
        if isinstance(a, int):
            return a % g
        c = a.c % g
        rest = tuple((x, q % g) for x, q in a.t if q % g)
        if not rest:
            return c
        r = Lin(c, rest)
        lo, hi = bounds(r)
        if lo is not None and hi is not None and lo >= 0 and hi < g:
            return r
        if st.nonneg(a) and st.facts.le0(sub(a, g - 1)):
            return a
        return opq('mod', a, g, lo=0, hi=g - 1)

    def bool_op(self, st, op, a, b):
        if isinstance(a, Undef):
            a = Cond('t', ('b', fresh('b').id))
        if isinstance(b, Undef):
            b = Cond('t', ('b', fresh('b').id))
        ca, cb = self.dec(st, a), self.dec(st, b)
        if op == 'xor':
            if isinstance(b, int):
                return notc(a) if b & 1 else a
            if isinstance(a, int):
                return notc(b) if a & 1 else b
            if ca is not None:
                return notc(b) if ca else b
            raise Fork(a)
        if op == 'and':
            if ca == 0 or cb == 0:
                return 0
            if ca == 1:
                return b
            if cb == 1:
                return a
            raise Fork(a)
        if op == 'or':
            if ca == 1 or cb == 1:
                return 1
            if ca == 0:
                return b
            if cb == 0:
                return a
            raise Fork(a)
        return Cond('t', ('b', fresh('b').id))

    def dec(self, st, c):
        if isinstance(c, Undef):
            return None
        return st.decide(c)

    def signed(self, st, v, w):
        """a narrow value known as unsigned, read as signed"""
        if isinstance(v, int):
            return sgn(v, w)
        if not isinstance(v, Lin):
            return v
        h = 1 << (w - 1)
        lo, hi = bounds(v)
        if self.c.separate:
            return self.wrap(st, v, w, -h)
        if lo is None or hi is None or lo < 0 or hi < h or hi >= 2 * h:
            return v
        c = mk_le(sub(v, h - 1))
        d = st.decide(c)
        if d is None:
            raise Fork(c)
        return v if d else sub(v, 2 * h)

    def wrap(self, st, v, w, low):
        """v modulo 2^w in the range that starts at low; forks where the value is not known well enough"""
        for i in range(6):
            lo, hi = bounds(v)
            if lo is None or hi is None or hi - lo > 4 << w:
                return v
            if lo >= low and hi < low + (1 << w):
                return v
            for c, k in ((mk_le(sub(v, low - 1)), 1), (mk_le(sub(low + (1 << w), v)), -1)):   # below, above
                d = st.decide(c)
                if d is None:
                    raise Fork(c)
                if d:
                    v = add(v, k << w)
                    break
            else:
                return v
        return v

    # ------------------------------------------------------------------ comparisons
    def icmp(self, st, pred, a, b, ty):
        if isinstance(a, Undef) or isinstance(b, Undef):
            return Cond('t', ('b', fresh('b').id))
        if ty == 'ptr' or isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.pcmp(st, pred, a, b)
        w = width(ty) or 64
        if w == 1:
            if pred == 'eq':
                return notc(self.bool_op(st, 'xor', a, b))
            return self.bool_op(st, 'xor', a, b)
        if isinstance(a, int) and isinstance(b, int):
            return self.ccmp(pred, a, b, w)
        if (isinstance(a, BV) or isinstance(b, BV) or self.has_bits(a) or self.has_bits(b)) and not (linear(a) and linear(b)):
            r = self.bitcmp(st, pred, a, b, w)
            if r is not None:
                return r
        # comparisons of a boolean turned integer with a constant
        for x, y, sw in ((a, b, False), (b, a, True)):
            if isinstance(y, int) and isinstance(x, Lin) and x.c == 0 and len(x.t) == 1 and x.t[0][1] == 1 \
                    and isinstance(x.t[0][0].key, tuple) and x.t[0][0].key[0] == 'cond':
                c = x.t[0][0].key[1]
                r0 = self.ccmp(pred, *((y, 0) if sw else (0, y)), w)
                r1 = self.ccmp(pred, *((y, 1) if sw else (1, y)), w)
                return r0 if r0 == r1 else (c if r1 else notc(c))
        a, b = self.num(a, w), self.num(b, w)
        if pred == 'eq':
            return mk_eq(sub(a, b))
        if pred == 'ne':
            return notc(mk_eq(sub(a, b)))
        if pred[0] == 's' and w <= 16:
            a, b = self.signed(st, a, w), self.signed(st, b, w)
        if pred[0] == 'u':
            na, nb = self.usign(st, a), self.usign(st, b)
            if na != nb:
                less = nb  # the one that is negative as signed is huge
                r = 1 if less else 0   # a < b
                if pred in ('ugt', 'uge'):
                    r = 1 - r
                return r
        p = pred[1:]
        if p == 'lt':
            return mk_le(add(sub(a, b), 1))
        if p == 'le':
            return mk_le(sub(a, b))
        if p == 'gt':
            return mk_le(add(sub(b, a), 1))
        return mk_le(sub(b, a))

    def usign(self, st, x):
        """is x negative as a signed number (huge as unsigned)?  forks when it matters"""
        if isinstance(x, int):
            return x < 0
        if x.c >= 0 and all(k > 0 for _, k in x.t) and all(a.lo is None or a.lo >= 0 for a, _ in x.t):
            return False  # sums of unsigned quantities: below 2^63 by assumption
        c = mk_le(scale(x, -1))
        d = st.decide(c)
        if d is None:
            raise Fork(c)
        return not d

    def ccmp(self, pred, a, b, w):
        if pred[0] == 'u':
            a, b = uns(a, w), uns(b, w)
        return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred if pred in ('eq', 'ne') else pred[1:]])

    def bitcmp(self, st, pred, a, b, w):
        ba, bb = self.bitsof(a, w), self.bitsof(b, w)
        if ba is None or bb is None:
            return None
        if pred in ('eq', 'ne'):
            x = 0
            for p, q in zip(ba, bb):
                x = bitop('or', x, bitop('xor', p, q))
                if x == 1 and isinstance(x, int):
                    break
            return self.bcond(st, bnot(x) if pred == 'eq' else x)
        if pred[0] == 's':
            ba, bb = ba[:-1] + [bnot(ba[-1])], bb[:-1] + [bnot(bb[-1])]
        p = pred[1:]
        if p in ('gt', 'le'):
            ba, bb = bb, ba
        lt = 0  # ba < bb
        for x, y in zip(ba, bb):
            d = bitop('xor', x, y)
            lt = bitop('or', bitop('and', bitop('and', bnot(x), y), 1), bitop('and', bnot(d), lt))
        return self.bcond(st, bnot(lt) if p in ('le', 'ge') else lt)

    def bcond(self, st, x):
        if isinstance(x, int):
            return x
        if x is None:
            return Cond('t', ('b', fresh('b').id))
        n = bnot(x)
        # canonical polarity
        kx, kn = self.bkey(x), self.bkey(n)
        return Cond('t', ('bit', x)) if kx <= kn else Cond('f', ('bit', n))

    def bkey(self, x):
        return (0, x[0].id, x[1]) if isinstance(x, tuple) else (1, x.id, 0)

    def brange(self, b, w):
        lo = sum((x if isinstance(x, int) else 0) << i for i, x in enumerate(b))
        hi = sum((x if isinstance(x, int) else 1) << i for i, x in enumerate(b))
        return lo, hi

    def pcmp(self, st, pred, a, b):
        if not isinstance(a, Ptr):
            a = self.int2ptr(a)
        if not isinstance(b, Ptr):
            b = self.int2ptr(b)
        if a.base == b.base:
            d = sub(a.off, b.off)
            if pred == 'eq':
                return mk_eq(d)
            if pred == 'ne':
                return notc(mk_eq(d))
            p = pred[1:]
            if p == 'lt':
                return mk_le(add(d, 1))
            if p == 'le':
                return mk_le(d)
            if p == 'gt':
                return mk_le(sub(1, d))
            return mk_le(scale(d, -1))
        if a.base is None or b.base is None:
            x = b if a.base is None else a
            if isinstance(x.base, Atom) and not (isinstance(x.base.meta, tuple) and x.base.meta[0] == 'choice') and x.base.meta != 'nonnull':
                if pred == 'eq':
                    return Cond('t', ('isnull', x.base))
                if pred == 'ne':
                    return Cond('f', ('isnull', x.base))
            elif pred in ('eq', 'ne'):
                return int(pred == 'ne')
            if pred[0] == 'u':
                lt = a.base is None  # null is below every object
                return int(lt == (pred in ('ult', 'ule')))
        ia, ib = isinstance(a.base, Atom), isinstance(b.base, Atom)
        if not ia and not ib and pred in ('eq', 'ne') and isinstance(a.off, int) and isinstance(b.off, int):
            return int(pred == 'ne')
        if pred in ('eq', 'ne'):
            k = tuple(sorted((repr(a), repr(b))))
            return Cond('t' if pred == 'eq' else 'f', ('peq', k))
        return self.icmp(st, pred, self.ptr2int(a), self.ptr2int(b), 'i64')

    # ------------------------------------------------------------------ casts
    def cast(self, st, op, v, fty, ty):
        if isinstance(v, Undef):
            return self.fresh_of(ty, 'u')
        w, f = width(ty), width(fty)
        if op == 'ptrtoint':
            return self.ptr2int(v)
        if op == 'inttoptr':
            return self.int2ptr(v)
        if op in ('bitcast', 'freeze', 'addrspacecast'):
            return v
        if w is None or f is None:
            return self.fresh_of(ty, op)
        if op == 'zext':
            if f == 1:
                return self.cond_num(v)
            if isinstance(v, int):
                return sgn(uns(v, f), w)
            if isinstance(v, BV) or self.has_bits(v):
                b = tobits(v, f)
                if b is not None:
                    return frombits(b + [0] * (w - f))
            if isinstance(v, Ptr):
                return v
            v = self.num(v, f)
            if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1 and v.t[0][0].meta == 'raw':
                a = v.t[0][0]
                return opq('zx', v, lo=0, hi=(1 << f) - 1)
            if v.c >= 0 and all(k > 0 for _, k in v.t) and all(a.lo is None or a.lo >= 0 for a, _ in v.t):
                return v
            if st.nonneg(v) and not (self.c.separate and f <= 16):
                return v
            if self.c.separate and f <= 16:
                return self.wrap(st, v, f, 0)
            return opq('zx%d' % f, v, lo=0, hi=(1 << f) - 1)
        if op == 'sext':
            if f == 1:
                c = self.cond_num(v)
                return scale(c, -1)
            if isinstance(v, int):
                return v
            if isinstance(v, BV) or self.has_bits(v):
                b = tobits(v, f)
                if b is not None:
                    return frombits(b + [b[-1]] * (w - f))
            v = self.num(v, f)
            if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1 and v.t[0][0].meta == 'raw':
                return opq('sx', v, lo=-(1 << (f - 1)), hi=(1 << (f - 1)) - 1)
            return self.signed(st, v, f) if f <= 16 else v
        if op == 'trunc':
            if isinstance(v, int):
                return sgn(v, w) if w > 1 else v & 1
            if isinstance(v, BV) or self.has_bits(v):
                b = tobits(v, f)
                if b is not None:
                    if w == 1:
                        return b[0] if isinstance(b[0], int) else Cond('t', ('bit', b[0]))
                    return frombits(b[:w])
            v = self.num(v, f)
            if w == 1:
                if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1:
                    a = v.t[0][0]
                    if isinstance(a.key, tuple) and a.key[0] == 'cond':
                        return a.key[1]
                return Cond('t', ('odd', v))
            # trunc(zext x) = x
            if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1:
                k = v.t[0][0].key
                if isinstance(k, tuple) and k[0] == 'op' and k[1] in ('zx', 'sx') and k[3].t[0][0].w == w:
                    return k[3]
            lo, hi = bounds(v)
            if lo is not None and hi is not None and lo >= -(1 << (w - 1)) and hi < (1 << w):
                return v
            if self.trunc_ideal(st, v, f, w):
                return v
            if self.c.separate and w <= 16 and None not in (lo, hi) and hi - lo <= 2 << w:
                return self.wrap(st, v, w, 0)
            r = opq('tr%d' % w, v, w=w)
            r.t[0][0].meta = 'raw'
            return r
        return self.fresh_of(ty, op)

    def trunc_ideal(self, st, v, f, w):
        return False

    # ------------------------------------------------------------------ one instruction
    def step(self, st, fn, ins):
        """straight-line instruction; sets env. Raises Fork / Dead."""
        op = ins['op']
        ops = ins.get('ops', ())
        V = self.opval
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            w = width(ins['ty'])
            if w is None:
                st.env[ins['id']] = self.fresh_of(ins['ty'], op)
                return
            st.env[ins['id']] = self.binop(st, op, V(st, ops[0]), V(st, ops[1]), w)
        elif op == 'load':
            p = V(st, ops[0])
            if not isinstance(p, Ptr):
                p = self.int2ptr(p) if is_num(p) else Ptr(fresh('undefptr'), 0)
            v = st.env[ins['id']] = self.load(st, ins, p, ins['size'], ins['ty'])
            self.c.loaded(self, st, ins, p, ins['size'], v)
        elif op == 'store':
            v, p = V(st, ops[0]), V(st, ops[1])
            if not isinstance(p, Ptr):
                p = self.int2ptr(p) if is_num(p) else Ptr(fresh('undefptr'), 0)
            if ins['vty'].startswith('<') or ins['vty'].startswith('['):
                if ops[0][0] == 'zero':
                    self.fill(st, ins, p, ins['size'], 0)
                    return
                v = UNDEF
            self.store(st, ins, p, ins['size'], v)
        elif op == 'getelementptr':
            p = V(st, ins['base'])
            if not isinstance(p, Ptr):
                p = self.int2ptr(p) if is_num(p) else Ptr(fresh('undefptr'), 0)
            off = add(p.off, int(ins['off']))
            for o, s in ins['idx']:
                x = V(st, o)
                off = add(off, scale(self.num(x), int(s)))
            st.env[ins['id']] = Ptr(p.base, off)
            if self.c.subscripts and ins.get('sel'):
                self.c.subscript(self, st, ins, p, [(self.num(V(st, o)), n, es) for o, n, es in ins['sel']])
        elif op == 'icmp':
            a, b = V(st, ops[0]), V(st, ops[1])
            ty = self.opty(fn, ops[0], ops[1], ins)
            st.env[ins['id']] = self.icmp(st, ins['pred'], a, b, ty)
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            st.env[ins['id']] = self.cast(st, op, V(st, ops[0]), ins.get('fty', ins['ty']), ins['ty'])
        elif op == 'select':
            c = V(st, ops[0])
            if isinstance(c, Undef):
                c = Cond('t', ('b', fresh('b').id))
            a, b = V(st, ops[1]), V(st, ops[2])
            if a == b:
                st.env[ins['id']] = a
                return
            d = st.decide(c)
            if d is None:
                raise Fork(c)
            st.env[ins['id']] = a if d else b
        elif op == 'alloca':
            b = st.new_obj('alloca', ins['alloc'], fn.loc(ins), 'local%d' % ins['id'])
            st.env[ins['id']] = Ptr(b, 0)
        elif op == 'extractvalue':
            v = V(st, ops[0])
            if isinstance(v, Agg) and len(ins['ix']) == 1 and ins['ix'][0] < len(v.f):
                st.env[ins['id']] = v.f[ins['ix'][0]]
            else:
                st.env[ins['id']] = self.fresh_of(ins['ty'], 'xv')
        elif op == 'insertvalue':
            v = V(st, ops[0])
            n = len(split_types(ins['ty'])) if ins['ty'].startswith('{') else 1
            f = list(v.f) if isinstance(v, Agg) else [UNDEF] * n
            if len(ins['ix']) == 1 and ins['ix'][0] < len(f):
                f[ins['ix'][0]] = V(st, ops[1])
            st.env[ins['id']] = Agg(tuple(f))
        elif op == 'landingpad':
            st.env[ins['id']] = self.fresh_of(ins['ty'], 'lp')
        elif op in ('fence',):
            pass
        elif op == 'va_arg':
            st.env[ins['id']] = self.fresh_of(ins['ty'], 'va')
        else:
            st.env[ins['id']] = self.fresh_of(ins['ty'], op)

    def opty(self, fn, o1, o2, ins):
        for o in (o1, o2):
            if o[0] == 'c':
                return 'i%d' % o[2]
            if o[0] in ('null', 'g', 'f', 'cgep'):
                return 'ptr'
        t = self.valty(fn)
        for o in (o1, o2):
            if o[0] == 'v' and o[1] in t:
                return t[o[1]]
        return 'i64'

    def valty(self, fn):
        t = getattr(fn, '_valty', None)
        if t is None:
            t = {a: y for a, y in zip(fn.args, fn.argty)}
            for b in fn.blocks.values():
                for i in b:
                    t[i['id']] = i['ty']
            fn._valty = t
        return t

    def fill(self, st, ins, p, size, val):
        self.getobj(st, p, ins, True, 1)
        self.c.access(self, st, ins, p, size, True, val)
        o = st.wobj(p.base)
        o.written = True
        self.kill(st, o, p.off, size)
        if isinstance(p.off, int):
            if isinstance(size, int) and size <= 16:
                for i in range(size):
                    o.cells[p.off + i] = (1, val)
            elif isinstance(size, int):
                o.fills = o.fills + ((p.off, p.off + size, val),) if isinstance(val, int) else o.fills
            elif p.off == 0 and size == o.size and isinstance(val, int):
                o.fills = o.fills + ((0, None, val),)

    # ------------------------------------------------------------------ heap operations
    ALLOC = {'malloc': 'malloc', 'calloc': 'malloc', '_Znwm': 'new', '_Znam': 'new[]',
             '_ZnwmRKSt9nothrow_t': 'new', '_ZnamRKSt9nothrow_t': 'new[]'}
    FREE = {'free': 'malloc', '_ZdlPv': 'new', '_ZdlPvm': 'new', '_ZdaPv': 'new[]', '_ZdaPvm': 'new[]',
            '_ZdlPvRKSt9nothrow_t': 'new', '_ZdaPvRKSt9nothrow_t': 'new[]'}

    def allocate(self, st, fn, ins, kind, size, name=None):
        loc = fn.loc(ins)
        b = st.new_obj(kind, size, loc, name or '%s@%s' % (kind, loc.split(' ')[0]))
        return Ptr(b, 0)

    def free(self, st, fn, ins, kind, p):
        """returns False if the path must not continue"""
        if isinstance(p, Undef):
            return
        if not isinstance(p, Ptr):
            p = self.int2ptr(p) if is_num(p) else Ptr(fresh('p'), 0)
        if p.base is None:
            return
        o = st.objs.get(p.base)
        if o is None:
            if isinstance(p.base, Atom):
                m = p.base.meta
                if isinstance(m, tuple) and m and m[0] == 'choice':
                    # one of several objects is released: which one is not known
                    for b in m[1]:
                        if b in st.objs and not st.objs[b].ext:
                            st.wobj(b).ext = True
                    return
                st.new_obj('ext', None, None, repr(p.base), True, key=p.base)
                o = st.objs[p.base]
        if not o.alive:
            self.c.bad_free(self, st, ins, 'double', o)
            raise Dead()
        if o.kind in ('alloca', 'global'):
            self.c.bad_free(self, st, ins, 'not heap', o)
            raise Dead()
        if o.kind in ('malloc', 'new', 'new[]') and o.kind != kind:
            self.c.bad_free(self, st, ins, 'mismatch:%s' % kind, o)
        if isinstance(p.off, int) and p.off != 0 and not o.ext:
            self.c.bad_free(self, st, ins, 'interior', o)
        w = st.wobj(p.base)
        w.alive = False
        self.c.freed(self, st, ins, w, p.base)

    def havoc_obj(self, st, b):
        o = st.objs.get(b)
        if o is None or not o.alive:
            return
        o = st.wobj(b)
        for k, (s, x) in o.cells.items():
            if isinstance(x, Ptr) and x.base is not None:
                o.summ = o.summ | sbase(st, x.base)
        o.cells = {}
        o.fills = ()
        o.written = True

    def default_call(self, st, fn, ins, name, callee, args):
        """library and unknown functions. list of (state, value|'THROW')"""
        rty = ins['ty']
        if name in self.ALLOC:
            size = args[0]
            if name == 'calloc':
                size = self.binop(st, 'mul', self.num(args[0]), self.num(args[1]), 64)
            p = self.allocate(st, fn, ins, self.ALLOC[name], size)
            if name == 'calloc':
                st.objs[p.base].fills = ((0, None, 0),)
            return [(st, p)]
        if name in self.FREE:
            self.free(st, fn, ins, self.FREE[name], args[0])
            return [(st, None)]
        if name == 'realloc':
            return self.realloc(st, fn, ins, args)
        if name is None:
            for a in args:
                if isinstance(a, Ptr):
                    self.havoc_obj(st, a.base)
            return [(st, self.fresh_of(rty, 'ind'))]
        if name.startswith('llvm.'):
            return self.intrinsic(st, fn, ins, name, args)
        if name in ('memcpy', 'memmove', 'memset'):
            r = self.intrinsic(st, fn, ins, 'llvm.' + name, args)
            return [(s, args[0]) for s, _ in r]
        if name == '__cxa_throw':
            self.c_event_throw(st, fn, ins, args)
            return [(st, 'THROW')]
        if name in ('__cxa_rethrow', '_Unwind_Resume'):
            return [(st, 'THROW')]
        if name.startswith('_ZSt') and name.split('v')[0].startswith('_ZSt') and re.match(r'_ZSt\d+__throw_', name):
            return [(st, 'THROW')]
        if name in ('abort', 'exit', '_exit', '_ZSt9terminatev', '__clang_call_terminate'):
            return []
        if name == '__cxa_allocate_exception':
            b = st.new_obj('exc', args[0], fn.loc(ins), 'exception')
            return [(st, Ptr(b, 0))]
        if name in ('__cxa_begin_catch', '__cxa_get_exception_ptr'):
            return [(st, Ptr(fresh('exc'), 0))]
        if name in ('strlen', 'strcmp', 'memcmp', 'strncmp'):
            for a in args:
                if isinstance(a, Ptr):
                    self.getobj(st, a, ins, False, 1)
            return [(st, self.fresh_of(rty, name))]
        r = self.algorithm(st, fn, ins, name, callee, args)
        if r is not None:
            return r
        if callee is not None and not callee.decl and re.search(r'(^| )std::\w*sort', callee.base):
            # permutes the range; the comparison only reads
            for a in args[:2]:
                if isinstance(a, Ptr) and a.base is not None:
                    self.getobj(st, a, ins, True, 1)
                    self.havoc_obj(st, a.base)
            return [(st, self.fresh_of(rty, 'sort'))]
        sm = summary(name) if callee is not None and not callee.decl else None
        for k, a in enumerate(args):
            if isinstance(a, Ptr):
                o = st.objs.get(a.base)
                if o is not None and not o.alive and (sm is None or k in sm.deref):
                    self.c.dead_access(self, st, ins, o, False)
                    raise Dead()
                if sm is not None and k in sm.deref and (a.base is None or isinstance(a.base, Atom) and Cond('t', ('isnull', a.base)) in st.facts.s):
                    self.c.null_access(self, st, ins, False)
                    raise Dead()
        if sm is not None:
            # a function of the library that is not looked into: what it may write is forgotten
            deep = set()
            grown = []
            for k, a in enumerate(args):
                if not isinstance(a, Ptr) or a.base is None:
                    continue
                if isinstance(a.base, Atom) and a.base not in st.objs and isinstance(a.base.meta, tuple) and a.base.meta and a.base.meta[0] == 'choice':
                    # one of several objects: what may be written is forgotten in each
                    ws = [w for w in sm.writes if w != 'other' and w[0] == k]
                    for b in a.base.meta[1]:
                        if b in st.objs and st.objs[b].alive:
                            if any(w[1] is None for w in ws) or not isinstance(a.off, int):
                                if ws:
                                    self.havoc_obj(st, b)
                            elif ws:
                                w = st.wobj(b)
                                for _, off, size in ws:
                                    self.kill(st, w, off + a.off, size)
                                w.written = True
                    continue
                o = st.objs.get(a.base)
                if 'other' in sm.writes and o is not None:
                    deep |= {v.base for _, v in o.cells.values() if isinstance(v, Ptr)} | set(o.summ)
                ws = [w for w in sm.writes if w != 'other' and w[0] == k]
                if any(w[1] is None for w in ws):
                    self.havoc_obj(st, a.base)
                elif o is not None:
                    for _, off, size in ws:
                        c = o.cells.get(add(a.off, off))
                        if c is not None and isinstance(c[1], Ptr) and c[0] == size and sm.allocs:
                            v = c[1]
                            t = st.objs.get(v.base)
                            if t is not None and not t.ext and t.alive and t.kind in ('malloc', 'new', 'new[]'):
                                # a resizable block owned by the field: still one block, of unknown size
                                if self.c.moves and t.kind == 'malloc':
                                    st.wobj(v.base).alive = False
                                    q = self.allocate(st, fn, ins, t.kind, lin(fresh('size', lo=0)), 'of ' + name)
                                    st.wobj(a.base).cells[add(a.off, off)] = (8, q)
                                    continue
                                self.havoc_obj(st, v.base)
                                st.wobj(v.base).size = lin(fresh('size', lo=0))
                                continue
                            if v.base is None:
                                grown.append((a.base, add(a.off, off)))
                                continue
                        w = st.wobj(a.base)
                        self.kill(st, w, add(a.off, off), size)
                        w.written = True
            for b in deep:
                if b is not None and b in st.objs and not (isinstance(b, tuple) and b[0] == 'glob'):
                    o = st.objs[b]
                    if o.alive and not any(isinstance(v, Ptr) for _, v in o.cells.values()):
                        self.havoc_obj(st, b)
            self.c.count('calls of functions not looked into')
            if grown:
                # a block that did not exist yet may have been allocated
                s2 = st.copy()
                for b, off in grown:
                    q = self.allocate(s2, fn, ins, sorted(sm.allocs)[0], lin(fresh('size', lo=0)), 'of ' + name)
                    s2.wobj(b).cells[off] = (8, q)
                return [(st, self.fresh_of(rty, name)), (s2, self.fresh_of(rty, name))]
            return [(st, self.fresh_of(rty, name))]
        for a in args:
            if isinstance(a, Ptr) and a.base is not None:
                self.havoc_obj(st, a.base)
        self.c.count('unmodelled calls')
        return [(st, self.fresh_of(rty, name))]

    def algorithm(self, st, fn, ins, name, callee, args):
        """models of std::fill, fill_n, copy on plain pointers; None: not one of them"""
        if callee is None or callee.decl:
            return None
        m = re.search(r'(?:^| )std::(?:__)?(fill_n|fill_n_a|fill|fill_a|fill_a1|copy|copy_n|reverse|swap_ranges)<', callee.base)
        if not m or not args or not isinstance(args[0], Ptr) or args[0].base is None:
            return None
        k = m.group(1)
        rty = ins['ty']
        mm = re.search(r'<(unsigned char|signed char|char|short|unsigned short|int|unsigned int|long|unsigned long|bool)\*', callee.base)
        es = {'char': 1, 'bool': 1, 'short': 2, 'int': 4, 'long': 8}[mm.group(1).split()[-1]] if mm else 8 if '**' in callee.base else None
        if es is None:
            return None
        if k in ('copy', 'copy_n') and len(args) > 2 and isinstance(args[2], Ptr):
            if k == 'copy_n':
                n = scale(self.num(args[1]), es)
            elif isinstance(args[1], Ptr) and args[1].base == args[0].base:
                n = sub(args[1].off, args[0].off)
            else:
                return None
            to = args[2]
            r = self.intrinsic(st, fn, ins, 'llvm.memmove.', [to, args[0], n, 0])
            return [(s, Ptr(to.base, add(to.off, n)) if rty == 'ptr' else None) for s, _ in r]
        if k in ('fill_n', 'fill_n_a') or k in ('fill', 'fill_a', 'fill_a1'):
            v = args[2]
            if isinstance(v, Ptr) and v.base in st.objs:
                c = st.objs[v.base].cells.get(v.off)
                v = c[1] if c is not None else UNDEF
            if k.startswith('fill_n'):
                n = scale(self.num(args[1]), es)
            else:
                if not isinstance(args[1], Ptr) or args[1].base != args[0].base:
                    return None
                n = sub(args[1].off, args[0].off)
            if isinstance(v, int) and v in (0, -1):
                self.fill(st, ins, args[0], n, v)
            else:
                self.fill(st, ins, args[0], n, UNDEF)
            return [(st, Ptr(args[0].base, add(args[0].off, n)) if rty == 'ptr' else None)]
        return None

    def c_event_throw(self, st, fn, ins, args):
        ty = None
        st.event('throw', fn.loc(ins), repr(args[1]) if len(args) > 1 else '')

    def realloc(self, st, fn, ins, args):
        p, size = args[0], args[1]
        out = []
        if isinstance(p, Ptr) and p.base is None:
            return [(st, self.allocate(st, fn, ins, 'malloc', size))]
        if not isinstance(p, Ptr):
            p = Ptr(fresh('p'), 0)
        o = st.objs.get(p.base)
        if o is None and isinstance(p.base, Atom):
            isn = Cond('t', ('isnull', p.base))
            d = st.decide(isn)
            if d is None:
                raise Fork(isn)
            if d:
                return [(st, self.allocate(st, fn, ins, 'malloc', size))]
            st.new_obj('ext', None, None, repr(p.base), True, key=p.base)
            o = st.objs[p.base]
        if isinstance(p.base, Atom) and isinstance(p.base.meta, tuple) and p.base.meta and p.base.meta[0] == 'choice':
            # one of several objects: which one is not known
            for b in p.base.meta[1]:
                if b in st.objs and not st.objs[b].ext:
                    st.wobj(b).ext = True
            return [(st, self.allocate(st, fn, ins, 'malloc', size))]
        if o is not None and not o.alive:
            self.c.bad_free(self, st, ins, 'double', o)
            raise Dead()
        if o is not None and o.kind in ('new', 'new[]'):
            self.c.bad_free(self, st, ins, 'mismatch:realloc', o)
        # grown in place
        s1 = st.copy()
        w = s1.wobj(p.base)
        w.size = size
        if w.kind == 'malloc' and w.ext is False:
            w.site = fn.loc(ins)
        out.append((s1, p))
        # moved
        s2 = st
        old = s2.wobj(p.base)
        q = self.allocate(s2, fn, ins, 'malloc', size)
        n = s2.objs[q.base]
        n.cells = dict(old.cells)
        n.summ = old.summ
        n.fills = old.fills
        old.alive = False
        self.c.freed(self, s2, ins, old, p.base)
        out.append((s2, q))
        return out

    def intrinsic(self, st, fn, ins, name, args):
        rty = ins['ty']
        m = re.match(r'llvm\.u(mul|add)\.with\.overflow\.i(\d+)$', name)
        if m and is_num(args[0]) and is_num(args[1]):
            w = int(m.group(2))
            a, b = (uns(x, w) if isinstance(x, int) else x for x in args)
            v = self.binop(st, m.group(1), args[0], args[1], w)
            (al, ah), (bl, bh) = (bounds(x) for x in (a, b))
            ov = None
            if None not in (al, ah, bl, bh) and al >= 0 and bl >= 0:
                lo, hi = (al * bl, ah * bh) if m.group(1) == 'mul' else (al + bl, ah + bh)
                ov = 0 if hi < 1 << w else 1 if lo >= 1 << w else None
            if ov is not None:
                return [(st, Agg((v, ov)))]
        if name.startswith('llvm.memset'):
            self.fill(st, ins, args[0], args[2], args[1] if isinstance(args[1], int) else UNDEF)
            return [(st, None)]
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            d, s, n = args[0], args[1], args[2]
            if isinstance(n, int) and n == 0:
                return [(st, None)]
            if not isinstance(d, Ptr) or not isinstance(s, Ptr):
                return [(st, None)]
            so = self.getobj(st, s, ins, False, 1)
            self.c.access(self, st, ins, s, n, False)
            cells = []
            if isinstance(n, int):
                for k, (sz, x) in so.cells.items():
                    r = sub(k, s.off)
                    if isinstance(r, int) and 0 <= r and r + sz <= n:
                        cells.append((r, sz, x))
            self.getobj(st, d, ins, True, 1)
            self.c.access(self, st, ins, d, n, True)
            o = st.wobj(d.base)
            o.written = True
            self.kill(st, o, d.off, n)
            for r, sz, x in cells:
                o.cells[add(d.off, r)] = (sz, x)
            return [(st, None)]
        if name.startswith('llvm.ctlz') or name.startswith('llvm.cttz'):
            return [(st, self.clz(st, ins, args, name.startswith('llvm.cttz')))]
        if name.startswith('llvm.expect') or name.startswith('llvm.launder'):
            return [(st, args[0])]
        m = re.match(r'llvm\.(umax|umin|smax|smin)\.', name)
        if m:
            a, b = args[0], args[1]
            c = self.icmp(st, ('u' if m.group(1)[0] == 'u' else 's') + 'lt', a, b, rty)
            d = st.decide(c)
            if d is None:
                raise Fork(c)
            lt = bool(d)
            return [(st, (b if lt else a) if 'max' in m.group(1) else (a if lt else b))]
        if name.startswith('llvm.assume'):
            return [(st, None)]
        if name.startswith('llvm.trap'):
            return []
        m = re.match(r'llvm\.bswap\.i(\d+)', name)
        if m:
            w = int(m.group(1))
            b = self.bitsof(args[0], w)
            if b is not None:
                r = []
                for i in range(w // 8 - 1, -1, -1):
                    r += b[8 * i:8 * i + 8]
                return [(st, frombits(r))]
        m = re.match(r'llvm\.(fshl|fshr)\.i(\d+)', name)
        if m and isinstance(args[2], int):
            w = int(m.group(2))
            a, b = self.bitsof(args[0], w), self.bitsof(args[1], w)
            if a is not None and b is not None:
                k = args[2] % w
                cat = b + a
                r = cat[w - k:2 * w - k] if m.group(1) == 'fshl' else cat[k:k + w]
                return [(st, frombits(r))]
        m = re.match(r'llvm\.abs\.i(\d+)', name)
        if m:
            a = self.num(args[0])
            c = mk_le(scale(a, -1))
            d = st.decide(c)
            if d is None:
                raise Fork(c)
            return [(st, a if d else scale(a, -1))]
        return [(st, self.fresh_of(rty, name))]

    def clz(self, st, ins, args, tz=False):
        w = width(ins['ty'])
        v = args[0]
        if isinstance(v, int):
            u = uns(v, w)
            if tz:
                return (u & -u).bit_length() - 1 if u else w
            return w - u.bit_length()
        b = self.bitsof(v, w) if self.has_bits(v) else None
        if b is not None and not tz:
            n = 0
            for x in reversed(b):
                if x == 0:
                    n += 1
                elif x == 1:
                    return n
                else:
                    break
        if not tz and not isinstance(v, BV):
            lo, hi = bounds(self.num(v))
            if lo is not None and hi is not None and 0 <= lo:
                a, b = w - hi.bit_length(), w - lo.bit_length()
                return a if a == b else opq('ctlz', self.num(v), lo=a, hi=b)
        return opq('ctlz' if not tz else 'cttz', self.num(v), lo=0, hi=w)

    # ------------------------------------------------------------------ control flow
    def run(self, fn, st, entry=None):
        """returns list of (kind, state, value, location): kind 'ret' | 'throw'"""
        self.fn = fn
        out = self.region(fn, fn.entry, [st], None, None)
        return out['ret'] + out['throw']

    def region(self, fn, start, states, loop, first_pred):
        """run from block `start` inside loop scope `loop` (None: function) until control returns to
        the loop header, leaves the loop, or leaves the function.
        result: {'back': [(state, pred)], 'exit': [(target, state, pred)], 'ret': [...], 'throw': [...]}"""
        inside = fn.loops[loop]['blocks'] if loop is not None else None
        out = {'back': [], 'exit': [], 'ret': [], 'throw': []}
        pend = {}
        startrun = True

        def push(target, s, pred):
            if loop is not None and target == loop:
                self.phis(fn, s, target, pred)
                out['back'].append(s)
                return
            if inside is not None and target not in inside:
                out['exit'].append((target, s, pred))
                return
            self.phis(fn, s, target, pred)
            pend.setdefault(target, []).append(s)

        pend[start] = list(states)
        first = True
        while pend:
            b = min(pend, key=lambda x: fn.rpo.get(x, 1 << 30))
            sts = self.merge_equal(fn, b, pend.pop(b))
            if len(sts) > self.c.max_states:
                raise Budget('too many states at block %s of %s' % (b, fn.base))
            # an inner loop?
            if b in fn.loops and not (b == loop and first):
                for tgt, s, pred in self.do_loop(fn, b, sts, out):
                    push(tgt, s, pred)
                continue
            first = False
            work = list(sts)
            while work:
                s = work.pop()
                for kind, tgt, s2, v in self.block(fn, b, s):
                    if kind == 'go':
                        push(tgt, s2, b)
                    else:
                        out[kind].append((kind, s2, v, tgt))
        return out

    def merge_equal(self, fn, b, sts):
        if len(sts) < 2:
            return sts
        live = fn.live[b]
        res = []
        if self.c.keep_facts:
            groups = {}
            for s in sts:
                g = groups.setdefault(frozenset(s.facts.s), [])
                if not any(self.same(s, t, live) for t in g):
                    g.append(s)
                    res.append(s)
            return res
        for s in sts:
            for t in res:
                if self.same(s, t, live):
                    # keep the facts both have
                    if s.facts is not t.facts:
                        t.facts = Facts([c for c in t.facts.s if c in s.facts.s])
                    break
            else:
                res.append(s)
        return res

    def same(self, s, t, live):
        if s.x != t.x or s.lost != t.lost:
            return False
        if s.ev is not t.ev and (s.ev is None or t.ev is None or s.ev.n != t.ev.n or s.events() != t.events()):
            return False
        if len(s.objs) != len(t.objs):
            return False
        for v in live:
            if s.env.get(v) != t.env.get(v):
                return False
        for k, o in s.objs.items():
            p = t.objs.get(k)
            if p is o:
                continue
            if p is None or p.alive != o.alive or p.kind != o.kind or p.size != o.size or p.summ != o.summ or p.cells != o.cells or p.fills != o.fills:
                return False
        return True

    def phis(self, fn, st, b, pred):
        new = {}
        for i in fn.blocks[b]:
            if i['op'] != 'phi':
                break
            for o, p in i['ops']:
                if p == pred:
                    new[i['id']] = self.opval(st, o)
                    break
            else:
                new[i['id']] = UNDEF
        st.env.update(new)

    def block(self, fn, b, st):
        """run one block; yields (kind, target/loc, state, value)"""
        res = []
        ins_list = fn.blocks[b]
        work = [(st, 0)]
        while work:
            s, i = work.pop()
            try:
                while True:
                    ins = ins_list[i]
                    self.steps += 1
                    if self.steps > self.c.max_steps:
                        raise Budget('step budget exhausted in %s' % fn.base)
                    op = ins['op']
                    if op == 'phi':
                        i += 1
                        continue
                    if op == 'call' or op == 'invoke':
                        outs = self.do_call(fn, s, ins)
                        nxt = []
                        for s2, v in outs:
                            if v == 'THROW':
                                if op == 'invoke':
                                    res.append(('go', ins['unwind'], s2, None))
                                else:
                                    res.append(('throw', fn.loc(ins), s2, None))
                            else:
                                if ins['ty'] != 'void':
                                    s2.env[ins['id']] = v if v is not None else UNDEF
                                if op == 'invoke':
                                    res.append(('go', ins['normal'], s2, None))
                                else:
                                    nxt.append(s2)
                        if op == 'invoke' or not nxt:
                            break
                        for s2 in nxt[1:]:
                            work.append((s2, i + 1))
                        s = nxt[0]
                        i += 1
                        continue
                    if op == 'br':
                        if len(ins['succ']) == 1:
                            res.append(('go', ins['succ'][0], s, None))
                        else:
                            c = self.opval(s, ins['ops'][0])
                            if isinstance(c, Undef):
                                c = Cond('t', ('b', fresh('b').id))
                            d = s.decide(c)
                            if d is not None:
                                res.append(('go', ins['succ'][0 if d else 1], s, None))
                            else:
                                self.c.forked(self, s, ins, c)
                                f = s.copy()
                                if s.assume(c):
                                    res.append(('go', ins['succ'][0], s, None))
                                if f.assume(notc(c)):
                                    res.append(('go', ins['succ'][1], f, None))
                        break
                    if op == 'switch':
                        res += self.do_switch(fn, s, ins)
                        break
                    if op == 'ret':
                        v = self.opval(s, ins['ops'][0]) if ins['ops'] else None
                        res.append(('ret', fn.loc(ins), s, v))
                        break
                    if op == 'unreachable':
                        break
                    if op == 'resume':
                        res.append(('throw', fn.loc(ins), s, None))
                        break
                    self.step(s, fn, ins)
                    i += 1
            except Fork as f:
                try:
                    self.c.forked(self, s, ins, f.cond)
                except Dead:
                    continue
                t = s.copy()
                if s.assume(f.cond):
                    work.append((s, i))
                if t.assume(notc(f.cond)):
                    work.append((t, i))
            except Dead:
                pass
        return res

    def do_switch(self, fn, s, ins):
        v = self.opval(s, ins['ops'][0])
        w = ins['ops'][0][2] if ins['ops'][0][0] == 'c' else (width(self.valty(fn).get(ins['ops'][0][1], 'i64')) or 64)
        res = []
        cur = s
        for val, tgt in ins['cases']:
            try:
                c = self.icmp(cur, 'eq', v, sgn(int(val), w), 'i%d' % w)
            except Fork:
                c = Cond('t', ('b', fresh('b').id))
            d = cur.decide(c)
            if d == 1:
                res.append(('go', tgt, cur, None))
                return res
            if d == 0:
                continue
            self.c.forked(self, cur, ins, c)
            t = cur.copy()
            if t.assume(c):
                res.append(('go', tgt, t, None))
            if not cur.assume(notc(c)):
                return res
        res.append(('go', ins['def'], cur, None))
        return res

    def do_call(self, fn, st, ins):
        args = [self.opval(st, o) for o in ins['ops']]
        name = ins.get('callee')
        if not name and ins.get('ind'):
            p = self.opval(st, ins['ind'])
            if isinstance(p, Ptr) and isinstance(p.base, tuple) and p.base[0] == 'glob' and p.base[1] in self.mod.funcs and p.off == 0:
                name = p.base[1]
        callee = self.mod.funcs.get(name) if name else None
        r = self.c.call(self, st, ins, name, callee, args)
        if r is None:
            r = self.default_call(st, fn, ins, name, callee, args)
        return r

    # ------------------------------------------------------------------ loops
    def do_loop(self, fn, h, states, out):
        """returns list of (target, state, pred) leaving the loop"""
        # try to unroll
        exits = []
        cur = states
        unr = self.try_unroll(fn, h, [s.copy() for s in states], out)
        if unr is not None:
            return unr
        return self.fix_loop(fn, h, states, out)

    def counted(self, fn, h):
        return True

    def try_unroll(self, fn, h, states, out):
        exits = []
        rets, throws = [], []
        cur = states
        memo = getattr(fn, '_noUnroll', None)
        if memo is None:
            memo = fn._noUnroll = {}
        if memo.get(h):
            return None
        mixed = False
        snap = None
        nsum0 = self.nsum
        for it in range(self.c.unroll_limit):
            r = self.region(fn, h, cur, h, None)
            rets += r['ret']
            throws += r['throw']
            if r['back'] and r['exit']:
                mixed = True
            if r['back'] and mixed:
                # undetermined trip count (or a mixture): give up unrolling
                if it >= self.c.peel and (not self.c.separate or it >= self.c.separate_limit):
                    if not self.c.peel:
                        return None
                    self.c.count('paths cut')
                    r['back'] = []
            exits += r['exit']
            if r['back'] and it >= 8 and self.nsum != nsum0:
                memo[h] = True
                return None
            if not r['back']:
                out['ret'] += rets
                out['throw'] += throws
                self.c.loop(self, fn, h, 'unrolled %d' % it, None)
                return exits
            if self.c.separate:
                cur = r['back']
                for s in cur:
                    self.trim(fn, h, s)
                if len(cur) == 1 and it >= 300:
                    # the same state again: the loop never ends
                    s = cur[0]
                    if snap is not None and snap.env == s.env and snap.facts.s == s.facts.s and snap.objs.keys() == s.objs.keys() and all(
                            snap.objs[b] is o or snap.objs[b].cells == o.cells and snap.objs[b].alive == o.alive and snap.objs[b].fills == o.fills
                            for b, o in s.objs.items()):
                        self.c.endless(self, fn, h, s)
                        out['ret'] += rets
                        out['throw'] += throws
                        return exits
                    if snap is None or it & (it - 1) == 0:
                        snap = s.copy()
                continue
            cur = self.join_states(fn, h, r['back'])
            if len(cur) > 16:
                return None
        return None

    def join_states(self, fn, h, sts):
        """join the states that start the same iteration of an unrolled loop"""
        groups = {}
        for s in sts:
            self.trim(fn, h, s)
            groups.setdefault(self.shape(fn, h, s, True), []).append(s)
        res = []
        for k, g in groups.items():
            a = g[0]
            for b in g[1:]:
                a = self.join2(fn, h, a, b, None, {})
            res.append(a)
        return res

    def trim(self, fn, h, s):
        live = fn.live[h]
        phi = [i['id'] for i in fn.blocks[h] if i['op'] == 'phi']
        keep = live | set(phi)
        s.env = {k: v for k, v in s.env.items() if k in keep}
        self.gc(s)

    def gc(self, s):
        """drop released or unreachable objects; remember unreachable live heap blocks"""
        if self.c.lazy_gc and len(s.objs) < (self.c.lazy_gc if self.c.lazy_gc > 1 else 400):
            return
        seen = self.reach(s)
        if self.held:
            seen |= self.reach(s, [Ptr(b, 0) for b in self.held if b in s.objs])
        drop = [b for b in s.objs if b not in seen]
        lost = set()
        for b in drop:
            o = s.objs[b]
            if o.alive and not o.ext and o.kind in ('malloc', 'new', 'new[]'):
                lost.add((o.kind, o.site))
            if not (isinstance(b, tuple) and b[0] == 'glob') and o.kind != 'param':
                del s.objs[b]
        if lost:
            s.lost = s.lost | lost

    def reach(self, s, roots=None):
        st = []
        vals = list(s.env.values()) if roots is None else list(roots)
        for v in vals:
            if isinstance(v, Ptr):
                st.append(v.base)
            elif isinstance(v, Agg):
                for f in v.f:
                    if isinstance(f, Ptr):
                        st.append(f.base)
            elif isinstance(v, Lin):
                for a, _ in v.t:
                    if isinstance(a.key, tuple) and a.key[0] == 'addr':
                        st.append(a.key[1])
        if roots is None:
            for b, o in s.objs.items():
                if (o.ext or o.kind in ('alloca', 'param', 'global')) and (o.alive or not isinstance(b, Atom)):
                    st.append(b)
            st += [b for b in s.x.get('roots', ())]
        seen = set()
        while st:
            b = st.pop()
            if b is None or b in seen:
                continue
            seen.add(b)
            if isinstance(b, Atom) and isinstance(b.meta, tuple) and b.meta and b.meta[0] == 'choice':
                st += list(b.meta[1])
            o = s.objs.get(b)
            if o is None:
                continue
            st += list(o.summ)
            for sz, v in o.cells.values():
                if isinstance(v, Ptr):
                    st.append(v.base)
                elif isinstance(v, Lin):
                    for a, _ in v.t:
                        if isinstance(a.key, tuple) and a.key[0] == 'addr':
                            st.append(a.key[1])
        return seen

    # canonical shape of a state at a loop header --------------------------------------------
    def roots(self, fn, h, s):
        r = []
        for k in sorted(s.env):
            r.append((('e', k), s.env[k]))
        return r

    def shape(self, fn, h, s, consts, flags=()):
        """hashable shape: heap graph up to renaming of heap blocks, null-ness of pointers,
        values of flag-like constants"""
        num = {}
        sig = []
        queue = []

        def visit(v):
            if v is None:
                return 'z'
            if isinstance(v, int):
                return 'n'
            if v.base is None:
                return '0'
            b = v.base
            if isinstance(b, Atom) and b not in s.objs:
                if Cond('f', ('isnull', b)) in s.facts.s:
                    return 'S!'
                return 'S'
            o = s.objs.get(b)
            if o is None:
                return 'S'
            if o.ext or o.kind in ('alloca', 'param', 'global') or not o.kind in ('malloc', 'new', 'new[]'):
                return 'X' if isinstance(b, Atom) else ('x', b)
            if b not in num:
                num[b] = len(num)
                queue.append(b)
            return ('o', num[b], o.alive, o.kind)

        for k in sorted(s.env):
            v = s.env[k]
            if isinstance(v, Ptr):
                sig.append((k, visit(v)))
            elif isinstance(v, Agg):
                sig.append((k, 'agg'))
            elif (k in flags) and isinstance(v, int):
                sig.append((k, 'c', v))
        others = [b for b, o in s.objs.items() if (o.ext or o.kind in ('alloca', 'param')) and not isinstance(b, Atom)]
        atomsb = [b for b, o in s.objs.items() if isinstance(b, Atom)]
        for b in sorted(others, key=repr) + sorted(atomsb, key=lambda a: a.id):
            queue.append(b)
        qi = 0
        done = set()
        while qi < len(queue):
            b = queue[qi]
            qi += 1
            if b in done:
                continue
            done.add(b)
            o = s.objs[b]
            lim = o.size if isinstance(o.size, int) else 0 if o.kind in ('malloc', 'new[]') else 1 << 62
            for k in sorted((k for k in o.cells if isinstance(k, int))):
                if k >= lim or k > 1024:
                    continue  # elements of arrays do not partition the states
                sz, v = o.cells[k]
                if isinstance(v, Ptr):
                    t = visit(v)
                    if t not in ('S', 'X', 'S!'):
                        sig.append((('x', b) if b not in num else ('o', num[b]), k, t))
            if not o.alive:
                sig.append((num.get(b, repr(b)), 'dead'))
        live = sorted((o.kind, str(o.site)) for b, o in s.objs.items() if o.alive and b not in num and o.kind in ('malloc', 'new', 'new[]'))
        return (tuple(sig), tuple(live), self.c.shapex(s.x))

    def numbering(self, s):
        num = {}
        queue = []

        def visit(v):
            if isinstance(v, Ptr) and v.base is not None:
                o = s.objs.get(v.base)
                if o is not None and not o.ext and o.kind in ('malloc', 'new', 'new[]') and v.base not in num:
                    num[v.base] = len(num)
                    queue.append(v.base)
        for k in sorted(s.env):
            visit(s.env[k])
        others = [b for b, o in s.objs.items() if (o.ext or o.kind in ('alloca', 'param')) and not isinstance(b, Atom)]
        atomsb = [b for b, o in s.objs.items() if isinstance(b, Atom)]
        queue += sorted(others, key=repr) + sorted(atomsb, key=lambda a: a.id)
        qi = 0
        done = set()
        while qi < len(queue):
            b = queue[qi]
            qi += 1
            if b in done:
                continue
            done.add(b)
            o = s.objs[b]
            for k in sorted((k for k in o.cells if isinstance(k, int))):
                visit(o.cells[k][1])
        return num

    def match(self, a, b):
        """heap blocks of b that play the role of blocks of a: reached along the same paths"""
        m, back, queue = {}, {}, []

        def heap(s, v):
            if isinstance(v, Ptr) and v.base is not None:
                o = s.objs.get(v.base)
                if o is not None and not o.ext and o.kind in ('malloc', 'new', 'new[]'):
                    return o
            return None

        def visit(x, y, strict=True):
            o, p = heap(a, x), heap(b, y)
            if o is None or p is None or o.kind != p.kind or o.alive != p.alive or x.base in back or y.base in m:
                return
            if strict and (o.site != p.site):
                later.append((x, y))
                return
            m[y.base] = x.base
            back[x.base] = y.base
            queue.append((x.base, y.base))

        def drain():
            while queue:
                p, q = queue.pop()
                o, t = a.objs[p], b.objs[q]
                for k in sorted(k for k in o.cells if isinstance(k, int)):
                    if k in t.cells:
                        visit(o.cells[k][1], t.cells[k][1])
        later = []
        # blocks both sides know under one name keep it
        for k, o in a.objs.items():
            if isinstance(k, int) and k in b.objs:
                visit(Ptr(k, 0), Ptr(k, 0))
        others = sorted((k for k, o in a.objs.items() if (o.ext or o.kind in ('alloca', 'param')) and k in b.objs), key=repr)
        for k in others:
            o, t = a.objs[k], b.objs[k]
            for z in sorted(z for z in o.cells if isinstance(z, int)):
                if z in t.cells:
                    visit(o.cells[z][1], t.cells[z][1])
        for k in sorted(a.env):
            if k in b.env:
                visit(a.env[k], b.env[k])
        drain()
        while later:
            # the same role, allocated at another site
            visit(*later.pop(0), strict=False)
            drain()
        return m

    def rename(self, s, m):
        """rename heap objects"""
        m = {a: b for a, b in m.items() if a != b}
        if not m:
            return
        am = {}
        for a, b in m.items():
            x = _atoms_get(('addr', a))
            if x is not None:
                am[x] = lin(atom(('addr', b), name='addr(%s)' % b, lo=1))

        def rv(v):
            if isinstance(v, Ptr):
                b = m.get(v.base, v.base)
                off = subst(v.off, am) if am else v.off
                return Ptr(b, off) if b is not v.base or off is not v.off else v
            if isinstance(v, Lin) and am:
                return subst(v, am)
            return v
        s.env = {k: rv(v) for k, v in s.env.items()}
        objs = {}
        for b, o in s.objs.items():
            n = m.get(b, b)
            ch = False
            cells = {}
            for k, (sz, v) in o.cells.items():
                v2 = rv(v)
                k2 = subst(k, am) if am else k
                ch |= v2 is not v or k2 is not k
                cells[k2] = (sz, v2)
            summ = frozenset(m.get(x, x) for x in o.summ)
            if ch or summ != o.summ:
                o = o.copy()
                o.cells = cells
                o.summ = summ
            objs[n] = o
        s.objs = objs
        s.owned = set()
        for k, v in list(s.x.items()):
            if k == 'roots':
                s.x[k] = tuple(m.get(x, x) for x in v)
            elif isinstance(v, int) and not isinstance(v, bool) and k.startswith('obj:'):
                s.x[k] = m.get(v, v)
        if am:
            s.facts = Facts([Cond(c.k, subst(c.x, am)) if c.k in ('le', 'eq', 'ne') else c for c in s.facts.s])

    def join2(self, fn, h, a, b, mergeid, st):
        """join of two states of the same shape; values that differ become merge symbols.
        mergeid: None -> fresh symbols (unrolled loops), otherwise stable symbols per location.
        st['changed'] is set when the result is weaker than a."""
        na = self.numbering(a)
        m = self.match(a, b)
        # rename b's objects to a's names (two steps to avoid clashes)
        tmp = {}
        for k, v in m.items():
            if k != v and v in b.objs and v not in m:
                tmp[v] = next(_V)
        self.rename(b, dict(m, **tmp))
        r = a.copy()
        subA, subB = {}, {}   # merge atom -> value in a / b
        changed = False

        def jv(loc, x, y, ty=None):
            nonlocal changed
            if x == y:
                if isinstance(x, Lin) and len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1 and x.t[0][0].meta == ('merge', mergeid):
                    subA[x.t[0][0]] = x
                    subB[x.t[0][0]] = y
                return x
            if isinstance(x, BV) and isinstance(y, (BV, int, Lin)) or isinstance(y, BV) and isinstance(x, (int, Lin)):
                x, y = self.num(x), self.num(y)
                if x == y:
                    return x
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                if x.base == y.base:
                    return Ptr(x.base, jv(loc + ('off',), x.off, y.off))
                if isinstance(x.base, Atom) and x.base.meta == ('merge', mergeid) and mergeid is not None:
                    return x
                k = ('mrgp', mergeid, loc) if mergeid is not None else None
                pa = atom(k, name='p~') if k else fresh('p~')
                cand = set()
                for z in (x, y):
                    if isinstance(z.base, int):
                        cand.add(z.base)
                    elif isinstance(z.base, Atom) and isinstance(z.base.meta, tuple) and z.base.meta[0] == 'choice':
                        cand |= z.base.meta[1]
                    else:
                        cand = None
                        break
                if cand and isinstance(x.base, Atom) and x.base.meta[1] == cand:
                    return x
                changed = True
                if cand:
                    pa = fresh('choice')
                    pa.meta = ('choice', frozenset(cand))
                else:
                    pa.meta = ('merge', mergeid)
                return Ptr(pa, 0)
            if isinstance(x, (int, Lin)) and isinstance(y, (int, Lin)):
                if isinstance(x, Lin) and len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1 and x.t[0][0].meta == ('merge', mergeid) and mergeid is not None \
                        and x.t[0][0].key == ('mrg', mergeid, loc):
                    subA[x.t[0][0]] = x
                    subB[x.t[0][0]] = y
                    return x
                changed = True
                k = ('mrg', mergeid, loc) if mergeid is not None else None
                ma = atom(k, name='%s~%d' % (fn.names.get(loc[1], loc[-1]) if loc[0] == 'e' else 'm%s' % (loc[2:],), h)) if k else fresh('j')
                if not k:
                    lx, hx = bounds(x)
                    ly, hy = bounds(y)
                    if None not in (lx, hx, ly, hy):
                        ma.lo, ma.hi = min(lx, ly), max(hx, hy)
                    ma.w = max(vwidth(x), vwidth(y))
                ma.meta = ('merge', mergeid)
                if not k and ma.lo is None and ma.w < 64:
                    ma.meta = 'raw'
                subA[ma] = x
                subB[ma] = y
                return lin(ma)
            if isinstance(x, Cond) and isinstance(x.x, tuple) and x.x[0] == 'mrgc':
                return x
            if isinstance(x, Undef):
                return x
            changed = True
            if isinstance(y, Undef):
                return y
            if isinstance(x, (Cond, int)) and isinstance(y, (Cond, int)):
                return Cond('t', ('mrgc', mergeid if mergeid is not None else fresh('c').id, loc))
            if isinstance(x, Agg) and isinstance(y, Agg) and len(x.f) == len(y.f):
                return Agg(tuple(jv(loc + (i,), p, q) for i, (p, q) in enumerate(zip(x.f, y.f))))
            return UNDEF

        env = {}
        for k in a.env:
            if k in b.env:
                env[k] = jv(('e', k), a.env[k], b.env[k])
            else:
                changed = True
        r.env = env
        objs = {}
        for k, o in a.objs.items():
            p = b.objs.get(k)
            if p is o:
                objs[k] = o
                continue
            if p is None:
                # only one side knows the object
                if o.ext or o.kind in ('global',):
                    changed = changed or bool(o.cells)
                    n = o.copy()
                    n.cells = {}
                    n.fills = ()
                    objs[k] = n if o.cells else o
                else:
                    objs[k] = o
                continue
            n = o.copy()
            n.cells = {}
            for off, (sz, v) in o.cells.items():
                q = p.cells.get(off)
                if q is None or q[0] != sz:
                    changed = True
                    if isinstance(v, Ptr) and v.base is not None:
                        n.summ = n.summ | sbase(a, v.base)
                    continue
                v2 = jv(('c', k if not isinstance(k, int) else na.get(k, k), off), v, q[1])
                n.cells[off] = (sz, v2)
            for off, (sz, v) in p.cells.items():
                if off not in o.cells and isinstance(v, Ptr) and v.base is not None:
                    n.summ = n.summ | sbase(b, v.base)
            summ = n.summ | p.summ
            if summ != o.summ:
                changed = True
            n.summ = summ
            if o.size != p.size and not (o.size is None):
                n.size = jv(('s', na.get(k, repr(k))), o.size, p.size) if is_num(o.size) and is_num(p.size) else None
            if o.fills != p.fills:
                n.fills = tuple(f for f in o.fills if f in p.fills)
                changed = changed or n.fills != o.fills
            n.alive = o.alive and p.alive if o.alive != p.alive else o.alive
            n.written = o.written or p.written
            objs[k] = n
        for k, p in b.objs.items():
            if k not in a.objs:
                if p.ext or p.kind == 'global':
                    n = p.copy()
                    n.cells = {}
                    n.fills = ()
                    objs[k] = n
                else:
                    objs[k] = p
        r.objs = objs
        r.owned = set()
        lost = a.lost | b.lost
        if lost != a.lost:
            changed = True
        r.lost = lost
        if a.ev is not b.ev:
            ea, eb = a.events(), b.events()
            if ea != eb:
                n = 0
                while n < len(ea) and n < len(eb) and ea[n] == eb[n]:
                    n += 1
                rest = frozenset(flat(ea[n:])) | frozenset(flat(eb[n:]))
                new = ea[:n] + [('some', rest)]
                if new != ea:
                    changed = True
                    ev = None
                    for e in new:
                        ev = Ev(ev, e)
                    r.ev = ev
        # facts
        known = set(subA)
        facts = []
        oldf = [c for c in a.facts.s]
        for c in oldf:
            if c in b.facts.s and not (c.k in ('le', 'eq', 'ne') and has_merge(c.x, subB)):
                facts.append(c)
                continue
            if c.k in ('le', 'eq', 'ne'):
                cb = Cond(c.k, subst(c.x, subB)) if isinstance(subst(c.x, subB), Lin) else None
                x = subst(c.x, subB)
                val = b.facts.decide({'le': mk_le, 'eq': mk_eq, 'ne': lambda z: notc(mk_eq(z))}[c.k](x))
                if val == 1:
                    facts.append(c)
        fs = dict.fromkeys(facts)
        # bounds between merge symbols and other terms (new merge symbols only)
        new = [x for x in subA if subA[x] != lin(x)]
        if new and not (mergeid is not None and st.get('rounds', 0) > 3):
            terms = [0] + [lin(x) for x in subA] + [lin(t) for t in self.stable_terms(subA, subB)]
            for x in new:
                lx = lin(x)
                for t in terms:
                    if t == lx:
                        continue
                    da = sub(subA[x], subst(t, subA) if not isinstance(t, int) else t)
                    db = sub(subB[x], subst(t, subB) if not isinstance(t, int) else t)
                    if isinstance(da, int) and isinstance(db, int):
                        lo, hi = min(da, db), max(da, db)
                        d = sub(lx, t)
                        for c in (mk_le(sub(lo, d)), mk_le(sub(d, hi))):
                            if isinstance(c, Cond):
                                fs[c] = None
                    else:
                        # x >= t-value of a ?
                        for dd, cst in ((da, a), (db, b)):
                            pass
                        if isinstance(da, int):
                            d = sub(lx, t)
                            if b.facts.le0(sub(da, db)):
                                c = mk_le(sub(da, d))
                                if isinstance(c, Cond):
                                    fs[c] = None
                            if b.facts.le0(sub(db, da)):
                                c = mk_le(sub(d, da))
                                if isinstance(c, Cond):
                                    fs[c] = None
        for c in self.extra_candidates(fn, h, subA, subB, a, b):
            fs[c] = None
        if mergeid is None and new:
            # facts of a about the old values carry over when b has them as well
            back = {}
            for x in new:
                v = subA[x]
                if isinstance(v, Lin) and len(v.t) == 1 and v.t[0][1] == 1:
                    back[v.t[0][0]] = sub(lin(x), v.c)
            if back:
                for c in oldf:
                    if c.k in ('le', 'eq', 'ne') and any(y in back for y, _ in c.x.t):
                        y = subst(c.x, back)
                        if isinstance(y, Lin):
                            z = subst(y, subB)
                            if b.facts.decide({'le': mk_le, 'eq': mk_eq, 'ne': lambda q: notc(mk_eq(q))}[c.k](z)) == 1:
                                fs[Cond(c.k, y)] = None
        if a.x != b.x:
            r.x, ch = self.c.joinx(a.x, b.x)
            changed = changed or ch
        r.facts = Facts(fs)
        if any(c not in fs for c in a.facts.s):
            changed = True
        st['changed'] = changed
        return r

    def stable_terms(self, subA, subB):
        s = set()
        for m in (subA, subB):
            for v in m.values():
                if isinstance(v, Lin):
                    for x, _ in v.t:
                        if x not in subA:
                            s.add(x)
        return sorted(s, key=lambda x: x.id)[:12]

    def extra_candidates(self, fn, h, subA, subB, a, b):
        return ()

    def flag_phis(self, fn, h):
        """integer phis that might be flags"""
        ty = self.valty(fn)
        return [i['id'] for i in fn.blocks[h] if i['op'] == 'phi' and (width(i['ty']) or 0) in (1, 8, 32, 64)]

    def fix_loop(self, fn, h, states, out):
        c = self.c
        self.nsum += 1
        flags = set(self.flag_phis(fn, h))
        seen = {f: set() for f in flags}
        mid0 = next(_V)

        def note(s):
            for f in list(flags):
                v = s.env.get(f)
                if isinstance(v, int):
                    seen[f].add(v)
                    if len(seen[f]) > 3:
                        flags.discard(f)
                else:
                    flags.discard(f)
        init = []
        for s in states:
            s = s.copy()
            self.trim(fn, h, s)
            init.append(s)
        for attempt in range(12):
            flags_at = None
            for s in init:
                note(s)
            parts = {}
            todo = []
            restart = False
            mid = (mid0, attempt)

            def addp(s):
                nonlocal restart
                n = len(flags)
                note(s)
                if len(flags) != n:
                    restart = True
                    return
                k = self.shape(fn, h, s, True, flags)
                if k in parts:
                    p = parts[k]
                    stt = {'rounds': p[1]}
                    j = self.join2(fn, h, p[0], s, (mid, hash(k)), stt)
                    if stt['changed']:
                        p[0] = j
                        p[1] += 1
                        if k not in todo:
                            todo.append(k)
                else:
                    parts[k] = [s, 0]
                    todo.append(k)
                    if len(parts) > 64:
                        raise Budget('too many partitions at loop %d of %s' % (h, fn.base))
            for s in init:
                addp(s.copy())
                if restart:
                    break
            rounds = 0
            results = {}
            while todo and not restart:
                k = todo.pop(0)
                rounds += 1
                if rounds > 200:
                    raise Budget('no fixpoint for loop %d of %s' % (h, fn.base))
                s0 = parts[k][0].copy()
                ev0 = s0.ev
                r = self.region(fn, h, [s0], h, None)
                results[k] = r
                for s in r['back']:
                    self.trim(fn, h, s)
                    addp(s)
                    if restart:
                        break
            if restart:
                continue
            exits = []
            for k in parts:
                r = results[k]
                exits += r['exit']
                out['ret'] += r['ret']
                out['throw'] += r['throw']
            c.loop(self, fn, h, 'summarised (%d partitions, %d rounds)' % (len(parts), rounds), None)
            return exits
        raise Budget('loop %d of %s does not stabilise' % (h, fn.base))


SOME = Atom(('some pointer',), 'some pointer', 64, None, None, False, None)


def sbase(st, b):
    """what a pointer summary remembers of a base"""
    if isinstance(b, Atom):
        if isinstance(b.meta, tuple) and b.meta and b.meta[0] == 'choice':
            return b.meta[1]
        if b not in st.objs or st.objs[b].ext:
            return frozenset((SOME,))
    return frozenset((b,))


def linear(v):
    """compared as a number although bits are known"""
    return isinstance(v, int) or isinstance(v, Lin) and all(not x.bits or x.meta == 'lin' for x, _ in v.t)


def has_merge(x, sub_):
    return isinstance(x, Lin) and any(a in sub_ for a, _ in x.t)


def flat(evs):
    for e in evs:
        if e[0] == 'some':
            yield from e[1]
        else:
            yield e


def _atoms_get(k):
    import terms
    return terms._atoms.get(k)


from state import _vers as _V


def split_types(ty):
    """'{ ptr, i32 }' -> ['ptr', 'i32']"""
    s = ty.strip()[1:-1].strip()
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '{[<(':
            d += 1
        elif ch in '}]>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out
