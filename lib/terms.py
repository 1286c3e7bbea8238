"""Abstract values: linear integer expressions over symbols, bit vectors with provenance,
pointers (base, linear offset), undef, and comparison literals."""
import itertools

_ctr = itertools.count(1)


class Atom:
    __slots__ = ('id', 'key', 'name', 'w', 'lo', 'hi', 'bits', 'meta')

    def __init__(self, key, name, w, lo, hi, bits, meta):
        self.id = next(_ctr)
        self.key, self.name, self.w, self.lo, self.hi, self.bits, self.meta = key, name, w, lo, hi, bits, meta

    def __repr__(self):
        return self.name or 'a%d' % self.id


_atoms = {}


def atom(key, name=None, w=64, lo=None, hi=None, bits=False, meta=None):
    a = _atoms.get(key)
    if a is None:
        a = _atoms[key] = Atom(key, name, w, lo, hi, bits, meta)
    return a


def fresh(name='t', w=64, lo=None, hi=None, bits=False, meta=None):
    a = Atom(None, None, w, lo, hi, bits, meta)
    a.name = '%s#%d' % (name, a.id)
    a.key = ('fresh', a.id)
    return a


def reset():
    _atoms.clear()
    _simpl.clear()
    _bdd.clear()
    _ap.clear()


class Lin:
    __slots__ = ('c', 't', 'h')

    def __init__(self, c, t):
        self.c, self.t = c, t
        self.h = hash((c, t))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        s = ''
        for a, k in self.t:
            if k == 1:
                s += '+%r' % a
            elif k == -1:
                s += '-%r' % a
            else:
                s += '%+d*%r' % (k, a)
        if self.c:
            s += '%+d' % self.c
        return s.lstrip('+') or '0'


def lin(a):
    return Lin(0, ((a, 1),))


def add(x, y):
    if isinstance(x, int):
        if isinstance(y, int):
            return x + y
        if x == 0:
            return y
        return Lin(x + y.c, y.t)
    if isinstance(y, int):
        return x if y == 0 else Lin(x.c + y, x.t)
    d = dict(x.t)
    for a, k in y.t:
        n = d.get(a, 0) + k
        if n:
            d[a] = n
        else:
            d.pop(a, None)
    if not d:
        return x.c + y.c
    return Lin(x.c + y.c, tuple(sorted(d.items(), key=_k)))


def _k(p):
    return p[0].id


def scale(x, k):
    if isinstance(x, int):
        return x * k
    if k == 0:
        return 0
    if k == 1:
        return x
    return Lin(x.c * k, tuple((a, c * k) for a, c in x.t))


def sub(x, y):
    return add(x, scale(y, -1))


def is_num(x):
    return isinstance(x, (int, Lin))


def bounds(x):
    """interval of a linear expression from the intervals of its symbols (None: unbounded)"""
    if isinstance(x, int):
        return x, x
    lo = hi = x.c
    for a, k in x.t:
        l, h = (a.lo, a.hi) if k > 0 else (a.hi, a.lo)
        lo = None if lo is None or l is None else lo + k * l
        hi = None if hi is None or h is None else hi + k * h
    return lo, hi


def subst(x, m):
    """replace atoms by linear expressions"""
    if isinstance(x, int):
        return x
    r = x.c
    hit = False
    for a, k in x.t:
        if a in m:
            hit = True
            r = add(r, scale(m[a], k))
        else:
            r = add(r, Lin(0, ((a, k),)))
    return r if hit else x


class BV:
    __slots__ = ('b', 'h')

    def __init__(self, b):
        self.b = b
        self.h = hash(b)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, BV) and self.b == o.b

    def __repr__(self):
        def f(x):
            return '?' if x is None else '%r.%d' % (x[0], x[1]) if isinstance(x, tuple) else str(x)
        # runs
        out, i, b = [], 0, self.b
        while i < len(b):
            j = i
            while j + 1 < len(b) and isinstance(b[j], tuple) and isinstance(b[j + 1], tuple) and b[j + 1][0] is b[j][0] and b[j + 1][1] == b[j][1] + 1:
                j += 1
            if j > i:
                out.append('%r[%d..%d]' % (b[i][0], b[i][1], b[j][1]))
            else:
                while j + 1 < len(b) and b[j + 1] == b[i] and not isinstance(b[i], tuple):
                    j += 1
                out.append(f(b[i]) + ('x%d' % (j - i + 1) if j > i else ''))
            i = j + 1
        return 'bits(lsb first: %s)' % ' '.join(out)


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Ptr:
    __slots__ = ('base', 'off')

    def __init__(self, base, off):
        self.base, self.off = base, off

    def __eq__(self, o):
        return isinstance(o, Ptr) and (self.base is o.base or self.base == o.base) and self.off == o.off

    def __hash__(self):
        return hash((self.base, self.off))

    def __repr__(self):
        return '&%s[%r]' % ('null' if self.base is None else self.base, self.off)


NULL = Ptr(None, 0)


class Cond:
    """('le', lin): lin<=0 ; ('eq', lin) ; ('ne', lin) ; ('t', key) / ('f', key): opaque boolean"""
    __slots__ = ('k', 'x', 'h')

    def __init__(self, k, x):
        self.k, self.x = k, x
        self.h = hash((k, x))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Cond) and self.k == o.k and self.x == o.x

    def neg(self):
        if self.k == 'le':
            return Cond('le', sub(1, self.x))
        if self.k == 'eq':
            return Cond('ne', self.x)
        if self.k == 'ne':
            return Cond('eq', self.x)
        return Cond('f' if self.k == 't' else 't', self.x)

    def __repr__(self):
        return {'le': '%r<=0', 'eq': '%r==0', 'ne': '%r!=0', 't': '%r', 'f': '!%r'}[self.k] % (self.x,)


class Agg:
    """first-class aggregate"""
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __eq__(self, o):
        return isinstance(o, Agg) and self.f == o.f

    def __hash__(self):
        return hash(self.f)


def sgn(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if w > 1 and v >> (w - 1) else v


def uns(v, w):
    return v & ((1 << w) - 1)


def canon_eq(x):
    """normal form of x==0: leading coefficient positive"""
    if isinstance(x, Lin) and x.t[0][1] < 0:
        x = scale(x, -1)
    return x


def mk_le(x):  # x <= 0
    if isinstance(x, int):
        return 1 if x <= 0 else 0
    lo, hi = bounds(x)
    if hi is not None and hi <= 0:
        return 1
    if lo is not None and lo > 0:
        return 0
    g = 0
    import math
    for _, k in x.t:
        g = math.gcd(g, k)
    if g > 1:  # sum k_i a_i <= -c  ->  divide, floor
        x = Lin(-((-x.c) // g), tuple((a, k // g) for a, k in x.t))
    return Cond('le', x)


def mk_eq(x):
    if isinstance(x, int):
        return 1 if x == 0 else 0
    lo, hi = bounds(x)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return 0
    import math
    g = 0
    for _, k in x.t:
        g = math.gcd(g, k)
    if g > 1:
        if x.c % g:
            return 0
        x = Lin(x.c // g, tuple((a, k // g) for a, k in x.t))
    return Cond('eq', canon_eq(x))


def notc(c):
    if isinstance(c, int):
        return 1 - (c & 1)
    return c.neg()


# ---------------------------------------------------------------- bit vectors
def tobits(v, w):
    """list of w bits, or None when v has no bit-level form"""
    if isinstance(v, int):
        return [(v >> i) & 1 for i in range(w)]
    if isinstance(v, BV):
        return list(v.b[:w]) + [0] * max(0, w - len(v.b))
    if isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1 and isinstance(v.t[0][0].key, tuple) and v.t[0][0].key[0] == 'bv':
        return tobits(v.t[0][0].key[1], w)
    if isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1 and v.t[0][0].bits:
        a = v.t[0][0]
        return [(a, i) for i in range(min(a.w, w))] + [0] * max(0, w - a.w)
    return None


def frombits(b):
    w = len(b)
    if all(isinstance(x, int) for x in b):
        return sgn(sum(x << i for i, x in enumerate(b)), w)
    x = b[0]
    if isinstance(x, tuple) and x[1] == 0 and x[0].bits and x[0].w <= w:
        a = x[0]
        if all(b[i] == (a, i) for i in range(a.w)) and all(b[i] == 0 for i in range(a.w, w)):
            return lin(a)
    return BV(tuple(b))


_simpl = {}


def opq(op, *args, w=64, lo=None, hi=None):
    """hash-consed opaque expression"""
    k = ('op', op, w) + args
    return lin(atom(k, name='%s(%s)' % (op, ','.join(map(repr, args))), w=w, lo=lo, hi=hi))


# ---------------------------------------------------------------- boolean functions of bits (BDD)
class BDD:
    """reduced ordered decision diagram; a bit of a vector is 0, 1, (atom, i), a BDD or None (unknown)"""
    __slots__ = ('v', 'lo', 'hi', 'n', 'id')

    def __repr__(self):
        vs = sorted(bdd_vars(self), key=lambda x: (x[0].id, x[1]))
        return 'f(%s)' % ','.join('%r.%d' % v for v in vs[:6])


_bdd = {}
_bid = itertools.count(2)
BDD_LIMIT = 4000


class TooBig(Exception):
    pass


def _mk(v, lo, hi):
    if lo is hi or (isinstance(lo, int) and isinstance(hi, int) and lo == hi):
        return lo
    k = (v, lo if isinstance(lo, int) else lo.id, hi if isinstance(hi, int) else hi.id)
    r = _bdd.get(k)
    if r is None:
        r = BDD()
        r.v, r.lo, r.hi = v, lo, hi
        r.id = next(_bid)
        r.n = 1 + (0 if isinstance(lo, int) else lo.n) + (0 if isinstance(hi, int) else hi.n)
        if r.n > BDD_LIMIT:
            raise TooBig()
        _bdd[k] = r
    return r


def _tob(x):
    if isinstance(x, tuple):
        return _mk((x[0].id, x[1], x[0]), 0, 1)
    return x


def _fromb(x):
    if isinstance(x, BDD) and x.lo == 0 and x.hi == 1 and isinstance(x.lo, int) and isinstance(x.hi, int):
        return (x.v[2], x.v[1])
    return x


_ap = {}


def _apply(op, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return (a & b) if op == 'and' else (a | b) if op == 'or' else a ^ b
    if op == 'and':
        if a is b:
            return a
        if isinstance(a, int):
            return b if a else 0
        if isinstance(b, int):
            return a if b else 0
    elif op == 'or':
        if a is b:
            return a
        if isinstance(a, int):
            return 1 if a else b
        if isinstance(b, int):
            return 1 if b else a
    else:
        if a is b:
            return 0
        if a == 0 and isinstance(a, int):
            return b
        if b == 0 and isinstance(b, int):
            return a
    ka = a if isinstance(a, int) else a.id
    kb = b if isinstance(b, int) else b.id
    k = (op, ka, kb) if isinstance(a, int) or isinstance(b, int) or ka <= kb else (op, kb, ka)
    r = _ap.get(k)
    if r is None:
        va = a.v[:2] if isinstance(a, BDD) else (1 << 60, 0)
        vb = b.v[:2] if isinstance(b, BDD) else (1 << 60, 0)
        v = a.v if va <= vb else b.v
        al, ah = (a.lo, a.hi) if va <= vb else (a, a)
        bl, bh = (b.lo, b.hi) if vb <= va else (b, b)
        r = _mk(v, _apply(op, al, bl), _apply(op, ah, bh))
        _ap[k] = r
    return r


def bitop(op, x, y):
    if op == 'and':
        if x == 0 and isinstance(x, int) or y == 0 and isinstance(y, int):
            return 0
        if isinstance(x, int):
            return y
        if isinstance(y, int):
            return x
    elif op == 'or':
        if isinstance(x, int) and x == 1 or isinstance(y, int) and y == 1:
            return 1
        if isinstance(x, int):
            return y
        if isinstance(y, int):
            return x
    else:
        if isinstance(x, int) and isinstance(y, int):
            return x ^ y
        if isinstance(x, int) and x == 0:
            return y
        if isinstance(y, int) and y == 0:
            return x
    if x is None or y is None:
        return None
    if x == y:
        return 0 if op == 'xor' else x
    try:
        return _fromb(_apply(op, _tob(x), _tob(y)))
    except TooBig:
        return None


def bnot(x):
    return bitop('xor', x, 1)


def bite(c, x, y):
    return bitop('or', bitop('and', c, x), bitop('and', bnot(c), y))


def badd(a, b, cin=0):
    r = []
    c = cin
    for x, y in zip(a, b):
        t = bitop('xor', x, y)
        r.append(bitop('xor', t, c))
        c = bitop('or', bitop('and', x, y), bitop('and', t, c))
    return r


def bdd_vars(x, acc=None):
    acc = set() if acc is None else acc
    seen = set()
    st = [x]
    while st:
        n = st.pop()
        if isinstance(n, BDD) and n.id not in seen:
            seen.add(n.id)
            acc.add((n.v[2], n.v[1]))
            st += [n.lo, n.hi]
    return acc
