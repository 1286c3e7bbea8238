"""The two scans of the input (collecting and renaming the substrings) for each small length, every byte symbolic:
every path is followed on its own, and what it enters into the table, looks up, counts and stores is recorded."""
import sys
from front import load, AnalysisError, field, layout
from terms import *
from state import *
from interp import Interp, Client, Dead, Fork, Budget
import transform as tr

KEEP = tr.KEEP + ['flbwt::sort_LMS_strings']
B = 'flbwt::HashTable::'


def module():
    m = load(KEEP)
    for x in ('flbwt::bwt_string', 'flbwt::sort_LMS_strings', B + 'insert_string', B + 'find_name', 'flbwt::PackedArray::set_value'):
        m.one(x)
    return m


class Bad(Exception):
    pass


def byte(n, i):
    """the value of T[i]"""
    return 0 if i == n else lin(atom(('T', i), name='T[%d]' % i, w=8, lo=0, hi=255))


def witness(st, n, extra=()):
    """bytes T[0..n-1] that satisfy the conditions of the path (and the extra ones), or None"""
    cs = []
    for c in list(st.facts.s) + list(extra):
        if isinstance(c, int):
            continue
        if c.k in ('le', 'eq', 'ne') and isinstance(c.x, Lin):
            cs.append(c)
        elif not (isinstance(c.x, tuple) and c.x[0] == 'isnull'):
            return None
    if any(isinstance(c, int) and not c for c in extra):
        return None
    atoms = [byte(n, i).t[0][0] for i in range(n)]
    rest = sorted({a for c in cs for a, k in c.x.t} - set(atoms), key=lambda a: a.id)
    dom = [1, 2, 3, 0, 255, 128, 4, 5, 254, 6]
    order = atoms + [a for a in rest if a.lo == 0 and a.hi == 1]
    known = set(order)
    if any(a not in known for c in cs for a, k in c.x.t):
        return None             # depends on something unknown
    pos = {a: i for i, a in enumerate(order)}
    at = {}
    for c in cs:
        at.setdefault(max(pos[a] for a, k in c.x.t), []).append(c)
    val = {}

    def go(i):
        if i == len(order):
            return True
        a = order[i]
        for v in (dom if a in atoms else (0, 1)):
            val[a] = v
            ok = True
            for c in at.get(i, ()):
                x = c.x.c + sum(k * val[b] for b, k in c.x.t)
                if not (x <= 0 if c.k == 'le' else x == 0 if c.k == 'eq' else x != 0):
                    ok = False
                    break
            if ok and go(i + 1):
                return True
        del val[a]
        return False
    if not go(0):
        return None
    return [val[a] for a in atoms]


def uncleared(o):
    """entries of the tables that are not set to zero while others are"""
    r, seen = [], False
    for t in ('M', 'NL', 'C'):
        f = field('flbwt::Container', t)
        offs = range(f, f + 8 * 257, 8)
        miss = [k for k in offs if o.cells.get(k) != (8, 0) and not any(
            isinstance(lo, int) and lo <= k and (hi is None or isinstance(hi, int) and k + 8 <= hi) for lo, hi, v in o.fills)]
        # the entry of the end marker may have been counted already
        miss = [k for k in miss if not (k in o.cells and o.cells[k][0] == 8 and isinstance(o.cells[k][1], int))]
        seen |= len(miss) < 50
        if miss:
            r.append((t, (miss[0] - f) // 8))
    return tuple(r) if seen else ()


class ScanClient(Client):
    keep_facts = True
    separate = True
    subscripts = True

    def __init__(self, n):
        Client.__init__(self)
        self.n = n
        self.bad = []       # (rule, loc, message, state)
        self.done = []      # states at the call of a sorter
        self.reads = 0
        self.subs = 0
        self.unknown = 0
        self.last = {}

    def initial(self, ip, st, ins, p, o, size, ty):
        if p.base == 'T' and size == 1 and isinstance(p.off, int) and 0 <= p.off < self.n:
            return byte(self.n, p.off)
        return None

    def access(self, ip, st, ins, p, size, write, val=None):
        if p.base == 'T':
            if ip.steps > LIMIT:
                raise Budget('too many paths')
            self.reads += 1
            if isinstance(p.off, int) and isinstance(size, int):
                if p.off < 0 or p.off + size > self.n + 1:
                    self.bad.append(('outside the input', ip.fn.loc(ins), 'byte %d is %s, the input has the bytes 0 to %d' % (
                        p.off if p.off < 0 else p.off + size - 1, 'written' if write else 'read', self.n), st.copy()))
                    raise Dead()
            else:
                self.unknown += 1
        if write and val is not None and p.base == st.x.get('container'):
            old = st.x.get('last')
            d = None
            if old is not None and old[0] == p and is_num(val) and is_num(old[1]):
                d = sub(val, old[1])
            if isinstance(d, int):
                if 'cleared' not in st.x and not isinstance(p.off, int):
                    st.x['cleared'] = uncleared(st.objs[p.base])
                st.event('count', p.off, d, ip.fn.loc(ins))
            elif not (isinstance(p.off, int) and (val == 0 or isinstance(val, Ptr))):
                st.event('set', p.off, None, ip.fn.loc(ins))
        elif write and val is None and p.base == st.x.get('container'):
            st.event('set', p.off, size, ip.fn.loc(ins))

    def loaded(self, ip, st, ins, p, size, v):
        if p.base == st.x.get('container'):
            st.x['last'] = (p, v)

    def subscript(self, ip, st, ins, p, sel):
        for x, n, es in sel:
            if n > 1 and (isinstance(x, int) or isinstance(x, Lin)):
                self.subs += 1
                out = None
                if isinstance(x, int):
                    out = () if not 0 <= x < n else None
                else:
                    lo, hi = mk_le(add(x, 1)), mk_le(sub(n, x))     # x<0, x>=n
                    for c in (lo, hi):
                        if c != 0 and st.decide(c) != 0:
                            out = (c,)
                            break
                if out is not None:
                    self.bad.append(('subscript', ip.fn.loc(ins), 'element %r of an array of %d elements is selected' % (x, n), st.copy(), out))

    def call(self, ip, st, ins, name, callee, args):
        b = callee.base if callee is not None else None
        if b is None or name in ip.ALLOC:
            if name in ip.ALLOC and not st.x.get('container'):
                r = ip.default_call(st, ip.fn, ins, name, callee, args)
                if args and args[0] == layout('flbwt::Container')[''][0]:
                    for s, v in r:
                        s.x['container'] = v.base
                return r
            return None
        loc = ip.fn.loc(ins)
        if b in (B + 'insert_string', B + 'find_name', 'flbwt::PackedArray::set_value'):
            # an argument that depends on a condition
            for x in args[1:3]:
                v = x.off if isinstance(x, Ptr) else x
                for a, k in (v.t if isinstance(v, Lin) else ()):
                    if isinstance(a.key, tuple) and a.key[0] == 'cond':
                        d = st.decide(a.key[1])
                        if d is None:
                            raise Fork(a.key[1])
                        v = sub(v, scale(lin(a), k))
                        v = add(v, k * d)
                if isinstance(x, Ptr):
                    if v != x.off:
                        args = [Ptr(x.base, v) if y is x else y for y in args]
                elif v != x:
                    args = [v if y is x else y for y in args]
        if b == B + 'insert_string':
            off = args[2].off if isinstance(args[2], Ptr) and args[2].base == 'T' else None
            m = args[1]
            prev = [e for e in st.events() if e[0] == 'insert']
            new = not any(e[1] == m for e in prev)
            r = []
            for v in (1,) if new else (1, 0):
                s = st if v else st.copy()
                r.append((s, v))
            for s, v in r:
                s.event('insert', m, off, loc, v)
            return r
        if b == B + 'find_name':
            off = args[2].off if isinstance(args[2], Ptr) and args[2].base == 'T' else None
            v = lin(atom(('name', len([e for e in st.events() if e[0] == 'find'])), name='name', lo=1, hi=1 << 40))
            st.event('find', args[1], off, loc, v)
            return [(st, v)]
        if b == 'flbwt::PackedArray::set_value':
            st.event('put', args[0].base if isinstance(args[0], Ptr) else None, args[1], args[2], loc)
            return [(st, None)]
        if b == 'flbwt::sort_LMS_strings':
            c = st.x.get('container')
            st.event('sorted', loc)
            if c in st.objs:
                st.wobj(c).cells[field('flbwt::Container', 'sa_max_value')] = (8, 1000)
            return [(st, Ptr(fresh('S'), 0))]
        if b.startswith('flbwt::sais_'):
            st.x['sais'] = loc
            self.done.append(st)
            return []
        return None


_memo = {}
LIMIT = 350000
spent = 0


def patterns(tier):
    """types of longer inputs: the lengths of the substrings from the left, with the run of equal bytes first"""
    ls = [(4, 7, 4, 3), (5, 6, 6, 5), (12, 3, 12, 3), (3, 40, 40, 3), (254, 255, 256), (257, 3, 257, 3)]
    if tier != 'quick':
        ls += [(k, 3, k, 4) for k in range(5, 40)] + [(511, 512, 513), (300, 1024, 300, 3), (1023, 1024, 1025)]
    return ls


def pattern(ls):
    """comparison of T[i] with T[i+1] for an input that consists of one larger-type byte, then substrings of the given lengths"""
    rel = ['>']
    for l in ls:
        # S*: rises at once, stays, falls at the end
        rel += ['<'] + ['='] * (l - 3) + ['>']
    return rel


def paths(n):
    """(client, interpreter) after all paths for length n (or for a pattern of neighbours) were followed; None: too many"""
    if n in _memo:
        return _memo[n]
    global spent
    if spent > 2 * LIMIT:
        return None
    try:
        r = _paths(n)
        spent += r[1].steps
        return r
    except Budget:
        spent += LIMIT
        _memo[n] = None
        return None


def _paths(key):
    n = key
    rel = ()
    if isinstance(n, tuple):
        rel = pattern(n)
        n = len(rel) + 1
    m = module()
    f = m.one('flbwt::bwt_string')
    if len(f.args) != 3:
        raise AnalysisError('unexpected signature of flbwt::bwt_string: %s' % f.argty)
    reset()
    c = ScanClient(n)
    st = State()
    st.new_obj('malloc', n + 1, 'the caller', 'T', True, key='T')
    st.wobj('T').cells[n] = (1, 0)
    st.env = dict(zip(f.args, [Ptr('T', 0), n, 0]))
    for i, x in enumerate(rel):
        d = sub(byte(n, i), byte(n, i + 1))
        st.assume(mk_eq(d) if x == '=' else mk_le(add(d, 1)) if x == '<' else mk_le(sub(1, d)))
    ip = Interp(m, c)
    c.outs = ip.run(f, st)
    _memo[key] = (c, ip)
    return _memo[key]


def types(b, n):
    """b: the bytes; list of types of the positions 0..n-1, True: smaller type"""
    t = [False] * n
    for i in range(n - 2, -1, -1):
        t[i] = b[i] < b[i + 1] or b[i] == b[i + 1] and t[i + 1]
    return t


def spec(b):
    """what the scan has to find in the bytes b: substrings (length, offset) from the right, first S* position, counts"""
    n = len(b)
    t = types(b, n)
    stars = [i for i in range(1, n) if t[i] and not t[i - 1]]
    ends = stars[1:] + [n] if stars else []
    subs = [(q - p + 1, p) for p, q in zip(stars, ends)][::-1]
    M, NL, C = {0: 1}, {}, {0: 1}
    for i in range(n):
        M[b[i] + 1] = M.get(b[i] + 1, 0) + 1
        if not t[i]:
            NL[b[i] + 1] = NL.get(b[i] + 1, 0) + 1
    for i in stars:
        C[b[i] + 1] = C.get(b[i] + 1, 0) + 1
    return subs, (stars[0] if stars else n), M, NL, C


def witnesses(st, n):
    """bytes for every order of neighbours that the path leaves open"""
    todo = [()]
    for i in range(n - 1):
        d = sub(byte(n, i), byte(n, i + 1))
        opts = [mk_le(add(d, 1)), mk_eq(d), mk_le(sub(1, d))]
        live = [c for c in opts if c != 0 and st.decide(c) != 0]
        if len(live) > 1:
            todo = [t + (c,) for t in todo for c in live]
            if len(todo) > 30:
                break
        elif not live:
            return []
    r = []
    for t in todo:
        w = witness(st, n, t)
        if w is not None:
            r.append(w)
    return r


def value(x, w):
    """value of an expression over the bytes"""
    if isinstance(x, int):
        return x
    if not isinstance(x, Lin):
        return None
    r = x.c
    for a, k in x.t:
        if isinstance(a.key, tuple) and a.key[0] == 'T':
            r += k * w[a.key[1]]
        else:
            return None
    return r


def show(w):
    r, i = [], 0
    while i < len(w):
        k = i
        while k < len(w) and w[k] == w[i]:
            k += 1
        r.append('%d' % w[i] if k == i + 1 else '%d,%d' % (w[i], w[i]) if k == i + 2 else '%d (%d times)' % (w[i], k - i))
        i = k
    return 'for the input of the bytes %s' % ','.join(r)


def runs(tier, r):
    """(n, client, interpreter) for each length and pattern"""
    global LIMIT
    sys.setrecursionlimit(20000)
    if tier != 'quick':
        LIMIT = 3000000
    for key in list(range(1, (7 if tier == 'quick' else 9) + 1)) + patterns(tier):
        x = paths(key)
        what = 'patterns of longer inputs' if isinstance(key, tuple) else 'lengths'
        if x is None:
            r.count(what + ' not followed (too many paths)')
            continue
        r.count(what)
        r.count('abstract instructions', x[1].steps)
        yield x[0].n, x[0], x[1]
