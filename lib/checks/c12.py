"""C12: a lookup in the substring table finds exactly what was inserted."""
from front import AnalysisError, field
from result import Result
from terms import *
from state import State
from interp import Budget
import tablex
from tablex import String, byte, witness


def shared(name, m, pos=0, k=1):
    """a string whose bytes are shared with the others, except one"""
    return String(name, [k if i == pos else byte('c%d' % i) for i in range(m)])


class Scenario:
    def __init__(self, M, r, what, n, size, strings, bucket=None, moved=True):
        self.M, self.r, self.what, self.S = M, r, what, strings
        self.n = n
        self.strings = strings
        self.st0 = M.new(n, size, strings, bucket, moved)
        try:
            # any number of collisions may have been seen
            self.st0.wobj('H').cells[field('flbwt::HashTable', 'collisions')] = (8, lin(atom(('count', 0), name='collisions', lo=0, hi=1 << 40)))
        except (AnalysisError, KeyError):
            pass
        self.take()

    def take(self):
        """violations the client saw"""
        for rule, loc, msg in self.M.c.bad:
            self.r.bad(rule, loc, '%s (%s)' % (msg, self.what))
        self.M.c.bad = []

    def equal(self, st, a, b):
        """True, False or the comparisons left open"""
        if a.m != b.m:
            return False
        opened = []
        for x, y in zip(a.b, b.b):
            d = st.decide(mk_eq(sub(x, y)))
            if d == 0:
                return False
            if d is None:
                opened.append(mk_eq(sub(x, y)))
        return True if not opened else opened

    def insert(self, st, s, inside):
        """states after the insertion of s; inside: strings in the table"""
        out = []
        for k, t, v, loc in self.M.insert(st, s):
            self.r.count('insertions judged')
            if k == 'throw':
                w = witness(t.facts)
                if w is not None:
                    self.r.bad('insertion fails', self.thrown(t, loc), 'the insertion of %s throws (%s)' % (s.show(w), self.what))
                continue
            if not isinstance(v, int):
                self.r.count('undecided outcomes')
                continue
            eq = [(x, self.equal(t, s, x)) for x in inside]
            dup = next((x for x, e in eq if e is True), None)
            opened = [(x, e) for x, e in eq if e not in (True, False)]
            bad = None
            if v & 255 == 0 and not dup:
                # rejected: with a difference where the path has not looked?
                extra = [notc(e[0]) for x, e in opened]
                w = witness(t.facts, extra)
                if w is not None:
                    y = opened[0][0] if opened else inside[-1] if inside else None
                    bad = ('new string rejected', 'the insertion of %s reports a duplicate although no equal string is in the table%s' % (
                        s.show(w), ' (there is %s)' % y.show(w) if y else ''))
            elif v & 255 and dup:
                w = witness(t.facts)
                if w is not None:
                    bad = ('duplicate entered', 'the insertion of %s reports a new string although it is in the table' % s.show(w))
            elif v & 255:
                for x, e in opened:
                    w = witness(t.facts, e)
                    if w is not None:
                        bad = ('duplicate entered', 'the insertion of %s reports a new string although it is in the table' % s.show(w))
            if bad:
                self.r.bad(bad[0], loc, '%s (%s)' % (bad[1], self.what))
                continue
            out.append((t, inside if dup or not v & 255 else inside + [s]))
        self.take()
        return out

    def thrown(self, t, loc):
        return next((e[1] for e in t.events() if e[0] == 'throw'), loc)

    def records(self, st, inside, allof):
        """entries the lookups come to; [(state, {string: pointer})]"""
        res = [(st, {})]
        for s in allof:
            nxt = []
            for t0, rec in res:
                for k, t, v, loc in self.M.find(t0, s):
                    self.r.count('lookups judged')
                    w = None
                    if k == 'throw':
                        w = witness(t.facts)
                        if w is not None:
                            self.r.bad('not found', self.thrown(t, loc), 'the lookup of %s, which was inserted, finds nothing (%s)' % (s.show(w), self.what))
                        continue
                    ev = [e for e in t.events() if e[0] == 'record']
                    if len(ev) != 1 or not isinstance(ev[0][1], Ptr):
                        self.r.count('undecided outcomes')
                        continue
                    p = ev[0][1]
                    m = self.inner(t, 'get_length', p)
                    q = self.inner(t, 'get_first_character_pointer', p)
                    b = self.M.c.bytes_of(t, q, s.m) if isinstance(q, Ptr) else None
                    if isinstance(m, int) and m != s.m:
                        b = ()
                    if b is None:
                        self.r.count('undecided outcomes')
                    else:
                        e = self.equal(t, s, String('', b))
                        extra = [] if e is False else [notc(e[0])] if e is not True else None
                        if extra is not None:
                            w = witness(t.facts, extra)
                            if w is not None:
                                self.r.bad('wrong entry', ev[0][2], 'the lookup of %s comes to an entry of other content (%s)' % (s.show(w), self.what))
                                continue
                    nxt.append((t, dict(rec, **{s.name: p})))
            res = nxt
        self.take()
        return res

    def inner(self, st, name, p):
        M = self.M
        f = M.m.one(tablex.B + name)
        M.f[name] = f
        o = [(k, v) for k, s, v, l in M.op(name, st, p)]
        return o[0][1] if len(o) == 1 and o[0][0] == 'ret' else None

    def names(self, st, rec, strings):
        """store a name in every entry, look all up"""
        M = self.M
        ent = []
        for s in strings:
            if rec[s.name] not in ent:
                ent.append(rec[s.name])
        top = self.n // 2 + 1
        want = {}
        states = [st]
        for i, p in enumerate(ent):
            v = (i + 1) * max(1, top // (len(ent) + 1))
            want[p] = v
            states = [t for s in states for k, t, x, l in M.op('set_name', s, p, v) if k == 'ret']
        self.take()
        M.c.hook_name = False
        try:
            for t in states:
                for s in strings:
                    for k, u, v, loc in M.find(t, s):
                        self.r.count('names judged')
                        w = witness(u.facts)
                        if w is None:
                            continue
                        if k == 'throw':
                            self.r.bad('not found', self.thrown(u, loc), 'after the names were stored the lookup of %s finds nothing (%s)' % (s.show(w), self.what))
                        elif not isinstance(v, int):
                            self.r.count('undecided outcomes')
                        elif v != want[rec[s.name]]:
                            self.r.bad('wrong name', loc, 'the lookup of %s gives the name %d instead of %d (%s)' % (s.show(w), v, want[rec[s.name]], self.what))
        finally:
            M.c.hook_name = True
        self.take()

    def run(self, again=True, named=True, order=None):
        states = [(self.st0, [])]
        for i in (order or range(len(self.S))):
            states = [x for st, inside in states for x in self.insert(st, self.S[i], inside)]
        if again:
            for s in self.S:
                states = [x for st, inside in states for x in self.insert(st, s, inside)]
        for st, inside in states:
            for t, rec in self.records(st, inside, self.S):
                for a in self.S:
                    for b in self.S:
                        if a.name < b.name:
                            e = self.equal(t, a, b)
                            if e is False and rec[a.name] == rec[b.name]:
                                w = witness(t.facts)
                                if w is not None:
                                    self.r.bad('wrong entry', self.M.where('find_name'), '%s and %s have one entry (%s)' % (a.show(w), b.show(w), self.what))
                            elif e is True and rec[a.name] != rec[b.name]:
                                w = witness(t.facts)
                                if w is not None:
                                    self.r.bad('wrong entry', self.M.where('find_name'), '%s has two entries (%s)' % (a.show(w), self.what))
                if named:
                    self.names(t, rec, self.S)


def hashing(M, r):
    """equal strings have one bucket, inside the table, found by reading the string alone"""
    size = 67777
    for m in (1, 3, 4, 10, 20):
        b = [byte('h%d' % i) for i in range(m)]
        A, B = String('A', b), String('B', b)
        st = M.new(1000, size, [A, B])
        M.c.nb = 0
        M.f['hash_function'] = M.m.one(tablex.B + 'hash_function')
        M.c.access = wrap(M.c, [])
        try:
            res = [M.op('hash_function', st, m, Ptr(x.name, 0)) for x in (A, B)]
        finally:
            del M.c.access
        for rule, loc, msg in M.c.bad:
            r.bad(rule, loc, msg + ' (hash value of %d bytes)' % m)
        M.c.bad = []
        r.count('hash values judged')
        one = [o[0] for o in res if len(o) == 1 and o[0][0] == 'ret']
        if len(one) == 2 and isinstance(one[0][2], int) and isinstance(one[1][2], int) and one[0][2] != one[1][2]:
            r.bad('hash value', one[0][3], 'equal substrings have different hash values')
        elif one and address(one[0][2]):
            r.bad('hash value', one[0][3], 'the hash value of a substring depends on its address')
    for v in (0, 1, 127, 128, 255):
        for m in (3, 8, 9, 10, 11, 12, 40):
            A, Z, Y = String('A', [v] * m), shared('Z', 5), shared('Y', 6)
            st = M.new(1000, size, [A, Z, Y], {'Z': 3, 'Y': 3})
            late = [st]
            for z in (Z, Y):
                late = [t for x in late for k, t, y, l in M.insert(x, z) if k == 'ret']
            M.c.nb = 0
            vals = set()
            for x in [st] + late[:1]:
                for k, t, y, loc in M.op('hash_function', x, m, Ptr('A', 0)):
                    r.count('hash values judged')
                    if k == 'ret' and isinstance(y, int):
                        vals.add(y)
                        if not 0 <= y < size:
                            r.bad('hash value', loc, 'the hash value of %s is %d, the table has %d buckets' % (A.show(), y, size))
            M.c.bad = []
            if len(vals) > 1:
                r.bad('hash value', loc, 'the hash value of %s changes when another string is inserted' % A.show())


def address(x, depth=0):
    """does a value depend on where the string lies?"""
    if depth > 60:
        return False
    if isinstance(x, Lin):
        return any(address(a, depth + 1) for a, k in x.t)
    if isinstance(x, Atom):
        return isinstance(x.key, tuple) and (x.key[0] == 'addr' and x.key[1] in ('A', 'B') or any(address(k, depth + 1) for k in x.key))
    if isinstance(x, Cond):
        return address(x.x, depth + 1)
    if isinstance(x, (tuple, list)):
        return any(address(k, depth + 1) for k in x)
    if isinstance(x, BV):
        return any(address(b, depth + 1) for b in bits_of(x))
    return isinstance(x, Ptr) and x.base in ('A', 'B')


def bits_of(x):
    return next((getattr(x, k) for k in ('b', 'bits') if hasattr(x, k)), ())


def wrap(c, l):
    f = type(c).access
    return lambda *a, **k: f(c, *a, **k)


def safely(r, f, M, limit):
    if r.violations or M.steps > limit:
        r.count('scenarios skipped')
        return
    try:
        f()
    except Budget:
        M.steps += M.c.max_steps
        for rule, loc, msg in M.c.bad:
            r.bad(rule, loc, msg)
        M.c.bad = []
        r.count('scenarios not followed to the end')


def run(tier):
    quick = tier == 'quick'
    r = Result("insert_string, find_name, set_name and get_name are interpreted abstractly from their IR on a table built by its constructor; the hash "
               "function is replaced by buckets given by the scenario and analysed on its own. Strings have fixed lengths and symbolic bytes: two strings of "
               "one length with all bytes unconstrained (every path of the comparison); chains of strings of different lengths with the bytes they "
               "have in common, over several blocks, in one bucket and in two interleaved ones, with the first block filled to every amount around its "
               "capacity, the memory growing in place and moving. On every path: an insertion reports a new string exactly if no equal one was inserted; "
               "each inserted string is found, at an entry that holds exactly its bytes; different strings have different entries; names stored in the "
               "entries are found again; no access lies outside the string or the memory.",
               ["the number of scenarios is finite: lengths up to a few hundred bytes, up to eight strings in a chain"])
    M = tablex.Machine()
    limit = 12000000 if quick else 80000000

    def go(f):
        safely(r, f, M, limit)

    def two(m, n):
        A = String('A', [byte('a%d' % i) for i in range(m)])
        B = String('B', [byte('b%d' % i) for i in range(m)])
        Scenario(M, r, 'two substrings of %d bytes in one bucket' % m, n, 1, [A, B]).run(again=m < 5)
        r.count('scenarios')

    def chain(what, n, size, strings, bucket=None, moved=True, again=True):
        Scenario(M, r, what, n, size, strings, bucket, moved).run(again=again)
        r.count('scenarios')

    for m, n in ((3, 10), (4, 1000), (5, 200000)) + (() if quick else ((6, 10), (7, 10), (8, 10))):
        go(lambda: two(m, n))
    # lengths, shared beginnings
    for n in (10, 1000, 200000):
        go(lambda: chain('substrings of 3 to 7 bytes that begin alike, in one bucket', n, 1, [shared('S%d' % m, m) for m in (5, 3, 4, 7, 6)]))
    go(lambda: chain('substrings of 254 to 258 bytes that begin alike, in one bucket', 1000, 1, [shared('S%d' % m, m) for m in (256, 255, 257, 254, 258)]))
    # equal lengths, difference at one place
    for m in (3, 6, 255, 256, 257) if quick else (3, 6, 20, 255, 256, 257, 511, 513, 1000):
        for pos in (0, m // 2, m - 1):
            go(lambda: chain('substrings of %d bytes that differ in byte %d, in one bucket' % (m, pos), 1000, 1,
                                    [shared('S%d' % k, m, pos, k) for k in ((255, 0, 7) if m < 100 else (255, 0))]))
    # long chains over many blocks
    go(lambda: chain('eight long substrings in one bucket', 1000, 1, [shared('S%d' % m, m) for m in (300, 301, 40, 600, 3, 299, 512, 200)]))
    go(lambda: chain('eight long substrings in one bucket, memory growing in place', 1000, 1,
                            [shared('S%d' % m, m) for m in (300, 301, 40, 600, 3, 299, 512, 200)], moved=False))
    # many buckets: the number of the bucket needs more than 8 and 16 bits
    for size, bs in ((70000, (69999, 4463, 111, 256)),):
        go(lambda: chain('buckets %s of %d' % (', '.join(map(str, bs)), size), 1000, size, [shared('S%d' % m, m) for m in range(3, 3 + len(bs))],
                         {'S%d' % m: b for m, b in zip(range(3, 9), bs)}, again=False))
    # two buckets, the block of the first filled to its capacity
    st = M.new(10, 1, [])
    try:
        c = st.objs['H'].cells.get(field('flbwt::HashTable', 'HBSIZE'))
    except (AnalysisError, KeyError):
        c = None
    hb = c[1] if c is not None and isinstance(c[1], int) and 64 <= c[1] <= 4096 else 512
    sweep = range(hb - 24, hb + 3) if quick else range(hb - 40, hb + 20)
    for n in (10,) if quick else (10, 1000, 200000):
        for m in sweep:
            S = [shared('A1', 10), shared('B1', 11), shared('A2', m), shared('A3', 4), shared('B2', 5), shared('A4', 6)]
            go(lambda: chain('two buckets; a block of %d bytes after its first entry takes one of %d bytes' % (hb, m), n, 2, S,
                                    {s.name: int(s.name[0] == 'B') for s in S}, moved=bool(m & 1), again=not quick))
    half = hb // 2 - 6
    for m in range(hb - half - 30, hb - half + 2, 1 if not quick else 2):
        S = [shared('A1', 3), shared('B1', 4), shared('A2', half), shared('A3', m), shared('A4', 5), shared('B2', hb - 20), shared('A5', 6)]
        go(lambda: chain('two buckets; a block takes entries of %d and %d bytes' % (half, m), 10, 2, S,
                                {s.name: int(s.name[0] == 'B') for s in S}, moved=bool(m & 1), again=False))
    hashing(M, r)
    r.count('abstract instructions', M.steps)
    r.count('accesses judged', M.c.accesses)
    if not r.coverage.get('scenarios') and not r.violations:
        raise AnalysisError('C12: no scenario was followed to the end')
    return r
