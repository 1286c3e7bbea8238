"""C11: fields of a substring record.  Bit-provenance dataflow through the writers and readers of the record."""
from multiprocessing import Pool
from front import load, AnalysisError, rel
from terms import *
from state import State
from interp import Interp, Client, width
from result import Result

H = 'flbwt::HashTable::'
CTOR = H + 'HashTable'
NAMES = ['get_length', 'set_length', 'get_lenlen', 'calculate_lenlen', 'set_name', 'get_name', 'set_pointer', 'get_pointer',
         'get_first_character_pointer', 'string_info_length']


class C(Client):
    peel = 12

    def __init__(self):
        super().__init__()
        self.writes = []
        self.log = False

    def access(self, ip, st, ins, p, size, write, val=None):
        if write and self.log and p.base == 'rec':
            self.writes.append((p.off, size, ip.fn.loc(ins)))


class IP(Interp):
    def initial(self, st, ins, p, o, size, ty):
        w = width(ty)
        if w and p.base == 'rec' and not o.fills:
            return lin(atom(('mem', p.base, p.off, size), name='old[%r]' % p.off, w=w, bits=True))
        return super().initial(st, ins, p, o, size, ty)


def fn_of(name):
    m = load([H + name])
    fs = [f for f in m.by_base(H + name) if not f.decl]
    if not fs:
        raise AnalysisError('anchor vanished: ' + H + name)
    return sorted(fs, key=lambda f: 'C1' in f.name)[0]


def where(f):
    return '%s:%d in %s' % (rel(f.file), f.line, f.src)


class Job:
    def __init__(self):
        self.bad, self.cnt = [], {}
        self.c = C()

    def count(self, k, n=1):
        self.cnt[k] = self.cnt.get(k, 0) + n

    def viol(self, rule, loc, msg):
        self.bad.append((rule, loc, msg))

    def call(self, name, st, args):
        """states and values of a normal return"""
        f = fn_of(name)
        if len(f.args) != len(args) + 1 or f.argty[0] != 'ptr':
            raise AnalysisError('unexpected signature of %s%s' % (H, name))
        ip = IP(f.mod, self.c)
        s = st.copy()
        av = []
        for a, t in zip(args, f.argty[1:]):
            w = width(t)
            if w and w < 64 and not isinstance(a, Ptr):
                b = tobits(a, 64)
                a = frombits(b[:w])
            av.append(a)
        s.env = dict(zip(f.args, [Ptr('this', 0)] + av))
        self.c.writes = []
        self.c.log = True
        outs = []
        for kind, s2, v, loc in ip.run(f, s):
            if kind != 'ret':
                self.viol('throws', loc, '%s can throw' % f.src)
                continue
            outs.append((s2, v, list(self.c.writes)))
        self.c.log = False
        self.count('paths')
        if not outs:
            raise AnalysisError('%s does not return' % name)
        return f, outs

    def paths(self, name, st, args):
        """outcomes that certain values of the symbols reach: [(function, state, value, writes)]"""
        f, outs = self.call(name, st, args)
        if len(outs) == 1:
            return [(f,) + outs[0]]
        res = []
        for o in outs:
            conj = 1
            for c in o[0].facts.s:
                if c in st.facts.s:
                    continue
                if c.k in ('t', 'f') and isinstance(c.x, tuple) and c.x[0] == 'bit':
                    conj = bitop('and', conj, c.x[1] if c.k == 't' else bnot(c.x[1]))
                else:
                    conj = None
                    break
            if conj is None:
                self.count('undecided paths')
            elif not (isinstance(conj, int) and conj == 0):
                res.append((f,) + o)
        return res

    def bits_eq(self, f, got, want, what, setter):
        g = tobits(got, 64) if isinstance(got, (int, Lin, BV)) else None
        if g is None:
            self.count('undecided reads')
            return
        w = width(f.ret) or 64
        g = g[:w] + [0] * (64 - w) if w < 64 else g
        self.count('bits compared', 64)
        bad = [i for i in range(64) if g[i] is not None and g[i] != want[i]]
        if bad:
            self.viol('round trip', where(f), '%s: bit %d read is %s, expected %s; stored by %s' % (what, bad[0], fmt(g[bad[0]]), fmt(want[bad[0]]), where(setter)))
        elif None in g:
            self.count('undecided bits', g.count(None))


def fmt(b):
    return '%r[%d]' % b if isinstance(b, tuple) else repr(b)


def ctor_state(lo, hi, cl, job):
    f = fn_of('HashTable')
    if len(f.args) != 3:
        raise AnalysisError('unexpected signature of the HashTable constructor')
    ip = Interp(f.mod, cl)
    st = State()
    st.new_obj('ext', None, None, 'this', True, key='this')
    n = lo if lo == hi else lin(atom(('n', lo, hi), name='n', lo=lo, hi=hi))
    ht = lin(atom('htsize', name='htsize', lo=1, hi=1 << 40))
    st.env = dict(zip(f.args, [Ptr('this', 0), ht, n]))
    return f, [s for k, s, v, l in ip.run(f, st) if k == 'ret']


def name_width(job, st):
    """number of bytes set_name writes"""
    s = st.copy()
    s.new_obj('ext', None, None, 'rec', True, key='rec')
    v = fresh('len', 2, bits=True)
    ln = BV(((v, 0), (v, 1), 1) + (0,) * 61)
    outs = []
    for f, s, _, w in job.paths('set_length', s, [Ptr('rec', 0), ln])[:1]:
        for f, s2, _, w in job.paths('set_name', s, [Ptr('rec', 0), lin(fresh('name', 64, bits=True))]):
            n = set()
            for off, size, loc in w:
                for k in range(size):
                    n.add(add(off, k))
            outs.append(len(n))
    return outs


def need_bytes(n):
    """bytes for the largest name an input of n bytes can need"""
    m = (max(n, 1) - 1) // 2 + 1
    return (m.bit_length() + 7) // 8


def job_ctor(b):
    """name bytes for inputs of b significant bits"""
    j = Job()
    reset()
    res = {}
    lo, hi = 1 << (b - 1), (1 << b) - 1
    # n/2+1 has a constant number of bits on these
    parts = [(lo, hi - 2), (hi - 1, hi)] if b > 2 else [(lo, hi)]
    work = list(parts)
    steps = 0
    while work and steps < 300:
        lo, hi = work.pop()
        if lo > hi:
            continue
        steps += 1
        f, sts = ctor_state(lo, hi, Client(), j)
        ws = []
        for s in sts:
            ws += name_width(j, s)
        j.count('input length classes')
        if not ws:
            j.count('undecided input length classes')
            continue
        if min(ws) >= need_bytes(hi):
            for w in ws:
                res[w] = (lo, hi)
            continue
        if lo == hi:
            if max(ws) < need_bytes(hi):
                j.viol('too few name bytes', where(f), 'for n = %d a name takes %d bytes, but the name %d can be needed (%d bytes)' % (
                    hi, ws[0], (hi - 1) // 2 + 1, need_bytes(hi)))
                break
            j.count('undecided input length classes')
            continue
        # shrink towards the end that needs most
        mid = (lo + hi) // 2
        work += [(lo, mid), (mid + 1, hi)]
    return j.bad, j.cnt, res


def job_len(args):
    m, rng, nb = args
    j = Job()
    reset()
    f, sts = ctor_state(rng[0], rng[1], Client(), j)
    st = sts[0]
    st.new_obj('ext', None, None, 'rec', True, key='rec')
    v = atom('len', name='len', w=64, bits=True)
    bits = [(v, i) for i in range(m - 1)] + [1] + [0] * (64 - m)
    ln = frombits(bits)
    P = Ptr('rec', 0)
    calcs = j.paths('calculate_lenlen', st, [ln])
    for setl, s1, _, w1 in j.paths('set_length', st, [P, ln]):
        for getl, s2, got, w in j.paths('get_length', s1, [P]):
            j.bits_eq(getl, got, bits, 'length of %d significant bits' % m, setl)
        for gl, _, lenlen, _ in j.paths('get_lenlen', s1, [P]):
            for cl, _, calc, _ in calcs:
                if isinstance(lenlen, int) and isinstance(calc, int):
                    if lenlen != calc:
                        j.viol('length of the length', where(cl), 'a length of %d significant bits is stored in %d bytes but %d are reserved' % (m, lenlen, calc))
                    j.count('lengths of lengths compared')
        for fc, _, first, _ in j.paths('get_first_character_pointer', s1, [P]):
            for il, _, info, _ in j.paths('string_info_length', s1, [P, ln]):
                if not isinstance(first, Ptr) or first.base != 'rec':
                    j.count('undecided layouts')
                    continue
                record(j, st, s1, P, ln, bits, m, nb, first.off, info, w1)
    return j.bad, j.cnt


def record(j, st, s1, P, ln, bits, m, nb, first, info, w1):
    for off, size, loc in w1:
        j.count('store footprints checked')
        d = sub(add(off, size), first)
        if isinstance(d, int) and isinstance(off, int):
            if d > 0 or off < 0:
                j.viol('field disturbs another', loc, 'length of %d significant bits: set_length writes offset %r, the characters start at %r' % (m, off, first))
    chars_end = add(first, num(ln))
    name = atom('name', name='name', w=min(8 * nb, 64), bits=True)
    nbits = [(name, i) for i in range(min(8 * nb, 64))] + [0] * (64 - min(8 * nb, 64))
    for setn, s3, _, w3 in j.paths('set_name', s1, [P, frombits(nbits)]):
        for off, size, loc in w3:
            j.count('store footprints checked')
            d = sub(off, chars_end)
            lo, hi = bounds(d)
            if hi is not None and hi < 0:
                j.viol('field disturbs another', loc, 'length of %d significant bits, %d name bytes: set_name writes offset %r, the characters end at %r' % (m, nb, off, chars_end))
            elif lo is None or lo < 0:
                j.count('undecided store footprints')
            e = sub(add(off, size), num(info))
            lo, hi = bounds(e)
            if lo is not None and lo > 0:
                j.viol('field outside the record', loc, 'length of %d significant bits, %d name bytes: set_name writes offset %r of a record of %r bytes' % (m, nb, off, info))
            elif hi is None or hi > 0:
                j.count('undecided store footprints')
        for getn, s4, gotn, _ in j.paths('get_name', s3, [P]):
            j.bits_eq(getn, gotn, nbits, 'name of %d bytes (length of %d significant bits)' % (nb, m), setn)
        # storing the name left the length alone
        for getl, s5, got, w in j.paths('get_length', s3, [P]):
            j.bits_eq(getl, got, bits, 'length of %d significant bits after the name was stored' % m, setn)


def num(v):
    return Interp(None, None).num(v)


def job_ptr(rng):
    j = Job()
    reset()
    f, sts = ctor_state(rng[0], rng[1], Client(), j)
    st = sts[0]
    st.new_obj('ext', None, None, 'rec', True, key='rec')
    P = Ptr('rec', 0)
    v = atom('ptr', name='pointer', w=64, bits=True)
    for setp, s1, _, w1 in j.paths('set_pointer', st, [P, lin(v)]):
        for getp, s2, got, _ in j.paths('get_pointer', s1, [P]):
            j.bits_eq(getp, got, [(v, i) for i in range(64)], 'link to the next block', setp)
        for off, size, loc in w1:
            j.count('store footprints checked')
            if isinstance(off, int) and (off < 0 or off + size > 12):
                j.viol('field outside the record', loc, 'set_pointer writes offset %d; 12 bytes are cleared for it' % off)
        # a link is told from a substring by its length, which no substring has
        for getl, s3, ln, _ in j.paths('get_length', s1, [P]):
            if isinstance(ln, int):
                j.count('link markers')
                if not 0 < ln < 3:
                    j.viol('link marker', where(setp), 'a link record reads as a substring of length %d' % ln)
    return j.bad, j.cnt


def dispatch(a):
    return a[0], globals()[a[0]](a[1])


def run(tier):
    r = Result("The writers and readers of a substring record are analysed over a bit-provenance domain from a record whose previous "
               "content is symbolic: lengths of every number of significant bits 1..63 (all lower bits symbolic), names of every number of name bytes the "
               "constructor can choose (all bits symbolic), and a symbolic 64-bit link. Obligations: what is read is what was stored, bit for bit; "
               "stores stay in their field; as many bytes are reserved for a length as are written; and, by interval analysis of the constructor over the "
               "input lengths of each number of bits (split where the result is not constant), the name bytes hold the largest name, (n-1)/2+1.",
               ["n < 2^63", "a length is at least 1", "at most (n-1)/2 substrings are named, plus the head"])
    fn_of('HashTable')
    for n in NAMES:
        fn_of(n)
    ranges = {}
    maxb = 63
    with Pool(8) as pool:
        for _, (bad, cnt, res) in pool.imap(dispatch, [('job_ctor', b) for b in range(1, maxb + 1)]):
            for x in bad:
                r.bad(*x)
            for k, n in cnt.items():
                r.count(k, n)
            for w, g in res.items():
                ranges.setdefault(w, g)
        nbs = sorted(w for w in ranges if 1 <= w <= 8)
        if not nbs:
            if r.violations:
                return r
            raise AnalysisError('C11: no number of name bytes was determined')
        jobs = [('job_ptr', ranges[nbs[0]])]
        lens = range(1, 64)
        for k in nbs:
            for m in lens:
                if tier == 'thorough' or k == nbs[(m - 1) % len(nbs)] or m in (1, 8, 9, 16, 63):
                    jobs.append(('job_len', (m, ranges[k], k)))
        for _, (bad, cnt) in pool.imap(dispatch, jobs, chunksize=4):
            for x in bad:
                r.bad(*x)
            for k, n in cnt.items():
                r.count(k, n)
    r.coverage['numbers of name bytes'] = ','.join(map(str, nbs))
    r.coverage['record scenarios'] = len(jobs)
    if r.coverage.get('bits compared', 0) < 64 * 64 and not r.violations:
        raise AnalysisError('C11: nothing compared')
    return r
