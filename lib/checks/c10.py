"""C10: packed arrays.  Bit-provenance dataflow through the constructor, the store and every reader,
for each element width and each residue of the index."""
import math, os
from multiprocessing import Pool
from front import load, AnalysisError, rel, P_D
from terms import *
from state import State
from interp import Interp, Client, width
from result import Result

CTOR, SET, GET = 'flbwt::PackedArray::PackedArray', 'flbwt::PackedArray::set_value', 'flbwt::PackedArray::get_value'


class C(Client):
    def __init__(self, mod):
        super().__init__()
        self.acc = []
        self.arr = None
        self.log = False

    def access(self, ip, st, ins, p, size, write, val=None):
        if self.log:
            o = st.objs.get(p.base)
            if o is not None and o.kind in ('malloc', 'new', 'new[]'):
                self.acc.append((p, size, write, ip.fn.loc(ins), o))

    def null_access(self, ip, st, ins, write):
        self.report('null access', ip.fn.loc(ins), 'null pointer access')


class IP(Interp):
    def initial(self, st, ins, p, o, size, ty):
        w = width(ty)
        if w and o.kind in ('malloc', 'new', 'new[]') and not o.fills:
            # old content: named after its place so that every reader sees the same bits
            return lin(atom(('mem', p.base, p.off, size), name='old[%r]' % p.off, w=w, bits=True))
        return super().initial(st, ins, p, o, size, ty)


def readers(mod):
    r = []
    for f in mod.defs():
        if f.argty == ['ptr', 'i64', 'i8'] and f.ret == 'i64' and f.file.startswith(os.environ.get('FLBWT_REPO', '/repo')) \
                and '::' not in f.base:
            r.append(f)
    return r


def where(f):
    return '%s:%d in %s' % (rel(f.file), f.line, f.src)


def one_width(args):
    d, tier, keep = args
    mod = load(keep)
    ctor, sett, gett = pick(mod, CTOR), mod.one(SET), mod.one(GET)
    rds = readers(mod)
    bad, cnt = [], {}

    def count(k, n=1):
        cnt[k] = cnt.get(k, 0) + n

    def viol(rule, loc, msg):
        bad.append((rule, loc, msg))
    owner = {}     # memory bit (mod 64 d) -> residues that change it
    reads = {}     # reader -> residue -> memory bits it depends on
    period = 64 * d
    n = 64 // math.gcd(d, 64)
    # residues with the same d*i mod 64 behave alike; the owner map needs all of them
    for i0 in range(64):
        reset()
        K = lin(atom('K', name='K', lo=0))
        for slack in ((1,) if tier == 'quick' else (1, 2, 33)):
            idx = add(scale(K, 64), i0)
            length = add(idx, slack)
            c = C(mod)
            ip = IP(mod, c)
            st = State()
            this = st.new_obj('ext', None, None, 'this', True, key='this')
            st.env.update(zip(ctor.args, [Ptr(this, 0), length, sgn(d, 8)]))
            for k0, s0, _, loc0 in ip.run(ctor, st):
                if k0 != 'ret':
                    continue
                c.log = True
                v = atom('v', name='v', w=d, bits=True)
                s0.env = dict(zip(sett.args, [Ptr(this, 0), idx, lin(v)]))
                c.acc = []
                before = s0.copy()
                for k1, s1, _, loc1 in ip.run(sett, s0):
                    if k1 != 'ret':
                        viol('throws', loc1, 'set_value can throw')
                        continue
                    count('store paths')
                    for p, size, wr, loc, o in c.acc:
                        check_bounds(viol, count, s1, p, size, o, loc, d, i0, 'set_value')
                    # which memory bits changed
                    changed = set()
                    ok = True
                    for b, o in s1.objs.items():
                        if o.kind not in ('malloc', 'new', 'new[]'):
                            continue
                        for off, (sz, x) in o.cells.items():
                            rel_ = sub(off, scale(K, 8 * d))
                            bits = tobits(x, sz * 8) if isinstance(x, (int, Lin, BV)) else None
                            if not isinstance(rel_, int) or bits is None:
                                ok = False
                                continue
                            for j, q in enumerate(bits):
                                if q is None:
                                    ok = False
                                elif not (isinstance(q, tuple) and isinstance(q[0].key, tuple) and q[0].key[0] == 'mem'
                                          and is_same(q, b, off, j)):
                                    changed.add(rel_ * 8 + j)
                    if not ok:
                        count('undecided stores')
                    elif slack == 1:
                        for m in changed:
                            owner.setdefault(m % period, set()).add(i0)
                    for rd in [gett] + rds:
                        c.acc = []
                        s2 = s1.copy()
                        first = Ptr(this, 0) if rd is gett else arr_of(s1, this)
                        if first is None:
                            count('undecided reader set-ups')
                            continue
                        s2.env = dict(zip(rd.args, [first, idx, sgn(d, 8)][:len(rd.args)]))
                        for k2, s3, val, loc2 in ip.run(rd, s2):
                            if k2 != 'ret':
                                viol('throws', loc2, '%s can throw' % rd.src)
                                continue
                            count('reader paths')
                            for p, size, wr, loc, o in c.acc:
                                check_bounds(viol, count, s3, p, size, o, loc, d, i0, rd.src)
                                if wr:
                                    viol('reader writes', loc, '%s writes the array' % rd.src)
                            got = tobits(val, 64) if isinstance(val, (int, Lin, BV)) else None
                            if got is None:
                                count('undecided reads')
                                continue
                            want = [(v, j) for j in range(d)] + [0] * (64 - d)
                            count('bits compared', 64)
                            if any(g != w_ and g is not None for g, w_ in zip(got, want)):
                                j = [g != w_ and g is not None for g, w_ in zip(got, want)].index(True)
                                viol('round trip', where(rd), 'width %d, index %d (mod 64): bit %d read is %s, expected %s; stored by %s' % (
                                    d, i0, j, fmt(got[j]), fmt(want[j]), where(sett)))
                            elif None in got:
                                count('undecided bits', got.count(None))
                        # bits of memory the reader depends on, before the store
                        if slack == 1 and tier == 'thorough' or slack == 1 and rd is gett:
                            s2 = before.copy()
                            s2.env = dict(zip(rd.args, [first, idx, sgn(d, 8)][:len(rd.args)]))
                            for k2, s3, val, loc2 in ip.run(rd, s2):
                                got = tobits(val, 64) if isinstance(val, (int, Lin, BV)) else None
                                if got is None or k2 != 'ret':
                                    continue
                                for q in got:
                                    for a, j in ([q] if isinstance(q, tuple) else bdd_vars(q) if isinstance(q, BDD) else []):
                                        if isinstance(a.key, tuple) and a.key[0] == 'mem':
                                            r_ = sub(a.key[2], scale(K, 8 * d))
                                            if isinstance(r_, int):
                                                reads.setdefault((rd.name, i0), (rd, set()))[1].add((r_ * 8 + j) % period)
    for m, own in owner.items():
        if len(own) > 1:
            a = sorted(own)
            viol('stores overlap', where(sett), 'width %d: storing at index %d and at index %d (mod 64) change the same memory bit' % (d, a[0], a[1]))
            break
    count('memory bits with an owner', len(owner))
    for (name, i0), (rd, bits) in reads.items():
        for m in bits:
            o = owner.get(m, set()) - {i0}
            if o:
                viol('element disturbed', where(sett), 'width %d: a store at index %d (mod 64) changes the value %s reads at index %d' % (d, min(o), rd.src, i0))
                break
        count('readers x residues compared with stores')
    for (rule, loc, msg), k in c.viol.items():
        viol(rule, loc, msg)
    return d, bad, cnt, len(rds)


def is_same(q, b, off, j):
    a, i = q
    _, ab, aoff, asz = a.key
    d = sub(add(aoff, i // 8), add(off, j // 8))
    return ab == b and isinstance(d, int) and d == 0 and i % 8 == j % 8


def arr_of(st, this):
    ps = [x for sz, x in st.objs[this].cells.values() if isinstance(x, Ptr) and isinstance(x.base, int)]
    return ps[0] if len(ps) == 1 else None


def fmt(b):
    return 'v[%d]' % b[1] if isinstance(b, tuple) and b[0].key == 'v' else repr(b)


def check_bounds(viol, count, st, p, size, o, loc, d, i0, who):
    count('accesses checked against the allocation')
    if o.size is None:
        return
    over = sub(add(p.off, size), o.size)   # must be <= 0
    if st.facts.le0(sub(1, over)):
        viol('outside the allocation', loc, 'width %d, index %d (mod 64), length index+1: %s accesses %d bytes at offset %r of an allocation of %r bytes' % (
            d, i0, who, size, p.off, o.size))
    elif not st.facts.le0(over):
        count('undecided bounds')
    if st.facts.le0(add(p.off, 1)):
        viol('outside the allocation', loc, 'width %d: %s accesses offset %r' % (d, who, p.off))


def pick(mod, base):
    fs = [f for f in mod.by_base(base) if not f.decl]
    if not fs:
        raise AnalysisError('anchor vanished: ' + base)
    return sorted(fs, key=lambda f: 'C1' in f.name)[0]


def run(tier):
    r = Result("The constructor, set_value and every reader of packed data (get_value and each file-local reader of the "
               "suffix sorters, found by its signature) are analysed over a bit-provenance domain: the old memory content and the "
               "stored value are symbolic bits, the element width is each of 1..64, the index is i0+64K for each residue i0 "
               "and symbolic K, the length is index+slack (slack 1; thorough: 1, 2, 33). Obligations: the value read is the value stored, bit for "
               "bit; the memory bits changed by a store at one index are disjoint from the bits another index owns or reads; each "
               "access lies inside the allocation of the constructor. An obligation that the domain cannot decide is counted, not reported.",
               ["index * width < 2^63", "the value stored fits the width"])
    nm = load(noinline=True)
    names = set(f.base for f in readers(nm))
    keep = sorted(names | {CTOR, SET, GET})
    load(keep)
    for b in (SET, GET, CTOR):
        pick(load(keep), b)
    with Pool(8) as pool:
        out = pool.map(one_width, [(d, tier, keep) for d in range(1, 65)], chunksize=2)
    nr = 0
    for d, bad, cnt, k in out:
        nr = k
        r.count('widths')
        for k2, n in cnt.items():
            r.count(k2, n)
        for b in bad:
            r.bad(*b)
    r.coverage['file-local readers'] = nr
    r.coverage['undecided bits'] = r.coverage.get('undecided bits', 0)
    if r.coverage.get('bits compared', 0) + r.coverage.get('undecided reads', 0) < 64 * 64:
        raise AnalysisError('C10: nothing analysed')
    return r
