"""Abstract executions of the part of the transform that chooses an integer width, calls the suffix sorter, turns its
result into positions and calls the inducing step."""
from front import load, AnalysisError, field, layout
from terms import *
from state import *
from interp import Interp, Client, Dead, Budget
import transform
import re

W = transform.W
# bytes, shift, of the parts of an integer
PARTS = {32: ((4, 0),), 40: ((4, 0), (1, 32)), 48: ((4, 0), (2, 32)), 56: ((4, 0), (2, 32), (1, 48)), 64: ((8, 0),)}
TOP = ['flbwt::bwt_string', 'flbwt::extract_LMS_strings', 'flbwt::sort_LMS_strings', 'flbwt::create_shortened_string']
KEEP = TOP + transform.KEEP[1:] + ['flbwt::PackedArray::~PackedArray', 'flbwt::Container::~Container', 'flbwt::HashTable::~HashTable']
F = 'flbwt::Container'
P = 'flbwt::PackedArray'
BITS = 7


def value(st, arrays, i, w):
    """integer number i of the arrays; None: not known"""
    v = 0
    parts = PARTS[w]
    for (size, shift), p in zip(parts, arrays):
        o = st.objs.get(p.base) if isinstance(p, Ptr) else None
        c = o.cells.get(add(p.off, i * size)) if o is not None else None
        if c is None or c[0] != size or not isinstance(c[1], int):
            return None
        v |= (c[1] & (1 << 8 * size) - 1) << shift
    bits = sum(s for s, _ in parts) * 8
    return v - (1 << bits) if v >> bits - 1 else v


def store(st, arrays, i, w, v):
    for (size, shift), p in zip(PARTS[w], arrays):
        st.wobj(p.base).cells[add(p.off, i * size)] = (size, v >> shift & (1 << 8 * size) - 1)


class ArmClient(Client):
    unroll_limit = 4000
    max_steps = 200000
    separate = True
    separate_limit = 4000
    keep_facts = True

    def __init__(self, V, N, U, whole=None, free=False):
        Client.__init__(self)
        self.V, self.N, self.U, self.whole = V, N, U, whole
        self.sorted = []        # (width, arrays, other arguments, loc, sizes)
        self.induced = []       # (width, arrays, values, loc)
        self.bad = []

    def access(self, ip, st, ins, p, size, write, val=None):
        o = st.objs.get(p.base)
        if o is not None and o.kind in ('malloc', 'new', 'new[]') and not o.ext and isinstance(o.size, int) and isinstance(p.off, int) and isinstance(size, int):
            if p.off < 0 or p.off + size > o.size:
                self.bad.append(('outside the array', ip.fn.loc(ins), 'byte %d of an array of %d bytes (allocated at %s) is %s' % (
                    p.off + size - 1, o.size, o.site, 'written' if write else 'read')))
                raise Dead()

    def call(self, ip, st, ins, name, callee, args):
        b = callee.base if callee is not None else ''
        if b == 'flbwt::extract_LMS_strings':
            return [(st, Ptr('C', 0))]
        if b == 'flbwt::sort_LMS_strings':
            return [(st, Ptr('S', 0))]
        if b == 'flbwt::create_shortened_string':
            return [(st, Ptr('P', 0))]
        if b == P + '::get_value' and isinstance(args[1], int):
            if self.whole and 0 <= args[1] <= self.N + 1:
                return [(st, (tuple(self.whole['names']) + (0,))[args[1]])]
            self.bad.append(('outside the shortened string', ip.fn.loc(ins), 'element %d of the shortened string, which has the elements 0 to %d, is read' % (args[1], self.N + 1)))
            raise Dead()
        if b == transform.TABLE[2] and self.whole and isinstance(args[1], Ptr) and args[1].base == 'buf':
            return [(st, self.whole['len'].get(args[1].off, 0))]
        if b == 'flbwt::HashTable::get_first_character_pointer' and self.whole and isinstance(args[1], Ptr) and args[1].base == 'buf':
            return [(st, Ptr('buf', args[1].off + 2))]
        m = re.match(r'flbwt::(sais|induce_bwt)_(\d+)bit$', b)
        if m:
            w = int(m.group(2))
            k = len(PARTS[w])
            ps = [i for i, t in enumerate(callee.argty) if t == 'ptr']
            if m.group(1) == 'sais':
                arr = [args[i] for i in ps[-k:]]
                rest = [args[i] for i in range(len(args)) if i not in ps[1:]]
                self.sorted.append((w, arr, rest, ip.fn.loc(ins)))
                st.event('sort', w, tuple(arr))
                if self.whole is None:
                    self.sizes = [st.objs[a.base].size if isinstance(a, Ptr) and a.base in st.objs and isinstance(a.off, int) else None for a in arr]
                    raise Dead()
                if all(isinstance(a, Ptr) and a.base in st.objs for a in arr):
                    for i, x in enumerate(self.whole['sa']):
                        store(st, arr, i, w, x)
                return [(st, None)]
            arr = [args[i] for i in ps[:k]]
            vals = [value(st, arr, i, w) for i in range(self.N + 1)]
            self.induced.append((w, arr, vals, ip.fn.loc(ins)))
            st.event('induce', w, tuple(arr))
            for a in arr:
                if isinstance(a, Ptr) and a.base in st.objs:
                    st.wobj(a.base).alive = False
            b_ = st.new_obj('malloc', 16, ip.fn.loc(ins), 'the result')
            return [(st, Ptr(b_, 0))]
        if callee is not None and not callee.decl and b.split('::')[-1].startswith('~'):
            return [(st, None)]
        return None


def module():
    return load(KEEP)


def execute(V, N, U=None, whole=None, free=False):
    """the client and the outcomes of one execution"""
    reset()
    m = module()
    f = m.one('flbwt::bwt_string')
    if len(f.args) != 3:
        raise AnalysisError('unexpected signature of flbwt::bwt_string')
    c = ArmClient(V, N, U if U is not None else min(N, 3), whole)
    st = State()
    st.new_obj('malloc', None, 'the caller', 'T', True, key='T')
    for k, size in (('C', layout(F)[''][0]), ('P', layout(P)[''][0]), ('buf', None), ('arr', None), ('H', None)):
        st.new_obj('new', size, None, k, True, key=k)
    st.new_obj('malloc', 8 * (c.U + 2), None, 'the records', False, key='S')
    o = st.wobj('C')
    L = layout(F)
    for k, v in (('num_of_substrings', N), ('num_of_unique_substrings', c.U), ('sa_max_value', V), ('hashtable', Ptr('H', 0)), ('n', 100),
                 ('bwp_base', Ptr('buf', -whole['base']) if whole else Ptr('buf', -1))):
        if k not in L:
            raise AnalysisError('anchor vanished: %s::%s' % (F, k))
        o.cells[L[k][0]] = (8, v)
    o = st.wobj('P')
    L = layout(P)
    for k, s, v in (('arr', 8, Ptr('arr', 0)), ('length', 8, N + 2), ('integer_bits', 1, BITS)):
        if k in L:
            o.cells[L[k][0]] = (s, v)
    if whole:
        o = st.wobj('S')
        for i, off in enumerate(whole['records']):
            o.cells[8 * i] = (8, Ptr('buf', off))
    st.env = dict(zip(f.args, [Ptr('T', 0), 100, 1 if free else 0]))
    if whole is None:
        c.max_steps = 3000
    ip = Interp(m, c)
    outs = ip.run(f, st)
    c.steps = ip.steps
    return c, outs


def arm(N, U, w, sa, names, lens, free=False, high=False):
    """an execution of the arm of width w with everything given; high: positions close to the largest"""
    base = (1 << w - 1) - 1000 if high and w < 64 else (1 << 62) + (1 << 61) - 300 if high else \
        {32: 1 << 20, 40: 0xa5 << 31, 48: 0xa5b7 << 31, 56: 0xa5b7c9 << 31, 64: 0xa5b7c9d << 31}[w] + 0x5a5a5a5
    rec, pos = [], 0
    ln = {}
    for n in lens:
        rec.append(pos)
        ln[pos] = n
        pos += n + 10
    V = base + pos + 10
    whole = dict(sa=sa, names=names, records=rec, base=base, len=ln)
    want = [rec[names[p]] + 2 + ln[rec[names[p]]] - 1 + base for p in sa]
    c, outs = execute(V, N, U, whole, free)
    return c, outs, want, V
