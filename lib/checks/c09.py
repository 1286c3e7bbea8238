"""C09: split integers.  Bit-provenance dataflow through set_Wbit_value followed by get_Wbit_value."""
from front import load, AnalysisError, P_D
from terms import *
from state import State
from interp import Interp, Client, width
from result import Result

W = (40, 48, 56)


class C(Client):
    def __init__(self):
        super().__init__()
        self.writes = []

    def access(self, ip, st, ins, p, size, write, val=None):
        if write:
            self.writes.append((p, size, ip.fn.loc(ins)))


def run(tier):
    r = Result("For each width W the store accessor and then the load accessor are analysed over a bit-provenance "
               "domain: the stored value is 64 symbolic bits v[0..W-1] with every bit above W-1 equal to v[W-1] (every value "
               "that fits), the element index is a symbol, the streams are distinct memory with unknown content. "
               "The obligations are: each of the 64 bits of the value read back is the bit stored; every byte the store "
               "writes lies inside the addressed element of one stream (so no other element changes). "
               "The index is symbolic.",
               ["the streams do not overlap", "pointers are aligned to their type"])
    mod2 = load(keep=['flbwt::%s_%dbit_value' % (o, w) for w in W for o in ('set', 'get')])
    for w in W:
        s, g = mod2.one('flbwt::set_%dbit_value' % w), mod2.one('flbwt::get_%dbit_value' % w)
        ns = sum(t == 'ptr' for t in s.argty)
        if s.argty[:ns] != ['ptr'] * ns or len(s.args) != ns + 2 or g.argty[:ns] != ['ptr'] * ns or len(g.args) != ns + 1:
            raise AnalysisError('unexpected signature of the %d-bit accessors' % w)
        for idx in [None]:
            reset()
            c = C()
            ip = Interp(mod2, c)
            st = State()
            v = fresh('v', 64, bits=True)
            val = BV(tuple((v, min(i, w - 1)) for i in range(64)))
            ix = lin(atom('index', name='index'))
            bases = []
            for k in range(ns):
                b = st.new_obj('ext', None, None, 'stream%d' % k, True, key=('stream', k))
                bases.append(Ptr(b, 0))
            for f in (s, g):
                if width(f.argty[ns]) != 64:
                    r.bad('index truncated', '%s:%d in %s' % (f.file.split('/repo/')[-1], f.line, f.src),
                          '%s takes a %s index: elements beyond its range cannot be addressed' % (f.src, f.argty[ns]))
            vw, rw = width(s.argty[ns + 1]), width(g.ret)
            val0 = val
            if vw < 64:
                val = frombits(list(val.b[:vw]))
            st.env.update(zip(s.args, bases + [ix, val]))
            outs = ip.run(s, st)
            es = {}
            for kind, s1, rv, loc in outs:
                r.count('paths of store accessors')
                if kind != 'ret':
                    r.bad('store throws', loc, 'set_%dbit_value can throw' % w)
                    continue
                for k, (p, size, l) in enumerate(c.writes):
                    r.count('store footprints checked')
                    ia = ix.t[0][0]
                    es = dict(p.off.t).get(ia, 0) if isinstance(p.off, Lin) else 0
                    d = sub(p.off, scale(ix, es))
                    if not isinstance(d, int) and 'tr' in [a.key[1][:2] for a, _ in d.t if isinstance(a.key, tuple) and a.key[0] == 'op']:
                        r.bad('index truncated', l, 'set_%dbit_value addresses element %r: high bits of the index are lost' % (w, p))
                    elif not isinstance(d, int):
                        r.count('undecided store footprints')
                    elif not (0 <= d and d + size <= es):
                        r.bad('store outside the element', l, 'set_%dbit_value writes %d bytes at %r of a stream for element `index`' % (w, size, p))
                s1.env = dict(zip(g.args, bases + [ix]))
                for kind2, s2, rv2, loc2 in ip.run(g, s1):
                    r.count('paths of load accessors')
                    if kind2 != 'ret':
                        r.bad('load throws', loc2, 'get_%dbit_value can throw' % w)
                        continue
                    got = tobits(rv2, rw) if isinstance(rv2, (int, Lin, BV)) else None
                    if got is not None and rw < 64:
                        got = got + [got[-1]] * (64 - rw)
                    if got is None:
                        raise AnalysisError('C09: no bit-level form of the value of get_%dbit_value: %r' % (w, rv2))
                    want = list(val0.b)
                    r.count('bits compared', 64)
                    if None in got and all(x == y or x is None for x, y in zip(got, want)):
                        r.count('undecided bits', got.count(None))
                        continue
                    bad = [i for i in range(64) if got[i] != want[i] and got[i] is not None]
                    if bad:
                        r.bad('round trip', '%s:%d in %s' % (g.file.split('/repo/')[-1], g.line, g.src),
                              'width %d: bit %d of the value read is %s, stored was v[%d]; value read: %r' % (
                                  w, bad[0], got[bad[0]] if not isinstance(got[bad[0]], tuple) else 'v[%d]' % got[bad[0]][1], want[bad[0]][1], rv2))
        r.count('accessor pairs')
    r.coverage['widths'] = ','.join(map(str, W))
    if r.coverage['accessor pairs'] < 3 or r.coverage.get('bits compared', 0) < 192:
        raise AnalysisError('C09: nothing analysed')
    return r
