"""Abstract executions of sort_LMS_strings on tables that hold strings of fixed lengths with symbolic bytes."""
import re
from front import load, AnalysisError, field, layout, REPO
from terms import *
from state import *
from interp import Interp, Dead, Fork, Budget
import tablex
from tablex import TClient, Machine, String, byte, witness, B

F = 'flbwt::Container'
SORT = re.compile(r'(^| )std::(stable_)?sort<')


class SClient(TClient):
    # (follow: all functions with a body are followed into)
    max_forks = 5000

    def __init__(self):
        TClient.__init__(self)
        self.catch = None       # called for the sorting call

    def initial(self, ip, st, ins, p, o, size, ty):
        if not o.ext and o.kind in tablex.HEAPK and ty == 'ptr' and isinstance(p.off, int) and not any(
                isinstance(lo, int) and lo <= p.off and (hi is None or isinstance(hi, int) and p.off < hi) for lo, hi, v in o.fills):
            self.flag('memory never written', ip.fn.loc(ins), 'a pointer is read from memory nothing was written to', st)
            raise Dead()
        return TClient.initial(self, ip, st, ins, p, o, size, ty)

    def call(self, ip, st, ins, name, callee, args):
        if callee is not None and SORT.search(callee.base) and self.catch:
            return self.catch(ip, st, ins, callee, args)
        r = TClient.call(self, ip, st, ins, name, callee, args)
        if r is not None:
            return r
        if callee is None or callee.decl or not callee.blocks:
            return None
        r = ip.algorithm(st, ip.fn, ins, name, callee, args)
        if r is not None:
            return r
        return self.follow(ip, st, callee, args)

    def follow(self, ip, st, callee, args):
        env = st.env
        st2 = st.copy()
        st2.env = dict(zip(callee.args, args))
        sub_ = Interp(ip.mod, self)
        sub_.held = ip.held | frozenset(ip.reach(st, list(env.values())))
        r = []
        for k, s, v, l in sub_.run(callee, st2):
            s.env = dict(env)
            r.append((s, v if k == 'ret' else 'THROW'))
        ip.steps += sub_.steps
        return r


class Sorter(Machine):
    def __init__(self):
        self.m = load((), noinline=True)
        self.c = SClient()
        self.f = {x[len(B):]: self.m.one(x) for x in tablex.KEEP[:5]}
        self.f['sort'] = self.function()
        self.steps = 0

    def function(self):
        r = [f for f in self.m.by_base('flbwt::sort_LMS_strings') if not f.decl and f.argty == ['ptr', 'ptr'] and f.ret == 'ptr']
        if not r:
            raise AnalysisError('anchor vanished: flbwt::sort_LMS_strings')
        return r[0]

    def filled(self, n, size, strings, bucket, head, moved=True):
        """states of a table that holds the strings, with a container and a text whose beginning is given"""
        S = list(strings) + [head]
        st = self.new(n, size, S, bucket, moved)
        out = [st]
        for s in strings:
            out = [t for x in out for k, t, v, l in self.insert(x, s) if k == 'ret' and isinstance(v, int) and v & 255]
        for t in out:
            t.new_obj('new', layout(F)[''][0], None, 'the container', True, key='C')
            o = t.wobj('C')
            L = layout(F)
            for f, v in (('hashtable', Ptr('H', 0)), ('num_of_unique_substrings', len(strings)), ('num_of_substrings', len(strings) + 2), ('n', n),
                         ('head_string_end', head.m - 1)):
                if f in L:
                    o.cells[L[f][0]] = (8, v)
        return out

    def run(self, st, head):
        f = self.f['sort']
        st = st.copy()
        st.env = dict(zip(f.args, (Ptr(head.name, 0), Ptr('C', 0))))
        st.ev = None
        self.c.forks = 0
        ip = Interp(self.m, self.c)
        outs = ip.run(f, st)
        self.steps += ip.steps
        return outs

    def call(self, f, st, *args):
        """one of the functions; f: name of a table method or a function"""
        if isinstance(f, str):
            f = self.f.setdefault(f, None) or self.m.one(B + f)
        st = st.copy()
        st.env = dict(zip(f.args, args))
        st.ev = None
        self.c.forks = 0
        ip = Interp(self.m, self.c)
        outs = ip.run(f, st)
        self.steps += ip.steps
        return outs

    def comparator(self, callee):
        """the function of the repository that the sorting function calls to compare"""
        seen, todo, found = {callee.name}, [callee], []
        while todo:
            g = todo.pop()
            for l in g.blocks.values():
                for i in l:
                    h = self.m.funcs.get(i.get('callee') or '')
                    if i['op'] not in ('call', 'invoke') or h is None or h.decl or h.name in seen:
                        continue
                    seen.add(h.name)
                    if h.file.startswith(REPO):
                        if h not in found:
                            found.append(h)
                    else:
                        todo.append(h)
        return found


def ordered(st, a, b):
    """values of the bytes, consistent with the path, for which string a has to come before string b; None: there are none.
    Different strings only."""
    ex = []
    for x, y in zip(a.b, b.b):
        d = sub(x, y)
        if st.decide(mk_le(add(d, 1))) != 0:
            w = witness(st.facts, ex + [mk_le(add(d, 1))])
            if w is not None:
                return w
        e = st.decide(mk_eq(d))
        if e == 0:
            return None
        if e is None:
            ex.append(mk_eq(d))
    if a.m > b.m:
        return witness(st.facts, ex)
    return None


def concrete(name, bytes):
    return String(name, bytes)


def text(m, sym=3):
    """the beginning of a text"""
    return String('T', [byte('t%d' % i) if i < sym else 1 + i % 3 for i in range(m)])
