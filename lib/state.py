"""Abstract state: environment, heap, facts, event list."""
from terms import *
import itertools

_vers = itertools.count(1)


class Facts:
    __slots__ = ('s', 'cache')

    def __init__(self, s=()):
        self.s = dict.fromkeys(s) if not isinstance(s, dict) else s
        self.cache = {}

    def plus(self, *cs):
        n = dict(self.s)
        for c in cs:
            n[c] = None
        return Facts(n)

    def _les(self):
        r = self.cache.get('les')
        if r is None:
            r = []
            for c in self.s:
                if c.k == 'le':
                    r.append(c.x)
                elif c.k == 'eq':
                    r.append(c.x)
                    r.append(scale(c.x, -1))
            self.cache['les'] = r
        return r

    def le0(self, x, depth=3):
        """is x<=0 entailed"""
        if isinstance(x, int):
            return x <= 0
        hi = bounds(x)[1]
        if hi is not None and hi <= 0:
            return True
        if depth == 0:
            return False
        atoms = set(a for a, k in x.t)
        for f in self._les():
            if isinstance(f, int):
                continue
            # only facts that cancel something
            ok = False
            for a, k in f.t:
                if a in atoms:
                    for b, j in x.t:
                        if b is a and (j > 0) == (k > 0):
                            ok = True
            if not ok:
                continue
            if self.le0(sub(x, f), depth - 1):
                return True
        return False

    def decide(self, c):
        """1, 0 or None"""
        if isinstance(c, int):
            return c & 1
        r = self.cache.get(c, 2)
        if r != 2:
            return r
        r = self._decide(c)
        self.cache[c] = r
        return r

    def _decide(self, c):
        if c in self.s:
            return 1
        n = c.neg()
        if n in self.s:
            return 0
        if c.k == 'le':
            if self.le0(c.x):
                return 1
            if self.le0(sub(1, c.x)):
                return 0
            # x<=0 and x!=0 ...
            for f in self.s:
                if f.k == 'ne':
                    # c: x<=0.  known x<=1... and x!=1
                    d = sub(c.x, f.x)
                    if isinstance(d, int) and d == 1 and self.le0(sub(c.x, 1)):
                        return 1
                    d = add(c.x, f.x)
                    if isinstance(d, int) and d == 1 and self.le0(sub(c.x, 1)):
                        return 1
                    d = sub(c.x, f.x)
                    if isinstance(d, int) and d == 0 and self.le0(scale(c.x, -1)):
                        return 0
                    d = add(c.x, f.x)
                    if isinstance(d, int) and d == 0 and self.le0(scale(c.x, -1)):
                        return 0
            return None
        if c.k in ('eq', 'ne'):
            p, q = self.le0(c.x), self.le0(scale(c.x, -1))
            if p and q:
                return 1 if c.k == 'eq' else 0
            if self.le0(add(c.x, 1)) or self.le0(add(scale(c.x, -1), 1)):
                return 0 if c.k == 'eq' else 1
            return None
        return None

    def consistent_with(self, c):
        return self.decide(c) != 0


class Obj:
    __slots__ = ('kind', 'size', 'alive', 'site', 'cells', 'summ', 'fills', 'name', 'ext', 'ro', 'written')

    def __init__(self, kind, size, site, name, ext=False):
        self.kind, self.size, self.site, self.name, self.ext = kind, size, site, name, ext
        self.alive = True
        self.cells = {}
        self.summ = frozenset()
        self.fills = ()
        self.ro = False
        self.written = False

    def copy(self):
        o = Obj.__new__(Obj)
        for s in Obj.__slots__:
            setattr(o, s, getattr(self, s))
        o.cells = dict(self.cells)
        return o


class Ev:
    """persistent event list"""
    __slots__ = ('prev', 'e', 'n')

    def __init__(self, prev, e):
        self.prev, self.e = prev, e
        self.n = (prev.n if prev else 0) + 1

    @staticmethod
    def tolist(ev):
        r = []
        while ev is not None:
            r.append(ev.e)
            ev = ev.prev
        r.reverse()
        return r


class State:
    __slots__ = ('env', 'objs', 'owned', 'facts', 'ev', 'lost', 'x')

    def __init__(self):
        self.env = {}
        self.objs = {}      # id -> Obj; shared between states, copied on write
        self.owned = set()  # ids whose Obj this state may mutate
        self.facts = Facts()
        self.ev = None
        self.lost = frozenset()
        self.x = {}         # client data (immutable values)

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.objs = dict(self.objs)
        s.owned = set()
        self.owned = set()
        s.facts = self.facts
        s.ev = self.ev
        s.lost = self.lost
        s.x = dict(self.x)
        return s

    def event(self, *e):
        self.ev = Ev(self.ev, e)

    def events(self):
        return Ev.tolist(self.ev)

    def obj(self, b):
        return self.objs.get(b)

    def wobj(self, b):
        o = self.objs[b]
        if b not in self.owned:
            o = o.copy()
            self.objs[b] = o
            self.owned.add(b)
        return o

    def new_obj(self, kind, size, site, name, ext=False, key=None):
        b = key if key is not None else next(_vers)
        self.objs[b] = Obj(kind, size, site, name, ext)
        self.owned.add(b)
        return b

    def decide(self, c):
        return self.facts.decide(c)

    def assume(self, c):
        """adds c; False if it contradicts the facts"""
        if isinstance(c, int):
            return bool(c & 1)
        r = self.facts.decide(c)
        if r == 0:
            return False
        if r is None or c not in self.facts.s:
            if c.k == 'ne' and not isinstance(c.x, int):
                # at the end of its range a value different from the end lies before it
                if self.facts.le0(c.x, 2):
                    self.facts = self.facts.plus(c, mk_le(add(c.x, 1)))
                    return True
                if self.facts.le0(scale(c.x, -1), 2):
                    self.facts = self.facts.plus(c, mk_le(add(scale(c.x, -1), 1)))
                    return True
            self.facts = self.facts.plus(c)
        return True

    def nonneg(self, x):
        if isinstance(x, int):
            return x >= 0
        return self.facts.le0(scale(x, -1))
