"""Quantities that grow with the input: an interprocedural dataflow over the whole-program IR.

big     values of 64 bits that are lengths, positions, counts or sizes without a constant bound
narrow  values of fewer bits that carry such a quantity: cut from one, or counted once per step of a loop
        (or per call of a method) whose number of steps has no constant bound"""
import re
from front import load, operands, fmtloc, REPO, AnalysisError

GROWS = ('ftell', 'ftello', 'ftello64', 'fread', 'strlen', 'lseek', 'lseek64')


def bits(ty):
    return int(ty[1:]) if ty[:1] == 'i' and ty[1:].isdigit() else None


def const(o):
    if o[0] == 'c':
        w = int(o[2])
        v = int(o[1])
        return v - (1 << w) if w > 1 and v >> (w - 1) else v
    return 0 if o[0] == 'zero' else None


def typename(s):
    m = re.match(r'%"?((?:class|struct)\.[\w:.<>, *]+)', s)
    return m.group(1).strip() if m else s


def classes(m):
    if not hasattr(m, '_classes'):
        m._classes = {typename(i['srcty']) for f in m.defs() for b in f.blocks.values() for i in b if i['op'] == 'getelementptr'}
    return m._classes


class Fn:
    def __init__(self, f):
        self.f = f
        self.d, self.uses, self.block = {}, {}, {}
        for b, l in f.blocks.items():
            for i in l:
                if i['op'] == 'dbg':
                    continue
                if 'id' in i:
                    self.d[i['id']] = i
                    self.block[i['id']] = b
                for o in operands(i):
                    if o[0] == 'v':
                        self.uses.setdefault(o[1], []).append(i)
        self.ctor = False
        p = f.base.split('::')
        self.ctor = len(p) > 1 and p[-1].lstrip('~') == p[-2]
        self.cls = '::'.join(p[:-1]) if len(p) > 1 and 'class.' + '::'.join(p[:-1]) in classes(f.mod) else None

    def get(self, o):
        return self.d.get(o[1]) if o[0] == 'v' else None

    def key(self, o, depth=0):
        """(class, offset) of the member an address belongs to"""
        if o[0] != 'v' or depth > 6:
            return None
        i = self.d.get(o[1])
        if i is None:
            if o[1] in self.f.args and list(self.f.args).index(o[1]) == 0 and self.cls:
                return ('class.' + self.cls, 0)
            return None
        if i['op'] == 'getelementptr':
            t = typename(i['srcty'])
            if t.startswith(('class.', 'struct.')):
                return (t, int(i['off'])) if not i['idx'] or i.get('sel') else None
            if t.startswith('[') or not i['idx'] and int(i['off']) == 0:
                return self.key(i['base'], depth + 1)
            b = self.get(i['base'])
            if b is not None and b['op'] == 'getelementptr':
                return self.key(i['base'], depth + 1)
        return None

    def element(self, o):
        """is it the address of an element of an array of the heap"""
        i = self.get(o)
        if i is None or i['op'] != 'getelementptr' or not i['idx']:
            return False
        b = self.get(i['base'])
        return i['base'][0] == 'v' and not (b is not None and b['op'] == 'alloca')

    def byte(self, o):
        i = self.get(o)
        while i is not None and i['op'] in ('zext', 'sext'):
            i = self.get(i['ops'][0])
        return i is not None and i['op'] == 'load' and bits(i['ty']) in (8, 16)

    def piece(self, o):
        """the upper part of a quantity that is put together"""
        i = self.get(o)
        return i is not None and i['op'] in ('shl', 'mul') and bits(i['ty']) == 64 and const(i['ops'][1]) != 0 and self.byte(i['ops'][0])

    def assembled(self, ph, loop):
        """is the phi put together from bytes, one per step of the loop"""
        def walk(o, n):
            i = self.get(o)
            if n > 8 or i is None or self.block[o[1]] not in loop:
                return False
            if i['op'] in ('shl', 'mul'):
                c = const(i['ops'][1])
                return c is not None and (c >= 7 if i['op'] == 'shl' else c in (128, 256)) and self.only(i['ops'][0], ph)
            if i['op'] in ('or', 'add', 'xor'):
                a, b = i['ops']
                if self.byte(b) or self.byte(a):
                    return walk(a, n + 1) or walk(b, n + 1)
                for x, y in ((a, b), (b, a)):
                    j = self.get(y)
                    if self.only(x, ph) and j is not None and j['op'] in ('shl', 'mul') and self.byte(j['ops'][0]):
                        return True
                return False
            if i['op'] in ('trunc', 'zext', 'sext'):
                return walk(i['ops'][0], n + 1)
            return False
        return any(walk(x, 0) for x, b in ph['ops'] if b in loop)

    def only(self, o, ph):
        i = self.get(o)
        while i is not None and i['op'] in ('trunc', 'zext', 'sext', 'freeze'):
            i = self.get(i['ops'][0])
        return i is ph

    # ---- pointers

    def roots(self, o, a, seen):
        """where a pointer comes from through steps of constant size; None: a step of a size that grows"""
        if o[0] != 'v':
            return {tuple(map(str, o))}
        if o[1] in seen:
            return set()
        seen.add(o[1])
        i = self.d.get(o[1])
        if i is None:
            return {o[1]}
        if i['op'] == 'getelementptr':
            if any(a.isbig(self, x) for x, _ in i['idx']):
                return None
            return self.roots(i['base'], a, seen)
        if i['op'] in ('phi', 'select'):
            r = set()
            for x in operands(i)[(1 if i['op'] == 'select' else 0):]:
                s = self.roots(x, a, seen)
                if s is None:
                    return None
                r |= s
            return r
        return {o[1]}

    def source(self, o):
        i = self.get(o)
        return i['ops'][0] if i is not None and i['op'] == 'ptrtoint' else None

    # ---- counters

    def counter(self, ph, loop):
        """is the phi only changed by constant steps inside the loop"""
        steps = [0]

        def walk(o, seen):
            if o[0] != 'v':
                return False
            if o[1] == ph['id'] or o[1] in seen:
                return True
            seen.add(o[1])
            i = self.d.get(o[1])
            if i is None or self.block[o[1]] not in loop:
                return False
            if i['op'] in ('add', 'sub'):
                if const(i['ops'][1]) is not None:
                    steps[0] += 1
                    return walk(i['ops'][0], seen)
                j = self.get(i['ops'][1])
                if j is not None and j['op'] == 'zext' and j.get('fty') == 'i1':
                    steps[0] += 1
                    return walk(i['ops'][0], seen)
                return False
            if i['op'] == 'getelementptr':
                if i['idx']:
                    return False
                steps[0] += 1
                return walk(i['base'], seen)
            if i['op'] == 'phi':
                return all(walk(x, seen) for x in operands(i))
            if i['op'] == 'select':
                return walk(i['ops'][1], seen) and walk(i['ops'][2], seen)
            if i['op'] in ('trunc', 'zext', 'sext', 'freeze'):
                return walk(i['ops'][0], seen)
            return False
        ins = [x for x, b in ph['ops'] if b in loop]
        return bool(ins) and all(walk(x, set()) for x in ins) and steps[0] > 0

    def base(self, o, loop):
        """the header phi a compared value is derived from"""
        for _ in range(6):
            i = self.get(o)
            if i is None:
                return None
            if i['op'] == 'phi':
                return i
            if i['op'] in ('zext', 'sext', 'trunc', 'freeze') or i['op'] in ('add', 'sub') and const(i['ops'][1]) is not None:
                o = i['ops'][0]
            elif i['op'] == 'getelementptr' and not i['idx']:
                o = i['base']
            else:
                return None
        return None


class Analysis:
    def __init__(self):
        self.m = load([], noinline=True)
        own = {f.name: f for f in self.m.defs() if f.file.startswith(REPO)}
        sorter = lambda f: f.base.split('::')[-1].startswith('sais_')
        calls = {n: {i.get('callee') for b in f.blocks.values() for i in b if i.get('callee') in own} | {
            o[1] for b in f.blocks.values() for i in b for o in operands(i) if o[0] == 'f' and o[1] in own} for n, f in own.items()}
        # functions that only the sorters use are left out
        called = set().union(*calls.values())
        todo, seen = [n for n in own if n not in called and not sorter(own[n])], set()
        while todo:
            n = todo.pop()
            if n not in seen and not sorter(own[n]):
                seen.add(n)
                todo += calls[n]
        self.fns = {n: Fn(own[n]) for n in own if n in seen}
        self.big = set()
        self.bigfield = set()
        self.narrow = {}        # (function, id) -> (bits, how, location)
        self.nfield = {}
        self.bigret, self.nret = set(), {}
        self.longs = {}
        self.found = []
        self.counts = {}
        self.solve()

    def isbig(self, fn, o):
        return o[0] == 'v' and (fn.f.name, o[1]) in self.big

    def isnarrow(self, fn, o):
        return self.narrow.get((fn.f.name, o[1])) if o[0] == 'v' else None

    def add(self, fn, i):
        k = (fn.f.name, i if isinstance(i, (int, str)) else i['id'])
        if k not in self.big:
            self.big.add(k)
            self.ch = True

    def addn(self, fn, i, what):
        k = (fn.f.name, i if isinstance(i, (int, str)) else i['id'])
        if k not in self.narrow and what:
            self.narrow[k] = what
            self.ch = True

    def solve(self):
        n = 0
        e = [x for x in self.fns.values() if x.f.base == 'flbwt::bwt_string']
        if not e:
            raise AnalysisError('anchor vanished: flbwt::bwt_string')
        self.ch = False
        for fn in e:
            for a, t in zip(fn.f.args, fn.f.argty):
                if t == 'i64':
                    self.add(fn, a)
                    n += 1
        if not n:
            raise AnalysisError('flbwt::bwt_string has no length')
        self.ch = True
        while self.ch:
            self.ch = False
            for fn in self.fns.values():
                self.loops(fn)
                for i in fn.d.values():
                    self.step(fn, i)
                for b in fn.f.blocks.values():
                    for i in b:
                        if i['op'] in ('store', 'ret') and 'id' not in i:
                            self.step(fn, i)
            self.members()

    def bounded(self, fn, i):
        """the smaller of a value and a constant"""
        return any((const(o) or 0) >= 255 for o in operands(i)[(1 if i['op'] == 'select' else 0):])

    def step(self, fn, i):
        op, ops = i['op'], i.get('ops', [])
        ty = i.get('ty', '')
        w = bits(ty)
        B = lambda o: self.isbig(fn, o)
        N = lambda o: self.isnarrow(fn, o)
        if op == 'store':
            k = fn.key(ops[1])
            if k:
                if B(ops[0]) and k not in self.bigfield:
                    self.bigfield.add(k)
                    self.ch = True
                if N(ops[0]) and k not in self.nfield:
                    self.nfield[k] = N(ops[0])
                    self.ch = True
            return
        if op == 'ret':
            if ops and B(ops[0]) and fn.f.name not in self.bigret:
                self.bigret.add(fn.f.name)
                self.ch = True
            if ops and N(ops[0]) and fn.f.name not in self.nret:
                self.nret[fn.f.name] = N(ops[0])
                self.ch = True
            return
        if op in ('call', 'invoke'):
            c = i.get('callee') or ''
            t = self.fns.get(c)
            if t is not None:
                for o, a in zip(ops, t.f.args):
                    if B(o):
                        self.add(t, a)
                    if N(o):
                        self.addn(t, a, N(o))
                if c in self.bigret:
                    self.add(fn, i)
                if c in self.nret:
                    self.addn(fn, i, self.nret[c])
            elif c in GROWS:
                self.add(fn, i)
            elif c.startswith(('llvm.umin', 'llvm.smin')):
                if any(B(o) for o in ops) and not any(const(o) is not None for o in ops):
                    self.add(fn, i)
            elif c.startswith(('llvm.umax', 'llvm.smax')):
                if any(B(o) for o in ops):
                    self.add(fn, i)
            return
        if w is None or w == 1:
            return
        if op == 'load':
            k = fn.key(ops[0])
            if k and w == 64 and k in self.bigfield:
                self.add(fn, i)
            if k and w < 64 and k in self.nfield:
                self.addn(fn, i, self.nfield[k])
            if w >= 32 and not k and fn.element(ops[0]):
                self.add(fn, i)
        elif op == 'trunc':
            if B(ops[0]):
                self.addn(fn, i, (w, 'cut', fn.f.loc(i)))
            elif N(ops[0]):
                self.addn(fn, i, N(ops[0]))
        elif op == 'sub' and fn.source(ops[0]) and fn.source(ops[1]):
            a, b = (fn.roots(fn.source(x), self, set()) for x in ops)
            if a is None or b is None or not a & b:
                self.add(fn, i)
        elif op in ('add', 'sub', 'mul', 'or', 'xor', 'freeze'):
            if w == 64 and op in ('or', 'add') and any(fn.piece(o) for o in ops):
                self.add(fn, i)
            if any(B(o) for o in ops):
                self.add(fn, i)
            n = next((N(o) for o in ops if N(o)), None)
            if n:
                self.addn(fn, i, n)
        elif op in ('select', 'phi'):
            os = operands(i)[(1 if op == 'select' else 0):]
            if not self.bounded(fn, i):
                if any(B(o) for o in os):
                    self.add(fn, i)
            n = next((N(o) for o in os if N(o)), None)
            if n:
                self.addn(fn, i, n)
        elif op in ('zext', 'sext'):
            if B(ops[0]):
                self.add(fn, i)
            if w < 64 and N(ops[0]):
                self.addn(fn, i, N(ops[0]))
        elif op == 'and':
            if any(const(o) is not None for o in ops):
                c = next(const(o) for o in ops if const(o) is not None)
                if c >> 40 == 0:
                    return
            if any(B(o) for o in ops):
                self.add(fn, i)
        elif op in ('lshr', 'ashr', 'shl'):
            c = const(ops[1])
            if c is None:
                if B(ops[0]):
                    self.add(fn, i)
                return
            if c is not None and c <= (8 if op == 'shl' else 7):
                if B(ops[0]):
                    self.add(fn, i)
                elif N(ops[0]):
                    self.addn(fn, i, N(ops[0]))
        elif op in ('udiv', 'sdiv'):
            c = const(ops[1])
            if c is not None and 0 < c <= 1024:
                if B(ops[0]):
                    self.add(fn, i)
                elif N(ops[0]):
                    self.addn(fn, i, N(ops[0]))
        elif op in ('urem', 'srem'):
            if B(ops[1]):
                self.add(fn, i)

    def loops(self, fn):
        for l in fn.f.loops.values():
            h, bs = l['header'], set(l['blocks'])
            for i in fn.f.blocks[h]:
                if i['op'] == 'phi' and (bits(i['ty']) or 1) > 1 and fn.assembled(i, bs):
                    if bits(i['ty']) == 64:
                        self.add(fn, i)
                    else:
                        self.addn(fn, i, (bits(i['ty']), 'assembled', self.near(fn, i)))
            if (fn.f.name, h) not in self.longs:
                x = self.islong(fn, h, bs)
                if not x:
                    continue
                self.longs[(fn.f.name, h)] = bs
                self.ch = True
                # values counted per step
                for i in fn.f.blocks[h]:
                    if i['op'] != 'phi':
                        continue
                    w = bits(i['ty'])
                    if w and w > 1 and fn.counter(i, bs):
                        if w == 64:
                            self.add(fn, i)
                        else:
                            self.addn(fn, i, (w, 'counted', fn.f.loc(i) if i.get('loc') else self.near(fn, i)))
                # members counted per step
                for k, i in self.member_counters(fn, bs):
                    if k not in self.nfield and i['size'] < 8:
                        self.nfield[k] = (8 * i['size'], 'counted', fn.f.loc(i))
                    elif i['size'] == 8:
                        self.bigfield.add(k)

    def near(self, fn, ph):
        for u in fn.uses.get(ph['id'], []):
            if u.get('loc'):
                return fn.f.loc(u)
        return fn.f.loc(ph)

    def islong(self, fn, h, bs):
        for b in bs:
            for i in fn.f.blocks[b]:
                if i['op'] != 'br' or len(i.get('succ', ())) != 2 or all(s in bs for s in i['succ']):
                    continue
                c = fn.get(i['ops'][0])
                if c is None or c['op'] != 'icmp':
                    continue
                for x, y in (c['ops'], c['ops'][::-1]):
                    ph = fn.base(x, bs)
                    if ph is None or fn.block[ph['id']] != h or not fn.counter(ph, bs):
                        continue
                    inits = [o for o, p in ph['ops'] if p not in bs]
                    if any(self.isbig(fn, o) for o in inits):
                        return True
                    if self.isbig(fn, y) or self.isnarrow(fn, y):
                        j = fn.get(y)
                        if j is None or fn.block[j['id']] not in bs or j['op'] in ('load', 'add', 'sub', 'call', 'zext', 'sext'):
                            return True
                    j = fn.get(y)
                    if j is not None and j['op'] in ('zext', 'sext') and self.isnarrow(fn, j['ops'][0]):
                        return True
        return False

    def member_counters(self, fn, bs):
        """members that are stored in these blocks only as themselves plus a constant"""
        st = {}
        for b in bs:
            for i in fn.f.blocks[b]:
                if i['op'] == 'store':
                    k = fn.key(i['ops'][1])
                    if k:
                        st.setdefault(k, []).append(i)
        r = []
        for k, l in st.items():
            if all(self.increment(fn, i, k) for i in l):
                r.append((k, l[0]))
        return r

    @staticmethod
    def increment(fn, i, k):
        v = fn.get(i['ops'][0])
        if v is not None and v['op'] == 'trunc':
            v = fn.get(v['ops'][0])
        if v is None or v['op'] not in ('add', 'sub') or const(v['ops'][1]) is None:
            return False
        x = fn.get(v['ops'][0])
        while x is not None and x['op'] in ('zext', 'sext', 'freeze'):
            x = fn.get(x['ops'][0])
        return x is not None and x['op'] == 'load' and fn.key(x['ops'][0]) == k

    def members(self):
        """members of a class that its methods only count up and down"""
        st, ok = {}, {}
        for fn in self.fns.values():
            for b in fn.f.blocks.values():
                for i in b:
                    if i['op'] != 'store':
                        continue
                    k = fn.key(i['ops'][1])
                    if not k or fn.ctor and const(i['ops'][0]) == 0:
                        continue
                    g = self.get_step(fn, i, k)
                    st.setdefault(k, []).append((fn, i, g))
        for k, l in st.items():
            # counted by every operation: no array, no other value ever stored
            if all(g for _, _, g in l) and k not in self.nfield and k not in self.bigfield:
                fn, i, _ = l[0]
                if i['size'] == 8:
                    self.bigfield.add(k)
                    self.ch = True
                else:
                    self.nfield[k] = (8 * i['size'], 'counted', fn.f.loc(i))
                    self.ch = True

    def get_step(self, fn, i, k):
        return self.increment(fn, i, k)

    # ---- obligations

    def judge(self, r):
        r.count('functions analysed', len(self.fns))
        r.count('values that grow', len(self.big))
        r.count('members that grow', len(self.bigfield))
        r.count('loops without a constant bound', len(self.longs))
        r.count('narrow values followed', len(self.narrow))
        for fn in self.fns.values():
            for i in fn.d.values():
                if i['op'] in ('trunc', 'zext', 'sext') and bits(i['ty']) and bits(i['ty']) > 1:
                    r.count('conversions judged')
        done = set()

        def bad(fn, i, what, how):
            w, kind, loc = what
            if loc in done:
                return
            done.add(loc)
            r.bad('quantity cut', loc, ('a quantity that grows with the input is cut to %d bits' if kind == 'cut' else
                  'a quantity is put together from bytes in %d bits' if kind == 'assembled' else
                  'something that is counted without a constant bound is counted in %d bits') % w + ' and then %s (%s)' % (how, fn.f.loc(i)))
        for fn in self.fns.values():
            for (name, vid), what in self.narrow.items():
                if name != fn.f.name:
                    continue
                for u in fn.uses.get(vid, []):
                    if u['op'] in ('zext', 'sext') and bits(u['ty']) == 64:
                        for v in fn.uses.get(u['id'], []):
                            how = {'getelementptr': 'used as a subscript', 'add': 'calculated with', 'sub': 'calculated with', 'mul': 'calculated with',
                                   'icmp': 'compared', 'ret': 'returned', 'phi': 'used', 'select': 'used', 'call': 'passed on', 'invoke': 'passed on',
                                   'inttoptr': 'used as an address'}.get(v['op'])
                            if v['op'] == 'store' and fn.key(v['ops'][1]):
                                how = 'stored'
                            if how:
                                bad(fn, v, what, how)
                    if u['op'] in ('zext', 'sext'):
                        for v in fn.uses.get(u['id'], []):
                            if v['op'] == 'store' and v['ops'][0][0] == 'v' and v['ops'][0][1] == u['id']:
                                bad(fn, v, what, 'stored')
                    elif u['op'] == 'icmp':
                        o = [x for x in u['ops'] if not (x[0] == 'v' and x[1] == vid)]
                        if what[0] >= 16 or o and self.isnarrow(fn, o[0]):
                            bad(fn, u, what, 'compared')
                    elif u['op'] == 'getelementptr':
                        bad(fn, u, what, 'used as a subscript')
