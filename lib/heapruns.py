"""The entries whose heap behaviour C01-C03 judge, each interpreted on its own; run in parallel processes."""
import os, re
from concurrent.futures import ProcessPoolExecutor
from front import load, AnalysisError, REPO
from terms import *
from state import *
from interp import Interp
from heap import *
import transform as tr
import summary

W = tr.W


class Out:
    """what is reported of one entry (plain data)"""

    def __init__(self, name):
        self.name = name
        self.error = None
        self.bad = []       # (rule, loc, message, object name)
        self.leaks = []     # (allocation site, exit)
        self.dangling = []  # (message, loc)
        self.exits = 0
        self.steps = 0
        self.frees = {}
        self.allocs = set()
        self.accesses = 0
        self.effect = None  # list of outcomes, for the callers
        self.tbad = []      # (rule, loc, message) about the input buffer
        self.lost = 0
        self.calls = 0
        self.maywrite = 0
        self.failed = set()
        self.after = []     # (failed allocation, exit) of normal returns

    def take(self, ip, c):
        self.steps += ip.steps
        for (rule, loc), (msg, o) in c.bad.items():
            self.bad.append((rule, loc, msg, o.name if o is not None else ''))
        self.failed |= c.failed
        for k, v in c.frees.items():
            self.frees[k] = self.frees.get(k, 0) + v
        self.allocs |= c.allocs
        self.accesses += c.accesses
        self.calls += c.stats.get('calls of functions not looked into', 0)


def site(o):
    return (o.site or o.name or '').replace(' ', ' ')


def leaks(out, ip, s, roots, loc, skip=()):
    if s.x.get('oom'):
        out.after.append((s.x['oom'], loc))
    for b, o in live_blocks(ip, s, roots):
        if b not in skip:
            out.leaks.append((site(o), loc))
    # blocks that no live variable and no reachable block referred to when states were merged
    for k, x in sorted(s.lost, key=repr):
        out.leaks.append((x or k, loc))
    out.lost += len(s.lost)


def dangling(out, ip, s, roots, loc, who):
    """a released block that the entry leaves reachable"""
    for b in ip.reach(s, roots):
        o = s.objs.get(b)
        if o is not None and o.kind in HEAPK and not o.alive and not o.ext:
            out.dangling.append(('%s still refers to memory allocated at %s, which was released' % (who, site(o)), loc))


# ---------------------------------------------------------------- effects of functions on their pointer arguments
def array_params(f):
    return [i for i, t in enumerate(f.argty) if t == 'ptr']


class EffectClient(HeapClient):
    """parameters are blocks of the caller: which function releases them is told to the caller"""

    def __init__(self):
        HeapClient.__init__(self)
        self.rel = {}

    def bad_free(self, ip, st, ins, kind, obj):
        if obj.ext and kind not in ('double', 'interior', 'not heap'):
            for b, o in st.objs.items():
                if o is obj:
                    self.rel.setdefault(b, set()).add(kind.split(':')[1] if ':' in kind else kind)
            return
        HeapClient.bad_free(self, ip, st, ins, kind, obj)

    def freed(self, ip, st, ins, obj, base):
        HeapClient.freed(self, ip, st, ins, obj, base)
        if obj.ext:
            self.rel.setdefault(base, set())


def struct(ip, s, v, depth=0):
    """heap structure a returned pointer stands for"""
    if not isinstance(v, Ptr):
        return None
    if v.base is None:
        return 'null'
    o = s.objs.get(v.base)
    if o is None or o.ext or o.kind not in HEAPK or depth > 3:
        return 'other'
    return (o.kind, tuple((k, struct(ip, s, x, depth + 1)) for k, (z, x) in sorted(((k, c) for k, c in o.cells.items() if isinstance(k, int)))
                          if isinstance(x, Ptr)))


def effect(f, outs, c, params):
    r = set()
    for k, s, v, loc in outs:
        if k != 'ret':
            continue
        freed = tuple(sorted((i, tuple(sorted(c.rel.get('arg%d' % i, ()))) or ('?',)) for i in params if not s.objs['arg%d' % i].alive))
        r.add((freed, struct(None, s, v)))
    return sorted(r, key=repr)


def run_induce(w, oom=False):
    out = Out('induce_bwt_%dbit' % w)
    m = load(['flbwt::' + out.name] + QM + PAM)
    f = m.one('flbwt::' + out.name)
    reset()
    c = EffectClient()
    c.oom = oom
    for g in m.funcs.values():
        if g.base in QM:
            c.models[g.name] = queue_op
    st = State()
    ps = array_params(f)
    for i in ps:
        last = i == ps[-1]
        st.new_obj('ext' if last else 'new[]', None, 'the caller', 'argument %d' % (i + 1), True, key='arg%d' % i)
    for i, (a, t) in enumerate(zip(f.args, f.argty)):
        st.env[a] = Ptr('arg%d' % i, 0) if t == 'ptr' else lin(fresh('p', int(t[1:])))
    ip = Interp(m, c)
    outs = ip.run(f, st)
    finish(out, ip, c, f, outs, ps)
    return out


def finish(out, ip, c, f, outs, ps):
    out.take(ip, c)
    for k, s, v, loc in outs:
        out.exits += 1
        if k != 'ret':
            continue
        leaks(out, ip, s, [v] + [Ptr('arg%d' % i, 0) for i in ps if s.objs['arg%d' % i].alive], loc)
        dangling(out, ip, s, [v], loc, 'the result')
    out.effect = effect(f, outs, c, ps)


def run_sais(w, oom=False):
    out = Out('sais_%dbit' % w)
    m = load(['flbwt::' + out.name])
    f = m.one('flbwt::' + out.name)
    reset()
    c = EffectClient()
    c.oom = oom
    st = State()
    ps = array_params(f)
    for i, (a, t) in enumerate(zip(f.args, f.argty)):
        if t == 'ptr':
            st.new_obj('new[]', None, 'the caller', 'argument %d' % (i + 1), True, key='arg%d' % i)
            st.env[a] = Ptr('arg%d' % i, 0)
        else:
            b = int(t[1:])
            st.env[a] = lin(atom(('p', i), name='p%d' % i, w=b, lo=0, hi=min((1 << 40), (1 << b) - 1)))
    ip = Interp(m, c)
    outs = ip.run(f, st)
    finish(out, ip, c, f, outs, ps)
    return out


# ---------------------------------------------------------------- the in-memory transform
class TClient(HeapClient):
    def __init__(self, out):
        HeapClient.__init__(self)
        self.out = out

    def access(self, ip, st, ins, p, size, write, val=None):
        HeapClient.access(self, ip, st, ins, p, size, write, val)
        if write and p.base == 'T':
            self.out.tbad.append(('input modified', ip.fn.loc(ins), 'a byte of the input buffer is written'))

    def call(self, ip, st, ins, name, callee, args):
        fn = ip.fn
        if name in ip.FREE or name == 'realloc':
            if args and isinstance(args[0], Ptr) and args[0].base == 'T':
                self.out.frees['T'] = self.out.frees.get('T', 0) + 1
        tk = [k for k, a in enumerate(args) if isinstance(a, Ptr) and a.base == 'T']
        if tk and name is not None:
            sm = summary.summary(name) if callee is not None and not callee.decl else None
            if sm is not None:
                for k in tk:
                    for (q, loc) in sorted(sm.must):
                        if q == k:
                            self.out.tbad.append(('input modified', loc, 'a byte of the input buffer, passed at %s, is written' % fn.loc(ins)))
                    if any(x != 'other' and x[0] == k for x in sm.writes) and not any(q == k for q, _ in sm.must):
                        self.out.maywrite += 1
            elif name in ('memcpy', 'memmove', 'memset', 'fread', 'fgets') and 0 in tk or name.startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove')) and 0 in tk:
                self.out.tbad.append(('input modified', fn.loc(ins), 'the input buffer is written by %s' % name))
        return HeapClient.call(self, ip, st, ins, name, callee, args)


def build(ip, st, x):
    if x == 'null':
        return NULL
    if not isinstance(x, tuple):
        return Ptr(fresh('r'), 0)
    p = ip.allocate(st, ip.fn, ip_ins[0], x[0], lin(fresh('size', lo=0)))
    for off, y in x[1]:
        q = build(ip, st, y)
        st.wobj(p.base).cells[off] = (8, q)
    return p


ip_ins = [None]
ARR = {'new[]': 'new[]', 'new': 'new', 'malloc': 'malloc', 'free': 'malloc'}


def effect_model(effects):
    def model(ip, st, ins, name, callee, args):
        r = []
        for freed, ret in effects:
            s = st if len(effects) == 1 else st.copy()
            try:
                for k, a in enumerate(args):
                    if isinstance(a, Ptr) and a.base is not None:
                        o = ip.getobj(s, a, ins, True, 1)
                fk = dict(freed)
                for k, kinds in fk.items():
                    o = s.objs.get(args[k].base) if isinstance(args[k], Ptr) else None
                    # '?': released with the function that fits an array
                    ip.free(s, ip.fn, ins, kinds[0] if kinds != ('?',) else 'new[]', args[k])
                for k, a in enumerate(args):
                    if k not in fk and isinstance(a, Ptr) and a.base in s.objs and s.objs[a.base].alive and not any(
                            isinstance(x, Ptr) for _, x in s.objs[a.base].cells.values()):
                        ip.havoc_obj(s, a.base)
                ip_ins[0] = ins
                v = build(ip, s, ret) if ins['ty'] == 'ptr' else None if ins['ty'] == 'void' else ip.fresh_of(ins['ty'], name)
                r.append((s, v))
            except Dead0:
                pass
        return r
    return model


from interp import Dead as Dead0


def default_effect(n, kind):
    """used when the callee itself could not be analysed"""
    if kind == 'induce':
        return [(tuple((i, ('new[]',)) for i in range(n - 1)), ('malloc', ((8, ('new[]', ())),)))]
    return [((), None)]


def run_transform(n, fr, effects, oom=False):
    out = Out('bwt_string, %s, free_T=%d' % ('length %d' % n if n else 'any length above 3', fr))
    reset()
    c = TClient(out)
    c.oom = oom
    f, st = tr.start('obj', tr.sym_n(4) if n is None else n, fr)
    for g in f.mod.funcs.values():
        m = re.match(r'flbwt::((induce_bwt|sais)_\d+bit)$', g.base)
        if m:
            e = effects.get(m.group(1))
            if e is None:
                e = default_effect(len(g.argty), m.group(2).split('_')[0])
            c.models[g.name] = effect_model(e)
    ip = Interp(f.mod, c)
    outs = ip.run(f, st)
    out.take(ip, c)
    for k, s, v, loc in outs:
        out.exits += 1
        t = s.objs['T']
        if not fr and not t.alive:
            out.tbad.append(('released unasked', loc, 'the input buffer is released although the caller did not ask for it'))
        if k == 'ret' and s.x.get('oom'):
            out.after.append((s.x['oom'], loc))
            continue
        if k != 'ret' or not isinstance(v, Ptr) or v.base is None:
            continue
        if fr and t.alive:
            out.tbad.append(('not released', loc, 'the caller asked for the input buffer to be released, but it is still allocated when bwt_string returns'))
        leaks(out, ip, s, [v, Ptr('T', 0)], loc)
        dangling(out, ip, s, [v], loc, 'the result')
        for b in ip.reach(s, [v]):
            o = s.objs.get(b)
            if b == 'T' or o is not None and b != 'T' and any(isinstance(x, Ptr) and x.base == 'T' for _, x in o.cells.values()):
                out.tbad.append(('reference kept', loc, 'the result refers to the input buffer'))
    for rule, loc, msg, name in out.bad:
        if name == 'T' or 'the caller' in msg:
            out.tbad.append((rule, loc, msg.replace('memory allocated at the caller', 'the input buffer')))
    return out


# ---------------------------------------------------------------- the file transform
def run_file(faults):
    import filex
    out = Out('bwt_file, %d failing operations' % faults)
    reset()
    c = filex.FileClient(faults, False)
    f, ip, outs = filex.run(c)
    out.steps = ip.steps
    for kind, loc, msg, s in c.bad:
        if kind in ('dead access', 'bad free', 'use after release', 'double free'):
            out.bad.append((kind, loc, '%s: %s' % (msg, filex.path(s)), ''))
    for k, s, v, loc in outs:
        out.exits += 1
        if k == 'throw' and s.x.get('bwt_threw'):
            continue
        for b, o in s.objs.items():
            if o.alive and o.kind in HEAPK and not o.ext:
                out.leaks.append((site(o), '%s (%s)' % (s.x.get('thrown', ('', loc))[1] if k == 'throw' else loc, filex.path(s))))
    return out


# ---------------------------------------------------------------- methods
def run_insert(k, oom=False):
    """insert_string on a table that already has memory (1) or has none yet (0)"""
    out = Out('HashTable::insert_string, %s' % ('table with memory' if k else 'new table'))
    m = load(['flbwt::HashTable::insert_string'])
    f = m.one('flbwt::HashTable::insert_string')
    from front import field, layout
    reset()
    c = HeapClient()
    c.oom = oom
    st = State()
    st.new_obj('new', layout('flbwt::HashTable')[''][0], 'the owner of the table', 'the table', True, key='H')
    for x in ('rest', 'head'):
        st.new_obj('new[]', None, 'the constructor', x, True, key=x)
        st.wobj('H').cells[field('flbwt::HashTable', x)] = (8, Ptr(x, 0))
    buf = field('flbwt::HashTable', 'buf')
    if k:
        st.new_obj('malloc', None, 'an earlier insertion', 'buf', False, key='buf')
        st.objs['buf'].written = True
        st.wobj('H').cells[buf] = (8, Ptr('buf', 0))
    else:
        st.wobj('H').cells[buf] = (8, NULL)
        st.wobj('H').cells[field('flbwt::HashTable', 'bufsize')] = (8, 0)
    st.new_obj('ext', None, 'the caller', 'input', True, key='T')
    st.env = dict(zip(f.args, [Ptr('H', 0), lin(atom('m', name='m', lo=3, hi=1 << 40)), Ptr('T', 0)]))
    ip = Interp(m, c)
    outs = ip.run(f, st)
    out.take(ip, c)
    for kk, s, v, loc in outs:
        out.exits += 1
        if kk == 'ret':
            leaks(out, ip, s, [Ptr('H', 0), Ptr('T', 0)], loc)
            dangling(out, ip, s, [Ptr('H', 0)], loc, 'the table')
    return out


def run_queue(depth):
    """all short histories of a queue, each followed by its destructor"""
    import queuex
    out = Out('methods of Queue')
    reset()
    M = queuex.Machine()
    X = queuex.Explorer(M)
    for s0 in M.new():
        G, note = queuex.starts(M, s0)
        seen = {queuex.signature(M, g.st) for g in G}
        todo = []
        for g in G:
            queuex.destroy(M, X, g)
            for op in queuex.OPS:
                for n in X.step(g, op):
                    todo.append((n, depth - 1))
                    if queuex.closed(M, n) and M.chain(n.st) and len(M.chain(n.st)) <= 3 and len(G) < 12:
                        k = queuex.signature(M, n.st)
                        if k not in seen:
                            seen.add(k)
                            G.append(queuex.again(M, n, len(G)))
        while todo:
            g, d = todo.pop()
            if not d and not queuex.feasible(g):
                continue
            out.exits += 1
            queuex.destroy(M, X, g)
            if d:
                for op in queuex.OPS:
                    todo += [(n, d - 1) for n in X.step(g, op)]
    for (rule, loc), (msg, o) in M.c.bad.items():
        out.bad.append((rule, loc, msg, o.name))
    out.frees = dict(M.c.frees)
    out.allocs = set(M.c.allocs)
    out.accesses = M.c.accesses
    out.steps = M.steps
    out.leaks = X.leaks
    out.dangling = [('a block the queue refers to, allocated at %s, was released' % a, l) for a, l in X.dangling]
    return out


def run_queue_oom():
    import queuex
    out = Out('methods of Queue')
    reset()
    M = queuex.Machine()
    for s0 in M.new():
        G, note = queuex.starts(M, s0)
        M.c.bad = {}
        M.c.oom = True
        for g in G:
            for op in queuex.OPS + ('is_empty', '~Queue'):
                args = (lin(atom('x', name='x', lo=0)),) if op.startswith('enq') else ()
                for k, t, v, l in M.op(op, g.st.copy(), *args):
                    out.exits += 1
                    if k == 'ret' and t.x.get('oom') and queuex.feasible(g.but(st=t)):
                        out.after.append((t.x['oom'], l))
        M.c.oom = False
    for (rule, loc), (msg, o) in M.c.bad.items():
        out.bad.append((rule, loc, msg, ''))
    out.failed = set(M.c.failed)
    out.steps = M.steps
    return out


def run_file_oom():
    import filex
    out = Out('bwt_file')
    reset()
    c = filex.FileClient(1, True)
    f, ip, outs = filex.run(c)
    out.steps = ip.steps

    def which(s):
        for e in s.events():
            if e[0] == 'fault' and e[1] in ('malloc', 'calloc', 'realloc', 'operator new'):
                return e[2]
    for kind, loc, msg, s in c.bad:
        if kind == 'null access' and which(s):
            out.bad.append((kind, loc, '%s after the allocation at %s failed' % (msg, which(s)), ''))
    for k, s, v, loc in outs:
        out.exits += 1
        if which(s):
            out.failed.add(which(s))
            if k == 'ret':
                out.after.append((which(s), loc))
    return out


def run_packed(oom=False):
    """constructor, store, read and destructor of a packed array"""
    out = Out('methods of PackedArray')
    from front import field, layout
    reset()
    A = 'flbwt::PackedArray::'
    names = [A + x for x in ('PackedArray', 'set_value', 'get_value', '~PackedArray')]
    m = load(names)
    c = HeapClient()
    c.oom = oom
    st0 = State()
    st0.new_obj('new', layout('flbwt::PackedArray')[''][0], 'the owner', 'the array', True, key='P')
    sts = [st0]
    for nm in names:
        try:
            f = m.one(nm)
        except AnalysisError:
            continue
        nxt = []
        for s in sts:
            args = [Ptr('P', 0)] + [lin(fresh('a', int(t[1:]), lo=1, hi=(1 << min(40, int(t[1:]) - 1)) - 1)) for t in f.argty[1:]]
            s.env = dict(zip(f.args, args))
            s.ev = None
            ip = Interp(m, c)
            for k, t, v, loc in ip.run(f, s):
                out.exits += 1
                if k != 'ret':
                    continue
                leaks(out, ip, t, [Ptr('P', 0)] if nm != names[-1] else [], loc)
                if nm != names[-1]:
                    dangling(out, ip, t, [Ptr('P', 0)], loc, 'the array')
                nxt.append(t)
            out.steps += ip.steps
        sts = nxt[:8]
    ip = Interp(m, c)
    out.take(ip, c)
    return out


def job(a):
    kind, args = a[0], a[1:]
    name = ' '.join(str(x) for x in a if not isinstance(x, dict))
    try:
        return globals()['run_' + kind](*args)
    except AnalysisError as e:
        if 'anchor' in str(e):
            raise
        o = Out(name)
        o.error = str(e)
        return o


def prepare():
    """compile everything once, before processes are started"""
    import filex
    tr.module()
    filex.entry()
    summary.module()
    for w in W:
        load(['flbwt::induce_bwt_%dbit' % w] + QM + PAM)
        load(['flbwt::sais_%dbit' % w])
    load(['flbwt::HashTable::insert_string'])


def starving():
    """all entries with one failing allocation"""
    prepare()
    return jobs([('induce', w, True) for w in W] + [('sais', w, True) for w in W] + [('insert', 0, True), ('insert', 1, True), ('queue_oom',), ('packed', True),
                ('file_oom',)] + [('transform', n, fr, {}, True) for n in (1, 3, None) for fr in (0, 1)])


def everything(tier):
    """all entries with the effects of the sorters and the inducing steps as they were found"""
    prepare()
    depth = 3 if tier == 'quick' else 4
    first = jobs([('induce', w) for w in W] + [('sais', w) for w in W] + [('insert', 0), ('insert', 1), ('queue', depth), ('packed',)] +
                 [('file', k) for k in range(2 if tier == 'quick' else 3)])
    eff = {}
    for o in first:
        m = re.match(r'((induce_bwt|sais)_\d+bit)$', o.name)
        if m and o.effect:
            eff[m.group(1)] = o.effect
    return first + transforms(tier, eff)


def transforms(tier, eff):
    prepare()
    return jobs([('transform', n, fr, eff) for n in (1, 2, 3, None) for fr in (0, 1)])


def jobs(list_):
    with ProcessPoolExecutor(max_workers=min(8, len(list_), os.cpu_count() or 8)) as ex:
        return list(ex.map(job, list_))
