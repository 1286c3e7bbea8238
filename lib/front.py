"""Front end: compile /repo/src/*.cpp to bitcode, run irdump, load the JSON program."""
import json, os, re, subprocess, glob, tempfile, shutil, atexit, sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('FLBWT_REPO', '/repo')
LLVM = '/usr/lib/llvm-18'


class AnalysisError(Exception):
    """The analysis cannot give an answer (does not build, anchor vanished): error exit."""


_work = None


def workdir():
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix='flbwt-sa-')
        atexit.register(shutil.rmtree, _work, True)
    return _work


def irdump_binary():
    b = os.path.join(ROOT, 'build', 'irdump')
    src = os.path.join(HERE, 'irdump.cpp')
    if not os.path.exists(b) or os.path.getmtime(b) < os.path.getmtime(src):
        os.makedirs(os.path.join(ROOT, 'build'), exist_ok=True)
        tmp = b + '.%d' % os.getpid()
        r = subprocess.run(['clang++', '-O1', '-w', src, '-o', tmp, '-I' + LLVM + '/include', '-std=c++17',
                            '-fno-exceptions', '-L' + LLVM + '/lib', '-lLLVM-18'], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError('cannot build irdump: ' + r.stderr[-2000:])
        os.replace(tmp, b)
    return b


_bc = None


def bitcode():
    """compile every translation unit of the library"""
    global _bc
    if _bc is not None:
        return _bc
    srcs = sorted(glob.glob(os.path.join(REPO, 'src', '**', '*.cpp'), recursive=True))
    if not srcs:
        raise AnalysisError('no sources under %s/src' % REPO)
    w = workdir()
    procs = []
    for s in srcs:
        o = os.path.join(w, os.path.relpath(s, os.path.join(REPO, 'src')).replace('/', '__') + '.bc')
        procs.append((s, o, subprocess.Popen(
            ['clang++', '-std=gnu++11', '-I' + os.path.join(REPO, 'include'), '-emit-llvm', '-c', '-O1', '-Xclang',
             '-disable-llvm-passes', '-g', '-w', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=w)))
    for s, o, p in procs:
        out = p.communicate()[0]
        if p.returncode:
            raise AnalysisError('does not compile: %s\n%s' % (s, out[-2000:]))
    _bc = [o for _, o, _ in procs]
    return _bc


# library algorithms that are modelled, not inlined
STD_OPAQUE = (r'~(^| )std::(__)?(introsort|introsort_loop|sort|stable_sort|partial_sort|insertion_sort|final_insertion_sort|'
              r'unguarded_linear_insert|move_median|unguarded_partition|heap_select|adjust_heap|make_heap|pop_heap|sort_heap|push_heap|fill|fill_n|fill_n_a|copy|copy_n|reverse|swap_ranges)<')

P_D = 'always-inline,globaldce,function(sroa,early-cse,simplifycfg,instsimplify,loop-simplify)'
P_ROT = ('always-inline,globaldce,function(sroa,early-cse,simplifycfg,instsimplify,loop-simplify,'
         'loop(loop-rotate),simplifycfg,instsimplify,loop-simplify)')

_cache = {}


class Func:
    def __init__(self, d, mod):
        self.mod = mod
        self.d = d
        self.name = d['name']
        self.base = d['base']
        self.src = d.get('src', '')
        self.decl = d['decl']
        self.file = d.get('file', '')
        self.line = d.get('line', 0)
        self.args = [a[0] for a in d['args']]
        self.argty = [a[1] for a in d['args']]
        self.argname = [a[2] for a in d['args']]
        self.ret = d['ret']
        self._ready = False

    def __getattr__(self, k):
        # bodies are processed on first use
        if k in ('blocks', 'entry', 'loops', 'inner', 'names', 'succ', 'preds', 'rpo', 'live') and not self.__dict__.get('_ready', True) \
                and not self.__dict__['decl']:
            self._ready = True
            self._body()
            return self.__dict__[k]
        raise AttributeError(k)

    def _body(self):
        d = self.d
        self.blocks = {b['id']: b['ins'] for b in d['blocks']}
        self.entry = d['blocks'][0]['id']
        self.loops = {}
        for l in d['loops']:
            self.loops[l['header']] = dict(header=l['header'], parent=l['parent'], blocks=set(l['blocks']), depth=l['depth'])
        self.inner = {}  # block -> innermost loop header
        for h, l in sorted(self.loops.items(), key=lambda x: x[1]['depth']):
            for b in l['blocks']:
                self.inner[b] = h
        self.names = {}
        for b in self.blocks.values():
            for i in b:
                if i['op'] == 'dbg' and i.get('v') and i['v'][0] == 'v':
                    self.names.setdefault(i['v'][1], i['var'])
        for a, n in zip(self.args, self.argname):
            self.names.setdefault(a, n)
        self.blocks = {k: [i for i in v if i['op'] != 'dbg'] for k, v in self.blocks.items()}
        self._succ()

    def _succ(self):
        self.succ = {}
        for b, ins in self.blocks.items():
            t = ins[-1]
            if t['op'] == 'br':
                s = list(t['succ'])
            elif t['op'] == 'switch':
                s = [t['def']] + [c[1] for c in t['cases']]
            elif t['op'] == 'invoke':
                s = [t['normal'], t['unwind']]
            else:
                s = []
            self.succ[b] = s
        self.preds = {b: [] for b in self.blocks}
        for b, ss in self.succ.items():
            for s in ss:
                self.preds[s].append(b)
        # reverse post order
        seen, order = set(), []
        st = [(self.entry, iter(self.succ[self.entry]))]
        seen.add(self.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        # live[b]: values needed right after the phis of b
        gen, kill, phiuse, phidef = {}, {}, {}, {}
        for b, ins in self.blocks.items():
            g, k, pd = set(), set(), set()
            for i in ins:
                if i['op'] == 'phi':
                    pd.add(i['id'])
                    for o, p in i['ops']:
                        if o[0] == 'v':
                            phiuse.setdefault((p, b), set()).add(o[1])
                    continue
                for o in operands(i):
                    for x in vals(o):
                        if x not in k:
                            g.add(x)
                k.add(i['id'])
            gen[b], kill[b], phidef[b] = g, k, pd
        self.live = {b: set(gen[b]) for b in self.blocks}
        changed = True
        while changed:
            changed = False
            for b in reversed(order):
                s = self.live[b]
                n = len(s)
                for x in self.succ[b]:
                    s |= (self.live[x] - phidef[x] - kill[b])
                    s |= phiuse.get((b, x), set()) - kill[b]
                if len(s) != n:
                    changed = True

    def loc(self, ins):
        l = ins.get('loc')
        if not l:
            return '%s:%s (%s)' % (rel(self.file), self.line, self.src)
        return fmtloc(l)


def rel(f):
    return f[len(REPO) + 1:] if f.startswith(REPO + '/') else f


def fmtloc(l):
    # prefer the innermost location that lies in the repository
    chain = []
    while l:
        chain.append(l)
        l = l[3] if len(l) > 3 else None
    own = [c for c in chain if c[0].startswith(REPO)] or chain
    s = '%s:%d in %s' % (rel(own[0][0]), own[0][1], own[0][2])
    if len(own) > 1:
        s += ' (from %s:%d)' % (rel(own[-1][0]), own[-1][1])
    return s


def vals(o):
    if o[0] == 'v':
        return (o[1],)
    if o[0] == 'cgep':
        return vals(o[1])
    return ()


def operands(i):
    op = i['op']
    if op == 'phi':
        return [o[0] for o in i['ops']]
    r = list(i.get('ops', []))
    if op == 'getelementptr':
        r.append(i['base'])
        r += [x[0] for x in i['idx']]
    return r


class Module:
    def __init__(self, d):
        self.funcs = {f['name']: Func(f, self) for f in d['functions']}
        self.globals = {g['name']: g for g in d['globals']}

    def defs(self):
        return [f for f in self.funcs.values() if not f.decl]

    def by_base(self, base):
        return [f for f in self.funcs.values() if f.base == base]

    def one(self, base):
        r = [f for f in self.by_base(base) if not f.decl]
        if not r:
            raise AnalysisError('anchor vanished: %s' % base)
        return r[0]


def load(keep=(), passes=P_D, noinline=False):
    """keep: demangled names (no parameters); '~re' patterns"""
    key = (tuple(sorted(keep)), passes, noinline)
    if key in _cache:
        return _cache[key]
    w = workdir()
    kf = os.path.join(w, 'keep%d.%d' % (os.getpid(), len(_cache)))
    out = os.path.join(w, 'out%d.%d.json' % (os.getpid(), len(_cache)))
    with open(kf, 'w') as f:
        if noinline:
            f.write('noinline\n')
        for k in keep:
            f.write(k + '\n')
        if keep and not noinline:
            f.write('only\n')
        f.write(STD_OPAQUE + '\n')
    r = subprocess.run([irdump_binary(), out, kf, passes] + bitcode(), capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError('irdump failed: ' + r.stderr[-2000:])
    with open(out) as f:
        m = Module(json.load(f))
    _cache[key] = m
    return m


_lay = {}


def layout(cls):
    """field name -> (offset, type) of a class of the library (compiler's record layout)"""
    if cls in _lay:
        return _lay[cls]
    w = workdir()
    tu = os.path.join(w, 'lay%d.cpp' % os.getpid())
    hs = sorted(glob.glob(os.path.join(REPO, 'include', '*.hpp')))
    with open(tu, 'w') as f:
        for h in hs:
            f.write('#include "%s"\n' % os.path.basename(h))
        f.write('int x[sizeof(%s)];\n' % cls)
    r = subprocess.run(['clang++', '-std=gnu++11', '-w', '-I' + os.path.join(REPO, 'include'), '-fsyntax-only', '-Xclang',
                        '-fdump-record-layouts-complete', tu], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError('anchor vanished: class %s (%s)' % (cls, r.stderr[:300]))
    cur, d = None, None
    for l in r.stdout.splitlines():
        m = re.match(r'\s*(\d+) \| (?:class|struct) (\S+)$', l)
        if '*** Dumping' in l:
            cur = None
        elif cur is None:
            if m and m.group(1) == '0':
                cur = m.group(2)
                d = {} if cur == cls else None
        elif d is not None:
            m = re.match(r'\s*(\d+) \|   (\S.*) (\w+)$', l)
            if m:
                d[m.group(3)] = (int(m.group(1)), m.group(2))
            m = re.match(r'\s*\| \[sizeof=(\d+)', l)
            if m:
                d[''] = (int(m.group(1)), 'sizeof')
                _lay[cls] = d
                d = None
    if cls not in _lay:
        raise AnalysisError('anchor vanished: class %s' % cls)
    return _lay[cls]


def field(cls, *names):
    l = layout(cls)
    for n in names:
        if n in l:
            return l[n][0]
    raise AnalysisError('anchor vanished: field %s of %s' % (names[0], cls))
