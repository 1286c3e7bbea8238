"""C08: transforms share no state.  Effect analysis: inventory of static storage and of library calls of every function."""
from front import load, AnalysisError, rel, operands, REPO
from result import Result

# functions of the C library that keep state between calls or are not required to be thread safe
DENY = {n: 'keeps state between calls' for n in (
    'rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'mrand48', 'srand48', 'initstate', 'setstate', 'strtok', 'getrandom')}
DENY.update({n: 'returns a pointer to static storage' for n in (
    'strerror', 'localtime', 'gmtime', 'ctime', 'asctime', 'tmpnam', 'tempnam', 'ttyname', 'readdir', 'getpwnam', 'getpwuid', 'ecvt', 'fcvt', 'gcvt',
    'basename', 'dirname', 'setlocale', 'localeconv', 'inet_ntoa', 'getlogin', 'crypt')})
DENY.update({n: 'changes state of the whole process' for n in (
    'setenv', 'putenv', 'unsetenv', 'clearenv', 'chdir', 'fchdir', 'umask', 'signal', 'sigaction', 'mallopt', 'setvbuf_unlocked', '_ZSt13set_terminatePFvvE')})
DENY.update({n: 'reads state of the process that is not an argument' for n in ('getenv', 'secure_getenv', 'getpid', 'getcwd')})
DENY.update({'alarm': 'changes state of the whole process', 'hcreate': 'uses one table for the whole process', 'hsearch': 'uses one table for the whole process'})


def root_global(f, o, seen=None):
    """global variable an address operand belongs to, through casts, constant offsets, phis and selects"""
    if seen is None:
        seen = set()
    if o[0] == 'g':
        return {o[1]}
    if o[0] == 'cgep':
        return root_global(f, o[1], seen)
    if o[0] != 'v' or o[1] in seen:
        return set()
    seen.add(o[1])
    i = defs(f).get(o[1])
    if i is None:
        return set()
    if i['op'] == 'getelementptr':
        return root_global(f, i['base'], seen)
    if i['op'] in ('bitcast', 'freeze'):
        return root_global(f, i['ops'][0], seen)
    if i['op'] == 'phi':
        return set().union(*[root_global(f, x[0], seen) for x in i['ops']])
    if i['op'] == 'select':
        return root_global(f, i['ops'][1], seen) | root_global(f, i['ops'][2], seen)
    return set()


def defs(f):
    d = getattr(f, '_defs', None)
    if d is None:
        d = f._defs = {i['id']: i for b in f.blocks.values() for i in b}
    return d


def reads_only(n, k):
    """is the memory behind argument k of this library function only read"""
    return bool(n) and (n.startswith(('llvm.memcpy', 'llvm.memmove')) and k == 1 or n in ('memcpy', 'memmove') and k == 1 or n in (
        'memcmp', 'strlen', 'strcmp', 'fopen', 'puts', 'printf') or n == 'fwrite' and k == 0 or n.endswith('C1EPKc'))


def depends_on_args(m, f, o, seen):
    """does a value depend on a parameter or on memory the function does not own"""
    if o[0] != 'v':
        return False
    if o[1] in seen:
        return False
    seen.add(o[1])
    i = defs(f).get(o[1])
    if i is None:
        return o[1] in f.args
    if i['op'] == 'load':
        g = root_global(f, i['ops'][0])
        if g and all(m.globals.get(x, {}).get('const') for x in g):
            return any(depends_on_args(m, f, x, seen) for x in operands(i))
        a = defs(f).get(i['ops'][0][1]) if i['ops'][0][0] == 'v' else None
        return not (a is not None and a['op'] == 'alloca')
    return any(depends_on_args(m, f, x, seen) for x in operands(i))


def run(tier):
    r = Result("The effects of every function of the library on storage that outlives a call are enumerated from the whole-program IR: "
               "every variable of static or thread-local storage duration (namespace scope, class static, function local), its constness "
               "in the declaration, every instruction whose address leads to it, and every call of an external function. Obligations: no "
               "such variable is mutable (constants initialised once from constants are allowed), none is thread-local, no constant one "
               "leads to memory that can be written, and no external function is called that keeps state or is not reentrant.",
               ["malloc, free, operator new/delete and stdio on distinct streams are thread safe, as POSIX and C++11 require"])
    m = load([], noinline=True)
    fs = m.defs()
    own = [f for f in fs if f.file.startswith(REPO)]
    if len(own) < 30 or not any(f.base == 'flbwt::bwt_string' for f in own):
        raise AnalysisError('C08: only %d functions of the library found' % len(own))
    r.count('functions', len(own))
    use = {}
    for f in fs:
        for b in f.blocks.values():
            for i in b:
                r.count('instructions')
                op = i['op']
                if op in ('store', 'load'):
                    a = i['ops'][1 if op == 'store' else 0]
                    for g in root_global(f, a):
                        use.setdefault(g, []).append((op, f, i))
                    if op == 'store':
                        for g in root_global(f, i['ops'][0]):
                            use.setdefault(g, []).append(('escape', f, i))
                elif op in ('call', 'invoke'):
                    n = i.get('callee')
                    for k, a in enumerate(i.get('ops', ())):
                        if reads_only(n, k):
                            continue
                        for g in root_global(f, a):
                            use.setdefault(g, []).append(('pass', f, i))
                    if n:
                        r.count('calls')
                        c = m.funcs.get(n)
                        if n in DENY and (c is None or c.decl):
                            r.bad('not reentrant', f.loc(i), '%s calls %s, which %s' % (f.base, n, DENY[n]))
                elif op in ('atomicrmw', 'cmpxchg'):
                    for g in root_global(f, i['ops'][0]):
                        use.setdefault(g, []).append(('store', f, i))
                elif op not in ('getelementptr', 'bitcast', 'phi', 'select', 'icmp'):
                    for a in operands(i):
                        for g in root_global(f, a):
                            use.setdefault(g, []).append(('escape', f, i))
    for n, g in m.globals.items():
        own = g.get('file', '').startswith(REPO)
        if not own:
            continue
        r.count('variables of static storage')
        where = '%s:%d' % (rel(g['file']), g['line'])
        us = [u for u in use.get(n, []) if not u[1].base.startswith('_GLOBAL__') and '__cxx_global_var_init' not in u[1].base]
        accs = [u for u in us if u[0] in ('store', 'pass', 'escape')]
        at = ' (used at %s)' % (accs or us)[0][1].loc((accs or us)[0][2]) if us else ''
        if g.get('tls'):
            r.bad('thread-local state', where, '%s is thread-local storage: it carries state from one call to the next%s' % (g['dem'], at))
            continue
        if not g['const'] and not g.get('dconst'):
            if not accs:
                r.count('variables never written')
                continue
            r.bad('mutable static', where, '%s is mutable and outlives the call%s' % (g['dem'], at))
            continue
        if g.get('dconst') and not g['const']:
            # initialised at run time: from constants only
            for kind, f, i in us:
                if kind == 'store' and depends_on_args(m, f, i['ops'][0], set()):
                    r.bad('static initialised from arguments', f.loc(i), '%s keeps what the first call computed from its arguments' % g['dem'])
                elif kind == 'pass' and any(depends_on_args(m, f, a, set()) for a in i['ops']):
                    r.bad('static initialised from arguments', f.loc(i), '%s keeps what the first call computed from its arguments' % g['dem'])
            if g.get('dptrmut'):
                r.bad('mutable static', where, '%s leads to memory that outlives the call and can be written%s' % (g['dem'], at))
    r.coverage.setdefault('variables of static storage', 0)
    return r
