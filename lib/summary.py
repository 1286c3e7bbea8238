"""Bottom-up effect summaries of the library's functions: does a function write memory it did not allocate,
which pointer parameters does it dereference on every path."""
from front import load, operands

_m = None


def module():
    global _m
    if _m is None:
        _m = load([], noinline=True)
    return _m


PURE_LIB = ('strlen', 'memcmp', 'strcmp', 'strncmp', 'abs', 'labs', 'llvm.')


def defs(f):
    d = getattr(f, '_defs', None)
    if d is None:
        d = f._defs = {i['id']: i for b in f.blocks.values() for i in b}
    return d


def root(f, o, seen=None):
    """what an address may be based on: (parameter, constant offset or None) / 'local' / 'other'"""
    if seen is None:
        seen = set()
    if o[0] != 'v':
        return {'other'} if o[0] not in ('null', 'undef') else set()
    if o[1] in seen:
        return set()
    seen.add(o[1])
    if o[1] in f.args:
        return {(f.args.index(o[1]), 0)}
    i = defs(f).get(o[1])
    if i is None:
        return {'other'}
    if i['op'] == 'alloca':
        return {'local'}
    if i['op'] == 'getelementptr':
        r = root(f, i['base'], seen)
        k = None if i['idx'] else int(i['off'])
        return {(x[0], None if k is None or x[1] is None else x[1] + k) if isinstance(x, tuple) else x for x in r}
    if i['op'] in ('bitcast', 'freeze'):
        return root(f, i['ops'][0], seen)
    if i['op'] == 'phi':
        r = set().union(*[root(f, x[0], seen) for x in i['ops']])
        return {(x[0], None) if isinstance(x, tuple) and len(r) > 1 else x for x in r}
    if i['op'] == 'select':
        return root(f, i['ops'][1], seen) | root(f, i['ops'][2], seen)
    return {'other'}


def ALL(f):
    return {(k, None, None) for k in range(len(f.args))} | {'other'}


def whole(r):
    return {(x[0], None, None) if isinstance(x, tuple) else x for x in r - {'local'}}


_sum = {}


class Summary:
    __slots__ = ('writes', 'deref', 'frees', 'throws', 'allocs', 'must')


def summary(name, stack=()):
    """None for functions without a body"""
    if name in _sum:
        return _sum[name]
    m = module()
    f = m.funcs.get(name)
    if f is None or f.decl or name in stack:
        return None
    s = Summary()
    s.must = set()      # (parameter, place) of stores that can only go through that parameter
    s.writes, s.deref, s.frees, s.throws, s.allocs = set(), set(), False, False, frozenset()
    for b, ins in f.blocks.items():
        entry = b == f.entry
        for i in ins:
            op = i['op']
            if op in ('load', 'store'):
                a = i['ops'][1 if op == 'store' else 0]
                r = root(f, a)
                if op == 'store':
                    if len(r) == 1 and isinstance(next(iter(r)), tuple):
                        s.must.add((next(iter(r))[0], f.loc(i)))
                    s.writes |= {(x[0], x[1], i['size']) if isinstance(x, tuple) else x for x in r - {'local'}}
                if entry:
                    s.deref |= {x[0] for x in r if isinstance(x, tuple)} if len(r) == 1 else set()
            elif op in ('atomicrmw', 'cmpxchg'):
                s.writes |= whole(root(f, i['ops'][0]))
            elif op in ('call', 'invoke'):
                n = i.get('callee')
                if n is None:
                    s.writes |= ALL(f)
                    s.throws = True
                    continue
                c = m.funcs.get(n)
                if c is not None and not c.decl:
                    t = summary(n, stack + (name,))
                    if t is None:
                        # recursion: the other calls and stores of the cycle tell what is written
                        continue
                    for k in t.writes:
                        if k == 'other':
                            s.writes.add('other')
                        elif k[0] < len(i['ops']):
                            for x in root(f, i['ops'][k[0]]) - {'local'}:
                                s.writes.add((x[0], None if x[1] is None or k[1] is None else x[1] + k[1], k[2]) if isinstance(x, tuple) else x)
                    for k, l in t.must:
                        if k < len(i['ops']):
                            r = root(f, i['ops'][k])
                            if len(r) == 1 and isinstance(next(iter(r)), tuple):
                                s.must.add((next(iter(r))[0], l))
                    s.frees |= t.frees
                    s.allocs |= t.allocs
                    s.throws |= t.throws
                    if entry:
                        for k in t.deref:
                            if k < len(i['ops']):
                                r = root(f, i['ops'][k])
                                if len(r) == 1:
                                    s.deref |= {x[0] for x in r if isinstance(x, tuple)}
                elif n in ('free', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm'):
                    s.frees = True
                elif n in ('malloc', 'calloc', '_Znwm', '_Znam', 'realloc'):
                    s.allocs = s.allocs | {'new' if n == '_Znwm' else 'new[]' if n == '_Znam' else 'malloc'}
                elif n in ('__cxa_throw', '__cxa_rethrow') or '__throw_' in n:
                    s.throws = True
                elif n.startswith('__cxa') or n.startswith('_ZNSt') and 'C1EPKc' in n:
                    pass
                elif not n.startswith(PURE_LIB) or n.startswith(('llvm.mem',)):
                    if n.startswith('llvm.mem') or n in ('memcpy', 'memset', 'memmove'):
                        r = root(f, i['ops'][0])
                        if len(r) == 1 and isinstance(next(iter(r)), tuple):
                            s.must.add((next(iter(r))[0], f.loc(i)))
                        s.writes |= whole(r)
                    else:
                        for a in i['ops']:
                            s.writes |= whole(root(f, a))
    _sum[name] = s
    return s
