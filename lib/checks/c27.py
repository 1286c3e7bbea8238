"""C27: variables and members have a value before they are used."""
import re
from front import load, operands, REPO, AnalysisError
from result import Result
from quantx import Fn, const, typename


def locals_(r, m):
    """locals of simple type, on the IR as the compiler emits it: a load that no store reaches on any path"""
    for f in m.defs():
        if not f.file.startswith(REPO):
            continue
        r.count('functions analysed')
        fn = Fn(f)
        arrays(r, f, fn)
        al = {i['id'] for i in fn.d.values() if i['op'] == 'alloca' and (i.get('aty') == 'ptr' or i.get('aty', '')[:1] == 'i')}
        for a in list(al):
            for u in fn.uses.get(a, []):
                if u['op'] == 'load' or u['op'] == 'store' and u['ops'][0] != ['v', a]:
                    continue
                if u['op'] in ('call', 'invoke') and (u.get('callee') or '').startswith('llvm.'):
                    continue
                al.discard(a)       # its address is taken
        r.count('local variables followed', len(al))
        stores = {}
        for b, l in f.blocks.items():
            for n, i in enumerate(l):
                if i['op'] == 'store' and i['ops'][1][0] == 'v' and i['ops'][1][1] in al and not feeds(fn, i['ops'][1][1], i['ops'][0], 0):
                    stores.setdefault(i['ops'][1][1], {}).setdefault(b, n)
        reach = reachable(f)
        for b in reach:
            for n, i in enumerate(f.blocks[b]):
                if i['op'] == 'load' and i['ops'][0][0] == 'v' and i['ops'][0][1] in al and fn.uses.get(i['id']):
                    r.count('reads of locals judged')
                    a = i['ops'][0][1]
                    if not arrives(f, stores.get(a, {}), b, n):
                        r.bad('no value', f.loc(i), '%s is used in %s although no assignment can have come before the first time' % (name(f, a), f.base))


READERS = {'fwrite': 0, 'write': 1, 'memcmp': 0, 'memcpy': 1, 'puts': 0, 'fputs': 0}


def arrays(r, f, fn):
    """local arrays that are filled by element and handed to a function that reads them: no element is left out"""
    for a in fn.d.values():
        n = re.match(r'\[(\d+) x i(\d+)\]$', a.get('aty') or '') if a['op'] == 'alloca' else None
        if not n:
            continue
        have, reads, ok, size = set(), [], True, max(1, int(n[2]) // 8)

        def walk(v, at):
            nonlocal ok
            for u in fn.uses.get(v, []):
                if u['op'] == 'getelementptr' and u['base'] == ['v', v] and not u['idx']:
                    walk(u['id'], at + int(u['off']))
                elif u['op'] == 'store' and u['ops'][1] == ['v', v] and u['ops'][0] != ['v', v]:
                    have.add(at // size)
                elif u['op'] == 'load':
                    pass
                elif u['op'] in ('call', 'invoke') and (u.get('callee') or '').split('.')[-1] in READERS and u['ops'].index(['v', v]) == READERS[u['callee'].split('.')[-1]] and at == 0:
                    reads.append(u)
                elif u['op'] in ('call', 'invoke') and (u.get('callee') or '').startswith(('llvm.lifetime', 'llvm.dbg')):
                    pass
                else:
                    ok = False
        walk(a['id'], 0)
        if not ok or not reads or not have:
            continue
        r.count('local arrays judged')
        miss = sorted(set(range(int(n[1]))) - have)
        if miss:
            r.bad('no value', f.loc(reads[0]), 'element %d of %s is read by %s in %s, but nothing is ever stored in it' % (miss[0], name(f, a['id']), reads[0]['callee'], f.base))


def reachable(f):
    s, todo = {f.entry}, [f.entry]
    while todo:
        for x in f.succ[todo.pop()]:
            if x not in s:
                s.add(x)
                todo.append(x)
    return s


def feeds(fn, a, o, depth):
    """is a value computed from the variable it is stored in"""
    i = fn.get(o)
    if i is None or depth > 12:
        return False
    if i['op'] == 'load':
        return i['ops'][0] == ['v', a]
    if i['op'] in ('add', 'sub', 'mul', 'shl', 'or', 'trunc', 'zext', 'sext', 'freeze', 'getelementptr'):
        return any(feeds(fn, a, x, depth + 1) for x in operands(i))
    return False


def arrives(f, st, rb, rn):
    """can the first execution of this read (instruction rn of block rb) come after an assignment"""
    # forward search over (block, assigned); it ends at the read
    seen, todo = set(), [(f.entry, False)]
    while todo:
        b, ok = todo.pop()
        if (b, ok) in seen:
            continue
        seen.add((b, ok))
        if b == rb:
            if ok or st.get(b, rn) < rn:
                return True
            continue
        ok = ok or b in st
        for x in f.succ[b]:
            todo.append((x, ok))
    return False


def name(f, a):
    for b in f.d['blocks']:
        for i in b['ins']:
            if i['op'] == 'dbg' and i.get('v') == ['v', a]:
                return 'the variable %s' % i['var']
            if i['op'] in ('call',) and i.get('callee', '').startswith('llvm.dbg') and ['v', a] in i.get('ops', []):
                return 'a variable'
    return 'a local variable'


def members(r, m):
    """members of classes: one that is used has to be given a value somewhere that does not come from itself"""
    loads, stores, taken, fns = {}, {}, set(), []
    for f in m.defs():
        if f.file.startswith(REPO):
            fns.append(Fn(f))
    for fn in fns:
        for l in fn.f.blocks.values():
            for i in l:
                op = i['op']
                if op == 'load':
                    k = fn.key(i['ops'][0])
                    if k:
                        loads.setdefault(k, []).append((fn, i))
                    continue
                if op == 'store':
                    k = fn.key(i['ops'][1])
                    if k:
                        stores.setdefault(k, []).append((fn, i))
                    os = [i['ops'][0]]
                elif op in ('getelementptr', 'icmp', 'ptrtoint'):
                    continue
                else:
                    os = operands(i)
                for o in os:
                    j = fn.get(o)
                    if j is not None and j['op'] == 'getelementptr':
                        k = fn.key(o)
                        if k:
                            taken.add(k)
                    # whole objects that are cleared or copied
                    if op in ('call', 'invoke') and (i.get('callee') or '').startswith(('llvm.memset', 'llvm.memcpy', 'memset', 'memcpy', 'calloc')):
                        t = klass(fn, o)
                        if t:
                            taken.add((t, None))
    for k, l in sorted(loads.items()):
        if k in taken or (k[0], None) in taken or not k[0].startswith(('class.flbwt', 'struct.')):
            continue
        st = stores.get(k, [])
        ext = [x for x in l if used(x[0], x[1], k)]
        if not ext:
            continue
        r.count('members judged')
        fresh = [x for x in st if not own(x[0], x[1]['ops'][0], k, set())]
        if not fresh:
            fn, i = ext[0]
            r.bad('no value', fn.f.loc(i), 'a member of %s (at byte %d) is used in %s, but %s' % (
                k[0].split('.', 1)[1], k[1], fn.f.base, 'every value stored in it is computed from itself' if st else 'nothing is ever stored in it'))


def klass(fn, o):
    j = fn.get(o)
    if j is None:
        return 'class.' + fn.cls if o[0] == 'v' and o[1] in fn.f.args and fn.cls and list(fn.f.args).index(o[1]) == 0 else None
    for u in fn.uses.get(o[1], []):
        if u['op'] == 'getelementptr':
            return typename(u['srcty'])
    return None


def own(fn, o, k, seen):
    """does a value come from the member itself, on every way"""
    if o[0] != 'v' or o[1] in seen:
        return o[0] == 'v'
    seen.add(o[1])
    i = fn.get(o)
    if i is None:
        return False
    if i['op'] == 'load':
        return fn.key(i['ops'][0]) == k
    if i['op'] in ('add', 'sub', 'mul', 'or', 'shl', 'trunc', 'zext', 'sext', 'freeze'):
        return any(x[0] == 'v' and own(fn, x, k, seen) for x in i['ops'])
    if i['op'] == 'getelementptr' and not i['idx']:
        return own(fn, i['base'], k, seen)
    if i['op'] in ('phi', 'select'):
        return all(own(fn, x, k, seen) for x in operands(i)[(1 if i['op'] == 'select' else 0):])
    return False


def used(fn, i, k, seen=None):
    """does the value read go anywhere but back into the member"""
    for u in fn.uses.get(i['id'], []):
        if u['op'] == 'store' and u['ops'][0][0] == 'v' and u['ops'][0][1] == i['id'] and fn.key(u['ops'][1]) == k:
            continue
        if u['op'] in ('add', 'sub') and const(u['ops'][1]) is not None or u['op'] in ('trunc', 'zext', 'sext'):
            if not used(fn, u, k):
                continue
        return True
    return False


def run(tier):
    r = Result("Definite assignment. Locals: on the IR as the compiler emits it, for every variable of simple type whose address is not taken, and every "
               "read of it whose value is used: if on no path an assignment (of a value that is not computed from the variable itself) comes before the "
               "first execution of the read, that is a violation. Members: a member of a class that is used has to receive, somewhere in the program, a value that is not computed from "
               "itself.", ["a variable that has a value on some paths only is left to the path-sensitive checks"])
    raw = load([], passes='verify', noinline=True)
    locals_(r, raw)
    members(r, load([], noinline=True))
    if r.coverage.get('functions analysed', 0) < 20 or not r.coverage.get('reads of locals judged'):
        raise AnalysisError('C27: too few functions found')
    return r
