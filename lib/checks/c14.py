"""C14: suffix sorting does not depend on the integer width."""
from front import AnalysisError, load
from result import Result
from interp import Budget
from concurrent.futures import ProcessPoolExecutor
from checks.c15 import outliers
import itertools
import armx, saisx


# ---------------------------------------------------------------- dataflow: integers keep their width

def bits(ty):
    return int(ty[1:]) if ty[:1] == 'i' and ty[1:].isdigit() else None


class Flow:
    def __init__(self, f, w):
        self.f, self.w = f, w
        self.d, self.uses = {}, {}
        for l in f.blocks.values():
            for i in l:
                if 'id' in i:
                    self.d[i['id']] = i
                for o in self.operands(i):
                    if o[0] == 'v':
                        self.uses.setdefault(o[1], []).append(i)

    @staticmethod
    def operands(i):
        if i['op'] == 'phi':
            return [o[0] for o in i['ops']]
        r = list(i.get('ops', ()))
        r += [o for o, _ in i.get('idx', ())]
        if 'base' in i:
            r.append(i['base'])
        return r

    def wide(self, o, seen=None):
        """may the value be a position or count as large as the width allows"""
        if o[0] != 'v':
            return False
        seen = seen if seen is not None else set()
        if o[1] in seen:
            return False
        seen.add(o[1])
        i = self.d.get(o[1])
        if i is None:
            # a parameter: the length
            return o[1] in self.f.args and bits(self.f.argty[list(self.f.args).index(o[1])]) == 64
        op, ops = i['op'], i.get('ops', [])
        if op == 'load':
            return bits(i['ty']) == 64
        if op in ('add', 'sub', 'select', 'phi'):
            return any(self.wide(x, seen) for x in self.operands(i))
        if op == 'xor':
            return self.wide(ops[0], seen)
        if op in ('ashr', 'lshr'):
            return self.small(ops[1]) and self.wide(ops[0], seen)
        if op == 'sdiv':
            return self.distance(ops[0])
        if op == 'or':
            return any(self.shifted(x) for x in ops)
        if op in ('zext', 'sext', 'freeze'):
            return bits(i.get('fty', i['ty'])) is not None and bits(i.get('fty', i['ty'])) >= self.w and self.wide(ops[0], seen)
        return False

    def distance(self, o):
        i = self.d.get(o[1]) if o[0] == 'v' else None
        if i is None or i['op'] != 'sub':
            return False
        return all((self.d.get(x[1]) or {}).get('op') == 'ptrtoint' for x in i['ops'] if x[0] == 'v')

    def small(self, o):
        c = self.number(o)
        return c is not None and 0 <= c <= 1

    @staticmethod
    def number(o):
        try:
            return int(o[1]) if o[0] != 'v' and not isinstance(o[1], (list, dict)) else None
        except (ValueError, IndexError, TypeError):
            return None

    def shifted(self, o):
        """shift of an upper part, None: it is not one"""
        i = self.d.get(o[1]) if o[0] == 'v' else None
        if i is None:
            return None
        if i['op'] == 'or':
            return next((s for s in map(self.shifted, i['ops']) if s is not None), None)
        if i['op'] in ('shl', 'mul'):
            j = self.d.get(i['ops'][0][1]) if i['ops'][0][0] == 'v' else None
            if j is not None and j['op'] in ('sext', 'zext'):
                k = self.d.get(j['ops'][0][1]) if j['ops'][0][0] == 'v' else None
                if k is not None and k['op'] == 'load' and bits(k['ty']) in (8, 16):
                    return self.number(i['ops'][1])
        return None

    def index(self, o, sizes):
        """the index of an element that is loaded and may be extended or moved"""
        i = self.d.get(o[1]) if o[0] == 'v' else None
        while i is not None and i['op'] in ('zext', 'sext', 'shl', 'trunc') and i['ops'][0][0] == 'v':
            i = self.d.get(i['ops'][0][1])
        if i is None or i['op'] != 'load' or bits(i['ty']) not in sizes:
            return None
        g = self.d.get(i['ops'][0][1]) if i['ops'][0][0] == 'v' else None
        if g is None or g['op'] != 'getelementptr' or len(g['idx']) != 1:
            return None
        return tuple(g['idx'][0][0])

    def judge(self, r):
        w = self.w
        for i in self.d.values():
            if i['op'] == 'trunc' and 8 <= (bits(i['ty']) or 0) < w:
                us = self.uses.get(i['id'], [])
                r.count('narrowings judged')
                if all(u['op'] == 'store' for u in us):
                    continue
                if not self.wide(i['ops'][0]):
                    continue
                for u in us:
                    if u['op'] in ('zext', 'sext'):
                        vs = self.uses.get(u['id'], [])
                        if vs and not all(v['op'] in ('or', 'trunc', 'store') for v in vs):
                            r.bad('cut integer', self.f.loc(i), 'a position or count is cut to %d bits and used again, in the %d-bit sorter' % (bits(i['ty']), w))
            if i['op'] == 'load' and w in (40, 48, 56) and bits(i['ty']) == 32:
                r.count('loads of lower parts judged')
                for u in self.uses.get(i['id'], []):
                    if u['op'] in ('zext', 'sext'):
                        vs = self.uses.get(u['id'], [])
                        bad = [v for v in vs if v['op'] in ('add', 'sub', 'getelementptr', 'xor')]
                        if bad:
                            r.bad('cut integer', self.f.loc(i), 'only the lower 32 bits of an integer are used in the %d-bit sorter' % w)
            if i['op'] == 'icmp' and w in (40, 48, 56) and i.get('pred') in ('eq', 'ne'):
                for o in i['ops']:
                    x = self.index(o, (32,))
                    if x is not None:
                        r.count('comparisons of lower parts judged')
                        if not any(self.index(q, (8, 16)) == x for j in self.d.values() if j['op'] == 'icmp' for q in j['ops']):
                            r.bad('cut integer', self.f.loc(i), 'only the lower 32 bits of an integer are compared in the %d-bit sorter' % w)
            if i['op'] == 'or' and w in (40, 48, 56):
                for o in i['ops']:
                    j = self.d.get(o[1]) if o[0] == 'v' else None
                    if j is not None and j['op'] == 'shl':
                        s = self.shifted(o)
                        if s is not None:
                            r.count('upper parts judged')
                            if s not in [x for _, x in armx.PARTS[w]]:
                                r.bad('cut integer', self.f.loc(i), 'the upper part of an integer is moved by %d bits in the %d-bit sorter' % (s, w))


# ---------------------------------------------------------------- abstract executions on a partition of the texts

LONG = [
    [1, 2, 1, 2, 1, 2, 1, 2, 0],
    [2, 1, 3, 2, 1, 3, 2, 1, 2, 1, 3, 2, 1, 3, 0],
    [3, 1, 2, 1, 1, 2, 1, 2, 3, 1, 2, 1, 1, 2, 1, 2, 3, 3, 0],
    [9, 5, 8, 5, 7, 5, 8, 5, 6, 5, 8, 5, 7, 5, 8, 5, 9, 5, 8, 5, 7, 5, 8, 5, 6, 0],
    [1, 1, 1, 1, 1, 1, 0],
    [4, 3, 2, 1, 0],
    [1, 2, 3, 4, 0],
    [2, 2, 1, 2, 2, 1, 2, 2, 1, 1, 2, 2, 1, 0],
    [1, 40, 1, 40, 2, 40, 1, 40, 1, 40, 3, 40, 1, 40, 2, 0],
    [3, 3, 3, 1, 3, 3, 3, 1, 3, 3, 1, 3, 3, 3, 1, 3, 3, 3, 3, 1, 0],
]


def fib(n):
    a, b = [2], [2, 1]
    while len(b) < n:
        a, b = b, b + a
    return b[:n] + [0]


def texts(quick):
    for n in range(0, 5 if quick else 7):
        for t in itertools.product((1, 2) if n > 3 else (1, 2, 3), repeat=n):
            yield list(t) + [0], 3
    for t in LONG + [fib(34)] + ([] if quick else [fib(89), [1 + i * i % 7 for i in range(80)] + [0], [1 + (i // 3) % 3 for i in range(60)] + [0]]):
        yield t, max(t) + 1


def setups(quick):
    """(text, alphabet, free places, bits of an element)"""
    for n, (t, k) in enumerate(texts(quick)):
        k = max(k, max(t) + 1)
        yield t, k, 0, (7, 13, 6, 17)[n % 4]
        if len(t) > 6 or not quick:
            yield t, k, k, 9
            yield t, k, 2 * k + 1, 31
            yield t, k, k - 1, 8


def work(job):
    w, quick = job
    res, bad, steps, und, deep = {}, [], 0, 0, 0
    try:
        for i, (t, k, fs, b) in enumerate(setups(quick)):
            try:
                c, v, loc = saisx.sort(w, t, k, fs, b)
            except Budget:
                und += 1
                res[i] = None
                continue
            steps += c.steps
            deep += c.nested > 0
            bad += [(rule, l, '%s (text %s, %d free places)' % (msg, t if len(t) < 20 else '%s...' % t[:18], fs)) for rule, l, msg in c.bad]
            res[i] = (tuple(v), loc) if v is not None and None not in v else None
            und += res[i] is None and not c.bad
    except AnalysisError as e:
        return dict(error=str(e))
    return dict(result=res, bad=bad, steps=steps, undecided=und, deep=deep)


def run(tier):
    quick = tier == 'quick'
    r = Result("Dataflow over the IR of the five sorters: no value that can be a position or count (the length, an integer of the width, and what is computed "
               "from them) is narrowed below the width and used again, no integer is read without its upper part, and upper parts are moved to their places. "
               "Abstract interpretation of the five sorters on a partition of the texts: every text of up to four symbols over three (a cell of the "
               "partition is one text) and longer ones that make the sorter call itself, packed with element widths that cross word "
               "boundaries, with no free places, too few, and enough for one and two tables: what is left in the suffix array has to be the same for "
               "the five widths, and every access inside the arrays.",
               ["texts outside the partition are covered by the dataflow rule alone"])
    m = load(saisx.KEEP)
    for w in armx.W:
        f = m.one('flbwt::sais_%dbit' % w)
        r.count('functions analysed')
        Flow(f, w).judge(r)
    cases = list(setups(quick))
    with ProcessPoolExecutor(5) as ex:
        by = dict(zip(armx.W, ex.map(work, [(w, quick) for w in armx.W])))
    for w, x in by.items():
        if 'error' in x:
            raise AnalysisError(x['error'])
        r.count('abstract instructions', x['steps'])
        r.count('executions with recursion', x['deep'])
        if x['undecided']:
            r.count('undecided outcomes', x['undecided'])
        seen = set()
        for rule, loc, msg in x['bad']:
            if (rule, loc) not in seen:
                seen.add((rule, loc))
                r.bad(rule, loc, msg)
    done = set()
    for i, (t, k, fs, b) in enumerate(cases):
        have = {w: x['result'].get(i) for w, x in by.items()}
        vals = {w: v[0] for w, v in have.items() if v is not None}
        r.count('results compared', len(vals))
        bad, ref = outliers(vals)
        for w in bad:
            if w not in done:
                done.add(w)
                r.bad('other result', have[w][1], 'sais_%dbit gives %s for the text %s with %d free places, the others give %s' % (w, list(vals[w])[:20], t[:20], fs, list(ref)[:20]))
    if not r.coverage.get('results compared') and not r.coverage.get('undecided outcomes') and not r.violations:
        raise AnalysisError('C14: no sorter was followed')
    return r
