"""C23: the input is decomposed into the right substrings, and the statistics are exact."""
from front import AnalysisError, field, layout
from result import Result
from terms import *
import scan
from checks.c18 import cell, F

TABLES = (('M', 2, 'positions'), ('NL', 3, 'larger-type positions'), ('C', 4, 'substrings that start'))


def table(off, size=258):
    """(name, index) of a container offset"""
    for name, k, what in TABLES:
        d = sub(off, field(F, name))
        lo, hi = bounds(d)
        if lo is not None and lo >= 0 and hi is not None and hi < 8 * size:
            return name, d
    return None


def run(tier):
    top = 7 if tier == 'quick' else 9
    r = Result("The collecting scan is interpreted abstractly from its IR for each length up to %d with every byte symbolic, each order of neighbouring "
               "bytes on its own path, and for longer inputs (substrings around 4 to 258 bytes) with a given order of neighbours. Every path determines the type of every position; on every path the substrings entered into the table must be "
               "those between neighbouring S* positions (the end marker included), the first S* position must be the end of the head, and the "
               "increments of the per-character tables must be those the definition demands: every position and the end marker once in M, "
               "every larger-type position in NL, every S* position and the end marker in C." % top,
               ["the tables are only incremented (other stores to them are counted as undecided)"])
    ok = 0
    for n, c, ip in scan.runs(tier, r):
        for s in c.done:
            r.count('paths')
            ev = s.events()
            if any(e[0] == 'some' for e in ev):
                r.count('undecided paths')
                continue
            ins = [e for e in ev if e[0] == 'insert']
            cnt = [(e, table(e[1])) for e in ev if e[0] in ('count', 'set')]
            # only tables of the scan; stores of unknown values make them undecided
            und = {t[0] for e, t in cnt if t and e[0] == 'set'}
            for e, t in cnt:
                if e[0] == 'set' and not t and not isinstance(e[1], int) or e[0] == 'set' and isinstance(e[2], int) and e[2] > 8:
                    und |= {'M', 'NL', 'C'}
            for t, i in s.x.get('cleared', ()):
                if t not in und:
                    r.bad('not cleared', s.x['sais'], 'entry %d of the table %s is not set to zero before the scan counts in it' % (i, t))
            ws = scan.witnesses(s, n)
            if not ws:
                r.count('paths no input takes')
                continue
            for w in ws:
                subs, head, M, NL, C = scan.spec(w)
                r.count('type patterns judged')
                if all(isinstance(x, int) for e in ins for x in e[1:3]):
                    a = [tuple(e[1:3]) for e in ins]
                    if a != subs:
                        k = next((i for i in range(min(len(a), len(subs))) if a[i] != subs[i]), min(len(a), len(subs)))
                        sh = lambda l: 'T[%d..%d]' % (l[k][1], l[k][1] + l[k][0] - 1) if k < len(l) else 'none'
                        r.bad('wrong substring', ins[k][3] if k < len(ins) else s.x['sais'], '%s, substring %d from the right is %s instead of %s' % (
                            scan.show(w), k + 1, sh(a), sh(subs)))
                else:
                    r.count('undecided paths')
                h = cell(s, 'head_string_end')
                if isinstance(h, int) and h != head:
                    r.bad('wrong head', s.x['sais'], '%s, the head is said to end at %d instead of %d' % (scan.show(w), h, head))
                for (name, k, what), want in zip(TABLES, (M, NL, C)):
                    if name in und:
                        r.count('undecided tables')
                        continue
                    got, where, fail = {}, {}, False
                    for e, t in cnt:
                        if t and t[0] == name and e[0] == 'count':
                            v = scan.value(t[1], w)
                            if v is None or v % 8:
                                fail = True
                                break
                            got[v // 8] = got.get(v // 8, 0) + e[2]
                            where[v // 8] = e[3]
                    if fail:
                        r.count('undecided tables')
                        continue
                    r.count('tables judged')
                    for i in sorted(set(got) | set(want)):
                        if got.get(i, 0) != want.get(i, 0):
                            loc = where.get(i) or next((e[3] for e, t in cnt if t and t[0] == name), s.x['sais'])
                            r.bad('wrong statistics', loc, '%s, %s[%d] counts %d instead of %d %s' % (
                                scan.show(w), name, i, got.get(i, 0), want.get(i, 0), what))
                            break
                ok += 1
    if not ok and not r.violations:
        raise AnalysisError('C23: nothing was decided')
    return r
