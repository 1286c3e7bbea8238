"""C18: the renaming scan sees the substrings the collecting scan saw."""
from front import AnalysisError, field
from result import Result
from terms import *
import scan

F = 'flbwt::Container'


def cell(s, name):
    o = s.objs.get(s.x.get('container'))
    c = o.cells.get(field(F, name)) if o is not None else None
    return c[1] if c is not None else None


def run(tier):
    top = 7 if tier == 'quick' else 9
    r = Result("Both scans of the input are interpreted abstractly from their IR, for each length up to %d with every byte symbolic, each order of "
               "neighbouring bytes on its own path, and for longer inputs (substrings around 4 to 258 bytes) with a given order of neighbours, up to the call of the suffix sorter. On every path the list of (length, offset) given to "
               "insert_string must equal the list given to find_name, the number of substrings counted must equal the length of that list, the "
               "number of different ones the number of insertions that reported a new string, and the stores to the shortened string must fill "
               "every slot: the head's name first, then the name looked up for each substring in input order, then 0." % top,
               ["the table finds what was inserted (C12)", "stores to the shortened string go through PackedArray::set_value"])
    ok = 0
    for n, c, ip in scan.runs(tier, r):
        for s in c.done:
            r.count('paths')
            ev = s.events()
            if any(e[0] == 'some' for e in ev):
                r.count('undecided paths')
                continue
            ins = [e for e in ev if e[0] == 'insert']
            fnd = [e for e in ev if e[0] == 'find']
            puts = [e for e in ev if e[0] == 'put']
            if any(not isinstance(x, int) for e in ins + fnd for x in e[1:3]):
                r.count('undecided paths')
                continue
            w = None

            def bad(rule, loc, msg):
                nonlocal w
                if w is None:
                    w = scan.witness(s, n)
                if w is None:
                    r.count('paths no input takes')
                    return
                r.bad(rule, loc, '%s, %s' % (scan.show(w), msg))
            a, b = [e[1:3] for e in ins], [e[1:3] for e in fnd]
            r.count('substrings compared', len(a))
            if a != b:
                k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
                loc = fnd[k][3] if k < len(fnd) else ins[k][3]
                sh = lambda l: 'T[%d..%d]' % (l[k][1], l[k][1] + l[k][0] - 1) if k < len(l) else 'none'
                bad('scans differ', loc, 'substring %d from the right is %s when it is collected and %s when it is looked up' % (k + 1, sh(a), sh(b)))
                continue
            num = cell(s, 'num_of_substrings')
            if isinstance(num, int) and num != len(a):
                bad('count of substrings', s.x['sais'], '%d substrings are collected, but %d are counted' % (len(a), num))
            uni = cell(s, 'num_of_unique_substrings')
            tot = 0
            for e in ins:
                v = e[4]
                if not isinstance(v, int):
                    v = 0 if s.decide(mk_eq(v)) == 1 else 1 if s.decide(mk_eq(sub(v, 1))) == 1 else v
                tot = add(tot, v)
            if is_num(uni) and isinstance(sub(uni, tot), int) and sub(uni, tot) != 0:
                bad('count of different substrings', s.x['sais'], '%r substrings are new, but %r are counted' % (tot, uni))
            # the shortened string
            bases = {e[1] for e in puts}
            if len(bases) != 1 or any(not isinstance(e[2], int) for e in puts):
                r.count('undecided paths')
                continue
            T1 = s.objs.get(next(iter(bases)))
            ln = T1.cells.get(field('flbwt::PackedArray', 'length')) if T1 is not None else None
            slot = {}
            for e in puts:
                if ln is not None and isinstance(ln[1], int) and not 0 <= e[2] < ln[1]:
                    bad('outside the shortened string', e[4], 'slot %d of a shortened string of %d is stored' % (e[2], ln[1]))
                slot[e[2]] = e
            k = len(a)
            for i in range(k + 2):
                r.count('slots judged')
                if i not in slot:
                    bad('slot not filled', s.x['sais'], 'slot %d of the shortened string (0 to %d) is never stored' % (i, k + 1))
                    continue
                v = slot[i][3]
                if i == k + 1:
                    if isinstance(v, int) and v != 0:
                        bad('wrong name', slot[i][4], 'the last slot of the shortened string is %d instead of 0' % v)
                elif i == 0:
                    d = sub(v, add(tot, 1)) if is_num(v) else None
                    if isinstance(d, int) and d != 0:
                        bad('wrong name', slot[i][4], 'the first slot of the shortened string is not the name of the head')
                else:
                    e = next((e for e in fnd if e[4] is v or e[4] == v), None)
                    if e is None:
                        if isinstance(v, int):
                            bad('wrong name', slot[i][4], 'slot %d of the shortened string is the constant %d' % (i, v))
                        else:
                            r.count('slots with values not followed')
                    elif e is not fnd[k - i]:
                        bad('wrong name', slot[i][4], 'slot %d of the shortened string holds the name of the substring at %d instead of the one at %d' % (
                            i, e[2], fnd[k - i][2]))
            ok += 1
        r.count('paths that end before the sorter', len(c.outs))
    if not ok and not r.violations:
        raise AnalysisError('C18: nothing was decided')
    return r
