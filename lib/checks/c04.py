"""C04: a failed file operation is always reported."""
from result import Result
from checks.filecommon import *

NAMES = {'fopen': 'opening a file', 'fseek': 'sizing the input', 'fseeko': 'sizing the input', 'ftell': 'sizing the input', 'ftello': 'sizing the input',
         'fread': 'reading the input', 'fclose': 'closing the output'}


def written(s):
    """did all 8 + n bytes reach the output: 1, 0 or None"""
    t = 0
    for w, d, l in s.x.get('out', ()):
        if w == 'out' and d is not None and d[0] == 'bwt':
            t = add(t, d[2])
        elif w == 'out' and d is not None and d[0] == 'bytes':
            t = add(t, len(d[1]))
        elif w == 'out' and d is not None and d[0] == 'part':
            t = add(t, d[1])
        elif w != 'out' and w != '*':
            continue
        else:
            return None
    n = s.x['input'][2] if 'input' in s.x else None
    return s.decide(mk_eq(sub(t, add(n, 8)))) if is_num(n) else None


def run(tier):
    r = Result("flbwt::bwt_file is interpreted abstractly from its IR with a model of stdio in which every call may succeed or fail (a failed "
               "stream stays failed; a short read or write returns any smaller count), and in which the file's size, the result's bytes and its "
               "position are symbols. For every call site that can fail, every path on which it fails must leave the function by an exception.",
               ["stdio behaves as the C standard says: a call that cannot do its work returns its documented error value",
                "the in-memory transform is taken by its contract here"])
    for faults in ((1,) if tier == 'quick' else (1, 2, 3)):
        e = explore(r, faults, False)
        if e is None:
            continue
        f, c, outs = e
        failed = set()
        for k, s, v, loc in outs:
            for n, l in faults_of(s):
                failed.add((n, l))
            if k == 'ret' and faults_of(s):
                n, l = faults_of(s)[0]
                if n == 'fread' and 'input' in s.x:
                    rd = s.x.get('read_at_transform', 0)
                    d = None if rd is None else s.decide(mk_eq(sub(rd, lin(atom('size', name='size', lo=0, hi=1 << 62)))))
                    if d != 0:
                        r.count('failures made good' if d else 'undecided failures')
                        continue
                if n in ('fwrite', 'fputc', 'putc', 'fwrite_unlocked') and any(x.err == 'writeonce' for x in s.x['streams'].values()):
                    # this call failed, later ones did not: everything may have been written all the same
                    d = written(s)
                    if d != 0:
                        r.count('failures made good' if d else 'undecided failures')
                        continue
                if n == 'fread?':
                    r.count('undecided failures')
                    continue
                r.bad('failure not reported', l, '%s fails here (%s), and bwt_file returns normally: %s' % (
                    n, NAMES.get(n, 'writing the output'), filex.path(s)))
            r.count('failing paths' if faults_of(s) else 'paths without a failure')
        for k, l, m, s in c.bad:
            if faults_of(s) and k in ('null stream', 'null access'):
                r.bad('failure not reported', l, '%s: %s' % (m, filex.path(s)))
        r.coverage['call sites made to fail'] = len(failed)
        if len(failed) < 3:
            raise AnalysisError('C04: only %d call sites that can fail were found' % len(failed))
    return r
