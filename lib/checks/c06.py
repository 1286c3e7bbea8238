"""C06: the output file is touched only after the transform succeeded."""
from result import Result
from checks.filecommon import *


def run(tier):
    r = Result("Order of effects in flbwt::bwt_file over every path of its IR (stdio calls and allocations failing or succeeding): the input is "
               "opened only in a mode that cannot change it; no call that can create, change or remove the output file comes before the in-memory "
               "transform has returned; when the transform is called, the bytes read add up to the size of the file, its length argument is that "
               "size and the buffer ends with a zero byte; and the output is opened in a mode that replaces its whole content.",
               ["the two file names denote different files"])
    for faults in ((0, 1) if tier == 'quick' else (0, 1, 2, 3)):
        e = explore(r, faults, True)
        if e is None:
            continue
        f, c, outs = e
        for k, s, v, loc in outs:
            done = False
            outopen = False
            for ev in s.events():
                if ev[0] == 'some':
                    for x in ev[1]:
                        if x[0] in ('open', 'openfail', 'touch') and not done:
                            judge(r, x, False, s)
                    continue
                if ev[0] == 'transform':
                    done = True
                elif ev[0] in ('open', 'openfail', 'touch'):
                    judge(r, ev, done, s)
                    outopen = outopen or ev[1] == 'out'
            # a transform that failed has an event but no result
            if k == 'throw' and done and 'input' not in s.x:
                n = 0
                for ev in s.events():
                    if ev[0] == 'transform':
                        n = 1
                    elif n and ev[0] in ('open', 'openfail', 'touch') and ev[1] == 'out':
                        r.bad('output touched before the transform succeeded', ev[3] if len(ev) > 3 else ev[-1],
                              'the output file is opened although the transform failed: %s' % filex.path(s))
            if k == 'ret':
                r.count('successful paths')
                if not done and not faults_of(s):
                    r.bad('no transform', loc, 'bwt_file returns without having computed the transform: %s' % filex.path(s))
            if 'input' in s.x:
                T, off, n, z, l = s.x['input']
                r.count('calls of the transform')
                size = lin(atom('size', name='size', lo=0, hi=1 << 62))
                rd = s.x.get('read_at_transform', 0)
                if rd is not None and s.decide(mk_eq(sub(rd, size))) == 0:
                    r.bad('input not read completely', l, 'the transform starts when %r of %r bytes were read: %s' % (rd, size, filex.path(s)))
                elif is_num(n) and s.decide(mk_eq(sub(n, size))) == 0:
                    r.bad('wrong length', l, 'the transform is given the length %r of an input of %r bytes: %s' % (n, size, filex.path(s)))
                elif rd is None or s.decide(mk_eq(sub(rd, size))) is None:
                    r.count('undecided reads')
    return r


def judge(r, ev, done, s):
    kind, f = ev[0], ev[1]
    loc = ev[3]
    r.count('effects judged')
    if kind == 'touch':
        if f == 'out' and not done:
            r.bad('output touched before the transform succeeded', loc, 'a call %s the output file before the transform was computed: %s' % (ev[2], filex.path(s)))
        if f == 'in':
            r.bad('input changed', loc, 'a call %s the input file' % ev[2])
        if f == 'out' and done and ev[2] in ('removes', 'replaces'):
            r.count('effects on the output after the transform')
        return
    mode = ev[2]
    if f == 'in':
        if mode is not None and (mode[:1] != 'r' or '+' in mode):
            r.bad('input opened for writing', loc, 'the input file is opened with mode "%s"' % mode)
    elif f == 'out':
        if mode is not None and mode[:1] == 'r' and '+' not in mode:
            return
        if not done:
            r.bad('output touched before the transform succeeded', loc, 'the output file is opened with mode "%s" before the transform was computed: %s' % (mode, filex.path(s)))
        if mode is not None and (mode[:1] != 'w' or 'x' in mode):
            r.bad('output not replaced', loc, 'the output file is opened with mode "%s", which does not replace its content' % mode)
