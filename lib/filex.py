"""Abstract execution of flbwt::bwt_file with a model of stdio, of the allocator and of the in-memory transform.
Every library call may succeed or fail; failures of a stream persist.  At most `faults` failures per path."""
from front import load, AnalysisError, REPO
from terms import *
from state import *
from interp import Interp, Client, Fork

KEEP = ['flbwt::bwt_file', 'flbwt::bwt_string']
HARMLESS = {'setvbuf', 'setbuf', 'fileno', 'clearerr', '__errno_location', 'perror', 'puts', 'printf', 'fprintf', 'strerror', 'strlen'}
TOUCH = {'remove': 'removes', 'unlink': 'removes', 'truncate': 'truncates', 'creat': 'creates', 'rename': 'replaces', 'chmod': 'changes'}


def entry():
    f = load(KEEP).one('flbwt::bwt_file')
    if f.argty[:2] != ['ptr', 'ptr']:
        raise AnalysisError('unexpected signature of flbwt::bwt_file')
    return f


def radd(x, y):
    return None if x is None else add(x, y)


class Stream:
    __slots__ = ('id', 'file', 'mode', 'open', 'pos', 'err', 'loc')

    def __init__(self, **k):
        for a, v in k.items():
            setattr(self, a, v)

    def but(self, **k):
        d = {a: getattr(self, a) for a in Stream.__slots__}
        d.update(k)
        return Stream(**d)

    def __repr__(self):
        return 'stream(%s,%s,%s,%s,%r,%s)' % (self.id, self.file, self.mode, self.open, self.pos, self.err)


class FileClient(Client):
    def __init__(self, faults=1, oom=False, empty=None):
        Client.__init__(self)
        self.faults = faults      # file operations that may fail on a path
        self.oom = oom            # may allocations fail
        self.bad = []             # (kind, loc, message, state)
        self.sites = {}
        self.unmodelled = set()

    # -------------------------------------------------------------- helpers
    def streams(self, st):
        return st.x.get('streams', {})

    def setstream(self, st, s):
        d = dict(st.x.get('streams', {}))
        d[s.id] = s
        st.x['streams'] = d

    def nfaults(self, st):
        return len(st.x.get('faults', ()))

    def fault(self, st, what, loc):
        st.x['faults'] = st.x.get('faults', ()) + ((what, loc),)
        st.event('fault', what, loc)

    def err(self, kind, loc, msg, st):
        self.bad.append((kind, loc, msg, st))

    def which(self, p):
        if isinstance(p, Ptr) and p.base in ('in', 'out'):
            return p.base
        if isinstance(p, Ptr) and isinstance(p.base, tuple) and p.base[0] == 'glob':
            return 'constant'
        return None

    def text(self, ip, p):
        if isinstance(p, Ptr) and isinstance(p.base, tuple) and p.base[0] == 'glob' and p.off == 0:
            g = ip.mod.globals.get(p.base[1])
            if g and g.get('str') is not None:
                return g['str'].rstrip('\0')
        return None

    def stream_of(self, ip, st, ins, p, name):
        """stream a call works on; None when unknown. Raises Dead on definite misuse."""
        from interp import Dead
        loc = ip.fn.loc(ins)
        if isinstance(p, Ptr):
            if p.base is None:
                self.err('null stream', loc, '%s is called on a stream that could not be opened' % name, st)
                raise Dead()
            s = self.streams(st).get(p.base)
            if s is not None:
                if not s.open:
                    self.err('closed stream', loc, '%s is called on the stream opened at %s after it was closed' % (name, s.loc), st)
                    raise Dead()
                return s
        return None

    def count_site(self, ip, name, ins):
        self.sites.setdefault((name, ip.fn.loc(ins)), 0)
        self.sites[(name, ip.fn.loc(ins))] += 1

    def may(self, st):
        return self.nfaults(st) < self.faults

    def shapex(self, x):
        st = tuple(sorted((repr(k), s.file, s.mode, s.open, s.err) for k, s in x.get('streams', {}).items()))
        return (st, x.get('thrown'), x.get('faults'), x.get('transforms'))

    def joinx(self, a, b):
        r = dict(a)
        ch = False
        ss = {}
        for k, s in a.get('streams', {}).items():
            t = b.get('streams', {}).get(k)
            if t is None or t.pos != s.pos:
                ch = ch or s.pos is not None
                s = s.but(pos=None)
            ss[k] = s
        if ss:
            r['streams'] = ss
        for k in ('read',):
            if a.get(k, 0) != b.get(k, 0):
                ch = ch or a.get(k, 0) is not None
                r[k] = None
        if a.get('out') != b.get('out'):
            o = (('*', ('unknown', None), ''),)
            ch = ch or a.get('out') != o
            r['out'] = o
        return r, ch

    # -------------------------------------------------------------- model
    def initial(self, ip, st, ins, p, o, size, ty):
        if o.name == 'result':
            if ty == 'ptr':
                if 'BWT' not in st.objs:
                    return None
                return Ptr('BWT', 0)
            if size == 8:
                return lin(self.last)
        return None

    def transform(self, ip, st, ins, args):
        loc = ip.fn.loc(ins)
        T, n, fr = (list(args) + [None, None, None])[:3]
        st.event('transform', loc)
        st.x['transforms'] = st.x.get('transforms', 0) + 1
        s2 = st.copy()      # it throws
        o = st.objs.get(T.base) if isinstance(T, Ptr) else None
        z = None
        if o is not None and is_num(n):
            c = o.cells.get(add(T.off, n))
            z = c[1] if c is not None else ip.byte_at(o, add(T.off, n))
            if isinstance(z, list):
                z = frombits(z)
        st.x['input'] = (T.base if isinstance(T, Ptr) else None, T.off if isinstance(T, Ptr) else None, n, repr(z), loc)
        st.x['read_at_transform'] = st.x.get('read', 0)
        st.x['sure_read'] = st.x.get('read_exact', True)
        if isinstance(T, Ptr) and T.base is not None and o is not None:
            if fr == 1 or isinstance(fr, Cond) and st.decide(fr) == 1:
                ip.free(st, ip.fn, ins, 'malloc', T)
        self.last = atom('last', name='last', w=64, bits=True, lo=0, meta='lin')
        st.new_obj('malloc', None, loc, 'result', key='result')
        st.new_obj('new[]', add(n, 1) if is_num(n) else None, loc, 'BWT', key='BWT')
        if is_num(n):
            st.assume(mk_le(sub(lin(self.last), n)))
        out = [(st, Ptr('result', 0))]
        if isinstance(n, (int, Lin)) and st.decide(mk_le(sub(1, n))) != 1:
            # length zero may be passed: then it throws
            st3 = s2
            if st3.assume(mk_le(n)):
                out.append((st3, 'THROW'))
            if not st.assume(mk_le(sub(1, n))):
                out = out[1:]
        elif self.oom and self.may(s2):
            self.fault(s2, 'an allocation of the transform', loc)
            out.append((s2, 'THROW'))
        return out

    def call(self, ip, st, ins, name, callee, args):
        if callee is not None and callee.base == 'flbwt::bwt_string':
            return self.transform(ip, st, ins, args)
        fn = ip.fn
        loc = fn.loc(ins)
        if name == '__cxa_throw':
            st.x['thrown'] = (repr(args[1]) if len(args) > 1 else '', loc)
            return None
        if name in ('fopen', 'fopen64'):
            self.count_site(ip, 'fopen', ins)
            f = self.which(args[0])
            mode = self.text(ip, args[1])
            res = []
            if self.may(st):
                b = st.copy()
                self.fault(b, 'fopen', loc)
                b.event('openfail', f, mode, loc)
                res.append((b, NULL))
            k = st.new_obj('FILE', None, loc, 'stream')
            self.setstream(st, Stream(id=k, file=f, mode=mode, open=True, pos=0, err=False, loc=loc))
            st.event('open', f, mode, loc)
            return [(st, Ptr(k, 0))] + res
        if name in ('fclose',):
            self.count_site(ip, name, ins)
            s = self.stream_of(ip, st, ins, args[0], name)
            if s is None:
                self.unmodelled.add(loc)
                return [(st, ip.fresh_of(ins['ty'], name))]
            res = []
            if self.may(st) and s.file == 'out':
                b = st.copy()
                self.fault(b, 'fclose', loc)
                self.setstream(b, s.but(open=False))
                b.event('close', s.file, loc)
                res.append((b, -1))
            self.setstream(st, s.but(open=False))
            st.event('close', s.file, loc)
            return [(st, 0)] + res
        if name in ('fseek', 'fseeko', 'rewind', 'fseeko64'):
            self.count_site(ip, name, ins)
            s = self.stream_of(ip, st, ins, args[0], name)
            if s is None:
                self.unmodelled.add(loc)
                return [(st, ip.fresh_of(ins['ty'], name) if ins['ty'] != 'void' else None)]
            if name == 'rewind':
                off, wh = 0, 0
            else:
                off, wh = args[1], args[2]
            size = lin(atom('size', name='size', lo=0, hi=1 << 62))
            pos = off if wh == 0 else add(size, off) if wh == 2 else add(s.pos, off) if is_num(s.pos) else None
            res = []
            if self.may(st) and name != 'rewind' and s.file == 'in':
                b = st.copy()
                self.fault(b, name, loc)
                b2 = b.copy()
                self.setstream(b, s.but(err='seek'))
                res += [(b, -1), (b2, -1)]
            if s.err == 'seek' and name != 'rewind':
                return [(st, -1)]
            self.setstream(st, s.but(pos=pos))
            return [(st, 0 if name != 'rewind' else None)] + res
        if name in ('ftell', 'ftello', 'ftello64'):
            self.count_site(ip, name, ins)
            s = self.stream_of(ip, st, ins, args[0], name)
            if s is None or not is_num(s.pos):
                return [(st, ip.fresh_of(ins['ty'], name))]
            if s.err == 'seek':
                return [(st, -1)]
            res = []
            if self.may(st) and s.file == 'in':
                b = st.copy()
                self.fault(b, name, loc)
                b2 = b.copy()
                self.setstream(b, s.but(err='seek'))
                res += [(b, -1), (b2, -1)]
            return [(st, s.pos)] + res
        if name in ('fread', 'fread_unlocked'):
            self.count_site(ip, 'fread', ins)
            s = self.stream_of(ip, st, ins, args[3], name)
            p, es, cnt = args[0], ip.num(args[1]), ip.num(args[2])
            whole = isinstance(cnt, int) and cnt == 1   # all or nothing
            if whole:
                es, cnt = 1, es
            if s is not None and isinstance(es, int) and s.pos is None:
                # the position is not known any more
                self.unmodelled.add(loc)
                st.x['read'] = None
                if isinstance(p, Ptr):
                    ip.getobj(st, p, ins, True, 1)
                    ip.havoc_obj(st, p.base)
                if s.err == 'read':
                    return [(st, 0)]
                res = []
                if self.may(st):
                    b = st.copy()
                    r = lin(fresh('short', lo=0))
                    if b.assume(mk_le(sub(add(r, 1), cnt))):
                        self.fault(b, 'fread?', loc)
                        self.setstream(b, s.but(err='read'))
                        res.append((b, 0 if whole else r))
                        b = b.copy()
                        self.setstream(b, s.but(err='readonce'))
                        res.append((b, 0 if whole else r))
                r = lin(fresh('got', lo=0, hi=1 if whole else None))
                if not whole:
                    st.assume(mk_le(sub(r, cnt)))
                return [(st, r)] + res
            if s is None or not isinstance(es, int) or not is_num(s.pos):
                self.unmodelled.add(loc)
                st.x['read'] = None
                if isinstance(p, Ptr):
                    ip.havoc_obj(st, p.base)
                return [(st, ip.fresh_of(ins['ty'], name))]
            if isinstance(p, Ptr):
                ip.getobj(st, p, ins, True, 1)
                ip.c.access(ip, st, ins, p, scale(cnt, es), True)
                ip.kill(st, st.wobj(p.base), p.off, scale(cnt, es))
                st.wobj(p.base).written = True
            if s.err == 'read':
                return [(st, 0)]
            size = lin(atom('size', name='size', lo=0, hi=1 << 62))
            avail = sub(size, s.pos)
            want = scale(cnt, es)
            c = mk_le(sub(want, avail))
            d = st.decide(c)
            if d is None:
                raise Fork(c)
            if es != 1 and not d:
                self.unmodelled.add(loc)
                st.x['read'] = None
                return [(st, ip.fresh_of(ins['ty'], name))]
            got = cnt if d else avail
            res = []
            if self.may(st):
                b = st.copy()
                if b.assume(mk_le(sub(1, got))):
                    r = lin(atom(('short', loc), name='short', lo=0))
                    b.assume(mk_le(sub(add(r, 1), got)))
                    self.fault(b, 'fread', loc)
                    b.x['read'] = radd(b.x.get('read', 0), scale(r, es))
                    for e in ('read', 'readonce'):
                        b = b.copy()
                        self.setstream(b, s.but(err=e, pos=add(s.pos, scale(r, es))))
                        res.append((b, 0 if whole else r))
            self.setstream(st, s.but(pos=add(s.pos, scale(got, es))))
            st.x['read'] = radd(st.x.get('read', 0), scale(got, es))
            if s.file == 'in' and isinstance(p, Ptr):
                st.event('read', p.base, p.off, scale(got, es), s.pos, loc)
            return [(st, got if not whole else 1 if d else 0)] + res
        if name in ('fwrite', 'fwrite_unlocked', 'fputc', 'putc', '_IO_putc', 'fputs', 'putc_unlocked'):
            self.count_site(ip, name, ins)
            s = self.stream_of(ip, st, ins, args[-1], name)
            if s is None:
                self.unmodelled.add(loc)
                return [(st, ip.fresh_of(ins['ty'], name))]
            if name.startswith('fwrite'):
                p, es, cnt = args[0], ip.num(args[1]), ip.num(args[2])
                whole = isinstance(cnt, int) and cnt == 1
                if whole:
                    es, cnt = 1, es
                if not isinstance(es, int):
                    self.unmodelled.add(loc)
                    return [(st, ip.fresh_of(ins['ty'], name))]
                n = scale(cnt, es)
                data = None
                if isinstance(p, Ptr):
                    if not (isinstance(n, int) and n == 0):
                        o = ip.getobj(st, p, ins, False, 1)
                        ip.c.access(ip, st, ins, p, n, False)
                    if p.base == 'BWT':
                        data = ('bwt', p.off, n)
                    elif isinstance(n, int) and n <= 64:
                        bs = [ip.byte_at(st.objs[p.base], add(p.off, k)) for k in range(n)]
                        data = ('bytes', tuple(tuple(b) if b is not None else None for b in bs))
                    else:
                        data = ('unknown', n)
            elif name == 'fputs':
                data, cnt = ('unknown', None), 1
            else:
                b = ip.bitsof(args[0], 32)
                data, cnt = ('bytes', (tuple(b[:8]) if b is not None else None,)), 1
            if s.err == 'write':
                return [(st, 0 if name.startswith('fwrite') else -1)]
            res = []
            if self.may(st):
                b = st.copy()
                ok = b.assume(mk_le(sub(1, cnt)))
                if ok:
                    self.fault(b, name, loc)
                    part = 0
                    if name.startswith('fwrite'):
                        if whole or isinstance(cnt, int) and cnt == 1:
                            r = 0
                        else:
                            r = part = lin(atom(('short', loc), name='short', lo=0))
                            b.assume(mk_le(sub(add(r, 1), cnt)))
                    else:
                        r = -1
                    if data is not None and data[0] == 'bwt':
                        b.x['out'] = b.x.get('out', ()) + ((s.file, ('bwt', data[1], scale(part, es)), loc),)
                    elif data is not None:
                        b.x['out'] = b.x.get('out', ()) + ((s.file, ('part', scale(part, es if name.startswith('fwrite') else 1)), loc),)
                    for e in ('write', 'writeonce'):
                        b = b.copy()
                        self.setstream(b, s.but(err=e))
                        res.append((b, r))
            st.x['out'] = st.x.get('out', ()) + ((s.file, data, loc),)
            return [(st, (1 if whole else cnt) if name.startswith('fwrite') else args[0] if name != 'fputs' else 1)] + res
        if name in ('ferror', 'feof'):
            s = self.stream_of(ip, st, ins, args[0], name)
            if s is None:
                return [(st, ip.fresh_of(ins['ty'], name))]
            if name == 'ferror':
                return [(st, 1 if s.err in ('read', 'write', 'readonce', 'writeonce') else 0)]
            return [(st, ip.fresh_of(ins['ty'], name))]
        if name in ('fflush',):
            s = self.stream_of(ip, st, ins, args[0], name)
            if s is None:
                return [(st, ip.fresh_of(ins['ty'], name))]
            if s.err == 'write':
                return [(st, -1)]
            res = []
            if self.may(st):
                b = st.copy()
                self.fault(b, name, loc)
                self.setstream(b, s.but(err='write'))
                res.append((b, -1))
            return [(st, 0)] + res
        if name in ('fgetc', 'getc', '_IO_getc', 'getc_unlocked', 'fgets'):
            self.stream_of(ip, st, ins, args[-1], name)
            self.unmodelled.add(loc)
            st.x['read'] = None
            return [(st, ip.fresh_of(ins['ty'], name))]
        if name in TOUCH:
            for a in args:
                w = self.which(a)
                if w:
                    st.event('touch', w, TOUCH[name], loc)
            return [(st, ip.fresh_of(ins['ty'], name))]
        if name in ('freopen', 'open', 'open64', 'fdopen', 'popen', 'system', 'mmap', 'dup', 'dup2', 'ftruncate'):
            for a in args:
                w = self.which(a)
                if w == 'out':
                    st.event('touch', w, 'opens', loc)
            self.unmodelled.add(loc)
            return [(st, ip.fresh_of(ins['ty'], name))]
        if name in HARMLESS:
            for a in args:
                if isinstance(a, Ptr) and a.base in self.streams(st):
                    self.stream_of(ip, st, ins, a, name)
            return [(st, ip.fresh_of(ins['ty'], name) if ins['ty'] != 'void' else None)]
        if name in ip.ALLOC and self.oom and self.may(st):
            if ins.get('loc') and ins['loc'][0].startswith(REPO):
                b = st.copy()
                self.fault(b, name == 'malloc' and 'malloc' or 'operator new' if name.startswith('_Z') else name, loc)
                r = ip.default_call(st, fn, ins, name, callee, args)
                return r + [(b, 'THROW' if name.startswith('_Z') and 'nothrow' not in name else NULL)]
        return None

    def null_access(self, ip, st, ins, write):
        self.err('null access', ip.fn.loc(ins), 'a null pointer is %s' % ('written through' if write else 'read'), st)

    def dead_access(self, ip, st, ins, obj, write):
        self.err('dead access', ip.fn.loc(ins), 'memory allocated at %s is %s after it was released' % (obj.site, 'written' if write else 'read'), st)

    def bad_free(self, ip, st, ins, what, obj):
        self.err('bad free', ip.fn.loc(ins), 'memory allocated at %s: %s' % (obj.site, what), st)


def run(client):
    reset()
    f = entry()
    st = State()
    st.new_obj('ext', None, None, 'input name', True, key='in')
    st.new_obj('ext', None, None, 'output name', True, key='out')
    st.env = dict(zip(f.args, [Ptr('in', 0), Ptr('out', 0)]))
    ip = Interp(f.mod, client)
    outs = ip.run(f, st)
    return f, ip, outs


def path(s):
    """the file operations of a path, for a report"""
    r = []
    for e in s.events():
        if e[0] == 'open':
            r.append('open %s %s' % (e[1] or '?', e[2]))
        elif e[0] == 'fault':
            r.append('%s fails (%s)' % (e[1], e[2].split(' ')[0]))
        elif e[0] in ('transform',):
            r.append('transform')
        elif e[0] == 'close':
            r.append('close %s' % (e[1] or '?'))
    return ', '.join(r)
