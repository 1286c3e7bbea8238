"""Heap typestate: which blocks are allocated, released, used after release or lost, on every path of an entry."""
from front import load, AnalysisError, REPO
from terms import *
from state import *
from interp import Interp, Client, Dead

HEAPK = ('malloc', 'new', 'new[]')
QM = ['flbwt::Queue::Queue', 'flbwt::Queue::is_empty', 'flbwt::Queue::enqueue', 'flbwt::Queue::enqueue_l', 'flbwt::Queue::dequeue', 'flbwt::Queue::~Queue']
PAM = ['flbwt::PackedArray::set_value', 'flbwt::PackedArray::get_value']


class HeapClient(Client):
    max_terms = 4
    moves = True

    def __init__(self):
        Client.__init__(self)
        self.bad = {}       # (rule, loc) -> (message, object)
        self.frees = {}     # location -> number of abstract releases
        self.allocs = set()
        self.accesses = 0
        self.models = {}
        self.oom = False    # one allocation per path may fail
        self.failed = set() # allocation sites made to fail

    def null_access(self, ip, st, ins, write):
        if st.x.get('oom'):
            self.flag('null access', ip.fn.loc(ins), 'a null pointer is %s after the allocation at %s failed' % (
                'written through' if write else 'read', st.x['oom']), None)

    def fail(self, ip, st, ins, name, callee, args):
        """the outcomes of an allocation that may fail"""
        loc = ip.fn.loc(ins)
        b = st.copy()
        b.x = dict(b.x, oom=loc)
        self.failed.add(loc)
        r = ip.default_call(st, ip.fn, ins, name, callee, args)
        return r + [(b, 'THROW' if name.startswith('_Z') and 'nothrow' not in name else NULL)]

    def flag(self, rule, loc, msg, obj):
        self.bad.setdefault((rule, loc), (msg, obj))

    def call(self, ip, st, ins, name, callee, args):
        if name in ip.ALLOC or name in ('realloc',):
            self.allocs.add(ip.fn.loc(ins))
            if self.oom and not st.x.get('oom') and ins.get('loc') and ins['loc'][0].startswith(REPO):
                return self.fail(ip, st, ins, name, callee, args)
        if callee is not None and callee.name in self.models:
            return self.models[callee.name](ip, st, ins, name, callee, args)
        return None

    def access(self, ip, st, ins, p, size, write, val=None):
        self.accesses += 1

    def dead_access(self, ip, st, ins, obj, write):
        self.flag('use after release', ip.fn.loc(ins), 'memory %s is %s after it was released or moved' % (what(obj), 'written' if write else 'read'), obj)

    def bad_free(self, ip, st, ins, kind, obj):
        loc = ip.fn.loc(ins)
        if kind == 'double':
            self.flag('released twice', loc, 'memory %s is released again' % what(obj), obj)
        elif kind == 'not heap':
            self.flag('bad release', loc, 'memory that does not come from the heap (%s) is released' % (obj.name or obj.kind), obj)
        elif kind == 'interior':
            self.flag('bad release', loc, 'memory %s is released through a pointer into its middle' % what(obj), obj)
        else:
            self.flag('mismatched release', loc, 'memory %s was allocated with %s but is released with %s' % (
                what(obj), KINDS.get(obj.kind, obj.kind), REL.get(kind.split(':')[1], kind)), obj)

    def freed(self, ip, st, ins, obj, base):
        l = ip.fn.loc(ins)
        self.frees[l] = self.frees.get(l, 0) + 1


KINDS = {'malloc': 'malloc', 'new': 'new', 'new[]': 'new[]'}
REL = {'malloc': 'free', 'new': 'delete', 'new[]': 'delete[]', 'realloc': 'realloc'}


def queue_op(ip, st, ins, name, callee, args):
    """the list of blocks a queue owns is judged with the queue's own methods; here only the queue itself matters"""
    p = args[0] if args else None
    if not isinstance(p, Ptr):
        return None
    o = ip.getobj(st, p, ins, True, 1)
    if o is not None and p.base in st.objs:
        o = st.wobj(p.base)
        o.cells = {}
        o.fills = ()
        o.written = True
    return [(st, ip.fresh_of(ins['ty'], name) if ins['ty'] != 'void' else None)]


def what(o):
    return 'allocated at %s' % o.site if o.site else o.name or o.kind


def live_blocks(ip, s, roots):
    """heap blocks alive at the end of a path that cannot be reached from the given values"""
    seen = ip.reach(s, roots)
    r = []
    for b, o in s.objs.items():
        if o.alive and o.kind in HEAPK and not o.ext and b not in seen:
            r.append((b, o))
    return r


def maybe_freed(s):
    return s.x.get('maybe', frozenset())
