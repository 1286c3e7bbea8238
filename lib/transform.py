"""Whole-transform runs: flbwt::bwt_string with everything inlined except the methods of the substring table,
the packed-array accessors, the suffix sorters and the inducing steps."""
from front import load, AnalysisError
from terms import *
from state import *
from interp import Interp, Client

W = (32, 40, 48, 56, 64)
TABLE = ['flbwt::HashTable::' + x for x in (
    'insert_string find_name get_length get_pointer get_lenlen calculate_lenlen set_length set_pointer get_name set_name '
    'string_info_length get_first_character_pointer hash_function').split()]
KEEP = ['flbwt::bwt_string'] + TABLE + ['flbwt::PackedArray::set_value', 'flbwt::PackedArray::get_value'] + \
    ['flbwt::sais_%dbit' % w for w in W] + ['flbwt::induce_bwt_%dbit' % w for w in W]


def module():
    return load(KEEP)


def entry():
    f = module().one('flbwt::bwt_string')
    if f.argty != ['ptr', 'i64', 'i1'] and not (len(f.args) == 3 and f.argty[:2] == ['ptr', 'i64']):
        raise AnalysisError('unexpected signature of flbwt::bwt_string: %s' % f.argty)
    return f


def sym_n(lo=1, hi=(1 << 40) - 1):
    return lin(atom(('n', lo, hi), name='n', lo=lo, hi=hi))


def start(T, n, free_T):
    """state at the entry of bwt_string; T: 'obj' (a malloc block), 'null'"""
    f = entry()
    st = State()
    if T == 'null':
        p = NULL
    else:
        st.new_obj('malloc', None, 'the caller', 'T', True, key='T')
        p = Ptr('T', 0)
    st.env = dict(zip(f.args, [p, n, 1 if free_T is True else 0 if free_T is False else free_T]))
    return f, st


def run(client, T='obj', n=None, free_T=False):
    f, st = start(T, sym_n() if n is None else n, free_T)
    ip = Interp(f.mod, client)
    return ip, ip.run(f, st)


def input_atom(a):
    """does a symbol depend on nothing but the arguments"""
    k = a.key
    if a.name and (a.name == 'n' or a.name.startswith('T[')):
        return True
    if isinstance(k, tuple) and k and k[0] == 'op':
        return all(input_value(x) for x in k[3:])
    return False


def input_value(x):
    if isinstance(x, (int, str)):
        return True
    if isinstance(x, Lin):
        return all(input_atom(a) for a, _ in x.t)
    if isinstance(x, Atom):
        return input_atom(x)
    return False


def input_cond(c):
    if isinstance(c, int):
        return True
    if c.k in ('le', 'eq', 'ne'):
        return input_value(c.x)
    return False
