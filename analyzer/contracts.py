"""Integer vectors by their specification.

Programs that only use integer vectors (rank and select support) are analysed against what P09, P10 and P11
establish about them; the checks of those programs include the roots that establish it.  An integer
vector is then a sequence of values below 2^width, kept as an array of machine words."""
import re
from lin import Lin, SYMS, ZERO, ONE, con, sym, intern, fresh, INF
import state
from state import NeedSplit, Undecided, mkpow2
from values import *
import models
from models import panic, new_array, alloc_limit

CONTRACTS = []
TYPE = 'succinct_neo::int_vec::IntVec'


def contract(rx):
    def d(f):
        CONTRACTS.append((re.compile(rx + r'\Z'), f))
        return f
    return d


def find(f, info):
    for d in (f['def'], info['def']):
        for rx, m in CONTRACTS:
            if rx.match(d):
                return lambda I, st, a, info: m(I, st, a, dict(info, name=f['def']))
    return None


def inherent(names):
    return contract(re.escape(TYPE) + r'::(%s)' % names)


def trait(t, names):
    return contract(r'<&?(\'\w+ )?%s as [\w:]*%s>::(%s)' % (re.escape(TYPE), t, names))


def usize(I):
    for i, t in I.T.items():
        if t['name'] == 'usize':
            return i


def parts(I, st, p):
    v = I.load(st, I.as_ptr(p))
    if not isinstance(v, Adt) or len(v.f) != 3:
        raise Undecided('integer vector without contract')
    return v.f[0], v.f[1], I.as_lin(st, v.f[2])


@inherent('new|with_capacity')
def _(I, st, a, info):
    w = I.as_lin(st, a[0])
    for bad in (w - 65, -w):
        if not st.prove(-bad - 1):
            if st.prove(bad):
                panic('width')
            raise NeedSplit([[('ge', bad)], [('ge', -bad - 1)]])
    ety = usize(I)
    return Adt(0, (new_array(I, st, Arr(ZERO, 8, ety, ('uninit',))), w, ZERO))


def fits(I, st, w, v):
    """True / False, or a split"""
    w = st.norm(w)
    if w.is_const():
        d = con((1 << w.c) - 1) - v
        if st.prove(d):
            return True
        if st.prove(-d - 1):
            return False
        raise NeedSplit([[('ge', d)], [('ge', -d - 1)]])
    lo, hi = st.iv(w)
    if st.prove(con((1 << max(int(lo), 0)) - 1) - v):
        return True
    # width = (binary logarithm of x) + k: x < 2^width
    for s, k in w.t:
        if SYMS[s].kind == 'ilog' and k == 1 and w.c >= 1 and len(w.t) == 1:
            if st.prove(SYMS[s].key[1] * (1 << (w.c - 1)) - v):
                return True
            if st.prove(v - mkpow2(st, sym(s)) * (1 << w.c)):
                return False
            d = mkpow2(st, sym(s)) * (1 << w.c) - 1 - v
            raise NeedSplit([[('ge', d)], [('ge', -d - 1)]])
    raise NeedSplit(I.enum_alts(st, w))


@inherent('push')
def _(I, st, a, info):
    p, w, n = parts(I, st, a[0])
    v = I.as_lin(st, a[1])
    if not fits(I, st, w, v):
        panic('value too large')
    ety = usize(I)
    alloc_limit(I, st, n + 1, ety)
    arr = st.mem[p.obj]
    st.mem[p.obj] = Arr(st.norm(n + 1), arr.esz, arr.ety, arr.base, I.log_write(st, arr.w, n, v))
    I.store(st, I.as_ptr(a[0]), Adt(0, (p, w, n + 1)))
    return UNIT


@trait('IntAccess', 'get|get_unchecked')
def _(I, st, a, info):
    p, w, n = parts(I, st, a[0])
    i = I.as_lin(st, a[1])
    inside(I, st, i, n, info)
    return I.arr_read(st, st.mem[p.obj], i)


def inside(I, st, i, n, info):
    d = n - 1 - i
    if st.prove(d):
        return
    if st.prove(-d - 1):
        if 'unchecked' in info['name']:
            models.ub('unchecked integer access outside of the vector')
        panic('index')
    raise NeedSplit([[('ge', d)], [('ge', -d - 1)]])


@trait('IntAccess', 'set|set_unchecked')
def _(I, st, a, info):
    p, w, n = parts(I, st, a[0])
    i, v = I.as_lin(st, a[1]), I.as_lin(st, a[2])
    inside(I, st, i, n, info)
    if not fits(I, st, w, v):
        panic('value too large')
    st.mem[p.obj] = I.arr_write(st, st.mem[p.obj], i, v)
    return UNIT


@inherent('len')
def _(I, st, a, info):
    return parts(I, st, a[0])[2]


@inherent('is_empty')
def _(I, st, a, info):
    return Cond('eq', parts(I, st, a[0])[2])


@inherent('raw_data')
def _(I, st, a, info):
    raise Undecided('words of an integer vector')
