"""Transfer functions for intrinsics, allocation, panics and the specification markers."""
import re
from lin import Lin, SYMS, ZERO, ONE, con, sym, intern, fresh, fresh_nd, has_nd, lone_nd, INF
import state
from state import NeedSplit, Undecided, pc, ARRS, mkpow2
from values import *

MAXBYTES = 1 << 48      # larger allocations do not succeed (stated assumption)
MODELS = []
INTRINSICS = {}
CACHE = {}


def model(rx):
    def d(f):
        MODELS.append((re.compile(rx + r'\Z'), f))
        return f
    return d


def intr(*names):
    def d(f):
        for n in names:
            INTRINSICS[n] = f
        return f
    return d


def find(f, info):
    import interp
    if f.get('intrinsic'):
        m = INTRINSICS.get(f['intrinsic'])
        if m:
            fa = f['args']
            return lambda I, st, a, info: m(I, st, a, dict(info, iargs=fa))
    for d in (f['def'], info['def']):
        for rx, m in MODELS:
            if rx.match(d):
                fa = f['args']
                fn = f['name']
                return lambda I, st, a, info: m(I, st, a, dict(info, iargs=fa, iname=fn))
    return None


def tyarg(info, i=0):
    n = -1
    for a in info['iargs']:
        if isinstance(a, dict) and 'ty' in a:
            n += 1
            if n == i:
                return a['ty']
    raise Undecided('type argument')


def diverge():
    from interp import Diverge
    raise Diverge()


def panic(m):
    from interp import Panic
    raise Panic(m)


def ub(m):
    from interp import UB
    raise UB(m)


# ---- panics -------------------------------------------------------------------------------------
@model(r'.*panic_nounwind(_fmt|_nobacktrace)?')
def _(I, st, a, info):
    ub('violated precondition of an unsafe operation')


@model(r'.*handle_alloc_error|alloc::raw_vec::handle_error|alloc::raw_vec::capacity_overflow')
def _(I, st, a, info):
    diverge()


@model(r'(core|std)::(panicking|rt)::.*|.*begin_panic.*|core::option::(unwrap_failed|expect_failed)|'
       r'(core|std)::result::unwrap_failed|(core|std)::option::(unwrap_failed|expect_failed)|'
       r'core::slice::index::slice_.*_fail.*|.*::len_mismatch_fail.*|core::slice::.*_fail(::.*)?|'
       r'core::cell::panic_already.*|.*::panic_cold_.*|(core|std)::panicking.*|.*::slice_index_fail.*|'
       r'.*int_log10::panic_for_nonpositive_argument')
def _(I, st, a, info):
    panic(info['def'].split('::')[-1])


# ---- unsafe precondition checks of the standard library --------------------------------------------
@model(r'.*::precondition_check')
def _(I, st, a, info):
    d = I.p.fns[info['key']]['def']
    if re.search(r'get_unchecked|unchecked_|assert_unchecked|unreachable_unchecked|split_at', d) \
            and not re.search(r'ptr::|NonNull|Layout|Alignment|from_raw|from_size|new_unchecked', d):
        return I.run_fn(info['key'], a, st, info)
    return UNIT


# ---- specification markers --------------------------------------------------------------------------
def marker(name):
    return model(r'harness\w*::spec::' + name)


@marker('assume')
def _(I, st, a, info):
    v = a[0]
    r = I.truth_opt(st, v)
    if r is True:
        return UNIT
    if r is False:
        diverge()
    if isinstance(v, (Lin, Bits)):
        v = Cond('ge', I.as_lin(st, v) - 1)
    alts = I.cond_constraints(st, v, True)
    if len(alts) == 1:
        if I.apply_alt(st, alts[0]) == 'dead' or not st.feasible():
            diverge()
        return UNIT
    raise NeedSplit(alts)


@marker('verify')
def _(I, st, a, info):
    if isinstance(a[0], Top):
        I.report_undecided(st, 'obligation on unknown value (%s)' % a[0].why)
        diverge()
    if I.truth(st, a[0]):
        I.count('verify')
        return UNIT
    I.hooks.failed(I, st, 'verify')
    diverge()


@marker('unreachable_return')
def _(I, st, a, info):
    I.hooks.failed(I, st, 'returned')
    diverge()


@marker('snapshot')
def _(I, st, a, info):
    p = I.as_ptr(a[0])
    q = Ptr(p.obj, (), None) if p.meta is not None else p
    st.log = st.log + (('snap', q, deep(I, st, I.load(st, q), set())),)
    return UNIT


def snapshot_changed(I, st):
    """True when a snapshotted value differs now"""
    import loops
    for e in st.log:
        if e[0] == 'snap':
            if not deep_eq(I, st, e[2], deep(I, st, I.load(st, e[1]), set())):
                return True
    return False


def deep_eq(I, st, a, b):
    import loops
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a[0] != b[0]:
            return False
        if a[0] == 'ptr':
            return loops.veq(I, st, a[1], b[1]) and deep_eq(I, st, a[2], b[2])
        return a[1] == b[1] and len(a[2]) == len(b[2]) and all(deep_eq(I, st, x, y) for x, y in zip(a[2], b[2]))
    return loops.veq(I, st, a, b)


def deep(I, st, v, seen):
    """value with pointees inlined"""
    if isinstance(v, Ptr):
        if v.obj is None or v.obj not in st.mem or v.obj in seen:
            return v
        return ('ptr', v, deep(I, st, st.mem[v.obj], seen | {v.obj}))
    if isinstance(v, Adt):
        return ('adt', v.var, tuple(deep(I, st, x, seen) for x in v.f))
    return v


@marker('freeze')
def _(I, st, a, info):
    """no store to anything reachable from the value from here on"""
    p = I.as_ptr(a[0])
    seen = {p.obj}
    reach(I, st, I.load(st, Ptr(p.obj, (), None) if p.meta is not None else p), seen)
    st.log = st.log + (('frozen', frozenset(seen)),)
    I.frozen = True
    return UNIT


@marker('exclusive')
def _(I, st, a, info):
    p, q = (I.as_ptr(I.load(st, I.as_ptr(x))) for x in a[:2])
    if p.obj == q.obj and (p.path[:len(q.path)] == q.path or q.path[:len(p.path)] == p.path):
        ub('two live mutable references to the same object')
    return UNIT


def reach(I, st, v, seen):
    if isinstance(v, Ptr):
        if v.obj is not None and v.obj in st.mem and v.obj not in seen:
            seen.add(v.obj)
            reach(I, st, st.mem[v.obj], seen)
    elif isinstance(v, Adt):
        for x in v.f:
            reach(I, st, x, seen)


@marker('havoc_bits')
def _(I, st, a, info):
    """first n bits of the words owned by the value become arbitrary, later ones zero"""
    n = a[1] if isinstance(a[1], Lin) else I.as_lin(st, a[1])
    objs = []
    p = I.as_ptr(a[0])
    if p.meta is not None:
        objs = [p.obj]
    else:
        find_words(I, st, I.load(st, p), objs, set())
    if len(objs) != 1:
        raise Undecided('havoc: %d word arrays' % len(objs))
    name = havoc_name(st, n)
    o = objs[0]
    x = st.mem[o]
    st.mem[o] = Arr(x.n, x.esz, x.ety, ('bits', name))
    return UNIT


def havoc_name(st, n):
    """alternatives of the same origin share the name so that they can be merged"""
    name = 'H%d' % st.nobj
    st.nobj += 1
    ARRS[name] = n if ARRS.get(name, n) is n else None
    return name


@marker('havoc_words')
def _(I, st, a, info):
    objs = []
    p = I.as_ptr(a[0])
    if p.meta is not None:
        objs = [p.obj]
    else:
        find_words(I, st, I.load(st, p), objs, set())
    if len(objs) != 1:
        raise Undecided('havoc: %d word arrays' % len(objs))
    o = objs[0]
    x = st.mem[o]
    name = havoc_name(st, x.n * (x.esz * 8))
    st.mem[o] = Arr(x.n, x.esz, x.ety, ('bits', name))
    return UNIT


def find_words(I, st, v, out, seen):
    if isinstance(v, Ptr):
        if v.obj is not None and v.obj in st.mem and v.obj not in seen:
            seen.add(v.obj)
            x = st.mem[v.obj]
            if isinstance(x, Arr):
                if I.T[x.ety]['k'] == 'uint':
                    out.append(v.obj)
            else:
                find_words(I, st, x, out, seen)
    elif isinstance(v, Adt):
        for x in v.f:
            find_words(I, st, x, out, seen)


@marker('ones_before')
def _(I, st, a, info):
    """number of one bits below position i of the arbitrary contents given by havoc_bits"""
    i = I.as_lin(st, a[1])
    objs = []
    find_words(I, st, I.load(st, I.as_ptr(a[0])), objs, set())
    if len(objs) != 1:
        raise Undecided('ones_before')
    x = st.mem[objs[0]]
    if x.base[0] != 'bits' or x.w:
        raise Undecided('ones_before of a modified vector')
    return pc(x.base[1], st.norm(i))


@marker('same_bits')
def _(I, st, a, info):
    """the two ranges hold the same bits"""
    names = []
    for p in (a[0], a[2]):
        objs = []
        find_words(I, st, I.load(st, I.as_ptr(p)), objs, set())
        if len(objs) != 1 or st.mem[objs[0]].base[0] != 'bits' or st.mem[objs[0]].w:
            raise Undecided('same_bits')
        names.append(st.mem[objs[0]].base[1])
    p, q, n = (I.as_lin(st, a[i]) for i in (1, 3, 4))
    us = fresh('u', 0, 1 << 64)
    u = sym(us)
    d = (pc(names[0], p + u + 1) - pc(names[0], p + u)) - (pc(names[1], q + u + 1) - pc(names[1], q + u))
    st.facts = st.facts + ((us, n, (d, -d)),)
    st.touch()
    return UNIT


@marker('any_usize')
def _(I, st, a, info):
    return sym(fresh('any', 0, (1 << 64) - 1))


@marker('any_word')
def _(I, st, a, info):
    """arbitrary machine word"""
    n = I.bits(info['ret'])
    name = 'B%d' % len(ARRS)
    ARRS[name] = con(n)
    return Bits(tuple(('b', name, con(j)) for j in range(n)))


@marker('any_bool')
def _(I, st, a, info):
    return sym(fresh('anyb', 0, 1))


@marker('stream')
def _(I, st, a, info):
    """element i of an arbitrary sequence of values below 2^width"""
    i, w = I.as_lin(st, a[0]), I.as_lin(st, a[1])
    if not w.is_const():
        raise NeedSplit(I.enum_alts(st, w))
    e = state.seq('S', i, 0, (1 << w.c) - 1)
    return Bits(tuple(('l', e, j) for j in range(w.c)) + (0,) * (I.bits(info['ret']) - w.c))


@marker('partition')
def _(I, st, a, info):
    """analyse separately for each value of a small quantity"""
    w = I.as_lin(st, a[0])
    if not w.is_const():
        raise NeedSplit(I.enum_alts(st, w))
    return w


# ---- allocation / vectors ---------------------------------------------------------------------------
def esize(I, ty):
    return I.T[ty].get('size') or 0


def alloc_limit(I, st, n, ety):
    sz = max(esize(I, ety), 1)
    if not st.add_ge(con(MAXBYTES // sz) - n) or not st.feasible():
        diverge()


def new_array(I, st, arr):
    return Ptr(I.new_obj(st, arr), (('i', ZERO),))


def leaves(I, v):
    out = []
    I.flatten(v, out)
    return out


def vec_ty(I, info, i=0):
    t = info['argtys'][i]
    while I.T[t]['k'] in ('ref', 'ptr'):
        t = I.T[t]['elem']
    return t


def mkvec(I, st, ty, ptr, cap, n):
    lv = [ptr, cap, n]
    r = I.build(ty, lv)
    # verify the assumed field order
    o = leaves(I, r)
    if len(o) != 3 or not isinstance(o[0], Ptr):
        # fields may be laid out in another order
        raise Undecided('vector layout')
    return r


def vec_parts(I, st, v):
    p, cap, n = leaves(I, v)
    return p, I.as_lin(st, cap), I.as_lin(st, n)


@model(r'(std|alloc)::vec::from_elem')
def _(I, st, a, info):
    ety = tyarg(info)
    n = I.as_lin(st, a[1])
    alloc_limit(I, st, n, ety)
    p = new_array(I, st, Arr(n, esize(I, ety), ety, ('fill', a[0])))
    return mkvec(I, st, info['ret'], p, n, n)


@model(r'(std|alloc)::vec::Vec::<T(, A)?>::(with_capacity|with_capacity_in)')
def _(I, st, a, info):
    ety = tyarg(info)
    c = I.as_lin(st, a[0])
    sz = max(esize(I, ety), 1)
    lim = ((1 << 63) - 1) // sz
    if not st.prove(con(lim) - c):
        if st.prove(c - lim - 1):
            panic('capacity overflow')
        raise NeedSplit([[('ge', con(lim) - c)], [('ge', c - lim - 1)]])
    alloc_limit(I, st, c, ety)
    p = new_array(I, st, Arr(ZERO, esize(I, ety), ety, ('uninit',)))
    return mkvec(I, st, info['ret'], p, grow_cap(I, st, ZERO, c, ety), ZERO)


@model(r'(std|alloc)::vec::Vec::<T>::new')
def _(I, st, a, info):
    ety = tyarg(info)
    p = new_array(I, st, Arr(ZERO, esize(I, ety), ety, ('uninit',)))
    return mkvec(I, st, info['ret'], p, ZERO, ZERO)


def grow_cap(I, st, cap, n, ety):
    return sym(fresh_nd(0, MAXBYTES // max(esize(I, ety), 1)))


@model(r'(std|alloc)::vec::Vec::<T, A>::(push|push_mut)')
def _(I, st, a, info):
    loc = I.as_ptr(a[0])
    vty = vec_ty(I, info)
    ety = tyarg(info)
    p, cap, n = vec_parts(I, st, I.load(st, loc))
    alloc_limit(I, st, n + 1, ety)
    if p.obj is None:
        arr = Arr(ZERO, esize(I, ety), ety, ('uninit',))
    else:
        arr = st.mem[p.obj]
    log = I.log_write(st, arr.w, n, a[1])
    cap = grow_cap(I, st, cap, n + 1, ety)
    arr = Arr(st.norm(n + 1), arr.esz, arr.ety, arr.base, log)
    if p.obj is None:
        p = new_array(I, st, arr)
    else:
        st.mem[p.obj] = arr
    I.store(st, loc, mkvec(I, st, vty, p, cap, n + 1))
    if info['def'].endswith('push_mut'):
        return Ptr(p.obj, (('i', n),))
    return UNIT


@model(r'(std|alloc)::vec::Vec::<T, A>::pop')
def _(I, st, a, info):
    loc = I.as_ptr(a[0])
    p, cap, n = vec_parts(I, st, I.load(st, loc))
    if st.equal(n, ZERO):
        return Adt(0, ())
    if not st.prove(n - 1):
        raise NeedSplit([[('ge', n - 1)], [('eq', n)]])
    arr = st.mem[p.obj]
    v = I.arr_read(st, arr, n - 1)
    st.mem[p.obj] = trunc(I, st, arr, n - 1)
    I.store(st, loc, mkvec(I, st, vec_ty(I, info), p, cap, n - 1))
    return Adt(1, (v,))


def trunc(I, st, arr, n):
    w = arr.w
    out = []
    for x in w:
        if x[0] == 'w' and st.prove(x[1] - n):
            continue
        out.append(x)
    return Arr(n, arr.esz, arr.ety, arr.base, tuple(out))


@model(r'(std|alloc)::vec::Vec::<T, A>::(reserve|reserve_exact|shrink_to_fit|shrink_to)')
def _(I, st, a, info):
    loc = I.as_ptr(a[0])
    ety = tyarg(info)
    p, cap, n = vec_parts(I, st, I.load(st, loc))
    c = grow_cap(I, st, cap, n, ety)
    if 'reserve' in info['def']:
        alloc_limit(I, st, n + I.as_lin(st, a[1]), ety)
    I.store(st, loc, mkvec(I, st, vec_ty(I, info), p, c, n))
    return UNIT


@model(r'(std|alloc)::vec::Vec::<T, A>::(resize)')
def _(I, st, a, info):
    loc = I.as_ptr(a[0])
    ety = tyarg(info)
    p, cap, n = vec_parts(I, st, I.load(st, loc))
    m = I.as_lin(st, a[1])
    arr = st.mem[p.obj] if p.obj is not None else Arr(ZERO, esize(I, ety), ety, ('uninit',))
    if st.prove(n - m):
        st.mem[p.obj] = trunc(I, st, arr, m)
        I.store(st, loc, mkvec(I, st, vec_ty(I, info), p, cap, m))
        return UNIT
    if not st.prove(m - n):
        raise NeedSplit([[('ge', n - m)], [('ge', m - n - 1)]])
    alloc_limit(I, st, m, ety)
    t = fresh('rt', 0, INF)
    run = ('r', Run(n, m, 1, t, (a[2],)))
    if n is ZERO and not arr.w:
        arr = Arr(m, arr.esz, arr.ety, ('fill', a[2]))
    else:
        arr = Arr(m, arr.esz, arr.ety, arr.base, (run,) + arr.w)
    if p.obj is None:
        p = new_array(I, st, arr)
    else:
        st.mem[p.obj] = arr
    I.store(st, loc, mkvec(I, st, vec_ty(I, info), p, grow_cap(I, st, cap, m, ety), m))
    return UNIT


@model(r'(std|alloc)::vec::Vec::<T, A>::into_boxed_slice')
def _(I, st, a, info):
    p, cap, n = vec_parts(I, st, a[0])
    if p.obj is None:
        ety = tyarg(info)
        p = new_array(I, st, Arr(ZERO, esize(I, ety), ety, ('uninit',)))
    return I.build(info['ret'], [Ptr(p.obj, p.path, n)])


@model(r'.*slice::<impl \[T\]>::into_vec|(std|alloc)::slice::hack::into_vec')
def _(I, st, a, info):
    p = I.as_ptr(a[0])
    return mkvec(I, st, info['ret'], Ptr(p.obj, p.path, None), p.meta, p.meta)


def clone_arr(I, st, p, n):
    arr = st.mem[p.obj]
    base = p.path[-1][1] if p.path and p.path[-1][0] == 'i' else ZERO
    if base is not ZERO:
        raise Undecided('clone of a partial array')
    if I.T[arr.ety]['k'] not in ('uint', 'int', 'bool'):
        raise Undecided('clone of non-scalar elements')
    return new_array(I, st, Arr(n, arr.esz, arr.ety, arr.base, arr.w))


@model(r'<(std|alloc)::boxed::Box<\[T\](, A)?> as (std|core)::clone::Clone>::clone')
def _(I, st, a, info):
    src = I.load(st, I.as_ptr(a[0]))
    p = I.as_ptr(src)
    if p.obj is None:
        return src
    q = clone_arr(I, st, p, p.meta)
    return I.build(info['ret'], [Ptr(q.obj, q.path, p.meta)])


@model(r'(std|alloc)::boxed::convert::<impl (std|core)::convert::From<&(mut )?\[T\]> for (std|alloc)::boxed::Box<\[T\]>>::from')
def _(I, st, a, info):
    p = I.as_ptr(a[0])
    if p.obj is None:
        return I.build(info['ret'], [p])
    q = clone_arr(I, st, p, p.meta)
    return I.build(info['ret'], [Ptr(q.obj, q.path, p.meta)])


@model(r'.*__rust_no_alloc_shim_is_unstable(_v2)?')
def _(I, st, a, info):
    return Adt(0, ())


@model(r'<(std|alloc)::vec::Vec<T, A> as (std|core)::clone::Clone>::clone|.*slice::<impl \[T\]>::to_vec|.*ToOwned for \[T\]>::to_owned')
def _(I, st, a, info):
    if 'Vec' in info['def'] or I.T[I.T[info['argtys'][0]]['elem']]['k'] == 'adt':
        src = I.load(st, I.as_ptr(a[0]))
        p, cap, n = vec_parts(I, st, src)
    else:
        p = I.as_ptr(a[0])
        n = p.meta
    if p.obj is None:
        q = new_array(I, st, Arr(ZERO, 8, 0, ('uninit',)))
    else:
        q = clone_arr(I, st, p, n)
    return mkvec(I, st, info['ret'], q, n, n)


@model(r'(std|alloc)::boxed::Box::<T>::new|(std|alloc)::boxed::box_new')
def _(I, st, a, info):
    return I.build(info['ret'], [Ptr(I.new_obj(st, a[0]))])


@model(r'(std|alloc)::rc::Rc::<T>::new|(std|alloc)::sync::Arc::<T>::new')
def _(I, st, a, info):
    o = I.new_obj(st, a[0])
    return I.build(info['ret'], [Ptr(o)])


@model(r'<(std|alloc)::(rc::Rc|sync::Arc)<T(, A)?> as (std|core)::ops::Deref>::deref')
def _(I, st, a, info):
    v = I.load(st, I.as_ptr(a[0]))
    return I.as_ptr(v)


@model(r'<(std|alloc)::(rc::Rc|sync::Arc)<T(, A)?> as (std|core)::clone::Clone>::clone')
def _(I, st, a, info):
    return I.load(st, I.as_ptr(a[0]))


# ---- function items, closures ------------------------------------------------------------------------
@model(r'<.* as (std|core)::ops::(Fn|FnMut|FnOnce)<.*>>::call(_mut|_once)?|(std|core)::ops::(Fn|FnMut|FnOnce)::call(_mut|_once)?|'
       r'.*ops::function::impls.*::call(_mut|_once)?')
def _(I, st, a, info):
    return call_value(I, st, a[0], info['argtys'][0], a[1])


def call_value(I, st, f, fty, tup):
    """call a function item, function pointer or closure value with a tuple of arguments"""
    t = I.T[fty]
    while t['k'] in ('ref', 'ptr'):
        inner = I.T[t['elem']]
        if inner['k'] in ('ref', 'ptr'):
            f = I.load(st, I.as_ptr(f))
            t = inner
            continue
        break
    byref = t['k'] in ('ref', 'ptr')
    ct = I.T[t['elem']] if byref else t
    args = list(tup.f)
    if ct['k'] == 'fndef':
        c = I.p.calls.get(ct['id'])
        if not c or 'fn' not in c:
            raise Undecided('unresolved function item')
        key = c['fn']
        fn = I.p.fns[key]
        tys = [l['ty'] for l in fn['body']['locals'][1:1 + fn['body']['arg_count']]] if 'body' in fn else [None] * len(args)
        ret = fn['body']['locals'][0]['ty'] if 'body' in fn else None
        return I.invoke(st, key, args, {'def': ct['def'], 'args': ct['args'], 'ret': ret, 'fty': ct['id'],
                                       'argtys': tys, 'key': key})
    if ct['k'] == 'fnptr':
        v = I.load(st, I.as_ptr(f)) if byref else f
        if not isinstance(v, Fn):
            raise Undecided('unknown function pointer')
        fn = I.p.fns[v.key]
        return I.run_fn(v.key, args, st)
    if ct['k'] == 'closure':
        key = I.p.closures.get(ct['id'])
        if key is None:
            raise Undecided('closure body')
        fn = I.p.fns[key]
        body = fn['body']
        p0 = I.T[body['locals'][1]['ty']]
        if p0['k'] == 'ref' and not byref:
            f = Ptr(I.new_obj(st, f))
        elif p0['k'] != 'ref' and byref:
            f = I.load(st, I.as_ptr(f))
        return I.run_fn(key, [f] + args, st)
    raise Undecided('call of %s' % ct['name'])


# ---- vector instructions: 128-bit words, lane 0 in the least significant bits ----------------------------
def lanes(I, st, v, n):
    b = I.as_bits(st, v, 128)
    return [b[i:i + n] for i in range(0, 128, n)]


def word(ls):
    return Bits(tuple(x for l in ls for x in l))


def constant(info):
    m = re.search(r'::<(-?\d+)(_\w+)?>\Z', info['iname'])
    if not m:
        raise Undecided('constant argument of ' + info['iname'])
    return int(m.group(1))


def signed(I, st, l):
    """value of a two's complement lane"""
    L = I.as_lin(st, Bits(tuple(l[:-1]) + (0,)))
    s = l[-1]
    if s not in (0, 1):
        S = src_lin(st, s)
        if st.prove(S - 1):
            s = 1
        elif st.prove(-S):
            s = 0
        else:
            raise NeedSplit([[('eq', S - 1)], [('eq', S)]])
    return L - (s << (len(l) - 1))


@model(r'(std|core)::arch::x86_64::_mm_(loadu|load|lddqu)_si128')
def _(I, st, a, info):
    p = I.as_ptr(a[0])
    v = I.read_path(st, st.mem.get(p.obj), p.path) if p.obj is not None and st.mem.get(p.obj) is not None else None
    if not isinstance(v, Bits) or len(v.b) != 128:
        raise Undecided('vector load from %r' % (v,))
    return v


@model(r'(std|core)::arch::x86_64::_mm_set_epi(8|16|32)')
def _(I, st, a, info):
    n = 128 // len(a)
    return word([I.as_bits(st, x, n) for x in reversed(a)])


@model(r'(std|core)::arch::x86_64::_mm_setr_epi(8|16|32)')
def _(I, st, a, info):
    return word([I.as_bits(st, x, 128 // len(a)) for x in a])


@model(r'(std|core)::arch::x86_64::_mm_set1_epi(8|16|32)')
def _(I, st, a, info):
    n = int(info['def'].rsplit('epi', 1)[1])
    return word([I.as_bits(st, a[0], n)] * (128 // n))


@model(r'(std|core)::arch::x86_64::_mm_setzero_si128')
def _(I, st, a, info):
    return Bits((0,) * 128)


@model(r'(std|core)::arch::x86_64::_mm_shuffle_epi8')
def _(I, st, a, info):
    v = lanes(I, st, a[0], 8)
    out = []
    for m in lanes(I, st, a[1], 8):
        if any(x not in (0, 1) for x in m):
            raise Undecided('shuffle by unknown positions')
        out.append((0,) * 8 if m[7] else v[sum(m[i] << i for i in range(4))])
    return word(out)


@model(r'(std|core)::arch::x86_64::_mm_(srli|slli)_epi(16|32|64)')
def _(I, st, a, info):
    n, k = int(info['def'].rsplit('epi', 1)[1]), constant(info) & 255
    k = min(k, n)
    if 'srli' in info['def']:
        return word([l[k:] + (0,) * k for l in lanes(I, st, a[0], n)])
    return word([(0,) * k + l[:n - k] for l in lanes(I, st, a[0], n)])


@model(r'(std|core)::arch::x86_64::_mm_blend_epi16')
def _(I, st, a, info):
    k = constant(info)
    return word([y if k >> i & 1 else x for i, (x, y) in enumerate(zip(lanes(I, st, a[0], 16), lanes(I, st, a[1], 16)))])


@model(r'(std|core)::arch::x86_64::_mm_(and|or|xor)_si128')
def _(I, st, a, info):
    op = {'and': band, 'or': bor, 'xor': bxor}[info['def'].split('_mm_')[1].split('_')[0]]
    return Bits(tuple(op(x, y) for x, y in zip(I.as_bits(st, a[0], 128), I.as_bits(st, a[1], 128))))


@model(r'(std|core)::arch::x86_64::_mm_cmp(gt|lt|eq)_epi(8|16|32)')
def _(I, st, a, info):
    n = int(info['def'].rsplit('epi', 1)[1])
    op = info['def'].split('_mm_cmp')[1][:2]
    out = []
    for x, y in zip(lanes(I, st, a[0], n), lanes(I, st, a[1], n)):
        d = st.norm(signed(I, st, x) - signed(I, st, y))
        if op == 'lt':
            d = -d
        if op == 'eq':
            if d.is_const():
                r = d.c == 0
            elif st.prove(d - 1) or st.prove(-d - 1):
                r = False
            elif st.prove(d) and st.prove(-d):
                r = True
            else:
                raise NeedSplit([[('eq', d)], [('ge', d - 1)], [('ge', -d - 1)]])
        elif st.prove(d - 1):
            r = True
        elif st.prove(-d):
            r = False
        else:
            raise NeedSplit([[('ge', d - 1)], [('ge', -d)]])
        out.append((int(r),) * n)
    return word(out)


@model(r'(std|core)::arch::x86_64::_mm_movemask_epi8')
def _(I, st, a, info):
    return Bits(tuple(l[7] for l in lanes(I, st, a[0], 8)) + (0,) * 16)


# ---- intrinsics ---------------------------------------------------------------------------------------
@intr('ctpop')
def _(I, st, a, info):
    return I.popcount(st, a[0], I.bits(tyarg(info)))


@intr('ctlz', 'ctlz_nonzero')
def _(I, st, a, info):
    n = I.bits(tyarg(info))
    v = a[0]
    if isinstance(v, Bits):
        bs = I.as_bits(st, v, n)
        # decide from the most significant bit downwards
        for i in range(n - 1, -1, -1):
            b = bs[i]
            if b == 1:
                return con(n - 1 - i)
            if b == 0:
                continue
            L = src_lin(st, b)
            if st.prove(L - 1):
                return con(n - 1 - i)
            if st.prove(-L):
                continue
            raise NeedSplit([[('ge', L - 1)], [('ge', -L)]])
        return con(n)
    L = I.as_lin(st, v)
    if L.is_const():
        return con(n - L.c.bit_length())
    if not st.prove(L - 1):
        raise NeedSplit([[('ge', L - 1)], [('eq', L)]])
    lo, hi = st.iv(L)
    e = sym(intern(('ilog', L), max(int(lo).bit_length() - 1, 0), n - 1, state.alldeps(L)))
    p = mkpow2(st, e)
    st.add_ge(L - p)
    st.add_ge(p * 2 - 1 - L)
    return con(n - 1) - e


@intr('cttz', 'cttz_nonzero')
def _(I, st, a, info):
    n = I.bits(tyarg(info))
    bs = I.as_bits(st, a[0], n)
    u = I.uniform(st, bs)
    if u is not None and all(type(b) is tuple for b in bs):
        # position of the first one bit: fresh position p with no ones before it
        arr, P = u
        tot = pc(arr, st.norm(P + n)) - pc(arr, P)
        if st.equal(tot, ZERO):
            return con(n)
        if not st.prove(tot - 1):
            raise NeedSplit([[('ge', tot - 1)], [('eq', tot)]])
        p = sym(fresh('tz', 0, n - 1))
        st.add_eq(pc(arr, st.norm(P + p)) - pc(arr, P))
        st.add_eq(pc(arr, st.norm(P + p + 1)) - pc(arr, P) - 1)
        return p
    for i in range(n):
        b = bs[i]
        if b == 1:
            return con(i)
        if b == 0:
            continue
        L = src_lin(st, b)
        if st.prove(L - 1):
            return con(i)
        if st.prove(-L):
            continue
        raise NeedSplit([[('ge', L - 1)], [('ge', -L)]])
    return con(n)


@intr('add_with_overflow', 'sub_with_overflow', 'mul_with_overflow')
def _(I, st, a, info):
    op = {'a': 'Add', 's': 'Sub', 'm': 'Mul'}[I.p.fns[info['key']]['intrinsic'][0]]
    lo, hi = I.rng(tyarg(info))
    return I.with_overflow(st, st.norm(I.arith(st, op, I.as_lin(st, a[0]), I.as_lin(st, a[1]))), lo, hi)


@intr('wrapping_add', 'wrapping_sub', 'wrapping_mul')
def _(I, st, a, info):
    op = {'a': 'Add', 's': 'Sub', 'm': 'Mul'}[I.p.fns[info['key']]['intrinsic'].split('_')[1][0]]
    return I.binop(st, op, a[0], a[1], tyarg(info), tyarg(info))


@intr('unchecked_add', 'unchecked_sub', 'unchecked_mul', 'unchecked_shl', 'unchecked_shr')
def _(I, st, a, info):
    n = I.p.fns[info['key']]['intrinsic'].split('_')[1]
    return I.binop(st, n.capitalize() + 'Unchecked', a[0], a[1], tyarg(info), tyarg(info))


@intr('unchecked_div', 'exact_div')
def _(I, st, a, info):
    return I.binop(st, 'Div', a[0], a[1], tyarg(info), tyarg(info))


@intr('unchecked_rem')
def _(I, st, a, info):
    return I.binop(st, 'Rem', a[0], a[1], tyarg(info), tyarg(info))


@intr('saturating_add', 'saturating_sub')
def _(I, st, a, info):
    lo, hi = I.rng(tyarg(info))
    x, y = I.as_lin(st, a[0]), I.as_lin(st, a[1])
    r = st.norm(x + y if 'add' in I.p.fns[info['key']]['intrinsic'] else x - y)
    if not st.prove(r - lo):
        if st.prove(con(lo) - r):
            return con(lo)
        raise NeedSplit([[('ge', r - lo)], [('ge', con(lo - 1) - r)]])
    if not st.prove(con(hi) - r):
        if st.prove(r - hi):
            return con(hi)
        raise NeedSplit([[('ge', con(hi) - r)], [('ge', r - hi - 1)]])
    return r


@intr('rotate_left', 'rotate_right')
def _(I, st, a, info):
    n = I.bits(tyarg(info))
    k = I.as_lin(st, a[1])
    if not k.is_const():
        raise NeedSplit(I.enum_alts(st, k))
    bs = I.as_bits(st, a[0], n)
    c = k.c % n
    if 'left' in I.p.fns[info['key']]['intrinsic']:
        return Bits(bs[n - c:] + bs[:n - c])
    return Bits(bs[c:] + bs[:c])


@intr('bswap')
def _(I, st, a, info):
    n = I.bits(tyarg(info))
    bs = I.as_bits(st, a[0], n)
    out = ()
    for i in range(n // 8 - 1, -1, -1):
        out += bs[8 * i:8 * i + 8]
    return Bits(out)


@intr('bitreverse')
def _(I, st, a, info):
    return Bits(tuple(reversed(I.as_bits(st, a[0], I.bits(tyarg(info))))))


@intr('size_of', 'min_align_of', 'pref_align_of', 'align_of')
def _(I, st, a, info):
    t = I.T[tyarg(info)]
    if 'align' in I.p.fns[info['key']]['intrinsic']:
        return con(t.get('align') or 1)
    return con(t['size'])


@intr('size_of_val', 'align_of_val', 'min_align_of_val')
def _(I, st, a, info):
    t = I.T[tyarg(info)]
    if t['k'] == 'slice':
        e = I.T[t['elem']]
        if 'align' in I.p.fns[info['key']]['intrinsic']:
            return con(e['align'])
        return I.as_ptr(a[0]).meta * e['size']
    return con(t['align'] if 'align' in I.p.fns[info['key']]['intrinsic'] else t['size'])


@intr('needs_drop')
def _(I, st, a, info):
    return ZERO


@intr('assert_inhabited', 'assert_zero_valid', 'assert_mem_uninitialized_valid', 'cold_path', 'likely', 'unlikely')
def _(I, st, a, info):
    return a[0] if a else UNIT


@intr('black_box')
def _(I, st, a, info):
    return a[0]


@intr('assume')
def _(I, st, a, info):
    r = I.truth(st, a[0])
    if not r:
        ub('assume of a false condition')
    return UNIT


@intr('unreachable')
def _(I, st, a, info):
    ub('unreachable code reached')


@intr('abort')
def _(I, st, a, info):
    panic('abort')


@intr('offset')
def _(I, st, a, info):
    pt = I.T[info['argtys'][0]]
    return I.ptr_offset(st, I.as_ptr(a[0]), I.as_lin(st, a[1]), pt['elem'])


@intr('arith_offset')
def _(I, st, a, info):
    return I.ptr_offset(st, I.as_ptr(a[0]), I.as_lin(st, a[1]), tyarg(info))


@intr('ptr_offset_from', 'ptr_offset_from_unsigned')
def _(I, st, a, info):
    p, q = I.as_ptr(a[0]), I.as_ptr(a[1])
    if p.obj != q.obj:
        if p.obj is None and q.obj is None:
            return ZERO
        raise Undecided('offset between objects')
    if p.path == q.path:
        return ZERO
    ia = ib = ZERO
    pa, pb = p.path, q.path
    if pa and pa[-1][0] == 'i':
        ia, pa = pa[-1][1], pa[:-1]
    if pb and pb[-1][0] == 'i':
        ib, pb = pb[-1][1], pb[:-1]
    if pa != pb:
        raise Undecided('offset between unrelated pointers')
    return st.norm(ia - ib)


@intr('transmute', 'transmute_unchecked')
def _(I, st, a, info):
    return I.transmute(st, a[0], tyarg(info, 0), tyarg(info, 1))


@intr('discriminant_value')
def _(I, st, a, info):
    return I.discriminant(st, I.load(st, I.as_ptr(a[0])), tyarg(info))


@intr('three_way_compare')
def _(I, st, a, info):
    return I.binop(st, 'Cmp', a[0], a[1], tyarg(info), None)


@intr('select_unpredictable')
def _(I, st, a, info):
    return a[1] if I.truth(st, a[0]) else a[2]


@intr('ptr_metadata')
def _(I, st, a, info):
    p = I.as_ptr(a[0])
    return p.meta if p.meta is not None else UNIT


@intr('aggregate_raw_ptr')
def _(I, st, a, info):
    return I.aggregate(st, {'RawPtr': []}, (a[0], a[1]), None)


@intr('slice_get_unchecked')
def _(I, st, a, info):
    p = I.as_ptr(a[0])
    return Ptr(p.obj, I.bump(p.path, I.as_lin(st, a[1])))


@intr('read_via_copy', 'volatile_load', 'unaligned_volatile_load')
def _(I, st, a, info):
    p = I.as_ptr(a[0])
    p = I.retype(st, p, tyarg(info))
    I.fix_alloc(st, p)
    if I.is_zst(tyarg(info)):
        return I.zst_value(tyarg(info))
    return I.load(st, p)


@intr('write_via_move', 'volatile_store')
def _(I, st, a, info):
    I.store(st, I.retype(st, I.as_ptr(a[0]), tyarg(info)), a[1])
    return UNIT


@intr('typed_swap_nonoverlapping')
def _(I, st, a, info):
    p, q = I.as_ptr(a[0]), I.as_ptr(a[1])
    x, y = I.load(st, p), I.load(st, q)
    I.store(st, p, y)
    I.store(st, q, x)
    return UNIT


@intr('copy_nonoverlapping', 'copy')
def _(I, st, a, info):
    n = I.as_lin(st, a[2])
    p, q = I.as_ptr(a[0]), I.as_ptr(a[1])
    ety = info.get('elem')
    if ety is None:
        ety = tyarg(info)
    if n.is_const() and n.c <= 16 or p.obj is None:
        if p.obj is None:
            return UNIT
        vals = []
        for i in range(n.c):
            r = I.retype(st, I.ptr_offset(st, p, con(i), ety), ety)
            I.fix_alloc(st, r)
            vals.append(I.load(st, r))
        locs = [I.retype(st, I.ptr_offset(st, q, con(i), ety), ety) for i in range(n.c)]
        for l in locs:      # index obligations before any write
            if l.path and l.path[-1][0] == 'i':
                x = I.read_arr(st, l)
                if x is not None:
                    I.arr_check(st, x, st.norm(l.path[-1][1]), 'write')
        for l, v in zip(locs, vals):
            I.store(st, l, v)
        return UNIT
    raise Undecided('block copy')


@intr('write_bytes')
def _(I, st, a, info):
    n = I.as_lin(st, a[2])
    b = I.as_lin(st, a[1])
    p = I.as_ptr(a[0])
    if n is ZERO or p.obj is None:
        return UNIT
    if b is not ZERO:
        raise Undecided('write_bytes')
    x = I.read_arr(st, p)
    if x is None:
        raise Undecided('write_bytes target')
    base = p.path[-1][1]
    t = fresh('rt', 0, INF)
    st.mem[p.obj] = Arr(x.n, x.esz, x.ety, x.base, (('r', Run(base, base + n, 1, t, (ZERO,))),) + x.w)
    return UNIT


@intr('ceilf64', 'ceil')
def _(I, st, a, info):
    v = a[0]
    if isinstance(v, FVal):
        if v.den == 1:
            return v
        return FVal(st.div(v.num + (v.den - 1), v.den))
    return Top('float')


@intr('floorf64', 'floor', 'truncf64', 'trunc')
def _(I, st, a, info):
    v = a[0]
    if isinstance(v, FVal):
        return FVal(st.div(v.num, v.den))
    return Top('float')


@model(r'(std|core)::(f64|num)::.*<?impl f64>?::(ceil|floor|trunc)|std::f64::<impl f64>::(ceil|floor|trunc)')
def _(I, st, a, info):
    return INTRINSICS[info['def'].split('::')[-1]](I, st, a, info)


@intr('const_eval_select')
def _(I, st, a, info):
    # (args tuple, const fn, runtime fn)
    return call_value(I, st, a[2], info['argtys'][2], a[0])


@intr('raw_eq')
def _(I, st, a, info):
    x, y = I.load(st, I.as_ptr(a[0])), I.load(st, I.as_ptr(a[1]))
    if x == y:
        return ONE
    raise Undecided('raw_eq')


@intr('is_val_statically_known')
def _(I, st, a, info):
    return ZERO


@model(r'(std|core)::mem::(drop|forget)|(std|core)::ptr::drop_in_place')
def _(I, st, a, info):
    return UNIT


@model(r'(core|std)::fmt::.*')
def _(I, st, a, info):
    return Top('format')


@model(r'.*maybe_is_nonoverlapping.*|.*maybe_is_aligned.*')
def _(I, st, a, info):
    return ONE
