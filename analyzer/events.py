"""Loops whose rounds branch on the data: counters and conditional appends.

The head state after t rounds is described by closed forms found from the branches of one round: a value
that moves by the same amount on every branch is linear in t, a value that moves only when the tested bit is
set is a prefix popcount, and one that moves at every m-th such bit is a quotient of it.  An array that grows
on some branch only becomes the sequence of its append events.  As for other loops nothing is believed until
one round maps the description at t into the description at t + 1 on every branch."""
from lin import Lin, SYMS, ZERO, ONE, con, sym, intern, fresh, has_nd, INF
import state
from state import NeedSplit, Undecided, pc, mkdiv
from values import *
import loops
from loops import Fail, Txn, step, constraints, is_def, sub_lin, I_subst, matches

MAXBRANCH = 12
GUESS = 1 << 60       # rounds considered when looking for closed forms


def branches(I, fr, loop, S):
    with Txn(I) as tx:
        return step(I, fr, loop, [S], tx.rets, [])


# ---- leaves --------------------------------------------------------------------------------------------
def leaves(v, path, out):
    if isinstance(v, Lin):
        out[path] = v
        return 'L'
    if isinstance(v, Adt):
        return ('A', v.var, tuple(leaves(x, path + (i,), out) for i, x in enumerate(v.f)))
    if isinstance(v, Ptr):
        sk = []
        for i, p in enumerate(v.path):
            sk.append((p[0],) + tuple(leaves(x, path + (('p', i, j),), out) if isinstance(x, Lin) else x
                                      for j, x in enumerate(p[1:])))
        m = None if v.meta is None else leaves(v.meta, path + ('m',), out)
        return ('P', v.obj, tuple(sk), m)
    if isinstance(v, Arr):
        return ('R', v.esz, v.ety, v.base, leaves(v.n, path + ('n',), out))
    return v


def rebuild(v, path, new):
    if isinstance(v, Lin):
        return new.get(path, v)
    if isinstance(v, Adt):
        return Adt(v.var, tuple(rebuild(x, path + (i,), new) for i, x in enumerate(v.f)))
    if isinstance(v, Ptr):
        return Ptr(v.obj, tuple((p[0],) + tuple(rebuild(x, path + (('p', i, j),), new) if isinstance(x, Lin) else x
                                                for j, x in enumerate(p[1:])) for i, p in enumerate(v.path)),
                   None if v.meta is None else rebuild(v.meta, path + ('m',), new))
    if isinstance(v, Arr):
        return Arr(rebuild(v.n, path + ('n',), new), v.esz, v.ety, v.base, v.w)
    return v


def moves(A, B):
    """{leaf: how much it moves from A to B}; None when something else changes"""
    out = {}
    for k, v in A.mem.items():
        w = B.mem.get(k)
        if w is None:
            raise Fail('object %r disappears' % (k,))
        if v is w or v == w:
            continue
        x, y = {}, {}
        if leaves(v, (k,), x) != leaves(w, (k,), y):
            raise Fail('%r changes its shape' % (k,))
        for p, a in x.items():
            d = B.norm(y[p] - a)
            if not d.is_const():
                raise Fail('%r moves by %r' % (p, d))
            if d.c:
                out[p] = d.c
    return out


# ---- closed forms --------------------------------------------------------------------------------------
def new_atoms(R, G, ts, kind):
    """atoms over the round number that R talks about"""
    seen = set()
    todo = [x for t in R.ineq for x, _ in t] + list(R.bnd) + list(R.sub)
    todo += [x for e in R.sub.values() for x, _ in e.t]
    out = []
    for x in todo:
        for y in (x,) + tuple(SYMS[x].deps):
            if y not in seen:
                seen.add(y)
                if SYMS[y].kind != kind:
                    continue
                k = list(SYMS[y].key)
                i = 2 if kind == 'pc' else 1
                k[i] = undo(k[i], ts)
                if uses(k[i], ts):
                    out.append(tuple(k))
    return out


def uses(L, ts):
    return any(x == ts or ts in SYMS[x].deps for x, _ in L.t)


def undo(L, ts):
    """L with quotients and remainders of the round number spelled out"""
    if not any(root(x) == ts or any(root(y) == ts for y in SYMS[x].deps) for x, _ in L.t):
        return L
    acc = Lin(L.c)
    for x, k in L.t:
        kind = SYMS[x].kind
        key = SYMS[x].key
        if kind in ('q', 'r') and root(x) == ts:
            m, y = 1, x
            while SYMS[y].kind == 'q':
                m *= SYMS[y].key[2]
                y = SYMS[y].key[1]
            if y == ts:
                e = mkdiv(sym(ts), m)
            else:
                _, s, n = SYMS[y].key       # remainder of s
                if y != x:
                    raise Fail('quotient of a remainder')
                e = undo(sym(s), ts) - undo(sym(intern(('q', s, n), 0, INF)), ts) * n
        elif kind == 'pc':
            e = pc(key[1], undo(key[2], ts))
        elif kind == 'div':
            e = mkdiv(undo(key[1], ts), key[2])
        else:
            e = sym(x)
        acc = acc + e * k
    return acc


def candidates(bs, G, ts):
    t = sym(ts)
    pcs, divs = set(), set()
    for R in bs:
        pcs.update(new_atoms(R, G, ts, 'pc'))
        divs.update(new_atoms(R, G, ts, 'div'))
    out = []

    def form(F):
        try:
            out.append(F - sub_lin(F, ts, ZERO))
        except Undecided:
            pass
    for _, arr, L in sorted(pcs, key=str):
        d = sub_lin(L, ts, t + 1) - L
        if not d.is_const():
            continue
        for A in (L, L - d.c):
            form(pc(arr, A))
            form(t * d.c - pc(arr, A))
    for _, E, m in sorted(divs, key=str):
        for c in (0, m - 1, 1, -1):
            form(mkdiv(E + c, m))
    return out


def bind(L, ts, e):
    L = undo(L, ts)
    for x, _ in L.t:
        if root(x) == ts and x != ts or any(root(y) == ts and y != ts for y in SYMS[x].deps):
            raise Fail('quotient inside of %r' % L)
    return sub_lin(L, ts, e)


def root(x):
    while SYMS[x].kind in ('q', 'r'):
        x = SYMS[x].key[1]
    return x


def events(I, fr, loop, S, rets, outs):
    try:
        return attempt(I, fr, loop, S, rets, outs)
    except Fail as e:
        if I.debug:
            print('   loop', fr.name, loop.head, 'events', e)
        return None


def attempt(I, fr, loop, S, rets, outs):
    T0 = branches(I, fr, loop, S)
    if not 2 <= len(T0) <= MAXBRANCH:
        raise Fail('%d branches' % len(T0))
    pairs = [(S, b) for b in T0]
    for b in T0:
        T1 = branches(I, fr, loop, b)
        if len(T1) > MAXBRANCH:
            raise Fail('%d branches' % len(T1))
        pairs += [(b, c) for c in T1]
    mv = [moves(a, b) for a, b in pairs]
    ts = fresh('t', 0, INF)
    t = sym(ts)
    base = {}
    for k, v in S.mem.items():
        leaves(v, (k,), base)
    groups, linear = {}, {}
    for p in sorted({p for m in mv for p in m}, key=str):
        if p not in base:
            raise Fail('new leaf')
        d = tuple(m.get(p, 0) for m in mv)
        if len(set(d)) == 1:
            linear[p] = d[0]
        else:
            groups.setdefault(d, []).append(p)
    form = {d: None for d in groups}

    def head():
        G = S.copy()
        new = {p: base[p] + t * d for p, d in linear.items()}
        for d, ps in groups.items():
            if form[d] is None:
                lo = -GUESS if min(d) < 0 else 0
                f = sym(fresh('z', lo, GUESS))
            else:
                f = form[d]
            for p in ps:
                new[p] = base[p] + f
        for k in {p[0] for p in new}:
            G.mem[k] = rebuild(G.mem[k], (k,), new)
        return G
    while True:
        G = head()
        if not G.add_ge(GUESS - t):
            raise Fail('contradiction')
        bs = branches(I, fr, loop, G)
        if not 2 <= len(bs) <= 4 * MAXBRANCH:
            raise Fail('%d branches' % len(bs))
        todo = [d for d in form if form[d] is None]
        if not todo:
            break
        ms = [moves(G, R) for R in bs]
        cs = candidates(bs, G, ts)
        found = False
        for d in todo:
            p = groups[d][0]
            for F in cs:
                dF = sub_lin(F, ts, t + 1) - F
                if all(R.equal(dF, con(m.get(p, 0))) for R, m in zip(bs, ms)):
                    form[d] = F
                    found = True
                    break
        if not found:
            raise Fail('no closed form for %r among %r' % ([groups[d] for d in todo], cs))
    # appends
    H0 = head()
    evs = {}
    for k, v in G.mem.items():
        if not isinstance(v, Arr):
            continue
        for R in bs:
            w = R.mem[k].w
            if w == v.w:
                continue
            if k in evs or len(w) != len(v.w) + 1 or w[1:] != v.w or w[0][0] != 'w':
                raise Fail('array changes')
            e = w[0]
            if not isinstance(e[2], Lin) or not R.equal(e[1], v.n):
                raise Fail('not an append')
            tau = fresh('e', 0, INF)
            T = sym(tau)
            conds = []
            old = set(constraints(G))
            for c in constraints(R):
                if c not in old:
                    conds.append(('ge', bind(c, ts, T)))
            for x, y in R.sub.items():
                if x not in G.sub and not is_def(x, y):
                    conds.append(('eq', bind(sym(x) - y, ts, T)))
            evs[k] = ('ev', tau, t, sub_lin(v.n, ts, T), bind(e[2], ts, T), tuple(conds))
    for k, e in evs.items():
        v = H0.mem[k]
        H0.mem[k] = Arr(v.n, v.esz, v.ety, v.base, (e,) + v.w)
    # the condition under which the loop goes on
    old = set(constraints(G))
    go = []
    for c in constraints(bs[0]):
        if c not in old:
            c = undo(c, ts)
            if ts in dict(c.t) and not any(root(x) != x or ts in SYMS[x].deps for x, _ in c.t if root(x) == ts or SYMS[x].deps) \
                    and all(R.prove(c) for R in bs):
                go.append(c)
    cands = [g for g in go if S.prove(sub_lin(g, ts, con(-1)))]
    H = H0.copy()
    for g in cands:
        if not H.add_ge(sub_lin(g, ts, t - 1)):
            raise Fail('contradiction')
    with Txn(I) as tx:
        ex = []
        bs = step(I, fr, loop, [H], tx.rets, ex)
        for R in bs:
            why = matches(I, R, H, ts, t)
            if why is not None:
                raise Fail('not inductive: %s' % why)
            for g in cands:
                if not R.prove(g):
                    raise Fail('not inductive: %r' % g)
        # exactness: nothing leaves the loop where the description says that it goes on
        X = H0.copy()
        lossy = not all([X.add_ge(g) for g in cands]) or not all(X.prove(sub_lin(g, ts, t - 1)) for g in cands)
        for s in [s for _, s in ex] + tx.rets + [e[1] for e in tx.rec.ev]:
            s = s.copy()
            if all([s.add_ge(g) for g in cands]) and s.feasible():
                lossy = True
        if lossy:
            for s in [s for _, s in ex] + tx.rets + [e[1] for e in tx.rec.ev]:
                s.approx = True
        tx.commit(rets)
        outs.extend(ex)
    if I.debug:
        print('   loop', fr.name, 'events', 'lossy' if lossy else 'exact', list(form.values()), 'while', cands, evs)
    return []
