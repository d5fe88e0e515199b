"""Concrete witness for a state in which an obligation fails.

An obligation that cannot be discharged is reported as a violation only when the abstract state is
exact and contains a point whose values are integers and whose bit arrays exist."""
from math import floor, ceil
from lin import Lin, SYMS, ZERO, ONE, con, sym, intern, INF
from state import NeedSplit, Undecided
import state
import values

BASE = ('v', 'q', 'r')


class Budget(Exception):
    pass


def atoms_of(st):
    s = set()
    for t in st.ineq:
        s.update(x for x, _ in t)
    s.update(st.bnd)
    out = set()
    for x in s:
        if x in st.sub:
            continue
        out.add(x)
        out.update(d for d in SYMS[x].deps if d not in st.sub)
    return out


def expand(st):
    """relate bit strings and their bits, quotients and what they divide"""
    for x in list(st.sub):
        si = SYMS[x]
        if si.kind == 'div':
            d = sym(x)
            if not (st.add_ge(si.key[1] - d * si.key[2]) and st.add_ge(d * si.key[2] + (si.key[2] - 1) - si.key[1])):
                return False
    for _ in range(6):
        todo = [x for x in atoms_of(st) if SYMS[x].kind in ('bv', 'pop', 'div')]
        done = True
        for x in todo:
            si = SYMS[x]
            if si.kind == 'div':
                d = sym(x)
                if not (st.add_ge(si.key[1] - d * si.key[2]) and st.add_ge(d * si.key[2] + (si.key[2] - 1) - si.key[1])):
                    return False
                continue
            tot = ZERO
            for i, b in enumerate(st.norm_bits(si.key[1])):
                L = bit_lin(st, b)
                if L is None:
                    return False
                tot = tot + (L * (1 << i) if si.kind == 'bv' else L)
            e = st.norm(sym(x) - tot)
            if e.t or e.c:
                done = False
                # the symbol itself can be replaced: it is not an argument of anything
                if st.norm(sym(x)) is sym(x):
                    if not st.subst(x, tot):
                        return False
                elif not st.add_eq(e):
                    return False
        if done:
            return True
    return True


def bit_lin(st, b):
    """0/1-valued form of a bit source; combinations of bits get a variable of their own"""
    if type(b) is int or b[0] in ('b', 'l'):
        return values.src_lin(st, b)
    if b[0] == 'n':
        p = bit_lin(st, b[1])
        return None if p is None else ONE - p
    p, q = bit_lin(st, b[1]), bit_lin(st, b[2])
    if p is None or q is None:
        return None
    z = sym(intern(('v', 'bit', b), 0, 1))
    if b[0] == 'a':
        gs = (p - z, q - z, z - p - q + 1)
    elif b[0] == 'o':
        gs = (z - p, z - q, p + q - z)
    else:
        gs = (p + q - z, z - p + q, z - q + p, con(2) - p - q - z)
    return z if all([st.add_ge(g) for g in gs]) else None


def witness(st, budget=400):
    """{symbol: int} or None"""
    if st.approx:
        return None
    X = st.copy()
    try:
        if not expand(X):
            return None
        for x in atoms_of(X):
            if SYMS[x].opaque:
                return None
        b = [budget]
        return search(X, b, st)
    except (Budget, NeedSplit, Undecided, RecursionError):
        return None


def search(X, b, st):
    b[0] -= 1
    if b[0] < 0:
        raise Budget()
    m = X.lp_infeasible([ZERO] + [Lin(c, t) for t, c in X.ineq.items()], want_model=True)
    if m is None:
        return None
    at = atoms_of(X)
    base = sorted(x for x in at if SYMS[x].kind in BASE)
    for us, T, ls in X.facts:
        for d in state.alldeps(T):
            if d not in X.sub and SYMS[d].kind in BASE and d not in base:
                base.append(d)
    if base:
        pick = base[0]
    else:
        if X.facts:
            if not inst_all(X):
                return None
            return search(X, b, st)
        rest = sorted(x for x in at if X.norm_sym(x) is None and fixed(X, x) is None)
        if not rest:
            return dict(X.sub) if consistent(X) and holds(st, X) else None
        pick = rest[0]
    lo, hi = X.sb(pick)
    c = []
    v = m.get(pick) if m else None
    if v is not None:
        v = v if isinstance(v, int) else v
        c += [floor(v), ceil(v)]
    if lo != -INF:
        c = [lo] + c + [lo + 1]
    if hi != INF:
        c += [hi]
    if not c:
        c = [0]
    seen = set()
    for x in c:
        if x in seen or x < lo or x > hi:
            continue
        seen.add(x)
        Y = X.copy()
        si = SYMS[pick]
        if si.kind in BASE:
            ok = Y.add_eq(sym(pick) - x)
        else:
            Y.bnd[pick] = (x, x)
            Y.touch()
            ok = True
        if not ok:
            continue
        r = search(Y, b, st)
        if r is not None:
            return r
    return None


def consistent(X):
    """quotients and powers agree with what they are computed from"""
    for x in X.sub:
        si = SYMS[x]
        if si.kind in ('div', 'pow2'):
            v, a = X.norm(sym(x)), X.norm(si.key[1])
            if v.is_const() and a.is_const():
                if si.kind == 'div' and v.c != a.c // si.key[2]:
                    return False
                if si.kind == 'pow2' and a.c >= 0 and v.c != 1 << a.c:
                    return False
    return True


def fixed(X, s):
    a, b = X.sb(s)
    return a if a == b else None


def inst_all(X):
    from interp import subst_lin
    fs = X.facts
    X.facts = ()
    for us, T, lins in fs:
        T = X.norm(T)
        if T.t:
            raise Undecided('fact range')
        if T.c > 150:
            raise Undecided('fact range')
        for i in range(T.c):
            for L in lins:
                if not X.add_ge(subst_lin(L, us, con(i))):
                    return False
    return True


class Unknown(Exception):
    pass


def holds(st, X):
    """does the point found in X satisfy every constraint of `st`?  The values of the symbols are computed anew from
    those of the variables, and the prefix counts must belong to bit arrays that exist"""
    memo, counts = {}, {}

    def lin(L):
        return L.c + sum(k * value(x) for x, k in L.t)

    def count(arr, p):
        k = (arr, p)
        if k not in counts:
            a = X.norm(state.pc(arr, con(p)))
            if a.t and not (len(a.t) == 1 and fixed(X, a.t[0][0]) is not None):
                raise Unknown(a)
            counts[k] = a.c + sum(c * fixed(X, x) for x, c in a.t)
        return counts[k]

    def bit(b):
        if type(b) is int:
            return b
        if b[0] == 'b':
            p = lin(st.norm(b[2]))
            return count(b[1], p + 1) - count(b[1], p)
        if b[0] == 'l':
            return lin(st.norm(b[1])) >> b[2] & 1
        if b[0] == 'n':
            return 1 - bit(b[1])
        p, q = bit(b[1]), bit(b[2])
        return p & q if b[0] == 'a' else p | q if b[0] == 'o' else p ^ q

    def value(x):
        if x in memo:
            return memo[x]
        si = SYMS[x]
        if si.kind == 'div':
            v = lin(si.key[1]) // si.key[2]
        elif si.kind == 'pow2':
            e = lin(si.key[1])
            v = 1 << e if 0 <= e < 4096 else 0
        elif si.kind == 'pc':
            v = count(si.key[1], lin(si.key[2]))
        elif si.kind == 'bv':
            v = sum(bit(b) << i for i, b in enumerate(st.norm_bits(si.key[1])))
        else:
            e = X.norm(sym(x))
            if e.t and not all(fixed(X, y) is not None for y, _ in e.t):
                if x in X.sub:
                    v = memo[x] = lin(X.sub[x])
                    if not X.sb(x)[0] <= v <= X.sb(x)[1]:
                        raise Unknown(x)
                    return v
                v = X.sb(x)[0] if X.sb(x)[0] != -INF else 0
            else:
                v = e.c + sum(k * fixed(X, y) for y, k in e.t)
        memo[x] = v
        return v

    try:
        for t, c in st.ineq.items():
            if lin(Lin(c, t)) < 0:
                return False
        for x, e in st.sub.items():
            if value(x) != lin(e):
                return False
        ends = {}
        for arr in {a for a, _ in counts}:
            W = state.ARRS.get(arr)
            if W is not None:
                ends[arr] = lin(st.norm(W))
    except Unknown:
        return False
    for arr in {a for a, _ in counts}:
        end = ends.get(arr)
        pts = {0: 0}
        for (a, p), v in counts.items():
            if a == arr:
                if p < 0:
                    return False
                p = p if end is None else min(p, end)
                if pts.setdefault(p, v) != v:
                    return False
        s = sorted(pts.items())
        for (p, a), (q, b) in zip(s, s[1:]):
            if not 0 <= b - a <= q - p:
                return False
    return True
