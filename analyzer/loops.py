"""Loop fixpoints.

A loop is analysed from one abstract head state S.  Iterations are sampled, the samples are
anti-unified into a state G(t) (t = number of completed rounds), and G is accepted only when it is
inductive: G(0) is S, and the body maps G(t) into G(t + 1).  What the body adds to the path
condition each round is kept as `for all t' < t` facts, so that no information is lost."""
from lin import Lin, SYMS, ZERO, ONE, con, sym, intern, fresh, fresh_nd, has_nd, lone_nd, INF
import state
from state import State, NeedSplit, Undecided, Infeasible, pc, seq, alldeps
from values import *
import values
from math import gcd

TBOUND = INF


DISJUNCTS = 6       # states kept apart at a join point before they are merged


class Fail(Exception):
    base = False


# ---- transactions ----------------------------------------------------------------------------------
class Recorder:
    def __init__(self):
        self.ev = []
        self.mode = None

    def panic(self, I, st, msg):
        self.ev.append(('panic', st, msg, list(I.site())))

    def ub(self, I, st, msg):
        self.ev.append(('ub', st, msg, list(I.site())))

    def undecided(self, I, st, msg):
        self.ev.append(('undecided', st, msg, list(I.site())))

    def failed(self, I, st, msg):
        self.ev.append(('failed', st, msg, list(I.site())))

    def replay(self, I, outer):
        old = I.site_override
        for k, st, msg, site in self.ev:
            I.site_override = site
            getattr(outer, k)(I, st, msg)
        I.site_override = old


class Txn:
    def __init__(self, I):
        self.I = I
        self.rets = []

    def __enter__(self):
        I = self.I
        self.outer = I.hooks
        self.obl = dict(I.obl)
        self.rec = Recorder()
        self.rec.mode = self.outer.mode
        I.hooks = self.rec
        self.done = False
        return self

    def __exit__(self, *a):
        if not self.done:
            self.rollback()

    def rollback(self):
        I = self.I
        I.hooks = self.outer
        I.obl = self.obl
        self.done = True

    def commit(self, rets):
        I = self.I
        I.hooks = self.outer
        self.rec.replay(I, self.outer)
        rets.extend(self.rets)
        self.done = True


# ---- helpers -----------------------------------------------------------------------------------------
def clean(I, fr, b, s):
    """forget locals that are dead at block b, and heap objects nothing refers to"""
    cfg = fr.cfg
    live = cfg.live[b]
    for i in range(len(fr.locals)):
        k = (fr.id, i)
        if i not in live and i not in cfg.addr and k in s.mem:
            del s.mem[k]
    roots = [k for k in s.mem if k[0] != 'h']
    seen = set(roots)
    work = list(roots)

    def refs(v):
        if isinstance(v, Ptr):
            if v.obj is not None and v.obj not in seen:
                seen.add(v.obj)
                work.append(v.obj)
        elif isinstance(v, Adt):
            for x in v.f:
                refs(x)
        elif isinstance(v, Arr):
            for w in v.w:
                if w[0] == 'w':
                    refs(w[2])
                elif w[0] == 'r':
                    for x in w[1].tmpl:
                        refs(x)
            if v.base[0] == 'fill':
                refs(v.base[1])
    for e in s.log:
        if e[0] == 'snap':
            refs(e[1])
    while work:
        k = work.pop()
        if k in s.mem:
            refs(s.mem[k])
    for k in list(s.mem):
        if k not in seen:
            del s.mem[k]


def constraints(s):
    """[Lin] meaning Lin >= 0, without the substitution"""
    out = [Lin(c, t) for t, c in s.ineq.items()]
    for x, (lo, hi) in s.bnd.items():
        si = SYMS[x]
        if lo != -INF and lo > si.lo:
            out.append(sym(x) - lo)
        if hi != INF and hi < si.hi:
            out.append(con(hi) - sym(x))
    return out


def refold(L, s):
    """the form with quotient and remainder of s put together again"""
    for y, ky in L.t:
        if SYMS[y].key[:2] == ('r', s):
            m = SYMS[y].key[2]
            for x, kx in L.t:
                if SYMS[x].key == ('q', s, m) and kx == m * ky:
                    L = L - sym(y) * ky - sym(x) * kx + sym(s) * ky
    return L


def is_def(s, e):
    """substitution that only names quotient and remainder"""
    if e.c or len(e.t) != 2:
        return False
    (a, ka), (b, kb) = e.t
    for (x, kx), (y, ky) in (((a, ka), (b, kb)), ((b, kb), (a, ka))):
        if SYMS[x].key[:2] == ('q', s) and SYMS[y].key[:2] == ('r', s) and ky == 1 and SYMS[x].key[2] == kx:
            return True
    return False


def veq(I, st, a, b):
    """values provably equal in st"""
    if a is b:
        return True
    if a is None or b is None:
        return False
    if isinstance(a, Lin) and isinstance(b, Lin):
        return st.equal(a, b) or (FORGET[0] and covers(st, a, b))
    if isinstance(a, (Lin, Bits)) and isinstance(b, (Lin, Bits)):
        if isinstance(a, Bits) and isinstance(b, Bits):
            x, y = st.norm_bits(a.b), st.norm_bits(b.b)
            if x == y:
                return True
            if len(x) != len(y):
                return False
            return all(p == q or src_eq(st, p, q) for p, q in zip(x, y))
        try:
            return st.equal(I.as_lin(st, a), I.as_lin(st, b))
        except (Undecided, NeedSplit):
            return False
    if type(a) is not type(b):
        return False
    if isinstance(a, Adt):
        return a.var == b.var and len(a.f) == len(b.f) and all(veq(I, st, x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, Ptr):
        if a.obj != b.obj or len(a.path) != len(b.path) or (a.meta is None) != (b.meta is None):
            return False
        for p, q in zip(a.path, b.path):
            if p[0] != q[0] or len(p) != len(q):
                return False
            for x, y in zip(p[1:], q[1:]):
                if x is not y and x != y and not (isinstance(x, Lin) and isinstance(y, Lin) and st.equal(x, y)):
                    return False
        return a.meta is None or st.equal(a.meta, b.meta)
    if isinstance(a, Cond):
        if a == b:
            return True
        if a.k == b.k and a.neg == b.neg and isinstance(a.a, Lin):
            return st.equal(a.a, b.a)
        return False
    if isinstance(a, Arr):
        return arr_eq(I, st, a, b)
    if isinstance(a, Run):
        return (a.stride, len(a.tmpl)) == (b.stride, len(b.tmpl)) and st.equal(a.lo, b.lo) and st.equal(a.hi, b.hi) \
            and all((x is None and y is None) or veq(I, st, x, I_subst(y, b.tsym, sym(a.tsym))) for x, y in zip(a.tmpl, b.tmpl))
    if isinstance(a, BitUpd):
        return a.n == b.n and st.equal(a.e, b.e) and src_eq(st, a.s, b.s) and veq(I, st, a.w, b.w)
    if isinstance(a, (LowMask, SelBit)):
        return st.equal(a.e, b.e) and veq(I, st, a.w, b.w)
    if isinstance(a, ShrW):
        return a.n == b.n and st.equal(a.k, b.k) and veq(I, st, a.w, b.w)
    return a == b


FORGET = [False]


def included(I, st, g, v):
    """v is one of the values described by g"""
    FORGET[0] = True
    try:
        return veq(I, st, g, v)
    finally:
        FORGET[0] = False


def covers(st, a, b):
    """a is a value the program may not rely on and b lies in its range"""
    if not lone_nd(a):
        return False
    s = SYMS[a.t[0][0]]
    return st.prove(b - s.lo) and st.prove(con(s.hi) - b)


def nd_join(a, b):
    lo, hi = 0, 0
    for x in (a, b):
        if lone_nd(x):
            s = SYMS[x.t[0][0]]
            lo, hi = min(lo, s.lo), max(hi, s.hi)
        elif x.is_const():
            lo, hi = min(lo, x.c), max(hi, x.c)
        else:
            hi = (1 << 64) - 1
    return sym(fresh_nd(lo, hi))


def src_eq(st, p, q):
    if p == q:
        return True
    if type(p) is int and type(q) is int:
        return False
    if type(p) is tuple and type(q) is tuple and p[0] == q[0] == 'l' and p[2] == q[2] and st.equal(p[1], q[1]):
        return True
    for x, y in ((p, q), (q, p)):
        if type(x) is tuple and x[0] == 'l':
            if y == 0 and x[2] and st.prove(con((1 << x[2]) - 1) - x[1]):
                return True
            lo, hi = st.iv(st.norm(x[1]))
            if x[2] or lo < 0 or hi > 1:
                return False
    try:
        return st.equal(src_lin(st, p), src_lin(st, q))
    except Undecided:
        return False


def I_subst(v, s, e):
    from interp import subst_val
    return subst_val(v, s, e)


def entry_eq(I, st, a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'w':
        return st.equal(a[1], b[1]) and veq(I, st, a[2], b[2])
    if a[0] == 'r':
        return veq(I, st, a[1], b[1])
    if a[0] == 'ev':
        if a == b:
            return True
        if a[1] != b[1] or a[3:] != b[3:]:
            return False
        if st.equal(a[2], b[2]):
            return True
        if st.equal(a[2], b[2] + 1):
            lo = b[2]
        elif st.equal(b[2], a[2] + 1):
            lo = a[2]
        else:
            return False
        # the round in between does not append
        for k, c in a[5]:
            c = sub_lin(c, a[1], lo)
            if st.prove(-c - 1) or k == 'eq' and st.prove(c - 1):
                return True
        return False
    return a == b


def arr_eq(I, st, a, b):
    if not st.equal(a.n, b.n) or a.esz != b.esz or a.base != b.base:
        if not (a.base[0] == b.base[0] == 'fill' and veq(I, st, a.base[1], b.base[1])):
            return False
    if a.w == b.w:
        return True
    x, y = simplify_log(I, st, list(a.w)), simplify_log(I, st, list(b.w))
    if len(x) != len(y):
        return False
    rest = list(y)
    for e in x:
        for i, f in enumerate(rest):
            if entry_eq(I, st, e, f):
                del rest[i]
                break
        else:
            return False
    # order is irrelevant only when the explicit entries are at distinct places
    return distinct(st, x) or all(entry_eq(I, st, e, f) for e, f in zip(x, y))


def distinct(st, x):
    idx = [e[1] for e in x if e[0] == 'w']
    for i in range(len(idx)):
        for j in range(i):
            d = st.norm(idx[i] - idx[j])
            if not d.t:
                if d.c == 0:
                    return False
            elif not (st.prove(d - 1) or st.prove(-d - 1)):
                return False
    return True


def simplify_log(I, st, w):
    """fold explicit entries that continue a run into the run, drop empty runs"""
    w = [e for e in w if not (e[0] == 'r' and st.equal(e[1].lo, e[1].hi))]
    changed = True
    while changed:
        changed = False
        for ri, e in enumerate(w):
            if e[0] == 'ev' and ri:
                _, tau, T, idx, val, conds = e
                x = w[ri - 1]
                if x[0] == 'w' and st.equal(x[1], sub_lin(idx, tau, T)) and veq(I, st, x[2], I_subst(val, tau, T)) and all(
                        st.prove(sub_lin(c, tau, T)) and (k == 'ge' or st.prove(-sub_lin(c, tau, T))) for k, c in conds):
                    w[ri - 1:ri + 1] = [('ev', tau, T + 1, idx, val, conds)]
                    changed = True
                    break
            if e[0] != 'r':
                continue
            r = e[1]
            L = st.norm(r.hi - r.lo)
            T = divide(L, r.stride)
            if T is None:
                continue
            take = []
            for off, tm in enumerate(r.tmpl):
                if tm is None:
                    continue
                want = I_subst(tm, r.tsym, T)
                hit = None
                for i in range(ri):
                    x = w[i]
                    if x[0] == 'w' and st.equal(x[1], r.hi + off):
                        hit = i
                        break
                if hit is None or not veq(I, st, w[hit][2], want):
                    take = None
                    break
                take.append(hit)
            if take:
                nr = Run(r.lo, r.hi + r.stride, r.stride, r.tsym, r.tmpl)
                w = [('r', nr) if i == ri else x for i, x in enumerate(w) if i not in take]
                changed = True
                break
    return w


def divide(L, k):
    if L.c % k or any(c % k for _, c in L.t):
        return None
    return Lin(L.c // k, tuple((s, c // k) for s, c in L.t))


# ---- exact joins -------------------------------------------------------------------------------------
def merge_states(I, fr, b, sts):
    """states arriving at a join point; a few disjuncts are kept apart"""
    if len(sts) <= DISJUNCTS:
        return sts
    for s in sts:
        clean(I, fr, b, s)
    return merge_at(I, (fr.name, b), sts)


def merge_at(I, site, sts):
    """merging, given up at places where it keeps failing"""
    miss = I.mergemiss.get(site, 0)
    if miss > 3:
        return sts
    try:
        m = tabulate(I, sts)
        if m is not None:
            return m
    except Fail as e:
        if I.debug:
            print('   no table', site, e)
    out = merge_all(I, sts)
    if len(out) < len(sts):
        I.mergemiss[site] = 0
    elif 1 < len(sts) <= 12:
        I.mergemiss[site] = miss + 1
    return out


class Table:
    """parallel walk over similar states; integer constants that differ become functions of a row number"""

    def __init__(self, k):
        self.k = k
        self.cols = {}
        self.rho = None
        self.order = None
        self.defs = []
        self.arrays = False     # contents of arrays differ as well

    def lin(self, xs):
        a = xs[0]
        if all(x is a for x in xs):
            return a
        if any(has_nd(x) for x in xs):
            g = xs[0]
            for x in xs[1:]:
                g = nd_join(g, x)
            return g
        if any(x.t != a.t for x in xs):
            raise Fail('rows %r | %r' % (a, next(x for x in xs if x.t != a.t)))
        return Lin(0, a.t) + self.col([x.c for x in xs])

    def col(self, cs):
        if all(c == cs[0] for c in cs):
            return con(cs[0])
        cs = tuple(cs)
        if self.rho is None:        # first pass: look for the column numbering the rows
            self.cols[cs] = True
            return con(cs[0])
        f = self.cols.get(cs)
        if f is None:
            f = self.cols[cs] = self.fit([cs[i] for i in self.order])
        return f

    def choose(self):
        for cs in self.cols:
            lo = min(cs)
            if max(cs) - lo == self.k - 1 and len(set(cs)) == self.k:
                self.order = sorted(range(self.k), key=lambda i: cs[i])
                self.rho = sym(fresh('row', 0, self.k - 1))
                self.cols = {}
                return
        raise Fail('no row number')

    def fit(self, v):
        k = self.k
        b, a = v[0], v[1] - v[0]
        if all(v[r] == b + a * r for r in range(k)):
            return self.rho * a + b
        for d in (k, 64):
            for a in range((v[-1] - v[0] - 1) * d // (k - 1) - 1, (v[-1] - v[0] + 1) * d // (k - 1) + 2):
                for e in range(d):
                    if (a * (k - 1) + e) // d == v[-1] - v[0] and all((a * r + e) // d == v[r] - v[0] for r in range(k)):
                        g = gcd(a, d)
                        d, R = d // g, self.rho * (a // g) + e // g
                        hi = v[-1] - v[0]
                        D = sym(intern(('div', R, d), min(0, hi), max(0, hi), alldeps(R)))
                        self.defs += [R - D * d, D * d + (d - 1) - R]
                        return D + v[0]
        raise Fail('column %r' % (v[:6],))

    def val(self, xs):
        a = xs[0]
        if all(x is a or x == a for x in xs):
            return a
        if any(type(x) is not type(a) for x in xs):
            raise Fail('row kinds')
        if isinstance(a, Lin):
            return self.lin(xs)
        if isinstance(a, Adt):
            if any(x.var != a.var or len(x.f) != len(a.f) for x in xs):
                raise Fail('row variants')
            return Adt(a.var, tuple(self.val(f) for f in zip(*[x.f for x in xs])))
        if isinstance(a, Arr):
            if any(x.esz != a.esz or x.ety != a.ety or x.base != a.base or x.w != a.w for x in xs):
                self.arrays = True
            return Arr(self.lin([x.n for x in xs]), a.esz, a.ety, a.base, a.w)
        if isinstance(a, Ptr):
            if any(x.obj != a.obj or len(x.path) != len(a.path) or (x.meta is None) != (a.meta is None) for x in xs):
                raise Fail('row pointers')
            path = []
            for q in zip(*[x.path for x in xs]):
                if all(y == q[0] for y in q):
                    path.append(q[0])
                elif isinstance(q[0][-1], Lin) and all(y[:-1] == q[0][:-1] for y in q):
                    path.append(q[0][:-1] + (self.lin([y[-1] for y in q]),))
                else:
                    raise Fail('row pointers')
            return Ptr(a.obj, tuple(path), None if a.meta is None else self.lin([x.meta for x in xs]))
        raise Fail('row values')

    def state(self, sts):
        A = sts[0]
        M = A.copy()
        for k in A.mem:
            M.mem[k] = self.val([nval(s, s.mem[k]) for s in sts])
        M.sub = {}
        for x in A.sub:
            M.sub[x] = self.lin([s.sub[x] for s in sts])
        M.ineq, M.bnd, M._nc, M._pc = {}, {}, {}, {}
        cons = []
        for t in A.ineq:
            cons.append(self.col([s.ineq[t] for s in sts]) + Lin(0, t))
        for x in A.bnd:
            lo = [s.bnd[x][0] for s in sts]
            hi = [s.bnd[x][1] for s in sts]
            if all(c != -INF for c in lo):
                cons.append(sym(x) - self.col([int(c) for c in lo]))
            elif any(c != lo[0] for c in lo):
                raise Fail('row bounds')
            if all(c != INF for c in hi):
                cons.append(self.col([int(c) for c in hi]) - sym(x))
            elif any(c != hi[0] for c in hi):
                raise Fail('row bounds')
        return M, cons


def tabulate(I, sts):
    """one state for many that differ only in constants c(r) = a*r + b or (a*r + b) div d of a row number r"""
    if len(sts) <= DISJUNCTS:
        return None
    A = sts[0]
    for s in sts[1:]:
        if s.facts != A.facts or s.log != A.log or s.mem.keys() != A.mem.keys() or s.sub.keys() != A.sub.keys() \
                or s.ineq.keys() != A.ineq.keys() or s.bnd.keys() != A.bnd.keys():
            raise Fail('rows of different shape')
    T = Table(len(sts))
    T.state(sts)
    T.choose()
    M, cons = T.state(sts)
    if T.arrays:
        return sts
    M.nobj = max(s.nobj for s in sts)
    M.approx = any(s.approx for s in sts)
    for c in cons + T.defs:
        if not M.add_ge(c):
            raise Fail('rows contradict')
    return [M]


def merge_returns(I, rets, name=None):
    """join of the states in which a call returns; the return value travels in memory"""
    if len(rets) <= DISJUNCTS:
        return rets
    for s, r in rets:
        s.mem['ret'] = r
    return [(s, s.mem.pop('ret')) for s in merge_at(I, (name, None), [s for s, _ in rets])]


def merge_all(I, sts):
    sts = list(sts)
    if len(sts) > 12:
        return sts
    i = 0
    while i < len(sts):
        j = i + 1
        while j < len(sts):
            try:
                m = merge2(I, sts[i], sts[j])
            except (Fail, Undecided, NeedSplit):
                m = None
            if m is not None:
                sts[i] = m
                del sts[j]
                j = i + 1
            else:
                j += 1
        i += 1
    return sts


def indicators(A, B, ca, cb):
    """0/1-valued forms that are 1 in A and 0 in B"""
    out = []
    for c in ca:
        for ind in (c + 1, ):
            if A.prove(ind - 1) and A.prove(ONE - ind) and B.prove(ind) and B.prove(-ind):
                out.append(ind)
    for c in cb:
        ind = -c
        if A.prove(ind - 1) and A.prove(ONE - ind) and B.prove(ind) and B.prove(-ind):
            out.append(ind)
    return out


def merge_val(I, A, B, a, b, inds):
    if a is b or a == b:
        return a
    if a is None or b is None:
        raise Fail('unset')
    if isinstance(a, Lin) and isinstance(b, Lin):
        if B.equal(a, b):
            return a
        if A.equal(a, b):
            return b
        if has_nd(a) or has_nd(b):
            g = nd_join(a, b)
            if covers(A, g, a) and covers(B, g, b):
                return g
            raise Fail('forgotten values')
        d = a - b
        for ind in inds:
            dn = A.norm(d)
            if not dn.is_const():
                dn = B.norm(d)
            if dn.is_const():
                # a = b + dn under A
                if A.equal(a, b + dn.c):
                    return b + ind * dn.c
                if B.equal(b, a - dn.c):
                    return a - (ONE - ind) * dn.c
        raise Fail('values %r | %r' % (a, b))
    if isinstance(a, (Lin, Bits, Cond)) and isinstance(b, (Lin, Bits, Cond)):
        if isinstance(a, Bits) and isinstance(b, Bits) and len(a.b) == len(b.b):
            if all(src_eq(A, x, y) for x, y in zip(a.b, b.b)):
                return b
            if all(src_eq(B, x, y) for x, y in zip(a.b, b.b)):
                return a
        return merge_val(I, A, B, I.as_lin(A, a), I.as_lin(B, b), inds)
    if type(a) is not type(b):
        raise Fail('kinds')
    if isinstance(a, Adt):
        if a.var != b.var or len(a.f) != len(b.f):
            raise Fail('variants')
        return Adt(a.var, tuple(merge_val(I, A, B, x, y, inds) for x, y in zip(a.f, b.f)))
    if isinstance(a, Ptr):
        if a.obj != b.obj or len(a.path) != len(b.path) or (a.meta is None) != (b.meta is None):
            raise Fail('pointers')
        path = []
        for p, q in zip(a.path, b.path):
            if p[0] != q[0]:
                raise Fail('pointers')
            if p[0] == 'f':
                if p != q:
                    raise Fail('pointers')
                path.append(p)
            else:
                path.append(p[:-1] + (merge_val(I, A, B, p[-1], q[-1], inds),))
        return Ptr(a.obj, tuple(path), None if a.meta is None else merge_val(I, A, B, a.meta, b.meta, inds))
    if isinstance(a, Arr):
        if a.esz != b.esz or a.base != b.base:
            raise Fail('arrays')
        n = merge_val(I, A, B, a.n, b.n, inds)
        if a.w == b.w:
            return Arr(n, a.esz, a.ety, a.base, a.w)
        if len(a.w) != len(b.w):
            raise Fail('array logs')
        w = []
        for x, y in zip(a.w, b.w):
            if x == y:
                w.append(x)
            elif x[0] == 'w' and y[0] == 'w':
                w.append(('w', merge_val(I, A, B, x[1], y[1], inds), merge_val(I, A, B, x[2], y[2], inds)))
            elif entry_eq(I, A, x, y):
                w.append(y)
            elif entry_eq(I, B, x, y):
                w.append(x)
            else:
                raise Fail('array logs')
        return Arr(n, a.esz, a.ety, a.base, tuple(w))
    if veq(I, A, a, b):
        return b
    if veq(I, B, a, b):
        return a
    raise Fail('values')


def extra_sub(A, B):
    """equalities of A's substitution that B does not share"""
    out = []
    for s, e in A.sub.items():
        if B.sub.get(s) is not e:
            out.append((s, e))
    return out


def rewritten(cs, eqs, B):
    """(constraints of A left, those that hold in B when A's equations are used the other way round)"""
    if not eqs or not cs:
        return cs, []
    left, out = [], []
    for c in cs:
        for s, e in eqs:
            for y, k in e.t:
                if k not in (1, -1) or SYMS[y].kind in ('q', 'r'):
                    continue
                if not any(x == y or y in SYMS[x].deps for x, _ in c.t):
                    continue
                try:
                    d = sub_lin(c, y, (sym(s) - e) * k + sym(y))
                except (Fail, Undecided, NeedSplit):
                    continue
                if not d.is_const() and d is not c and B.prove(d):
                    out.append(d)
                    break
            else:
                continue
            break
        else:
            left.append(c)
    return left, out


def merge2(I, A, B):
    """single state describing exactly A or B; None when there is none"""
    if A.facts != B.facts or A.log != B.log:
        return None
    if A.mem.keys() != B.mem.keys():
        ks = A.mem.keys() ^ B.mem.keys()
        return None
    ca, cb = constraints(A), constraints(B)
    sa, sb_ = extra_sub(A, B), extra_sub(B, A)
    ea = [sym(s) - e for s, e in sa] + [e - sym(s) for s, e in sa]
    eb = [sym(s) - e for s, e in sb_] + [e - sym(s) for s, e in sb_]
    da = [c for c in ca + ea if not B.prove(c)]
    db = [c for c in cb + eb if not A.prove(c)]
    olda, oldb = da, db
    da, cra = rewritten(da, sa, B)
    db, crb = rewritten(db, sb_, A)
    inds = indicators(A, B, da, db) if da and db else []
    mem = {}
    for k, a in A.mem.items():
        b = B.mem[k]
        mem[k] = a if a is b else merge_val(I, A, B, a, b, inds)
    M = State()
    M.nobj = max(A.nobj, B.nobj)
    M.mem = mem
    M.facts, M.log, M.trace = A.facts, A.log, A.trace
    M.approx = A.approx or B.approx
    M.sub = {s: e for s, e in A.sub.items() if B.sub.get(s) is e}
    cand = cra + crb + [c for c in ca + ea if c not in olda] + [c for c in cb + eb if c not in oldb]
    for ind in inds[:1]:
        cand += [ind, ONE - ind]
        for c in da:
            for m in (1, 2):
                x = c + (ONE - ind) * m
                if B.prove(x):
                    cand.append(x)
                    break
        for c in db:
            for m in (1, 2):
                x = c + ind * m
                if A.prove(x):
                    cand.append(x)
                    break
    # lexicographic: c >= 1 in A, c = 0 and d >= 0 in B
    for xs, X, ys, Y in ((da, A, db, B), (db, B, da, A)):
        for c in xs:
            c1 = c + 1
            if not (Y.prove(c1) and Y.prove(-c1)):
                continue
            for d in ys:
                lo, hi = X.iv(X.norm(d))
                if -(1 << 20) < lo < 0:
                    cand.append(c1 * -int(lo) + d)
    for c in cand:
        if not M.add_ge(c):
            return None
    # exactness: what is in M but outside A lies in B
    for c in da:
        X = M.copy()
        if not X.add_ge(-c - 1) or not X.feasible():
            continue
        for d in cb + eb:
            if not X.prove(d):
                return None
    return M


# ---- anti-unification --------------------------------------------------------------------------------
def au_lin(a, b, t, k, depth=0):
    """form G(t) with G(k) = a and G(k + 1) = b"""
    if a is b:
        return a
    if has_nd(a) or has_nd(b):
        return nd_join(a, b)
    ta, tb = dict(a.t), dict(b.t)
    common = []
    xa, xb = [], []
    for s in set(ta) | set(tb):
        p, q = ta.get(s, 0), tb.get(s, 0)
        if p == q:
            common.append((s, p))
        else:
            if p:
                xa.append((s, p))
            if q:
                xb.append((s, q))
    acc = Lin(0, tuple(sorted(common))) + a.c + (t - k) * (b.c - a.c)
    if not xa and not xb:
        return acc
    if depth > 3:
        raise Fail('affine %r | %r' % (a, b))
    xa.sort(key=lambda x: (SYMS[x[0]].kind, argkey(x[0])))
    xb.sort(key=lambda x: (SYMS[x[0]].kind, argkey(x[0])))
    used = set()
    for s, p in xa:
        hit = None
        for j, (u, q) in enumerate(xb):
            if j in used or p != q:
                continue
            try:
                g = au_atom(s, u, t, k, depth)
            except Fail:
                continue
            hit = (j, g)
            break
        if hit is None:
            acc = acc + from_zero(s, t, k, depth, False) * p
            continue
        used.add(hit[0])
        acc = acc + hit[1] * p
    for j, (u, q) in enumerate(xb):
        if j not in used:
            acc = acc + from_zero(u, t, k, depth, True) * q
    return acc


def from_zero(s, t, k, depth, up):
    """prefix popcount that is taken at position 0 (and so vanishes) in the other sample"""
    si = SYMS[s]
    if si.kind != 'pc':
        raise Fail('affine %r' % (sym(s),))
    a, b = (ZERO, si.key[2]) if up else (si.key[2], ZERO)
    return pc(si.key[1], au_lin(a, b, t, k, depth + 1))


def argkey(s):
    si = SYMS[s]
    if si.kind in ('pc', 'seq'):
        return (str(si.key[1]), si.key[2].t, si.key[2].c)
    return (str(s), (), 0)


def au_atom(s, u, t, k, depth):
    a, b = SYMS[s], SYMS[u]
    if a.kind != b.kind:
        raise Fail('atoms')
    if a.kind == 'pc' and a.key[1] == b.key[1]:
        return pc(a.key[1], au_lin(a.key[2], b.key[2], t, k, depth + 1))
    if a.kind == 'seq' and a.key[1] == b.key[1]:
        return seq(a.key[1], au_lin(a.key[2], b.key[2], t, k, depth + 1), a.lo, a.hi)
    if a.kind == 'bv' and len(a.key[1]) == len(b.key[1]):
        bs = tuple(au_src(x, y, t, k) for x, y in zip(a.key[1], b.key[1]))
        return sym(intern(('bv', bs), a.lo, a.hi, frozenset().union(*[srcdeps(x) for x in bs])))
    if a.kind == 'div' and a.key[2] == b.key[2]:
        R = au_lin(a.key[1], b.key[1], t, k, depth + 1)
        return sym(intern(('div', R, a.key[2]), -INF, INF, alldeps(R)))
    raise Fail('atoms')


def au_src(a, b, t, k):
    if a == b:
        return a
    if type(a) is int or type(b) is int or a[0] != b[0]:
        raise Fail('bits')
    if a[0] == 'b':
        if a[1] != b[1]:
            raise Fail('bits')
        return ('b', a[1], au_lin(a[2], b[2], t, k))
    if a[0] == 'l':
        if a[2] != b[2]:
            raise Fail('bits')
        return ('l', au_lin(a[1], b[1], t, k), a[2])
    if a[0] == 'n':
        return bnot(au_src(a[1], b[1], t, k))
    return BOP[a[0]](au_src(a[1], b[1], t, k), au_src(a[2], b[2], t, k))


def au_bits(a, b, t, k):
    out = []
    n = len(a)
    i = 0
    while i < n:
        x, y = a[i], b[i]
        lx, ly = field(a, i), field(b, i)
        if (lx or ly) and lx != ly:
            # a number that needs more bits in one of the samples
            w = max(lx, ly)
            j = i + w
            while j < n and a[j] == 0 and b[j] == 0:
                j += 1
            La, Lb = field_value(a, i, j), field_value(b, i, j)
            if La is not None and Lb is not None:
                g = au_lin(La, Lb, t, k)
                out += [('l', g, m) for m in range(j - i)]
                i = j
                continue
        out.append(au_src(x, y, t, k))
        i += 1
    return tuple(out)


def field(b, i):
    """length of the number whose lowest bit is bit i"""
    if type(b[i]) is int or b[i][0] != 'l' or b[i][2]:
        return 0
    j = i + 1
    while j < len(b) and nextsrc(b[j - 1], b[j]):
        j += 1
    return j - i


def field_value(b, i, j):
    w = field(b, i)
    if w:
        return b[i][1] if all(x == 0 for x in b[i + w:j]) else None
    if all(type(x) is int for x in b[i:j]):
        return con(sum(x << m for m, x in enumerate(b[i:j])))
    return None


def au_val(I, a, b, t, k):
    if a is b or a == b:
        return a
    if a is None or b is None:
        raise Fail('unset')
    if isinstance(a, Lin) and isinstance(b, Lin):
        return au_lin(a, b, t, k)
    if type(a) is not type(b):
        raise Fail('kinds %r | %r' % (a, b))
    if isinstance(a, Bits):
        if len(a.b) != len(b.b):
            raise Fail('bits')
        return Bits(au_bits(a.b, b.b, t, k))
    if isinstance(a, Adt):
        if a.var != b.var or len(a.f) != len(b.f):
            raise Fail('variants')
        return Adt(a.var, tuple(au_val(I, x, y, t, k) for x, y in zip(a.f, b.f)))
    if isinstance(a, Ptr):
        if a.obj != b.obj or len(a.path) != len(b.path) or (a.meta is None) != (b.meta is None):
            raise Fail('pointers %r | %r' % (a, b))
        path = []
        for p, q in zip(a.path, b.path):
            if p[:-1] != q[:-1]:
                raise Fail('pointers')
            if isinstance(p[-1], Lin):
                path.append(p[:-1] + (au_lin(p[-1], q[-1], t, k),))
            elif p != q:
                raise Fail('pointers')
            else:
                path.append(p)
        return Ptr(a.obj, tuple(path), None if a.meta is None else au_lin(a.meta, b.meta, t, k))
    if isinstance(a, Cond):
        if a.k != b.k or a.neg != b.neg:
            raise Fail('conditions')
        if isinstance(a.a, Lin):
            return Cond(a.k, au_lin(a.a, b.a, t, k), a.neg)
        if len(a.a) != len(b.a):
            raise Fail('conditions')
        return Cond(a.k, tuple(au_src(x, y, t, k) for x, y in zip(a.a, b.a)), a.neg)
    if isinstance(a, BitUpd) and a.n == b.n:
        return BitUpd(au_val(I, a.w, b.w, t, k), au_lin(a.e, b.e, t, k), au_src(a.s, b.s, t, k), a.n)
    if isinstance(a, (LowMask, SelBit)):
        return type(a)(au_val(I, a.w, b.w, t, k), au_lin(a.e, b.e, t, k))
    if isinstance(a, ShrW) and a.n == b.n:
        return ShrW(au_val(I, a.w, b.w, t, k), au_lin(a.k, b.k, t, k), a.n)
    if isinstance(a, Run) and a.stride == b.stride and len(a.tmpl) == len(b.tmpl):
        tm = tuple(au_val(I, x, I_subst(y, b.tsym, sym(a.tsym)), t, k) for x, y in zip(a.tmpl, b.tmpl))
        return Run(au_lin(a.lo, b.lo, t, k), au_lin(a.hi, b.hi, t, k), a.stride, a.tsym, tm)
    raise Fail('values %r | %r' % (a, b))


def au_arr(I, xs, t):
    """arrays at rounds 0..3 -> array at round t"""
    a0 = xs[0]
    for x in xs[1:]:
        if x.esz != a0.esz or x.ety != a0.ety or x.base != a0.base:
            raise Fail('arrays')
    n = au_lin(xs[1].n, xs[2].n, t, 1)
    if all(x.w == a0.w for x in xs):
        return Arr(n, a0.esz, a0.ety, a0.base, a0.w)
    ent = [list(x.w) for x in xs]
    keep = []
    for k in range(3):
        nxt = set(ent[k + 1])
        keep.append([e for e in ent[k] if e in nxt])
    c0 = keep[0]
    s0, s1 = set(keep[0]), set(keep[1])
    e0 = [e for e in keep[1] if e not in s0]
    e1 = [e for e in keep[2] if e not in s1]
    tails = [[e for e in ent[k] if e not in set(keep[k])] for k in range(3)]
    if len(e0) != len(e1) or len(tails[1]) != len(tails[2]):
        raise Fail('array entries %d %d' % (len(e0), len(e1)))
    out = []
    for x, y in zip(tails[1], tails[2]):
        if x[0] == 'w' and y[0] == 'w':
            out.append(('w', au_lin(x[1], y[1], t, 1), au_val(I, x[2], y[2], t, 1)))
        elif x[0] == 'r' and y[0] == 'r':
            out.append(('r', au_val(I, x[1], y[1], t, 1)))
        else:
            raise Fail('array tail')
    if e0:
        ts = fresh('k', 0, TBOUND)
        T = sym(ts)
        els = []
        for x, y in zip(e0, e1):
            if x[0] != 'w' or y[0] != 'w':
                raise Fail('array run')
            els.append((au_lin(x[1], y[1], T, 0), au_val(I, x[2], y[2], T, 0)))
        # index = lo + stride * T + off
        strides = {dict(i.t).get(ts, 0) for i, _ in els}
        if len(strides) != 1:
            raise Fail('stride')
        stride = strides.pop()
        if stride <= 0:
            raise Fail('stride')
        offs = [(i - T * stride, v) for i, v in els]
        base = min((o for o, _ in offs), key=lambda o: o.c)
        tm = [None] * stride
        for o, v in offs:
            d = o - base
            if not d.is_const() or not 0 <= d.c < stride or tm[d.c] is not None:
                raise Fail('run shape')
            tm[d.c] = v
        out.append(('r', Run(base, base + t * stride, stride, ts, tuple(tm))))
    out.extend(c0)
    return Arr(n, a0.esz, a0.ety, a0.base, tuple(out))


# ---- the loop ------------------------------------------------------------------------------------------
class Chain:
    """head states along the continuing iterations"""

    def __init__(self, I, fr, loop, S):
        self.I, self.fr, self.loop = I, fr, loop
        self.s = [S]
        self.ended = False      # the loop terminates within len(s) rounds
        self.broken = None

    def get(self, k):
        while len(self.s) <= k:
            if self.ended or self.broken:
                return None
            with Txn(self.I) as tx:
                backs = step(self.I, self.fr, self.loop, [self.s[-1]], tx.rets, [])
            backs = merge_all(self.I, backs)
            if not backs:
                self.ended = True
                return None
            if len(backs) > 1:
                cont = []
                for b in backs:
                    with Txn(self.I) as tx:
                        bb = step(self.I, self.fr, self.loop, [b.copy()], tx.rets, [])
                    if bb:
                        cont.append(b)
                if len(cont) == 1:
                    backs = cont
                elif not cont:
                    self.ended = True
                    return None
                else:
                    self.broken = cont
                    return None
            self.s.append(backs[0])
        return self.s[k]


def step(I, fr, loop, sts, rets, exits):
    """one iteration from the given head states"""
    back = []
    sts = [s.copy() for s in sts]
    I.run_region(fr, loop, loop.head, sts, rets, exits, back)
    for b in back:
        clean(I, fr, loop.head, b)
    return [b for b in back if b.feasible()]


def run_loop(I, fr, loop, sts, rets):
    for s in sts:
        clean(I, fr, loop.head, s)
    outs = []
    for s in merge_all(I, sts):
        loop_from(I, fr, loop, s, rets, outs, 0)
    return outs


MAXUNROLL = 70
MAXDET = 80
SHORT = 9           # rounds of a loop that is unrolled rather than described inexactly
MAXSTATES = 300


def loop_from(I, fr, loop, S, rets, outs, depth):
    work = [(S, 0)]
    tries = 0
    det = 0
    peel = 2
    while work:
        S, n = work.pop()
        with Txn(I) as tx:
            ex = []
            backs = step(I, fr, loop, [S], tx.rets, ex)
            if not backs or not (ex or tx.rets) and det < MAXDET:
                backs = merge_all(I, backs)
                if len(backs) < 2:
                    tx.commit(rets)
                    outs.extend(ex)
                    det += 1
                    work.extend((b, n) for b in backs)
                    continue
        if depth < 4 and tries < 3:
            try:
                left = generalise(I, fr, loop, S, rets, outs, peel)
                tries += 1
            except Peel:
                left = None
                peel -= 1
            except Short:
                left = None
                tries = 3
            if left is not None:
                I.loopstats['generalised'] += 1
                for r in left:
                    loop_from(I, fr, loop, r, rets, outs, depth + 1)
                continue
        if n >= MAXUNROLL or len(work) > MAXSTATES:
            I.loopstats['truncated'] += 1
            I.report_undecided(S, 'loop bound')
            continue
        I.loopstats['unrolled'] += 1
        with Txn(I) as tx:
            ex = []
            backs = step(I, fr, loop, [S], tx.rets, ex)
            tx.commit(rets)
        outs.extend(ex)
        work.extend((b, n + 1) for b in merge_all(I, backs))


class Peel(Exception):
    """a condition holds from the second round on"""


class Short(Exception):
    """a few rounds that have no common description"""


def generalise(I, fr, loop, S, rets, outs, peel=False):
    ch = Chain(I, fr, loop, S)
    # name quotients and remainders up front so that all samples use the same symbols
    for _ in range(5):
        ch.get(2)
        new = []
        for s in ch.s[1:]:
            for x, e in s.sub.items():
                if x not in S.sub and is_def(x, e) and (x, e) not in new:
                    new.append((x, e))
        if not new:
            break
        S = S.copy()
        for x, e in new:
            if S.norm_sym(x) is None:
                S.subst(x, e)
        ch = Chain(I, fr, loop, S)
    cont = us = None
    for p in (1, 2, 4, 8, 16, 32, 64):
        if p > 1 and cont is None:
            if ch.get(min(3 * p, 10)) is None:
                break
            us = fresh('u', 0, TBOUND)
            cont = continuation(ch, us)
        cur = None
        if cont:
            # samples under the assumption that the loop goes on: the other exits need not be looked at
            S2 = S.copy()
            if not all(S2.add_ge(sub_lin(g, us, con(3 * p))) for g in cont) or not S2.feasible():
                break
            ch2 = Chain(I, fr, loop, S2)
            ss = [ch2.get(k * p) for k in range(4)]
            if any(s is None for s in ss):
                cont = ()
                continue
            cur = [(g, sub_lin(g, us, sym(us) * p + (p - 1))) for g in cont]
            cur = (us, [c for _, c in cur])
            ss[0] = S
        else:
            ss = [ch.get(k * p) for k in range(4)]
            if any(s is None for s in ss):
                break
        try:
            left = attempt(I, fr, loop, ss, p, rets, outs, cur, peel and p == 1, ch if p == 1 else None)
        except Fail as e:
            if I.debug:
                print('   loop', fr.name, loop.head, 'p=%d' % p, e)
            if e.base:
                return None
            continue
        return left
    if I.debug and ch.broken:
        print('   loop', fr.name, 'branches into', len(ch.broken))
    if ch.broken:
        import events
        return events.events(I, fr, loop, S, rets, outs)
    return None


def continuation(ch, us):
    """[g] with g(k) >= 0 the condition under which round k is followed by another; () when unknown"""
    ds = []
    for k in range(1, 4):
        a, b = ch.s[k - 1], ch.s[k]
        known = set(constraints(a)) | {Lin(c, x) for x, c in a.ineq.items()}
        d = [c for c in constraints(b) if c not in known]
        if len(d) != 1:
            return ()
        ds.append(d[0])
    try:
        g = au_lin(ds[1], ds[2], sym(us), 1)
    except Fail:
        return ()
    if us not in dict(g.t) or sub_lin(g, us, ZERO) is not ds[0]:
        return ()
    return (g,)


def attempt(I, fr, loop, ss, p, rets, outs, given=None, peel=False, chain=None):
    late = []
    try:
        return attempt_from(I, fr, loop, ss, p, rets, outs, given, peel, chain, late)
    except Fail:
        if late:
            raise Peel
        raise


def attempt_from(I, fr, loop, ss, p, rets, outs, given, peel, chain, late):
    S0 = ss[0]
    ts = fresh('t', 0, TBOUND)
    t = sym(ts)
    G = S0.copy()
    G.nobj = max(s.nobj for s in ss)
    changed = False
    for k in list(G.mem):
        vs = [s.mem.get(k) for s in ss]
        if any(v is None for v in vs):
            del G.mem[k]
            continue
        if all(v is vs[0] or v == vs[0] for v in vs):
            continue
        vs = [nval(s, v) for s, v in zip(ss, vs)]
        if all(v == vs[0] for v in vs):
            continue
        changed = True
        if isinstance(vs[0], Arr):
            g = au_arr(I, vs, t)
        else:
            g = au_val(I, vs[1], vs[2], t, 1)
        if not included(I, S0, I_subst(g, ts, ZERO), vs[0]):
            f = Fail('round 0 differs: %r is not %r' % (I_subst(g, ts, ZERO), vs[0]))
            f.base = not isinstance(g, Arr) and included(I, ss[3], I_subst(g, ts, con(3)), vs[3])
            raise f
        G.mem[k] = g
    # what each round adds to the path condition
    known = [set(constraints(s)) | {Lin(c, x) for x, c in s.ineq.items()} for s in ss]
    d1 = [c for c in constraints(ss[2]) if c not in known[1]]
    d2 = [c for c in constraints(ss[3]) if c not in known[2]]
    cur, facts = [], []
    if given:
        us = given[0]
        d1, d2 = [], []
        cur, facts = list(given[1]), list(given[1])
    else:
        us = fresh('u', 0, TBOUND)
    u = sym(us)
    left = list(d2)
    for c in d1:
        for e in left:
            try:
                g = au_lin(c, e, u, 1)
            except Fail:
                continue
            left.remove(e)
            cur.append(g)
            facts.append(g)
            break
    if not changed and not cur:
        raise Fail('no progress')
    cands = []
    src = {}
    for g in cur:
        c = sub_lin(g, us, t - 1)
        if S0.prove(sub_lin(c, ts, ZERO)):
            cands.append(c)
            src[c] = g
        elif peel and ss[1].prove(sub_lin(c, ts, ONE)):
            late.append((c, g))         # holds from the second round on
    more = True
    for rnd in range(10):
        H = G.copy()
        ok = True
        for c in cands:
            ok = ok and H.add_ge(c)
        if facts:
            H.facts = H.facts + ((us, t, tuple(facts)),)
        if not ok:
            raise Fail('candidate constraints contradict')
        with Txn(I) as tx:
            ex = []
            sts = [H]
            outer, I.splits = I.splits, set()
            try:
                for j in range(p):
                    sts = merge_all(I, step(I, fr, loop, sts, tx.rets, ex))
                    if len(sts) > 40:
                        raise Fail('too many states')
                forms = I.splits
            finally:
                I.splits = outer
            good, rest = [], []
            bad = set()
            badf = set()
            for R in sts:
                why = matches(I, R, H, ts, t)
                if why is None:
                    good.append(R)
                    for i, c in enumerate(cands):
                        if not R.prove(sub_lin(c, ts, t + 1)):
                            bad.add(i)
                    for i, g in enumerate(facts):
                        if not R.prove(sub_lin(g, us, t)):
                            badf.add(i)
                else:
                    rest.append((R, why))
            if not good:
                if I.debug and not rest:
                    print('   cands', cands, 'H', H.feasible(), [(e[0],)+tuple(e[2:]) for e in tx.rec.ev], len(ex), len(tx.rets))
                raise Fail('not inductive: %s' % [w for _, w in rest])
            if I.debug and (bad or badf):
                print('   dropped', [cands[i] for i in bad], [facts[i] for i in badf], 'good', len(good))
            if bad or badf:
                cands = [c for i, c in enumerate(cands) if i not in bad]
                facts = [g for i, g in enumerate(facts) if i not in badf]
                continue
            # exactness: the state after the round knows nothing beyond G(t + 1)
            X = G.copy()
            lossy = len(good) > 1
            for c in cands:
                X.add_ge(sub_lin(c, ts, t + 1))
                if src[c] in facts:
                    X.add_ge(c)
            X.facts = X.facts + ((us, t + 1, tuple(facts)),)
            for x, e in good[0].sub.items():
                if x not in X.sub and is_def(x, e) and X.norm_sym(x) is None:
                    X.subst(x, e)
            lost = []
            for c in constraints(good[0]):
                if not X.prove(c):
                    lossy = True
                    lost.append(c)
                    if I.debug:
                        print('   lossy', c)
            red = [g for g in facts if redundant(H, g, us, ts, t)]
            if red:
                facts = [g for g in facts if g not in red]
                continue
            if lossy and more:
                # a counter that runs until it equals its bound stays on one side of it
                more = False
                new = []
                for L in forms:
                    for c in (L, -L):
                        if ts in dict(c.t) and c not in cands and S0.prove(sub_lin(c, ts, ZERO)) and not H.prove(c):
                            new.append(c)
                            src[c] = None
                # what held before this round held, one round earlier, before the previous one
                for c in lost:
                    c = sub_lin(refold(c, ts), ts, t - 1)
                    if ts in dict(c.t) and c not in cands and c not in new and S0.prove(sub_lin(c, ts, ZERO)) and not H.prove(c):
                        new.append(c)
                        src[c] = None
                if new:
                    cands = cands + new
                    continue
            if lossy and late:
                raise Peel
            if lossy and short(chain):
                raise Short
            if lossy:
                for _, s in ex:
                    s.approx = True
                for s in tx.rets:
                    s.approx = True
                for e in tx.rec.ev:
                    e[1].approx = True
            tx.commit(rets)
            outs.extend(ex)
            if I.debug:
                print('   loop', fr.name, 'p=%d' % p, 'generalised', 'lossy' if lossy else 'exact', 'cands', cands, 'facts', facts)
            return [R for R, _ in rest]
    raise Fail('candidates do not stabilise')


def short(ch):
    """the loop ends within a few rounds"""
    return ch is not None and ch.get(SHORT) is None and ch.ended


def redundant(H, g, us, ts, t):
    """the per-round condition already follows for every earlier round"""
    X = H.copy()
    X.facts = tuple(f for f in X.facts if f[0] != us)
    w = fresh('w', 0, TBOUND)
    if not X.add_ge(t - 1 - sym(w)):
        return True
    return X.prove(sub_lin(g, us, sym(w)))


def sub_lin(L, s, e):
    from interp import subst_lin
    return subst_lin(L, s, e)


def nval(st, v):
    """value with all linear forms normalised"""
    if isinstance(v, Lin):
        return st.norm(v)
    if isinstance(v, Bits):
        return Bits(st.norm_bits(v.b))
    if isinstance(v, Adt):
        return Adt(v.var, tuple(nval(st, x) for x in v.f))
    if isinstance(v, Ptr):
        return Ptr(v.obj, tuple((q[0],) + tuple(st.norm(x) if isinstance(x, Lin) else x for x in q[1:]) for q in v.path),
                   None if v.meta is None else st.norm(v.meta))
    if isinstance(v, Arr):
        return Arr(st.norm(v.n), v.esz, v.ety, v.base,
                   tuple(('w', st.norm(x[1]), nval(st, x[2])) if x[0] == 'w' else
                         ('r', nval(st, x[1])) if x[0] == 'r' else x[:2] + (st.norm(x[2]),) + x[3:] for x in v.w))
    if isinstance(v, Run):
        return Run(st.norm(v.lo), st.norm(v.hi), v.stride, v.tsym, tuple(nval(st, x) for x in v.tmpl))
    if isinstance(v, Cond) and isinstance(v.a, Lin):
        return Cond(v.k, st.norm(v.a), v.neg)
    if isinstance(v, BitUpd):
        return BitUpd(nval(st, v.w), st.norm(v.e), st.norm_src(v.s), v.n)
    if isinstance(v, (LowMask, SelBit)):
        return type(v)(nval(st, v.w), st.norm(v.e))
    if isinstance(v, ShrW):
        return ShrW(nval(st, v.w), st.norm(v.k), v.n)
    return v


def matches(I, R, H, ts, t):
    for k, g in H.mem.items():
        v = R.mem.get(k)
        if v is None:
            return 'missing %r' % (k,)
        if v is g:
            if not mentions(g, ts):
                continue
        w = I_subst(g, ts, t + 1)
        if not included(I, R, w, v):
            return '%r: %r is not %r' % (k, v, w)
    return None


def mentions(v, s):
    return I_subst(v, s, ZERO) != v
