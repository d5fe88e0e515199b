"""Abstract state: memory + linear constraint store (equalities kept as a substitution)."""
from math import gcd
from fractions import Fraction
import lin
from lin import Lin, SYMS, ZERO, ONE, con, sym, intern, fresh, fresh_nd, has_nd, lone_nd, INF
import lp
import fastlp

ARRS = {}    # bit array name -> Lin: number of arbitrary bits (later bits are zero)
STATS = {'lp': 0, 'prove': 0}


class NeedSplit(Exception):
    """The current step must be analysed separately under each alternative (list of constraints)."""

    def __init__(self, alts):
        self.alts = alts


class Undecided(Exception):
    """The analysis has no transfer function for a construct."""


class Infeasible(Exception):
    pass


def pc(arr, L):
    if L.is_const() and L.c <= 0:
        return ZERO
    deps = alldeps(L)
    return sym(intern(('pc', arr, L), 0, INF, deps))


def alldeps(L):
    d = set()
    for s, _ in L.t:
        si = SYMS[s]
        d.add(s)
        d.update(si.deps)
    return frozenset(d)


class State:
    __slots__ = ('mem', 'sub', 'ineq', 'bnd', 'cuts', 'nobj', '_nc', '_pc', 'approx', 'trace', 'log', 'facts')

    def __init__(self):
        self.mem = {}
        self.sub = {}
        self.ineq = {}
        self.bnd = {}
        self.cuts = {}
        self.nobj = 0
        self._nc = {}
        self._pc = {}
        self.approx = False
        self.trace = ()
        self.log = ()
        self.facts = ()

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.sub = dict(self.sub)
        s.ineq = dict(self.ineq)
        s.bnd = dict(self.bnd)
        s.cuts = dict(self.cuts)
        s.nobj = self.nobj
        s._nc = dict(self._nc)
        s._pc = dict(self._pc)
        s.approx = self.approx
        s.trace = self.trace
        s.log = self.log
        s.facts = self.facts
        return s

    # ---- normal forms -------------------------------------------------------------------------
    def norm(self, L):
        if not L.t or not self.sub:
            return L
        r = self._nc.get(L)
        if r is not None:
            return r
        r = L
        sub = self.sub
        changed = False
        acc = Lin(L.c)
        for s, k in L.t:
            n = self.norm_sym(s)
            if n is not None:
                acc = acc + n * k
                changed = True
            else:
                acc = acc + Lin(0, ((s, k),))
        r = acc if changed else L
        self._nc[L] = r
        return r

    def norm_sym(self, s):
        """None when s is already normal"""
        e = self.sub.get(s)
        if e is not None:
            return self.norm(e)
        si = SYMS[s]
        if not si.deps:
            return None
        sub = self.sub
        hit = False
        for d in si.deps:
            if d in sub:
                hit = True
                break
        if not hit:
            return None
        k = si.key
        n = None
        if si.kind == 'pc':
            a = self.norm(k[2])
            if a is not k[2]:
                n = pc(k[1], a)
        elif si.kind == 'div':
            a = self.norm(k[1])
            if a is not k[1]:
                n = self.div(a, k[2])
        elif si.kind == 'pow2':
            a = self.norm(k[1])
            if a is not k[1]:
                n = mkpow2(self, a)
        elif si.kind == 'ilog':
            a = self.norm(k[1])
            if a is not k[1]:
                n = con(a.c.bit_length() - 1) if a.is_const() else sym(intern(('ilog', a), si.lo, si.hi, alldeps(a)))
        elif si.kind == 'seq':
            a = self.norm(k[2])
            if a is not k[2]:
                n = seq(k[1], a, si.lo, si.hi)
        elif si.kind == 'bv':
            b = self.norm_bits(k[1])
            if b is not k[1]:
                import values
                n = values.bits_to_lin(self, b)
        elif si.kind == 'pop':
            b = self.norm_bits(k[1])
            if b is not k[1]:
                import values
                n = values.popcount_bits(self, b)
        if n is None:
            return None
        # n may itself need normalising (its symbols could be substituted atoms)
        return self.norm(n) if n.t else n

    def norm_src(self, b):
        if type(b) is int:
            return b
        k = b[0]
        if k == 'b':
            a = self.norm(b[2])
            return b if a is b[2] else ('b', b[1], a)
        if k == 'l':
            a = self.norm(b[1])
            if a is b[1]:
                return b
            import values
            return values.lin_bit(self, a, b[2])
        if k == 'n':
            a = self.norm_src(b[1])
            if a is b[1]:
                return b
            return 1 - a if type(a) is int else (a[1] if a[0] == 'n' else ('n', a))
        if k in ('x', 'a', 'o'):
            import values
            x, y = self.norm_src(b[1]), self.norm_src(b[2])
            if x is b[1] and y is b[2]:
                return b
            return values.BOP[k](x, y)
        return b

    def norm_bits(self, bs):
        out = None
        for i, b in enumerate(bs):
            n = self.norm_src(b)
            if n is not b:
                if out is None:
                    out = list(bs)
                out[i] = n
        return bs if out is None else tuple(out)

    # ---- intervals ----------------------------------------------------------------------------
    def sb(self, s):
        b = self.bnd.get(s)
        if b is not None:
            return b
        si = SYMS[s]
        if si.kind == 'pc' and si.hi is INF:
            h = self.iv(si.key[2])[1]
            return (0, max(h, 0))
        return (si.lo, si.hi)

    def iv(self, L):
        if len(L.t) > 1:
            n = 0
            for s, _ in L.t:
                if SYMS[s].kind == 'pc':
                    n += 1
            if n > 1:
                return self.iv_pc(L)
        lo = hi = L.c
        for s, k in L.t:
            a, b = self.sb(s)
            if k > 0:
                lo += k * a
                hi += k * b
            else:
                lo += k * b
                hi += k * a
        return lo, hi

    def iv_pc(self, L):
        """interval using 0 <= pc(A + d) - pc(A) <= d for constant distances"""
        terms = dict(L.t)
        pcs = [(s, k) for s, k in L.t if SYMS[s].kind == 'pc']
        lo = hi = L.c
        pcs.sort(key=lambda x: (str(SYMS[x[0]].key[1]), SYMS[x[0]].key[2].t, SYMS[x[0]].key[2].c))
        for (s, k), (u, m) in zip(pcs, pcs[1:]):
            if (k > 0) == (m > 0):
                continue
            a, b = SYMS[s].key, SYMS[u].key
            if a[1] != b[1] or a[2].t != b[2].t:
                continue
            k, m = terms.get(s, 0), terms.get(u, 0)
            if not k or not m or (k > 0) == (m > 0):
                continue
            c = min(abs(k), abs(m))
            d = b[2].c - a[2].c
            # c * (pc(u) - pc(s)) with sign of m
            if m > 0:
                hi += c * d
            else:
                lo -= c * d
            terms[s] = k + c if k < 0 else k - c
            terms[u] = m + c if m < 0 else m - c
        for s, k in terms.items():
            if not k:
                continue
            a, b = self.sb(s)
            if k > 0:
                lo += k * a
                hi += k * b
            else:
                lo += k * b
                hi += k * a
        # the plain interval may be better when the atoms have tight bounds
        l2 = h2 = L.c
        for s, k in L.t:
            a, b = self.sb(s)
            if k > 0:
                l2 += k * a
                h2 += k * b
            else:
                l2 += k * b
                h2 += k * a
        return max(lo, l2), min(hi, h2)

    def iv_plain(self, L):
        lo = hi = L.c
        for s, k in L.t:
            a, b = self.sb(s)
            if k > 0:
                lo += k * a
                hi += k * b
            else:
                lo += k * b
                hi += k * a
        return lo, hi

    # ---- adding constraints -------------------------------------------------------------------
    def touch(self):
        self._pc = {}

    def add_ge(self, L):
        """assume L >= 0; False when definitely infeasible"""
        L = self.norm(L)
        lo, hi = self.iv(L)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        g = 0
        for _, k in L.t:
            g = gcd(g, k)
        if g > 1:
            L = Lin(L.c // g, tuple((s, k // g) for s, k in L.t))
        if len(L.t) == 1:
            s, k = L.t[0]
            a, b = self.sb(s)
            if k > 0:
                a = max(a, -L.c) if k == 1 else max(a, -(L.c // k))
            else:
                b = min(b, L.c // (-k))
            if a > b:
                return False
            self.bnd[s] = (a, b)
            self.touch()
            U = unpow(L)
            if a == b:
                return self.subst(s, con(a)) and (U is None or self.add_ge(U))
            return U is None or self.add_ge(U)
        old = self.ineq.get(L.t)
        if old is not None and old <= L.c:
            return True
        n = (-L).t
        opp = self.ineq.get(n)
        if opp is not None:
            if L.c + opp < 0:
                return False
            if L.c + opp == 0:
                return self.add_eq(L)
        self.ineq[L.t] = L.c
        self.touch()
        return self.cut(L)

    def cut(self, L):
        """K*A + rest >= 0 with rest in a range shorter than K bounds A by itself"""
        for K in sorted({abs(k) for _, k in L.t if abs(k) > 1}):
            big = tuple((s, k // K) for s, k in L.t if k % K == 0)
            if len(big) == len(L.t) or len(big) > 2:
                continue
            rl, rh = self.iv(Lin(0, tuple((s, k) for s, k in L.t if k % K)))
            if rh - rl < K:
                # only kept to find equations
                c = (L.c + rh) // K
                n = (-Lin(0, big)).t
                o = self.cuts.get(n)
                if o is not None:
                    if o + c < 0:
                        return False
                    if o + c == 0:
                        return self.add_eq(Lin(c, big))
                self.cuts[big] = min(c, self.cuts.get(big, c))
        return True

    def add_eq(self, L):
        L = self.norm(L)
        if not L.t:
            return L.c == 0
        g = 0
        for _, k in L.t:
            g = gcd(g, k)
        if L.c % g:
            return False
        if g > 1:
            L = Lin(L.c // g, tuple((s, k // g) for s, k in L.t))
        lo, hi = self.iv(L)
        if lo > 0 or hi < 0:
            return False
        # digit rule: L = K*A + rest with rest in (-K, K)  =>  rest = 0 and A = 0
        ks = sorted({abs(k) for _, k in L.t if abs(k) > 1})
        for K in ks:
            big = tuple((s, k) for s, k in L.t if k % K == 0)
            if len(big) == len(L.t):
                continue
            small = tuple((s, k) for s, k in L.t if k % K)
            for cc in {L.c % K, L.c % K - K}:
                rest = Lin(cc, small)
                rl, rh = self.iv(rest)
                if rl > -K and rh < K:
                    A = Lin((L.c - cc) // K, tuple((s, k // K) for s, k in big))
                    return self.add_eq(rest) and self.add_eq(A)
        # solve for a unit-coefficient symbol (plain symbols first, latest first)
        best = None
        for s, k in L.t:
            if abs(k) == 1:
                si = SYMS[s]
                if si.kind in ('pc', 'bv', 'pow2', 'seq', 'div', 'pop'):
                    continue
                # occurs check through atoms
                bad = False
                for s2, _ in L.t:
                    if s2 != s and s in SYMS[s2].deps:
                        bad = True
                        break
                if bad:
                    continue
                if best is None or s > best[0]:
                    best = (s, k)
        if best:
            s, k = best
            rest = Lin(L.c, tuple(x for x in L.t if x[0] != s))
            return self.subst(s, -rest if k == 1 else rest)
        # keep as two inequalities
        a = self.ineq.get(L.t)
        n = (-L).t
        if a is None or a > L.c:
            self.ineq[L.t] = L.c
        b = self.ineq.get(n)
        if b is None or b > -L.c:
            self.ineq[n] = -L.c
        if len(L.t) == 1:
            s, k = L.t[0]
            v = -L.c * k
            a, b = self.sb(s)
            if not a <= v <= b:
                return False
            self.bnd[s] = (v, v)
            self.ineq.pop(L.t, None)
            self.ineq.pop(n, None)
        self.touch()
        return True

    def subst(self, s, e):
        """record s = e and renormalise"""
        a, b = self.sb(s)
        self.sub[s] = e
        self._nc = {}
        self.touch()
        old = self.ineq
        self.ineq = {}
        oldb = self.bnd
        self.bnd = {}
        pend = []
        for t, (x, y) in oldb.items():
            if t == s:
                continue
            n = self.norm_sym(t)
            if n is None:
                self.bnd[t] = (x, y)
            else:
                pend.append((n, x, y))
        if not e.is_const() or not a <= e.c <= b:
            pend.append((e, a, b))
        for n, x, y in pend:
            if x != -INF and not self.add_ge(n - x):
                return False
            if y != INF and not self.add_ge(con(y) - n):
                return False
        for t, c in old.items():
            if not self.add_ge(Lin(c, t)):
                return False
        return True

    # ---- division -----------------------------------------------------------------------------
    def div(self, L, k):
        """floor(L / k) as a linear form; may refine the state by decomposing symbols"""
        L = self.norm(L)
        if k == 1:
            return L
        qs, rest = [], []
        for s, c in L.t:
            if c % k == 0:
                qs.append((s, c // k))
            else:
                rest.append((s, c))
        c0 = L.c % k
        Q = Lin((L.c - c0) // k, tuple(qs))
        g = k
        for _, c in rest:
            g = gcd(g, c)
        if g > 1:
            k //= g
            c0 //= g
            rest = [(s, c // g) for s, c in rest]
            if k == 1:
                return Q + Lin(c0, tuple(rest))
        R = Lin(c0, tuple(rest))
        lo, hi = self.iv(R)
        if lo != -INF and hi != INF and lo // k == hi // k:
            return Q + lo // k
        if has_nd(R):
            return Q + sym(fresh_nd(lo // k, hi // k))
        # decompose the symbols of the remainder part
        for s, c in rest:
            g = gcd(c, k)
            m = k // g
            a, b = self.sb(s)
            if a != -INF and b != INF and a // m == b // m:
                continue
            si = SYMS[s]
            if si.kind in ('pc', 'bv', 'seq', 'pow2', 'pop'):
                continue
            if si.kind == 'q' and False:
                continue
            self.decompose(s, m)
            return Q + self.div(R, k)
        # known facts may still pin the quotient
        if lo != -INF and hi != INF and hi // k - lo // k <= 1:
            t = (hi // k) * k
            if self.prove(R - t):
                return Q + hi // k
            if self.prove(con(t - 1) - R):
                return Q + lo // k
        elif len(R.t) > 1 and self.prove(con(k - 1) - R) and self.prove(R):
            return Q
        d = intern(('div', R, k), lo // k if lo != -INF else -INF, hi // k if hi != INF else INF, alldeps(R))
        D = sym(d)
        self.add_ge(R - D * k)
        self.add_ge(D * k + (k - 1) - R)
        return Q + D

    def decompose(self, s, m):
        a, b = self.sb(s)
        si = SYMS[s]
        dep = (s,) if si.deps else ()
        q = intern(('q', s, m), a // m if a != -INF else -INF, b // m if b != INF else INF, opaque=si.opaque)
        r = intern(('r', s, m), 0, m - 1, opaque=si.opaque)
        self.subst(s, Lin(0, tuple(sorted(((q, m), (r, 1))))))

    def mod(self, L, k):
        L = self.norm(L)
        return self.norm(L - self.div(L, k) * k)

    # ---- entailment ---------------------------------------------------------------------------
    def prove(self, L):
        """True when L >= 0 holds in every concrete state described"""
        L = self.norm(L)
        lo, hi = self.iv(L)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        g = gcd(*(k for _, k in L.t))
        if g > 1:
            L = Lin(L.c // g, tuple((x, k // g) for x, k in L.t))
        r = self._pc.get(L)
        if r is not None:
            return r
        U = unpow(L)
        if U is not None and self.prove(U):
            return True
        STATS['prove'] += 1
        r = self._prove(L)
        self._pc[L] = r
        return r

    def learn(self, L):
        """prove, and keep as a constraint what only follows from the axioms on counts"""
        if not self.prove(L):
            return False
        L = self.norm(L)
        if self.iv(L)[0] < 0 and not self.lp_infeasible([con(-1) - L], axioms=False):
            self.add_ge(L)
        return True

    def _prove(self, L):
        c = self.ineq.get(L.t)
        if c is not None and c <= L.c:
            return True
        for t, c in self.ineq.items():
            d = L - Lin(c, t)
            if self.iv(d)[0] >= 0:
                return True
        return self.lp_infeasible([con(-1) - L])

    def counted(self, extra):
        """prefix popcounts up to positions that `extra` speaks about"""
        direct = {s for L in extra for s, _ in L.t}
        return [s for t in self.ineq for s, _ in t
                if SYMS[s].kind == 'pc' and s not in direct and not direct.isdisjoint(SYMS[s].deps)]

    def relevant(self, extra, more=()):
        """constraints connected to the symbols of `extra`"""
        syms = set(more)
        for L in extra:
            syms.update(s for s, _ in L.t)
        cons = list(extra)
        todo = dict(self.ineq)
        work = True
        while work:
            work = False
            # arguments of pc atoms connect too
            for s in list(syms):
                for d in SYMS[s].deps:
                    if d not in syms:
                        syms.add(d)
                        work = True
            for t in list(todo):
                if any(s in syms for s, _ in t):
                    cons.append(Lin(todo.pop(t), t))
                    syms.update(s for s, _ in t)
                    work = True
        return cons, syms

    def lp_infeasible(self, extra, want_model=False, axioms=True):
        STATS['lp'] += 1
        cons, syms = self.relevant(extra)
        m = self._lp(cons, syms, want_model)
        if m is None:
            return None if want_model else True
        if axioms:
            more = [s for s in self.counted(extra) if s not in syms]
            if more:
                cons, syms = self.relevant(extra, more)
            have = set(cons)
            for rnd in range(4):
                ax = self.pc_axioms(cons, syms, extra)
                if self.facts:
                    ax += self.fact_instances(cons, extra)
                new = [a for a in ax if a not in have]
                if not new:
                    break
                have.update(new)
                cons = cons + new
                for a in new:
                    syms.update(s for s, _ in a.t)
                m = self._lp(cons, syms, want_model)
                if m is None:
                    return None if want_model else True
        return m if want_model else False

    def _lp(self, cons, syms, want_model=False):
        rows = []
        for L in cons:
            if not L.t:
                if L.c < 0:
                    return None
                continue
            rows.append((dict(L.t), L.c))
        b = {}
        for s in {v for a, _ in rows for v in a}:
            x, y = self.sb(s)
            b[s] = (None if x == -INF else x, None if y == INF else y)
        if not want_model:
            r = fastlp.empty(rows, b)
            if r is not None:
                return None if r else ()
        else:
            S = fastlp.Session(rows, b)
            if S.none is not None:
                return None if S.none else S.near()
        return lp.solve(rows, b)

    def pc_axioms(self, cons, syms, extra):
        """instances of monotonicity, 1-Lipschitz and saturation of the prefix popcount"""
        atoms = {}
        for L in cons:
            for s, _ in L.t:
                if SYMS[s].kind == 'pc':
                    atoms.setdefault(SYMS[s].key[1], set()).add(s)
        out = []
        for x in syms:
            si = SYMS[x]
            if si.kind == 'div':
                d = sym(x)
                out.append(self.norm(si.key[1] - d * si.key[2]))
                out.append(self.norm(d * si.key[2] + (si.key[2] - 1) - si.key[1]))
        out += self.div_axioms(syms, extra)
        for arr, ss in atoms.items():
            pts = [(ZERO, ZERO)] + [(SYMS[s].key[2], sym(s)) for s in sorted(ss)]
            W = ARRS.get(arr)
            end = self.norm(W) if W is not None else None
            if end is not None and not any(p[0] is end for p in pts):
                # only useful when some point may lie beyond the end
                if any(not self.le0(p[0], end) for p in pts[1:]):
                    pts.append((end, pc(arr, end)))
            out += self.chain(pts, end, extra)
        return out

    def chain(self, pts, end, extra):
        """the rows for neighbouring points only: the others are sums of these"""
        out = []
        S = self.session(extra, [A for A, _ in pts])
        if S is not None:
            if S.none:
                return [con(-1)]
            at = [A.c + sum(k * S.at[x] for x, k in A.t) for A, _ in pts]
            ix = sorted(range(len(pts)), key=lambda i: at[i])
        else:
            at, ix = None, range(len(pts))

        def le(A, B):
            d = self.norm(B - A)
            lo, hi = self.iv(d)
            if lo >= 0:
                return True
            if hi < 0:
                return False
            r = None
            if S is not None:
                r = S.excluded([(x, -k) for x, k in d.t], -1 - d.c)
            return self.le1(A, B, extra) if r is None else r

        below = {}
        for n, i in enumerate(ix):
            below[i] = set()
            for j in reversed(ix[:n]):
                if j in below[i]:
                    continue
                (A, a), (B, b) = pts[j], pts[i]
                up = le(A, B)
                down = (at is None or abs(at[i] - at[j]) < 0.5) and le(B, A)
                if up and down:
                    out += [a - b, b - a]
                elif down:
                    A, a, B, b = B, b, A, a
                if up != down:
                    out += [b - a, (B - A) - (b - a)]
                    if end is not None and le(end, A):
                        out.append(a - b)
                if up:
                    below[i] |= below[j]
                    below[i].add(j)
        return out

    def session(self, extra, forms):
        cons, syms = self.relevant(extra, [x for A in forms for x, _ in A.t])
        rows = [(dict(L.t), L.c) for L in cons if L.t]
        for x in syms:
            si = SYMS[x]
            if si.kind == 'div':
                d = sym(x)
                for L in (self.norm(si.key[1] - d * si.key[2]), self.norm(d * si.key[2] + (si.key[2] - 1) - si.key[1])):
                    if L.t:
                        rows.append((dict(L.t), L.c))
        have = {v for a, _ in rows for v in a}
        for A in forms:
            for x, _ in A.t:
                if x not in have:
                    have.add(x)
                    rows.append(({x: 0}, 0))
        b = {}
        for s in have:
            x, y = self.sb(s)
            b[s] = (None if x == -INF else x, None if y == INF else y)
        S = fastlp.Session(rows, b)
        return None if S.none is None else S

    def div_axioms(self, syms, extra):
        """quotients of the same number at constant distances"""
        fam = {}
        for x in syms:
            si = SYMS[x]
            if si.kind == 'div':
                fam.setdefault((si.key[1].t, si.key[2]), []).append((si.key[1].c, x))
        out = []
        for (t, m), xs in fam.items():
            xs.sort()
            for (c1, x1), (c2, x2) in zip(xs, xs[1:]):
                a, b = sym(x1), sym(x2)
                r = Lin(c1, t) - a * m + (c2 - c1)      # b = a + r div m
                out.append(b - a)
                out.append(a + (c2 - c1 + m - 1) // m - b)
                for q in range(1, (c2 - c1 + m - 1) // m + 1):
                    if self.le1(con(q * m), r, extra):
                        out.append(b - a - q)
                    elif self.le1(r, con(q * m - 1), extra):
                        out.append(a + (q - 1) - b)
                    if q > 3:
                        break
        return out

    def fact_instances(self, cons, extra):
        """instances of the `for all u < T` facts at the places the constraints talk about"""
        from interp import subst_lin
        out = []
        pts = {}
        for L in cons:
            for s, _ in L.t:
                si = SYMS[s]
                if si.kind in ('pc', 'seq'):
                    pts.setdefault((si.kind, si.key[1]), set()).add(si.key[2])
        for us, T, lins in self.facts:
            T = self.norm(T)
            where = {T - 1}
            for L in lins:
                for s, _ in L.t:
                    si = SYMS[s]
                    if us in si.deps and si.kind in ('pc', 'seq'):
                        arg = self.norm(si.key[2])
                        a = dict(arg.t).get(us, 0)
                        if not a:
                            continue
                        r = arg - sym(us) * a
                        for X in pts.get((si.kind, si.key[1]), ()):
                            d = X - r
                            if d.c % a == 0 and all(k % a == 0 for _, k in d.t):
                                where.add(Lin(d.c // a, tuple((v, k // a) for v, k in d.t)))
            for w in where:
                if self.le1(ZERO, w, extra) and self.le1(w, T - 1, extra):
                    for L in lins:
                        out.append(self.norm(subst_lin(L, us, w)))
        return out

    def le0(self, A, B):
        d = self.norm(B - A)
        return self.iv(d)[0] >= 0

    def le1(self, A, B, extra):
        d = self.norm(B - A)
        lo, hi = self.iv(d)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        key = (d, tuple(extra))
        r = self._pc.get(key)
        if r is None:
            r = self.lp_infeasible(list(extra) + [con(-1) - d], axioms=False)
            self._pc[key] = r
        return r

    def order(self, A, B, extra):
        """-1: A <= B, 1: B <= A, 0: equal, None: unknown"""
        d = self.norm(B - A)
        if not d.t:
            return 0 if d.c == 0 else (-1 if d.c > 0 else 1)
        if self.le1(A, B, extra):
            return -1
        if self.le1(B, A, extra):
            return 1
        return None

    def feasible(self):
        """False when the constraint store is empty (rational relaxation)"""
        if not self.ineq:
            return True
        return not self.lp_infeasible([ZERO] + [Lin(c, t) for t, c in self.ineq.items()])

    def equal(self, A, B):
        d = self.norm(A - B)
        if not d.t:
            return d.c == 0
        return self.prove(d) and self.prove(-d)


def seq(name, L, lo, hi):
    return sym(intern(('seq', name, L), lo, hi, alldeps(L)))


def mkdiv(L, m):
    """floor(L / m) without looking at any state"""
    qs, rest = [], []
    for x, k in L.t:
        (rest if k % m else qs).append((x, k))
    c = L.c % m
    Q = Lin((L.c - c) // m, tuple((x, k // m) for x, k in qs))
    if not rest:
        return Q
    R = Lin(c, tuple(rest))
    return Q + sym(intern(('div', R, m), -INF, INF, alldeps(R)))


def unpow(L):
    """the same condition on the exponent when L >= 0 bounds a single power of two"""
    if len(L.t) != 1 or SYMS[L.t[0][0]].kind != 'pow2':
        return None
    s, k = L.t[0]
    e = SYMS[s].key[1]
    if k < 0:
        b = L.c // -k
        return con(b.bit_length() - 1) - e if b >= 1 else con(-1)
    a = -(L.c // k)
    return e - (a - 1).bit_length() if a > 1 else None


def mkpow2(st, L):
    if L.is_const():
        return con(1 << L.c) if L.c >= 0 else ZERO      # zero is outside of the range of the symbol
    lo, hi = st.iv(L)
    if L.c and lo - L.c >= 0:
        # normal form: no constant in the exponent
        if L.c > 0:
            return mkpow2(st, L - L.c) * (1 << L.c)
    return sym(intern(('pow2', L), 1 << max(lo, 0) if lo != -INF else 1, 1 << hi if hi < 256 else INF, alldeps(L)))
