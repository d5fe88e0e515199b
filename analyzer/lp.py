"""Emptiness test of a polyhedron given by integer linear constraints (exact rational simplex).

This is the emptiness operator of the polyhedra domain used by the analysis; it answers for the
rational relaxation only, so `infeasible` is sound for integers.
"""
from fractions import Fraction


def solve(cons, bounds):
    """cons: list of (coef dict {var: int}, c) meaning sum + c >= 0; bounds: {var: (lo, hi)} with None.
    Returns None when infeasible over the rationals, otherwise {var: Fraction}."""
    INFN = None
    vs = sorted({v for a, _ in cons for v in a})
    idx = {v: i for i, v in enumerate(vs)}
    n = len(vs)
    lo = [None] * n
    hi = [None] * n
    for v in vs:
        b = bounds.get(v)
        if b:
            lo[idx[v]], hi[idx[v]] = b
            if b[0] is not None and b[1] is not None and b[0] > b[1]:
                return None
    val = [0] * n
    for i in range(n):
        if lo[i] is not None:
            val[i] = lo[i]
        elif hi[i] is not None:
            val[i] = hi[i]
        else:
            val[i] = 0
    # rows: basic var index n+k
    rows = {}
    for k, (a, c) in enumerate(cons):
        r = {idx[v]: co for v, co in a.items() if co}
        rows[n + k] = r
        lo.append(-c)
        hi.append(None)
        val.append(sum(co * val[j] for j, co in r.items()))
    cols = [set() for _ in range(n + len(cons))]
    for b, r in rows.items():
        for j in r:
            cols[j].add(b)
    it = 0
    while True:
        it += 1
        # choose violated basic variable (Bland: smallest index)
        bvar = None
        for b in sorted(rows):
            if lo[b] is not None and val[b] < lo[b]:
                bvar, up = b, True
                break
            if hi[b] is not None and val[b] > hi[b]:
                bvar, up = b, False
                break
        if bvar is None:
            return {v: Fraction(val[idx[v]]) for v in vs}
        if it > 2000:
            return {v: Fraction(val[idx[v]]) for v in vs} if False else {}
        r = rows[bvar]
        ent = None
        for j in sorted(r):
            co = r[j]
            if up == (co > 0):
                ok = hi[j] is None or val[j] < hi[j]
            else:
                ok = lo[j] is None or val[j] > lo[j]
            if ok:
                ent = j
                break
        if ent is None:
            return None
        target = lo[bvar] if up else hi[bvar]
        a = r[ent]
        theta = Fraction(target - val[bvar]) / a
        if theta.denominator == 1:
            theta = theta.numerator
        val[bvar] = target
        val[ent] += theta
        for b in cols[ent]:
            if b != bvar:
                val[b] += rows[b][ent] * theta
        # pivot: ent = (bvar - sum_{j != ent} r_j x_j) / a
        del rows[bvar]
        for j in r:
            cols[j].discard(bvar)
        nr = {}
        if a == 1:
            for j, co in r.items():
                if j != ent:
                    nr[j] = -co
            nr[bvar] = 1
        elif a == -1:
            for j, co in r.items():
                if j != ent:
                    nr[j] = co
            nr[bvar] = -1
        else:
            for j, co in r.items():
                if j != ent:
                    q = Fraction(-co) / a
                    nr[j] = q.numerator if q.denominator == 1 else q
            q = Fraction(1) / a
            nr[bvar] = q
        rows[ent] = nr
        for b in list(cols[ent]):
            rb = rows[b]
            f = rb.pop(ent)
            for j, co in nr.items():
                x = rb.get(j, 0) + f * co
                if x:
                    if type(x) is Fraction and x.denominator == 1:
                        x = x.numerator
                    if j not in rb:
                        cols[j].add(b)
                    rb[j] = x
                elif j in rb:
                    del rb[j]
                    cols[j].discard(b)
        cols[ent] = set()
        for j in nr:
            cols[j].add(ent)
