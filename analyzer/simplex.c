/* Exact rational feasibility test of linear constraints: the emptiness operator of the polyhedra
   domain.  Same algorithm as lp.py (general simplex with bounds, Bland's rule); arithmetic is checked
   and the caller falls back to lp.py when a number does not fit. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

typedef __int128 I;
typedef struct { I n, d; } Q;

static int ovf;

static I absI(I a) { return a < 0 ? -a : a; }

static I gcdI(I a, I b) {
    a = absI(a); b = absI(b);
    while (b) {
        if (a <= (I)UINT64_MAX && b <= (I)UINT64_MAX) {
            uint64_t x = (uint64_t)a, y = (uint64_t)b;
            while (y) { uint64_t t = x % y; x = y; y = t; }
            return x;
        }
        I t = a % b; a = b; b = t;
    }
    return a;
}

static I mulI(I a, I b) { I r; if (__builtin_mul_overflow(a, b, &r)) ovf = 1; return r; }
static I addI(I a, I b) { I r; if (__builtin_add_overflow(a, b, &r)) ovf = 1; return r; }

static Q mk(I n, I d) {
    if (d < 0) { n = -n; d = -d; }
    if (d != 1) { I g = gcdI(n, d); if (g > 1) { n /= g; d /= g; } }
    Q q = { n, d };
    return q;
}
static Q qmul(Q a, Q b) {
    if (a.d == 1 && b.d == 1) { Q q = { mulI(a.n, b.n), 1 }; return q; }
    I g1 = gcdI(a.n, b.d), g2 = gcdI(b.n, a.d);
    if (g1 > 1) { a.n /= g1; b.d /= g1; }
    if (g2 > 1) { b.n /= g2; a.d /= g2; }
    Q q = { mulI(a.n, b.n), mulI(a.d, b.d) };
    return q;
}
static Q qadd(Q a, Q b) {
    if (a.d == 1 && b.d == 1) { Q q = { addI(a.n, b.n), 1 }; return q; }
    if (a.d == b.d) return mk(addI(a.n, b.n), a.d);
    I g = gcdI(a.d, b.d);
    I x = b.d / g, y = a.d / g;
    return mk(addI(mulI(a.n, x), mulI(b.n, y)), mulI(a.d, x));
}
static Q qneg(Q a) { a.n = -a.n; return a; }
static Q qinv(Q a) { if (a.n < 0) { Q q = { -a.d, -a.n }; return q; } Q q = { a.d, a.n }; return q; }
static int qcmp(Q a, Q b) {
    if (a.d == b.d) return a.n < b.n ? -1 : a.n > b.n;
    I x = mulI(a.n, b.d), y = mulI(b.n, a.d);
    return x < y ? -1 : x > y;
}

static void *grow(void **p, size_t *cap, size_t need) {
    if (*cap < need) {
        free(*p);
        *cap = need + need / 2;
        *p = malloc(*cap);
    }
    return *p;
}

typedef struct {
    int n, m;
    Q *T, *val, *L, *H;
    unsigned char *F;
    int *basis, *where, *nb;
    size_t cT, cV, cL, cH, cF, cB, cW, cN;
} Tab;

static Tab main_tab, probe_tab;

/* room for m rows */
static void room(Tab *t, int n, int m) {
    int N = n + m;
    t->n = n; t->m = m;
    grow((void **)&t->T, &t->cT, (size_t)m * n * sizeof(Q) + 16);
    grow((void **)&t->val, &t->cV, N * sizeof(Q) + 16);
    grow((void **)&t->L, &t->cL, N * sizeof(Q) + 16);
    grow((void **)&t->H, &t->cH, N * sizeof(Q) + 16);
    grow((void **)&t->F, &t->cF, N + 16);
    grow((void **)&t->basis, &t->cB, sizeof(int) * m + 16);
    grow((void **)&t->where, &t->cW, sizeof(int) * N + 16);
    grow((void **)&t->nb, &t->cN, sizeof(int) * n + 16);
}

static int run(Tab *t) {
    int n = t->n, m = t->m, N = n + m;
    Q *T = t->T, *val = t->val, *L = t->L, *H = t->H;
    unsigned char *F = t->F;
    int *basis = t->basis, *where = t->where, *nb = t->nb;
    for (int it = 0; it < 3000 && !ovf; it++) {
        int b = -1, up = 0;
        for (int v = 0; v < N; v++) {
            if (where[v] < 0) continue;
            if ((F[v] & 1) && qcmp(val[v], L[v]) < 0) { b = v; up = 1; break; }
            if ((F[v] & 2) && qcmp(val[v], H[v]) > 0) { b = v; up = 0; break; }
        }
        if (b < 0) return ovf ? 2 : 1;
        int r = where[b], e = -1;
        Q *R = T + (size_t)r * n;
        for (int j = 0; j < n; j++) {
            if (R[j].n == 0 || (e >= 0 && nb[j] > nb[e])) continue;
            int v = nb[j], pos = R[j].n > 0;
            int ok = (up == pos) ? (!(F[v] & 2) || qcmp(val[v], H[v]) < 0) : (!(F[v] & 1) || qcmp(val[v], L[v]) > 0);
            if (ok) e = j;
        }
        if (e < 0) return ovf ? 2 : 0;
        int ev = nb[e];
        Q target = up ? L[b] : H[b];
        Q a = R[e], ia = qinv(a);
        Q theta = qmul(qadd(target, qneg(val[b])), ia);
        val[b] = target;
        val[ev] = qadd(val[ev], theta);
        for (int i = 0; i < m; i++) {
            if (i == r) continue;
            Q x = T[(size_t)i * n + e];
            if (x.n) val[basis[i]] = qadd(val[basis[i]], qmul(x, theta));
        }
        /* pivot */
        for (int j = 0; j < n; j++) {
            if (j == e || R[j].n == 0) continue;
            R[j] = qneg(qmul(R[j], ia));
        }
        R[e] = ia;
        nb[e] = b; where[b] = -1; basis[r] = ev; where[ev] = r;
        for (int i = 0; i < m; i++) {
            if (i == r) continue;
            Q *S = T + (size_t)i * n;
            Q f = S[e];
            if (f.n == 0) continue;
            S[e].n = 0; S[e].d = 1;
            for (int j = 0; j < n; j++)
                if (R[j].n) S[j] = qadd(S[j], qmul(f, R[j]));
        }
    }
    return 2;
}

/* n variables, m rows; row r: sum coef[k]*x[col[k]] for k in start[r]..start[r+1], >= rlo[r]
   flags[i] bit 0: lower bound present, bit 1: upper bound present.
   0 empty, 1 not empty, 2 no answer.
   Column j of the tableau belongs to the variable nb[j] outside the basis. */
int solve(int n, int m, const int *start, const int *col, const I *coef, const I *rlo,
          const unsigned char *flags, const I *lo, const I *hi) {
    Tab *t = &main_tab;
    int N = n + m;
    ovf = 0;
    room(t, n, m);
    Q *T = t->T, *val = t->val, *L = t->L, *H = t->H;
    unsigned char *F = t->F;
    int *basis = t->basis, *where = t->where, *nb = t->nb;
    for (size_t i = 0; i < (size_t)m * n; i++) { T[i].n = 0; T[i].d = 1; }
    for (int i = 0; i < N; i++) { val[i].n = L[i].n = H[i].n = 0; val[i].d = L[i].d = H[i].d = 1; where[i] = -1; }
    for (int i = 0; i < n; i++) {
        nb[i] = i;
        F[i] = flags[i]; L[i].n = lo[i]; H[i].n = hi[i];
        if (F[i] == 3 && lo[i] > hi[i]) return 0;
        val[i].n = (F[i] & 1) ? lo[i] : (F[i] & 2) ? hi[i] : 0;
    }
    for (int r = 0; r < m; r++) {
        Q s = { 0, 1 };
        for (int k = start[r]; k < start[r + 1]; k++) {
            Q c = { coef[k], 1 };
            T[(size_t)r * n + col[k]] = c;
            s = qadd(s, qmul(c, val[col[k]]));
        }
        basis[r] = n + r; where[n + r] = r;
        F[n + r] = 1; L[n + r].n = rlo[r];
        val[n + r] = s;
    }
    return run(t);
}

/* the point found by the last successful solve */
void point(double *out) {
    Tab *t = &main_tab;
    for (int i = 0; i < t->n; i++) out[i] = (double)t->val[i].n / (double)t->val[i].d;
}

/* the same rounded down, and whether it was rounded */
void point_floor(I *out, unsigned char *rounded) {
    Tab *t = &main_tab;
    for (int i = 0; i < t->n; i++) {
        I q = t->val[i].n / t->val[i].d, r = t->val[i].n % t->val[i].d;
        out[i] = r < 0 ? q - 1 : q;
        rounded[i] = r != 0;
    }
}

/* the constraints of the last successful solve with one more row; the main tableau is kept */
int probe(int k, const int *col, const I *coef, const I *rlo) {
    Tab *s = &main_tab, *t = &probe_tab;
    int n = s->n, m = s->m;
    ovf = 0;
    room(t, n, m + 1);
    memcpy(t->T, s->T, (size_t)m * n * sizeof(Q));
    memcpy(t->val, s->val, (n + m) * sizeof(Q));
    memcpy(t->L, s->L, (n + m) * sizeof(Q));
    memcpy(t->H, s->H, (n + m) * sizeof(Q));
    memcpy(t->F, s->F, n + m);
    memcpy(t->basis, s->basis, m * sizeof(int));
    memcpy(t->where, s->where, (n + m) * sizeof(int));
    memcpy(t->nb, s->nb, n * sizeof(int));
    Q *R = t->T + (size_t)m * n;
    Q v = { 0, 1 };
    for (int j = 0; j < n; j++) { R[j].n = 0; R[j].d = 1; }
    for (int i = 0; i < k; i++) {
        Q c = { coef[i], 1 };
        int x = col[i], r = t->where[x];
        v = qadd(v, qmul(c, t->val[x]));
        if (r < 0) {
            for (int j = 0; j < n; j++)
                if (t->nb[j] == x) { R[j] = qadd(R[j], c); break; }
        } else {
            Q *S = t->T + (size_t)r * n;
            for (int j = 0; j < n; j++)
                if (S[j].n) R[j] = qadd(R[j], qmul(c, S[j]));
        }
    }
    int b = n + m;
    t->basis[m] = b; t->where[b] = m; t->F[b] = 1;
    t->L[b].n = *rlo; t->L[b].d = 1; t->H[b].n = 0; t->H[b].d = 1;
    t->val[b] = v;
    return run(t);
}
