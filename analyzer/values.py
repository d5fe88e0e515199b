"""Abstract values: linear forms, bit strings with per-bit provenance, aggregates, pointers, arrays."""
from lin import Lin, SYMS, ZERO, ONE, con, sym, intern, fresh, INF
from state import pc, alldeps, NeedSplit, Undecided, mkpow2, ARRS


class V:
    __slots__ = ()


class Bits(V):
    """machine word as a tuple of bit sources, least significant first.
    source: 0 | 1 | ('b', arr, P) bit P of bit array | ('l', L, j) bit j of the value L
          | ('n', src) | ('x'|'a'|'o', src, src)"""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def __eq__(self, o):
        return isinstance(o, Bits) and self.b == o.b

    def __hash__(self):
        return hash(self.b)

    def __repr__(self):
        out = []
        i = 0
        while i < len(self.b):
            x = self.b[i]
            j = i + 1
            while j < len(self.b) and (self.b[j] == x or nextsrc(self.b[j - 1], self.b[j])):
                j += 1
            out.append('%d..%d:%s' % (i, j, srcstr(x)))
            i = j
        return 'Bits<' + ' '.join(out) + '>'


def srcstr(x):
    if type(x) is int:
        return str(x)
    return '%s(%s)' % (x[0], ','.join(map(lambda y: srcstr(y) if isinstance(y, (tuple, int)) else str(y), x[1:])))


def nextsrc(a, b):
    if type(a) is int or type(b) is int:
        return False
    if a[0] == 'b' and b[0] == 'b':
        return a[1] == b[1] and (b[2] - a[2]) is ONE
    if a[0] == 'l' and b[0] == 'l':
        return a[1] is b[1] and b[2] == a[2] + 1
    return False


class LowMask(V):
    """word & (2^e - 1) for a symbolic e: bit string `w` cut off at position e"""
    __slots__ = ('w', 'e')

    def __init__(self, w, e):
        self.w, self.e = w, e

    def __eq__(self, o):
        return isinstance(o, LowMask) and (self.w, self.e) == (o.w, o.e)

    def __hash__(self):
        return hash((self.w, self.e))

    def __repr__(self):
        return 'LowMask(%r,%r)' % (self.w, self.e)


class SelBit(V):
    """word & 2^e for a symbolic e"""
    __slots__ = ('w', 'e')

    def __init__(self, w, e):
        self.w, self.e = w, e

    def __eq__(self, o):
        return isinstance(o, SelBit) and (self.w, self.e) == (o.w, o.e)

    def __hash__(self):
        return hash((self.w, self.e))


class BitUpd(V):
    """word w (n bits) whose bit e (symbolic) is replaced by source s"""
    __slots__ = ('w', 'e', 's', 'n')

    def __init__(self, w, e, s, n):
        self.w, self.e, self.s, self.n = w, e, s, n

    def __eq__(self, o):
        return isinstance(o, BitUpd) and (self.w, self.e, self.s, self.n) == (o.w, o.e, o.s, o.n)

    def __hash__(self):
        return hash((self.w, self.e, self.s, self.n))

    def __repr__(self):
        return 'BitUpd(%r,[%r]=%s)' % (self.w, self.e, srcstr(self.s))


class ShrW(V):
    """word w (n bits) shifted right by a symbolic amount"""
    __slots__ = ('w', 'k', 'n')

    def __init__(self, w, k, n):
        self.w, self.k, self.n = w, k, n

    def __eq__(self, o):
        return isinstance(o, ShrW) and (self.w, self.k, self.n) == (o.w, o.k, o.n)

    def __hash__(self):
        return hash((self.w, self.k, self.n))


class Cond(V):
    """lazy boolean: kind 'ge' (L >= 0), 'eq' (L == 0), 'any' (some source bit is one)"""
    __slots__ = ('k', 'a', 'neg')

    def __init__(self, k, a, neg=False):
        self.k, self.a, self.neg = k, a, neg

    def __eq__(self, o):
        return isinstance(o, Cond) and (self.k, self.a, self.neg) == (o.k, o.a, o.neg)

    def __hash__(self):
        return hash((self.k, self.a, self.neg))

    def __repr__(self):
        return 'Cond(%s%s %r)' % ('!' if self.neg else '', self.k, self.a)


class Adt(V):
    __slots__ = ('var', 'f')

    def __init__(self, var, f):
        self.var, self.f = var, f

    def __eq__(self, o):
        return isinstance(o, Adt) and self.var == o.var and self.f == o.f

    def __hash__(self):
        return hash((self.var, self.f))

    def __repr__(self):
        return 'Adt%s%r' % (self.var if self.var else '', self.f)


class Ptr(V):
    """obj: memory object, path: tuple of ('f', i) | ('i', Lin) | ('s', size, Lin); meta: slice length"""
    __slots__ = ('obj', 'path', 'meta')

    def __init__(self, obj, path=(), meta=None):
        self.obj, self.path, self.meta = obj, path, meta

    def __eq__(self, o):
        return isinstance(o, Ptr) and (self.obj, self.path, self.meta) == (o.obj, o.path, o.meta)

    def __hash__(self):
        return hash((self.obj, self.path, self.meta))

    def __repr__(self):
        return 'Ptr(%s%s%s)' % (self.obj, self.path or '', '' if self.meta is None else '; %r' % (self.meta,))


class FVal(V):
    """floating point number with exact value num/den"""
    __slots__ = ('num', 'den')

    def __init__(self, num, den=1):
        self.num, self.den = num, den

    def __eq__(self, o):
        return isinstance(o, FVal) and (self.num, self.den) == (o.num, o.den)

    def __hash__(self):
        return hash((self.num, self.den))

    def __repr__(self):
        return 'F(%r/%d)' % (self.num, self.den)


class Run(V):
    """elements [lo, hi) of an array given by a template: element lo + stride*t + off = tmpl[off](t)"""
    __slots__ = ('lo', 'hi', 'stride', 'tsym', 'tmpl')

    def __init__(self, lo, hi, stride, tsym, tmpl):
        self.lo, self.hi, self.stride, self.tsym, self.tmpl = lo, hi, stride, tsym, tmpl

    def __eq__(self, o):
        return isinstance(o, Run) and (self.lo, self.hi, self.stride, self.tsym, self.tmpl) == (
            o.lo, o.hi, o.stride, o.tsym, o.tmpl)

    def __hash__(self):
        return hash((self.lo, self.hi, self.stride, self.tsym, self.tmpl))

    def __repr__(self):
        return 'Run[%r..%r /%d](%r)' % (self.lo, self.hi, self.stride, self.tmpl)


class Arr(V):
    """array: n elements of type ety (size esz bytes); writes (latest first) over base.
    base: ('bits', name) arbitrary words | ('fill', value) | ('uninit',) | ('top', lo, hi)
    a write is ('w', idx, value) or ('r', Run)"""
    __slots__ = ('n', 'esz', 'ety', 'w', 'base')

    def __init__(self, n, esz, ety, base, w=()):
        self.n, self.esz, self.ety, self.base, self.w = n, esz, ety, base, w

    def __eq__(self, o):
        return isinstance(o, Arr) and (self.n, self.esz, self.ety, self.base, self.w) == (
            o.n, o.esz, o.ety, o.base, o.w)

    def __hash__(self):
        return hash((self.n, self.esz, self.ety, self.base, self.w))

    def __repr__(self):
        return 'Arr[%r]{%s%r}' % (self.n, self.base, self.w)


class Top(V):
    __slots__ = ('why',)

    def __init__(self, why=''):
        self.why = why

    def __eq__(self, o):
        return isinstance(o, Top)

    def __hash__(self):
        return 7

    def __repr__(self):
        return 'Top(%s)' % self.why


class Fn(V):
    """function pointer"""
    __slots__ = ('key',)

    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, Fn) and self.key == o.key

    def __hash__(self):
        return hash(self.key)


UNIT = Adt(0, ())
TRUE = ONE
FALSE = ZERO

# ---- bit sources --------------------------------------------------------------------------------


def bnot(a):
    if type(a) is int:
        return 1 - a
    return a[1] if a[0] == 'n' else ('n', a)


def band(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1:
        return a
    if a == b:
        return a
    if a == bnot(b):
        return 0
    return ('a', a, b) if repr(a) <= repr(b) else ('a', b, a)


def bor(a, b):
    if a == 1 or b == 1:
        return 1
    if a == 0:
        return b
    if b == 0:
        return a
    if a == b:
        return a
    if a == bnot(b):
        return 1
    return ('o', a, b) if repr(a) <= repr(b) else ('o', b, a)


def bxor(a, b):
    if type(a) is int:
        return bnot(b) if a else b
    if type(b) is int:
        return bnot(a) if b else a
    if a == b:
        return 0
    if a == bnot(b):
        return 1
    return ('x', a, b) if repr(a) <= repr(b) else ('x', b, a)


BOP = {'a': band, 'o': bor, 'x': bxor}


def lin_bit(st, L, j):
    """bit j of the non-negative value L"""
    if not L.t:
        return (L.c >> j) & 1
    bs = lin_to_bits(st, L, max(j + 1, 64))
    return bs[j]


def src_lin(st, b):
    """0/1-valued linear form of a bit source"""
    if type(b) is int:
        return con(b)
    k = b[0]
    if k == 'b':
        P = st.norm(b[2])
        return pc(b[1], P + 1) - pc(b[1], P)
    if k == 'n':
        return ONE - src_lin(st, b[1])
    if k == 'l':
        L = st.norm(b[1])
        lo, hi = st.iv(L)
        if b[2] == 0 and lo >= 0 and hi <= 1:
            return L
        return st.mod(st.div(L, 1 << b[2]), 2)
    return sym(intern(('bv', (b,)), 0, 1, srcdeps(b)))


def drop_beyond(st, b):
    """bit source with array bits beyond the end of the arbitrary contents replaced by zero"""
    if type(b) is int or b[0] == 'l':
        return b
    if b[0] == 'b':
        end = ARRS.get(b[1])
        if end is not None and st.prove(st.norm(b[2]) - end):
            return 0
        return b
    if b[0] == 'n':
        return bnot(drop_beyond(st, b[1]))
    return BOP[b[0]](drop_beyond(st, b[1]), drop_beyond(st, b[2]))


def srcdeps(b):
    if type(b) is int:
        return frozenset()
    if b[0] == 'b':
        return alldeps(b[2])
    if b[0] == 'l':
        return alldeps(b[1])
    if b[0] == 'n':
        return srcdeps(b[1])
    return srcdeps(b[1]) | srcdeps(b[2])


def lin_to_bits(st, L, n):
    """bit string of a value known to lie in [0, 2^n) (or taken modulo 2^n)"""
    L = st.norm(L)
    if not L.t:
        c = L.c & ((1 << n) - 1)
        return tuple((c >> i) & 1 for i in range(n))
    lo, hi = st.iv(L)
    # a single value-of-bit-string atom
    out = []
    s = L.single()
    if s is not None and SYMS[s].kind == 'bv':
        b = SYMS[s].key[1]
        return tuple(b[:n]) + (0,) * (n - len(b))
    for s, _ in L.t:
        if SYMS[s].kind == 'pow2':
            e = st.norm(SYMS[s].key[1])
            a, b = st.iv(e)
            if b - a > 130:
                raise Undecided('bits of %r' % (L,))
            raise NeedSplit([[('eq', e - v)] for v in range(int(a), int(b) + 1)])
    # split into low part and high part at a power of two
    vals = sorted({(k & -k).bit_length() - 1 for _, k in L.t})
    for v in vals:
        if v == 0 and not any(k % 2 for _, k in L.t):
            continue
        low = tuple((s, k) for s, k in L.t if k % (1 << v))
        if v == 0:
            continue
        m = 1 << v
        c = L.c % m
        lowL = Lin(c, low)
        a, b = st.iv(lowL)
        if a >= 0 and b < m:
            hiL = Lin((L.c - c) // m, tuple((s, k // m) for s, k in L.t if k % m == 0))
            if v >= n:
                return lin_to_bits(st, lowL, n)
            return lin_to_bits(st, lowL, v) + lin_to_bits(st, hiL, n - v)
    if lo < 0:
        if st.prove(L):
            lo = 0
        else:
            raise Undecided('bits of a possibly negative value %r' % L)
    if hi != INF and hi < (1 << n):
        m = int(hi).bit_length()
    else:
        m = n
    # try a tighter proven bound (a field of another width)
    if m > 1 and len(L.t) > 1:
        for mm in (1, 7, 12, 13, 20, 32, 44):
            if mm < m and st.prove(con((1 << mm) - 1) - L):
                m = mm
                break
    return tuple(('l', L, j) for j in range(m)) + (0,) * (n - m)


def bits_to_lin(st, bs):
    n = len(bs)
    bs = [drop_beyond(st, b) if type(b) is tuple and b[0] in 'xao' else b for b in bs]
    acc = ZERO
    i = 0
    while i < n:
        b = bs[i]
        if type(b) is int:
            if b:
                acc = acc + (1 << i)
            i += 1
            continue
        j = i + 1
        while j < n and nextsrc(bs[j - 1], bs[j]):
            j += 1
        if b[0] == 'l':
            L, f = b[1], b[2]
            w = j - i
            L = st.norm(L)
            lo, hi = st.iv(L)
            e = L
            if f:
                e = st.div(L, 1 << f)
            if hi == INF or (hi >> f) >= (1 << w):
                # upper bits cut off unless proven zero
                if not st.prove(con((1 << (f + w)) - 1) - L):
                    e = st.mod(e, 1 << w)
            acc = acc + e * (1 << i)
        elif b[0] == 'n' and b[1][0] == 'l' and j == i + 1:
            acc = acc + src_lin(st, b) * (1 << i)
        elif b[0] in ('b', 'x', 'a', 'o', 'n'):
            # contiguous non-constant part without 'l' bits becomes one atom
            j = i
            while j < n and type(bs[j]) is not int and bs[j][0] != 'l':
                j += 1
            part = tuple(bs[i:j])
            if len(part) == 1:
                acc = acc + src_lin(st, part[0]) * (1 << i)
            else:
                d = frozenset().union(*[srcdeps(x) for x in part])
                acc = acc + sym(intern(('bv', part), 0, (1 << len(part)) - 1, d)) * (1 << i)
        i = j
    return st.norm(acc)


def popcount_bits(st, bs):
    acc = ZERO
    i = 0
    n = len(bs)
    odd = []
    while i < n:
        b = bs[i]
        if type(b) is int:
            acc = acc + b
            i += 1
            continue
        if b[0] == 'b':
            j = i + 1
            while j < n and nextsrc(bs[j - 1], bs[j]):
                j += 1
            P = st.norm(b[2])
            acc = acc + pc(b[1], P + (j - i)) - pc(b[1], P)
            i = j
            continue
        if b[0] == 'n' and b[1][0] == 'b':
            acc = acc + src_lin(st, b)
        elif b[0] == 'l' and b[2] == 0 and st.iv(b[1])[1] <= 1:
            acc = acc + src_lin(st, b)
        else:
            odd.append(b)
        i += 1
    if odd:
        d = frozenset().union(*[srcdeps(x) for x in odd])
        acc = acc + sym(intern(('pop', tuple(odd)), 0, len(odd), d))
    return acc
