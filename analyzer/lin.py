"""Integer linear forms over interned symbols.

A symbol is an int index into SYMS.  Plain symbols stand for unknown machine values; atoms are
symbols that denote an application of an uninterpreted function with a known axiom set:
  ('pc', arr, L)   number of one bits of bit array `arr` at positions < L   (pc(arr, 0) = 0)
  ('q', s, m)      s div m          ('r', s, m)  s mod m     (s a symbol)
  ('div', L, k)    L div k          ('bv', bits) value of a bit string
  ('pow2', L)      2**L             ('pop', bits) number of ones of an unstructured bit string
  ('seq', name, L) element L of an arbitrary sequence
"""
from math import gcd

INF = float('inf')


class Sym:
    __slots__ = ('kind', 'key', 'lo', 'hi', 'opaque', 'deps')

    def __init__(self, kind, key, lo, hi, opaque, deps):
        self.kind, self.key, self.lo, self.hi, self.opaque, self.deps = kind, key, lo, hi, opaque, deps


SYMS = []
INTERN = {}


def reset():
    SYMS.clear()
    INTERN.clear()


def fresh(name, lo, hi, opaque=False):
    SYMS.append(Sym('v', ('v', name, len(SYMS)), lo, hi, opaque, ()))
    return len(SYMS) - 1


def fresh_nd(lo, hi):
    """a value the program may not rely on (capacity of an allocation); loops forget which one it is"""
    SYMS.append(Sym('nd', ('v', 'cap', len(SYMS)), lo, hi, True, ()))
    return len(SYMS) - 1


def has_nd(L):
    return any(SYMS[s].kind == 'nd' for s, _ in L.t)


def lone_nd(L):
    return L.c == 0 and len(L.t) == 1 and L.t[0][1] == 1 and SYMS[L.t[0][0]].kind == 'nd'


def intern(key, lo, hi, deps=(), opaque=False):
    s = INTERN.get(key)
    if s is None:
        s = len(SYMS)
        INTERN[key] = s
        SYMS.append(Sym(key[0], key, lo, hi, opaque, deps))
    return s


LINS = {}


class Lin:
    """const + sum(coef * sym), immutable and hash-consed."""
    __slots__ = ('c', 't', 'h', '__weakref__')

    def __new__(cls, c, t=()):
        k = (c, t)
        r = LINS.get(k)
        if r is None:
            r = object.__new__(cls)
            r.c, r.t, r.h = c, t, hash(k)
            LINS[k] = r
        return r

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __reduce__(self):
        return (Lin, (self.c, self.t))

    def is_const(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t) if o else self
        if not o.t:
            return Lin(self.c + o.c, self.t) if o.c else self
        if not self.t:
            return Lin(self.c + o.c, o.t)
        return Lin(self.c + o.c, merge(self.t, o.t, 1))

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t) if o else self
        if not o.t:
            return Lin(self.c - o.c, self.t) if o.c else self
        return Lin(self.c - o.c, merge(self.t, o.t, -1))

    def __rsub__(self, o):
        return (-self) + o

    def __neg__(self):
        return Lin(-self.c, tuple((s, -k) for s, k in self.t))

    def __mul__(self, k):
        if k == 1:
            return self
        if k == 0:
            return ZERO
        return Lin(self.c * k, tuple((s, a * k) for s, a in self.t))

    __rmul__ = __mul__

    def syms(self):
        return [s for s, _ in self.t]

    def single(self):
        """the symbol when this is exactly 1*sym"""
        return self.t[0][0] if self.c == 0 and len(self.t) == 1 and self.t[0][1] == 1 else None

    def __repr__(self):
        parts = [('%s' if k == 1 else '-%s' if k == -1 else str(k) + '*%s') % symstr(s) for s, k in self.t]
        if self.c or not parts:
            parts.append(str(self.c))
        return ' + '.join(parts).replace('+ -', '- ')


def merge(a, b, k):
    out = []
    i = j = 0
    na, nb = len(a), len(b)
    while i < na and j < nb:
        sa, ca = a[i]
        sb, cb = b[j]
        if sa == sb:
            c = ca + k * cb
            if c:
                out.append((sa, c))
            i += 1
            j += 1
        elif sa < sb:
            out.append(a[i])
            i += 1
        else:
            out.append((sb, k * cb))
            j += 1
    if i < na:
        out.extend(a[i:])
    while j < nb:
        sb, cb = b[j]
        out.append((sb, k * cb))
        j += 1
    return tuple(out)


ZERO = Lin(0)
ONE = Lin(1)


def con(c):
    return Lin(c)


def sym(s):
    return Lin(0, ((s, 1),))


def symstr(s):
    k = SYMS[s].key
    if k[0] == 'v':
        return '%s#%d' % (k[1], s)
    if k[0] == 'pc':
        return 'ones(%s,<%r)' % (k[1], k[2])
    if k[0] in 'qr' and len(k[0]) == 1:
        return '(%s %s %d)' % (symstr(k[1]), 'div' if k[0] == 'q' else 'mod', k[2])
    if k[0] == 'div':
        return '(%r) div %d' % (k[1], k[2])
    if k[0] == 'pow2':
        return '2^(%r)' % (k[1],)
    if k[0] == 'seq':
        return '%s[%r]' % (k[1], k[2])
    return '%s#%d' % (k[0], s)
