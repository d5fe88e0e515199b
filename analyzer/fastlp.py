"""Front end of simplex.c; answers None when the native test is unavailable or has no answer."""
import ctypes
import os
from array import array
from fractions import Fraction

_lib = None
_path = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'build', 'simplex.so')
try:
    _lib = ctypes.CDLL(os.path.abspath(_path))
    _lib.solve.restype = ctypes.c_int
except OSError:
    _lib = None

LIM = 1 << 120


serial = 0


def empty(rows, bounds, idx=None):
    """rows: [(dict, c)] meaning sum + c >= 0.  True: empty, False: not empty, None: no answer"""
    if _lib is None:
        return None
    global serial
    serial += 1
    idx = {} if idx is None else idx
    start = array('i', [0])
    col = array('i')
    coef = bytearray()
    rlo = bytearray()
    k = 0
    try:
        for a, c in rows:
            for v, co in a.items():
                i = idx.get(v)
                if i is None:
                    i = idx[v] = len(idx)
                col.append(i)
                coef += co.to_bytes(16, 'little', signed=True)
                k += 1
            start.append(k)
            rlo += (-c).to_bytes(16, 'little', signed=True)
        flags = bytearray()
        lo = bytearray()
        hi = bytearray()
        for v in idx:
            x, y = bounds.get(v, (None, None))
            flags.append((x is not None) | (2 if y is not None else 0))
            lo += int(x or 0).to_bytes(16, 'little', signed=True)
            hi += int(y or 0).to_bytes(16, 'little', signed=True)
    except OverflowError:
        return None
    n, m = len(idx), len(rows)

    def buf(b):
        return (ctypes.c_char * max(len(b), 16)).from_buffer_copy(b if len(b) >= 16 else b + bytes(16))
    r = _lib.solve(n, m, ctypes.c_void_p(start.buffer_info()[0]), ctypes.c_void_p(col.buffer_info()[0]),
                   aligned(coef), aligned(rlo), buf(flags), aligned(lo), aligned(hi))
    return None if r == 2 else r == 0


class Session:
    """the constraints of one test, ready for further rows; valid until the next call of `empty`"""

    def __init__(self, rows, bounds):
        global serial
        self.idx = {}
        r = empty(rows, bounds, self.idx)
        self.ok = r is False
        self.none = r
        self.serial = serial
        if self.ok:
            out = (ctypes.c_double * max(len(self.idx), 1))()
            _lib.point(out)
            self.at = dict(zip(self.idx, out))

    def near(self):
        """the point with fractions in place of what is not an integer"""
        n = len(self.idx)
        raw = ctypes.create_string_buffer(16 * n + 16)
        ad = ctypes.addressof(raw)
        off = (-ad) % 16
        fl = (ctypes.c_char * max(n, 1))()
        _lib.point_floor(ctypes.c_void_p(ad + off), fl)
        out = {}
        for i, v in enumerate(self.idx):
            q = int.from_bytes(raw.raw[off + 16 * i:off + 16 * i + 16], 'little', signed=True)
            out[v] = q if fl[i] == b'\0' else Fraction(2 * q + 1, 2)
        return out

    def excluded(self, terms, c):
        """does sum + c >= 0 contradict the constraints?  None: no answer"""
        if self.serial != serial:
            return None
        col = array('i')
        coef = bytearray()
        try:
            for v, k in terms:
                col.append(self.idx[v])
                coef += k.to_bytes(16, 'little', signed=True)
            lo = (-c).to_bytes(16, 'little', signed=True)
        except (OverflowError, KeyError):
            return None
        r = _lib.probe(len(col), ctypes.c_void_p(col.buffer_info()[0]), aligned(coef), aligned(lo))
        return None if r == 2 else r == 0


def aligned(b):
    """16-byte aligned copy"""
    n = max(len(b), 16)
    raw = ctypes.create_string_buffer(n + 16)
    ad = ctypes.addressof(raw)
    off = (-ad) % 16
    ctypes.memmove(ad + off, bytes(b), len(b))
    p = ctypes.c_void_p(ad + off)
    p._keep = raw
    return p
