"""Abstract interpretation of resolved, monomorphised MIR."""
import json
import sys
from lin import Lin, SYMS, ZERO, ONE, con, sym, intern, fresh, INF
import state
from state import State, NeedSplit, Undecided, Infeasible, pc, ARRS, mkpow2
from values import *
import values

sys.setrecursionlimit(20000)
M64 = (1 << 64) - 1


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.fns = d['fns']
        self.T = {int(k): v for k, v in d['types'].items()}
        self.calls = {int(k): v for k, v in d['calls'].items()}
        self.closures = {int(k): v for k, v in d['closures'].items()}
        self.allocs = {int(k): v for k, v in d['allocs'].items()}
        self.roots = {r['name']: r['fn'] for r in d['roots']}
        self.byname = {}
        for k, f in self.fns.items():
            f['key'] = k
        self.cfg = {}
        self.zst = {}
        for i, t in self.T.items():
            t['id'] = i

    def tname(self, i):
        return self.T[i]['name']


class Loop:
    __slots__ = ('head', 'blocks', 'id')

    def __init__(self, head, blocks):
        self.head, self.blocks = head, blocks


class Cfg:
    """block structure of one body: successors, reverse postorder, natural loops, liveness"""

    def __init__(self, body):
        self.body = body
        bl = body['blocks']
        n = len(bl)
        self.succ = [self.successors(b['terminator']['kind']) for b in bl]
        seen = [False] * n
        post = []
        stack = [(0, iter(self.succ[0]))]
        seen[0] = True
        while stack:
            u, it = stack[-1]
            for v in it:
                if not seen[v]:
                    seen[v] = True
                    stack.append((v, iter(self.succ[v])))
                    break
            else:
                post.append(u)
                stack.pop()
        rpo = post[::-1]
        self.rpo = {b: i for i, b in enumerate(rpo)}
        pred = {b: [] for b in rpo}
        for u in rpo:
            for v in self.succ[u]:
                pred[v].append(u)
        self.pred = pred
        # dominators
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in rpo[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        new = p if new is None else self._inter(idom, p, new)
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.loops = {}
        for u in rpo:
            for v in self.succ[u]:
                if self._dom(idom, v, u):
                    lp = self.loops.setdefault(v, Loop(v, {v}))
                    work = [u]
                    while work:
                        x = work.pop()
                        if x not in lp.blocks:
                            lp.blocks.add(x)
                            work.extend(pred[x])
        self.live = self._liveness(rpo)

    def _inter(self, idom, a, b):
        r = self.rpo
        while a != b:
            while r[a] > r[b]:
                a = idom[a]
            while r[b] > r[a]:
                b = idom[b]
        return a

    def _dom(self, idom, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]

    @staticmethod
    def successors(k):
        if isinstance(k, str):
            return []
        (n, v), = k.items()
        if n == 'Goto':
            return [v['target']]
        if n == 'SwitchInt':
            return [b for _, b in v['targets']['branches']] + [v['targets']['otherwise']]
        if n in ('Drop', 'Assert'):
            return [v['target']]
        if n == 'Call':
            return [v['target']] if v['target'] is not None else []
        return []

    def _liveness(self, rpo):
        """locals live at block entry; locals whose address is taken are always live"""
        body = self.body
        addr = set()
        use, deff = {}, {}

        def places(o, out):
            if isinstance(o, dict):
                if 'local' in o and 'projection' in o:
                    out.append(o)
                    for p in o['projection']:
                        if isinstance(p, dict) and 'Index' in p:
                            out.append({'local': p['Index'], 'projection': []})
                    return
                for v in o.values():
                    places(v, out)
            elif isinstance(o, list):
                for v in o:
                    places(v, out)

        for b in rpo:
            bb = body['blocks'][b]
            u, d = set(), set()

            def reads(o):
                ps = []
                places(o, ps)
                for p in ps:
                    if p['local'] not in d:
                        u.add(p['local'])

            for s in bb['statements']:
                k = s['kind']
                if isinstance(k, dict) and 'Assign' in k:
                    pl, rv = k['Assign']
                    if isinstance(rv, dict) and ('Ref' in rv or 'AddressOf' in rv):
                        q = (rv.get('Ref') or rv.get('AddressOf'))[-1]
                        if 'Deref' not in q['projection']:
                            addr.add(q['local'])
                    reads(rv)
                    if pl['projection']:
                        reads(pl)
                    else:
                        d.add(pl['local'])
                elif isinstance(k, dict) and ('StorageLive' in k or 'StorageDead' in k):
                    continue
                else:
                    reads(k)
            t = bb['terminator']['kind']
            if isinstance(t, dict) and 'Call' in t:
                c = t['Call']
                reads(c['func'])
                reads(c['args'])
                if c['destination']['projection']:
                    reads(c['destination'])
                else:
                    d.add(c['destination']['local'])
            elif isinstance(t, dict) and 'Drop' in t:
                pass
            elif t == 'Return':
                reads({'local': 0, 'projection': []})
            else:
                reads(t)
            use[b], deff[b] = u, d
        live = {b: set() for b in rpo}
        changed = True
        while changed:
            changed = False
            for b in reversed(rpo):
                out = set()
                for v in self.succ[b]:
                    out |= live[v]
                new = use[b] | (out - deff[b])
                if new != live[b]:
                    live[b] = new
                    changed = True
        self.addr = addr
        return live


class Panic(Exception):
    def __init__(self, msg):
        self.msg = msg


class UB(Exception):
    def __init__(self, msg):
        self.msg = msg


class Diverge(Exception):
    """execution does not continue (allocation failure and the like)"""


class Interp:
    def __init__(self, prog, hooks=None):
        self.p = prog
        self.T = prog.T
        self.steps = 0
        self.depth = 0
        self.stack = []
        self.hooks = hooks
        self.fns_seen = set()
        self.obl = {}           # counts of discharged obligations by kind
        self.panics = []
        self.frozen = False
        self.splits = None          # forms compared with zero while a loop is described
        self.maxsteps = None
        self.constcache = {}
        self.mergemiss = {}
        self.loopstats = {'unrolled': 0, 'generalised': 0, 'truncated': 0}
        import models
        self.models = models.MODELS
        self.imodels = models.INTRINSICS
        self.lookup = {}
        import loops
        self.loopmod = loops
        self.site_override = None
        self.debug = False
        self.contracts = False  # integer vectors by their specification

    # ---- types --------------------------------------------------------------------------------
    def bits(self, ty):
        t = self.T[ty]
        k = t['k']
        if k in ('int', 'uint'):
            return t['bits']
        if k == 'bool':
            return 1
        if k == 'char':
            return 32
        return None

    def rng(self, ty):
        t = self.T[ty]
        k = t['k']
        if k == 'uint':
            return 0, (1 << t['bits']) - 1
        if k == 'int':
            return -(1 << (t['bits'] - 1)), (1 << (t['bits'] - 1)) - 1
        if k == 'bool':
            return 0, 1
        if k == 'char':
            return 0, 0x10ffff
        return None

    def is_zst(self, ty):
        return self.T[ty].get('size') == 0

    def place_ty(self, fr, pl):
        ty = fr.locals[pl['local']]['ty']
        for p in pl['projection']:
            if p == 'Deref':
                t = self.T[ty]
                if t['k'] in ('ref', 'ptr'):
                    ty = t['elem']
                else:   # Box
                    ty = t['args'][0]['ty']
            elif 'Field' in p:
                ty = p['Field'][1]
            elif 'Index' in p or 'ConstantIndex' in p:
                ty = self.T[ty]['elem']
        return ty

    # ---- memory -------------------------------------------------------------------------------
    def new_obj(self, st, v):
        o = ('h', st.nobj)
        st.nobj += 1
        st.mem[o] = v
        return o

    def read_path(self, st, v, path, ty=None):
        for i, p in enumerate(path):
            if p[0] == 'f':
                if not isinstance(v, Adt):
                    if isinstance(v, Top):
                        return v
                    raise Undecided('field of %r' % (v,))
                if p[1] >= len(v.f):
                    raise Undecided('field %r of %r' % (p, v))
                v = v.f[p[1]]
            elif p[0] == 'i':
                if not isinstance(v, Arr):
                    if p[1] is ZERO:
                        continue
                    if isinstance(v, Top):
                        return v
                    L = st.norm(p[1])
                    if L.is_const() and L.c != 0:
                        raise UB('pointer moved outside of its object')
                    if not st.equal(L, ZERO):
                        raise Undecided('index into non-array %r' % (v,))
                    continue
                v = self.arr_read(st, v, p[1])
            elif p[0] == 's':
                v = self.sub_read(st, v, p[1], p[2])
        return v

    def sub_read(self, st, v, size, k):
        k = st.norm(k)
        if not k.is_const():
            raise Undecided('symbolic sub-element offset')
        b = self.as_bits(st, v, None)
        w = size * 8
        if (k.c + 1) * w > len(b) or k.c < 0:
            raise UB('read outside of the pointed-to element')
        return Bits(b[k.c * w:(k.c + 1) * w])

    def write_path(self, st, v, path, val):
        if not path:
            return val
        p = path[0]
        if p[0] == 'f':
            if not isinstance(v, Adt):
                if v is None:
                    v = Adt(0, ())
                else:
                    raise Undecided('field write into %r' % (v,))
            f = list(v.f)
            while len(f) <= p[1]:
                f.append(None)
            f[p[1]] = self.write_path(st, f[p[1]], path[1:], val)
            return Adt(v.var, tuple(f))
        if p[0] == 'i':
            if not isinstance(v, Arr):
                L = st.norm(p[1])
                if L is ZERO:
                    return self.write_path(st, v, path[1:], val)
                if L.is_const():
                    raise UB('pointer moved outside of its object')
                raise Undecided('index write into non-array')
            if len(path) > 1:
                inner = self.arr_read(st, v, p[1])
                val = self.write_path(st, inner, path[1:], val)
            return self.arr_write(st, v, p[1], val)
        if p[0] == 's':
            k = st.norm(p[2])
            if not k.is_const():
                raise Undecided('symbolic sub-element offset')
            w = p[1] * 8
            b = self.as_bits(st, v, None)
            nb = self.as_bits(st, val, w)
            if (k.c + 1) * w > len(b):
                raise UB('write outside of the pointed-to element')
            return Bits(b[:k.c * w] + nb + b[(k.c + 1) * w:])
        raise Undecided('write path %r' % (p,))

    def arr_check(self, st, a, L, what):
        """0 <= L < n is an obligation for raw element accesses"""
        if not st.prove(L):
            raise NeedSplit([[('ge', L)], [('ge', -L - 1), ('ub', '%s at negative index %r' % (what, L))]])
        d = a.n - 1 - L
        if not st.prove(d):
            raise NeedSplit([[('ge', d)], [('ge', -d - 1), ('ub', '%s at index %r of %r elements' % (what, L, a.n))]])

    def arr_read(self, st, a, L):
        L = st.norm(L)
        self.arr_check(st, a, L, 'read')
        skip = 0
        for i, w in enumerate(a.w):
            if i < skip:
                continue
            if w[0] == 'w':
                d = st.norm(L - w[1])
                if not d.t:
                    if d.c == 0:
                        return w[2]
                    continue
                lo, hi = st.iv(d)
                if lo > 0 or hi < 0:
                    continue
                # several writes at constant distances: decide whether any is hit before deciding which
                j, a0, a1 = i + 1, d.c, d.c
                while j < len(a.w) and a.w[j][0] == 'w':
                    e = st.norm(L - a.w[j][1])
                    if e.t != d.t:
                        break
                    a0, a1 = min(a0, e.c), max(a1, e.c)
                    j += 1
                if j > i + 2:
                    up, dn = Lin(a0 - 1, d.t), Lin(-a1 - 1, (-d).t)
                    if st.prove(up) or st.prove(dn):
                        skip = j
                        continue
                    alts = [[('ge', -up - 1), ('ge', -dn - 1)], [('ge', up)], [('ge', dn)]]
                    if not (st.prove(-up - 1) and st.prove(-dn - 1)):
                        raise NeedSplit(alts)
                if st.prove(d - 1) or st.prove(-d - 1):
                    continue
                if st.equal(d, ZERO):
                    st.add_eq(d)
                    return w[2]
                raise NeedSplit([[('eq', d)], [('ge', d - 1)], [('ge', -d - 1)]])
            elif w[0] == 'ev':
                _, tau, T, idx, val, conds = w
                d = L - subst_lin(idx, tau, ZERO)
                e = subst_lin(idx, tau, T) - 1 - L
                if st.prove(-d - 1) or st.prove(-e - 1):
                    continue
                if not (st.prove(d) and st.prove(e)):
                    raise NeedSplit([[('ge', d), ('ge', e)], [('ge', -d - 1)], [('ge', -e - 1)]])
                # the round that appended this element
                x = intern(('v', 'event', (tau, L)), 0, INF)
                X = sym(x)
                if not (st.add_ge(st.norm(T) - 1 - X) and st.add_eq(subst_lin(idx, tau, X) - L)
                        and all(st.add_ge(subst_lin(c, tau, X)) if k == 'ge' else st.add_eq(subst_lin(c, tau, X))
                                for k, c in conds)):
                    raise state.Infeasible()
                return subst_val(val, tau, X)
            else:
                r = w[1]
                d = st.norm(L - r.lo)
                if st.prove(-d - 1):
                    continue
                e = st.norm(r.hi - 1 - L)
                if st.prove(-e - 1):
                    continue
                alts = [('ge', d), ('ge', e)]
                if st.prove(d) and st.prove(e):
                    t = st.div(d, r.stride)
                    off = st.mod(d, r.stride)
                    if not off.is_const():
                        raise NeedSplit(self.enum_alts(st, off))
                    if r.tmpl[off.c] is None:
                        continue
                    return self.instantiate(st, r.tmpl[off.c], r.tsym, t)
                raise NeedSplit([alts, [('ge', -d - 1)], [('ge', -e - 1)]])
        b = a.base
        if b[0] == 'bits':
            w = a.esz * 8
            end = ARRS.get(b[1])
            if end is not None:
                e = st.norm(end - L * w)
                if not e.t and e.c < w:     # later bits are zero
                    k = max(e.c, 0)
                    return Bits(tuple(('b', b[1], L * w + j) for j in range(k)) + (0,) * (w - k))
            return Bits(tuple(('b', b[1], L * w + j) for j in range(w)))
        if b[0] == 'fill':
            return b[1]
        if b[0] == 'seq':
            return state.seq(b[1], L, b[2], b[3])
        if b[0] == 'uninit':
            raise UB('read of uninitialised element %r' % L)
        return Top('array element')

    def instantiate(self, st, v, tsym, t):
        return subst_val(v, tsym, t)

    def arr_write(self, st, a, L, val):
        L = st.norm(L)
        self.arr_check(st, a, L, 'write')
        return Arr(a.n, a.esz, a.ety, a.base, self.log_write(st, a.w, L, val))

    def log_write(self, st, log, L, val):
        # replace an existing write to the same index when no run intervenes ambiguously
        for i, w in enumerate(log):
            if w[0] != 'w':
                break
            d = st.norm(L - w[1])
            if not d.t and d.c == 0:
                return log[:i] + (('w', L, val),) + log[i + 1:]
            if d.t:
                lo, hi = st.iv(d)
                if lo <= 0 <= hi:
                    break
        return (('w', L, val),) + log

    def enum_alts(self, st, L, limit=130):
        """alternatives fixing a small symbol of L to constants"""
        L = st.norm(L)
        best = None
        todo = [s for s, _ in L.t]
        for s in todo:
            if SYMS[s].kind == 'div':
                todo.extend(x for x, _ in st.norm(SYMS[s].key[1]).t)
                continue
            lo, hi = st.sb(s)
            if lo == -INF or hi == INF:
                continue
            if best is None or hi - lo < best[0]:
                best = (hi - lo, s, lo, hi)
        if best is None or best[0] > limit:
            raise Undecided('cannot enumerate %r' % (L,))
        _, s, lo, hi = best
        return [[('eq', sym(s) - v)] for v in range(int(lo), int(hi) + 1)]

    def load(self, st, loc, ty=None):
        obj, path = loc.obj, loc.path
        v = st.mem.get(obj)
        if v is None:
            if obj is None:
                raise UB('dereference of a dangling pointer')
            raise Undecided('read of unset object %r' % (obj,))
        v = self.read_path(st, v, path)
        if v is None:
            raise Undecided('read of unset value at %r' % (loc,))
        return v

    def store(self, st, loc, val):
        obj, path = loc.obj, loc.path
        if obj is None:
            raise UB('write through a dangling pointer')
        if self.frozen:
            self.check_frozen(st, obj)
        if not path:
            st.mem[obj] = val
        else:
            v = st.mem.get(obj)
            st.mem[obj] = self.write_path(st, v, path, val)

    def check_frozen(self, st, obj):
        """obligation: a store goes neither to an object shared with others nor to a static"""
        for e in st.log:
            if e[0] == 'frozen' and (obj in e[1] or isinstance(obj, tuple) and obj[0] == 'a'):
                self.hooks.failed(self, st, 'store to memory reached through a shared reference')
                raise Diverge()

    def as_ptr(self, v):
        """find the pointer inside Box/NonNull/Unique/ref wrappers"""
        while isinstance(v, Adt):
            if not v.f:
                break
            v = v.f[0]
        if isinstance(v, Ptr):
            return v
        raise Undecided('not a pointer: %r' % (v,))

    def place(self, st, fr, pl, write=False):
        """location of a place as a Ptr"""
        loc = Ptr((fr.id, pl['local']))
        ty = fr.locals[pl['local']]['ty']
        for p in pl['projection']:
            if p == 'Deref':
                v = self.load(st, loc)
                t = self.T[ty]
                loc = self.as_ptr(v)
                ty = t['elem'] if t['k'] in ('ref', 'ptr') else t['args'][0]['ty']
                loc = self.retype(st, loc, ty)
            elif 'Field' in p:
                i, fty = p['Field']
                if self.T[ty].get('adt') == 'union':
                    i = 0
                loc = Ptr(loc.obj, loc.path + (('f', i),), loc.meta)
                ty = fty
            elif 'Index' in p:
                L = self.as_lin(st, self.load(st, Ptr((fr.id, p['Index']))))
                loc, ty = self.index(st, loc, L, ty)
            elif 'ConstantIndex' in p:
                ci = p['ConstantIndex']
                if ci['from_end']:
                    L = self.slice_len(st, loc, ty) - ci['offset']
                else:
                    L = con(ci['offset'])
                loc, ty = self.index(st, loc, L, ty)
            elif 'Subslice' in p:
                ss = p['Subslice']
                n = self.slice_len(st, loc, ty)
                to = n - ss['to'] if ss['from_end'] else con(ss['to'])
                loc = Ptr(loc.obj, self.bump(loc.path, con(ss['from'])), to - ss['from'])
            elif 'Downcast' in p:
                pass
            else:
                raise Undecided('projection %r' % (p,))
        return loc

    def retype(self, st, loc, ty):
        """a pointer whose static pointee is smaller than the array element: sub-element view"""
        if loc.meta is not None or not loc.path:
            return self.maybe_sub(st, loc, ty)
        return self.maybe_sub(st, loc, ty)

    def maybe_sub(self, st, loc, ty):
        if loc.path and loc.path[-1][0] == 's':
            sz = self.T[ty].get('size')
            if sz == loc.path[-1][1]:
                return loc
            raise Undecided('mixed size pointer view')
        t = self.T[ty]
        if t['k'] not in ('uint', 'int'):
            return loc
        sz = t.get('size')
        if loc.path and loc.path[-1][0] == 'i':
            a = self.read_arr(st, loc)
            if a is not None and a.esz != sz and a.esz:
                if a.esz > sz:
                    return Ptr(loc.obj, loc.path + (('s', sz, ZERO),), loc.meta)
                raise Undecided('pointer view wider than the element')
        elif loc.obj is not None:
            v = st.mem.get(loc.obj)
            try:
                v = self.read_path(st, v, loc.path) if v is not None else None
            except (NeedSplit, Undecided):
                v = None
            if isinstance(v, Bits) and len(v.b) > sz * 8:
                return Ptr(loc.obj, loc.path + (('s', sz, ZERO),), loc.meta)
        return loc

    def read_arr(self, st, loc):
        v = st.mem.get(loc.obj)
        if v is None:
            return None
        v = self.read_path(st, v, loc.path[:-1])
        return v if isinstance(v, Arr) else None

    def bump(self, path, L):
        if path and path[-1][0] == 'i':
            return path[:-1] + (('i', path[-1][1] + L),)
        return path + (('i', L),)

    def slice_len(self, st, loc, ty):
        t = self.T[ty]
        if t['k'] == 'array':
            return con(t['len'])
        return loc.meta

    def index(self, st, loc, L, ty):
        t = self.T[ty]
        n = self.slice_len(st, loc, ty)
        ety = t['elem']
        path = loc.path
        if t['k'] == 'array':
            return Ptr(loc.obj, path + (('i', L),)), ety
        return Ptr(loc.obj, self.bump(path, L)), ety

    # ---- value conversion ---------------------------------------------------------------------
    def as_lin(self, st, v):
        if isinstance(v, Lin):
            return st.norm(v)
        if isinstance(v, Bits):
            return bits_to_lin(st, st.norm_bits(v.b))
        if isinstance(v, Cond):
            r = self.truth(st, v)
            return con(1 if r else 0)
        if isinstance(v, LAZY):
            return self.as_lin(st, self.force(st, v))
        if isinstance(v, Adt) and len(v.f) == 1:
            return self.as_lin(st, v.f[0])
        raise Undecided('not an integer: %r' % (v,))

    def as_bits(self, st, v, n):
        if isinstance(v, Bits):
            b = v.b
            if n is None or len(b) == n:
                return st.norm_bits(b)
            if len(b) < n:
                return st.norm_bits(b) + (0,) * (n - len(b))
            return st.norm_bits(b[:n])
        if isinstance(v, LAZY):
            return self.as_bits(st, self.force(st, v), n)
        L = self.as_lin(st, v)
        if n is None:
            raise Undecided('bit string of unknown width')
        lo, hi = st.iv(L)
        if lo < 0 and hi < 0:
            L = L + (1 << n)
        elif lo < 0 and not st.prove(L):
            raise NeedSplit([[('ge', L)], [('ge', -L - 1)]])
        elif lo < 0 and L.is_const():
            pass
        return lin_to_bits(st, L, n)

    def force(self, st, v):
        """bit string of a lazily represented word (fixes the symbolic position)"""
        if isinstance(v, ShrW):
            k = st.norm(v.k)
            if not k.is_const():
                raise NeedSplit(self.enum_alts(st, k))
            b = self.as_bits(st, v.w, v.n)
            return Bits(b[k.c:] + (0,) * k.c)
        e = st.norm(v.e)
        if isinstance(v, SelBit):
            b = src_lin(st, self.bit_at(st, v.w, e))
            if not b.is_const():
                raise NeedSplit([[('eq', b)], [('eq', b - 1)]])
            return mkpow2(st, e) if b.c else ZERO
        if not e.is_const():
            raise NeedSplit(self.enum_alts(st, e))
        b = self.as_bits(st, v.w, None if not isinstance(v, BitUpd) else v.n)
        if isinstance(v, LowMask):
            return Bits(b[:e.c] + (0,) * (len(b) - e.c))
        return Bits(b[:e.c] + (v.s,) + b[e.c + 1:])

    def bit_at(self, st, w, e):
        """source of bit e of a word"""
        e = st.norm(e)
        if isinstance(w, BitUpd):
            d = st.norm(e - w.e)
            if d is ZERO or st.equal(d, ZERO):
                return w.s
            if st.prove(d - 1) or st.prove(-d - 1):
                return self.bit_at(st, w.w, e)
            raise NeedSplit([[('eq', d)], [('ge', d - 1)], [('ge', -d - 1)]])
        if isinstance(w, LowMask):
            d = st.norm(w.e - 1 - e)
            if st.prove(d):
                return self.bit_at(st, w.w, e)
            if st.prove(-d - 1):
                return 0
            raise NeedSplit([[('ge', d)], [('ge', -d - 1)]])
        if isinstance(w, ShrW):
            d = st.norm(con(w.n - 1) - w.k - e)
            if st.prove(d):
                return self.bit_at(st, w.w, e + w.k)
            if st.prove(-d - 1):
                return 0
            raise NeedSplit([[('ge', d)], [('ge', -d - 1)]])
        if isinstance(w, Bits):
            if e.is_const():
                return st.norm_src(w.b[e.c]) if e.c < len(w.b) else 0
            bs = st.norm_bits(w.b)
            u = self.uniform(st, bs)
            if u is not None:
                return ('b', u[0], st.norm(u[1] + e))
            if all(b == bs[0] for b in bs):
                return bs[0]
            u = self.uniform(st, tuple(bnot(b) for b in bs))
            if u is not None:
                return bnot(('b', u[0], st.norm(u[1] + e)))
            raise NeedSplit(self.enum_alts(st, e))
        L = self.as_lin(st, w)
        if L is ZERO:
            return 0
        if not e.is_const():
            raise NeedSplit(self.enum_alts(st, e))
        return lin_to_bits(st, L, max(e.c + 1, 128))[e.c]

    # ---- booleans -----------------------------------------------------------------------------
    def cond_constraints(self, st, c, positive):
        """list of alternatives (each a constraint list) equivalent to c == positive"""
        if c.neg:
            positive = not positive
        if c.k == 'ge':
            return [[('ge', c.a)]] if positive else [[('ge', -c.a - 1)]]
        if c.k == 'eq':
            if positive:
                return [[('eq', c.a)]]
            return [[('ge', c.a - 1)], [('ge', -c.a - 1)]]
        if c.k == 'any':
            if positive:
                acc = ZERO
                for b in c.a:
                    acc = acc + src_lin(st, b)
                return [[('ge', acc - 1)]]
            return [[('eq', src_lin(st, b)) for b in c.a]]
        raise Undecided('condition %r' % (c,))

    def truth_opt(self, st, v):
        """True / False / None"""
        if isinstance(v, Lin):
            L = st.norm(v)
            if not L.t:
                return L.c != 0
            v = Cond('ge', L - 1)
        elif isinstance(v, Bits):
            return self.truth_opt(st, self.as_lin(st, v))
        if isinstance(v, Top):
            return None
        if not isinstance(v, Cond):
            raise Undecided('not a boolean: %r' % (v,))
        if v.k == 'ge':
            L = st.norm(v.a)
            if st.prove(L):
                return not v.neg
            if st.prove(-L - 1):
                return v.neg
            return None
        if v.k == 'eq':
            L = st.norm(v.a)
            if not L.t:
                return (L.c == 0) != v.neg
            if st.prove(L - 1) or st.prove(-L - 1):
                return v.neg
            if self.gcd_nonzero(L):
                return v.neg
            if st.prove(L) and st.prove(-L):
                return not v.neg
            return None
        if v.k == 'any':
            bs = [st.norm_src(b) for b in v.a]
            if any(b == 1 for b in bs):
                return not v.neg
            bs = [b for b in bs if b != 0]
            bs = [b for b in bs if drop_beyond(st, b) != 0]
            if not bs:
                return v.neg
            acc = ZERO
            for b in bs:
                acc = acc + src_lin(st, b)
            acc = st.norm(acc)
            if st.prove(acc - 1):
                return not v.neg
            if st.prove(-acc):
                return v.neg
            return None
        raise Undecided('condition %r' % (v,))

    def gcd_nonzero(self, L):
        from math import gcd
        g = 0
        for _, k in L.t:
            g = gcd(g, k)
        return L.c % g != 0

    def truth(self, st, v):
        r = self.truth_opt(st, v)
        if r is None:
            if isinstance(v, Top):
                raise Undecided('branch on unknown value (%s)' % v.why)
            if isinstance(v, (Lin, Bits)):
                v = Cond('ge', self.as_lin(st, v) - 1)
            raise NeedSplit(self.cond_constraints(st, v, True) + self.cond_constraints(st, v, False))
        return r

    def bnot_val(self, st, v):
        if isinstance(v, Cond):
            return Cond(v.k, v.a, not v.neg)
        return ONE - self.as_lin(st, v)

    # ---- constants ----------------------------------------------------------------------------
    def constant(self, c):
        k = c['const_']
        ty = k['ty']
        key = k['id']
        r = self.constcache.get(key)
        if r is None:
            r = self.decode_const(k['kind'], ty)
            self.constcache[key] = r
        return r

    def decode_const(self, kind, ty):
        t = self.T[ty]
        if kind == 'ZeroSized' or t.get('size') == 0:
            return self.zst_value(ty)
        if isinstance(kind, dict) and 'Allocated' in kind:
            a = kind['Allocated']
            return self.decode_bytes(a, 0, ty)
        if isinstance(kind, dict) and 'Ty' in kind:
            # const generic value
            tc = kind['Ty']['kind'] if 'kind' in kind['Ty'] else kind['Ty']
            if isinstance(tc, dict) and 'Value' in tc:
                vty, al = tc['Value']
                return self.decode_bytes(al, 0, ty)
            if isinstance(tc, dict) and 'ZSTValue' in tc:
                return self.zst_value(ty)
        return Top('constant %s' % t['name'])

    def zst_value(self, ty):
        t = self.T[ty]
        if t['k'] == 'fndef':
            return Adt(0, ())
        if t['k'] == 'adt' and t['adt'] == 'struct':
            return Adt(0, tuple(self.zst_value(f[1]) for f in t['variants'][0]['fields']))
        if t['k'] in ('tuple', 'closure'):
            return Adt(0, tuple(self.zst_value(f) for f in t.get('fields', ())))
        if t['k'] == 'array':
            return Arr(con(t['len'] or 0), 0, t['elem'], ('uninit',))
        lay = t.get('enum_layout') or {}
        if 'single' in lay:
            return Adt(lay['single'], tuple(self.zst_value(f[1]) for f in t['variants'][lay['single']]['fields']))
        return Adt(0, ())

    def decode_bytes(self, a, off, ty):
        t = self.T[ty]
        k = t['k']
        sz = t.get('size')
        if sz == 0:
            return self.zst_value(ty)
        bs = a['bytes'][off:off + sz] if sz is not None else []
        if k in ('uint', 'int', 'bool', 'char'):
            if any(b is None for b in bs):
                return Top('uninit const')
            n = sum(b << (8 * i) for i, b in enumerate(bs))
            if k == 'int' and n >> (t['bits'] - 1):
                n -= 1 << t['bits']
            return con(n)
        if k == 'float' and sz == 8:
            import struct
            f = struct.unpack('<d', bytes(bs))[0]
            from fractions import Fraction
            if f != f or f in (INF, -INF):
                return Top('float')
            fr = Fraction(f)
            return FVal(con(fr.numerator), fr.denominator)
        if k in ('ref', 'ptr'):
            prov = {p[0]['size'] if isinstance(p[0], dict) else p[0]: p[1] for p in a['provenance']['ptrs']}
            et = self.T[t['elem']]
            meta = None
            if sz == 16:
                mb = a['bytes'][off + 8:off + 16]
                if any(b is None for b in mb):
                    return Top('const ptr')
                meta = con(sum(b << (8 * i) for i, b in enumerate(mb)))
            if off not in prov:
                return Ptr(None, (), meta)
            al = prov[off]
            return Ptr(('a', al, t['elem'] if et['k'] not in ('slice', 'str') else ('slice', et.get('elem'))),
                       (('i', ZERO),) if meta is not None else (), meta)
        if k == 'adt' and t['adt'] == 'struct' or k == 'tuple':
            fs = [f[1] for f in t['variants'][0]['fields']] if k == 'adt' else t['fields']
            offs = t.get('offsets')
            if offs is None:
                return Top('const layout')
            return Adt(0, tuple(self.decode_bytes(a, off + o, f) for f, o in zip(fs, offs)))
        if k == 'adt' and t['adt'] == 'union':
            return Adt(0, (self.decode_bytes(a, off, t['variants'][0]['fields'][0][1]),)) \
                if len(t['variants'][0]['fields']) == 1 else Top('const union')
        if k == 'array':
            es = self.T[t['elem']]['size']
            els = tuple(self.decode_bytes(a, off + i * es, t['elem']) for i in range(t['len']))
            return Arr(con(t['len']), es, t['elem'], ('uninit',),
                       tuple(('w', con(i), e) for i, e in enumerate(els)))
        if k == 'adt' and t['adt'] == 'enum':
            r = self.decode_enum(a, off, t)
            if r is not None:
                return r
        return Top('const %s' % t['name'])

    def decode_enum(self, a, off, t):
        lay = t.get('enum_layout')
        if not lay:
            return None
        if 'single' in lay:
            vi = lay['single']
        else:
            tb = a['bytes'][off + lay['tag_off']:off + lay['tag_off'] + lay['tag_size']]
            if any(b is None for b in tb):
                return None
            n = sum(b << (8 * i) for i, b in enumerate(tb))
            if lay['niche'] is None:
                vi = None
                for i, v in enumerate(t['variants']):
                    if int(v['discr']) & ((1 << (8 * lay['tag_size'])) - 1) == n:
                        vi = i
                if vi is None:
                    return None
            else:
                nz = lay['niche']
                # provenance in the tag means the untagged variant
                provs = {p[0]['size'] if isinstance(p[0], dict) else p[0] for p in a['provenance']['ptrs']}
                rel = (n - int(nz['start'])) & ((1 << (8 * lay['tag_size'])) - 1)
                if off + lay['tag_off'] not in provs and rel <= nz['hi'] - nz['lo']:
                    vi = nz['lo'] + rel
                else:
                    vi = nz['untagged']
        fs = t['variants'][vi]['fields']
        offs = lay['offsets'][vi]
        return Adt(vi, tuple(self.decode_bytes(a, off + o, f[1]) for f, o in zip(fs, offs)))

    def alloc_value(self, key):
        _, al, what = key
        a = self.p.allocs.get(al)
        if not a or 'memory' not in a:
            return Top('static')
        m = a['memory']
        if isinstance(what, tuple):
            if what[1] is None:
                return Top('str')
            es = self.T[what[1]]['size']
            if not es:
                return Top('slice')
            n = len(m['bytes']) // es
            return Arr(con(n), es, what[1], ('uninit',),
                       tuple(('w', con(i), self.decode_bytes(m, i * es, what[1])) for i in range(n)))
        return self.decode_bytes(m, 0, what)

    # ---- operands / rvalues -------------------------------------------------------------------
    def operand(self, st, fr, o):
        (k, v), = o.items()
        if k == 'Copy' or k == 'Move':
            if not v['projection']:
                r = st.mem.get((fr.id, v['local']))
                if r is None:
                    if self.is_zst(fr.locals[v['local']]['ty']):
                        return self.zst_value(fr.locals[v['local']]['ty'])
                    raise Undecided('read of unset local _%d in %s' % (v['local'], fr.name))
                return r
            loc = self.place(st, fr, v)
            ty = self.place_ty(fr, v)
            if self.is_zst(ty):
                return self.zst_value(ty)
            if loc.meta is not None and self.T[ty]['k'] in ('slice', 'str'):
                raise Undecided('unsized copy')
            self.fix_alloc(st, loc)
            return self.load(st, loc)
        if k == 'Constant':
            r = self.constant(v)
            if isinstance(r, Ptr) and r.obj is not None and r.obj not in st.mem:
                st.mem[r.obj] = self.alloc_value(r.obj)
            return r
        if k == 'RuntimeChecks':
            if v == 'UbChecks':
                return ONE
            if v == 'OverflowChecks':
                return ONE if self.overflow_checks else ZERO
            return ZERO
        raise Undecided('operand %s' % k)

    overflow_checks = True

    def fix_alloc(self, st, loc):
        if loc.obj is not None and loc.obj not in st.mem and isinstance(loc.obj, tuple) and loc.obj[0] == 'a':
            st.mem[loc.obj] = self.alloc_value(loc.obj)

    def op_ty(self, fr, o):
        (k, v), = o.items()
        if k == 'Constant':
            return v['const_']['ty']
        if k == 'RuntimeChecks':
            return None
        return self.place_ty(fr, v)

    def rvalue(self, st, fr, rv, dty):
        (k, v), = rv.items()
        if k == 'Use':
            return self.operand(st, fr, v[0] if isinstance(v, list) else v)
        if k == 'Ref' or k == 'AddressOf' or k == 'RawPtr':
            return self.place(st, fr, v[-1])
        if k == 'BinaryOp':
            op, a, b = v
            ta = self.op_ty(fr, a)
            return self.binop(st, op, self.operand(st, fr, a), self.operand(st, fr, b), ta, dty, self.op_ty(fr, b))
        if k == 'CheckedBinaryOp':
            op, a, b = v
            ta = self.op_ty(fr, a)
            x, y = self.as_lin(st, self.operand(st, fr, a)), self.as_lin(st, self.operand(st, fr, b))
            r = self.arith(st, op, x, y)
            lo, hi = self.rng(ta)
            return self.with_overflow(st, r, lo, hi)
        if k == 'UnaryOp':
            op, a = v
            x = self.operand(st, fr, a)
            if op == 'Not':
                if self.T[dty]['k'] == 'bool':
                    return self.bnot_val(st, x)
                n = self.bits(dty)
                if isinstance(x, Lin):
                    lo, hi = self.rng(dty)
                    return con(hi) - x if lo == 0 else con(-1) - x
                return Bits(tuple(bnot(b) for b in self.as_bits(st, x, n)))
            if op == 'Neg':
                if isinstance(x, FVal):
                    return FVal(-x.num, x.den)
                return -self.as_lin(st, x)
            if op == 'PtrMetadata':
                p = self.as_ptr(x)
                return p.meta if p.meta is not None else UNIT
            raise Undecided('unary %s' % op)
        if k == 'Cast':
            ck, a, ty = v
            return self.cast(st, ck, self.operand(st, fr, a), self.op_ty(fr, a), ty)
        if k == 'Aggregate':
            ak, ops = v
            vals = tuple(self.operand(st, fr, o) for o in ops)
            return self.aggregate(st, ak, vals, dty)
        if k == 'Discriminant':
            ty = self.place_ty(fr, v)
            lay = self.T[ty].get('enum_layout') or {}
            if 'single' in lay:
                return con(self.discr_val(self.T[ty], lay['single']))
            x = self.load(st, self.place(st, fr, v))
            return self.discriminant(st, x, ty)
        if k == 'Len':
            loc = self.place(st, fr, v)
            return self.slice_len(st, loc, self.place_ty(fr, v))
        if k == 'CopyForDeref':
            return self.operand(st, fr, {'Copy': v})
        if k == 'Repeat':
            x = self.operand(st, fr, v[0])
            t = self.T[dty]
            return Arr(con(t['len']), self.T[t['elem']].get('size', 0), t['elem'], ('fill', x))
        raise Undecided('rvalue %s' % k)

    def discriminant(self, st, x, ty):
        t = self.T[ty]
        if isinstance(x, Adt) and t['k'] == 'adt' and t['adt'] == 'enum':
            return con(self.discr_val(t, x.var))
        if isinstance(x, Top):
            return x
        if t['k'] == 'adt' and t['adt'] == 'enum' and isinstance(x, Lin):
            return x    # C-like enum kept as its discriminant
        return ZERO

    def discr_val(self, t, var):
        n = int(t['variants'][var]['discr'])
        return n

    def aggregate(self, st, ak, vals, dty):
        if isinstance(ak, str):
            if ak == 'Tuple':
                return Adt(0, vals)
            raise Undecided('aggregate %s' % ak)
        (k, v), = ak.items()
        if k == 'Adt':
            if self.T[dty].get('adt') == 'union':
                return Adt(0, vals)
            return Adt(v[1], vals)
        if k == 'Array':
            t = self.T[dty]
            return Arr(con(len(vals)), self.T[t['elem']].get('size', 0), t['elem'], ('uninit',),
                       tuple(('w', con(i), e) for i, e in enumerate(vals)))
        if k == 'Closure':
            return Adt(0, vals)
        if k == 'RawPtr':
            p = self.as_ptr(vals[0])
            m = vals[1]
            if isinstance(m, Adt):
                return Ptr(p.obj, p.path, None)
            path = p.path if p.path and p.path[-1][0] == 'i' else p.path + (('i', ZERO),)
            return Ptr(p.obj, path, self.as_lin(st, m))
        raise Undecided('aggregate %s' % k)

    def with_overflow(self, st, r, lo, hi):
        """(wrapped value, overflow flag) of an exact result"""
        if st.learn(r - lo) and st.learn(con(hi) - r):
            return Adt(0, (r, ZERO))
        a, b = st.iv(r)
        if b < lo or a > hi or st.prove(con(lo - 1) - r) or st.prove(r - (hi + 1)):
            return Adt(0, (self.wrap(st, r, lo, hi), ONE))
        alts = [[('ge', r - lo), ('ge', con(hi) - r)]]
        if a < lo:
            alts.append([('ge', con(lo - 1) - r)])
        if b > hi:
            alts.append([('ge', r - (hi + 1))])
        raise NeedSplit(alts)

    def wrap(self, st, r, lo, hi):
        m = hi - lo + 1
        if st.learn(r - lo) and st.learn(con(hi) - r):
            return r
        a, b = st.iv(r)
        if a >= lo - m and b <= hi + m:
            if st.prove(r - (hi + 1)):
                return r - m
            if st.prove(con(lo - 1) - r):
                return r + m
            alts = [[('ge', r - lo), ('ge', con(hi) - r)]]
            if a < lo:
                alts.append([('ge', con(lo - 1) - r)])
            if b > hi:
                alts.append([('ge', r - (hi + 1))])
            raise NeedSplit(alts)
        if lo == 0:
            return st.mod(r, m)
        return st.mod(r - lo, m) + lo

    def arith(self, st, op, x, y):
        if op == 'Add':
            return x + y
        if op == 'Sub':
            return x - y
        if op == 'Mul':
            return self.mul(st, x, y)
        raise Undecided('checked %s' % op)

    def mul(self, st, x, y):
        x, y = st.norm(x), st.norm(y)
        if x.is_const():
            return y * x.c
        if y.is_const():
            return x * y.c
        # partition on the operand with the smaller range
        try:
            raise NeedSplit(self.enum_alts(st, y, 64))
        except Undecided:
            pass
        try:
            raise NeedSplit(self.enum_alts(st, x, 64))
        except Undecided:
            pass
        (a, b), (c, d) = st.iv(x), st.iv(y)
        if a >= 0 and c >= 0:
            f = fresh('mul', a * c, b * d if b != INF and d != INF else INF, True)
            return sym(f)
        raise Undecided('product of unknowns')

    def binop(self, st, op, a, b, ta, dty, tb=None):
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return self.compare(st, op, a, b, ta)
        if isinstance(a, FVal) or isinstance(b, FVal):
            return self.float_op(st, op, a, b)
        if op == 'Offset':
            return self.ptr_offset(st, self.as_ptr(a), self.as_lin(st, b), self.T[ta]['elem'])
        if isinstance(a, Top) or isinstance(b, Top):
            return Top('arith')
        if op == 'Cmp':
            x, y = self.as_lin(st, a), self.as_lin(st, b)
            d = st.norm(x - y)
            if st.prove(-d - 1):
                return Adt(0, ())
            if st.prove(d - 1):
                return Adt(2, ())
            if st.equal(d, ZERO):
                return Adt(1, ())
            raise NeedSplit([[('ge', -d - 1)], [('eq', d)], [('ge', d - 1)]])
        rg = self.rng(ta)
        if rg is None:
            raise Undecided('binop %s on %s' % (op, self.T[ta]['name']))
        lo, hi = rg
        n = self.bits(ta)
        if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            unch = op.endswith('Unchecked')
            o = op[:3]
            r = self.arith(st, o, self.as_lin(st, a), self.as_lin(st, b))
            r = st.norm(r)
            if unch:
                w = self.with_overflow(st, r, lo, hi)
                if w.f[1] is ONE:
                    raise UB('unchecked arithmetic overflow')
                return w.f[0]
            return self.wrap(st, r, lo, hi)
        if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            return self.shift(st, op, a, b, n, lo, hi)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            return self.bitop(st, op, a, b, n, self.T[ta]['k'], lo, hi)
        if op in ('Div', 'Rem'):
            x, y = self.as_lin(st, a), self.as_lin(st, b)
            if not y.is_const():
                try:
                    alts = self.enum_alts(st, y, 130)
                except Undecided:
                    alts = None
                if alts:
                    raise NeedSplit(alts)
                if op == 'Div' and st.prove(x) and st.prove(y - 1):
                    q = sym(fresh('quot', 0, st.iv(x)[1], True))
                    st.add_ge(x - q)
                    return q
                raise Undecided('division by unknown %r' % y)
            if y.c <= 0:
                raise Undecided('division by %d' % y.c)
            if lo < 0 and not st.prove(x):
                raise Undecided('signed division of a negative value')
            return st.div(x, y.c) if op == 'Div' else st.mod(x, y.c)
        raise Undecided('binop %s' % op)

    def shift(self, st, op, a, b, n, lo, hi):
        k = self.as_lin(st, b)
        unch = op.endswith('Unchecked')
        left = op.startswith('Shl')
        if not k.is_const():
            klo, khi = st.iv(k)
            inr = klo >= 0 and khi < n or (st.prove(k) and st.prove(con(n - 1) - k))
            if not inr and st.prove(k - n):
                if unch:
                    raise UB('unchecked shift by at least %d' % n)
                return self.shift(st, op, a, st.mod(k, n), n, lo, hi)
            if not inr:
                if klo < 0 and st.prove(-k - 1):
                    raise Undecided('shift by a negative amount')
                raise NeedSplit([[('ge', k), ('ge', con(n - 1) - k)], [('ge', -k - 1)], [('ge', k - n)]])
            if left and isinstance(a, Lin) and st.norm(a) is ONE and lo == 0:
                p = mkpow2(st, k)
                st.add_ge(p - 1)
                st.add_ge(con(1 << (n - 1)) - p)
                return p
            if left and lo == 0 and not isinstance(a, LAZY):
                # a single bit moved into place: decide the bit, keep the position symbolic
                x = a if isinstance(a, Lin) else \
                    src_lin(st, a.b[0]) if isinstance(a, Bits) and all(z == 0 for z in a.b[1:]) else None
                if x is not None:
                    x = st.norm(x)
                    if x is ZERO:
                        return ZERO
                    if st.iv(x) == (0, 1):
                        raise NeedSplit([[('eq', x)], [('eq', x - 1)]])
            if not left and lo == 0 and not isinstance(a, Lin):
                if isinstance(a, SelBit) and st.norm(a.e - k) is ZERO:
                    return src_lin(st, self.bit_at(st, a.w, a.e))
                return ShrW(a, k, n)
            raise NeedSplit(self.enum_alts(st, k))
        c = k.c
        if not 0 <= c < n:
            if unch:
                raise UB('unchecked shift by %d' % c)
            c &= n - 1
        if isinstance(a, ShrW) and not left:
            return ShrW(a.w, a.k + c, n)
        if isinstance(a, Bits) or isinstance(a, LAZY):
            bs = self.as_bits(st, a, n)
            if left:
                return Bits((0,) * c + bs[:n - c])
            if lo < 0:
                return Bits(bs[c:] + (bs[-1],) * c)
            return Bits(bs[c:] + (0,) * c)
        x = self.as_lin(st, a)
        if left:
            r = x * (1 << c)
            a0, b0 = st.iv(r)
            if a0 >= lo and b0 <= hi or (st.prove(r - lo) and st.prove(con(hi) - r)):
                return r
            if lo == 0:
                return Bits((0,) * c + lin_to_bits(st, x, n)[:n - c])
            raise Undecided('signed shift overflow')
        return st.div(x, 1 << c)

    def bitop(self, st, op, a, b, n, kind, lo, hi):
        if kind == 'bool':
            x = self.truth_opt(st, a)
            y = self.truth_opt(st, b)
            if op == 'BitAnd':
                if x is False or y is False:
                    return ZERO
                if x is True:
                    return b
                if y is True:
                    return a
            elif op == 'BitOr':
                if x is True or y is True:
                    return ONE
                if x is False:
                    return b
                if y is False:
                    return a
            elif op == 'BitXor':
                if x is not None:
                    return self.bnot_val(st, b) if x else b
                if y is not None:
                    return self.bnot_val(st, a) if y else a
            self.truth(st, a)   # splits
        for u, w in ((a, b), (b, a)):
            if isinstance(u, Lin) and isinstance(w, Lin) and lo == 0 and not st.norm(u).is_const() and st.norm(w).is_const() \
                    and (self.pow2_form(st.norm(u)) is not None or self.pow2_form(con(hi) - st.norm(u)) is not None):
                w = Bits(lin_to_bits(st, st.norm(w), n))
            if isinstance(u, Lin) and lo == 0 and not isinstance(w, Lin):
                L = st.norm(u)
                e = self.pow2_form(L)
                if L is ZERO and isinstance(w, LAZY):
                    return ZERO if op == 'BitAnd' else w
                if L.is_const() and L.c == hi and op == 'BitAnd' and isinstance(w, LAZY):
                    return w
                if L.is_const() and L.c == hi and op == 'BitXor' and isinstance(w, BitUpd):
                    return BitUpd(self.bitop(st, op, u, w.w, n, kind, lo, hi), w.e, bnot(w.s), n)
                if L.is_const() and isinstance(w, (BitUpd, ShrW)):
                    if op == 'BitAnd' and L.c == 1:
                        return src_lin(st, self.bit_at(st, w, ZERO))
                    if isinstance(w, BitUpd) and L.c > 0 and L.c & (L.c - 1) == 0:
                        e = con(L.c.bit_length() - 1)
                    elif isinstance(w, BitUpd) and op == 'BitAnd' and hi - L.c > 0 and (hi - L.c) & (hi - L.c - 1) == 0:
                        return BitUpd(w, con((hi - L.c).bit_length() - 1), 0, n)
                if e is not None:
                    if op == 'BitOr':
                        return BitUpd(w, e, 1, n)
                    if op == 'BitXor':
                        return BitUpd(w, e, bnot(self.bit_at(st, w, e)), n)
                elif op == 'BitAnd':
                    e = self.pow2_form(con(hi) - L)
                    if e is not None:
                        return BitUpd(w, e, 0, n)
            if op == 'BitAnd' and isinstance(u, Lin):
                L = st.norm(u)
                if not L.is_const():
                    # 2^e - 1 or 2^e with symbolic e
                    e = self.pow2_form(L + 1)
                    if e is not None:
                        return self.low_mask(st, w, e, n)
                    e = self.pow2_form(L)
                    if e is not None:
                        return self.sel_bit(st, w, e, n)
                elif isinstance(w, Lin) and L.c >= 0 and (L.c & (L.c + 1)) == 0:
                    if L.c == 0:
                        return ZERO
                    return st.mod(st.norm(w), L.c + 1)
                elif isinstance(w, Lin) and L.c > 0 and lo == 0:
                    # contiguous mask not starting at bit 0
                    low = (L.c & -L.c)
                    top = L.c + low
                    if top & (top - 1) == 0:
                        W = st.norm(w)
                        if top > hi:
                            return st.div(W, low) * low
                        return st.mod(st.div(W, low), top // low) * low
        f = {'BitAnd': band, 'BitOr': bor, 'BitXor': bxor}[op]
        for u, w in ((a, b), (b, a)):
            if isinstance(u, SelBit) and lo == 0 and op != 'BitAnd' and not isinstance(w, (Lin, SelBit, LowMask)):
                return BitUpd(w, u.e, f(self.bit_at(st, w, u.e), self.bit_at(st, u.w, u.e)), n)
        x = self.as_bits(st, a, n)
        y = self.as_bits(st, b, n)
        r = Bits(tuple(f(p, q) for p, q in zip(x, y)))
        if lo < 0:
            # signed: only values with a known sign are converted back
            if r.b[-1] == 0:
                return r
            if all(isinstance(z, int) for z in r.b):
                v = sum(z << i for i, z in enumerate(r.b))
                return con(v - (1 << n))
            return r
        if all(type(z) is int for z in r.b):
            return con(sum(z << i for i, z in enumerate(r.b)))
        return r

    def pow2_form(self, L):
        s = L.single()
        if s is not None and SYMS[s].kind == 'pow2':
            return SYMS[s].key[1]
        if len(L.t) == 1 and L.c == 0:
            # a multiple of a power is one, too
            s, k = L.t[0]
            if SYMS[s].kind == 'pow2' and k > 0 and k & (k - 1) == 0:
                return SYMS[s].key[1] + (k.bit_length() - 1)
        return None

    def low_mask(self, st, w, e, n):
        if isinstance(w, Lin):
            raise NeedSplit(self.enum_alts(st, e))
        return LowMask(w, e)

    def sel_bit(self, st, w, e, n):
        if isinstance(w, Lin):
            w = st.norm(w)
            if w is ZERO:
                return ZERO
            if not w.is_const() or w.c != (1 << n) - 1:
                raise NeedSplit(self.enum_alts(st, e))
            w = Bits((1,) * n)
        return SelBit(w, e)

    def uniform(self, st, bs):
        """(arr, P0) when the bits are consecutive bits of one bit array"""
        bs = st.norm_bits(bs)
        b = bs[0]
        if type(b) is int or b[0] != 'b':
            return None
        for i in range(1, len(bs)):
            if not nextsrc(bs[i - 1], bs[i]):
                return None
        return b[1], b[2]

    def popcount(self, st, v, n):
        if isinstance(v, LowMask):
            if isinstance(v.w, Bits):
                u = self.uniform(st, v.w.b)
                if u is not None:
                    return pc(u[0], st.norm(u[1] + v.e)) - pc(u[0], u[1])
            elif isinstance(v.w, BitUpd):
                d = st.norm(v.e - 1 - v.w.e)
                base = self.popcount(st, LowMask(v.w.w, v.e), n)
                if st.prove(-d - 1):
                    return base
                if st.prove(d):
                    return base - src_lin(st, self.bit_at(st, v.w.w, v.w.e)) + src_lin(st, v.w.s)
                raise NeedSplit([[('ge', d)], [('ge', -d - 1)]])
        elif isinstance(v, SelBit):
            return src_lin(st, self.bit_at(st, v.w, v.e))
        elif isinstance(v, BitUpd):
            return self.popcount(st, v.w, v.n) - src_lin(st, self.bit_at(st, v.w, v.e)) + src_lin(st, v.s)
        return st.norm(popcount_bits(st, self.as_bits(st, v, n)))

    def compare(self, st, op, a, b, ta):
        if isinstance(a, FVal) and isinstance(b, FVal):
            x, y = a.num * b.den, b.num * a.den
            return self.cmp_lin(op, x, y)
        # bit tests against zero
        for u, w, fl in ((a, b, False), (b, a, True)):
            if isinstance(u, (SelBit, LowMask)) and isinstance(w, Lin) and st.norm(w) is ZERO:
                o = op
                if fl:
                    o = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(op, op)
                nz = self.popcount(st, u, None)
                c = Cond('ge', nz - 1)
                if o in ('Gt', 'Ne'):
                    return c
                if o in ('Eq', 'Le'):
                    return Cond('ge', nz - 1, True)
                return ZERO if o == 'Lt' else ONE
            if isinstance(u, SelBit) and isinstance(w, Lin) and op in ('Eq', 'Ne') and self.pow2_form(st.norm(w)) is not None \
                    and st.norm(self.pow2_form(st.norm(w)) - u.e) is ZERO:
                nz = self.popcount(st, u, None)
                return Cond('ge', nz - 1, op == 'Ne')
            if isinstance(u, Bits) and isinstance(w, Lin) and st.norm(w) is ZERO:
                o = op
                if fl:
                    o = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(op, op)
                bs = tuple(x for x in st.norm_bits(u.b) if x != 0)
                c = Cond('any', bs)
                if o in ('Gt', 'Ne'):
                    return c
                if o in ('Eq', 'Le'):
                    return Cond('any', bs, True)
                return ZERO if o == 'Lt' else ONE
        if isinstance(a, Ptr) or isinstance(b, Ptr) or isinstance(a, Adt) or isinstance(b, Adt):
            return self.cmp_ptr(st, op, a, b)
        if isinstance(a, Top) or isinstance(b, Top):
            return Top('compare')
        if isinstance(a, Fn) or isinstance(b, Fn):
            raise Undecided('function pointer comparison')
        return self.cmp_lin(op, self.as_lin(st, a), self.as_lin(st, b))

    def cmp_lin(self, op, x, y):
        if op == 'Eq':
            return self.fold(Cond('eq', x - y))
        if op == 'Ne':
            return self.fold(Cond('eq', x - y, True))
        if op == 'Lt':
            return self.fold(Cond('ge', y - x - 1))
        if op == 'Le':
            return self.fold(Cond('ge', y - x))
        if op == 'Gt':
            return self.fold(Cond('ge', x - y - 1))
        return self.fold(Cond('ge', x - y))

    def fold(self, c):
        if isinstance(c.a, Lin) and not c.a.t:
            r = c.a.c >= 0 if c.k == 'ge' else c.a.c == 0
            return ONE if r != c.neg else ZERO
        return c

    def cmp_ptr(self, st, op, a, b):
        if isinstance(a, Adt):
            a = self.as_ptr(a)
        if isinstance(b, Adt):
            b = self.as_ptr(b)
        if isinstance(a, Lin) or isinstance(b, Lin):
            # comparison with an address: only null checks are understood
            p, q = (a, b) if isinstance(a, Ptr) else (b, a)
            if isinstance(q, Lin) and q is ZERO:
                return {'Eq': ZERO, 'Ne': ONE}.get(op, Top('ptr compare'))
            return Top('ptr compare')
        if a.obj != b.obj:
            if a.obj is None or b.obj is None:
                if a.obj is None and b.obj is None:
                    return Top('dangling compare')
                return Top('dangling compare')
            return {'Eq': ZERO, 'Ne': ONE}.get(op, Top('ptr compare'))
        pa, pb = a.path, b.path
        if pa == pb:
            return self.cmp_lin(op, ZERO, ZERO)
        ia = ZERO
        ib = ZERO
        if pa and pa[-1][0] == 'i':
            ia, pa = pa[-1][1], pa[:-1]
        if pb and pb[-1][0] == 'i':
            ib, pb = pb[-1][1], pb[:-1]
        if pa != pb:
            return Top('ptr compare')
        return self.cmp_lin(op, st.norm(ia), st.norm(ib))

    def ptr_offset(self, st, p, L, ety):
        """pointer arithmetic in units of the pointee type; in-bounds is checked at the access"""
        if p.obj is None:
            if L is ZERO:
                return p
            return p
        t = self.T[ety]
        sz = t.get('size', 0)
        path = p.path
        if path and path[-1][0] == 's':
            last = path[-1]
            if sz != last[1]:
                raise Undecided('mixed pointer arithmetic')
            return Ptr(p.obj, path[:-1] + (('s', sz, last[2] + L),), p.meta)
        if path and path[-1][0] == 'i':
            a = self.read_arr(st, p)
            if a is not None and a.esz and a.esz != sz:
                if a.esz > sz and a.esz % sz == 0:
                    r = a.esz // sz
                    L = st.norm(L)
                    if not L.is_const():
                        raise Undecided('symbolic sub-element arithmetic')
                    q, k = divmod(L.c, r)
                    return Ptr(p.obj, path[:-1] + (('i', path[-1][1] + q), ('s', sz, con(k))), p.meta)
                raise Undecided('pointer arithmetic across element sizes')
            return Ptr(p.obj, self.bump(path, L), p.meta)
        v = self.read_path(st, st.mem.get(p.obj), path) if st.mem.get(p.obj) is not None else None
        if isinstance(v, Arr):
            return Ptr(p.obj, path + (('i', L),), p.meta)
        if isinstance(v, Bits) and len(v.b) > sz * 8:
            return Ptr(p.obj, path + (('s', sz, L),), p.meta)
        if isinstance(v, (Lin,)) and t['k'] in ('uint', 'int'):
            # the object may be wider than the view; widths are resolved on access
            return Ptr(p.obj, path + (('s', sz, L),), p.meta)
        return Ptr(p.obj, self.bump(path, L), p.meta)

    def float_op(self, st, op, a, b):
        if not isinstance(a, FVal) or not isinstance(b, FVal):
            return Top('float')
        if op == 'Div' and b.num.is_const() and b.num.c > 0:
            # exact when the divisor is a power of two
            c, d = b.num.c, b.den
            if c & (c - 1) == 0 and d & (d - 1) == 0:
                from math import gcd
                n, m = a.num * d, a.den * c
                g = gcd(d, m)
                return FVal(a.num * (d // g), m // g)
        if op == 'Mul' and b.num.is_const() and b.den & (b.den - 1) == 0:
            return FVal(a.num * b.num.c, a.den * b.den)
        if op in ('Add', 'Sub'):
            y = b.num * a.den
            return FVal(a.num * b.den + (y if op == 'Add' else -y), a.den * b.den)
        return Top('float')

    def cast(self, st, ck, v, fty, ty):
        name = ck if isinstance(ck, str) else next(iter(ck))
        t, ft = self.T[ty], self.T[fty]
        if name == 'IntToInt':
            if isinstance(v, Top):
                return v
            if ft['k'] == 'bool':
                if isinstance(v, Cond):
                    return con(1 if self.truth(st, v) else 0)
                return v
            if ft['k'] == 'adt':
                if isinstance(v, Adt):
                    return con(self.discr_val(ft, v.var))
                return v
            lo, hi = self.rng(ty)
            flo, fhi = self.rng(fty)
            if isinstance(v, Bits) or isinstance(v, LAZY):
                b = self.as_bits(st, v, self.bits(fty))
                n = self.bits(ty)
                if flo < 0 and len(b) < n:
                    return Bits(b + (b[-1],) * (n - len(b)))
                b = b[:n] + (0,) * max(0, n - len(b))
                return Bits(b)
            x = self.as_lin(st, v)
            if lo <= flo and fhi <= hi:
                return x
            if st.prove(x - lo) and st.prove(con(hi) - x):
                return x
            if lo == 0:
                xl, xh = st.iv(x)
                if xl < 0 and not st.prove(x) and not st.prove(-x - 1):
                    raise NeedSplit([[('ge', x)], [('ge', -x - 1)]])
                if xl < 0 and st.prove(-x - 1):
                    return self.wrap(st, x, lo, hi)
                return st.mod(x, hi + 1)
            return self.wrap(st, x, lo, hi)
        if name == 'Transmute' or name == 'BoxDerefTransmute':
            return self.transmute(st, v, fty, ty)
        if name in ('PtrToPtr', 'FnPtrToPtr'):
            if isinstance(v, Ptr) and v.meta is not None and self.T[t['elem']]['k'] not in ('slice', 'str') \
                    and t.get('size') == 8:
                return Ptr(v.obj, v.path, None)
            return v
        if name == 'PointerCoercion':
            kind = ck['PointerCoercion']
            kn = kind if isinstance(kind, str) else next(iter(kind))
            if kn == 'Unsize':
                return self.unsize(st, v, fty, ty)
            if kn == 'ReifyFnPointer':
                c = self.p.calls.get(fty)
                return Fn(c['fn']) if c and 'fn' in c else Top('fnptr')
            if kn == 'ClosureFnPointer':
                return Fn(self.p.closures.get(fty))
            return v
        if name == 'IntToFloat':
            x = self.as_lin(st, v)
            lim = 1 << (24 if t.get('size') == 4 else 53)
            lo, hi = st.iv(x)
            if hi <= lim and lo >= -lim or (st.prove(con(lim) - x) and st.prove(x + lim)):
                return FVal(x, 1)
            if st.prove(x - (lim + 1)):
                if st.prove(con(2 * lim) - x):
                    # multiples of two, ties to even
                    q, m = st.div(x, 4), st.mod(x, 4)
                    if st.prove(con(1) - m):
                        return FVal(q * 4, 1)
                    if st.prove(m - 2) and st.prove(con(2) - m):
                        return FVal(q * 4 + 2, 1)
                    if st.prove(m - 3):
                        return FVal(q * 4 + 4, 1)
                    raise NeedSplit([[('ge', con(1) - m)], [('eq', m - 2)], [('eq', m - 3)]])
                if not st.prove(x - (2 * lim + 1)):
                    raise NeedSplit([[('ge', con(2 * lim) - x)], [('ge', x - (2 * lim + 1))]])
                # half a unit in the last place of the largest value, at least
                e = max(1024, 1 << max(0, int(hi).bit_length() - lim.bit_length() + 1))
                s = fresh('float', max(lo - e, 0), hi + e, True)
                st.add_ge(sym(s) - x + e)
                st.add_ge(x + e - sym(s))
                return FVal(sym(s), 1)
            raise NeedSplit([[('ge', con(lim) - x), ('ge', x + lim)], [('ge', x - (lim + 1))], [('ge', -x - lim - 1)]])
        if name == 'FloatToInt':
            if isinstance(v, FVal):
                lo, hi = self.rng(ty)
                if not st.prove(v.num):
                    raise Undecided('negative float to int')
                r = st.div(v.num, v.den) if v.den != 1 else v.num
                if st.prove(con(hi) - r):
                    return r
                if st.prove(r - hi):
                    return con(hi)
                raise NeedSplit([[('ge', con(hi) - r)], [('ge', r - hi - 1)]])
            return Top('float')
        if name in ('PointerExposeAddress', 'PointerWithExposedProvenance'):
            return Top('address')
        raise Undecided('cast %s' % name)

    def unsize(self, st, v, fty, ty):
        def elem(x):
            t = self.T[x]
            if t['k'] in ('ref', 'ptr'):
                return t['elem']
            if t['k'] == 'adt' and t.get('args'):
                return t['args'][0].get('ty') if isinstance(t['args'][0], dict) else None
            return None
        fe, te = elem(fty), elem(ty)
        if fe is not None and te is not None and self.T[fe]['k'] == 'array' and self.T[te]['k'] == 'slice':
            n = con(self.T[fe]['len'])

            def upd(x):
                if isinstance(x, Ptr):
                    return Ptr(x.obj, x.path + (('i', ZERO),), n)
                if isinstance(x, Adt) and x.f:
                    return Adt(x.var, (upd(x.f[0]),) + x.f[1:])
                return x
            return upd(v)
        return v

    def flatten(self, v, out):
        if isinstance(v, Adt):
            for x in v.f:
                self.flatten(x, out)
        elif v is not None:
            out.append(v)

    def build(self, ty, vals):
        """rebuild a value of type ty from scalar leaves"""
        t = self.T[ty]
        if t.get('size') == 0:
            return self.zst_value(ty)
        k = t['k']
        if k == 'adt' and t['adt'] == 'struct':
            return Adt(0, tuple(self.build(f[1], vals) for f in t['variants'][0]['fields']))
        if k == 'adt' and t['adt'] == 'union':
            return Adt(0, (self.build(t['variants'][0]['fields'][-1][1], vals),))
        if k in ('tuple', 'closure'):
            return Adt(0, tuple(self.build(f, vals) for f in t['fields']))
        if k == 'pat':
            return self.build(t['elem'], vals)
        if not vals:
            raise Undecided('transmute shape %s' % t['name'])
        return vals.pop(0)

    def address(self, st, p):
        """address of an array element or a part of one; arrays are aligned to their element size"""
        a = st.mem.get(p.obj)
        if isinstance(a, Bits):
            # a scalar, aligned to its size
            L = sym(intern(('v', 'address', p.obj), 1, 1 << 58, opaque=True)) * (len(a.b) // 8)
            if len(p.path) == 1 and p.path[0][0] == 's':
                L = L + p.path[0][2] * p.path[0][1]
            elif p.path:
                raise Undecided('address of %r' % (p,))
            return L
        if not isinstance(a, Arr) and all(q[0] == 'f' for q in p.path):
            # a place that holds a pointer is aligned like one
            for q in p.path:
                a = a.f[q[1]] if isinstance(a, Adt) and q[1] < len(a.f) else None
            leaf = []
            if isinstance(a, (Adt, Ptr)):
                self.flatten(a, leaf)
            if any(isinstance(x, Ptr) for x in leaf):
                return sym(intern(('v', 'address', p.obj, p.path), 1, 1 << 58, opaque=True)) * 8
        if not isinstance(a, Arr) or a.esz not in (1, 2, 4, 8, 16) or not p.path or p.path[0][0] != 'i' or len(p.path) > 2:
            raise Undecided('address of %r' % (p,))
        L = sym(intern(('v', 'address', p.obj), 1, 1 << 58, opaque=True)) * a.esz + p.path[0][1] * a.esz
        if len(p.path) == 2:
            q = p.path[1]
            if q[0] != 's':
                raise Undecided('address of %r' % (p,))
            L = L + q[2] * q[1]
        return L

    def transmute(self, st, v, fty, ty):
        if isinstance(v, Top):
            return v
        t, ft = self.T[ty], self.T[fty]
        if t['k'] == 'uint' and isinstance(v, Ptr) and v.meta is None and isinstance(st.mem.get(v.obj), (Arr, Bits, Adt, Ptr)):
            return self.address(st, v)
        if t['k'] == 'adt' and t['adt'] == 'enum':
            if ft['k'] == 'adt' and ft['adt'] == 'enum':
                return v
            # Option<NonNull>/Option<&T> from pointer, or C-like enum from integer
            vs = t['variants']
            leaf = []
            self.flatten(v, leaf)
            if len(leaf) == 1 and isinstance(leaf[0], Ptr) and len(vs) == 2:
                full = 0 if vs[0]['fields'] else 1
                return Adt(full, (self.build(vs[full]['fields'][0][1], leaf),))
            if len(leaf) == 1 and isinstance(leaf[0], (Lin, Bits)) and all(not x['fields'] for x in vs):
                L = self.as_lin(st, leaf[0])
                if L.is_const():
                    for i, x in enumerate(vs):
                        if int(x['discr']) == L.c:
                            return Adt(i, ())
                return L
            lay = t.get('enum_layout')
            nz = lay.get('niche') if lay else None
            L = self.as_lin(st, leaf[0]) if len(leaf) == 1 and isinstance(leaf[0], (Lin, Bits)) else None
            if nz and nz['lo'] == nz['hi'] and lay['tag_off'] == 0 and lay['tag_size'] == t.get('size') and isinstance(L, Lin):
                # one reserved value stands for the field-less variant
                d = st.norm(L - int(nz['start']))
                var = t['variants'][nz['untagged']]['fields']
                if not d.t:
                    if d.c == 0:
                        return Adt(nz['lo'], ())
                elif not (st.prove(d - 1) or st.prove(-d - 1)):
                    raise NeedSplit([[('eq', d)], [('ge', d - 1)], [('ge', -d - 1)]])
                if len(var) == 1:
                    return Adt(nz['untagged'], (self.build(var[0][1], [L]),))
            raise Undecided('transmute to enum %s' % t['name'])
        if ft['k'] == 'adt' and ft['adt'] == 'enum':
            if isinstance(v, Adt) and t['k'] in ('uint', 'int'):
                return con(self.discr_val(ft, v.var))
            if isinstance(v, Lin):
                return v
            if isinstance(v, Adt) and v.f:
                leaf = []
                self.flatten(v, leaf)
                return self.build(ty, leaf)
            raise Undecided('transmute from enum')
        if isinstance(v, Arr) or t['k'] == 'array':
            if isinstance(v, Arr) and t['k'] == 'array':
                if self.T[t['elem']].get('size') == v.esz:
                    return v
            if isinstance(v, Arr) and t['k'] == 'adt' and len(t['variants'][0]['fields']) == 1:
                ity = t['variants'][0]['fields'][0][1]
                if self.T[ity]['k'] == 'array' and self.T[self.T[ity]['elem']].get('size') == v.esz:
                    return Adt(0, (v,))
            raise Undecided('transmute of array %s -> %s' % (ft['name'], t['name']))
        leaf = []
        self.flatten(v, leaf)
        r = self.build(ty, leaf)
        if leaf:
            raise Undecided('transmute leftover %s -> %s' % (ft['name'], t['name']))
        if t['k'] in ('uint', 'int') and isinstance(r, Ptr):
            return r    # address kept symbolic
        return r

    # ---- constraints from splits ----------------------------------------------------------------
    def apply_alt(self, st, alt):
        """returns 'ok', 'dead' or ('ub', msg)"""
        ub = None
        for c in alt:
            if c[0] == 'ge':
                if not st.add_ge(c[1]):
                    return 'dead'
            elif c[0] == 'eq':
                if not st.add_eq(c[1]):
                    return 'dead'
            elif c[0] == 'ub':
                ub = c[1]
        if ub:
            return ('ub', ub)
        return 'ok'

    def fork(self, st, ns):
        """surviving states of a split"""
        out = []
        if self.splits is not None:
            self.splits.update(c[1] for alt in ns.alts for c in alt if c[0] == 'eq')
        for alt in ns.alts:
            s2 = st.copy()
            r = self.apply_alt(s2, alt)
            if r == 'dead':
                continue
            if len(ns.alts) <= 4 and not s2.feasible():
                continue
            if r == 'ok':
                out.append(s2)
            else:
                self.report_ub(s2, r[1])
        return out

    # ---- outcomes -------------------------------------------------------------------------------
    def site(self):
        """innermost frame position inside the analysed crate, plus the full stack"""
        if self.site_override is not None:
            return self.site_override
        out = []
        for fr in self.stack:
            out.append((fr.name, fr.line))
        return out

    def report_panic(self, st, msg):
        if self.hooks:
            self.hooks.panic(self, st, msg)

    def report_ub(self, st, msg):
        if self.hooks:
            self.hooks.ub(self, st, msg)

    def report_undecided(self, st, msg):
        if self.hooks:
            self.hooks.undecided(self, st, msg)

    # ---- execution ------------------------------------------------------------------------------
    def cfg_of(self, key):
        c = self.p.cfg.get(key)
        if c is None:
            c = Cfg(self.p.fns[key]['body'])
            self.p.cfg[key] = c
        return c

    def run_fn(self, key, args, st, callinfo=None):
        """analyse a function body; returns [(state, return value)]"""
        f = self.p.fns.get(key)
        if f is None or 'body' not in f:
            raise Undecided('no body for %s' % (f['def'] if f else key))
        if self.depth > 60:
            raise Undecided('call depth')
        self.fns_seen.add(f['def'])
        cfg = self.cfg_of(key)
        fr = Frame(self.depth, f, cfg)
        self.depth += 1
        self.stack.append(fr)
        try:
            n = f['body']['arg_count']
            if len(args) != n:
                sp = f['body'].get('spread_arg')
                if isinstance(sp, int) and sp:
                    args = list(args[:sp - 1]) + [Adt(0, tuple(args[sp - 1:]))]
                elif len(args) == 2 and isinstance(args[1], Adt) and 1 + len(args[1].f) == n:
                    args = [args[0]] + list(args[1].f)
                else:
                    raise Undecided('argument count of %s' % f['def'])
            for i, a in enumerate(args):
                st.mem[(fr.id, i + 1)] = a
            rets = []
            self.run_region(fr, None, 0, [st], rets)
            out = []
            nl = len(fr.locals)
            for s in rets:
                r = s.mem.get((fr.id, 0))
                if r is None:
                    r = self.zst_value(fr.locals[0]['ty'])
                for i in range(nl):
                    s.mem.pop((fr.id, i), None)
                out.append((s, r))
            return self.loopmod.merge_returns(self, out, fr.name) if len(out) > 1 else out
        finally:
            self.stack.pop()
            self.depth -= 1

    def run_region(self, fr, loop, start, states, rets, exits=None, back=None):
        """run the acyclic part of a region (body, or one iteration of `loop`)"""
        cfg = fr.cfg
        pending = {start: list(states)}
        first = True
        while pending:
            b = min(pending, key=lambda x: cfg.rpo[x])
            sts = pending.pop(b)
            if b in cfg.loops and not (first and loop is not None and b == loop.head):
                outs = self.loopmod.run_loop(self, fr, cfg.loops[b], sts, rets)
            else:
                outs = []
                if len(sts) > 1:
                    sts = self.loopmod.merge_states(self, fr, b, sts)
                for s in sts:
                    outs.extend(self.run_block(fr, b, s, rets))
            first = False
            for tgt, s in outs:
                if loop is not None and tgt == loop.head:
                    back.append(s)
                elif loop is not None and tgt not in loop.blocks:
                    exits.append((tgt, s))
                else:
                    pending.setdefault(tgt, []).append(s)

    def run_block(self, fr, b, st, rets):
        bb = fr.body['blocks'][b]
        lines = fr.body['lines'][b]
        stm = bb['statements']
        n = len(stm)
        out = []
        work = [(st, 0)]
        while work:
            st, i = work.pop()
            while i < n:
                fr.line = lines[i]
                self.steps += 1
                try:
                    self.statement(st, fr, stm[i]['kind'])
                except NeedSplit as e:
                    for s2 in reversed(self.fork(st, e)):
                        work.append((s2, i))
                    break
                except UB as e:
                    self.report_ub(st, e.msg)
                    break
                except Undecided as e:
                    self.report_undecided(st, str(e))
                    break
                i += 1
            else:
                fr.line = lines[n]
                if self.maxsteps and self.steps > self.maxsteps:
                    raise Budget()
                try:
                    out.extend(self.terminator(st, fr, bb['terminator']['kind'], rets))
                except NeedSplit as e:
                    for s2 in reversed(self.fork(st, e)):
                        work.append((s2, n))
                except UB as e:
                    self.report_ub(st, e.msg)
                except Panic as e:
                    self.report_panic(st, e.msg)
                except Diverge:
                    pass
                except Undecided as e:
                    self.report_undecided(st, str(e))
        return out

    def statement(self, st, fr, k):
        if isinstance(k, str):
            return
        (n, v), = k.items()
        if n == 'Assign':
            pl, rv = v
            if pl['projection']:
                ty = self.place_ty(fr, pl)
            else:
                ty = fr.locals[pl['local']]['ty']
            val = self.rvalue(st, fr, rv, ty)
            self.drop_moves(st, fr, rv)
            if not pl['projection']:
                st.mem[(fr.id, pl['local'])] = val
            else:
                self.store(st, self.place(st, fr, pl), val)
        elif n == 'StorageDead':
            st.mem.pop((fr.id, v), None)
        elif n == 'StorageLive':
            st.mem.pop((fr.id, v), None)
        elif n == 'SetDiscriminant':
            loc = self.place(st, fr, v['place'])
            x = self.load(st, loc)
            self.store(st, loc, Adt(v['variant_index'], x.f if isinstance(x, Adt) else ()))
        elif n == 'Intrinsic':
            self.stmt_intrinsic(st, fr, v)
        # FakeRead, PlaceMention, ConstEvalCounter, Nop, Retag, AscribeUserType, Coverage: no effect

    def drop_moves(self, st, fr, rv):
        pass

    def stmt_intrinsic(self, st, fr, v):
        (k, a), = v.items()
        if k == 'Assume':
            x = self.operand(st, fr, a)
            r = self.truth_opt(st, x)
            if r is None and not isinstance(x, Top):
                if not self.truth(st, x):
                    raise UB('assume of a false condition')
            elif r is False:
                raise UB('assume of a false condition')
            return
        if k == 'CopyNonOverlapping':
            self.imodels['copy_nonoverlapping'](self, st, [self.operand(st, fr, a['src']), self.operand(st, fr, a['dst']),
                                                          self.operand(st, fr, a['count'])],
                                                {'elem': self.T[self.op_ty(fr, a['src'])]['elem']})
            return
        raise Undecided('intrinsic statement %s' % k)

    def terminator(self, st, fr, k, rets):
        if k == 'Return':
            rets.append(st)
            return []
        if k == 'Unreachable':
            self.report_ub(st, 'unreachable code reached')
            return []
        if isinstance(k, str):
            return []
        (n, v), = k.items()
        if n == 'Goto':
            return [(v['target'], st)]
        if n == 'SwitchInt':
            x = self.operand(st, fr, v['discr'])
            br, other = v['targets']['branches'], v['targets']['otherwise']
            return self.switch(st, x, br, other, self.op_ty(fr, v['discr']))
        if n == 'Drop':
            return [(v['target'], st)]
        if n == 'Assert':
            x = self.operand(st, fr, v['cond'])
            r = self.truth(st, x)
            if r == v['expected']:
                self.count('assert')
                return [(v['target'], st)]
            m = v['msg']
            self.report_panic(st, m if isinstance(m, str) else next(iter(m)))
            return []
        if n == 'Call':
            return self.call(st, fr, v)
        raise Undecided('terminator %s' % n)

    def count(self, k, n=1):
        self.obl[k] = self.obl.get(k, 0) + n

    def switch(self, st, x, br, other, ty):
        if isinstance(x, Top):
            raise Undecided('branch on unknown value (%s)' % x.why)
        if ty is None or self.T[ty]['k'] == 'bool':
            r = self.truth(st, x)
            v = 1 if r else 0
            for c, b in br:
                if int(c) == v:
                    return [(b, st)]
            return [(other, st)]
        L = self.as_lin(st, x)
        if L.is_const():
            bits = self.bits(ty) or 64
            v = L.c & ((1 << bits) - 1)
            for c, b in br:
                if int(c) == v:
                    return [(b, st)]
            return [(other, st)]
        # symbolic: one alternative per listed value, rest otherwise
        alts = []
        for c, b in br:
            d = st.norm(L - int(c))
            if st.prove(d - 1) or st.prove(-d - 1):
                continue
            if st.equal(d, ZERO):
                return [(b, st)]
            raise NeedSplit([[('eq', d)], [('ge', d - 1)], [('ge', -d - 1)]])
        return [(other, st)]

    def call(self, st, fr, v):
        func = v['func']
        fty = self.op_ty(fr, func)
        t = self.T[fty]
        args = [self.operand(st, fr, a) for a in v['args']]
        dest = v['destination']
        dty = self.place_ty(fr, dest)
        target = v['target']
        if t['k'] == 'fndef':
            c = self.p.calls.get(fty)
            if c is None or 'fn' not in c:
                raise Undecided('unresolved call %s' % t.get('def'))
            key = c['fn']
            info = {'def': t['def'], 'args': t['args'], 'ret': dty, 'fty': fty,
                    'argtys': [self.op_ty(fr, a) for a in v['args']], 'key': key}
        elif t['k'] == 'fnptr':
            f = self.operand(st, fr, func)
            if not isinstance(f, Fn):
                raise Undecided('unknown function pointer')
            key = f.key
            info = {'def': self.p.fns[key]['def'], 'args': self.p.fns[key]['args'], 'ret': dty, 'fty': fty,
                    'argtys': [self.op_ty(fr, a) for a in v['args']], 'key': key}
        else:
            raise Undecided('call of %s' % t['k'])
        res = self.invoke(st, key, args, info)
        out = []
        for s, r in res:
            if target is None:
                continue
            for a in v['args']:
                m = a.get('Move')
                if m is not None and not m['projection']:
                    s.mem.pop((fr.id, m['local']), None)
            if not dest['projection']:
                s.mem[(fr.id, dest['local'])] = r
            else:
                self.store(s, self.place(s, fr, dest), r)
            out.append((target, s))
        return out

    def find_model(self, key, info):
        r = self.lookup.get((key, info['def']))
        if r is not None:
            return r
        import models
        f = self.p.fns[key]
        m = models.find(f, info)
        if m is None and self.contracts:
            import contracts
            m = contracts.find(f, info)
        self.lookup[(key, info['def'])] = m if m is not None else False
        return m

    def invoke(self, st, key, args, info):
        m = self.find_model(key, info)
        if m:
            r = m(self, st, args, info)
            if isinstance(r, list):
                return r
            return [(st, r)]
        return self.run_fn(key, args, st, info)


LAZY = (LowMask, SelBit, BitUpd, ShrW)


class Budget(Exception):
    pass


class Frame:
    __slots__ = ('id', 'f', 'cfg', 'body', 'locals', 'name', 'line')

    def __init__(self, i, f, cfg):
        self.id, self.f, self.cfg = i, f, cfg
        self.body = f['body']
        self.locals = f['body']['locals']
        self.name = f['def']
        self.line = ''


# ---- substitution of a symbol inside values (run templates) ----------------------------------------
def subst_lin(L, s, e):
    """replace symbol s by e in L, including inside atom arguments"""
    hit = False
    for x, _ in L.t:
        if x == s or s in SYMS[x].deps:
            hit = True
            break
    if not hit:
        return L
    acc = Lin(L.c)
    for x, k in L.t:
        if x == s:
            acc = acc + e * k
        elif s in SYMS[x].deps:
            acc = acc + subst_atom(x, s, e) * k
        else:
            acc = acc + Lin(0, ((x, k),))
    return acc


def subst_atom(x, s, e):
    si = SYMS[x]
    k = si.key
    if si.kind == 'pc':
        return pc(k[1], subst_lin(k[2], s, e))
    if si.kind == 'seq':
        return state.seq(k[1], subst_lin(k[2], s, e), si.lo, si.hi)
    if si.kind == 'bv':
        b = tuple(subst_src(y, s, e) for y in k[1])
        return sym(intern(('bv', b), si.lo, si.hi, frozenset().union(*[srcdeps(y) for y in b])))
    if si.kind == 'pop':
        b = tuple(subst_src(y, s, e) for y in k[1])
        return sym(intern(('pop', b), si.lo, si.hi, frozenset().union(*[srcdeps(y) for y in b])))
    if si.kind == 'div':
        return state.mkdiv(subst_lin(k[1], s, e), k[2])
    if si.kind == 'pow2':
        a = subst_lin(k[1], s, e)
        return con(1 << a.c) if a.is_const() else sym(intern(('pow2', a), 1, INF, state.alldeps(a)))
    if si.kind == 'ilog':
        a = subst_lin(k[1], s, e)
        return con(a.c.bit_length() - 1) if a.is_const() else sym(intern(('ilog', a), si.lo, si.hi, state.alldeps(a)))
    raise Undecided('substitution in %s atom' % si.kind)


def subst_src(b, s, e):
    if type(b) is int:
        return b
    if b[0] == 'b':
        return ('b', b[1], subst_lin(b[2], s, e))
    if b[0] == 'l':
        L = subst_lin(b[1], s, e)
        return ('l', L, b[2]) if L.t else (L.c >> b[2]) & 1
    if b[0] == 'n':
        return bnot(subst_src(b[1], s, e))
    return BOP[b[0]](subst_src(b[1], s, e), subst_src(b[2], s, e))


def subst_val(v, s, e):
    if isinstance(v, Lin):
        return subst_lin(v, s, e)
    if isinstance(v, Bits):
        return Bits(tuple(subst_src(b, s, e) for b in v.b))
    if isinstance(v, Adt):
        return Adt(v.var, tuple(subst_val(x, s, e) for x in v.f))
    if isinstance(v, Ptr):
        return Ptr(v.obj, tuple((p[0],) + tuple(subst_lin(x, s, e) if isinstance(x, Lin) else x for x in p[1:])
                                for p in v.path), None if v.meta is None else subst_lin(v.meta, s, e))
    if isinstance(v, Cond):
        if isinstance(v.a, Lin):
            return Cond(v.k, subst_lin(v.a, s, e), v.neg)
        return Cond(v.k, tuple(subst_src(b, s, e) for b in v.a), v.neg)
    if isinstance(v, FVal):
        return FVal(subst_lin(v.num, s, e), v.den)
    if isinstance(v, Run):
        return Run(subst_lin(v.lo, s, e), subst_lin(v.hi, s, e), v.stride, v.tsym,
                   tuple(subst_val(x, s, e) for x in v.tmpl))
    if isinstance(v, Arr):
        base = v.base
        if base[0] == 'fill':
            base = ('fill', subst_val(base[1], s, e))
        w = tuple(('w', subst_lin(x[1], s, e), subst_val(x[2], s, e)) if x[0] == 'w' else
                  ('r', subst_val(x[1], s, e)) if x[0] == 'r' else
                  x[:2] + (subst_lin(x[2], s, e), subst_lin(x[3], s, e), subst_val(x[4], s, e),
                           tuple((k, subst_lin(c, s, e)) for k, c in x[5])) for x in v.w)
        return Arr(subst_lin(v.n, s, e), v.esz, v.ety, base, w)
    if isinstance(v, LowMask):
        return LowMask(subst_val(v.w, s, e), subst_lin(v.e, s, e))
    if isinstance(v, SelBit):
        return SelBit(subst_val(v.w, s, e), subst_lin(v.e, s, e))
    if isinstance(v, BitUpd):
        return BitUpd(subst_val(v.w, s, e), subst_lin(v.e, s, e), subst_src(v.s, s, e), v.n)
    if isinstance(v, ShrW):
        return ShrW(subst_val(v.w, s, e), subst_lin(v.k, s, e), v.n)
    return v
