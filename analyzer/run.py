import os, signal, sys, time, traceback
import lin, state, interp, refute
from interp import *


class Timeout(BaseException):
    pass


def alarm(*_):
    raise Timeout()


SEARCH = 90.        # seconds spent per root on looking for points that violate an obligation


class Found(BaseException):
    """a violation; the rest of the analysis cannot change the verdict"""


class Hooks:
    def __init__(self, mode, decisive=None):
        self.mode = mode
        self.decisive = decisive
        self.res = []
        self.args = []
        self.searched = 0.

    def add(self, kind, I, st, msg):
        if not st.feasible():
            return
        w = None
        if kind != 'undecided':
            if self.searched < SEARCH:
                t0 = time.time()
                w = refute.witness(st)
                self.searched += time.time() - t0
            if w is None:
                kind, msg = 'undecided', '%s (%s)' % (msg, kind)
        self.res.append((kind, msg, I.site(), st, self.show(st, w)))
        if self.decisive and kind != 'undecided' and self.decisive(kind, msg, I.site()):
            raise Found()

    def show(self, st, w):
        if w is None:
            return None
        out = []
        for n, s in self.args:
            L = sym(s)
            seen = 0
            while L.t and seen < 50:
                seen += 1
                acc = con(L.c)
                for x, k in L.t:
                    acc = acc + (w[x] if x in w else con(max(state.SYMS[x].lo, 0))) * k
                L = acc
            out.append('%s=%d' % (n, L.c))
        return ', '.join(out)

    def panic(self, I, st, msg):
        if self.mode == 'nopanic':
            self.add('panic', I, st, msg)
        else:
            if st.feasible():
                from models import snapshot_changed
                if snapshot_changed(I, st):
                    self.add('failed', I, st, 'modified before the rejection')
                else:
                    I.count('panic')

    def ub(self, I, st, msg):
        self.add('ub', I, st, msg)

    def undecided(self, I, st, msg):
        self.add('undecided', I, st, msg)

    def failed(self, I, st, msg):
        self.add('failed', I, st, msg)


def analyse(prog, name, limit=None, bind=None, decisive=None):
    lin.reset()
    state.ARRS.clear()
    key = prog.roots[name]
    f = prog.fns[key]
    mode = 'mustpanic' if 'reject' in name.split('::')[-1] else 'nopanic'
    h = Hooks(mode, decisive)
    I = Interp(prog, h)
    I.overflow_checks = prog.overflow
    I.contracts = '::rank::' in name or '::select::' in name
    I.debug = bool(os.environ.get('DEBUG'))
    st = State()
    args = []
    names = {}
    for v in f['body'].get('var_debug_info', []):
        pl = v['value'].get('Place') if isinstance(v['value'], dict) else None
        if pl and not pl['projection']:
            names.setdefault(pl['local'], v['name'])
    for i in range(1, f['body']['arg_count'] + 1):
        ty = f['body']['locals'][i]['ty']
        if bind and names.get(i) in bind:
            args.append(con(bind[names[i]]))
            continue
        lo, hi = I.rng(ty)
        x = fresh('a%d' % i, lo, hi)
        h.args.append((names.get(i, 'arg%d' % i), x))
        args.append(sym(x))
    t0 = time.time()
    if limit:
        signal.signal(signal.SIGALRM, alarm)
        signal.alarm(int(limit))
    try:
        r = I.run_fn(key, args, st)
    except Timeout:
        h.res.append(('undecided', 'time limit', I.site(), st, None))
        r = []
    except Found:
        r = []
    signal.alarm(0)
    return I, h, len(r), time.time() - t0


if __name__ == '__main__':
    p = Prog(sys.argv[1])
    import os
    DEBUG = bool(os.environ.get('DEBUG'))
    p.overflow = 'release' not in sys.argv[1]
    for n in p.roots:
        if len(sys.argv) > 2 and not any(x in n for x in sys.argv[2:]):
            continue
        import re
        if not re.match(r'p\d\d', n.split('::')[-1]):
            continue
        bind = {os.environ.get('B', 'width'): int(os.environ['W'])} if 'W' in os.environ else None
        I, h, nr, dt = analyse(p, n, None, bind)
        print('%s: %d returns, %d problems, obl=%s, steps=%d %.2fs lp=%s' % (n, nr, len(h.res), I.obl, I.steps, dt, state.STATS))
        for k, m, site, s, w in h.res[:6]:
            print('   ', k, m, w)
            for x in site[-6:]:
                print('        ', x)
