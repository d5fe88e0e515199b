#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]

Decides one property of /repo's current tree: compiles the specification programs against it, dumps
the MIR and analyses every root of the property.  Exit 0: no violation; exit 1: violation(s), one
`VIOLATION property=.. replay=..` line each."""
import fcntl
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import re
import resource
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'analyzer'))

DEADLINE = 780          # seconds for a whole check
ROOT_LIMIT = 700        # seconds for one root
MEM = 6 << 30

TRUSTED = [
    'rustc front end and the rustc_public MIR export (driver/src/main.rs)',
    'abstract interpreter (analyzer/*.py, analyzer/simplex.c) and its models of compiler intrinsics, '
    'the allocator and the std items listed in analyzer/models.py',
    'specification programs (harness/src)',
]
ASSUME = [
    '64-bit target (usize is 64 bits)',
    'allocations succeed (allocation failure and capacity overflow abort before any property matters)',
    'a bit vector holds fewer than 2^53 bits (the block count is computed in f64)',
]


def log(*a):
    print(*a, flush=True)


def harness_modules(prop):
    """modules with roots of the property -> names of the roots"""
    out = {}
    d = os.path.join(VERIF, 'harness', 'src')
    for fn in sorted(os.listdir(d)):
        txt = open(os.path.join(d, fn)).read()
        pre = 'p%s_' % prop[1:] if prop != 'P08' else r'p\d\d_'
        names = dict.fromkeys(re.findall(r'\b%s\w+' % pre, re.sub(r'//.*', '', txt)), '')     # also those generated by macros
        names.update(re.findall(r'^pub fn (%s\w*)\s*\(\s*(?:(width|part)\b)?' % pre, txt, re.M))
        if names:
            out[fn[:-3]] = names
    return out


# Widths of integer vectors.  The inductive roots (arbitrary contents, one operation) cover every width in
# every configuration; the direct ones, quadratic in the number of alignments, repeat a selection of widths
# in the quick tier and every width in the thorough tier.
SOME = (1, 3, 7, 8, 20, 31, 33, 48, 63, 64)
FEW = (1, 7, 33, 64)
DIRECT = ('push_get', 'push_keeps', 'set_frame', 'set_push', 'int_push', 'unchecked_frame', 'p10_valid', '_samples')


SAMPLES = (14, 15, 17, 20, 25, 31, 32, 33, 38, 44)


def widths(prop, config, root, tier):
    if root.endswith('_samples'):
        if prop == 'P08':
            return SAMPLES[2:3]
        return range(14, 45) if tier == 'thorough' and config == 'dev' else SAMPLES if config == 'dev' else SAMPLES[2::3]
    if root.endswith('_samples_first'):
        return range(1, 45) if prop != 'P08' else (1,)
    if prop == 'P08':
        return FEW if config == 'dev' else FEW[1:2]
    if any(w in root for w in DIRECT) and root != 'p10_valid_capacity':
        if tier == 'thorough':
            return range(1, 65) if config == 'dev' else SOME
        return SOME if config == 'dev' else FEW
    return range(1, 65)


def parts(prop, config, root, tier):
    """number of full 512-bit blocks in the last index block"""
    if root.startswith('p17_'):     # stores do not depend on it
        return () if prop == 'P08' else (0, 7) if config == 'dev' else (3,)
    if tier == 'quick' and root.startswith('p13_'):
        if prop == 'P08':
            return (3,) if config == 'dev' else (7,)
        return range(8) if config == 'dev' else (0, 3, 7)
    if tier == 'quick' and prop == 'P08':
        return (0, 3, 7) if config == 'dev' else (3,)
    return range(8)


BIND = {'width': widths, 'part': parts}


def ensure_built():
    so, src = os.path.join(VERIF, 'build', 'simplex.so'), os.path.join(VERIF, 'analyzer', 'simplex.c')
    need = not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src) or \
        not os.path.exists(os.path.join(VERIF, 'driver', 'target', 'debug', 'mirdump'))
    if need:
        r = subprocess.run(['bash', os.path.join(VERIF, 'bin', 'setup.sh')], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            log(r.stdout)
            sys.exit(2)


class Lock:
    def __enter__(self):
        os.makedirs(os.path.join(VERIF, 'build'), exist_ok=True)
        self.f = open(os.path.join(VERIF, 'build', 'lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def dump(config, features):
    """returns (path, compiler output)"""
    out = os.path.join(VERIF, 'build', 'dump-%d-%s.json' % (os.getpid(), config))
    if os.path.exists(out):
        os.remove(out)
    r = subprocess.run(['bash', os.path.join(VERIF, 'bin', 'dump.sh'), out, config, ','.join(features)],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or not os.path.exists(out):
        return None, r.stdout
    return out, r.stdout


def repo_builds():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(VERIF, 'build', 'target-plain'), CARGO_TERM_COLOR='never')
    r = subprocess.run(['cargo', '+nightly', 'build', '--offline', '-p', 'succinct_neo'], cwd='/repo', env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0, r.stdout


# ---- one root in its own process ---------------------------------------------------------------------
def worker(prog, name, bind, limit, decisive, conn):
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    import run
    import gc
    gc.disable()
    res = {'root': name, 'bind': bind}
    try:
        I, h, nret, dt = run.analyse(prog, name, limit, bind,
                                     lambda k, m, site: decisive(name, k, m, site))
        res['obl'] = I.obl
        res['steps'] = I.steps
        res['returns'] = nret
        res['loops'] = I.loopstats
        res['fns'] = sorted(I.fns_seen)
        res['problems'] = [(k, m, [list(x) for x in site], w) for k, m, site, s, w in h.res]
    except MemoryError:
        res['problems'] = [('undecided', 'memory limit', [], None)]
    except RecursionError:
        res['problems'] = [('undecided', 'recursion limit', [], None)]
    except Exception as e:
        res['problems'] = [('undecided', 'analyser: %s: %s' % (type(e).__name__, e), [], None)]
        res['trace'] = traceback.format_exc()
    conn.send(res)
    conn.close()


def analyse_all(jobs, deadline, decisive):
    """jobs: [(config, prog, root, fixed parameters)] -> results; stops at the first violation"""
    out = []
    active = {}
    todo = list(jobs)
    ncpu = os.cpu_count() or 4
    while todo or active:
        while todo and len(active) < ncpu and time.time() < deadline:
            config, prog, name, bind = todo.pop(0)
            a, b = mp.Pipe(False)
            lim = min(ROOT_LIMIT, max(5, deadline - time.time()))
            p = mp.Process(target=worker, args=(prog, name, bind, lim, decisive, b))
            p.start()
            b.close()
            active[a] = (p, config, name, time.time(), lim)
        if todo and time.time() >= deadline and not active:
            for config, prog, name, bind in todo:
                out.append({'root': name, 'config': config, 'problems': [('undecided', 'time limit', [], None)]})
            break
        for a in mp.connection.wait(list(active), timeout=0.5):
            p, config, name, t0, lim = active.pop(a)
            try:
                r = a.recv()
            except EOFError:
                r = {'root': name, 'problems': [('undecided', 'analysis process ended', [], None)]}
            p.join()
            r['config'] = config
            r['wall'] = round(time.time() - t0, 2)
            out.append(r)
            if any(k != 'undecided' and decisive(name, k, m, site) for k, m, site, w in r['problems']):
                for q in active.values():
                    q[0].kill()
                    q[0].join()
                return out
        for a, (p, config, name, t0, lim) in list(active.items()):
            if time.time() - t0 > lim + 10:
                p.kill()
                p.join()
                del active[a]
                out.append({'root': name, 'config': config, 'wall': round(time.time() - t0, 2),
                            'problems': [('undecided', 'time limit', [], None)]})
    return out


# ---- findings -----------------------------------------------------------------------------------------
def known_findings():
    """exact keys of recorded defects: lines `known: property=<id> key=<key> :: <text>`"""
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(.*?) :: (.*)$', l.rstrip('\n'))
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.viol = []
        self.seen = set()
        self.known = known_findings()
        self.known_hit = []

    def violation(self, key, detail):
        if key in self.seen:
            return
        self.seen.add(key)
        if (self.prop, key) in self.known:
            self.known_hit.append(key)
            log('KNOWN-FINDING: property=%s %s' % (self.prop, self.known[(self.prop, key)]))
            return
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d.json' % (self.prop, len(self.viol) + 1))
        with open(path, 'w') as f:
            json.dump(dict(property=self.prop, key=key, **detail), f, indent=1)
        self.viol.append(key)
        log('VIOLATION property=%s replay=%s' % (self.prop, path))
        log('   ', key)
        for k, v in detail.items():
            log('   ', '%s: %s' % (k, v))

    def finish(self, level, coverage, assumptions=ASSUME):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')),
            'level': level, 'coverage': coverage, 'assumptions': list(assumptions),
            'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viol),
        }
        with open(os.path.join(VERIF, 'evidence', '%s.json' % self.prop), 'w') as f:
            json.dump(ev, f, indent=1)
        log('%s: %d violation(s), %d known finding(s), %.1f s' % (self.prop, len(self.viol), len(self.known_hit),
                                                                 ev['wall_s']))
        sys.exit(1 if self.viol else 0)


def strip(loc):
    """file of a span without its line"""
    return re.sub(r':\d+(:\d+)?$', '', loc or '')


def construct(site):
    """innermost frame inside the checked crate (function, span), else the innermost frame"""
    own = [s for s in site if '/repo/' in (s[1] or '') or s[0].startswith('succinct_neo') or '<succinct_neo' in s[0]]
    return (own or site or [['?', '?']])[-1]


def analysis_check(rep, configs, filt=None):
    prop = rep.prop
    mods = harness_modules(prop)
    expected = {(m, n) for m, ns in mods.items() for n in ns}
    if not expected:
        log('no roots for', prop)
        sys.exit(2)
    from interp import Prog
    jobs = []
    paths = []
    for config in configs:
        # programs named *_simd exist only when the target has the vector instructions
        want = {x for x in expected if x[1].endswith('_simd') == (config == 'simd')}
        with Lock():
            path, txt = dump(config, sorted({m for m, n in want}))
        if path is None:
            ok, why = repo_builds()
            errs = '\n'.join(l for l in txt.splitlines() if l.startswith('error') or '-->' in l)[:1500]
            if not ok:
                log('the repository does not build:\n' + why[-3000:])
                sys.exit(2)
            rep.violation('%s|specification does not compile against the public API' % prop,
                          {'rule': 'the public interface the property speaks about must exist', 'compiler': errs})
            return None
        paths.append(path)
        prog = Prog(path)
        prog.overflow = config != 'release'
        got = set()
        for full in prog.roots:
            m = re.match(r'harness::(\w+)::(\w+)$', full)
            if m and (m.group(1), m.group(2)) in want:
                got.add((m.group(1), m.group(2)))
                if only(config, m.group(2)):
                    par = mods[m.group(1)][m.group(2)]
                    if par:
                        jobs.extend((config, prog, full, {par: w}) for w in BIND[par](prop, config, m.group(2), rep.tier))
                    else:
                        jobs.append((config, prog, full, None))
        miss = want - got
        if miss:
            log('roots missing from the dump:', sorted(miss))
            sys.exit(2)
    for p in paths:
        os.remove(p)
    jobs.sort(key=lambda j: -weight(j[2], j[3]))

    def key_of(root, k, m, site):
        return '%s|%s|%s|%s|%s' % (prop, root.split('::')[-1], k, construct(site)[0], re.sub(r'\d+', '#', m))

    def decisive(root, k, m, site):
        return (prop != 'P08' or k == 'ub') and (prop, key_of(root, k, m, site)) not in rep.known

    results = analyse_all(jobs, rep.t0 + DEADLINE, decisive)
    obl = {}
    alive = {}
    disch = 0
    total = 0
    undecided = []
    fns = set()
    loops = {}
    steps = 0
    for r in sorted(results, key=lambda r: (r['root'], r['config'])):
        root = r['root'].split('::')[-1]
        probs = r['problems']
        bad = [p for p in probs if p[0] != 'undecided']
        if prop == 'P08':
            bad = [p for p in bad if p[0] == 'ub']
        und = [p for p in probs if p[0] == 'undecided']
        n = sum(r.get('obl', {}).values())
        for k, v in r.get('obl', {}).items():
            obl[k] = obl.get(k, 0) + v
        total += n + len(probs)
        disch += n
        fns.update(r.get('fns', ()))
        steps += r.get('steps', 0)
        for k, v in (r.get('loops') or {}).items():
            loops[k] = loops.get(k, 0) + v
        for k, m, site, w in und:
            undecided.append('%s%s [%s] %s at %s' % (root, r.get('bind') or '', r['config'], m, construct(site)[0]))
        for k, m, site, w in bad:
            c = construct(site)
            rep.violation(key_of(root, k, m, site), {
                'construct': '%s (%s)' % (c[0], c[1]), 'root': r['root'], 'config': r['config'], 'kind': k, 'fixed': r.get('bind'),
                'message': m, 'example': w, 'path': ['%s (%s)' % tuple(s) for s in site],
                'rule': RULES.get(k, k)})
        alive[r['root'], r['config']] = alive.get((r['root'], r['config'])) or bool(probs) or \
            bool(r.get('obl', {}).get('panic') if 'reject' in root else r.get('returns'))
    for (full, config), ok in sorted(alive.items()):
        root = full.split('::')[-1]
        if not ok and prop != 'P08':
            rep.violation('%s|%s|no analysed call comes back' % (prop, root), {
                'root': full, 'config': config,
                'rule': 'a permitted call must return and a forbidden one must be rejected; no abstract state does either'})
    for u in undecided:
        log('UNDECIDED', u)
    return {
        'obligations': total, 'discharged': disch, 'obligations_by_kind': obl, 'undecided': undecided[:50],
        'analyses_skipped_after_a_violation': len(jobs) - len(results),
        'roots': len({r['root'] for r in results}), 'widths': len({str(r.get('bind')) for r in results if r.get('bind')}), 'analyses': len(results), 'configurations': list(configs),
        'functions_analysed': len(fns), 'functions_of_the_crate': sorted(f for f in fns if 'succinct_neo' in f)[:400],
        'abstract_steps': steps, 'loops': loops,
        'checker_cmd': 'python3 /verif/check.py %s' % prop, 'trusted_base': TRUSTED,
        'samples': [{'root': r['root'], 'config': r['config'], 'obligations': r.get('obl'), 'wall_s': r.get('wall')}
                    for r in results[:12]],
        'rule': 'each root is analysed for arbitrary arguments by abstract interpretation of the MIR reachable from '
                'it; an obligation is discharged when no state of the computed invariant violates it',
    }


def witness_check(rep, files):
    import witness
    with Lock():
        res, txt = witness.run(VERIF, files, os.getpid())
    if res is None:
        log('the repository does not build:\n' + txt[-3000:])
        sys.exit(2)
    undecided = []
    for c, kind, what in res:
        if kind == 'violation':
            rep.violation('%s|%s|%s' % (rep.prop, c.name, 'rejected' if c.accept else 'accepted'), {
                'construct': c.conflict(), 'program': ' '.join(l.strip() for l in c.full()), 'message': what,
                'rule': 'the program must be accepted by the type checker' if c.accept else
                        'the program must be rejected by the type checker; it is accepted although it differs from an '
                        'innocuous program only in the construct'})
        elif kind == 'undecided':
            undecided.append('%s: %s' % (c.name, what))
            log('UNDECIDED', undecided[-1])
    return {'programs': len(res), 'programs_decided_as_required': sum(k == 'ok' for _, k, _ in res),
            'undecided_programs': undecided[:50],
            'program_rule': 'each program is type-checked as written and without the tested line; the latter must be accepted, '
                            'the former accepted or rejected as stated in witness/*.rs',
            'program_samples': ['%s: %s' % (c.name, w) for c, _, w in res[:10]]}


RULES = {
    'panic': 'a permitted call must not panic',
    'ub': 'no reachable undefined behaviour (out-of-bounds or dangling access, invalid value, misuse of an unsafe operation)',
    'failed': 'the stated relation between the results must hold in every reachable state',
}

HEAVY = ('p07_mixed', 'p07_', 'p05_', 'p04_')


def weight(name, bind):
    n = name.split('::')[-1]
    if bind and 'part' in bind:
        return 100 if 'select' in n else 10
    if bind:
        w = bind['width']
        return 20 + (w if w % 2 else 0) if any(x in n for x in DIRECT) else 0
    for i, h in enumerate(HEAVY):
        if n.startswith(h):
            return len(HEAVY) - i
    return 0


def only(config, root):
    return True


CONFIGS = {p: ['dev', 'release', 'simd'] for p in ('P08', 'P14')}
WITNESS = {'P16': ['borrow'], 'P17': ['threads'], 'P21': ['length']}


def main():
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv else 'quick'
    ensure_built()
    rep = Report(prop, tier)
    level = 'proof'
    cov = {}
    if prop in WITNESS:
        level = 'other'
        cov.update(witness_check(rep, WITNESS[prop]))
    if prop != 'P16':
        cov.update(analysis_check(rep, CONFIGS.get(prop, ['dev', 'release'])) or
                   {'obligations': 1, 'discharged': 0, 'checker_cmd': 'cargo build (harness)', 'trusted_base': TRUSTED})
    rep.finish(level, cov)


if __name__ == '__main__':
    main()
