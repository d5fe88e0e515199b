"""Client programs that the type checker must accept or reject (never run)."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess

BORROW = set('E0373 E0381 E0382 E0499 E0502 E0503 E0505 E0506 E0507 E0515 E0521 E0594 E0596 E0597 E0712 E0713 E0716'.split())


class Case:
    def __init__(self, name, accept, codes):
        self.name, self.accept = name, accept
        self.codes = set()
        for c in codes or ['borrow']:
            self.codes |= BORROW if c == 'borrow' else {c}
        self.lines = []

    def full(self):
        return [l for l in self.lines if not l.rstrip().endswith('//-')]

    def twin(self):
        return [l for l in self.lines if not l.rstrip().endswith('//!')]

    def conflict(self):
        return ' '.join(l.rstrip()[:-3].strip() for l in self.lines if l.rstrip().endswith('//!'))


def cases(path):
    out = []
    for l in open(path):
        m = re.match(r'//([#+]) (\w+)(?: (\S+))?$', l.rstrip())
        if m:
            out.append(Case(m.group(2), m.group(1) == '+', m.group(3).split(',') if m.group(3) else None))
        elif out and not l.startswith('//') and l.strip():
            out[-1].lines.append(l)
    return out


def library(verif):
    """builds the crate; returns (metadata, directories of dependencies) or None and the compiler output"""
    target = os.path.join(verif, 'build', 'target-witness')
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_TERM_COLOR='never')
    for k in ('RUSTFLAGS', 'RUSTC_WORKSPACE_WRAPPER'):
        env.pop(k, None)
    subprocess.run(['cargo', '+nightly', 'clean', '--offline', '-p', 'succinct_neo'], cwd=os.path.join(verif, 'harness'),
                   env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run(['cargo', '+nightly', 'build', '--offline', '--message-format=json'],
                       cwd=os.path.join(verif, 'harness'), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    lib, dirs = None, []
    for l in r.stdout.splitlines():
        try:
            j = json.loads(l)
        except ValueError:
            continue
        if j.get('reason') == 'compiler-artifact':
            dirs += [d for d in map(os.path.dirname, j['filenames']) if d not in dirs]
        if j.get('reason') == 'compiler-artifact' and j['target']['name'] == 'succinct_neo':
            lib = [f for f in j['filenames'] if f.endswith('.rmeta')][0]
    if r.returncode or not lib:
        return None, r.stderr
    return (lib, dirs), ''


def program(verif, lines, name):
    return open(os.path.join(verif, 'witness', 'prelude.rs')).read() + 'pub fn %s() {\n' % name + ''.join(re.sub(r' //[!-]$', '', l.rstrip()) + '\n' for l in lines) + '}\n'


def check(lib, work, name, text):
    """[(code, message, text of the line)] of the errors"""
    src = os.path.join(work, name + '.rs')
    with open(src, 'w') as f:
        f.write(text)
    r = subprocess.run(['rustc', '+nightly', '--edition', '2021', '--crate-type', 'lib', '--emit', 'metadata',
                        '--error-format', 'json', '-o', os.path.join(work, name + '.rmeta'), '--extern', 'succinct_neo=' + lib[0],
                        src] + ['-Ldependency=' + d for d in lib[1]], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    out = []
    for l in r.stderr.splitlines():
        try:
            j = json.loads(l)
        except ValueError:
            continue
        if j.get('level') == 'error' and (j.get('code') or j.get('spans')):
            out.append(((j.get('code') or {}).get('code', ''), j['message']))
    if r.returncode and not out:
        out.append(('', r.stderr[-300:]))
    return out


def run(verif, names, pid):
    """results: [(case, 'ok' | 'violation' | 'undecided', text)]; None if the crate does not build"""
    lib, txt = library(verif)
    if lib is None:
        return None, txt
    work = os.path.join(verif, 'build', 'witness-%d' % pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    todo = [(n, c) for n in names for c in cases(os.path.join(verif, 'witness', n + '.rs'))]

    def one(a):
        n, c = a
        full = check(lib, work, '%s_%s_full' % (n, c.name), program(verif, c.full(), c.name))
        twin = check(lib, work, '%s_%s_twin' % (n, c.name), program(verif, c.twin(), c.name))
        if twin:
            return c, 'undecided', 'the program without the tested line is rejected: %s %s' % twin[0]
        if c.accept:
            if not full:
                return c, 'ok', 'accepted'
            if all(e in c.codes for e, _ in full):
                return c, 'violation', 'the program is rejected: %s %s' % full[0]
            return c, 'undecided', 'unexpected error: %s %s' % full[0]
        if not full:
            return c, 'violation', 'the program is accepted'
        if any(e in c.codes for e, _ in full):
            return c, 'ok', 'rejected: %s %s' % [x for x in full if x[0] in c.codes][0]
        return c, 'undecided', 'unexpected error: %s %s' % full[0]

    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        res = list(ex.map(one, todo))
    shutil.rmtree(work, ignore_errors=True)
    return res, ''
