"""Obtains the compiler's view of /repo (MIR, types, resolved callees) and loads it.

The facts are produced by driver/ (a rustc driver) under the real build
(`cargo check --workspace`), from /repo's current working tree, and cached under
.cache keyed by a hash of every source file.
"""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
DRIVER = os.path.join(VERIF, 'driver')
TOOLCHAIN = 'nightly-x86_64-unknown-linux-gnu'


def sysroot():
    env = dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN)
    return subprocess.check_output(['rustc', '--print', 'sysroot'], env=env, text=True).strip()


def tool_env():
    env = dict(os.environ)
    env['RUSTUP_TOOLCHAIN'] = TOOLCHAIN
    env['LD_LIBRARY_PATH'] = sysroot() + '/lib'
    env['CARGO_NET_OFFLINE'] = 'true'
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET'):
        env.pop(k, None)
    return env


def source_files():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('.git', 'target', 'node_modules'))
        for f in sorted(files):
            p = os.path.join(root, f)
            if f.endswith(('.rs', '.toml', '.lock', '.scm', '.md')):
                out.append(p)
    return out


def digest():
    h = hashlib.sha256()
    for p in source_files():
        h.update(os.path.relpath(p, REPO).encode())
        with open(p, 'rb') as f:
            h.update(b'\0' + f.read() + b'\0')
    with open(os.path.join(DRIVER, 'src', 'main.rs'), 'rb') as f:
        h.update(f.read())
    h.update(REPO.encode())
    return h.hexdigest()[:24]


def build_driver():
    exe = os.path.join(DRIVER, 'target', 'debug', 'mirfacts')
    src = os.path.join(DRIVER, 'src', 'main.rs')
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        return exe
    r = subprocess.run(['cargo', 'build', '--offline'], cwd=DRIVER, env=tool_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise SystemExit('driver does not build:\n' + r.stdout[-4000:])
    os.utime(exe)
    return exe


def produce():
    """directory with the facts of the current tree"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = os.path.join(CACHE, 'facts-' + digest())
        if os.path.exists(os.path.join(d, 'ok')):
            os.utime(d)
            return d
        exe = build_driver()
        for old in sorted((os.path.join(CACHE, x) for x in os.listdir(CACHE) if x.startswith('facts-')),
                          key=os.path.getmtime)[:-6]:
            shutil.rmtree(old, ignore_errors=True)
        tgt = os.path.join(CACHE, 'target')
        # the wrapper only runs for crates cargo thinks it must check again
        for sub in ('.fingerprint', 'build'):
            b = os.path.join(tgt, 'debug', sub)
            if os.path.isdir(b):
                for x in os.listdir(b):
                    if x.startswith('jinja'):
                        shutil.rmtree(os.path.join(b, x), ignore_errors=True)
        tmp = d + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        env = tool_env()
        env['MIRFACTS_OUT'] = tmp
        env['CARGO_TARGET_DIR'] = tgt
        env['RUSTC_WORKSPACE_WRAPPER'] = exe
        r = subprocess.run(['cargo', 'check', '--workspace', '--locked', '--offline'], cwd=REPO, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise SystemExit('/repo does not build:\n' + r.stdout[-4000:])
        need = ('jinja_lsp-bin', 'jinja_lsp-lib', 'jinja_lsp_queries-lib', 'jinja_lsp_nodejs-lib')
        for n in need:
            if not os.path.exists(os.path.join(tmp, n + '.json')):
                raise SystemExit('no facts for %s:\n%s' % (n, r.stdout[-2000:]))
        open(os.path.join(tmp, 'ok'), 'w').close()
        shutil.rmtree(d, ignore_errors=True)
        os.rename(tmp, d)
        return d


def features(name):
    """features a dependency is compiled with"""
    r = subprocess.run(['cargo', 'metadata', '--format-version', '1', '--locked', '--offline'], cwd=REPO, env=tool_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    if r.returncode != 0:
        raise SystemExit('no metadata of /repo')
    m = json.loads(r.stdout)
    ids = {p['id'] for p in m['packages'] if p['name'] == name}
    return {f for n in m['resolve']['nodes'] if n['id'] in ids for f in n['features']}


_gen = re.compile(r'::<')


def strip_generics(p):
    """a::B::<T, U>::c -> a::B::c ; keeps <X as Trait>::m"""
    out = []
    i = 0
    n = len(p)
    while i < n:
        if p.startswith('::<', i) and not p.startswith('::<impl', i):
            depth = 0
            j = i + 2
            while j < n:
                if p[j] == '<':
                    depth += 1
                elif p[j] == '>' and p[j - 1] not in '-=':
                    depth -= 1
                    if depth == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    return ''.join(out)


_impl = re.compile(r'<impl ([^<>]*?(?:<.*>)?)>')


def norm(p):
    """full normalised path"""
    p = strip_generics(p)
    p = p.replace('<impl [T]>', 'slice').replace('<impl str>', 'str')
    p = re.sub(r'<impl \*(const|mut) T>', 'rawptr', p)
    p = re.sub(r'<impl (\w+)>', r'\1', p)
    return p


def short(p):
    """last two segments"""
    if p.startswith('<'):
        return p
    s = p.split('::')
    return '::'.join(s[-2:])


class Crate(object):
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.name = d['crate']
        self.ctype = d['ctype']
        self.types = d['types']
        self.adts = {a['p']: a for a in d['adts']}
        self.bodies = {}
        for b in d['bodies']:
            b['crate'] = self
            self.bodies[b['key']] = b


class Program(object):
    def __init__(self, d, names):
        self.dir = d
        self.crates = [Crate(os.path.join(d, n + '.json')) for n in names]
        self.bodies = {}
        self.adts = {}
        for c in self.crates:
            for k, b in c.bodies.items():
                self.bodies.setdefault(k, b)
            for p, a in c.adts.items():
                o = self.adts.get(p)
                if o is None or sum(f[1] >= 0 for v in a['variants'] for f in v['f']) > sum(f[1] >= 0 for v in o['variants'] for f in v['f']):
                    self.adts[p] = a
                    a['crate'] = c

    def nblocks(self):
        return sum(len(b['blocks']) for b in self.bodies.values())


def server(d=None):
    return Program(d or produce(), ['jinja_lsp-bin', 'jinja_lsp_queries-lib'])


def node(d=None):
    return Program(d or produce(), ['jinja_lsp_nodejs-lib', 'jinja_lsp-lib', 'jinja_lsp_queries-lib'])


if __name__ == '__main__':
    print(produce())
