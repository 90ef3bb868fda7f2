"""Plants a bug: writes seeded/<id>/ and confirms it (builds, passes the tests, demo fails with it and passes without).

usage: seed.py SPEC.py ...   where SPEC.py sets id, prop, needs, breaks, edits=[(file, old, new)...], demo (python, uses lsp.py)"""
import json
import os
import re
import shutil
import subprocess
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SW = '/tmp/sw'
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',
           CARGO_TERM_COLOR='never', CARGO_TARGET_DIR=SW + '/target')


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def prepare():
    head = sh('git -C /repo rev-parse HEAD').stdout.strip()
    if not os.path.exists(SW):
        sh('cp -a /repo ' + SW)
    sh('git -C %s checkout -q -f %s -- . ; git -C %s clean -qfd' % (SW, head, SW))
    if sh('git -C %s rev-parse HEAD' % SW).stdout.strip() != head:
        sh('git -C %s fetch -q /repo && git -C %s checkout -q -f %s' % (SW, SW, head))


def build():
    r = sh('cargo build --workspace --locked --offline && cargo test --workspace --no-run --locked --offline', cwd=SW, env=ENV)
    return r.returncode == 0, r.stderr[-3000:]


def tests():
    r = sh('cargo test --workspace --no-fail-fast --locked --offline -- --test-threads 8', cwd=SW, env=ENV)
    ok = set(re.findall(r'^test (\S+) \.\.\. ok', r.stdout, re.M))
    want = {x.split('::', 1)[1] for x in json.load(open('/opt/vp/BASELINE.json'))['stable']}
    return {w for w in want if not any(w.endswith(o) for o in ok)}


def own_lines():
    """lines added by fix commits, per file"""
    base = sh("git -C /repo log --format=%h --grep='^base' | tail -1").stdout.strip() or 'ad40d0c'
    d = sh('git -C /repo diff %s HEAD' % base).stdout
    out, f = {}, None
    for l in d.split('\n'):
        if l.startswith('+++ b/'):
            f = l[6:]
        elif l.startswith('+') and not l.startswith('+++'):
            out.setdefault(f, set()).add(l[1:])
    return out


def main(specs):
    for sp in specs:
        ns = {}
        exec(open(sp).read(), ns)
        prepare()
        d = os.path.join(ROOT, 'seeded', ns['id'])
        for f, old, new in ns['edits']:
            p = os.path.join(SW, f)
            s = open(p).read()
            assert s.count(old) == 1, (ns['id'], f, 'matches', s.count(old), old[:80])
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git -C %s diff' % SW).stdout
        own = own_lines()
        f = None
        removed = []
        for l in diff.split('\n'):
            if l.startswith('--- a/'):
                f = l[6:]
            elif l.startswith('-') and not l.startswith('---'):
                removed.append((f, l[1:]))
        if removed and all(t in own.get(f, ()) for f, t in removed):
            print(ns['id'], 'WARNING: changes only lines of fix commits')
        if not removed:
            print(ns['id'], 'note: only adds lines')
        ok, err = build()
        if not ok:
            print(ns['id'], 'DOES NOT BUILD', err)
            continue
        bad = tests()
        if bad:
            print(ns['id'], 'FAILS TESTS', sorted(bad))
            continue
        os.makedirs(d, exist_ok=True)
        with open(d + '/patch.diff', 'w') as o:
            o.write(diff)
        shutil.copy(os.path.join(ROOT, 'tools', 'lsp.py'), d + '/lsp.py')
        for n, t in ns.get('files', {}).items():
            open(os.path.join(d, n), 'w').write(t)
        with open(d + '/demo.py', 'w') as o:
            o.write("import os\nimport sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nimport lsp\n\n\ndef check(ok, what):\n    if not ok:\n        print('FAILED:', what)\n        sys.exit(1)\n\n\n" + ns['demo'].strip() + "\nprint('holds')\n")
        with open(d + '/demo.sh', 'w') as o:
            o.write('#!/bin/bash\nexec timeout 280 python3 "$(dirname "$0")/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': ns['prop'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        a = sh('bash %s/demo.sh' % d, cwd=SW)
        b = sh('bash %s/demo.sh' % d, cwd='/repo')
        print(ns['id'], 'patched rc', a.returncode, (a.stdout + a.stderr).strip()[-200:].replace('\n', ' / '), '| unchanged rc', b.returncode, (b.stdout + b.stderr).strip()[-300:].replace('\n', ' / '))
        if a.returncode == 0 or b.returncode != 0:
            print('   NOT CONFIRMED')
    prepare()


if __name__ == '__main__':
    main(sys.argv[1:])
