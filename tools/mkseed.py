#!/usr/bin/env python3
"""Developer tool: write /verif/seeded/<id>/ from tools/seeds/<id>.py and validate each in a scratch copy.

  mkseed.py [--check] [ID-SUBSTRING]...

tools/seeds/<id>.py defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEPS (text of the demo's
dependencies) and DEMO (text of its main.rs).  Validation: the patched copy builds, the baseline tests pass, and
demo.sh exits 0 on the unchanged tree and nonzero with the patch.
"""
import sys, os, subprocess, json, glob, re

V = '/verif'
W = '/tmp/seedwork'
DEMO_SH = '''#!/bin/bash
# builds a small program against the crates of the current directory and runs it; exits 0 when they behave
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" || exit 3
sed "s#@REPO@#$repo#g" "$here/demo.toml" > "$d/Cargo.toml"
if [ -f "$repo/Cargo.lock" ]; then cp "$repo/Cargo.lock" "$d/"; elif [ -f /opt/vp/Cargo.lock ]; then cp /opt/vp/Cargo.lock "$d/"; fi
cd "$d" || exit 3
CARGO_TARGET_DIR="$d/target" cargo build --offline -q 2> "$d/log" || { cat "$d/log"; exit 4; }
timeout 120 "$d/target/debug/demo"
'''
TOML = '''[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[profile.dev]
opt-level = 1
debug = false
[workspace]
[dependencies]
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def write(i):
    ns = {}
    exec(open('%s/tools/seeds/%s.py' % (V, i)).read(), ns)
    d = '%s/seeded/%s' % (V, i)
    os.makedirs(d, exist_ok=True)
    R = W + '/edit'
    sh('rm -rf %s && mkdir -p %s && cd /repo && git archive HEAD | tar xf - -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x' % (R, R, R, R))
    for f, old, new in ns['EDITS']:
        p = os.path.join(R, f)
        s = open(p).read()
        if s.count(old) < 1:
            raise SystemExit('%s: not found in %s: %s' % (i, f, old[:80]))
        open(p, 'w').write(s.replace(old, new, 1))
    open(d + '/patch.diff', 'w').write(sh('git diff', cwd=R).stdout)
    open(d + '/demo.sh', 'w').write(DEMO_SH)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.rs', 'w').write(ns['DEMO'].lstrip('\n'))
    open(d + '/demo.toml', 'w').write(TOML + ns['DEPS'].strip() + '\n')
    json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
              open(d + '/meta.json', 'w'), indent=1)
    return ns['PROPERTY']


def check(i, prop):
    R = W + '/repo'
    d = '%s/seeded/%s' % (V, i)
    if not os.path.isdir(R):
        sh('mkdir -p %s && cp -a /repo/. %s' % (R, R))
    sh('git checkout -q -f %s -- . ; git -C %s checkout -q -f .' % ('HEAD', R), cwd=R)
    sh('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD', cwd=R)
    a = sh('bash %s/demo.sh' % d, cwd=R)
    r = sh('git apply %s/patch.diff' % d, cwd=R)
    if r.returncode:
        return 'patch does not apply: ' + r.stdout
    b = sh('bash %s/demo.sh' % d, cwd=R)
    env = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
    t = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8', cwd=R, env=env)
    bad = re.findall(r'^test (.*) \.\.\. FAILED', t.stdout, re.M)
    bad = [x for x in bad if x != 'tests::test_connect']    # fails on the pinned tree
    n = len(re.findall(r'^test (.*) \.\.\. ok', t.stdout, re.M))
    env = dict(os.environ, JESTER_REPO=R, JESTER_CACHE=W + '/cache')
    c = subprocess.run(['python3', '-m', 'jsa.main', prop], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    sh('git checkout -q -f .', cwd=R)
    caught = c.returncode == 1 and 'VIOLATION property=%s' % prop in c.stdout
    out = 'clean demo %d, patched demo %d, tests ok %d failed %s, %s' % (a.returncode, b.returncode, n, bad, 'CAUGHT' if caught else 'not caught (%d)' % c.returncode)
    good = a.returncode == 0 and b.returncode not in (0, 3, 4) and not bad and n == 29
    if not good:
        out += '\n' + a.stdout[-800:] + '\n--\n' + b.stdout[-800:]
    return ('good ' if good else 'BAD ') + out


for f in sorted(glob.glob(V + '/tools/seeds/*.py')):
    i = os.path.basename(f)[:-3]
    if i[0] == '_':
        continue
    sel = [x for x in sys.argv[1:] if not x.startswith('--')]
    if sel and not any(x in i for x in sel):
        continue
    p = write(i)
    if '--check' in sys.argv:
        print(i, check(i, p), flush=True)
