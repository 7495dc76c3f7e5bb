#!/usr/bin/env python3
"""mkbug.py SPEC.py ...  -- confirm planted bugs in a scratch copy and store them under seeded/.
A SPEC defines BUGS = [dict(id, prop, edits=[(file, old, new)], demo=<rust main>, needs, what, deps='')]."""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/w/bug'
def sh(c, cwd, **k): return subprocess.run(c, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO = '''#!/bin/bash
# run in the repository: exit 0 when the guarantee holds, nonzero when it is broken
set -e
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
cat > "$T/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
radius = { path = "$R/radius"@FEAT@ }
@DEPS@
E
cp "$R/Cargo.lock" "$T/" 2>/dev/null || true
cd "$T"
cargo build --offline -q --target-dir "${DEMO_TARGET:-$T/target}"
RUST_BACKTRACE=0 timeout 100 "${DEMO_TARGET:-$T/target}/debug/demo"
'''
GENDEMO = '''#!/bin/bash
# run in the repository: exit 0 when the guarantee holds, nonzero when it is broken
# the generator is run on the shipped dictionaries, and the crate with the modules it wrote is used by main.rs
set -e
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
G="${DEMO_TARGET:-$T/target}"
mkdir -p "$T/src" "$T/out" "$T/copy/radius"
cargo build --offline -q -p code-generator --target-dir "$G"
timeout 60 "$G/debug/code-generator" --out-dir="$T/out" "$R"/dicts/dictionary.*
cp -r "$R/radius/src" "$R/radius/Cargo.toml" "$T/copy/radius/"
cp "$T"/out/*.rs "$T/copy/radius/src/core/"
cat > "$T/copy/Cargo.toml" <<E
[workspace]
members = ["radius"]
E
cp "$D/main.rs" "$T/src/main.rs"
cat > "$T/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
radius = { path = "$T/copy/radius"@FEAT@ }
@DEPS@
E
cp "$R/Cargo.lock" "$T/" 2>/dev/null || true
cp "$R/Cargo.lock" "$T/copy/" 2>/dev/null || true
cd "$T"
cargo build --offline -q --target-dir "$G"
RUST_BACKTRACE=0 timeout 100 "$G/debug/demo"
'''
def fresh():
    if not os.path.isdir(W):
        os.makedirs('/tmp/w', exist_ok=True)
        sh('cp -a /repo ' + W, '/')
    sh('git checkout -q -- . && git clean -fdq && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', W)
def demo(d, cwd, tgt):
    return sh('bash ' + d + '/demo.sh', cwd, env={**os.environ, 'DEMO_TARGET': tgt})
def tests():
    r1 = sh('cargo nextest run --workspace --offline --no-fail-fast 2>&1 | tail -15', W)
    r2 = sh('cargo nextest run --offline --no-default-features --features openssl 2>&1 | tail -15', W + '/radius')
    ok = ' 0 failed' in r1.stdout or ('passed' in r1.stdout and 'failed' not in r1.stdout)
    ok2 = 'passed' in r2.stdout and 'failed' not in r2.stdout and 'error' not in r2.stdout
    ok = 'passed' in r1.stdout and 'failed' not in r1.stdout and 'error' not in r1.stdout
    return ok and ok2, r1.stdout + r2.stdout
def one(b, check=True):
    fresh()
    for f, old, new in b['edits']:
        p = os.path.join(W, f); s = open(p).read()
        if s.count(old) < 1: print(b['id'], 'EDIT NOT FOUND', f, old[:60]); return
        cnt = b.get('count', 1)
        s = s.replace(old, new) if cnt == 0 else s.replace(old, new, cnt)
        open(p, 'w').write(s)
    diff = sh('git diff', W).stdout
    if not b.get('notest'):
        ok, log = tests()
        if not ok: print(b['id'], 'TESTS FAIL', log[-1500:]); return
    d = os.path.join('/tmp/w/seed', b['id']); os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/main.rs', 'w').write(b['demo'])
    feat = b.get('feat', '')
    open(d + '/demo.sh', 'w').write((GENDEMO if b.get('gen') else DEMO).replace('@DEPS@', b.get('deps', '')).replace('@FEAT@', feat))
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['what']}, open(d + '/meta.json', 'w'), indent=1)
    r = demo(d, W, '/tmp/w/tgt-bug' + ('s' if feat else ''))
    if r.returncode == 0: print(b['id'], 'DEMO PASSES WITH BUG'); return
    r0 = demo(d, '/repo', '/tmp/w/tgt-base' + ('s' if feat else ''))
    if r0.returncode != 0: print(b['id'], 'DEMO FAILS ON BASE', r0.stdout[-1500:]); return
    out = os.path.join(V, 'seeded', b['id'])
    shutil.rmtree(out, ignore_errors=True); shutil.copytree(d, out)
    print(b['id'], b['prop'], 'confirmed;', 'bug says:', r.stdout.strip()[-160:].replace('\n', ' '))
    if check:
        for p in b.get('checks', [b['prop']]):
            c = sh(f'VERIF_REPO={W} python3 {V}/check.py {p}', V)
            print('   check', p, '->', c.returncode, c.stdout.strip()[-500:] if c.returncode not in (0, 1) else '\n        '.join(l[:400] for l in c.stdout.strip().split('\n')[-4:]))
for f in sys.argv[1:]:
    g = {}
    exec(open(f).read(), g)
    only = os.environ.get('ONLY')
    for b in g['BUGS']:
        if only and b['id'] not in only.split(','): continue
        one(b)
