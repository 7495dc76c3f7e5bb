#!/usr/bin/env python3
"""mkref.py SPEC.py ... -- apply behaviour-preserving edits one at a time in a scratch copy and list every
obligation that is not proved afterwards ('violated' would be a false alarm, 'undecided' a loss of power).
A SPEC defines REFS = [dict(id, edits=[(file, old, new)], count=0)]; env ONLY=ids, CHK=checks."""
import sys, os, subprocess, json, shutil, time
from concurrent.futures import ProcessPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/w/ref'
def sh(c, cwd, **k): return subprocess.run(c, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def fresh():
    if not os.path.isdir(W):
        os.makedirs('/tmp/w', exist_ok=True)
        sh('git clone -q /repo ' + W + '; cp /repo/Cargo.lock ' + W, '/')
    sh('git checkout -q -- . && git clean -fdq -e Cargo.lock -e target && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD; cp /repo/Cargo.lock .', W)
def run(a):
    d, i = a
    env = {**os.environ, 'VERIF_DUMP': '1'}
    out = ''
    for be in ('md5', 'openssl'):
        r = subprocess.run(['timeout', '400', 'python3', V + '/tools/onecheck.py', f'{d}/{be}.json', i, W], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
        ls = [l for l in r.stdout.splitlines() if not l.startswith('STAT')]
        st = ''.join(l for l in r.stdout.splitlines() if l.startswith('STAT'))
        ls = sorted(ls, key=lambda l: ' violated ' not in l)
        out += ''.join(f'{be} {l[:int(os.environ.get("WIDTH", "260"))]}\n' for l in ls[:4])
        if len(ls) > 4 or float((st.split() or ['0s'])[-1][:-1]) > 100: out += f'{be} {st}\n'
        if r.returncode: out += f'{be} {i} rc {r.returncode}\n'
    return out
def main():
    sys.path.insert(0, V)
    only = os.environ.get('ONLY'); only = only.split(',') if only else None
    for f in sys.argv[1:]:
        g = {}; exec(open(f).read(), g)
        for b in g['REFS']:
            if only and b['id'] not in only: continue
            fresh()
            bad = False
            for fn, old, new in b['edits']:
                p = os.path.join(W, fn); s = open(p).read()
                if s.count(old) < 1: print(b['id'], 'EDIT NOT FOUND', fn, old[:60]); bad = True; break
                s = s.replace(old, new, b.get('count', 0) or s.count(old)); open(p, 'w').write(s)
            if bad: continue
            os.makedirs('/tmp/ref/diff', exist_ok=True)
            open(f'/tmp/ref/diff/{b["id"]}.diff', 'w').write(sh('git diff', W).stdout)
            d = f'/tmp/ref/d'
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            r = sh(f'VERIF_REPO={W} python3 {V}/tools/dump.py {d}', V)
            if r.returncode: print(b['id'], 'DOES NOT BUILD', r.stdout[-1500:]); continue
            if not os.environ.get('NOTEST'):
                t = sh('cargo nextest run --workspace --offline --no-fail-fast 2>&1 | tail -15', W)
                if 'passed' not in t.stdout or 'failed' in t.stdout or 'error' in t.stdout: print(b['id'], 'TESTS FAIL', t.stdout[-800:]); continue
            ids = os.environ.get('CHK', '').split() or g.get('ALL') or sh('python3 -c "import sys;sys.path.insert(0,\'sa\');import registry;print(*sorted(registry.CHECKS))"', V).stdout.split()
            t0 = time.time()
            with ProcessPoolExecutor(6) as ex: rs = list(ex.map(run, [(d, i) for i in ids]))
            txt = ''.join(rs)
            print(f'== {b["id"]}: {"quiet" if " violated " not in txt else "FALSE ALARM"}{"" if not txt else ", " + str(len(txt.splitlines())) + " open"} {time.time() - t0:.0f}s', flush=True)
            if txt: print(txt, end='', flush=True)
if __name__ == '__main__': main()
