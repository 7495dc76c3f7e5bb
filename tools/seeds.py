"""seeds.py [IDs] -- run the check of its property on each planted bug (development helper; no check uses it)"""
import sys, os, subprocess, json, shutil, queue
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, cwd, **k): return subprocess.run(c, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
N = int(os.environ.get('SLOTS', '4')); slots = queue.Queue()
for i in range(N): slots.put(i)
def one(n):
    i = slots.get(); W = f'/tmp/w/seed{i}'
    try:
        p = json.load(open(f'{V}/seeded/{n}/meta.json'))['property']
        if not os.path.isdir(W): os.makedirs('/tmp/w', exist_ok=True); sh(f'git clone -q /repo {W}', '/')
        sh('git checkout -q -- . && git clean -fdq -e target && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD; cp /repo/Cargo.lock .', W)
        if sh(f'git apply {V}/seeded/{n}/patch.diff', W).returncode: return n, p, 'DOES NOT APPLY'
        if p == 'C27':
            r = sh(f'VERIF_REPO={W} timeout 800 python3 {V}/check.py {p}', V)
            return n, p, 'caught' if r.returncode == 1 and 'VIOLATION' in r.stdout else 'MISSED ' + r.stdout[:200]
        d = f'/tmp/w/seedd{i}'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        q = sh(f'VERIF_REPO={W} python3 {V}/tools/dump.py {d}', V, env={**os.environ, 'VB': f's{i}'})
        if q.returncode: return n, p, 'DOES NOT BUILD ' + q.stdout[-300:]
        open_ = []
        for be in ('md5', 'openssl'):
            r = sh(f'timeout 600 python3 {V}/tools/onecheck.py {d}/{be}.json {p} {W}', V)
            if any(l.startswith(p + ' violated') for l in r.stdout.splitlines()): return n, p, 'caught ' + be
            open_ += [l[:150] for l in r.stdout.splitlines()]
        return n, p, 'MISSED ' + ' | '.join(open_[:3])
    finally: slots.put(i)
ns = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
with ThreadPoolExecutor(N) as ex: rs = list(ex.map(one, ns))
for r in rs:
    if not r[2].startswith('caught') or os.environ.get('ALL'): print(*r)
print(sum(r[2].startswith('caught') for r in rs), 'of', len(rs), 'caught')
