#!/usr/bin/env python3
"""Decide one property of /repo's working tree by static analysis of its MIR.

  python3 check.py C04            analyse, write evidence/C04.json, exit 0 or 1
  python3 check.py --setup        build the MIR extractor and compile the dependencies

The program under analysis is never executed.  `cargo check` with the extractor as rustc wrapper turns
the current working tree into resolved MIR (once per digest back end); the rules in sa/ work on that."""
import sys, os, json, time, hashlib, subprocess, shutil, fcntl, signal, traceback, resource
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.path.join(V, '.build')
sys.path.insert(0, os.path.join(V, 'sa'))
sys.setrecursionlimit(20000)

def run(cmd, cwd, env=None, log=None):
    e = dict(os.environ); e.update(env or {})
    e.pop('RUSTFLAGS', None); e.pop('CARGO_TARGET_DIR', None)
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-4000:])
        raise SystemExit(f'cannot build: {" ".join(cmd)}')
    return r.stdout

def sha(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f: h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:24]

def driver():
    src = [os.path.join(V, 'driver', 'Cargo.toml')] + [os.path.join(V, 'driver', 'src', f) for f in os.listdir(os.path.join(V, 'driver', 'src'))]
    h = sha(src)
    exe = os.path.join(B, 'driver', 'release', 'mirdump')
    mark = os.path.join(B, 'driver.' + h)
    if not (os.path.exists(exe) and os.path.exists(mark)):
        run(['cargo', '+nightly', 'build', '--release', '--offline', '--target-dir', os.path.join(B, 'driver')], os.path.join(V, 'driver'))
        for f in os.listdir(B):
            if f.startswith('driver.'): os.remove(os.path.join(B, f))
        open(mark, 'w').close()
    return exe, h

def sources():
    out = []
    for root, ds, fs in os.walk(REPO):
        ds[:] = [d for d in ds if d not in ('target', '.git')]
        for f in fs:
            if f.endswith(('.rs', '.toml')) or f == 'Cargo.lock' or '/dicts' in root: out.append(os.path.join(root, f))
    return out

CONF = {'md5': (REPO, ['-p', 'radius', '-p', 'code-generator'], 'tgt-md5'),
        'openssl': (os.path.join(REPO, 'radius'), ['--no-default-features', '--features', 'openssl'], 'tgt-ssl')}

def dumps(which=('md5', 'openssl')):
    """{back end: dump path} for the current working tree, and {'gen': dump of the generator}"""
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe, dh = driver()
        h = sha(sources()) + dh[:8]
        out = {}
        d = os.path.join(B, 'dumps', h)
        if not os.path.isdir(d):
            old = os.path.join(B, 'dumps'); os.makedirs(old, exist_ok=True)
            for x in sorted(os.listdir(old), key=lambda x: os.path.getmtime(os.path.join(old, x)))[:-3]: shutil.rmtree(os.path.join(old, x), ignore_errors=True)
            os.makedirs(d)
        sysroot = subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], cwd=V, text=True).strip()
        procs = []
        for c in which:
            cwd, args, tgt = CONF[c]
            o = os.path.join(d, c)
            f = os.path.join(o, 'radius.lib.json')
            if not os.path.exists(os.path.join(o, 'done')):
                shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
                # the wrapper only runs for crates cargo considers stale: drop their build records (either layout)
                for sub in ('.fingerprint', 'build'):
                    fp = os.path.join(B, tgt, 'debug', sub)
                    for x in os.listdir(fp) if os.path.isdir(fp) else ():
                        if x.startswith(('radius-', 'code-generator-', 'radius', 'code-generator')): shutil.rmtree(os.path.join(fp, x))
                env = dict(os.environ)
                env.pop('RUSTFLAGS', None); env.pop('CARGO_TARGET_DIR', None)
                env.update(RUSTC_WORKSPACE_WRAPPER=exe, MIRDUMP_OUT=o, LD_LIBRARY_PATH=sysroot + '/lib')
                cmd = ['cargo', '+nightly', 'check', '--offline', *args, '--target-dir', os.path.join(B, tgt)]
                procs.append((c, o, cmd, subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
            out[c] = f
            if c == 'md5': out['gen'] = os.path.join(o, 'code_generator.bin.json')
        for c, o, cmd, p in procs:
            s, _ = p.communicate()
            if p.returncode != 0 or not os.path.exists(os.path.join(o, 'radius.lib.json')) or (c == 'md5' and not os.path.exists(os.path.join(o, 'code_generator.bin.json'))):
                sys.stderr.write(s[-4000:])
                shutil.rmtree(o, ignore_errors=True)
                raise SystemExit(f'cannot analyse the {c} build: ' + ' '.join(cmd))
            open(os.path.join(o, 'done'), 'w').close()
        return out

def dump_dir(d):
    """the radius crate of a scratch copy of the workspace: path of its dump, or ('error', compiler output)"""
    with open(os.path.join(B, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe, dh = driver()
        o = os.path.join(d, 'dump'); os.makedirs(o)
        sysroot = subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], cwd=V, text=True).strip()
        env = dict(os.environ)
        env.pop('RUSTFLAGS', None); env.pop('CARGO_TARGET_DIR', None)
        env.update(RUSTC_WORKSPACE_WRAPPER=exe, MIRDUMP_OUT=o, LD_LIBRARY_PATH=sysroot + '/lib')
        p = subprocess.run(['cargo', '+nightly', 'check', '--offline', '-p', 'radius', '--target-dir', os.path.join(B, 'tgt-gen')], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        for sub in ('.fingerprint', 'build', 'deps'):
            fp = os.path.join(B, 'tgt-gen', 'debug', sub)
            for x in os.listdir(fp) if os.path.isdir(fp) else ():
                if x.startswith(('radius', 'libradius')): (shutil.rmtree if os.path.isdir(os.path.join(fp, x)) else os.remove)(os.path.join(fp, x))
        f = os.path.join(o, 'radius.lib.json')
        if p.returncode or not os.path.exists(f):
            m = [l for l in p.stdout.split('\n') if l.startswith('error') or ' --> ' in l]
            return ('error', '\n'.join(m[:12]) or p.stdout[-1500:])
        return f

TRUST = ['rustc nightly: parsing, type checking and MIR construction', 'sa/models.py: transfer functions of the standard library, rand, chrono, md5/openssl (MD5 as an uninterpreted function), tokio',
         'sa/terms.py, sa/facts.py, sa/loops.py: term rewriting, linear entailment, loop invariants', 'the specification of the property in sa/p_*.py']

def known():
    out = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known: property='):
                _, pid, key = l.strip().split(' ', 2)
                out.append((pid[len('property='):], key))
    return out

def main(argv):
    if argv[:1] == ['--setup']:
        os.makedirs(B, exist_ok=True)
        dumps(); print('ready'); return 0
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if 'thorough' in argv[1:]: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import registry
    fn, level = registry.CHECKS[pid]
    ds = dumps()
    ctx = registry.Ctx(ds, REPO, tier, seed)
    class TimeUp(BaseException): pass
    def up(*a): raise TimeUp()
    signal.signal(signal.SIGALRM, up); signal.alarm(int(os.environ.get('VERIF_LIMIT', '780')))
    from spec import Ob, LOG
    try: obs = fn(ctx)
    except (TimeUp, MemoryError, Exception) as e:
        # no verdict is not an alarm: what was settled before counts, the rest is reported as undecided
        traceback.print_exc()
        done = {(o.fn, o.what) for o in ctx.obs}
        obs = ctx.obs + [o for o in LOG if (o.fn, o.what) not in done]
        obs.append(Ob('the whole check', 'completed', 'undecided', {'reason': f'{type(e).__name__}: {e}'[:300]}))
    signal.alarm(0)
    kn = [k for p, k in known() if p == pid]
    viol = []; found = []
    for o in obs:
        if o.status == 'violated':
            key = f'{o.fn}|{o.what}'
            (found if key in kn else viol).append(o)
    n = len(obs)
    c = {}
    for o in obs: c[o.status] = c.get(o.status, 0) + 1
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    ex = ctx.stats()
    cov = {'obligations': n, 'discharged': c.get('proved', 0), 'checker_cmd': f'python3 check.py {pid}', 'trusted_base': TRUST,
           'by_status': c, 'analysed': ex,
           'explanation': registry.DOC.get(pid, ''),
           'samples': [o.js() for o in obs if o.status == 'proved'][:4] + [o.js() for o in obs if o.status != 'proved'][:12]}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': registry.ASSUME.get(pid, []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    print(f'{pid}: {n} obligations, {c}, {ev["wall_s"]} s')
    for o in obs:
        if o.status in ('undecided', 'bounded'): print(f'  {o.status}: {o.fn}: {o.what}: {json.dumps(o.detail, default=str)[:600]}')
    for o in found: print(f'KNOWN-FINDING: property={pid} {o.fn}: {o.what}')
    rp = os.path.join(V, 'evidence', pid + '.replay.json')
    if os.path.exists(rp): os.remove(rp)
    if viol:
        with open(rp, 'w') as f: json.dump([o.js() for o in viol], f, indent=1, default=str)
        for o in viol[:12]: print(f'  violated: {o.fn}: {o.what}: {json.dumps(o.detail, default=str)[:900]}')
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    return 0

if __name__ == '__main__':
    try: resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception: pass
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
