"""Properties of whole operation sets: absence of panics and termination (C01), confinement of the secret (C23), equality of the digest back ends (C28)."""
import re, time
from spec import *
import spec, models, amodels, p_core, p_dict, loops
from p_core import QQ, yes, at, sl

# ---------------------------------------------------------------- C01
READ = re.compile(r'(^|::)(encode_[a-z0-9_]+)$')
def public_fns(P): return [(k, b) for k, b in P.bodies.items() if b['kind'] in ('Fn', 'AssocFn') and not b['coroutine']]

def readers(P):
    """the operations hostile bytes go through: (key, is a dictionary accessor)"""
    out = []
    for k, b in public_fns(P):
        segs = k.split('::'); nm = segs[-1]
        if '{closure' in k: continue
        if re.search(r'::packet::Packet(::<.*>)?::', k) and nm in ('decode', 'is_authentic_response', 'is_authentic_request', 'lookup', 'lookup_all'): out.append((k, False))
        elif re.search(r'::avp::AVP(::<.*>)?::', k) and nm.startswith('encode_'): out.append((k, False))
        elif re.search(r'::rfc\d+::lookup_\w+$', k): out.append((k, True))
    return out

def measure(p, g, backs):
    """a quantity bounded by loop invariants that moves strictly towards its bound on every iteration"""
    J = p.J
    live = set(p.phi) | {J}
    def inv(n): return not (fv(n) & live)
    atoms = {a for t in p.tpl.values() for a in loops.int_phis(t)} | {J}
    maps = []
    for s in backs:
        m = loops.phi_values(p, s); m[J] = addc(A(J), 1); maps.append(m)
    def steps(a, sg):
        for s, m in zip(backs, maps):
            if a not in m: return False
            d = scale(sub(m[a], A(a)), sg)
            if not s.fs.ent(ge(d, I(1))): return False
        return True
    for a in sorted(atoms):
        for sg in (1, -1):
            if not steps(a, sg): continue
            ok = []
            for s in backs:
                b = None
                lo, hi = rng(a)
                for f in s.fs.formulas():
                    if f.op != 'le': continue
                    co = dict(f.a[0].a[1])
                    c = co.get(a)
                    if c is None or c * sg <= 0: continue
                    rest = Lin(f.a[0].a[0], [(x, k) for x, k in f.a[0].a[1] if x is not a])
                    if inv(rest): b = f; break
                if b is None and sg < 0 and lo is not None and lo >= 0: b = TRUE
                if b is None: break
                ok.append(b)
            if len(ok) == len(backs): return f"{show(A(a))} {'grows' if sg > 0 else 'falls'} up to a bound fixed before the loop"
    # a sequence that gets shorter
    for c, t in p.tpl.items():
        for path, tv in leaves(t):
            if tv.op != 'seq': continue
            n0 = seq_len(tv); ok = True
            for s in backs:
                v = at_path(s.cells[c], path)
                if v is None or v.op != 'seq' or not s.fs.ent(lt(seq_len(v), n0)): ok = False; break
            if ok and backs: return 'a sequence gets shorter'
    return None

def repeats(p, g, backs):
    """a reachable path through the loop that leaves everything its guards read unchanged: it is taken forever"""
    J = p.J; live = set(p.phi)
    ints = {a for t in p.tpl.values() for a in loops.int_phis(t)}
    known = set(g.fs.formulas())
    for s in backs:
        if s.taint: continue
        m = loops.phi_values(p, s)
        gs = [f for f in s.fs.formulas() if f not in known]
        used = set()
        for f in gs: used |= fv(f)
        if J in used: continue
        moving = [a for a in ints if a.a[0] in used]
        if {a.a[0] for a in moving} != used & live: continue
        if not all(a in m and s.fs.ent_eq(sub(m[a], A(a))) for a in moving): continue
        # the first iteration can take this path
        ent = {J: I(0)}
        for a in ints: ent[a] = p.phi[a.a[0]][1]
        fs = p.st.fs; ok = True
        for f in gs:
            f2 = subst(f, ent)
            if fv(f2) & live: ok = False; break
            fs = fs.assume(f2)
            if fs is None: ok = False; break
        if not ok: continue
        for e in models_of(fs): return {'point': point(e), 'path': [show(f)[:120] for f in gs[:8]]}
    return None

def panic_free(P, key, pre=None, K=17, uninterp=None, modes=('fix', 'peel')):
    body = P.bodies[key]; notes = []
    what = 'returns for every input without panicking'
    for mode, K_ in [(m, K) for m in modes] + [('peel', k) for k in (1, 2, 4)]:
        I_ = Interp(P, mode, K=K_)
        if uninterp: I_.uninterp.update({k: v for k, v in uninterp.items() if k != key})
        args, st = sym_args(P, body)
        if pre: st = pre(I_, st, args)
        try: outs = I_.analyse(key, args, st)
        except (Budget, Unsupported, RecursionError, Undecided) as e:
            notes.append(f'{mode}: {type(e).__name__} {e}'); continue
        opn = []
        n = {'exits': 0, 'panics': 0}
        for k, s, v in sorted(outs, key=lambda o: len(o[1].fs.log) if o[0] == 'panic' else 0):
            if k == 'panic':
                n['panics'] += 1
                r = panic_status(s, v)
                if r[0] == 'refuted': return Ob(key, what, 'violated', {'reason': r[1], 'witness': r[2]}, body['span'])
                opn.append(r[1])
            elif k == 'cut': opn.append('loop bound')
            elif k == 'ret':
                n['exits'] += 1
                if s.taint: opn.append('not fully modelled: ' + str(s.taint))
            else: opn.append('leaves by ' + k)
            if len(opn) > 12: break
        rank = []
        for where, p, g, backs in I_.sums:
            m = measure(p, g, backs)
            if m is None:
                w = repeats(p, g, backs)
                if w is not None: return Ob(key, what, 'violated', {'reason': f'never leaves the loop {where}: an iteration changes nothing it tests', 'witness': w}, body['span'])
                opn.append(f'no ranking for the loop {where}')
            else: rank.append(f'{where}: {m}')
        if I_.unmodelled: opn.append('unmodelled ' + ', '.join(f'{a} ({b})' for a, b in list(I_.unmodelled.items())[:3]))
        if not n['exits'] and not opn: opn.append('no exit at all')
        if not opn:
            return Ob(key, what, 'proved', {'exits': n['exits'], 'functions': len(I_.called), 'assertions discharged': len(I_.asserts), 'loops': rank[:6], 'method': 'all iterations' if mode == 'fix' else 'exhaustive unrolling'})
        notes.append(f'{mode}: ' + '; '.join(sorted(set(opn))[:4]))
    return Ob(key, what, 'undecided', {'notes': notes}, body['span'])

def decoded_pre(P):
    """a packet that decode returned: 16 authenticator octets (C02)"""
    PK = typath(P, 'Packet')
    def pre(I_, st, args):
        for a in args:
            v = a
            while v.op in ('ref', 'box'): v = v.a[0]
            if v.op == 'struct' and v.a[0] == PK:
                q = getf(P, v, PK, 'authenticator')
                s = st.assume(eqi(seq_len(models.Q(I_, st, q)), I(16)))
                if s is not None: st = s
        return st
    return pre

def reader_summaries(P, keys):
    """operations that have an obligation of their own are summarised as: any result of their type"""
    out = {}
    for k in keys:
        b = P.bodies[k]
        rty = b['locals'][0]
        def f(I_, st, a, fn, t, k=k, rty=rty):
            nd = mk('uf', 'result', k, *a)
            return [('ret', st, I_.P.expand(nd, rty))]
        out[k] = f
    return out

def C01(P):
    rs = readers(P)
    need = ['decode', 'is_authentic_response', 'is_authentic_request']
    obs = []
    for nm in need:
        if not any(k.endswith('::' + nm) for k, d in rs): obs.append(Ob('Packet::' + nm, 'exists', 'violated', {'reason': 'the public operation no longer exists'}))
    summ = reader_summaries(P, [k for k, d in rs if not d and re.search('::avp::', k)])
    for k, d in rs:
        pre = decoded_pre(P) if d else None
        o = None
        if d:
            o = panic_free(P, k, pre=pre, uninterp=summ, modes=('fix', 'peel'))
            if o.status != 'proved': o = None       # the summary may be too coarse: look into the readers themselves
        obs.append(o or panic_free(P, k, pre=pre))
    return obs

# ---------------------------------------------------------------- C30
def totals(P):
    """public operations that C01 does not cover: constructors, writers, accessors that change a packet, encoding, comparisons, texts"""
    rd = {k for k, d in readers(P)}
    for k, b in public_fns(P):
        if k in rd or '{' in k or b.get('derived') or b.get('vis') != 'Public' or b.get('promoted') is True: continue
        if re.search(r'^crate::(<?)(server|client)::', k) and not re.search(r'set_|Request', k): continue
        yield k

def any_octets(I_, s, args, f, t):
    return [('ret', s, S_atom(mk('sa', mk('uf', 'message', *args), None, U8)))]

def C30(P):
    import p_async
    obs = []
    PK = typath(P, 'Packet')
    for k in totals(P):
        b = P.bodies[k]
        pk = any(clean(P.s(t)).split('<')[0].lstrip('&').replace('mut ', '').strip() == PK[7:] or 'packet::Packet' in P.s(t) for t in b['locals'][1:b['argc'] + 1])
        obs.append(panic_free(P, k, pre=decoded_pre(P) if pk else None, uninterp={'crate::core::vsa::VSA::message': any_octets}))
    def rule(key, I_, paths, r, allowed=()):
        R = p_async.Rules(key, P.bodies[key]['span'])
        for n, k, s, v in paths:
            if k == 'panic':
                if isinstance(v, dict) and v.get('msg') in allowed: continue
                R.fail(r, s, f"panics: {v.get('msg')} at {v.get('at')}" if isinstance(v, dict) else 'panics'); continue
            bad = [e[1] for e in s.ev if e[0] == 'panic' and e[1] not in allowed]
            R.check(r, s, not bad, f'panics: {bad[:1]}')
        p_async.left_open(R, I_)
        return R.obs()
    key, I_, args, outs = p_async.client_paths(P)
    if key is not None: obs += rule(key, I_, [(None,) + o for o in outs], 'a request returns a response or an error without panicking')
    key, I_, args, outs = p_async.server_run(P)
    if key is not None: obs += rule(key, I_, p_async.all_paths(I_, outs), 'serving panics only where a callback does', ('the secret provider panics', 'the handler panics'))
    key = find(P, 'server::Server::listen')
    if key is not None:
        I_, args, outs = p_async.run_async(P, key)
        obs += rule(key, I_, [(None,) + o for o in outs], 'listening returns a server or an error without panicking')
    return obs

CHECKS = {'C01': C01, 'C30': C30}

# ---------------------------------------------------------------- C23
STOP = {'md5', 'decode', 'decodes', 'decode_error', 'encode', 'encodes', 'encode_error', 'result', 'digest', 'digest_available'}
SECRET_ARG = {'decode': 1, 'is_authentic_response': 2, 'is_authentic_request': 1, 'new': 1, 'new_with_identifier': 1, '_new': 1,
              'from_user_password': 2, 'from_tunnel_password': 3, 'encode_user_password': 1, 'encode_tunnel_password': 1}

API = re.compile(r'^crate::(?!<).*::(packet::Packet|avp::AVP)(::<.*>)?::\w+$')

class Taint:
    def __init__(self, P, srcs, strict=False, printing=False, self_secret=False):
        self.P = P; self.srcs = srcs; self.strict = strict; self.memo = {}; self.phis = set(); self.printing = printing
        self.redacting = {clean(im['self']).split('<')[0] for im in P.impls if im['trait'] == 'std::fmt::Debug' and not im['derived']}
    def secret(self, n):
        if n in self.srcs: return True
        if n.op == 'sym': return bool(re.fullmatch(r'secret\d+', str(n.a[0])))
        if n.op == 'fld' and n.a[1] == 'secret': return True
        return n.op == 'phi' and n in self.phis
    def leak(self, n, top=True):
        """the first sub-term that carries octets of the secret, or None"""
        if not isinstance(n, N): return None
        r = self.memo.get(n, 0)
        if r != 0: return r
        self.memo[n] = None
        r = None
        if self.secret(n): r = n
        elif n.op == 'len' and not self.strict: r = None
        elif n.op == 'uf' and n.a[0] in STOP: r = None
        elif n.op == 'struct' and n.a[0].startswith('crate::'):
            short = n.a[0][7:]
            if not (self.printing and short in self.redacting):
                a = self.P.adts.get(n.a[0]); fs = a['variants'][n.a[1]]['fields'] if a else []
                for i, x in enumerate(n.a[2]):
                    # a packet keeps its secret: reading it back takes get_secret
                    if i < len(fs) and fs[i]['name'] == 'secret' and fs[i].get('vis', 'Restricted') != 'Public': continue
                    r = self.leak(x)
                    if r is not None: break
        elif n.op == 'symenum' or n.op == 'opq' or n.op == 'sym':
            for c in terms._children(n):
                r = self.leak(c)
                if r is not None: break
        else:
            for c in terms._children(n):
                r = self.leak(c)
                if r is not None: break
        self.memo[n] = r
        return r

def loop_taint(I_, T):
    """loop-carried values that take up octets of the secret in some iteration"""
    for _ in range(6):
        new = set()
        for where, p, g, backs in I_.sums:
            for c, t in p.tpl.items():
                ph = {x for x in fv(t) if x in p.phi} - T.phis
                if not ph: continue
                vs = [p.st.cells.get(c)] + [s.cells.get(c) for s in backs]
                if any(v is not None and T.leak(v) is not None for v in vs): new |= ph
        if not new: return
        T.phis |= new; T.memo.clear()

PRINTS = ('log', 'print', 'write')
def outputs(I_, s, v, muts):
    """(kind, term) of everything that leaves the operation on this exit"""
    out = []
    if v is not None: out.append(('the result', v))
    for nm, c in muts: out.append((f'*{nm}', s.cells[c]))
    for e in s.ev:
        if e[0] in PRINTS:
            for x in e[1:]: out.append(({'log': 'a log record', 'print': 'standard output', 'write': 'formatted text'}[e[0]], x))
        elif e[0] in ('send', 'send_to', 'bind', 'connect', 'recv', 'panic'):
            for x in e[1:]: out.append((f'the {e[0]} operation', x))
    return out

def secret_free(P, key, summ, what='no octet of the secret leaves but through the digest', strict=False, srcs=(), K=17):
    body = P.bodies[key]; nm = key.split('::')[-1]; notes = []
    names = None
    pos = SECRET_ARG.get(nm) if API.search(key) else None
    if pos is None:
        pos = next((i for i in range(body['argc']) if re.search('secret', body['names'].get(str(i + 1)) or '')), None)
    for mode, K in (('fix', K), ('peel', K), ('peel', 2)):
        if K == 2 and not (notes and notes[-1].startswith('peel: Budget')): break
        I_ = Interp(P, mode, K=K)
        I_.uninterp.update({k: f for k, f in summ.items() if k != key})
        args, st = sym_args(P, body, None)
        S = set(srcs)
        if pos is not None and pos < len(args): S.add(SYM(body['names'].get(str(pos + 1)) or f'arg{pos+1}'))
        muts = [(body['names'].get(str(i + 1)) or f'arg{i+1}', ('arg', i)) for i in range(body['argc']) if ('arg', i) in st.cells]
        try:
            if body['coroutine'] or False: outs = []
            else: outs = I_.analyse(key, args, st)
        except (Budget, Unsupported, RecursionError, Undecided) as e:
            notes.append(f'{mode}: {type(e).__name__} {e}'); continue
        r = judge_leaks(P, I_, outs, muts, S, strict, mode, notes)
        if r is None: return Ob(key, what, 'proved', {'exits': len(outs), 'functions': len(I_.called), 'secret sources': [show(x) for x in S] + ['packet.secret', 'fetched secrets']})
        if r is not False: return Ob(key, what, 'violated', r, body['span'])
    return Ob(key, what, 'undecided', {'notes': notes}, body['span'])

def judge_leaks(P, I_, outs, muts, S, strict, mode, notes):
    """None: no leak; dict: a leak with a witness; False: undecided"""
    T = Taint(P, S, strict); TP = Taint(P, S, strict, printing=True)
    loop_taint(I_, T); TP.phis = T.phis
    opn = []; n = 0; strict_done = False
    t0 = time.time()
    for k, s, v in outs:
        if k == 'cut': opn.append('loop bound'); continue
        n += 1
        for where, x in outputs(I_, s, v if k == 'ret' and isinstance(v, N) else None, [m for m in muts if m[1] in s.cells]):
            l = (TP if where in ('a log record', 'standard output', 'formatted text') else T).leak(x)
            if l is None: continue
            d = f'{where} contains octets of the secret: {show(x)[:200]}'
            if s.taint or is_bool(x) or unknown_in(x): opn.append(d + ' (not exact)'); continue
            if l.op == 'phi' or phi_in(s): opn.append(d + ' (in a loop)'); continue
            if time.time() - t0 > 60: opn.append(d); continue
            for e in models_of(s.fs): return {'reason': d, 'witness': {'point': point(e)}, 'mode': mode}
            opn.append(d + ' (no witness)')
        if v is not None and isinstance(v, N) and unknown_in(v): opn.append('unmodelled value')
        if s.taint: opn.append('not fully modelled: ' + str(s.taint))
        for f in s.fs.formulas():
            l = T.leak(f)
            if l is not None and not strict_done:
                strict_done = True
                w = tells_apart(T, outs, muts)
                if w: return {**w, 'mode': mode}
            if l is not None: opn.append('the outcome depends on octets of the secret: ' + show(f)[:100]); break
    if I_.unmodelled: opn.append('unmodelled ' + ', '.join(f'{a} ({b})' for a, b in list(I_.unmodelled.items())[:3]))
    if not n: opn.append('no exit')
    if not opn: return None
    notes.append(f'{mode}: ' + '; '.join(sorted(set(opn))[:4]))
    return False

def tells_apart(T, outs, muts):
    """two exits whose outcomes differ, reached by inputs that differ in nothing but octets of the secret"""
    def roots(n, memo={}):
        r = memo.get(n)
        if r is None:
            r = memo[n] = frozenset({n}) if T.secret(n) else frozenset().union(*[roots(c) for c in terms._children(n)], frozenset())
        return r
    def digests(n): return n.op == 'uf' and n.a[0] in STOP or any(digests(c) for c in terms._children(n))
    xs = []
    for k, s, v in outs:
        if k != 'ret' or s.taint or phi_in(s): continue
        o = tuple(x for _, x in outputs(None, s, v if isinstance(v, N) else None, [m for m in muts if m[1] in s.cells]) if isinstance(x, N))
        fs = s.fs.formulas(); on = [f for f in fs if roots(f)]
        if any(unknown_in(x) or roots(x) for x in o) or any(digests(f) for f in on): continue
        xs.append((s, o, on, frozenset().union(*[roots(f) for f in on], frozenset())))
    for i, (s, o, on, ra) in enumerate(xs):
        for s2, o2, on2, rb in xs[:i]:
            if o == o2 or not (ra and rb): continue
            m = {r: mk('sym', 'another ' + show(r)) for r in rb}
            g = s.fs
            for f in s2.fs.formulas():
                g = g.assume(terms.subst(f, m))
                if g is None: break
            if g is None: continue
            for e in models_of(g):
                try:
                    a = tuple(e.cv(x) for x in o); b = tuple(e.cv(x) for x in o2)
                except (seqops.Reject, Unsupported, Split): continue
                if a != b: return {'reason': 'two secrets lead to different outcomes: ' + str(a)[:120] + ' / ' + str(b)[:120], 'witness': {'point': point(e)}}
    return None

def unknown_in(v): return isinstance(v, N) and has_unknown(v)

def C23(P):
    PKs = 'core::packet::Packet'
    obs = []
    summ = {}
    for k, b in public_fns(P):
        nm = k.split('::')[-1]
        if re.search(r'::avp::AVP(::<.*>)?::', k) and nm in ('from_user_password', 'from_tunnel_password', 'encode_user_password', 'encode_tunnel_password'): summ[k] = 1
    summ = reader_summaries(P, summ)
    def message(I_, st, a, fn, t): return [('ret', st, S_atom(mk('sa', mk('uf', 'message', *a), None, U8)))]
    summ['crate::core::vsa::VSA::message'] = message
    holders = {clean(f['ty']).split('<')[0] for a in P.adts.values() if a['local'] for v in a['variants'] for f in v['fields'] if f['name'] == 'secret'}
    for k, b in public_fns(P):
        nm = k.split('::')[-1]
        tys = [P.s(b['locals'][i + 1]) for i in range(b['argc'])]
        if re.search(r' as std::fmt::(Debug|Display|LowerHex|UpperHex|Binary)>', k):
            ty = tys[0].lstrip('&')
            srcs = (SYM(b['names'].get('1') or 'arg1'),) if ty.split('<')[0] in holders else ()
            if PKs in ty or ty.split('<')[0] in holders: obs.append(secret_free(P, k, {}, 'its text does not depend on the secret', strict=True, srcs=srcs))
            else: obs.append(secret_free(P, k, {}))
            continue
        if ' as ' in k or b['coroutine'] or k.startswith('crate::<'): continue
        if b['vis'] != "Public": continue          # helpers are judged through the operations that use them
        if nm == 'get_secret' and PKs in k: continue
        if nm in ('send_packet', 'run', 'run_loop', 'process_request', 'connect', 'request', 'listen') : continue
        if not (any(PKs in t for t in tys) or (nm in SECRET_ARG and API.search(k)) or any(re.search('secret', b['names'].get(str(i + 1)) or '') for i in range(b['argc']))): continue
        obs.append(secret_free(P, k, summ))
    obs += async_leaks(P)
    return obs

def async_leaks(P):
    import p_async
    out = []
    what = 'no octet of the secret leaves but through the digest'
    for nm, get in (('client::Client::send_packet', p_async.client_paths), ('server::Server::run', p_async.server_run)):
        key, I_, args, outs = get(P)
        if key is None: out += p_async.missing(nm); continue
        rs = list(outs) + [o for n, r in I_.tasks for o in r]
        notes = []
        live = [('ret' if k != 'cut' else 'cut', s, v if k == 'ret' else None) for k, s, v in rs]
        cuts_ok = [(k, s, v) for k, s, v in live if k != 'cut'] + [('ret', s, None) for k, s, v in live if k == 'cut']
        r = judge_leaks(P, I_, cuts_ok, [], set(), False, 'effects', notes)
        if r is None: out.append(Ob(key, what, 'proved', {'paths': len(rs)}))
        elif r is False: out.append(Ob(key, what, 'undecided', {'notes': notes}))
        else: out.append(Ob(key, what, 'violated', r, P.bodies[key]['span']))
    return out

CHECKS['C23'] = C23

# ---------------------------------------------------------------- C28: the two digest back ends
_TYK = {'ty', 'dty', 'tyi'}
_TYL = {'locals', 'argtys', 'args'}
_POS = re.compile(r'@[^\s{}]*?\.rs:\d+:\d+(: \d+:\d+)?')
def canonical(P, b):
    """the body with type numbers spelled out and source positions dropped"""
    ts = [_POS.sub('', t['s']) for t in P.T]
    def go(x, key):
        if isinstance(x, dict):
            r = {k: go(v, k) for k, v in x.items() if k not in ('sp', 'span', 'fsp', 'names', 'vis')}
            if x.get('k') == 'cast':
                for k in ('from', 'to'): r[k] = ts[x[k]]
            return r
        if isinstance(x, list):
            if len(x) == 3 and x[0] == 'field' and isinstance(x[2], int): return ['field', x[1], ts[x[2]]]
            if key in _TYL: return [ts[y] if isinstance(y, int) and not isinstance(y, bool) else go(y, key) for y in x]
            return [go(y, None) for y in x]
        if key in _TYK and isinstance(x, int) and not isinstance(x, bool): return ts[x]
        return _POS.sub('', x) if isinstance(x, str) else x
    import json
    return json.dumps(go({k: v for k, v in b.items() if k not in ('key', 'path')}, None), sort_keys=True)

def callees(P, b):
    out = set()
    def go(x):
        if isinstance(x, dict):
            f = x.get('fn')
            if isinstance(f, dict):
                for q in (f.get('path'), f.get('key'), f.get('res')):
                    if isinstance(q, str): out.add(q)
            for v in x.values(): go(v)
        elif isinstance(x, list):
            for v in x: go(v)
        elif isinstance(x, str) and x in P.bodies: out.add(x)
    go(b)
    return {q for q in out if q in P.bodies}

BY_SPEC = {'core::packet::Packet::encode': ('C04', 'C05'), 'core::packet::Packet::is_authentic_response': ('C06',), 'core::packet::Packet::is_authentic_request': ('C07',),
           'core::avp::AVP::from_user_password': ('C08',), 'core::avp::AVP::encode_user_password': ('C08',),
           'core::avp::AVP::from_tunnel_password': ('C09',), 'core::avp::AVP::encode_tunnel_password': ('C09',)}

def root(k): return re.sub(r'(::\{closure#\d+\})+$', '', k)

def C28(PA, PB):
    import p_core
    obs = []
    A, B = PA.bodies, PB.bodies
    pub = lambda P, k: P.bodies[k]['vis'] == 'Public' or ' as ' in k
    # the same operations with the same signatures
    for k in sorted(set(A) | set(B)):
        if root(k) != k: continue
        a, b = A.get(k), B.get(k)
        if a is None or b is None:
            P = PA if b is None else PB
            if pub(P, k) and P.bodies[k]['kind'] in ('Fn', 'AssocFn'):
                obs.append(Ob(k, 'offered with either back end', 'violated', {'reason': 'only the ' + ('md5' if b is None else 'openssl') + ' build offers it'}, P.bodies[k]['span']))
            continue
        if not (pub(PA, k) or pub(PB, k)): continue
        sig = lambda P, b: [clean(P.T[t]['s']) for t in b['locals'][:b['argc'] + 1]]
        if (a['vis'] == 'Public') != (b['vis'] == 'Public') or sig(PA, a) != sig(PB, b):
            obs.append(Ob(k, 'offered with either back end', 'violated', {'reason': f'signatures differ: {sig(PA, a)} with md5, {sig(PB, b)} with openssl'}, a['span']))
    # constants
    ca, cb = PA.consts, PB.consts
    for k in sorted(set(ca) | set(cb)):
        x, y = ca.get(k), cb.get(k)
        if x is None or y is None: continue            # a private helper constant of one back end
        if x.get('val') != y.get('val') and not (x.get('val') or {}).get('opaque'):
            obs.append(Ob(k, 'the same constant with either back end', 'undecided', {'reason': f"{x.get('val')} / {y.get('val')}"}, x['span']))
    # bodies: equal code over equal callees behaves equally
    diff = set()
    for k in set(A) | set(B):
        if k in A and k in B and canonical(PA, A[k]) == canonical(PB, B[k]): continue
        diff.add(root(k))
    calls = {}
    for P in (PA, PB):
        for k, b in P.bodies.items():
            calls.setdefault(root(k), set()).update(root(q) for q in callees(P, b))
    specs = {}
    for nm, ids in BY_SPEC.items():
        k = find(PA, nm)
        if k: specs[k] = ids
    cache = {}
    def verdict(P, k, pid):
        key = (id(P), pid)
        if key not in cache: cache[key] = p_core.CHECKS[pid](P)
        st = [o.status for o in cache[key] if o.fn == k]
        return ('violated' if 'violated' in st else 'proved' if st and set(st) == {'proved'} else 'open'), [o for o in cache[key] if o.fn == k]
    same = set(); bad = {}
    work = sorted(diff); seen = set()
    what = 'accepts, rejects and produces the same with either back end'
    while work:
        k = work.pop(0)
        if k in seen: continue
        seen.add(k)
        a, b = A.get(k), B.get(k)
        if k in specs:
            ok = True
            for pid in specs[k]:
                (x, ox), (y, oy) = verdict(PA, k, pid), verdict(PB, k, pid)
                if x == y == 'proved': continue
                ok = False
                if {x, y} == {'proved', 'violated'}:
                    o = [o for o in (ox if x == 'violated' else oy) if o.status == 'violated'][0]
                    obs.append(Ob(k, what, 'violated', {'reason': f"only the {'md5' if x == 'violated' else 'openssl'} build departs from the reference of {pid}", 'that': o.detail}, (a or b)['span']))
                else: obs.append(Ob(k, what, 'undecided', {'reason': f'against the reference of {pid}: md5 {x}, openssl {y}'}))
                break
            if ok: obs.append(Ob(k, what, 'proved', {'rule': 'both builds equal the reference of ' + ', '.join(specs[k])}))
            continue
        public = a is not None and b is not None and pub(PA, k) and a['kind'] in ('Fn', 'AssocFn')
        if public:
            obs.append(compare_builds(PA, PB, k, what))
            if obs[-1].status == 'proved': continue
        # a private piece that differs: its users have to be compared as wholes
        for q, cs in calls.items():
            if k in cs: work.append(q)
    n = len([k for k in A if k in B and root(k) == k and k not in seen])
    if n: obs.append(Ob('the library', 'every other function is the same code over the same callees', 'proved', {'functions': n}))
    return obs

def compare_builds(PA, PB, k, what):
    """both bodies from the same arguments: every pair of compatible exits agrees"""
    import spec as S
    a, b = PA.bodies[k], PB.bodies[k]
    try:
        I1 = Interp(PA, 'fix', K=4, budget=200000)
        args, st = sym_args(PA, a, None)
        outs = I1.analyse(k, args, st)
        for o, s, v in outs:
            if o != 'ret': return Ob(k, what, 'undecided', {'reason': 'an exit of the md5 build is ' + o}, a['span'])
        opn = []
        for o, s, v in outs:
            I2 = Interp(PB, 'fix', K=4, budget=200000)
            st2 = s.copy() if hasattr(s, 'copy') else s
            for o2, s2, v2 in I2.analyse(k, args, st2):
                if o2 != 'ret': opn.append('an exit of the openssl build is ' + o2); continue
                if S.digest_failed(s2): continue
                x = {'value': S.strip_all(I1, s2, v)}; y = {'value': S.strip_all(I2, s2, v2)}
                r = S.cmp_one(s2, x, y)
                if r[0] == 'refuted': return Ob(k, what, 'violated', {'reason': r[1], 'witness': r[2]}, a['span'])
                if r[0] != 'proved': opn.append(r[1])
        if opn: return Ob(k, what, 'undecided', {'open': opn[:4]}, a['span'])
        return Ob(k, what, 'proved', {'rule': 'equal normal forms'}, a['span'])
    except (Undecided, Unsupported, Budget, RecursionError, Split) as e:
        return Ob(k, what, 'undecided', {'reason': f'{type(e).__name__}: {e}'}, a['span'])

CROSS = {'C28': C28}
