"""Specifications of the client and the server (C18-C22): protocol rules over the effect traces of every path."""
import time
from spec import *
import spec, models, amodels, p_core
from p_core import QQ, yes, at, sl

PK = 'crate::core::packet::Packet'

def co_body(P, key): return key + '::{closure#0}'

def uf_codec(P):
    """decode and encode as uninterpreted functions (their meaning is decided by C02-C05)"""
    dk = find(P, 'core::packet::Packet::decode'); ek = find(P, 'core::packet::Packet::encode')
    if not dk or not ek: raise Undecided('Packet::decode / Packet::encode')
    def dec(I_, st, a, f, t):
        bs, sec = QQ(I_, st, a[0]), QQ(I_, st, a[1])
        g = batom(mk('uf', 'decodes', bs, sec))
        out = []
        s = st.assume(and_(g, ge(seq_len(bs), I(20))))
        if s is not None:
            out.append(('ret', amodels.ev(s, 'decode', bs, sec, True), OK(decoded(I_, s, P, bs, sec))))
        s = st.assume(not_(g))
        if s is not None: out.append(('ret', amodels.ev(s, 'decode', bs, sec, False), ERR(OPQ(mk('uf', 'decode_error', bs, sec)))))
        return out
    def enc(I_, st, a, f, t):
        pk = I_.strip(st, a[0])
        g = batom(mk('uf', 'encodes', pk))
        data = S_atom(mk('sa', mk('uf', 'encode', pk), None, U8))
        out = []
        s = st.assume(g)
        if s is not None: out.append(('ret', amodels.ev(s, 'encode', pk, True), OK(data)))
        s = st.assume(not_(g))
        if s is not None: out.append(('ret', amodels.ev(s, 'encode', pk, False), ERR(OPQ(mk('uf', 'encode_error', pk)))))
        return out
    return {dk: dec, ek: enc}

def decoded(I_, s, P, bs, sec):
    """the packet Packet::decode yields (C02): identifier, authenticator and secret are known, the rest is a function of the input"""
    pt = typath(P, 'Packet')
    node = mk('uf', 'decode', bs, sec)
    v = P.expand_adt(node, pt, pt)
    fs = {'identifier': at(s, bs, 1), 'authenticator': sl(s, bs, 4, 20), 'secret': sec}
    fl = list(v.a[2])
    for n, x in fs.items(): fl[field_index(P, pt, n)] = x
    return mk('struct', v.a[0], v.a[1], tuple(fl))

def run_async(P, key, unwind=False, K=18, Kawait=None, setup=None, poison=False, args=None, st=None, begin=None):
    I_ = Interp(P, 'peel', K=K, budget=900000)
    I_.unwind = unwind; I_.poison = poison; I_.Kawait = Kawait
    I_.uninterp.update(uf_codec(P))
    if args is None: args, st = sym_args(P, P.bodies[key], None)
    if setup: st = setup(I_, st, args)
    outs = []
    starts = [(st, args)]
    if begin: 
        starts = begin(I_, st, args) or starts
        args = [starts[0][1][0] if len(starts) == 1 else None] + list(args[1:])
    for st, ar in starts:
        for k, s, v in I_.analyse(key, ar, st):
            if k == 'ret':
                w = I_.strip(s, v)
                if w.op == 'struct' and w.a[0].startswith(('coro:', 'fut:')): outs += amodels.run_future(I_, s, w)
                else: outs.append((k, s, v))
            else: outs.append((k, s, v))
    return I_, args, outs

def witness(s, extra=None):
    """a concrete point of the path, or None"""
    t = s
    if extra is not None:
        t = s.assume(extra)
        if t is None: return None
    if phi_in(t): return None
    for e in models_of(t.fs): return {'point': point(e)}
    return None

class Rules:
    """collects the verdicts of one rule over all paths"""
    def __init__(self, fn, where=None):
        self.fn = fn; self.n = {}; self.bad = {}; self.where = where; self.spent = 0
    def ok(self, rule): self.n[rule] = self.n.get(rule, 0) + 1
    def fail(self, rule, s, why, extra=None, sure=True):
        """the rule fails on this path: an alarm if the path has a concrete point, undecided otherwise"""
        self.n[rule] = self.n.get(rule, 0) + 1
        done = self.bad.get(rule, ())
        if any(b[0] == 'violated' for b in done) or len(done) > 24: done.append(('undecided', why, None)); return
        if s.taint: self.bad.setdefault(rule, []).append(('undecided', why + ' (path is not fully modelled: ' + str(s.taint) + ')', None)); return
        w = None
        if sure and self.spent < 150:
            t0 = time.time(); w = witness(s, extra); self.spent += time.time() - t0
        self.bad.setdefault(rule, []).append(('violated' if w is not None else 'undecided', why, {'path': trace(s), **(w or {})}))
    def undecided(self, rule, why): 
        self.n[rule] = self.n.get(rule, 0) + 1
        self.bad.setdefault(rule, []).append(('undecided', why, None))
    def check(self, rule, s, cond, why, **kw):
        if cond: self.ok(rule)
        else: self.fail(rule, s, why, **kw)
    def obs(self):
        out = []
        for r, n in self.n.items():
            b = self.bad.get(r)
            if not b: out.append(Ob(self.fn, r, 'proved', {'paths': n}, self.where)); continue
            b.sort(key=lambda x: x[0] != 'violated')
            st, why, w = b[0]
            out.append(Ob(self.fn, r, st, {'reason': why, 'witness': w, 'paths': n, 'failing': len(b)}, self.where))
        return out

def esh(e): return ' '.join((show(x) if isinstance(x, N) else str(x))[:70] for x in e)
def trace(s): return [esh(e) for e in s.ev if e[0] not in ('log', 'write')][-14:]

def same(fs, a, b):
    if a is b: return True
    try: return bool(eqv(fs, a, b))
    except (Split, Unsupported): return False

def entails(I_, s, spec, args):
    """(every case of the state satisfies the formula, a counter case)"""
    try: cs = I_.fork(s, lambda x: [('ret', x, spec(I_, x, args)['value'])])
    except (Undecided, Unsupported, Budget) as e: return None, None, str(e)
    for _, x, f in cs:
        if f is TRUE: continue
        if f is not FALSE and x.fs.ent(f): continue
        y = x.assume(not_(f)) if f is not FALSE else x
        if y is None: continue
        return False, y, show(f)[:200]
    return True, None, None

def left_open(R, I_):
    if I_.unmodelled: R.undecided('every call on the paths has a model', str(dict(list(I_.unmodelled.items())[:6])))

def unknown(v): return v is None or (isinstance(v, N) and has_unknown(v))

# ---------------------------------------------------------------- client
def cl_setup(P):
    def f(I_, st, args):
        # every encoded packet has its 20 octet header (C04/C05)
        return st
    return f

def err_name(P, v):
    a = P.adts.get(v.a[0]) if v.op == 'struct' else None
    if a is None: return None
    return a['variants'][v.a[1]]['name']

KIND = {'bind': 'FailedUdpSocketBindingError', 'connect': 'FailedEstablishingUdpConnectionError', 'encode': 'FailedRadiusPacketEncodingError', 'send': 'FailedSendingRadiusPacketError',
        'recv': 'FailedReceivingResponseError', 'decode': 'FailedDecodingRadiusResponseError'}

def client_paths(P):
    key = find(P, 'client::Client::send_packet')
    if key is None: return None, None, None, None
    c = getattr(P, 'client_cache', None)
    if c is None:
        I_, args, outs = run_async(P, key, args=None, setup=None, **client_self(P, key))
        c = P.client_cache = (key, I_, args, outs)
    return c

def client_self(P, key):
    """the client under analysis is whatever Client::new returns for symbolic timeouts"""
    P.timeouts = None
    k = find(P, 'client::Client::new')
    if k is None: return {}
    nargs, nst = sym_args(P, P.bodies[k], ['connection_timeout', 'socket_timeout'])
    if len(nargs) != 2: return {}
    def begin(I_, st, args):
        res = []
        for kd, s, v in I_.analyse(k, nargs, nst):
            if kd == 'ret' and not s.taint and not unknown(I_.strip(s, v)): res.append((s, [REF(v)] + list(args[1:])))
        return res
    P.timeouts = {'connection_timeout': nargs[0], 'socket_timeout': nargs[1]}
    return {'begin': begin}

def C21(P):
    key, I_, args, outs = client_paths(P)
    if key is None: return [Ob('client::Client::send_packet', 'exists', 'violated', {'reason': 'the public operation no longer exists'})]
    R = Rules(key, P.bodies[key]['span'])
    rule_a = 'a packet is returned only if the response is authentic for the sent octets and the secret'
    rule_v = 'the packet returned is the decoded response'
    left_open(R, I_)
    for k, s, v in outs:
        if k != 'ret': continue
        for s2, kind, x in results(I_, s, v):
            if kind != 'ok': R.ok(rule_a); continue
            pk = I_.strip(s2, args[2])
            sec = QQ(I_, s2, getf(P, pk, typath(P, 'Packet'), 'secret'))
            sends = [e for e in s2.ev if e[0] == 'send' and e[3]]; recvs = [e for e in s2.ev if e[0] == 'recv' and e[5]]
            if not sends or not recvs:
                if s2.taint: R.undecided(rule_a, 'exchange is not fully modelled: ' + str(s2.taint)[:200])
                else: R.fail(rule_a, s2, 'succeeds without an exchange')
                continue
            data = sends[-1][2]; rx = recvs[-1][3]
            ok, y, why = entails(I_, s2, p_core.resp_authentic, [rx, data, sec])
            if ok is None: R.undecided(rule_a, why)
            elif ok: R.ok(rule_a)
            else: R.fail(rule_a, y, 'a response is accepted for which the authenticity formula is not established: ' + str(why))
            want = decoded(I_, s2, P, rx, sec)
            got = I_.strip(s2, x)
            if unknown(got): R.undecided(rule_v, 'unmodelled value')
            elif same(s2.fs, got, want): 
                if s2.fs.simp(batom(mk('uf', 'decodes', rx, sec))) is TRUE: R.ok(rule_v)
                else: R.fail(rule_v, s2, 'the response was not decoded successfully')
            else: R.fail(rule_v, s2, f'returns {show(got)[:200]}')
    return R.obs()

def results(I_, s, v):
    """(state, 'ok'|'err', payload) of a Result value"""
    try: cs = I_.fork(s, lambda x: [('ret', x, res_of(I_, x, v))])
    except (Unsupported, Undecided): return [(s, None, v)]
    return [(x, k, p) for _, x, (k, p) in cs]

def dur_of(I_, s, args, field):
    if I_.P.timeouts: return I_.strip(s, I_.P.timeouts[field])
    c = I_.strip(s, args[0])
    return getf(I_.P, c, typath(I_.P, 'Client'), field)

def C22(P):
    key, I_, args, outs = client_paths(P)
    if key is None: return [Ob('client::Client::send_packet', 'exists', 'violated', {'reason': 'the public operation no longer exists'})]
    R = Rules(key, P.bodies[key]['span'])
    left_open(R, I_)
    remote_of = lambda s: I_.strip(s, args[1])
    for k, s, v in outs:
        if k == 'cut': R.undecided('every exchange is covered', 'loop bound') ; continue
        if k != 'ret':
            d = v['msg'] if isinstance(v, dict) else k
            R.fail('an exchange does not panic', s, 'panics: ' + d); continue
        R.ok('an exchange does not panic')
        for s2, kind, x in results(I_, s, v): client_path(P, I_, R, s2, kind, x, args)
    return R.obs()

def client_path(P, I_, R, s, kind, x, args):
    if kind is None: R.undecided('outcome', 'unmodelled result'); return
    remote = I_.strip(s, args[1])
    pk = I_.strip(s, args[2]); sec = QQ(I_, s, getf(P, pk, typath(P, 'Packet'), 'secret'))
    want = S_atom(mk('sa', mk('uf', 'encode', pk), None, U8))
    E = s.ev
    # enclosing timeouts
    open_ = []; enc = {}
    for i, e in enumerate(E):
        if e[0] == 'tb': open_.append((e[1], e[2]))
        elif e[0] == 'te': open_ = [o for o in open_ if o[0] != e[1]]
        else: enc[i] = list(open_)
    def idx(nm): return [i for i, e in enumerate(E) if e[0] == nm]
    r = 'each step happens at most once, in order, and only on the bound socket'
    b, c, sd, rc = idx('bind'), idx('connect'), idx('send'), idx('recv')
    if idx('send_to'): R.undecided(r, 'send_to'); return
    seq = [E[i][0] for i in sorted(b + c + sd + rc)]
    R.check(r, s, seq == ['bind', 'connect', 'send', 'recv'][:len(seq)], 'the socket operations are ' + ' '.join(seq))
    sock = OPQ(mk('uf', 'socket', I(0)))
    R.check(r, s, all(E[i][1] is sock for i in c + sd + rc), 'another socket is used')
    r = 'the local socket is of the address family of the remote address'
    fam4 = amodels.fam_formula(I_, s, remote)
    for i in b:
        fam = amodels.addr_family(I_, s, E[i][1])
        if fam is None:
            if unknown(E[i][1]): R.undecided(r, 'bind address')
            else: R.undecided(r, 'bind address ' + show(E[i][1])[:100])
            continue
        bad = not_(fam4) if fam == 4 else fam4
        if s.fs.ent(not_(bad)): R.ok(r)
        else: R.fail(r, s, f'binds an IPv{fam} socket for a remote address of the other family', extra=bad)
    r = 'it connects to the given address'
    for i in c: R.check(r, s, same(s.fs, I_.strip(s, E[i][2]), remote), 'connects to ' + show(E[i][2])[:100])
    r = 'it sends exactly the encoded request'
    for i in sd:
        d = E[i][2]
        if unknown(d): R.undecided(r, 'unmodelled data')
        else: R.check(r, s, same(s.fs, d, want), 'sends ' + show(d)[:160])
    r = 'the receive buffer holds any RADIUS packet'
    for i in rc:
        n = E[i][2]
        if n is None or unknown(n): R.undecided(r, 'buffer')
        elif s.fs.ent(ge(n, I(4096))): R.ok(r)
        else: R.fail(r, s, f'the buffer has {show(n)} octets', extra=lt(n, I(4096)))
    # timeouts
    for field, kinds, evs in (('connection_timeout', ('bind', 'connect'), c), ('socket_timeout', ('send', 'recv'), sd + rc)):
        r = f'{field} bounds ' + ('establishing the connection' if field[0] == 'c' else 'sending and receiving together')
        o = dur_of(I_, s, args, field)
        some = eqi(I_.discr(s, o), I(1))
        dur = models.payload(I_, o, 1)
        ids = set()
        for i in evs:
            ds = enc.get(i, [])
            if s.fs.ent(some):
                if len(ds) == 1 and same(s.fs, ds[0][1], dur): ids.add(ds[0][0]); R.ok(r)
                elif not ds: R.fail(r, s, f'{E[i][0]} runs without the timeout that is set')
                elif any(unknown(d[1]) for d in ds): R.undecided(r, 'duration')
                else: R.fail(r, s, f'{E[i][0]} runs under {[show(d[1])[:60] for d in ds]}')
            elif s.fs.ent(not_(some)):
                if ds and any(unknown(d[1]) for d in ds): R.undecided(r, 'duration')
                else: R.check(r, s, not ds, f'{E[i][0]} runs under a timeout although none is set')
            else:
                if not ds: R.fail(r, s, f'{E[i][0]} ignores the timeout', extra=some)
                elif any(unknown(d[1]) for d in ds): R.undecided(r, 'duration')
                else: R.fail(r, s, f'{E[i][0]} runs under {[show(d[1])[:60] for d in ds]}', extra=not_(some))
        if len(ids) > 1: R.fail(r, s, 'the timeout starts anew between sending and receiving')
    # outcome
    fails = []
    for e in E:
        if e[0] in ('bind', 'connect', 'send', 'recv', 'encode', 'decode') and e[-1] is False: fails.append(KIND[e[0]])
        if e[0] == 'elapsed':
            ks = set(e[3]) & {'bind', 'connect', 'send', 'recv'}
            fails.append('ConnectionTimeoutError' if ks and ks <= {'bind', 'connect'} else 'SocketTimeoutError' if ks and ks <= {'send', 'recv'} else 'mixed timeout')
    r = 'a failure is reported as the error of the step that failed'
    if kind == 'ok':
        R.check('a failed step ends the exchange with an error', s, not fails, f'succeeds although {fails} happened')
        R.check('success follows a complete exchange', s, len(b) == len(c) == len(sd) == len(rc) == 1, 'succeeds after ' + ' '.join(seq))
        r = 'the received octets are decoded with the secret of the request'
        dec = [e for e in E if e[0] == 'decode']
        if not dec: R.undecided(r, 'no call of Packet::decode')
        elif rc:
            rx = E[rc[-1]][3]
            for e in dec: R.check(r, s, same(s.fs, e[1], rx) and same(s.fs, e[2], sec), f'decodes {show(e[1])[:80]} with {show(e[2])[:60]}')
            r = 'the caller gets the packet the octets decode to'
            got = I_.strip(s, x)
            if unknown(got): R.undecided(r, 'unmodelled value')
            else: R.check(r, s, same(s.fs, got, decoded(I_, s, P, rx, sec)), f'returns {show(got)[:200]}')
        return
    nm = err_name(P, I_.strip(s, x))
    if nm is None: R.undecided(r, 'unmodelled error value'); return
    if not fails:
        # refused for another reason: only an unauthentic response
        if rc and E[rc[-1]][5] and nm == KIND['decode']:
            R.ok(r)
            a, y, why = entails(I_, s, lambda i_, z, g: {'value': not_(p_core.resp_authentic(i_, z, g)['value'])}, [E[rc[-1]][3], E[sd[-1]][2], sec])
            r2 = 'only responses that are not authentic or do not decode are refused'
            if a: R.ok(r2)
            elif a is None or digest_failed(s): R.undecided(r2, str(why))
            else: R.fail(r2, y, 'an authentic response is refused')
        else: R.fail(r, s, f'reports {nm} although no step failed')
        return
    R.check(r, s, len(fails) == 1 and fails[0] == nm, f'reports {nm} after {fails}')

# ---------------------------------------------------------------- server
def server_run(P, poison=False):
    key = find(P, 'server::Server::run')
    if key is None: return None, None, None, None
    c = getattr(P, 'server_cache', None)
    if c is None: c = P.server_cache = {}
    if poison not in c: c[poison] = (key,) + run_async(P, key, unwind=True, K=18, Kawait=2, poison=poison)
    return c[poison]

def missing(what): return [Ob(what, 'exists', 'violated', {'reason': 'the public operation no longer exists'})]

def task_part(s):
    for i, e in enumerate(s.ev):
        if e[0] == 'task': return i, s.ev[:i], s.ev[i + 1:]
    return None, s.ev, ()

def last_recv(evs):
    r = [e for e in evs if e[0] == 'recv']
    return r[-1] if r and r[-1][5] else None

def server_args(P, I_, args):
    """symbolic Server fields"""
    SV = typath(P, 'Server')
    node = SYM('self')
    v = P.expand_adt(node, SV, SV)
    F = {f['name']: v.a[2][i] for i, f in enumerate(P.adts[SV]['variants'][0]['fields'])}
    for nm, fld in SETTERS:
        i = set_field(P, nm, fld)
        if i is not None: F[fld] = v.a[2][i]
    return F

SETTERS = (('set_skip_authenticity_validation', 'skip_authenticity_validation'), ('set_buffer_size', 'buf_size'))
def set_field(P, nm, fld):
    """index of the Server field a setter stores its argument in"""
    c = getattr(P, 'setters', None)
    if c is None: c = P.setters = {}
    if nm not in c:
        SV = typath(P, 'Server')
        names = [f['name'] for f in P.adts[SV]['variants'][0]['fields']]
        c[nm] = names.index(fld) if fld in names else None
        k = find(P, 'server::Server::' + nm)
        if k is not None and c[nm] is None:
            I_ = Interp(P, 'peel')
            args, st = sym_args(P, P.bodies[k])
            hit = set()
            for kd, s, v in I_.analyse(k, args, st):
                if kd != 'ret': continue
                after = I_.mread(s, args[0])
                hit |= {i for i, x in enumerate(after.a[2]) if not unknown(x) and same(s.fs, x, args[1])}
            if len(hit) == 1: c[nm] = hit.pop()
    return c[nm]

def getter(P, I_, s, path, v):
    k = find(P, path)
    if k is None: return None
    outs = I_.fork(s, lambda x: I_.call_body(x.copy(), P.bodies[k], [v], k))
    r = [I_.strip(s2, x) for kd, s2, x in outs if kd == 'ret']
    return r[0] if len(outs) == 1 and r else None

def all_paths(I_, outs):
    for k, s, v in outs: yield None, k, s, v
    for n, r in I_.tasks:
        for k, s, v in r: yield n, k, s, v

def C18(P):
    key, I_, args, outs = server_run(P)
    if key is None: return missing('server::Server::run')
    R = Rules(key, P.bodies[key]['span'])
    F = server_args(P, I_, args)
    skip = F.get('skip_authenticity_validation')
    if skip is None: return [Ob(key, 'skip flag', 'undecided', {'reason': 'no field skip_authenticity_validation'})]
    seen = False
    for n, k, s, v in all_paths(I_, outs):
        i, pre, post = task_part(s)
        if n is not None and k == 'cut': R.undecided('every request path is covered', 'loop bound'); continue
        if n is None and i is None: post = s.ev
        hs = [j for j, e in enumerate(post) if e[0] == 'handle']
        for j in hs: seen = True; handle_rules(P, I_, R, s, pre, post[:j], post[j], skip)
    if not seen: R.undecided('the handler is invoked at all', 'no path of the analysis reaches the handler: ' + str(dict(list(I_.unmodelled.items())[:4])))
    return R.obs() + defaults(P)

def handle_rules(P, I_, R, s, pre, before, h, skip):
    rv = last_recv(pre) or last_recv(before)
    if rv is None: R.undecided('a handled request was received', 'no receive event'); return
    rx, frm = rv[3], rv[4]
    r = 'the secret is the one the provider returned for the sender'
    sec = [e for e in before if e[0] == 'secret']
    if not sec: R.fail(r, s, 'the handler runs before the secret was fetched'); return
    R.check(r, s, sec[-1][2] == 'ok', 'the handler runs although the provider failed')
    if sec[-1][2] != 'ok': return
    if unknown(sec[-1][1]): R.undecided(r, 'address')
    else: R.check(r, s, same(s.fs, sec[-1][1], frm), 'the provider is asked for ' + show(sec[-1][1])[:80])
    secret = sec[-1][3]
    r = 'an empty secret is refused'
    if s.fs.ent(ge(seq_len(secret), I(1))): R.ok(r)
    else: R.fail(r, s, 'the handler runs with an empty secret', extra=eqi(seq_len(secret), I(0)))
    r = 'the datagram is authentic for the secret unless validation is switched off'
    z = s.assume(not_(skip))
    if z is None: R.ok(r)
    else:
        ok, y, why = entails(I_, z, p_core.req_authentic, [rx, secret])
        if ok is None: R.undecided(r, why)
        elif ok: R.ok(r)
        else: R.fail(r, y, 'the handler runs without the datagram being verified: ' + str(why))
    r = 'the handler gets the decoded datagram'
    req = I_.strip(s, h[2])
    RQ = typath(P, 'Request')
    want = decoded(I_, s, P, rx, secret)
    try:
        got = {n: getter(P, I_, s, 'core::request::Request::' + n, req) for n in ('get_packet', 'get_remote_addr', 'get_local_addr')}
    except (Unsupported, Budget) as e: R.undecided(r, str(e)); return
    if unknown(got['get_packet']): R.undecided(r, 'request value')
    else:
        R.check(r, s, same(s.fs, got['get_packet'], want), 'the packet is ' + show(got['get_packet'])[:200])
        R.check('the datagram decoded', s, s.fs.simp(batom(mk('uf', 'decodes', rx, secret))) is TRUE, 'the handler runs although decoding failed or was not tried')
    r = 'the request carries the true sender address'
    if unknown(got['get_remote_addr']): R.undecided(r, 'address')
    else: R.check(r, s, same(s.fs, got['get_remote_addr'], frm), 'it carries ' + show(got['get_remote_addr'])[:100])
    r = 'the request carries the local address'
    la = got['get_local_addr']
    if unknown(la): R.undecided(r, 'address')
    else:
        b = amodels.base(la)
        R.check(r, s, b.op == 'uf' and b.a[0] == 'local_addr', 'it carries ' + show(la)[:100])

def setter(P, nm, fld, only=None):
    k = find(P, 'server::Server::' + nm)
    if k is None: return missing('server::Server::' + nm)
    I_ = Interp(P, 'peel')
    args, st = sym_args(P, P.bodies[k])
    before = I_.mread(st, args[0])
    R = Rules(k, P.bodies[k]['span'])
    for kd, s, v in I_.analyse(k, args, st):
        if kd != 'ret': R.fail('the setter returns', s, 'panics'); continue
        after = I_.mread(s, args[0])
        fi = set_field(P, nm, fld)
        if fi is None: R.undecided(f'the setter changes {fld} to its argument and nothing else', 'which field it sets is not clear'); continue
        for i in range(len(before.a[2])) if only is None else [j for j in [set_field(P, *only)] if j is not None]:
            r = f'the setter changes {fld} to its argument and nothing else'
            w = args[1] if i == fi else before.a[2][i]
            if unknown(after.a[2][i]): R.undecided(r, 'unmodelled')
            else: R.check(r, s, same(s.fs, after.a[2][i], w), f'field {i} becomes {show(after.a[2][i])[:80]}')
    return R.obs()

def defaults(P):
    """validation is on unless the caller switches it off"""
    out = []
    SV = typath(P, 'Server')
    key = find(P, 'server::Server::listen')
    if key is None: out += missing('server::Server::listen')
    else:
        I_, args, outs = run_async(P, key)
        R = Rules(key, P.bodies[key]['span'])
        for k, s, v in outs:
            if k != 'ret': continue
            for s2, kind, x in results(I_, s, v):
                if kind != 'ok': continue
                fi = set_field(P, *SETTERS[0])
                f = I_.strip(s2, x).a[2][fi] if fi is not None and I_.strip(s2, x).op == 'struct' else None
                r = 'a new server validates requests'
                if unknown(f): R.undecided(r, 'unmodelled')
                elif s2.fs.simp(f) is FALSE: R.ok(r)
                else: R.fail(r, s2, 'validation is off by default', extra=f)
        out += R.obs()
    return out + setter(P, *SETTERS[0]) + setter(P, *SETTERS[1], only=SETTERS[0])

def lock_depth(evs):
    d = {}
    for e in evs:
        if e[0] == 'lock': d[(e[1], e[2])] = 1
        elif e[0] == 'unlock': d.pop((e[1], cval(e[2]) if isinstance(e[2], N) else e[2]), None)
    return d

def key_rules(P, I_, R, s, keyv, frm, rx):
    r = 'the mark identifies exactly the sender address, port and identifier'
    if unknown(keyv): R.undecided(r, 'unmodelled key'); return
    idt = at(s, rx, 1)
    idat = None
    if idt.op == 'lin' and len(idt.a[1]) == 1: idat = idt.a[1][0][0]
    fb = amodels.base(frm)
    acc = {}
    def hit(part, exact): acc[part] = acc.get(part, False) or exact
    def leaf(n, exact):
        if n is frm or n is fb: hit('ip', exact); hit('port', exact); return
        if idat is not None and n is idat: hit('id', exact); return
        if n.op == 'uf' and n.a[0] in ('ip', 'port') and n.a[1] is fb: hit(n.a[0], exact); return
        if n.op == 'sym': acc[n] = True; return
        if n.op == 'lin' and idat is not None and n.a[1] and not exact_lin_of(n, idat) and inside(idat, n):
            c = collision(n, idat)
            if c is not None:
                if c == (): hit('id', exact)
                else: acc.setdefault('id', False); clash.append((n, c))
                return
        if n.op == 'seq': merges(n)
        # constructors and texts keep their parts apart; an operation may merge different values
        keep = n.op in ('struct', 'seq', 'opq', 'symenum', 'sa', 'lin', 'flat') or (n.op == 'uf' and n.a[0] in ('to_string', 'display', 'fmt', 'octets', 'concat'))
        for c in terms._children(n): leaf(c, exact and keep)
    def parts_of(g):
        if g[0] != 's' or cval(g[2]) != 0: return ()
        x = g[1].a[0]
        if x.op != 'uf' or x.a[0] != 'to_string': return ()
        x = x.a[1]
        if x is frm or x is fb or amodels.base(x) is fb: return ('ip', 'port')
        if x.op == 'lin' and len(x.a[1]) == 1: x = x.a[1][0][0]
        y = x.a[0] if x.op == 'i' else x
        y = y.a[0] if y.op == 'dsc' else y
        if idat is not None and x is idat: return ('id',)
        y = amodels.base(y)
        return (y.a[0],) if y.op == 'uf' and y.a[0] in ('ip', 'port') and y.a[1] is fb else ()
    def merges(q):
        # decimal texts written one after the other without anything between them
        for g, h in zip(q.a, q.a[1:]):
            x, y = parts_of(g), parts_of(h)
            if x and y: merged.append((x[-1], y[0], q))
    clash = []; merged = []
    leaf(keyv, True)
    for x, y, q in merged: acc[x] = acc[y] = False
    other = [x for x in acc if not isinstance(x, str)]
    for part, what in (('ip', 'address'), ('port', 'port'), ('id', 'identifier')):
        if part not in acc: R.fail(r, s, f'the key {show(keyv)[:160]} does not depend on the {what}'); return
    if other: R.fail(r, s, f'the key {show(keyv)[:160]} also depends on {show(other[0])}: copies of one request are not recognised'); return
    if not acc['id'] and clash:
        n, (a, b) = clash[0]
        R.fail(r, s, f'the key contains the identifier only as {show(n)[:100]}, equal for the identifiers {a} and {b}: different requests are taken for copies'); return
    lossy = [p for p in ('ip', 'port', 'id') if not acc[p]]
    for x, y, q in merged:
        if x in lossy and y in lossy and set(lossy) <= {x, y}:
            ex = {('ip', 'port'): '10.0.0.1 port 1812 and 10.0.0.11 port 812', ('port', 'ip'): 'port 12 of 1.0.0.1 and port 1 of 21.0.0.1', ('ip', 'id'): '10.0.0.1 identifier 12 and 10.0.0.11 identifier 2',
                  ('port', 'id'): 'port 1812 identifier 7 and port 181 identifier 27', ('id', 'ip'): 'identifier 12 of 1.0.0.1 and identifier 1 of 21.0.0.1', ('id', 'port'): 'identifier 12 port 345 and identifier 1 port 2345'}.get((x, y))
            if ex: R.fail(r, s, f'the key writes {x} and {y} as one text: {show(q)[:160]}; the same for {ex}'); return
    if lossy: R.undecided(r, f'the key {show(keyv)[:160]} may merge different values of {lossy}')
    else: R.ok(r)

def inside(a, n): return a is n or any(inside(a, c) for c in terms._children(n))
def exact_lin_of(n, a): return len(n.a[1]) == 1 and abs(n.a[1][0][1]) == 1 and n.a[1][0][0] is a

def collision(n, idat):
    """() if n is injective in the octet idat, a pair of octets with equal values, or None"""
    n0 = idat
    seen = {}
    for i in range(256):
        try: v = cval(subst(n, {n0: I(i)}))
        except Exception: return None
        if v is None: return None
        if v in seen: return (seen[v], i)
        seen[v] = i
    return ()

def eq_obs(P, keyv):
    """equality of marks is equality of their parts"""
    if keyv.op != 'struct' or not keyv.a[0].startswith('crate::'): return []
    p = keyv.a[0]
    I_ = Interp(P, 'peel', K=18)
    k = models.local_impl(I_, p[7:], 'std::cmp::PartialEq', 'eq')
    if k is None: return []
    args, st = sym_args(P, P.bodies[k], ('a', 'b'))
    R = Rules(k, P.bodies[k]['span'])
    a, b = I_.strip(st, args[0]), I_.strip(st, args[1])
    parts = []
    for x, y in zip(a.a[2], b.a[2]):
        if x.op == 'seq': parts.append(mk_seqeq(x, y))
        elif x.op == 'lin': parts.append(eqi(x, y))
        elif x.op == 'symenum' or x.op == 'opq':
            try: parts.append(models.veq(I_, st, x, y))
            except (Split, Unsupported) as e: return [Ob(k, 'equality of marks', 'undecided', {'reason': str(e)})]
        elif is_bool(x): return [Ob(k, 'equality', 'undecided', {})]
        else: return [Ob(k, 'equality of marks', 'undecided', {'reason': x.op})]
    def sp(i_, s, g): return {'value': and_(*parts)}
    return check_fn(P, '', sp, proj_value, K=18, modes=('peel',), key=k, names=('a', 'b'), what='marks are equal iff all their parts are')

def C19(P):
    key, I_, args, outs = server_run(P)
    if key is None: return missing('server::Server::run')
    R = Rules(key, P.bodies[key]['span'])
    F = server_args(P, I_, args)
    skip = F.get('skip_authenticity_validation')
    left_open(R, I_)
    locks = {}; keys = []
    for n, k, s, v in all_paths(I_, outs):
        i, pre, post = task_part(s)
        if n is None: continue
        if k == 'cut': R.undecided('every request path is covered', 'loop bound'); continue
        if s.taint: R.undecided('the request path is modelled', str(s.taint)[:300]); continue
        slot_rules(P, I_, R, s, k, pre, post, locks, keys, n, skip)
    if len(set(locks.values())) > 1: 
        R.undecided('all requests share one set of marks', 'different sets: ' + ', '.join(show(x)[:60] for x in set(locks.values())))
        lk = set(locks.values())
        if any(x.op == 'struct' and x.a[0] == 'lock' for x in lk):
            R.bad['all requests share one set of marks'] = [('violated', 'each datagram gets its own set of marks: ' + ', '.join(show(x)[:60] for x in lk), {'locks': [show(x)[:80] for x in lk]})]
    elif locks: R.ok('all requests share one set of marks')
    if not keys: R.undecided('a request is marked before it is handled', 'no handled path')
    obs = R.obs()
    for kv in {kv.a[0]: kv for kv in keys if kv.op == 'struct'}.values(): obs += eq_obs(P, kv)
    return obs

SETOPS = ('contains', 'insert', 'remove', 'clear')
def slot_rules(P, I_, R, s, k, pre, post, locks, keys, n, skip):
    rv = last_recv(pre)
    if rv is None: R.undecided('a handled request was received', 'no receive event'); return
    rx, frm = rv[3], rv[4]
    hs = [j for j, e in enumerate(post) if e[0] == 'handle']
    ops = [(j, e) for j, e in enumerate(post) if e[0] in SETOPS]
    for j, e in ops:
        if e[0] != 'clear': locks[n] = e[1]
    if any(e[0] == 'clear' for _, e in ops):
        R.fail('marks of other requests are kept', s, 'the set of marks is emptied'); return
    ins = [(j, e) for j, e in ops if e[0] == 'insert']
    present = any(e[0] in ('contains', 'insert') and e[3] is True for _, e in ops)
    r_one = 'a handler runs only after finding no mark and setting it in the same critical section'
    r_free = 'the mark is removed when the handler ends, fails or panics'
    r_dup = 'a copy of a request in progress is dropped without side effects'
    r_key = 'test, mark and removal use the same key'
    scans = [e for e in post if e[0] == 'scan']
    if scans:
        r_copy = 'only a mark of the same address, port and identifier counts as a copy'
        for e in scans: scan_rules(P, I_, R, s, r_copy, e, frm, rx)
        if any(e[3] for e in scans) or not ops: return
        if present: R.undecided(r_one, 'the marks are searched in another way'); return
    ks = {e[2] for _, e in ops}
    if len(hs) > 1: R.fail('a request is handled once', s, 'the handler is invoked twice'); return
    if present:
        bad = [e[0] for j, e in ops if e[0] == 'remove'] + ['handle' for _ in hs]
        R.check(r_dup, s, not bad, 'on finding the request in progress it performs ' + ' '.join(bad))
        return
    if ks:
        k0 = ins[0][1][2] if ins else ops[0][1][2]
        for x in ks:
            if unknown(x): R.undecided(r_key, 'unmodelled key')
            else: R.check(r_key, s, same(s.fs, x, k0), f'{show(x)[:100]} and {show(k0)[:100]}')
        key_rules(P, I_, R, s, k0, frm, rx)
        keys.append(k0)
    if hs:
        h = hs[0]
        before = [(j, e) for j, e in ins if j < h]
        if not before: R.fail(r_one, s, 'the handler runs without the request being marked')
        else:
            j, e = before[-1]
            tested = [x for i, x in ops if i < j and x[0] == 'contains' and x[3] is False and x[4] is e[4] and same(s.fs, x[2], e[2])]
            near = [x for x in scans if x[3] is False and x[4] is e[4]]
            if not tested and near:
                z = next((y for y in (missed_copy(s, x, e[2]) for x in near) if y is not None), None)
                if z is not None: R.fail(r_one, z, 'the search of the marks does not recognise a running copy')
                else: R.undecided(r_one, 'the marks are searched in another way')
                tested = None
            if tested is None: pass
            elif tested: R.ok(r_one)
            else:
                same_op = insert_forks(R, n, I_, e)
                if same_op: R.ok(r_one)
                else: R.fail(r_one, s, 'the test for a running request and the mark are not one critical section')
            early = [x for i, x in ops if j < i < h and x[0] == 'remove']
            R.check('the mark stays while the handler runs', s, not early, 'the mark is removed before the handler runs')
        rem = [i for i, x in ops if x[0] == 'remove' and i > h]
        what = post[h][3]
        R.check(r_free, s, len(rem) >= 1, f'the mark stays set after the handler ' + {'ok': 'ended', 'err': 'failed', 'panic': 'panicked'}[what])
        if len(rem) > 1: R.fail('the mark is removed once', s, 'the mark is removed twice: the second removal may take the mark of a later request')
        return
    if ins:
        rem = [i for i, x in ops if x[0] == 'remove' and i > ins[-1][0]]
        R.check('a mark that was set is removed on every path', s, bool(rem), 'the mark stays set although the handler did not run')
    # not handled: there has to be a reason
    r = 'requests are not suppressed for another reason than a running copy'
    if k != 'ret':
        if any(e[0] == 'secret' and e[2] == 'panic' for e in post): R.ok(r)
        else: R.fail('processing a request does not panic', s, 'panics: ' + str([e for e in post if e[0] == 'panic'][-1:]))
        return
    sec = [e for e in post if e[0] == 'secret']
    if any(e[2] != 'ok' for e in sec) or any(e[0] == 'decode' and e[4 - 1] is False for e in post): R.ok(r); return
    if not sec: R.fail(r, s, 'dropped before the secret was fetched', extra=ge(seq_len(rx), I(20))); return
    secret = sec[-1][3]
    if s.fs.ent(le(seq_len(secret), I(0))) or s.fs.ent(lt(seq_len(rx), I(20))): R.ok(r); return
    z = s
    f = s.fs.simp(skip)
    if f is FALSE:
        ok, y, why = entails(I_, s, lambda i_, x, g: {'value': not_(p_core.req_authentic(i_, x, g)['value'])}, [rx, secret])
        if ok: R.ok(r); return
        if ok is None: R.undecided(r, why); return
        R.fail(r, y, 'an authentic request is dropped: ' + str(why)); return
    R.fail(r, s, 'a decodable request that is not a copy is dropped', extra=batom(mk('uf', 'decodes', rx, secret)))

def scan_rules(P, I_, R, s, r, e, frm, rx):
    """a search of the marks that compares them in another way than as a whole"""
    c, mark = e[5], e[6]
    if e[2] is not None:
        terms_ = [x for x in e[2].a[2] if x.op != 'unk']
        if any(unknown(x) for x in terms_): R.undecided(r, 'unmodelled comparison')
        else: key_rules(P, I_, R, s, mk('struct', mark.a[0], mark.a[1], tuple(terms_)), frm, rx)
        return
    idt = at(s, rx, 1)
    ints = [x for x in mark.a[2] if x.op == 'lin']
    z = s.assume(c) if len(ints) == 1 else None
    z = z and z.assume(not_(eqi(ints[0], idt)))
    if z is not None and any(True for _ in models_of(z.fs)): R.fail(r, z, 'a mark with another identifier is taken for a copy'); return
    atom = lambda x: x.a[1][0][0] if x.op == 'lin' and x.a[0] == 0 and len(x.a[1]) == 1 and x.a[1][0][1] == 1 else None
    if len(ints) == 1 and atom(ints[0]) is not None and atom(idt) is not None:
        for a in (0, 1, 0x55, 255):
            for b in [a ^ (1 << i) for i in range(8)] + [a ^ 255, (a + 1) & 255]:
                z = s.assume(subst(c, {atom(ints[0]): I(a), atom(idt): I(b)}))
                z = z and z.assume(eqi(ints[0], I(a)))
                z = z and z.assume(eqi(idt, I(b)))
                if z is not None and any(True for _ in models_of(z.fs)): R.fail(r, z, f'a mark with identifier {a} is taken for a copy of a request with identifier {b}'); return
    R.undecided(r, 'the comparison of marks is not understood')

def missed_copy(s, e, key):
    """a state in which the search e of the marks fails on a mark equal to the key"""
    c, mark = e[5], e[6]
    m = {}
    for p, q in zip(mark.a[2], key.a[2] if key.op == 'struct' else ()):
        if p.op == 'lin' and len(p.a[1]) == 1 and p.a[0] == 0 and p.a[1][0][1] == 1: m[p.a[1][0][0]] = q
        elif p.op != 'lin': m[p] = q
        else: return None
    if len(m) != len(mark.a[2]): return None
    c = subst(c, m)
    if c is TRUE: return None
    z = s.assume(not_(c))
    return z if z is not None and not unknown(c) and any(True for _ in models_of(z.fs)) else None

def insert_forks(R, n, I_, e):
    """the path asked insert itself whether the mark was new: the other answer leads to no handler"""
    for m, r in I_.tasks:
        if m != n: continue
        for k, s, v in r:
            i, pre, post = task_part(s)
            for j, x in enumerate(post):
                if x[0] == 'insert' and x[3] is True and x[4] is e[4] and x[2] is e[2]:
                    return not any(y[0] == 'handle' for _, s2, _ in r for p in [task_part(s2)[2]] if any(z[0] == 'insert' and z[3] is True for z in p) for y in p)
    return False

def datagrams(R, s, k, v, r_task):
    """every datagram the loop received was given to exactly one task"""
    cur = None; segs = []
    for e in s.ev:
        if e[0] == 'recv':
            cur = [e, 0, True] if e[5] else None
            if cur: segs.append(cur)
        elif cur and e[0] == 'spawn': cur[1] += 1
        elif cur and e[0] == 'local_addr' and e[1] is False: cur[2] = False
    done = segs if k == 'cut' and v == 'loop' else segs[:-1]
    for e, c, la in done:
        if c == 1 or (c == 0 and not la): R.ok(r_task)
        elif c == 0: R.fail(r_task, s, 'a received datagram is dropped by the loop', extra=ge(seq_len(e[3]), I(20)))
        else: R.fail(r_task, s, f'{c} tasks for one datagram')

def C20(P):
    key, I_, args, outs = server_run(P)
    if key is None: return missing('server::Server::run')
    R = Rules(key, P.bodies[key]['span'])
    F = server_args(P, I_, args)
    left_open(R, I_)
    r_end = 'the loop ends only when receiving fails or the shutdown trigger fires'
    r_stop = 'once the shutdown trigger has fired the server does nothing more'
    r_own = 'the loop itself does nothing but receive and start tasks'
    r_buf = 'the receive buffer always has the configured size'
    r_task = 'each datagram is given to a task of its own'
    r_lock = 'no lock is held while a handler runs or while awaiting'
    r_copy = 'a task works on exactly the octets received'
    for k, s, v in outs:
        E = s.ev
        if k == 'ret':
            if not E or E[-1] is None: pass
            recvs = [e for e in E if e[0] == 'recv']
            fine = (recvs and recvs[-1][5] is False) or any(e[0] == 'ready' for e in E)
            R.check(r_end, s, fine, 'run returns after ' + ' '.join(e[0] for e in E if e[0] not in ('log', 'write')))
        elif k in ('panic', 'unwind'):
            R.fail(r_end, s, 'the loop panics: ' + str(v['msg'] if isinstance(v, dict) else [e[1] for e in E if e[0] == 'panic'][-1:]))
        fired = [i for i, e in enumerate(E) if e[0] == 'ready']
        if fired:
            late = [e[0] for e in E[fired[0] + 1:] if e[0] in ('recv', 'spawn', 'send', 'send_to', 'wait', 'handle', 'secret', 'bind')]
            R.check(r_stop, s, not late, 'after the trigger fired it performs ' + ' '.join(late[:6]))
        for i, e in enumerate(E):
            if e[0] in ('handle', 'secret', 'wait', 'elapsed', 'tb', 'send', 'send_to'):
                R.fail(r_own, s, {'handle': 'the handler runs inside the serving loop', 'secret': 'the secret provider runs inside the serving loop', 'wait': 'the serving loop waits for ' + str(e[1:])}.get(e[0], e[0] + ' inside the serving loop')); break
            if e[0] in ('recv', 'wait') and lock_depth(E[:i]): R.fail(r_lock, s, 'a lock is held while receiving')
            if e[0] == 'recv':
                want = F.get('buf_size')
                if want is None or unknown(e[2]): R.undecided(r_buf, 'buffer')
                elif s.fs.ent(eqi(e[2], want)): R.ok(r_buf)
                else: R.fail(r_buf, s, f'a datagram is received into {show(e[2])[:80]} octets', extra=not_(eqi(e[2], want)))
        else: R.ok(r_own)
        datagrams(R, s, k, v, r_task)
    pois = False
    for n, rs in I_.tasks:
        for k, s, v in rs:
            i, pre, post = task_part(s)
            rv = last_recv(pre)
            for j, e in enumerate(post):
                if e[0] in ('handle', 'wait', 'recv', 'send'):
                    R.check(r_lock, s, not lock_depth(post[:j]), f'a lock is held at {e[0]}')
                if e[0] == 'panic' and lock_depth(post[:j]): pois = (s, e)
                if e[0] == 'decode' and rv is not None:
                    if unknown(e[1]): R.undecided(r_copy, 'octets')
                    else: R.check(r_copy, s, same(s.fs, e[1], rv[3]), 'decodes ' + show(e[1])[:120])
    if pois:
        r = 'a panic cannot block later requests'
        k2, I2, a2, o2 = server_run(P, poison=True)
        reach = any(e[0] == 'handle' for _, rs in I2.tasks for _, s, _ in rs for e in s.ev)
        if reach: R.ok(r)
        else: R.fail(r, pois[0], 'a panic poisons the lock and every later request is dropped')
    if not I_.tasks: R.undecided(r_task, 'no task is started')
    # loop-carried state
    for (fk, fid, hd), hs in I_.headers.items():
        if len(hs) < 2: continue
        fs0, c0 = hs[0]
        for fs1, c1 in hs[1:]:
            ch = [x for x in c1 if x in c0 and c0[x] is not c1[x] and not (c0[x].op == 'seq' and c1[x].op == 'seq' and same(fs1, seq_len(c0[x]), seq_len(c1[x])))]
            r = 'one datagram leaves nothing behind for the next but the buffer contents (so two iterations cover all)'
            if ch: R.undecided(r, f'local variables {ch} of {fk} change between iterations')
            else: R.ok(r)
    return R.obs()

# ---------------------------------------------------------------- C32
def C32(P):
    """the other direction of C18: what must be handled is handled, once, and the server says nothing itself"""
    key, I_, args, outs = server_run(P)
    if key is None: return missing('server::Server::run')
    R = Rules(key, P.bodies[key]['span'])
    F = server_args(P, I_, args)
    skip = F.get('skip_authenticity_validation')
    if skip is None: return [Ob(key, 'skip flag', 'undecided', {'reason': 'no field skip_authenticity_validation'})]
    left_open(R, I_)
    r_once = 'one datagram is handled at most once'
    r_all = 'a genuine request that is not in progress reaches the handler'
    r_own = 'the server sends nothing of its own'
    r_any = 'a received datagram gets a task'
    r_stop = 'a task is left to finish'
    reach = 0
    for k, s, v in outs:
        datagrams(R, s, k, v, r_any)
        R.check(r_own, s, not any(e[0] in ('send', 'send_to', 'connect') for e in s.ev if e[0] != 'log'), 'the serving loop sends')
        R.check(r_stop, s, not (k == 'cut' and any(e[0] == 'abort' for e in s.ev)), 'the serving loop stops tasks it started')
    for n, rs in I_.tasks:
        for k, s, v in rs:
            i, pre, post = task_part(s)
            if i is None: R.undecided(r_all, 'a task without a start'); continue
            if k == 'cut': R.undecided(r_all, 'loop bound'); continue
            R.check(r_own, s, not any(e[0] in ('send', 'send_to', 'connect') for e in post), 'the server sends ' + str([esh(e)[:100] for e in post if e[0] in ('send', 'send_to', 'connect')][:1]))
            hs = [e for e in post if e[0] == 'handle']
            R.check(r_once, s, len(hs) <= 1, 'the handler runs twice for one datagram')
            if hs: reach += 1; R.ok(r_all); continue
            if s.taint: R.undecided(r_all, str(s.taint)[:200]); continue
            rv = last_recv(pre) or last_recv(post)
            if rv is None: R.undecided(r_all, 'no receive event'); continue
            y = dropped(P, I_, s, post, rv[3], skip)
            if y is None: R.ok(r_all)
            elif isinstance(y, str): R.undecided(r_all, y)
            else: R.fail(r_all, y, 'a genuine request is dropped' + (': the lock is busy' if any(e[0] == 'busy' for e in post) else ': the task panics' if k in ('panic', 'unwind') else ''))
    if not reach: R.undecided(r_all, 'no path of the analysis reaches the handler')
    return R.obs()

def dropped(P, I_, s, post, rx, skip):
    """a state in which a datagram that must be handled is not; None if the path only drops what may be dropped"""
    if any(e[0] == 'secret' and e[2] != 'ok' for e in post): return None
    if any(e[0] in ('contains', 'insert', 'scan') and e[3] is True for e in post): return None
    if digest_failed(s): return None
    n = seq_len(rx)
    z = s.assume(ge(n, I(20)))
    if z is None: return None
    d = add(scale(at(z, rx, 2), 256), at(z, rx, 3))
    z = z.assume(and_(ge(d, I(20)), le(d, I(4096)), le(d, n)))
    if z is None: return None
    sec = [e[3] for e in post if e[0] == 'secret']
    if not sec: return z
    if unknown(sec[-1]): return 'unmodelled secret'
    z = z.assume(ge(seq_len(sec[-1]), I(1)))
    if z is None: return None
    z = z.assume(batom(mk('uf', 'decodes', rx, sec[-1])))
    if z is None: return None
    y = z.assume(skip)
    if y is not None: return y
    z = z.assume(not_(skip))
    if z is None: return None
    ok, y, why = entails(I_, z, lambda i_, x, g: {'value': not_(p_core.req_authentic(i_, x, g)['value'])}, [rx, sec[-1]])
    if ok: return None
    return y if ok is False else str(why)

# ---------------------------------------------------------------- C29
def C29(P):
    out = []
    SV = typath(P, 'Server')
    key = find(P, 'server::Server::listen')
    if key is None: return missing('server::Server::listen')
    I_, args, outs = run_async(P, key)
    R = Rules(key, P.bodies[key]['span'])
    host, port = models.Q(I_, State(), args[0]), args[1]
    text = cat(host, amodels.CT(':') if hasattr(amodels, 'CT') else S_units([I(58)]), models.TEXT(mk('uf', 'to_string', port)))
    r_addr = 'it binds one socket to the given host and port'
    r_err = 'it fails exactly when the socket cannot be bound'
    r_quiet = 'nothing is sent or received before the server runs'
    r_buf = 'a new server receives up to 1500 octets'
    r_free = 'a new server has no request in progress'
    conn = None
    for k, s, v in outs:
        if k == 'cut': R.undecided(r_addr, 'loop bound'); continue
        if k != 'ret': R.fail(r_err, s, 'leaves by ' + k); continue
        bs = [e for e in s.ev if e[0] == 'bind']
        for s2, kind, x in results(I_, s, v):
            bad = [e for e in s.ev if e[0] in ('connect', 'send', 'send_to', 'recv', 'handle', 'secret')]
            R.check(r_quiet, s2, not bad, 'performs ' + (esh(bad[0]) if bad else ''))
            if kind == 'err':
                failed = [e for e in s.ev if e[0] in ('bind', 'local_addr') and e[-1] is False]
                R.check(r_err, s2, bool(failed), 'an error although the socket was bound'); continue
            if kind != 'ok': R.undecided(r_err, 'result'); continue
            if len(bs) != 1 or bs[0][2] is not True: R.fail(r_err if not any(b[2] for b in bs) else r_addr, s2, f'{len(bs)} sockets bound'); continue
            R.ok(r_err)
            a = I_.strip(s2, bs[0][1])
            if unknown(a): R.undecided(r_addr, 'address')
            elif a.op == 'struct' and a.a[0] == '()' and len(a.a[2]) == 2:
                h = I_.strip(s2, a.a[2][0])
                R.check(r_addr, s2, same(s2.fs, h, host) and same(s2.fs, a.a[2][1], port), 'binds ' + show(a)[:120])
            elif a.op == 'seq':
                if same(s2.fs, a, text): R.ok(r_addr)
                else:
                    odd = [n for n in terms_of(a) if n.op == 'uf' and n.a[0] != 'to_string']
                    if odd: R.undecided(r_addr, 'binds ' + show(a)[:120])
                    else: R.fail(r_addr, s2, 'binds ' + show(a)[:120])
            else: R.undecided(r_addr, 'binds ' + show(a)[:120])
            w = I_.strip(s2, x)
            if w.op != 'struct' or w.a[0] != SV: R.undecided(r_buf, 'result'); continue
            i = set_field(P, *SETTERS[1])
            f = w.a[2][i] if i is not None else None
            if unknown(f): R.undecided(r_buf, 'unmodelled')
            else: R.check(r_buf, s2, same(s2.fs, f, I(1500)), 'receives up to ' + show(f)[:60])
            if any(n.op == 'uf' and n.a[0] == 'empty_set' for n in terms_of(w)): R.ok(r_free)
            else: R.undecided(r_free, 'the set of requests in progress was not found')
            j = [n for n, y in enumerate(w.a[2]) if any(m.op == 'uf' and m.a[0] == 'socket' for m in terms_of(y))]
            if len(j) == 1: conn = j[0] if conn in (None, j[0]) else -1
    left_open(R, I_); out += R.obs()
    # the address reported is that of the socket requests are received on
    k = find(P, 'server::Server::get_listen_address')
    if k is None: return out + missing('server::Server::get_listen_address')
    R = Rules(k, P.bodies[k]['span'])
    r = 'the listening address is that of the socket bound'
    I_ = Interp(P, 'peel'); a, st = sym_args(P, P.bodies[k])
    me = I_.mread(st, a[0]) if a[0].op == 'mref' else I_.strip(st, a[0])
    for kd, s, v in I_.analyse(k, a, st):
        if kd != 'ret': R.fail(r, s, 'leaves by ' + kd); continue
        for s2, kind, x in results(I_, s, v):
            if kind == 'err': R.check(r, s2, any(e[0] == 'local_addr' and e[1] is False for e in s.ev), 'an error although the address is known'); continue
            b = amodels.base(I_.strip(s2, x))
            if conn is None or conn < 0 or unknown(b): R.undecided(r, 'socket field')
            else: R.check(r, s2, b.op == 'uf' and b.a[0] == 'local_addr' and node_of(b.a[1]) is node_of(me.a[2][conn]), 'returns ' + show(b)[:100])
    left_open(R, I_); out += R.obs()
    key, I_, args, outs = server_run(P)
    if key is not None:
        R = Rules(key, P.bodies[key]['span'])
        r = 'requests are received on the socket bound'
        SVv = P.expand_adt(SYM('self'), SV, SV)
        for n, k, s, v in all_paths(I_, outs):
            for e in s.ev:
                if e[0] != 'recv': continue
                if conn is None or conn < 0 or unknown(e[1]): R.undecided(r, 'socket field'); continue
                R.check(r, s, node_of(e[1]) is node_of(SVv.a[2][conn]), 'receives on ' + show(e[1])[:80])
        out += R.obs()
    out += setter(P, *SETTERS[1])
    # what a request is made of is what it tells
    k = find(P, 'core::request::Request::new')
    if k is None: return out + missing('core::request::Request::new')
    R = Rules(k, P.bodies[k]['span'])
    I_ = Interp(P, 'peel'); a, st = sym_args(P, P.bodies[k])
    for kd, s, v in I_.analyse(k, a, st):
        for i, n in enumerate(('get_local_addr', 'get_remote_addr', 'get_packet')):
            r = f'{n} returns what the request was made with'
            if kd != 'ret': R.fail(r, s, 'leaves by ' + kd); continue
            try: g = getter(P, I_, s, 'core::request::Request::' + n, I_.strip(s, v))
            except (Unsupported, Budget) as e: R.undecided(r, str(e)); continue
            if unknown(g): R.undecided(r, 'no value'); continue
            R.check(r, s, same(s.fs, g, I_.strip(s, a[i])), f'returns {show(g)[:100]}')
    return out + R.obs()

def terms_of(n):
    seen = set(); todo = [n]
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x); yield x
        todo += list(terms._children(x))
def node_of(x):
    while x.op in ('ref', 'box', 'opq'): x = x.a[0]
    return x

CHECKS = {'C18': C18, 'C19': C19, 'C20': C20, 'C21': C21, 'C22': C22, 'C29': C29, 'C32': C32}
