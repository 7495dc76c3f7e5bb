"""Transfer functions for futures, sockets, locks, sets, tasks and the user's callbacks.

Futures are values; polling a future of the crate runs its body to completion, polling a library future
forks its outcomes.  Effects are appended, in order, to the event list of the path:
  ('bind', addr, ok) ('connect', sock, addr, ok) ('send', sock, data, ok) ('recv', sock, buflen, n, data, from, ok)
  ('tb', id, duration) ('te', id) ('elapsed', id, duration, kinds)          timeouts
  ('lock', lock, n) ('unlock', lock, n) ('contains'|'insert'|'remove', lock, key, result, n)
  ('secret', provider, addr, outcome) ('handle', conn, request, outcome) ('spawn', what, n) ('task', n)
  ('panic', message) ('wait', what)"""
from models import *
import models, interp
from interp import *
from terms import *

POLL = 'std::task::Poll'
def READY(v): return mk('struct', POLL, 0, (v,))
PENDING = mk('struct', POLL, 1, ())
SOCKADDR = 'std::net::SocketAddr'

def ev(st, *e):
    s = st.copy(); s.ev = s.ev + (tuple(e),); return s
def count(st, k): return sum(1 for e in st.ev if e[0] == k)
def ioerr(k): return OPQ(mk('uf', 'io_error', mk('tag', k)))
def FUT(kind, *args): return mk('struct', 'fut:' + kind, 0, tuple(args))

# ---------------------------------------------------------------- polling
@model('std::future::IntoFuture::into_future')
def m_into_future(I_, st, a, f, t): return ret(st, a[0])

@model('std::future::get_context', 'tokio::macros::support::poll_budget_available_', 'tokio::task::unconstrained', 'futures::FutureExt::fuse', 'std::boxed::Box::into_pin_')
def m_pass(I_, st, a, f, t): return ret(st, a[0])

@model('tokio::macros::support::poll_budget_available')
def m_budget(I_, st, a, f, t): return ret(st, READY(UNIT))

@model('tokio::macros::support::thread_rng_n')
def m_rng_n(I_, st, a, f, t): return ret(st, I(0))

@model('std::future::poll_fn')
def m_poll_fn(I_, st, a, f, t): return ret(st, FUT('pollfn', a[0]))

@model('std::future::ready')
def m_fready(I_, st, a, f, t): return ret(st, FUT('ready', a[0]))
@model('std::future::pending')
def m_fpending(I_, st, a, f, t): return ret(st, FUT('pending'))

@model('std::future::Future::poll')
def m_poll(I_, st, a, f, t):
    cell = a[0]
    while cell.op == 'mref':
        w = I_.mread(st, cell)
        if w.op == 'mref': cell = w
        elif w.op == 'box': cell = mk('mref', cell.a[0], cell.a[1] + (('box',),))
        else: break
    v = I_.strip(st, a[0])
    if v.op == 'ite': raise Split(v.a[0])
    outs = poll(I_, st, v, a[1], cell if cell.op == 'mref' else None)
    return outs

def poll(I_, st, v, cx, cell=None):
    """outcomes of polling a future: ret with a Poll value, panic, cut"""
    st = st.copy()
    v = I_.strip(st, v)
    if v.op == 'ite': raise Split(v.a[0])
    if v.op == 'struct' and v.a[0].startswith('coro:'):
        body = I_.P.bodies.get(v.a[0][5:])
        if body is None: raise Unsupported('future ' + v.a[0])
        I_.called.add(v.a[0][5:])
        s0 = st.copy()
        if cell is not None: I_.mwrite(st, cell, mk('moved'))
        outs = [(k, s, READY(x) if k == 'ret' else x) for k, s, x in I_.call_body(st, body, [v, cx], v.a[0][5:])]
        if I_.inselect: outs.append(('ret', s0, PENDING))
        return outs
    if v.op == 'struct' and v.a[0] == 'fut:pollfn':
        clo = v.a[2][0]
        if cell is not None: clo = mk('mref', cell.a[0], cell.a[1] + (('f', 0, None),))
        I_.inselect += 1
        try: outs = I_.call_value(st, clo, [cx])
        finally: I_.inselect -= 1
        res = []
        for k, s, x in outs:
            if k == 'ret' and x.op == 'struct' and x.a[0] == POLL and x.a[1] == 1:
                res.append(('cut', s, 'pending'))     # every branch pending: the caller yields and polls again
            else: res.append((k, s, x))
        return res
    if v.op == 'struct' and v.a[0].startswith('fut:'):
        kind = v.a[0][4:]
        h = FUTS.get(kind)
        if h is None: raise Unsupported('future ' + kind)
        outs = [(k, s, READY(x) if k == 'ret' else x) for k, s, x in h(I_, st, *v.a[2])]
        if I_.inselect: outs.append(('ret', st.copy(), PENDING))
        return outs
    if v.op == 'opq':
        if I_.P and v.a[0].op == 'uf' and v.a[0].a[0] in ('from',): raise Unsupported('future')
        s = ev(st, 'ready', v.a[0])
        out = [('ret', s, READY(OPQ(mk('uf', 'output', v.a[0]))))]
        if I_.inselect: out.append(('ret', st, PENDING))
        return out
    raise Unsupported('poll of ' + v.op + ' ' + str(v.a[0])[:60])

def run_future(I_, st, v):
    """outcomes of running a future to completion (plain values)"""
    sel = I_.inselect; I_.inselect = 0
    try: outs = poll(I_, st, v, OPQ(SYM('cx')))
    finally: I_.inselect = sel
    return [(k, s, x.a[2][0] if k == 'ret' else x) for k, s, x in outs]

# ---------------------------------------------------------------- timeouts, sleeping
FUTS = {}
def fut(kind):
    def d(fn): FUTS[kind] = fn; return fn
    return d

@model('tokio::time::timeout')
def m_timeout(I_, st, a, f, t): return ret(st, FUT('timeout', I_.strip(st, a[0]), a[1]))

EFFECTS = ('bind', 'connect', 'send', 'recv', 'handle', 'secret')
@fut('timeout')
def f_timeout(I_, st, d, inner):
    n = count(st, 'tb') + count(st, 'elapsed')
    s = ev(st, 'tb', n, d)
    out = []; kinds = set()
    base = len(s.ev)
    for k, s2, v in run_future(I_, s, inner):
        kinds |= {e[0] for e in s2.ev[base:] if e[0] in EFFECTS}
        if k == 'ret':
            s2 = ev(s2, 'te', n)
            out.append(('ret', s2, OK(v)))
        else: out.append((k, s2, v))
    out.append(('ret', ev(st, 'elapsed', n, d, tuple(sorted(kinds))), ERR(OPQ(mk('uf', 'Elapsed')))))
    return out

@model('tokio::time::sleep')
def m_sleep(I_, st, a, f, t): return ret(st, FUT('sleep', I_.strip(st, a[0])))
@fut('sleep')
def f_sleep(I_, st, d): return [('ret', ev(st, 'wait', 'sleep'), UNIT)]
@fut('ready')
def f_ready(I_, st, v): return [('ret', st, v)]
@fut('pending')
def f_pending(I_, st): return [('cut', ev(st, 'wait', 'for ever'), 'pending')]
@model('tokio::task::yield_now')
def m_yieldnow(I_, st, a, f, t): return ret(st, FUT('ready', UNIT))
@model('std::thread::sleep')
def m_tsleep(I_, st, a, f, t): return [('ret', ev(st, 'wait', 'sleep'), UNIT)]

# ---------------------------------------------------------------- tasks
@model('tokio::spawn', 'tokio::task::spawn', 'tokio::task::spawn_local', 'tokio::task::spawn::spawn')
def m_spawn(I_, st, a, f, t):
    n = count(st, 'spawn')
    v = I_.strip(st, a[0])
    s = ev(st, 'spawn', n)
    s2 = ev(s, 'task', n)
    sel = I_.inselect; I_.inselect = 0
    try:
        if sum(1 for m, _ in I_.tasks if m == n) < (3 if n == 0 else 2): I_.tasks.append((n, run_future(I_, s2, v)))
    finally: I_.inselect = sel
    return ret(s, FUT('join', I(n)))
@fut('join')
def f_join(I_, st, n): return [('ret', ev(st, 'wait', 'task'), OK(OPQ(mk('uf', 'task_output'))))]

# ---------------------------------------------------------------- sockets
SOCK = 'tokio::net::UdpSocket::'
@model(SOCK + 'bind', SOCK + 'connect', SOCK + 'send', SOCK + 'recv', SOCK + 'recv_from', SOCK + 'send_to', SOCK + 'readable', SOCK + 'writable')
def m_sock(I_, st, a, f, t):
    args = []
    for i, x in enumerate(a):
        if f['name'] in ('recv', 'recv_from') and i == 1: args.append(mref_of(I_, st, x) if x.op == 'mref' else x)
        else: args.append(I_.strip(st, x))
    return ret(st, FUT('sock_' + f['name'], *args))

@fut('sock_bind')
def f_bind(I_, st, addr):
    n = count(st, 'bind')
    return [('ret', ev(st, 'bind', addr, True), OK(OPQ(mk('uf', 'socket', I(n))))), ('ret', ev(st, 'bind', addr, False), ERR(ioerr('bind')))]
@fut('sock_connect')
def f_connect(I_, st, sock, addr):
    return [('ret', ev(st, 'connect', sock, addr, True), OK(UNIT)), ('ret', ev(st, 'connect', sock, addr, False), ERR(ioerr('connect')))]
@fut('sock_send')
def f_send(I_, st, sock, data):
    q = Q(I_, st, data)
    return [('ret', ev(st, 'send', sock, q, True), OK(seq_len(q))), ('ret', ev(st, 'send', sock, q, False), ERR(ioerr('send')))]
@fut('sock_send_to')
def f_send_to(I_, st, sock, data, addr):
    q = Q(I_, st, data)
    return [('ret', ev(st, 'send_to', sock, q, addr, True), OK(seq_len(q))), ('ret', ev(st, 'send_to', sock, q, addr, False), ERR(ioerr('send')))]

def receive(I_, st, sock, buf, addr):
    if buf.op != 'mref': raise Unsupported('receive buffer')
    n = count(st, 'recv')
    q = Q(I_, st, I_.mread(st, buf))
    rx = mk('sa', SYM(f'datagram{n}'), None, U8)
    data = S_atom(rx); ln = seq_len(data)
    s = st.assume(le(ln, seq_len(q)))
    frm = I_.P.expand_s(SYM(f'sender{n}'), SOCKADDR)
    out = []
    if s is not None:
        new = cat(data, slice_seq(s.fs, q, ln, seq_len(q)))
        I_.mwrite(s, buf, new)
        s = ev(s, 'recv', sock, seq_len(q), data, frm, True)
        out.append(('ret', s, OK(TUP(ln, frm)) if addr else OK(ln)))
    s = ev(st, 'recv', sock, seq_len(q), None, None, False)
    out.append(('ret', s, ERR(ioerr('recv'))))
    return out
@fut('sock_recv')
def f_recv(I_, st, sock, buf): return receive(I_, st, sock, buf, False)
@fut('sock_recv_from')
def f_recv_from(I_, st, sock, buf): return receive(I_, st, sock, buf, True)

@model(SOCK + 'local_addr')
def m_local_addr(I_, st, a, f, t):
    sk = I_.strip(st, a[0])
    node = sk.a[0] if sk.op == 'opq' else sk
    return [('ret', ev(st, 'local_addr', True), OK(I_.P.expand_s(mk('uf', 'local_addr', node), SOCKADDR))), ('ret', ev(st, 'local_addr', False), ERR(ioerr('local_addr')))]

# ---------------------------------------------------------------- addresses
def const_text(q):
    if q.op != 'seq': return None
    n = cval(seq_len(q))
    if n is None or n > 300: return None
    bs = []
    for i in range(n):
        c = cval(seq_at(Facts(), q, I(i)))
        if c is None: return None
        bs.append(c)
    try: return bytes(bs).decode()
    except UnicodeDecodeError: return None

def addr_family(I_, st, v):
    """4, 6, None (unknown) for a concrete address value"""
    v = I_.strip(st, v)
    if v.op == 'opq' and v.a[0].op == 'uf' and v.a[0].a[0] == 'sockaddr': return v.a[0].a[2]
    if v.op == 'struct' and v.a[0] in (SOCKADDR, 'std::net::IpAddr'): return 4 if v.a[1] == 0 else 6
    if v.op == 'seq':
        x = text_family(const_text(v))
        if x: return x
        l = cval(seq_len(v))
        return {4: 4, 16: 6}.get(l)
    if v.op == 'struct' and v.a[0] == '()' and v.a[2]: return addr_family(I_, st, v.a[2][0])
    return None

def text_family(txt):
    if txt is None: return None
    import ipaddress
    h, _, p = txt.rpartition(':')
    if not p.isdigit(): return None
    try: return ipaddress.ip_address(h.strip('[]')).version
    except ValueError: return None

@model('std::str::parse')
def m_parse(I_, st, a, f, t):
    ty = dty(I_, t)
    s = ty['s'] if ty else ''
    q = Q(I_, st, a[0])
    if 'SocketAddr' in s:
        txt = const_text(q)
        fam = text_family(txt)
        if fam: return ret(st, OK(OPQ(mk('uf', 'sockaddr', q, fam))))
        return [('ret', st.copy(), OK(OPQ(mk('uf', 'parsed', q)))), ('ret', st.copy(), ERR(OPQ(mk('uf', 'parse_error', q))))]
    raise Unsupported('parse')

def fam_formula(I_, st, v):
    v = I_.strip(st, v)
    x = addr_family(I_, st, v)
    if x: return TRUE if x == 4 else FALSE
    if v.op == 'symenum': return eqi(I_.discr(st, v), I(0))
    if v.op == 'opq': return batom(mk('uf', 'is_ipv4', v.a[0]))
    raise Unsupported('address family')

@model('std::net::SocketAddr::is_ipv4', 'std::net::IpAddr::is_ipv4')
def m_is4(I_, st, a, f, t): return ret(st, fam_formula(I_, st, a[0]))
@model('std::net::SocketAddr::is_ipv6', 'std::net::IpAddr::is_ipv6')
def m_is6(I_, st, a, f, t): return ret(st, not_(fam_formula(I_, st, a[0])))
def base(v): return v.a[0] if v.op in ('opq', 'symenum') else v
@model('std::net::SocketAddr::ip')
def m_ip(I_, st, a, f, t):
    v = I_.strip(st, a[0])
    return ret(st, OPQ(mk('uf', 'ip', base(v))))
@model('std::net::SocketAddr::port')
def m_port(I_, st, a, f, t):
    v = I_.strip(st, a[0])
    return ret(st, int_atom(mk('uf', 'port', base(v)), 16, False))
@model('std::net::SocketAddr::new')
def m_sanew(I_, st, a, f, t):
    ip, port = I_.strip(st, a[0]), I_.strip(st, a[1])
    if ip.op == 'opq' and ip.a[0].op == 'uf' and ip.a[0].a[0] == 'ip':
        x = ip.a[0].a[1]
        if port is int_atom(mk('uf', 'port', x), 16, False): return ret(st, mk('symenum', x, SOCKADDR))
    fam = addr_family(I_, st, ip)
    if fam: return ret(st, OPQ(mk('uf', 'sockaddr', TUP(ip, port), fam)))
    return ret(st, OPQ(mk('uf', 'addr', ip, port)))

# ---------------------------------------------------------------- locks and sets
LOCKS = ('std::sync::RwLock', 'std::sync::Mutex', 'tokio::sync::RwLock', 'tokio::sync::Mutex')
@model(*[x + '::new' for x in LOCKS])
def m_lock_new(I_, st, a, f, t): return ret(st, mk('struct', 'lock', 0, (a[0], I(count(st, 'newlock')))))
def take(I_, st, lock, kind):
    n = count(st, 'lock')
    return ev(st, 'lock', lock, n, kind), mk('struct', 'guard', 0, (lock, I(n)))
@model('std::sync::RwLock::write', 'std::sync::RwLock::read', 'std::sync::Mutex::lock')
def m_lock(I_, st, a, f, t):
    s, g = take(I_, st, I_.strip(st, a[0]), f['name'])
    if I_.poison: return ret(s, ERR(mk('struct', 'poison', 0, (g,))))
    return ret(s, OK(g))
TRYERR = 'std::sync::TryLockError'
@model('std::sync::RwLock::try_write', 'std::sync::RwLock::try_read', 'std::sync::Mutex::try_lock', 'tokio::sync::RwLock::try_write', 'tokio::sync::RwLock::try_read', 'tokio::sync::Mutex::try_lock')
def m_trylock(I_, st, a, f, t):
    lock = I_.strip(st, a[0])
    s, g = take(I_, st, lock, f['name'][4:])
    out = [('ret', ev(st, 'busy', lock), ERR(mk('struct', TRYERR, 1, ())))]
    if I_.poison and not f['path'].startswith('tokio'): out.append(('ret', s, ERR(mk('struct', TRYERR, 0, (mk('struct', 'poison', 0, (g,)),)))))
    else: out.append(('ret', s, OK(g)))
    return out
@model('tokio::sync::RwLock::write', 'tokio::sync::RwLock::read', 'tokio::sync::Mutex::lock')
def m_tlock(I_, st, a, f, t): return ret(st, FUT('lock', I_.strip(st, a[0]), mk('tag', f['name'])))
@fut('lock')
def f_lock(I_, st, lock, kind):
    s, g = take(I_, st, lock, kind.a[0])
    return [('ret', s, g)]
@model('std::sync::PoisonError::into_inner', 'std::sync::poison::PoisonError::into_inner')
def m_poison(I_, st, a, f, t):
    v = I_.strip(st, a[0])
    if v.op == 'struct' and v.a[0] == 'poison': return ret(st, v.a[2][0])
    raise Unsupported('into_inner')
_deref = TAB['std::ops::Deref::deref']
_deref_mut = TAB['std::ops::DerefMut::deref_mut']
def is_guard(I_, st, v):
    try: w = I_.strip(st, v)
    except (Unsupported, Dead, Split): return None
    return w if w.op == 'struct' and w.a[0] == 'guard' else None
@model('std::ops::DerefMut::deref_mut')
def m_gderef_mut(I_, st, a, f, t):
    g = is_guard(I_, st, a[0])
    if g is not None: return ret(st, mk('struct', 'set', 0, g.a[2]))
    return _deref_mut(I_, st, a, f, t)
@model('std::ops::Deref::deref')
def m_gderef(I_, st, a, f, t):
    g = is_guard(I_, st, a[0])
    if g is not None: return ret(st, mk('struct', 'set', 0, g.a[2]))
    return _deref(I_, st, a, f, t)

def the_set(I_, st, v):
    w = I_.strip(st, v)
    if w.op == 'struct' and w.a[0] in ('set', 'guard'): return w
    raise Unsupported('set that is not behind a lock')

COLL = [c + x for c in ('std::collections::', 'std::collections::hash_set::', 'std::collections::hash_map::', 'std::collections::btree_set::') for x in ('HashSet', 'HashMap', 'BTreeSet', 'BTreeMap')]
@model(*[c + '::new' for c in COLL], *[c + '::with_capacity' for c in COLL])
def m_set_new(I_, st, a, f, t): return ret(st, OPQ(mk('uf', 'empty_set')))

def known(st, g, key):
    """what the path already knows about the key in this critical section"""
    r = None
    for e in st.ev:
        if e[0] in ('contains', 'insert', 'remove') and e[1] is g.a[2][0] and e[2] is key and e[4] is g.a[2][1]:
            r = {'contains': e[3], 'insert': True, 'remove': False}[e[0]]
    return r

def set_op(I_, st, a, f, op, wrap=lambda present: TRUE if present else FALSE):
    w = the_set(I_, st, a[0]); key = I_.strip(st, a[1])
    k = known(st, w, key)
    out = []
    for present in ((k,) if k is not None else (False, True)):
        res = present if op == 'contains' else present
        s = ev(st, op, w.a[2][0], key, res, w.a[2][1])
        out.append(('ret', s, wrap(present)))
    return out
def B_(b): return TRUE if b else FALSE
@model(*[c + '::contains' for c in COLL], *[c + '::contains_key' for c in COLL])
def m_contains(I_, st, a, f, t): return set_op(I_, st, a, f, 'contains', B_)
@model(*[c + '::insert' for c in COLL])
def m_insert(I_, st, a, f, t):
    if len(a) == 3: return set_op(I_, st, a, f, 'insert', lambda p: SOME(OPQ(mk('uf', 'old'))) if p else mk('struct', OPT, 0, ()))
    return set_op(I_, st, a, f, 'insert', lambda p: B_(not p))
@model(*[c + '::remove' for c in COLL], *[c + '::take' for c in COLL])
def m_remove(I_, st, a, f, t):
    ty = dty(I_, t)
    if ty and ty['k'] == 'bool': return set_op(I_, st, a, f, 'remove', B_)
    return set_op(I_, st, a, f, 'remove', lambda p: SOME(OPQ(mk('uf', 'old'))) if p else mk('struct', OPT, 0, ()))
@model(*[c + '::get' for c in COLL])
def m_get(I_, st, a, f, t): return set_op(I_, st, a, f, 'contains', lambda p: SOME(OPQ(mk('uf', 'old'))) if p else mk('struct', OPT, 0, ()))
@model(*[c + '::' + m for c in COLL for m in ('clear', 'retain', 'drain')])
def m_clear(I_, st, a, f, t):
    w = the_set(I_, st, a[0])
    return [('ret', ev(st, 'clear', w.a[2][0], f['name']), UNIT)]
@model(*[c + '::' + m for c in COLL for m in ('len', 'is_empty')])
def m_setlen(I_, st, a, f, t):
    w = the_set(I_, st, a[0])
    n = mk('uf', 'setlen', w.a[2][0], I(len(st.ev)))
    at = int_atom(n, 64, False)
    return [('ret', ev(st, 'setlen', w.a[2][0]), at if f['name'] == 'len' else eqi(at, I(0)))]

# ---------------------------------------------------------------- callbacks of the user
@model('crate::server::SecretProvider::fetch_secret')
def m_fetch_secret(I_, st, a, f, t):
    n = count(st, 'secret')
    addr = I_.strip(st, a[1])
    sec = S_atom(mk('sa', SYM(f'secret{n}'), None, U8))
    out = [('ret', ev(st, 'secret', addr, 'ok', sec), OK(sec)), ('ret', ev(st, 'secret', addr, 'err', None), ERR(I_.P.expand_s(mk('uf', 'provider_error', I(n)), 'server::SecretProviderError')))]
    if I_.unwind: out.append(('panic', ev(st, 'secret', addr, 'panic', None), {'msg': 'the secret provider panics', 'at': (t or {}).get('sp'), 'in': 'fetch_secret'}))
    return out

@model('crate::server::RequestHandler::handle_radius_request')
def m_handler(I_, st, a, f, t): return ret(st, FUT('handler', I_.strip(st, a[1]), I_.strip(st, a[2])))
@fut('handler')
def f_handler(I_, st, conn, req):
    n = count(st, 'handle')
    out = [('ret', ev(st, 'handle', conn, req, 'ok'), OK(OPQ(mk('uf', 'handled', I(n))))), ('ret', ev(st, 'handle', conn, req, 'err'), ERR(OPQ(mk('uf', 'handler_error', I(n)))))]
    if I_.unwind: out.append(('panic', ev(st, 'handle', conn, req, 'panic'), {'msg': 'the handler panics', 'at': None, 'in': 'handler'}))
    return out
