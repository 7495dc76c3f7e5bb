"""State that outlives a call: mutable statics, thread locals, the environment, clocks, seeded generators.

A call can read there anything an earlier call (or another thread, or the operator) left.  Each read is
therefore an arbitrary value of its type, and a write is an effect nobody's result may depend on: a result
that does depend on one cannot equal a function of the arguments, and the check of that result says so.
The exception is state whose value is decided by the source: a lazily initialised static is the value of
its initialiser when that value is the same on every run."""
from models import *
import models, interp
from interp import *
from terms import *
import amodels
from amodels import FUT, fut, ev

def AMB(I_, st, what):
    """an arbitrary value: what the outside left there"""
    n = mk('rnd', 'ambient ' + what, st.rc, *[A(bv(TMPBV + i)) for i in range(I_.bvd)])
    st.rc += 1
    return n
def is_amb(n): return n.op == 'rnd' and isinstance(n.a[0], str)

def ambient(path, ty): return OPQ(mk('amb', path, ty))
def amb_of(I_, st, v):
    """(name, type) of the static behind a value, or None"""
    try: w = I_.strip(st, v)
    except (Unsupported, Dead, Split): return None
    if w.op == 'opq' and w.a[0].op == 'amb': return w.a[0].a[0], w.a[0].a[1]
    return None
def state_of(I_, st, v):
    """like amb_of, also for a cell inside an argument whose content the caller controls"""
    r = amb_of(I_, st, v)
    if r: return r
    w = I_.strip(st, v)
    if w.op == 'opq' and w.a[0].op in ('fld', 'sym', 'rnd'): return show(w)[:40], None
    return None
def inner(I_, ty):
    t = I_.P.T[ty] if ty is not None else None
    if t and t.get('args'): return t['args'][0]
    raise Unsupported('content of a static of type ' + (t['s'] if t else '?'))
def any_of(I_, st, what, ty): return I_.P.expand(AMB(I_, st, what), ty)
def place(I_, st, what, ty):
    """a fresh place holding what the static holds now"""
    I_.fid += 1
    cell = ('amb', I_.fid); st.cells[cell] = any_of(I_, st, what, ty)
    return mk('mref', cell, ())

def static_const(I_, st, c):
    name = c['static']
    if c.get('raw'): return place(I_, st, name, c['sty'])
    t = I_.P.T[c['sty']]
    if t['k'] in ('int', 'bool', 'char', 'array', 'tuple', 'slice', 'str'): return place(I_, st, name, c['sty'])
    return ambient(name, c['sty'])

ATOMIC = ('std::sync::atomic::Atomic', 'core::sync::atomic::Atomic')
AT = [x + '::' + m for x in ATOMIC for m in ('load', 'swap', 'fetch_add', 'fetch_sub', 'fetch_or', 'fetch_and', 'fetch_xor', 'fetch_nand', 'fetch_max', 'fetch_min', 'compare_exchange', 'compare_exchange_weak')]
@model(*AT)
def m_atomic(I_, st, a, f, t):
    s = state_of(I_, st, a[0])
    if s is None: raise Unsupported('atomic that lives in the function')
    return ret(st, any_of(I_, st, s[0], t['dty']))
@model(*[x + '::fetch_update' for x in ATOMIC], *[x + '::try_update' for x in ATOMIC], *[x + '::update' for x in ATOMIC])
def m_atomic_update(I_, st, a, f, t):
    s = state_of(I_, st, a[0])
    if s is None: raise Unsupported('atomic that lives in the function')
    r = any_of(I_, st, s[0], t['dty'])
    return ret(st, r)
@model(*[x + '::store' for x in ATOMIC])
def m_atomic_store(I_, st, a, f, t):
    if state_of(I_, st, a[0]) is None: raise Unsupported('atomic that lives in the function')
    return ret(st, UNIT)

# ---------------------------------------------------------------- locks and cells
_std = ('std::sync::RwLock::write', 'std::sync::RwLock::read', 'std::sync::Mutex::lock')
_try = ('std::sync::RwLock::try_write', 'std::sync::RwLock::try_read', 'std::sync::Mutex::try_lock', 'tokio::sync::RwLock::try_write', 'tokio::sync::RwLock::try_read', 'tokio::sync::Mutex::try_lock')
_tok = ('tokio::sync::RwLock::write', 'tokio::sync::RwLock::read', 'tokio::sync::Mutex::lock')
def over(names, h):
    """give `h` the first go at these functions"""
    for nm in names:
        old = TAB.get(nm)
        def m(I_, st, a, f, t, old=old):
            r = h(I_, st, a, f, t)
            if r is not None: return r
            if old is None: raise Unsupported(f['path'])
            return old(I_, st, a, f, t)
        TAB[nm] = m
def lock_on(I_, st, a, f, t):
    s = amb_of(I_, st, a[0])
    if s is None: return None
    return ret(st, OK(place(I_, st, s[0], inner(I_, s[1]))))
over(_std, lock_on)
def try_on(I_, st, a, f, t):
    s = amb_of(I_, st, a[0])
    if s is None: return None
    s2 = st.copy()
    return ret(st, OK(place(I_, st, s[0], inner(I_, s[1])))) + [('ret', s2, ERR(mk('struct', amodels.TRYERR, 1, ())))]
over(_try, try_on)
def tlock_on(I_, st, a, f, t):
    s = amb_of(I_, st, a[0])
    if s is None: return None
    return ret(st, FUT('ready', place(I_, st, s[0], inner(I_, s[1]))))
over(_tok, tlock_on)

CELL = [x + '::' for x in ('std::cell::RefCell', 'std::cell::Cell', 'std::cell::OnceCell')]
def cell_on(I_, st, a, f, t):
    s = amb_of(I_, st, a[0])
    if s is None: return None
    n = f['name']
    if n in ('borrow', 'borrow_mut', 'get_mut'): return ret(st, place(I_, st, s[0], inner(I_, s[1])))
    if n in ('try_borrow', 'try_borrow_mut'): return ret(st, OK(place(I_, st, s[0], inner(I_, s[1]))))
    if n == 'set': return ret(st, UNIT)
    return ret(st, any_of(I_, st, s[0], t['dty']))      # get, take, replace, update
over([c + m for c in CELL for m in ('borrow', 'borrow_mut', 'get_mut', 'try_borrow', 'try_borrow_mut', 'set', 'get', 'take', 'replace', 'update')], cell_on)

def has_ref(v):
    todo = [v]; seen = set()
    while todo:
        x = todo.pop()
        if isinstance(x, (tuple, list)): todo += x; continue
        if not hasattr(x, 'op') or id(x) in seen: continue
        seen.add(id(x))
        if x.op == 'mref': return True
        todo += x.a
    return False
def fixed(I_, st, outs):
    """the value of an initialiser that is the same on every run"""
    outs = [o for o in outs if o[0] != 'panic']
    if len(outs) != 1 or outs[0][0] != 'ret': return None
    s, v = outs[0][1], outs[0][2]
    try: v = I_.strip(s, v)
    except (Unsupported, Dead, Split): return None
    return v if not fv(v) and s.rc == st.rc and not has_ref(v) else None

def lazy_value(I_, st, s):
    b = getattr(I_.P, 'statics', {}).get(s[0])
    if b is not None:
        outs = [o for o in I_.call_body(st.copy(), b, [], s[0]) if o[0] == 'ret']
        if len(outs) == 1:
            z = outs[0][2]
            if z.op == 'struct' and z.a[0] == 'lazy':
                v = fixed(I_, st, I_.call_value(outs[0][1].copy(), z.a[2][0], []))
                if v is not None: return v
    return place(I_, st, s[0], inner(I_, s[1]))
@model('std::sync::LazyLock::new', 'std::cell::LazyCell::new')
def m_lazy_new(I_, st, a, f, t): return ret(st, mk('struct', 'lazy', 0, (a[0],)))
def lazy_force(I_, st, a, f, t):
    s = amb_of(I_, st, a[0])
    if s is None or s[1] is None or not I_.P.T[s[1]]['s'].split('<')[0].endswith(('LazyLock', 'LazyCell')): return None
    return ret(st, lazy_value(I_, st, s))
over(['std::sync::LazyLock::force', 'std::cell::LazyCell::force', 'std::ops::Deref::deref'], lazy_force)

ONCE = ('std::sync::OnceLock::', 'tokio::sync::OnceCell::')
def once_on(I_, st, a, f, t):
    s = amb_of(I_, st, a[0])
    if s is None: return None
    if f['name'] == 'get_or_init':
        v = fixed(I_, st, I_.call_value(st.copy(), a[1], []))
        return ret(st, v if v is not None else place(I_, st, s[0], inner(I_, s[1])))
    return ret(st, any_of(I_, st, s[0], t['dty']))
over([c + m for c in ONCE[:1] for m in ('get_or_init', 'get', 'set', 'get_or_try_init')], once_on)
def once_call(I_, st, a, f, t):
    if amb_of(I_, st, a[0]) is None: return None
    s2 = st.copy()
    return ret(s2, UNIT) + [o for o in I_.call_value(st, a[1], [])]
over(['std::sync::Once::call_once'], once_call)

@model('std::thread::LocalKey::with', 'std::thread::LocalKey::try_with')
def m_tls_with(I_, st, a, f, t):
    s = amb_of(I_, st, a[0])
    if s is None: raise Unsupported('thread local')
    outs = I_.call_value(st, a[1], [ambient(s[0], inner(I_, s[1]))])
    if f['name'] == 'with': return outs
    return [(k, x, OK(v) if k == 'ret' else v) for k, x, v in outs]
@model('std::thread::LocalKey::set', 'std::thread::LocalKey::get', 'std::thread::LocalKey::take', 'std::thread::LocalKey::replace')
def m_tls_get(I_, st, a, f, t):
    s = amb_of(I_, st, a[0])
    if s is None: raise Unsupported('thread local')
    return ret(st, UNIT if f['name'] == 'set' else any_of(I_, st, s[0], t['dty']))
@model('std::thread::LocalKey::with_borrow', 'std::thread::LocalKey::with_borrow_mut')
def m_tls_borrow(I_, st, a, f, t):
    s = amb_of(I_, st, a[0])
    if s is None: raise Unsupported('thread local')
    return I_.call_value(st, a[1], [place(I_, st, s[0], inner(I_, inner(I_, s[1])))])

# collections kept in such state
def coll_on(I_, st, a, f, t):
    try: w = I_.strip(st, a[0])
    except (Unsupported, Dead, Split): return None
    if w.op != 'opq' or not any(is_amb(x) for x in fv(w)): return None
    ty = I_.P.T[t['dty']]
    if ty['s'] == '()': return ret(st, UNIT)
    return ret(st, any_of(I_, st, 'collection', t['dty']))
over([c + '::' + m for c in amodels.COLL for m in ('contains', 'contains_key', 'insert', 'remove', 'take', 'get', 'get_mut', 'len', 'is_empty', 'clear', 'retain')], coll_on)

# ---------------------------------------------------------------- the process and its surroundings
@model('std::env::var', 'std::env::var_os', 'std::process::id', 'std::env::current_dir', 'std::time::SystemTime::now', 'std::time::Instant::now',
       'std::time::SystemTime::duration_since', 'std::time::SystemTime::elapsed', 'std::time::Instant::elapsed', 'std::time::Instant::duration_since',
       'tokio::time::Instant::now', 'tokio::time::Instant::elapsed', 'std::thread::available_parallelism')
def m_surroundings(I_, st, a, f, t): return ret(st, any_of(I_, st, f['path'], t['dty']))

SEEDED = mk('struct', 'rng', 1, ())
@model('rand::SeedableRng::seed_from_u64', 'rand::SeedableRng::from_seed', 'rand_core::SeedableRng::seed_from_u64', 'rand_core::SeedableRng::from_seed')
def m_seeded(I_, st, a, f, t): return ret(st, SEEDED)
@model('rand::SeedableRng::from_entropy', 'rand::SeedableRng::from_os_rng', 'rand_core::SeedableRng::from_entropy', 'rand_core::SeedableRng::from_os_rng')
def m_from_entropy(I_, st, a, f, t): return ret(st, mk('struct', 'rng', 0, ()))
def is_seeded(I_, st, v):
    try: return I_.strip(st, v) is SEEDED
    except (Unsupported, Dead, Split): return False
_fill = TAB['rand::RngCore::fill_bytes']
def gen_on(I_, st, a, f, t):
    if not a or not is_seeded(I_, st, a[0]): return None
    if f['name'] in ('fill_bytes', 'fill', 'try_fill', 'try_fill_bytes'): raise Unsupported('seeded generator filling a buffer')
    return ret(st, any_of(I_, st, 'seeded generator', t['dty']))
over(['rand::Rng::gen', 'rand::Rng::random', 'rand::Rng::gen_range', 'rand::Rng::random_range', 'rand::Rng::gen_bool', 'rand::RngCore::fill_bytes', 'rand::Rng::fill', 'rand::Rng::try_fill', 'rand::RngCore::try_fill_bytes',
      'rand::RngCore::next_u32', 'rand::RngCore::next_u64'], gen_on)

# ---------------------------------------------------------------- permits
PERMIT = 'uf permit'
@model('tokio::sync::Semaphore::new', 'tokio::sync::Semaphore::const_new')
def m_sem_new(I_, st, a, f, t): return ret(st, OPQ(mk('uf', 'semaphore', a[0])))
@model('tokio::sync::Semaphore::acquire', 'tokio::sync::Semaphore::acquire_owned', 'tokio::sync::Semaphore::acquire_many')
def m_sem_acquire(I_, st, a, f, t): return ret(st, FUT('permit'))
@fut('permit')
def f_permit(I_, st): return [('ret', ev(st, 'wait', 'for a permit'), OK(OPQ(mk('uf', 'permit'))))]
@model('tokio::sync::Semaphore::try_acquire', 'tokio::sync::Semaphore::try_acquire_owned', 'tokio::sync::Semaphore::try_acquire_many')
def m_sem_try(I_, st, a, f, t):
    return [('ret', st.copy(), OK(OPQ(mk('uf', 'permit')))), ('ret', st, ERR(OPQ(mk('uf', 'TryAcquireError'))))]
@model('tokio::sync::Semaphore::available_permits')
def m_sem_avail(I_, st, a, f, t): return ret(st, any_of(I_, st, 'permits', t['dty']))

# ---------------------------------------------------------------- what other tasks leave behind
@model('std::thread::panicking')
def m_panicking(I_, st, a, f, t): return ret(st, I_.P.expand(AMB(I_, st, 'unwinding'), t['dty']))
@model('std::sync::Arc::strong_count', 'std::sync::Arc::weak_count', 'std::rc::Rc::strong_count')
def m_strong(I_, st, a, f, t): return ret(st, I_.P.expand(AMB(I_, st, 'reference count'), t['dty']))
JS = 'tokio::task::JoinSet::'
TAB.update({JS + 'new': lambda I_, st, a, f, t: ret(st, mk('struct', 'joinset', 0, ())),
            JS + 'len': lambda I_, st, a, f, t: ret(st, I_.P.expand(AMB(I_, st, 'number of tasks'), t['dty'])),
            JS + 'is_empty': lambda I_, st, a, f, t: ret(st, I_.P.expand(AMB(I_, st, 'no task'), t['dty'])),
            JS + 'spawn': lambda I_, st, a, f, t: amodels.m_spawn(I_, st, a[1:], f, t),
            JS + 'join_next': lambda I_, st, a, f, t: ret(st, FUT('joinnext')),
            JS + 'try_join_next': lambda I_, st, a, f, t: [('ret', st.copy(), NONE), ('ret', st.copy(), SOME(OK(OPQ(mk('uf', 'task_output')))))],
            JS + 'detach_all': lambda I_, st, a, f, t: ret(st, UNIT),
            JS + 'abort_all': lambda I_, st, a, f, t: ret(ev(st, 'abort', 'all tasks'), UNIT),
            JS + 'shutdown': lambda I_, st, a, f, t: ret(ev(st, 'abort', 'all tasks'), FUT('ready', UNIT)),
            'tokio::task::JoinHandle::abort': lambda I_, st, a, f, t: ret(ev(st, 'abort', 'a task'), UNIT),
            'tokio::task::AbortHandle::abort': lambda I_, st, a, f, t: ret(ev(st, 'abort', 'a task'), UNIT),
            'tokio::task::JoinHandle::abort_handle': lambda I_, st, a, f, t: ret(st, OPQ(mk('uf', 'abort_handle'))),
            'tokio::task::JoinHandle::is_finished': lambda I_, st, a, f, t: ret(st, I_.P.expand(AMB(I_, st, 'task finished'), t['dty']))})
@fut('joinnext')
def f_joinnext(I_, st): return [('ret', ev(st, 'wait', 'tasks'), SOME(OK(OPQ(mk('uf', 'task_output'))))), ('ret', st.copy(), NONE)]

# ---------------------------------------------------------------- addresses, rewritten
@model('std::net::IpAddr::to_canonical', 'std::net::Ipv6Addr::to_canonical')
def m_canonical(I_, st, a, f, t):
    v = I_.strip(st, a[0])
    return ret(st, OPQ(mk('uf', 'canonical', amodels.base(v))))


# ---------------------------------------------------------------- searching the marks one by one
SETS = [c for c in amodels.COLL if c.endswith('Set')]
def marks_iter(I_, st, a, f, t):
    try: w = amodels.the_set(I_, st, a[0])
    except Unsupported: return None
    ty = I_.P.T[f['args'][0]] if f.get('args') else None
    if ty is None or ty['k'] != 'adt': return None
    return ret(st, mk('struct', 'marks', f['args'][0], (w,)))
over([c + '::iter' for c in SETS], marks_iter)

def equalities(parts, c):
    """the terms the parts of a mark are compared with, None if the condition says anything else"""
    r = [None] * len(parts)
    for x in (c.a if c.op == 'and' else [c]):
        for i, p in enumerate(parts):
            y = None
            if x.op == 'b' and x.a[0].op == 'seqeq' and p in x.a[0].a: y = x.a[0].a[1 - x.a[0].a.index(p)]
            elif x.op == 'eq' and p.op == 'lin' and len(p.a[1]) == 1:
                k = dict(x.a[0].a[1]).get(p.a[1][0][0])
                if k in (1, -1): y = sub(p, x.a[0]) if k == 1 else add(p, x.a[0])
            if y is not None and r[i] is None and not any(q is z for q in parts for z in fv(y)):
                r[i] = y; break
        else: return None
    return r

def any_mark(I_, st, a, f, t):
    try: it = I_.strip(st, a[0])
    except (Unsupported, Dead): return None
    if it.op != 'struct' or it.a[0] != 'marks': return None
    w = it.a[2][0]; ty = it.a[1]; neg = f['name'] == 'all'
    mark = I_.P.expand(mk('sym', 'a mark'), ty)
    st, alts, pan, b = under(I_, st, I(1), lambda s, j: I_.call_value(s, a[1], [mark]))
    if pan: raise Unsupported('panic in a search')
    c = or_(*[and_(cd, B(I_, st, v)) for cd, v in alts]) if alts else FALSE
    if neg: c = not_(c)
    eqs = equalities(mark.a[2], c) if mark.op == 'struct' else None
    if eqs and all(x is not None for x in eqs):
        key = mk('struct', mark.a[0], mark.a[1], tuple(eqs))
        k = amodels.known(st, w, key)
        return [('ret', ev(st, 'contains', w.a[2][0], key, p, w.a[2][1]), TRUE if p != neg else FALSE) for p in ((k,) if k is not None else (False, True))]
    eqs = mk('struct', mark.a[0], mark.a[1], tuple(x if x is not None else mk('unk', 'any') for x in eqs)) if eqs else None
    return [('ret', ev(st, 'scan', w.a[2][0], eqs, p, w.a[2][1], c, mark), TRUE if p != neg else FALSE) for p in (False, True)]
over(['std::iter::Iterator::any', 'std::iter::Iterator::all'], any_mark)

def retain_marks(I_, st, a, f, t):
    try: w = amodels.the_set(I_, st, a[0])
    except Unsupported: return None
    ty = I_.P.T[f['args'][0]] if f.get('args') else None
    if ty is None or ty['k'] != 'adt': return None
    mark = I_.P.expand(mk('sym', 'a mark'), f['args'][0])
    st, alts, pan, b = under(I_, st, I(1), lambda s, j: I_.call_value(s, a[1], [mark]))
    if pan or mark.op != 'struct': raise Unsupported('retain')
    c = not_(or_(*[and_(cd, B(I_, st, v)) for cd, v in alts]) if alts else FALSE)
    eqs = equalities(mark.a[2], c)
    if eqs is None and c is not TRUE: raise Unsupported('which marks are kept is not understood')
    if c is TRUE or not all(x is not None for x in eqs): return [('ret', ev(st, 'clear', w.a[2][0], 'retain'), UNIT)]
    key = mk('struct', mark.a[0], mark.a[1], tuple(eqs)); k = amodels.known(st, w, key)
    return [('ret', ev(st, 'remove', w.a[2][0], key, p, w.a[2][1]), UNIT) for p in ((k,) if k is not None else (False, True))]
over([c + '::retain' for c in SETS], retain_marks)
