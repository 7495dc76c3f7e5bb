"""Comparison of analysed functions with their specifications.

A specification is a reference definition over the same term domain: given the abstract arguments and
the facts of one exit of the analysed function it yields the result the property calls for (forking on
formulas the facts leave open).  Exits whose normal forms agree are discharged.  Exits that disagree are
alarms only if a point of the concretisation of the exit facts separates the two normal forms."""
import re, time
from terms import *
from facts import *
from seqops import *
import interp
from interp import *
import models, loops, terms, seqops

class SpecBound(Exception): pass
BOUND = {'bound': True}
LIMIT = 60
class Undecided(Exception): pass

LOG = []   # violations found so far, for a check that runs out of time

class Ob:
    """one obligation"""
    def __init__(self, fn, what, status, detail=None, where=None):
        self.fn = fn; self.what = what; self.status = status; self.detail = detail; self.where = where
    def js(self): return {k: v for k, v in (('function', self.fn), ('obligation', self.what), ('status', self.status), ('detail', self.detail), ('at', self.where)) if v is not None}

# ---------------------------------------------------------------- finding things
def find(P, path):
    """body of the public item with this path, wherever its impl block lives"""
    k = 'crate::' + path
    if k in P.bodies: return k
    segs = path.split('::')
    name = segs[-1]; ty = segs[-2] if len(segs) > 1 else ''
    c = []
    for q, b in P.bodies.items():
        if b['kind'] not in ('Fn', 'AssocFn'): continue
        if not q.endswith('::' + name): continue
        head = q[:-len(name) - 2]
        if re.search(r'(?:^|[:<\s])' + re.escape(ty) + r'(?:(?:::)?<.*>)?>?$', head): c.append(q)
    if len(c) == 1: return c[0]
    return None

def field_index(P, path, name):
    a = P.adts.get(path)
    if not a: raise Undecided('no type ' + path)
    for i, f in enumerate(a['variants'][0]['fields']):
        if f['name'] == name: return i
    raise Undecided(f'no field {name} in {path}')

PACKET = 'crate::core::packet::Packet'; AVP_T = 'crate::core::avp::AVP'; TAG_T = 'crate::core::tag::Tag'
CODE_T = 'crate::core::code::Code'

def typath(P, short):
    for p in P.adts:
        if p == short or p.endswith('::' + short): return p
    raise Undecided('no type ' + short)

def newtype_seq(v):
    n = 0
    while v.op in ('struct', 'box', 'ref') and n < 6:
        if v.op == 'struct':
            if len(v.a[2]) != 1: raise Undecided('attribute list is not a plain list')
            v = v.a[2][0]
        else: v = v.a[0]
        n += 1
    return v

def getf(P, v, ty, name):
    if v.op in ('box', 'ref'): return getf(P, v.a[0], ty, name)
    if v.op != 'struct': raise Undecided('value of ' + ty + ' is ' + v.op)
    return v.a[2][field_index(P, ty, name)]

def mk_struct(P, ty, **fs):
    a = P.adts.get(ty)
    if not a: raise Undecided('no type ' + ty)
    out = []
    for f in a['variants'][0]['fields']:
        if f['name'] not in fs: raise Undecided('unexpected field ' + f['name'] + ' in ' + ty)
        out.append(fs[f['name']])
    return mk('struct', ty, 0, tuple(out))

def mkAVP(P, typ, val): return mk_struct(P, typath(P, 'AVP'), typ=typ, value=val)
def mkTag(P, v): return mk_struct(P, typath(P, 'Tag'), value=v)

def code_table(P):
    """variant index -> (name, number)"""
    a = P.adts[typath(P, 'Code')]
    ds = P.discrs(a)
    return {i: (v['name'], ds[i]) for i, v in enumerate(a['variants'])}

def strip(v):
    n = 0
    while v.op in ('box', 'ref') and n < 8: v = v.a[0]; n += 1
    return v

# ---------------------------------------------------------------- results
def res_of(I_, st, v):
    """('ok', payload) / ('err', payload) of a Result value; forks on symbolic ones"""
    i, vv = models.variant(I_, st, v)
    return ('ok' if i == 0 else 'err', models.payload(I_, vv, i))

def digest_failed(st):
    for n, v in st.fs.bs.items():
        if n.op == 'uf' and n.a[0] == 'digest_available' and v is False: return True
    return False

def digest_index(n): return n.op == 'uf' and n.a[0] == 'digest_available'

class Cmp:
    """result of comparing one exit"""

def proj_result(fn_ok):
    """observation of a Result-returning function: Ok payload through fn_ok, Err as such"""
    def p(I_, st, v, args):
        k, x = res_of(I_, st, v)
        return {'res': k, **(fn_ok(I_, st, x) if k == 'ok' else {})}
    return p

def proj_value(I_, st, v, args): return {'value': strip_all(I_, st, v)}
def ok_value(I_, st, x): return {'value': strip_all(I_, st, x)}

def strip_all(I_, st, v):
    v = I_.strip(st, v)
    return v

def compare(I_, outs, spec, proj, args, fnkey, unrolled):
    """list of (status, detail) over the exits; statuses proved/refuted/open/bounded"""
    res = []; budget = [24]
    t0 = time.time()
    order = sorted(outs, key=lambda o: len(o[1].fs.log) if o[0] != 'cut' else 0)
    for k, st, v in order:
        if res and res[-1][0] == 'refuted': break
        if time.time() - t0 > LIMIT: res.append(('open', 'out of time', None)); break
        if k == 'cut': res.append(('bounded', 'loop bound', None)); continue
        if k == 'panic':
            res.append(panic_status(st, v)); continue
        if k != 'ret': res.append(('open', 'leaves by ' + k, None)); continue
        def both(s):
            a = I_.obs = proj(I_, s, v, args)
            try:
                if isinstance(spec, LoopSpec): b = spec.run(I_, s, args)
                else: b = spec(I_, s, args)
            except SpecBound: b = BOUND
            return [('ret', s, (a, b))]
        def bounded():
            r = at_points(I_, st, v, args, spec, proj) if isinstance(spec, LoopSpec) and budget[0] > 0 else None
            budget[0] -= 1
            res.append(r or ('bounded', 'specification bound', None))
        try: cs = I_.fork(st, both)
        except SpecBound: res.append(('bounded', 'specification bound', None)); continue
        except (Undecided, Unsupported, Budget, RecursionError) as e:
            res.append(('open', f'{type(e).__name__}: {e}', None)); continue
        for _, s, (a, b) in cs:
            if b is BOUND:
                bounded()
                if res[-1][0] == 'refuted': break
                continue
            res.append(cmp_one(s, a, b))
            if res[-1][0] == 'refuted': break
    return res

def panic_status(st, v):
    d = f"panics: {v['msg']} at {v['at']}" if isinstance(v, dict) else 'panics'
    if st.taint: return ('open', d + ' (on an unmodelled path)', None)
    if phi_in(st): return ('open', d + ' (under a loop invariant)', None)
    if isinstance(v, dict) and v.get('msg') == 'cuts a character' and text_known(st): return ('open', d + ' (what the text contains is constrained)', None)
    for e in models_of(st.fs):
        return ('refuted', d, {'point': point(e), 'at': v.get('at') if isinstance(v, dict) else None})
    return ('open', d + ' (no witness)', None)

def text_known(st):
    """do the facts of the path say anything about the octets of a text that is cut (other than how many there are)?"""
    def walk(f):
        todo = [f]
        while todo:
            x = todo.pop()
            if x.op == 'len': continue
            yield x
            if x.op == 'uf' and x.a[0] == 'char_boundary': continue
            todo += [c for c in terms._children(x) if isinstance(c, N)]
    fs_ = list(st.fs.formulas())
    cuts = [x for f in fs_ for x in walk(f) if x.op == 'uf' and x.a[0] == 'char_boundary']
    bases = {y for c in cuts for y in walk(c.a[1]) if y.op in ('sym', 'isym', 'rnd')}
    def says(f): return any(x in bases for x in walk(f))
    return not bases or any(says(f) for f in fs_)

def phi_in(st, *vs):
    for f in st.fs.formulas():
        if any(x.op == 'phi' for x in fv(f)): return True
    return any(any(x.op == 'phi' for x in fv(v)) for v in vs if isinstance(v, N))

def models_of(fs): return seqops.models(fs, 1, 60)
def point(e):
    t = {}
    for k, v in list(e.tab.items())[:40]:
        if isinstance(k, tuple) and k and k[0] in ('len', 'isym', 'at', 'fld', 'J', 'dsc'): t[seqops._ks(k)] = v
    return {k: t[k] for k in list(t)[:14]}

def cmp_one(s, a, b):
    """a: observation of the code, b: of the specification"""
    if b.get('any') or (b.get('allow_err') and a.get('res') == 'err'): return ('proved', None, None)
    b = {k: v for k, v in b.items() if k != 'allow_err'}
    if s.taint: return ('open', 'unmodelled: ' + str(s.taint), None)
    vals = [x for x in list(a.values()) + list(b.values()) if isinstance(x, N)]
    if any(has_unknown(x) for x in vals): return ('open', 'unmodelled value ' + '; '.join(sorted({str(y.a[0]) for x in vals for y in fv(x) if y.op == 'unk'}))[:200], None)
    ka = {k for k in a}; kb = {k for k in b}
    if a.get('res') != b.get('res') or ka != kb:
        d = f"returns {a.get('res')} where {b.get('res')} is required"
        if b.get('why'): d += f" ({b['why']})"
        if not s.fs.consistent(): return ('proved', None, None)
        if phi_in(s): return ('open', d, None)
        for e in models_of(s.fs): return ('refuted', d, {'point': point(e)})
        return ('open', d + ' [no witness]', None)
    bad = []
    for k in a:
        if not isinstance(a[k], N):
            if a[k] != b[k] and k != 'why': bad.append(k)
            continue
        try:
            if not eqv(s.fs, a[k], b[k]): bad.append(k)
        except Split: bad.append(k)
    if not bad: return ('proved', None, None)
    if phi_in(s, *vals): return ('open', 'differs in ' + ','.join(bad), None)
    for k in bad:
        if isinstance(a[k], N):
            w = differ(s.fs, [(a[k], b[k])]) or truth_differs(s.fs, a[k], b[k])
            if w is not None:
                return ('refuted', f'{k}: code computes {show(a[k])[:200]} where {show(b[k])[:200]} is required', w)
        else:
            for e in models_of(s.fs): return ('refuted', f'{k} differs', {'point': point(e), 'code': str(a[k]), 'spec': str(b[k])})
    return ('open', 'normal forms differ in ' + ','.join(bad) + ': ' + '; '.join(f'{show(a[k])[:150]} vs {show(b[k])[:150]}' for k in bad if isinstance(a[k], N)), None)

def truth_differs(fs, x, y):
    """two conditions: a point where exactly one of them holds"""
    if not (terms.is_bool(x) and terms.is_bool(y)): return None
    for f in (x, not_(x)):
        g = fs.assume(f)
        if g is None: continue
        g = g.assume(not_(y) if f is x else y)
        if g is None: continue
        w = differ(g, [(x, y)], tries=40)
        if w is not None: return w
    return None

def literal(e, v):
    """the value of an octet sequence or integer at a point of the concretisation"""
    while v.op in ('ref', 'box'): v = v.a[0]
    if v.op == 'lin': return I(e.int(v))
    if v.op == 'seq': return S_units([I(x) if isinstance(x, int) else _no() for x in e.seq(v)])
    _no()

def _no(): raise seqops.Reject('not a plain value')

def at_points(I_, st, v, args, spec, proj):
    """the specification has more iterations than are followed symbolically: evaluate the reference definition at
    points of the exit's abstract state (nothing of the program is evaluated but the exit's own facts and result)"""
    if st.taint or phi_in(st): return None
    try: a = proj(I_, st, v, args)
    except Undecided: return None
    if any(isinstance(x, N) and (has_unknown(x) or any(y.op == 'phi' for y in fv(x))) for x in a.values()): return None
    for e in seqops.models(st.fs, 1, 12, complete=lambda e: spec.complete and spec.complete(e, I_, st, args)):
        try:
            la = [literal(e, models.Q(I_, st, x)) for x in args]
            s = State()
            r = spec.init(I_, s, la); n = 0
            while r[0] == 'loop':
                n += 1
                if n > 3000: raise seqops.Reject('long')
                r = spec.step(I_, s, la, r[1])
            b = r[1]
            if b.get('any') or (b.get('allow_err') and a.get('res') == 'err'): continue
            if a.get('res') != b.get('res'):
                return ('refuted', f"returns {a.get('res')} where {b.get('res')} is required", {'point': point(e)})
            c = seqops.Env(e.rnd)
            for k in a:
                x = e.cv(a[k]) if isinstance(a[k], N) else a[k]
                y = c.cv(b[k]) if isinstance(b.get(k), N) else b.get(k)
                if x != y and k != 'why': return ('refuted', f'{k} differs', {'point': point(e), 'code': seqops._cut(x), 'spec': seqops._cut(y)})
        except (seqops.Reject, Split, SpecBound, Undecided, Unsupported, RecursionError): continue
    return None

class LoopSpec:
    """specification with a loop: init(I, s, args) and step(I, s, args, state) -> ('loop', state) | ('done', observation)"""
    def __init__(self, init, step, complete=None):
        self.init = init; self.step = step; self.start = None; self.complete = complete
    def run(self, I_, s, args):
        for rid in s.trace:
            if self.start and rid in self.start: return self.go(I_, s, args, ('loop', self.start[rid]), 3)
        return self.go(I_, s, args, self.init(I_, s, args), 2 if I_.mode == 'fix' and I_.recs else I_.K + 1)
    def go(self, I_, s, args, r, n):
        while r[0] == 'loop':
            n -= 1
            if n < 0: raise SpecBound()
            r = self.step(I_, s, args, r[1])
        return r[1]

def summarize(res):
    c = {}
    for s, d, w in res: c[s] = c.get(s, 0) + 1
    return c

def check_fn(P, path, spec, proj, K=4, pre=None, setup=None, names=None, what='result', uninterp=None, modes=('fix', 'peel'), key=None, post=None, budget=400000):
    """obligation: every exit of the function agrees with the specification"""
    key = key or find(P, path)
    if key is None:
        return [Ob(path, what, 'violated', {'reason': 'the public operation no longer exists'})]
    body = P.bodies[key]
    t0 = time.time()
    last = None
    notes = []
    # an exact or exhaustive pass first; if it settles nothing, short unrollings look for a counterexample
    # and, where the code compares with a small number, an unrolling that goes past it
    todo = [(m, K) for m in modes] + [('peel', k) for k in (1, 2, 3) if k < K]
    ints = None
    while todo or ints is not None:
        if not todo:
            todo = [('peel', k) for k in sorted({c + 3 for c in ints if K < c + 3 <= 11})[:2]]; ints = None
            if not todo or 'peel' not in modes: break
        mode, K_ = todo.pop(0)
        if mode == 'peel' and K_ < K and time.time() - t0 > 240: continue
        if mode == 'peel' and K_ > K and time.time() - t0 > 100: break
        I_ = Interp(P, mode, K=K_, budget=budget)
        if uninterp: I_.uninterp.update(uninterp(I_) if callable(uninterp) else uninterp)
        args, st = sym_args(P, body, names)
        if pre is not None:
            try: st = pre(I_, st, args)
            except Undecided as e: return [Ob(key, what, 'undecided', {'reason': str(e)})]
        if isinstance(spec, LoopSpec): spec.start = None
        try:
            outs = I_.analyse(key, args, st)
            if K_ == K and mode == 'peel': ints = I_.ints
        except (Budget, Unsupported, RecursionError, Undecided) as e:
            notes.append(f'{mode}: {type(e).__name__} {e}'); continue
        except Exception as e:      # a construct the engine has no rule for: no verdict
            notes.append(f'{mode}: internal {type(e).__name__} {e}'[:300]); continue
        if isinstance(spec, LoopSpec) and mode == 'fix' and I_.recs:
            refine(I_, spec, args, notes)
        try: res = compare(I_, outs, spec, proj, args, key, mode == 'peel')
        except Budget as e:
            notes.append(f'{mode}: budget'); continue
        except Exception as e:
            notes.append(f'{mode}: internal {type(e).__name__} {e}'[:300]); continue
        c = summarize(res)
        notes.append(f"{mode}: {len(outs)} exits, {c}")
        for s, d, w in res:
            if s == 'refuted':
                LOG.append(Ob(key, what, 'violated', {'reason': d, 'witness': w, 'mode': mode}, body['span']))
                return [LOG[-1]]
        if not c.get('open') and not c.get('bounded'):
            return [Ob(key, what, 'proved', {'exits': len(outs), 'cases': len(res), 'functions': len(I_.called), 'method': 'all iterations' if mode == 'fix' else 'exhaustive', 'loops': [f'{w[0]}: {x}' for w, x in I_.loops][:6]})]
        if last is None or K_ == K: last = (mode, c, res, len(outs), I_)
    if last is None: return [Ob(key, what, 'undecided', {'notes': notes})]
    mode, c, res, n, I_ = last
    if not c.get('open'):
        return [Ob(key, what, 'bounded', {'exits': n, 'cases': len(res), 'bound': f'{K} iterations of the loops that resist an invariant', 'notes': notes})]
    return [Ob(key, what, 'undecided', {'notes': notes, 'open': [d for s, d, w in res if s == 'open'][:4], 'unmodelled': dict(list(I_.unmodelled.items())[:6])})]

# ---------------------------------------------------------------- loop refinement
def leaves(v, path=(), d=0):
    if v.op == 'lin': yield path, v
    elif v.op == 'seq':
        yield path, v
        if len(v.a) == 1 and v.a[0][0] == 's':
            yield path + ('start',), v.a[0][2]
            yield path + ('len',), seq_len(v)
    elif v.op == 'struct' and d < 6:
        for i, x in enumerate(v.a[2]): yield from leaves(x, path + (i,), d + 1)
    elif v.op == 'box': yield from leaves(v.a[0], path + ('box',), d + 1)

def at_path(v, path):
    for e in path:
        if e == 'box': v = v.a[0]
        elif e == 'start':
            if v.op != 'seq' or len(v.a) != 1 or v.a[0][0] != 's': return None
            v = v.a[0][2]
        elif e == 'len': v = seq_len(v)
        else:
            if v.op != 'struct' or e >= len(v.a[2]): return None
            v = v.a[2][e]
    return v

def refine(I_, spec, args, notes):
    """map the specification's loop state onto each summarised loop of the code and check that both step alike"""
    for rec in I_.recs:
        p = rec.prob
        entry = p.st
        try:
            r0s = I_.fork(entry, lambda s: [('ret', s, spec.init(I_, s, args))])
        except (Undecided, Unsupported, SpecBound, Budget) as e: continue
        if len(r0s) != 1 or r0s[0][2][0] != 'loop': continue
        st0 = r0s[0][2][1]
        fs0 = r0s[0][1].fs
        cand = []
        for x0 in st0:
            cs = []
            for c, t in p.tpl.items():
                for path, tv in leaves(t):
                    ev = at_path(entry.cells[c], path)
                    if ev is None or ev.op != x0.op: continue
                    if x0.op == 'lin':
                        for sg in (1, -1):
                            off = sub(x0, scale(ev, sg))
                            cs.append((c, path, sg, off))
                    elif eqv(fs0, ev, x0): cs.append((c, path, 0, None))
            cand.append(cs)
        def val(cells, m):
            c, path, sg, off = m
            v = at_path(cells[c], path)
            if v is None: return None
            return add(scale(v, sg), off) if sg else v
        import itertools
        tried = 0
        for combo in itertools.product(*cand):
            tried += 1
            if tried > 64: break
            state = tuple(val(rec.g.cells, m) for m in combo)
            if any(x is None for x in state): continue
            ok = True
            for b in rec.backs:
                try: outs = I_.fork(b, lambda s: [('ret', s, spec.step(I_, s, args, state))])
                except (Undecided, Unsupported, SpecBound, Budget): ok = False; break
                for _, s, r in outs:
                    if r[0] != 'loop': ok = False; break
                    for m, x in zip(combo, r[1]):
                        y = val(b.cells, m)
                        if y is None or not eqv(s.fs, x, y): ok = False; break
                    if not ok: break
                if not ok: break
            if ok:
                spec.start = spec.start or {}
                spec.start[rec.id] = state
                notes.append(f'loop {rec.where} simulates the specification loop (invariants {[show(f) for f in p.invs]})')
                break
