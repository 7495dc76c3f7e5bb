"""Transfer functions for the standard library and the third-party crates the program calls.
Each model maps (interpreter, state, argument values, callee, call terminator) to outcomes."""
import re
from terms import *
import terms
from facts import *
from seqops import *
from interp import *
import interp as _ip

TAB = {}
def model(*names):
    def d(fn):
        for n in names: TAB[n] = fn
        return fn
    return d

_norm = {}
def norm(path):
    r = _norm.get(path)
    if r is None:
        out = []; d = 0; i = 0
        if path.startswith('<'):
            # <T as Trait>::m  ->  Trait::m
            j = 0; dd = 0
            for j, ch in enumerate(path):
                if ch == '<': dd += 1
                elif ch == '>' and path[j - 1] != '-':
                    dd -= 1
                    if dd == 0: break
            inner = path[1:j]
            k = _top_as(inner)
            head = inner[k + 4:] if k >= 0 else inner
            path2 = head + path[j + 1:]
        else: path2 = path
        for j, ch in enumerate(path2):
            if ch == '<': d += 1
            elif ch == '>' and path2[j - 1] != '-': d -= 1
            elif d == 0: out.append(ch)
        r = ''.join(out)
        while '::::' in r: r = r.replace('::::', '::')
        r = r.strip(':')
        r = re.sub(r'^(core|alloc)::', 'std::', r)
        _norm[path] = r
    return r

def _top_as(s):
    d = 0
    for i, ch in enumerate(s):
        if ch in '<([': d += 1
        elif ch in '>)]' and s[i - 1] != '-': d -= 1
        elif d == 0 and s.startswith(' as ', i): return i
    return -1

def find(f):
    n = norm(f['path'])
    m = TAB.get(n)
    if m is None and f.get('rpath'): m = TAB.get(norm(f['rpath']))
    if m is None:
        for pre, mm in PREFIX:
            if n.startswith(pre): return mm
    return m

PREFIX = []

EXT_OK = ()
def ext_ok(key):
    n = norm(key)
    return not n.startswith(('std::fmt', 'tokio', 'log::', 'std::sync', 'openssl', 'rand', 'chrono'))

def ret(st, v): return [('ret', st, v)]

# ---------------------------------------------------------------- helpers
def Q(I_, st, v):
    v = I_.strip(st, v)
    if v.op == 'seq': return v
    if v.op == 'ite': raise Split(v.a[0])
    if v.op == 'struct' and v.a[0].startswith('iter:'): raise Unsupported('iterator as sequence')
    if v.op == 'struct' and len(v.a[2]) == 1: return Q(I_, st, v.a[2][0])
    raise Unsupported('not a sequence: ' + v.op + ' ' + str(v.a[0])[:60])

def L(I_, st, v):
    v = I_.strip(st, v)
    if v.op == 'lin': return v
    if v.op == 'ite': raise Split(v.a[0])
    raise Unsupported('not an integer: ' + v.op)

def B(I_, st, v):
    v = I_.strip(st, v)
    if is_bool(v): return v
    if v.op == 'ite': raise Split(v.a[0])
    raise Unsupported('not a boolean: ' + v.op)

def site(I_, t):
    return (t or {}).get('sp', '?'), (I_.stack[-1] if I_.stack else '?')

def guard(I_, st, cond, msg, t):
    """(state where cond holds or None, panic outcomes)"""
    sp, fn = site(I_, t)
    key = (fn, sp, msg)
    g = st.fs.simp(cond)
    if g is not TRUE and st.fs.ors and st.fs.ent(g): g = TRUE
    if g is TRUE:
        I_.asserts.setdefault(key, 'discharged')
        return st, []
    outs = []
    bad = st.assume(not_(g))
    if bad is not None:
        I_.asserts[key] = 'open'
        outs.append(('panic', bad, {'msg': msg, 'at': sp, 'in': fn}))
    return st.assume(g), outs

def panic(I_, st, msg, t):
    sp, fn = site(I_, t)
    I_.asserts[(fn, sp, msg)] = 'open'
    return [('panic', st, {'msg': msg, 'at': sp, 'in': fn})]

def targs(s):
    """generic arguments of a type string"""
    i = s.find('<')
    if i < 0: return []
    inner = s[i + 1:-1]; out = []; d = 0; cur = ''
    for j, ch in enumerate(inner):
        if ch in '<([': d += 1
        elif ch in ')]' or (ch == '>' and inner[j - 1] != '-'): d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def variant(I_, st, v):
    """variant index of an enum value (deciding it may fork)"""
    v = I_.strip(st, v)
    if v.op == 'struct': return v.a[1], v
    if v.op == 'ite': raise Split(v.a[0])
    if v.op in ('symenum', 'opq'):
        d = I_.discr(st, v)
        if v.op == 'opq': set_rng(d.a[1][0][0], 0, 1)
        if decide(st.fs, eqi(d, I(0))): return 0, v
        return 1, v
    raise Unsupported('variant of ' + v.op + ' ' + show(v)[:80])

def payload(I_, v, var, i=0):
    if v.op == 'struct': return v.a[2][i]
    node = mk('vfld', v.a[0], var, i)
    if v.op == 'symenum':
        ta = targs(v.a[1])
        base = v.a[1].split('<')[0]
        if base.endswith('Option') and ta: return I_.P.expand_s(node, ta[0])
        if base.endswith('Result') and len(ta) == 2: return I_.P.expand_s(node, ta[var])
        a = I_.P.adt_of_s(v.a[1])
        if a: return I_.P.expand_s(node, clean(a['variants'][var]['fields'][i]['ty']))
    return OPQ(node)

def veq(I_, st, a, b, d=0):
    """formula: the two values are equal"""
    a, b = I_.strip(st, a), I_.strip(st, b)
    if a.op == 'unk' or b.op == 'unk': raise Unsupported('comparison of unknown')
    if a is b: return TRUE
    if a.op == 'ite': raise Split(a.a[0])
    if b.op == 'ite': raise Split(b.a[0])
    if a.op == 'lin' and b.op == 'lin': return eqi(a, b)
    if is_bool(a) and is_bool(b): return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.op == 'seq' and b.op == 'seq':
        f = mk_seqeq(a, b)
        return f
    if a.op == 'struct' and b.op == 'struct':
        if a.a[0] != b.a[0]: raise Unsupported('comparison of different types')
        if a.a[1] != b.a[1]: return FALSE
        return and_(*[veq(I_, st, x, y, d + 1) for x, y in zip(a.a[2], b.a[2])])
    if a.op in ('symenum',) or b.op in ('symenum',):
        da, db = I_.discr(st, a), I_.discr(st, b)
        same = eqi(da, db)
        if same is FALSE: return FALSE
        fs = []
        ad = None
        for x in (a, b):
            if x.op == 'symenum': ad = ad or I_.P.adt_of_s(x.a[1])
        if ad is None: raise Unsupported('enum comparison')
        ds = I_.P.discrs(ad)
        for vi, vv in enumerate(ad['variants']):
            if not vv['fields']: continue
            if any(x.op == 'struct' and x.a[1] != vi for x in (a, b)): continue
            for i in range(len(vv['fields'])):
                fs.append(or_(not_(eqi(da, I(ds[vi]))), veq(I_, st, payload(I_, a, vi, i), payload(I_, b, vi, i), d + 1)))
        return and_(same, *fs)
    x, y = (a, b) if a.id < b.id else (b, a)
    return batom(mk('uf', 'eq', x, y))

def pathcond(base, s):
    a = set(base.formulas())
    return and_(*[f for f in s.formulas() if f not in a])

def merge_ite(alts):
    """[(cond, value)] exhaustive -> value"""
    v = alts[-1][1]
    for c, x in reversed(alts[:-1]): v = ite(c, x, v)
    return v

_bd = [0]
TMPBV = 1000

def under(I_, st, n, fn):
    """evaluate fn(state, index) -> outcomes for an arbitrary index below n.
    Returns (state after, [(cond, value)] , panic outcomes, bound variable)."""
    k = TMPBV + I_.bvd
    I_.bvd += 1
    b = bv(k)
    try:
        s0 = st.assume(and_(ge(A(b), I(0)), lt(A(b), n)))
        if s0 is None: return st, [], [], b
        outs = I_.fork(s0, lambda s: fn(s, A(b)))
    finally:
        I_.bvd -= 1
    alts = []; pan = []
    rc = st.rc; ev = st.ev; taint = st.taint
    for kd, s, v in outs:
        if kd == 'panic': pan.append((kd, s, v)); continue
        if kd != 'ret': raise Unsupported('control flow out of a closure')
        if v.op == 'mref': raise Unsupported('reference out of a closure')
        for c, x in s.cells.items():
            if st.cells.get(c) is not x and c in st.cells: raise Unsupported('closure with side effects')
        if s.ev != st.ev:
            raise Unsupported('closure with events')
        rc = max(rc, s.rc); taint = taint or s.taint
        alts.append((pathcond(s0.fs, s.fs), v))
    st = st.copy(); st.rc = rc; st.taint = taint
    return st, alts, pan, b

def close(n, b, v):
    """rename the temporary bound variable to its canonical level"""
    m = 0
    for x in fv(v):
        if x.op == 'bv' and x is not b and x.a[0] < TMPBV: m = max(m, x.a[0])
    k = m + 1
    return k, subst(v, {b: A(bv(k))})

def comp(n, b, v):
    """sequence of n values v(b)"""
    if cval(n) == 0: return EMPTY
    if v.op == 'unk': raise Unsupported('unknown element')
    k, body = close(n, b, v)
    return mkseq([('c', n, k, body)])

def flat(n, b, q):
    if cval(n) == 0: return EMPTY
    if q.op == 'unk': raise Unsupported('unknown element')
    if q is EMPTY: return EMPTY
    k, body = close(n, b, q)
    return mkseq([('f', n, k, body)])

def exists(n, b, c):
    if c is FALSE: return FALSE
    if b not in fv(c): return and_(c, gt(n, I(0)))
    k, body = close(n, b, c)
    if cval(n) is not None and cval(n) <= 40:
        return or_(*[subst(body, {bv(k): I(i)}) for i in range(cval(n))])
    return batom(mk('exists', n, k, body))

def first(n, b, c):
    if c is TRUE: return I(0)
    k, body = close(n, b, c)
    a = mk('first', n, k, body)
    set_rng(a, 0, LENMAX)
    return A(a)

def known(fs, n):
    """n as a constant when the facts fix it"""
    if cval(n) is not None: return n
    for l in list(fs.eqs) + list(fs.les):
        for d in (sub(n, l), add(n, l)):
            c = cval(d)
            if c is not None and fs.ent_eq(addc(n, -c)): return I(c)
    return n

# ---------------------------------------------------------------- iterators
def IT(kind, *f): return mk('struct', 'iter:' + kind, 0, tuple(f))
def fnv_or(v): return v

def into_iter(I_, st, v):
    if v.op == 'mref':
        x = I_.mread(st, v)
        if x.op == 'struct' and (x.a[0].startswith('iter:') or x.a[0] in ('std::ops::Range', 'std::ops::RangeInclusive')): return IT('ByRef', v)
        if x.op in ('seq', 'ite'):
            q = Q(I_, st, x)
            return IT('Mut', v, I(0), seq_len(q))
        if x.op in ('mref', 'ref', 'box'): return into_iter(I_, st, x)
        v = x
    if v.op == 'ite': raise Split(v.a[0])
    if v.op in ('ref', 'box'): return into_iter(I_, st, v.a[0])
    if v.op == 'seq': return IT('Seq', v, I(0), seq_len(v))
    if v.op == 'struct':
        p = v.a[0]
        if p.startswith('iter:') or p in ('std::ops::Range', 'std::ops::RangeInclusive', 'std::ops::RangeFrom'): return v
        if p == OPT: return IT('Seq', S_unit(v.a[2][0]) if v.a[1] == 1 else EMPTY, I(0), I(1 if v.a[1] == 1 else 0))
    if v.op == 'symenum' and v.a[1].startswith(OPT):
        i, v = variant(I_, st, v)
        return into_iter(I_, st, SOME(payload(I_, v, 1)) if i else NONE)
    raise Unsupported('iterate over ' + v.op + ' ' + str(v.a[0])[:40])

def it_next(I_, st, it, steps=0):
    """[(kind, state, (item or None, new iterator))]"""
    if it.op == 'ite': raise Split(it.a[0])
    if it.op != 'struct': raise Unsupported('next on ' + it.op)
    p = it.a[0]; f = it.a[2]
    if p == 'std::ops::Range':
        if decide(st.fs, lt(f[0], f[1])): return [('ret', st, (f[0], mk('struct', p, 0, (addc(f[0], 1), f[1]))))]
        return [('ret', st, (None, it))]
    if p == 'std::ops::RangeFrom': return [('ret', st, (f[0], mk('struct', p, 0, (addc(f[0], 1),))))]
    if p == 'std::ops::RangeInclusive':
        if f[2] is not TRUE and decide(st.fs, and_(not_(f[2]), le(f[0], f[1]))):
            return [('ret', st, (f[0], mk('struct', p, 0, (addc(f[0], 1), f[1], FALSE))))]
        return [('ret', st, (None, it))]
    k = p[5:]
    if k == 'ByRef':
        m = f[0]; cur = I_.mread(st, m)
        out = []
        for kd, s, r in it_next(I_, st, cur):
            if kd == 'ret':
                s = s.copy(); I_.mwrite(s, m, r[1]); out.append((kd, s, (r[0], it)))
            else: out.append((kd, s, r))
        return out
    if k == 'Seq':
        q, pos, end = f
        if decide(st.fs, lt(pos, end)): return [('ret', st, (seq_at(st.fs, q, pos), IT('Seq', q, addc(pos, 1), end)))]
        return [('ret', st, (None, it))]
    if k == 'Mut':
        m, pos, end = f
        if decide(st.fs, lt(pos, end)):
            return [('ret', st, (mk('mref', m.a[0], m.a[1] + (('i', pos),)), IT('Mut', m, addc(pos, 1), end)))]
        return [('ret', st, (None, it))]
    if k in ('Chunks', 'ChunksExact'):
        q, pos, size = f; end = seq_len(q)
        if k == 'ChunksExact':
            if decide(st.fs, le(add(pos, size), end)):
                np = add(pos, size)
                return [('ret', st, (slice_seq(st.fs, q, pos, np), IT(k, q, np, size)))]
            return [('ret', st, (None, it))]
        if not decide(st.fs, lt(pos, end)): return [('ret', st, (None, it))]
        np = add(pos, size) if decide(st.fs, le(add(pos, size), end)) else end
        return [('ret', st, (slice_seq(st.fs, q, pos, np), IT(k, q, np, size)))]
    if k in ('ChunksMut', 'ChunksExactMut'):
        m, pos, size = f; end = seq_len(Q(I_, st, m))
        if not decide(st.fs, lt(pos, end) if k == 'ChunksMut' else le(add(pos, size), end)): return [('ret', st, (None, it))]
        np = add(pos, size) if decide(st.fs, le(add(pos, size), end)) else end
        return [('ret', st, (mk('mref', m.a[0], m.a[1] + (('sub', pos, np),)), IT(k, m, np, size)))]
    if k == 'Windows':
        q, pos, size = f; np = add(pos, size)
        if decide(st.fs, le(np, seq_len(q))): return [('ret', st, (slice_seq(st.fs, q, pos, np), IT(k, q, addc(pos, 1), size)))]
        return [('ret', st, (None, it))]
    if k in ('Map', 'Enumerate', 'Take', 'Skip', 'StepBy', 'Peekable', 'Fuse', 'TakeWhile', 'Filter', 'FilterMap', 'MapWhile', 'Inspect'):
        if k == 'Take':
            if not decide(st.fs, gt(f[1], I(0))): return [('ret', st, (None, it))]
        if k == 'Peekable' and f[1].a[1] == 1:      # Some(peeked)
            pk = f[1].a[2][0]
            i2 = IT('Peekable', f[0], NONE)
            return [('ret', st, ((pk.a[2][0] if pk.a[1] == 1 else None), i2))]
        if k == 'Skip' and cval(f[1]) != 0:
            n = f[1]
            parts = adv(I_, st, f[0], n)
            return it_next(I_, st, IT('Skip', parts, I(0)))
        if k == 'StepBy' and f[2] is FALSE:
            inner = adv(I_, st, f[0], addc(f[1], -1))
            return it_next(I_, st, IT('StepBy', inner, f[1], TRUE))
        if k == 'Filter' and I_.mode == 'fix':
            return search(I_, st, f[0], f[1], lambda s, q, i: [('ret', s, (seq_at(s.fs, q, i), IT('Filter', IT('Seq', q, addc(i, 1), seq_len(q)), f[1])))],
                          lambda s: [('ret', s, (None, IT('Seq', EMPTY, I(0), I(0))))])
        out = []
        for kd, s, r in it_next(I_, st, f[0]):
            if kd != 'ret': out.append((kd, s, r)); continue
            x, ni = r
            if k == 'Enumerate': out.append(('ret', s, (None if x is None else TUP(f[1], x), IT('Enumerate', ni, addc(f[1], 1) if x is not None else f[1]))))
            elif k == 'Take': out.append(('ret', s, (x, IT('Take', ni, addc(f[1], -1)))))
            elif k in ('Skip', 'Fuse'): out.append(('ret', s, (x, IT(k, ni, *f[1:]))))
            elif k == 'StepBy': out.append(('ret', s, (x, IT(k, ni, f[1], FALSE))))
            elif k == 'Peekable': out.append(('ret', s, (x, IT(k, ni, NONE))))
            elif k == 'Map':
                if x is None: out.append(('ret', s, (None, IT('Map', ni, f[1]))))
                else:
                    for k2, s2, v in call_in(I_, s, f[1], [x]):
                        if k2 == 'ret': out.append(('ret', s2, (v[0], IT('Map', ni, v[1]))))
                        else: out.append((k2, s2, v))
            elif k in ('Filter', 'FilterMap', 'TakeWhile', 'MapWhile'):
                if x is None: out.append(('ret', s, (None, IT(k, ni, f[1])))); continue
                if I_.mode == 'fix' and k.startswith('Filter'): raise Unsupported('stepping a filter')
                for k2, s2, v in call_in(I_, s, f[1], [x]):
                    if k2 != 'ret': out.append((k2, s2, v)); continue
                    def go(s3, v=v):
                        nit = IT(k, ni, v[1])
                        if k in ('Filter', 'TakeWhile'):
                            if decide(s3.fs, B(I_, s3, v[0])): return [('ret', s3, (x, nit))]
                            if k == 'TakeWhile': return [('ret', s3, (None, IT('Seq', EMPTY, I(0), I(0))))]
                        else:
                            vi, vv = variant(I_, s3, v[0])
                            if vi == 1: return [('ret', s3, (payload(I_, vv, 1), nit))]
                            if k == 'MapWhile': return [('ret', s3, (None, nit))]
                        if steps >= I_.K + 1: I_.cuts += 1; return [('cut', s3, 'loop')]
                        return it_next(I_, s3, nit, steps + 1)
                    out += I_.fork(s2, go)
            else: raise Unsupported('iterator ' + k)
        return out
    if k == 'Zip':
        out = []
        for kd, s, r in it_next(I_, st, f[0]):
            if kd != 'ret': out.append((kd, s, r)); continue
            x, na = r
            if x is None: out.append(('ret', s, (None, IT('Zip', na, f[1])))); continue
            def go(s2):
                o = []
                for k2, s3, r2 in it_next(I_, s2, f[1]):
                    if k2 != 'ret': o.append((k2, s3, r2)); continue
                    y, nb = r2
                    o.append(('ret', s3, (None if y is None else TUP(x, y), IT('Zip', na, nb))))
                return o
            out += I_.fork(s, go)
        return out
    if k == 'Chain':
        out = []
        for kd, s, r in it_next(I_, st, f[0]):
            if kd == 'ret' and r[0] is None:
                def go(s2, na=r[1]):
                    return [(k2, s3, (r2[0], IT('Chain', na, r2[1])) if k2 == 'ret' else r2) for k2, s3, r2 in it_next(I_, s2, f[1])]
                out += I_.fork(s, go)
            elif kd == 'ret': out.append((kd, s, (r[0], IT('Chain', r[1], f[1]))))
            else: out.append((kd, s, r))
        return out
    if k == 'Rev':
        return [(kd, s, (r[0], IT('Rev', r[1])) if kd == 'ret' else r) for kd, s, r in it_next_back(I_, st, f[0])]
    if k == 'Split':
        # fields: sequence, start position, predicate, finished
        q, pos, pred, fin = f
        if fin is TRUE: return [('ret', st, (None, it))]
        end = seq_len(q)
        n = known(st.fs, sub(end, pos))
        st, alts, pan, b = under(I_, st, n, lambda s, j: I_.call_value(s, pred, [seq_at(s.fs, q, add(pos, j))]))
        c = or_(*[and_(cd, B(I_, st, v)) for cd, v in alts]) if alts else FALSE
        ex = exists(n, b, c)
        out = list(pan)
        if decide(st.fs, ex):
            fi = first(n, b, c)
            s = st.assume(and_(le(I(0), fi), lt(fi, n)))
            if s is not None:
                cut = add(pos, fi)
                out.append(('ret', s, (slice_seq(s.fs, q, pos, cut), IT('Split', q, addc(cut, 1), pred, FALSE))))
        else:
            out.append(('ret', st, (slice_seq(st.fs, q, pos, end), IT('Split', q, end, pred, TRUE))))
        return out
    raise Unsupported('next of ' + k)

def it_next_back(I_, st, it):
    p = it.a[0]; f = it.a[2]
    if p == 'std::ops::Range':
        if decide(st.fs, lt(f[0], f[1])): return [('ret', st, (addc(f[1], -1), mk('struct', p, 0, (f[0], addc(f[1], -1)))))]
        return [('ret', st, (None, it))]
    k = p[5:]
    if k == 'Seq':
        q, pos, end = f
        if decide(st.fs, lt(pos, end)): return [('ret', st, (seq_at(st.fs, q, addc(end, -1)), IT('Seq', q, pos, addc(end, -1))))]
        return [('ret', st, (None, it))]
    if k == 'Rev': return [(kd, s, (r[0], IT('Rev', r[1])) if kd == 'ret' else r) for kd, s, r in it_next(I_, st, f[0])]
    if k == 'Map':
        out = []
        for kd, s, r in it_next_back(I_, st, f[0]):
            if kd != 'ret': out.append((kd, s, r)); continue
            if r[0] is None: out.append(('ret', s, (None, IT('Map', r[1], f[1])))); continue
            for k2, s2, v in call_in(I_, s, f[1], [r[0]]):
                if k2 == 'ret': out.append(('ret', s2, (v[0], IT('Map', r[1], v[1]))))
                else: out.append((k2, s2, v))
        return out
    # general: materialise
    outs = []
    for kd, s, q in to_seq(I_, st, it):
        if kd != 'ret': outs.append((kd, s, q))
        else: outs += it_next_back(I_, s, IT('Seq', q, I(0), seq_len(q)))
    return outs

def adv(I_, st, it, n):
    """iterator advanced by n (a linear form), for indexable iterators"""
    p = it.a[0]; f = it.a[2]
    if cval(n) == 0: return it
    if p == 'std::ops::Range':
        ns = add(f[0], n)
        if not decide(st.fs, le(ns, f[1])): ns = f[1]
        return mk('struct', p, 0, (ns, f[1]))
    if p == 'std::ops::RangeFrom': return mk('struct', p, 0, (add(f[0], n),))
    k = p[5:]
    if k == 'Seq':
        np = add(f[1], n)
        if not decide(st.fs, le(np, f[2])): np = f[2]
        return IT('Seq', f[0], np, f[2])
    if k in ('Chunks', 'ChunksExact') and cval(f[2]) is not None:
        np = add(f[1], scale(n, cval(f[2])))
        if not decide(st.fs, le(np, seq_len(f[0]))): np = seq_len(f[0])
        return IT(k, f[0], np, f[2])
    if k == 'Enumerate': return IT(k, adv(I_, st, f[0], n), add(f[1], n))
    if k == 'Zip': return IT(k, adv(I_, st, f[0], n), adv(I_, st, f[1], n))
    if k == 'Map':
        return IT(k, adv(I_, st, f[0], n), f[1])
    if k == 'Skip': return adv(I_, st, adv(I_, st, f[0], f[1]), n)
    if k == 'Take':
        m = sub(f[1], n)
        if not decide(st.fs, ge(m, I(0))): m = I(0)
        return IT(k, adv(I_, st, f[0], n), m)
    raise Unsupported('advance ' + k)

def call_in(I_, st, f, args):
    """call a closure value owned by an iterator: outcomes with (value, closure afterwards)"""
    if f.op == 'struct' and f.a[0].startswith('closure:'):
        I_.fid += 1
        cell = ('itc', I_.fid)
        s = st.copy(); s.cells[cell] = f
        outs = I_.call_value(s, mk('mref', cell, ()), args)
        r = []
        for k, s2, v in outs:
            s2 = s2.copy(); nf = s2.cells.pop(cell, f)
            r.append((k, s2, (v, nf) if k == 'ret' else v))
        return r
    return [(k, s, (v, f) if k == 'ret' else v) for k, s, v in I_.call_value(st, f, args)]

def parts(I_, st, it):
    """decomposition into uniform runs: [(count, getter(state, index) -> outcomes)]; deciding boundaries may fork"""
    if it.op == 'ite': raise Split(it.a[0])
    p = it.a[0]; f = it.a[2]
    def one(fn): return lambda s, j: [('ret', s, fn(s, j))]
    if p == 'std::ops::Range':
        if not decide(st.fs, le(f[0], f[1])): return []
        return [(sub(f[1], f[0]), one(lambda s, j: add(f[0], j)))]
    if p == 'std::ops::RangeInclusive':
        if f[2] is not FALSE: raise Unsupported('range')
        if not decide(st.fs, le(f[0], f[1])): return []
        return [(addc(sub(f[1], f[0]), 1), one(lambda s, j: add(f[0], j)))]
    if p == 'std::ops::RangeFrom': return [(None, one(lambda s, j: add(f[0], j)))]
    k = p[5:]
    if k == 'ByRef':
        return parts(I_, st, I_.mread(st, f[0]))
    if k == 'Seq':
        q, pos, end = f
        return [(sub(end, pos), one(lambda s, j: seq_at(s.fs, q, add(pos, j))))]
    if k in ('Chunks', 'ChunksExact'):
        q, pos, size = f; c = cval(size); end = seq_len(q)
        if c is None or c <= 0: raise Unsupported('chunk size')
        n = sub(end, pos); full = div_(n, c); r = rem_(n, c)
        if cval(pos) != 0 and not decide(st.fs, le(pos, end)): return []
        ps = []
        if cval(full) != 0:
            def g(s, j):
                a = add(pos, scale(j, c))
                f2 = s.fs
                # j < full entails a + c <= end; make it available to the linear facts
                f2 = f2.assume(le(addc(a, c), end)) or f2
                return slice_seq(f2, q, a, addc(a, c))
            ps.append((full, one(g)))
        if k == 'Chunks' and decide(st.fs, gt(r, I(0))):
            ps.append((I(1), one(lambda s, j: slice_seq(s.fs, q, add(pos, scale(full, c)), end))))
        return ps
    if k == 'Windows':
        q, pos, size = f
        n = addc(sub(sub(seq_len(q), size), pos), 1)
        if not decide(st.fs, ge(n, I(0))): return []
        return [(n, one(lambda s, j: slice_seq(s.fs, q, add(pos, j), add(add(pos, j), size))))]
    if k == 'Map':
        def mkm(g):
            def h(s, j):
                out = []
                for kd, s2, v in g(s, j):
                    if kd == 'ret': out += I_.call_value(s2, f[1], [v])
                    else: out.append((kd, s2, v))
                return out
            return h
        return [(n, mkm(g)) for n, g in parts(I_, st, f[0])]
    if k == 'Enumerate':
        out = []; off = f[1]
        for n, g in parts(I_, st, f[0]):
            def h(s, j, g=g, off=off): return [(kd, s2, TUP(add(off, j), v) if kd == 'ret' else v) for kd, s2, v in g(s, j)]
            out.append((n, h)); off = add(off, n) if n is not None else off
        return out
    if k in ('Cloned', 'Copied', 'Fuse'): return parts(I_, st, f[0])
    if k == 'Peekable':
        if f[1].a[1] == 0: return parts(I_, st, f[0])
        raise Unsupported('peeked')
    if k == 'Rev':
        ps = parts(I_, st, f[0])
        out = []
        for n, g in reversed(ps):
            if n is None: raise Unsupported('rev')
            def h(s, j, g=g, n=n): return g(s, sub(addc(n, -1), j))
            out.append((n, h))
        return out
    if k == 'Chain': return parts(I_, st, f[0]) + parts(I_, st, f[1])
    if k == 'Zip':
        A1, B1 = parts(I_, st, f[0]), parts(I_, st, f[1])
        return zip_parts(I_, st, A1, B1)
    if k == 'Take':
        ps = parts(I_, st, f[0]); left = f[1]; out = []
        for n, g in ps:
            if cval(left) == 0: break
            if n is None or not decide(st.fs, le(n, left)):
                out.append((left, g)); break
            out.append((n, g)); left = sub(left, n)
        return out
    if k == 'Skip':
        ps = parts(I_, st, f[0]); left = f[1]; out = []
        for n, g in ps:
            if cval(left) == 0: out.append((n, g)); continue
            if n is not None and decide(st.fs, le(n, left)): left = sub(left, n); continue
            out.append((sub(n, left) if n is not None else None, lambda s, j, g=g, left=left: g(s, add(j, left))))
            left = I(0)
        return out
    if k == 'StepBy':
        ps = parts(I_, st, f[0]); c = cval(f[1])
        if len(ps) == 1 and c and ps[0][0] is not None and f[2] is TRUE:
            n, g = ps[0]
            return [(div_(addc(n, c - 1), c), lambda s, j: g(s, scale(j, c)))]
        if not ps: return []
        raise Unsupported('step_by')
    raise Unsupported('parts of ' + k)

def zip_parts(I_, st, A1, B1):
    A1, B1 = list(A1), list(B1); out = []
    def both(g, h):
        def r(s, j):
            o = []
            for kd, s2, v in g(s, j):
                if kd != 'ret': o.append((kd, s2, v)); continue
                o += [(k2, s3, TUP(v, w) if k2 == 'ret' else w) for k2, s3, w in h(s2, j)]
            return o
        return r
    while A1 and B1:
        (n, g), (m, h) = A1[0], B1[0]
        if n is None and m is None: out.append((None, both(g, h))); break
        if m is None or (n is not None and (n is m or decide(st.fs, le(n, m)))):
            out.append((n, both(g, h))); A1.pop(0)
            if m is None: B1[0] = (None, lambda s, j, h=h, n=n: h(s, add(j, n)))
            elif n is m or try_decide(st.fs, eqi(n, m)): B1.pop(0)
            else: B1[0] = (sub(m, n), lambda s, j, h=h, n=n: h(s, add(j, n)))
        else:
            out.append((m, both(g, h))); B1.pop(0)
            if n is None: A1[0] = (None, lambda s, j, g=g, m=m: g(s, add(j, m)))
            else: A1[0] = (sub(n, m), lambda s, j, g=g, m=m: g(s, add(j, m)))
    return out

def filt(it):
    """(base iterator, stages) for filtering pipelines"""
    stages = []
    while it.op == 'struct' and it.a[0] in ('iter:Filter', 'iter:FilterMap', 'iter:Map', 'iter:FlatMap', 'iter:Flatten', 'iter:Cloned', 'iter:Inspect'):
        stages.append((it.a[0][5:], it.a[2][1] if len(it.a[2]) > 1 else None)); it = it.a[2][0]
    stages.reverse()
    return it, stages

def stage_seq(I_, s, v, stages):
    """outcomes with the sequence of items one base item contributes"""
    if not stages: return [('ret', s, S_unit(v))]
    k, f = stages[0]; rest = stages[1:]
    out = []
    if k == 'Cloned': return stage_seq(I_, s, v, rest)
    if k == 'Flatten':
        return flat_in(I_, s, v, rest)
    for kd, s2, w in I_.call_value(s, f, [v]):
        if kd != 'ret': out.append((kd, s2, w)); continue
        def go(s3, w=w):
            if k == 'Map': return stage_seq(I_, s3, w, rest)
            if k == 'Filter':
                if decide(s3.fs, B(I_, s3, w)): return stage_seq(I_, s3, v, rest)
                return [('ret', s3, EMPTY)]
            if k == 'FilterMap':
                i, ww = variant(I_, s3, w)
                if i == 1: return stage_seq(I_, s3, payload(I_, ww, 1), rest)
                return [('ret', s3, EMPTY)]
            if k == 'FlatMap': return flat_in(I_, s3, w, rest)
            raise Unsupported(k)
        out += I_.fork(s2, go)
    return out

def flat_in(I_, s, v, rest):
    v = I_.strip(s, v)
    if v.op in ('symenum',) or (v.op == 'struct' and v.a[0] in (OPT, RES)):
        i, vv = variant(I_, s, v)
        isopt = (vv.a[0] == OPT) if vv.op == 'struct' else vv.a[1].startswith(OPT)
        if (isopt and i == 1) or (not isopt and i == 0): return stage_seq(I_, s, payload(I_, vv, i), rest)
        return [('ret', s, EMPTY)]
    it = into_iter(I_, s, v)
    if rest: raise Unsupported('flatten then more')
    return to_seq(I_, s, it)

def to_seq(I_, st, it):
    """outcomes with the sequence of all remaining items"""
    base, stages = filt(it)
    low = lowered(I_, st, base)
    if low is not None:
        def up(b, it):
            return b if it is base else IT(it.a[0][5:], up(b, it.a[2][0]), *it.a[2][1:])
        return [o for k, s, b in low for o in (I_.fork(s, lambda s2, b=b: to_seq(I_, s2, up(b, it))) if k == 'ret' else [(k, s, b)])]
    if any(k in ('Filter', 'FilterMap', 'FlatMap', 'Flatten') for k, _ in stages):
        ps = parts(I_, st, base)
        return build(I_, st, [(n, (lambda s, j, g=g: [o for kd, s2, v in g(s, j) for o in (stage_seq(I_, s2, v, stages) if kd == 'ret' else [(kd, s2, v)])])) for n, g in ps], True)
    if it.a[0] in ('iter:TakeWhile', 'iter:MapWhile', 'iter:SkipWhile'):
        return while_seq(I_, st, it)
    if it.a[0] == 'iter:Split': raise Unsupported('collect split')
    return build(I_, st, parts(I_, st, it), False)

def lowered(I_, st, it):
    """a prefix, suffix, ... of a filtered iterator: the same of the sequence of its items (items not asked for have no effect)"""
    if it.op == 'struct' and it.a[0] == 'iter:Split' and I_.mode == 'peel':
        out = []; cur = [(st, it, EMPTY)]
        for n in range(2):      # piece by piece
            nxt = []
            for s, i, acc in cur:
                for k, s2, r in I_.fork(s, lambda s1, i=i: it_next(I_, s1, i)):
                    if k != 'ret': out.append((k, s2, r))
                    elif r[0] is None: out.append(('ret', s2, IT('Seq', acc, I(0), seq_len(acc))))
                    else: nxt.append((s2, r[1], cat(acc, S_unit(r[0]))))
            cur = nxt
        return out + [('cut', s, 'pieces') for s, _, _ in cur]
    if it.op != 'struct' or it.a[0] not in ('iter:Take', 'iter:Skip', 'iter:Rev', 'iter:Enumerate', 'iter:Chain', 'iter:Zip', 'iter:Peekable', 'iter:StepBy') or not it.a[2]: return None
    if it.a[0] == 'iter:Peekable' and it.a[2][1] is not NONE: return None
    def filtered(x):
        if x.op != 'struct' or not x.a[0].startswith('iter:') or not x.a[2] or x.a[2][0].op != 'struct': return False
        return any(k in ('Filter', 'FilterMap', 'FlatMap', 'Flatten') for k, _ in filt(x)[1]) or filtered(x.a[2][0])
    if not filtered(it.a[2][0]): return None
    outs = to_seq(I_, st, it.a[2][0])
    if any(k != 'ret' for k, _, _ in outs): raise Unsupported('items not asked for may panic')
    return [('ret', s, IT(it.a[0][5:], IT('Seq', q, I(0), seq_len(q)), *it.a[2][1:])) for _, s, q in outs]

def while_seq(I_, st, it):
    k = it.a[0][5:]; base, f = it.a[2][:2]
    out = []
    for kd, s, q in to_seq(I_, st, base):
        if kd != 'ret': out.append((kd, s, q)); continue
        def go(s, q=q):
            n = seq_len(q)
            s, alts, pan, b = under(I_, s, n, lambda s2, j: I_.call_value(s2, f, [seq_at(s2.fs, q, j)]))
            if k == 'MapWhile': raise Unsupported('map_while')
            c = not_(or_(*[and_(cd, B(I_, s, v)) for cd, v in alts])) if alts else FALSE
            if not decide(s.fs, exists(n, b, c)): return pan + [('ret', s, q if k == 'TakeWhile' else EMPTY)]
            fi = first(n, b, c)
            s = s.assume(and_(le(I(0), fi), lt(fi, n)))
            if s is None: return pan
            return pan + [('ret', s, slice_seq(s.fs, q, I(0), fi) if k == 'TakeWhile' else slice_seq(s.fs, q, fi, n))]
        out += I_.fork(s, go)
    return out

def build(I_, st, ps, isflat):
    acc = EMPTY; outs = []
    cur = [(st, EMPTY)]
    for n, g in ps:
        if n is None: raise Unsupported('infinite iterator')
        nxt = []
        for s, acc in cur:
            c = cval(n)
            if c is not None and c <= 1:
                if c <= 0: nxt.append((s, acc)); continue
                for kd, s2, v in I_.fork(s, lambda s1: g(s1, I(0))):
                    if kd != 'ret': outs.append((kd, s2, v))
                    else: nxt.append((s2, cat(acc, as_seq(v) if isflat else S_unit(need(I_, s2, v)))))
                continue
            s2, alts, pan, b = under(I_, s, n, g)
            outs += pan
            if not alts: nxt.append((s2, acc)); continue
            if any(v.op == 'unk' for _, v in alts): raise Unsupported('unknown element ' + str([v for _, v in alts if v.op == 'unk'][0].a[0]))
            v = merge_ite(alts)
            nxt.append((s2, cat(acc, flat(n, b, v) if isflat else comp(n, b, v))))
        cur = nxt
    return outs + [('ret', s, a) for s, a in cur]

def as_seq(v):
    if v.op == 'ite': raise Split(v.a[0])
    return v

def need(I_, st, v):
    if v.op == 'unk': raise Unsupported('unknown element')
    if v.op == 'mref': return I_.mread(st, v)
    return v

# result-carrying sequences: collect into Result / Option, try_fold
def collect_res(I_, st, it, opt):
    """outcomes of collecting an iterator of Result (or Option) values"""
    ps = parts(I_, st, it)
    good = 1 if opt else 0
    outs = []
    cur = [(st, EMPTY)]
    for n, g in ps:
        nxt = []
        for s, acc in cur:
            def elem(s1, j):
                o = []
                for kd, s2, v in g(s1, j):
                    if kd != 'ret': o.append((kd, s2, v)); continue
                    def vv(s3, v=v):
                        i, x = variant(I_, s3, v)
                        if x.op == 'struct': return [('ret', s3, x)]
                        return [('ret', s3, mk('struct', OPT if opt else RES, i, (() if opt and i == 0 else (payload(I_, x, i),))))]
                    o += I_.fork(s2, vv)
                return o
            if cval(n) is not None and cval(n) <= 1:
                if cval(n) == 0: nxt.append((s, acc)); continue
                for kd, s2, v in I_.fork(s, lambda s1: elem(s1, I(0))):
                    if kd != 'ret': outs.append((kd, s2, v))
                    elif v.a[1] == good: nxt.append((s2, cat(acc, S_unit(v.a[2][0]))))
                    else: outs.append(('ret', s2, v))
                continue
            s2, alts, pan, b = under(I_, s, n, elem)
            outs += pan
            bad = or_(*[c for c, v in alts if v.a[1] != good])
            okv = [(c, v.a[2][0]) for c, v in alts if v.a[1] == good]
            badv = [(c, v) for c, v in alts if v.a[1] != good]
            ex = exists(n, b, bad)
            if ex is not FALSE:
                sb = s2.assume(ex)
                if sb is not None:
                    fi = first(n, b, bad)
                    sb = sb.assume(and_(le(I(0), fi), lt(fi, n)))
                    if sb is not None:
                        outs.append(('ret', sb, subst(merge_ite(badv), {b: fi})))
                s2 = s2.assume(not_(ex))
                if s2 is None: continue
            if okv:
                v = merge_ite(okv)
                if v.op == 'unk': raise Unsupported('unknown element')
                nxt.append((s2, cat(acc, comp(n, b, v))))
            else: nxt.append((s2, acc))
        cur = nxt
    return outs + [('ret', s, SOME(a) if opt else OK(a)) for s, a in cur]

# ---------------------------------------------------------------- iterator methods
@model('std::iter::IntoIterator::into_iter')
def m_into_iter(I_, st, a, f, t): return ret(st, into_iter(I_, st, a[0]))

@model('std::slice::iter', 'std::collections::VecDeque::iter', 'std::vec::Vec::iter', 'std::option::Option::iter')
def m_iter(I_, st, a, f, t): return ret(st, into_iter(I_, st, I_.strip(st, a[0])))

@model('std::str::bytes')
def m_bytes(I_, st, a, f, t): return ret(st, into_iter(I_, st, Q(I_, st, a[0])))

@model('std::slice::iter_mut')
def m_iter_mut(I_, st, a, f, t): return ret(st, into_iter(I_, st, a[0]))

@model('std::vec::Vec::drain')
def m_drain(I_, st, a, f, t):
    q = Q(I_, st, a[0]); n = seq_len(q)
    lo, hi = rbounds(I_, st, a[1], n)
    st, out = guard(I_, st, and_(le(lo, hi), le(hi, n)), 'drain range out of bounds', t)
    if st is None: return out
    x = slice_seq(st.fs, q, lo, hi)
    I_.mwrite(st, mref_of(I_, st, a[0]), cat(slice_seq(st.fs, q, I(0), lo), slice_seq(st.fs, q, hi, n)))
    return out + ret(st, IT('Seq', x, I(0), seq_len(x)))

def mref_of(I_, st, v):
    """innermost mutable reference reaching the value"""
    while v.op == 'mref':
        w = I_.mread(st, v)
        if w.op == 'mref': v = w
        elif w.op == 'box': return mk('mref', v.a[0], v.a[1] + (('box',),))
        else: return v
    raise Unsupported('no mutable reference: ' + v.op)

@model('std::iter::Iterator::next')
def m_next(I_, st, a, f, t):
    m = mref_of(I_, st, a[0])
    it = I_.mread(st, m)
    out = []
    for k, s, r in it_next(I_, st, it):
        if k != 'ret': out.append((k, s, r)); continue
        s = s.copy(); I_.mwrite(s, m, r[1])
        out.append(('ret', s, NONE if r[0] is None else SOME(r[0])))
    return out

@model('std::iter::DoubleEndedIterator::next_back')
def m_next_back(I_, st, a, f, t):
    m = mref_of(I_, st, a[0])
    out = []
    for k, s, r in it_next_back(I_, st, I_.mread(st, m)):
        if k != 'ret': out.append((k, s, r)); continue
        s = s.copy(); I_.mwrite(s, m, r[1])
        out.append(('ret', s, NONE if r[0] is None else SOME(r[0])))
    return out

def itarg(I_, st, v):
    if v.op == 'mref': return IT('ByRef', mref_of(I_, st, v))
    return into_iter(I_, st, v)

def adapter(kind, *defaults):
    def m(I_, st, a, f, t):
        return ret(st, IT(kind, itarg(I_, st, a[0]), *(list(a[1:]) + list(defaults))))
    return m
for n, k, d in (('map', 'Map', ()), ('filter', 'Filter', ()), ('filter_map', 'FilterMap', ()), ('enumerate', 'Enumerate', (I(0),)),
                ('rev', 'Rev', ()), ('take', 'Take', ()), ('skip', 'Skip', ()), ('peekable', 'Peekable', (NONE,)), ('fuse', 'Fuse', ()),
                ('take_while', 'TakeWhile', ()), ('skip_while', 'SkipWhile', ()), ('map_while', 'MapWhile', ()), ('flat_map', 'FlatMap', ()),
                ('flatten', 'Flatten', ()), ('step_by', 'StepBy', (TRUE,))):
    TAB['std::iter::Iterator::' + n] = adapter(k, *d)

@model('std::iter::Iterator::cloned', 'std::iter::Iterator::copied', 'std::iter::Iterator::by_ref', 'std::iter::Iterator::inspect')
def m_same_it(I_, st, a, f, t): return ret(st, a[0] if f['name'] == 'by_ref' else itarg(I_, st, a[0]))

@model('std::iter::Iterator::zip')
def m_zip(I_, st, a, f, t): return ret(st, IT('Zip', itarg(I_, st, a[0]), into_iter(I_, st, a[1])))
@model('std::iter::zip')
def m_zip2(I_, st, a, f, t): return ret(st, IT('Zip', into_iter(I_, st, a[0]), into_iter(I_, st, a[1])))
@model('std::iter::Iterator::chain')
def m_chain(I_, st, a, f, t): return ret(st, IT('Chain', itarg(I_, st, a[0]), into_iter(I_, st, a[1])))
@model('std::iter::repeat')
def m_repeat(I_, st, a, f, t):
    v = a[0]
    return ret(st, IT('Map', mk('struct', 'std::ops::RangeFrom', 0, (I(0),)), mk('struct', 'konst', 0, (v,))))
@model('std::iter::repeat_n')
def m_repeat_n(I_, st, a, f, t):
    return ret(st, IT('Seq', S_rep(a[0], a[1]), I(0), a[1]))
@model('std::iter::once')
def m_once(I_, st, a, f, t): return ret(st, IT('Seq', S_unit(a[0]), I(0), I(1)))
@model('std::iter::empty')
def m_empty(I_, st, a, f, t): return ret(st, IT('Seq', EMPTY, I(0), I(0)))
@model('std::iter::repeat_with')
def m_repeat_with(I_, st, a, f, t):
    return ret(st, IT('Map', mk('struct', 'std::ops::RangeFrom', 0, (I(0),)), mk('struct', 'noarg', 0, (a[0],))))

def drain_it(I_, st, it):
    """an iterator passed by reference is left exhausted by consuming methods"""
    return st

def seq_of(I_, st, v):
    it = itarg(I_, st, v)
    outs = to_seq(I_, st, it)
    if it.a[0] == 'iter:ByRef':
        r = []
        for k, s, q in outs:
            if k == 'ret':
                s = s.copy(); I_.mwrite(s, it.a[2][0], IT('Seq', EMPTY, I(0), I(0)))
            r.append((k, s, q))
        return r
    return outs

def each(I_, outs, fn):
    """continue every returning outcome with fn(state, value)"""
    r = []
    for k, s, v in outs:
        if k == 'ret': r += I_.fork(s, lambda s2, v=v: fn(s2, v))
        else: r.append((k, s, v))
    return r

def dty(I_, t, f=None):
    return I_.P.T[t['dty']] if t and 'dty' in t else None

@model('std::iter::Iterator::collect', 'std::iter::FromIterator::from_iter')
def m_collect(I_, st, a, f, t):
    ty = dty(I_, t)
    s = ty['s'] if ty else ''
    if s.startswith(RES) or s.startswith(OPT):
        opt = s.startswith(OPT)
        inner = targs(s)[0]
        if inner == '()': return each(I_, collect_res(I_, st, itarg(I_, st, a[0]), opt), lambda s2, v: ret(s2, mk('struct', v.a[0], v.a[1], (UNIT,)) if v.a[1] == (1 if opt else 0) else v))
        return collect_res(I_, st, itarg(I_, st, a[0]), opt)
    if 'HashSet' in s or 'HashMap' in s or 'BTree' in s: raise Unsupported('collect into ' + s[:40])
    outs = seq_of(I_, st, a[0])
    if s == 'std::string::String':
        def fl(s2, q):
            e = sample_elem(q)
            if e is None: return ret(s2, EMPTY)
            if e.op == 'seq': return concat_seq(I_, s2, q)
            raise Unsupported('collect chars')
        return each(I_, outs, fl)
    return outs

@model('std::iter::Iterator::count', 'std::iter::ExactSizeIterator::len')
def m_count(I_, st, a, f, t):
    it = I_.strip(st, a[0]) if f['name'] == 'len' else itarg(I_, st, a[0])
    if it.op == 'struct' and it.a[0] == 'iter:Chars':
        st, c = charcount(st, it.a[2][0])
        return ret(st, c)
    return each(I_, to_seq(I_, st, it), lambda s, q: ret(s, seq_len(q)))

@model('std::iter::Iterator::last')
def m_last_it(I_, st, a, f, t):
    def fn(s, q):
        n = seq_len(q)
        if decide(s.fs, gt(n, I(0))): return ret(s, SOME(seq_at(s.fs, q, addc(n, -1))))
        return ret(s, NONE)
    return each(I_, seq_of(I_, st, a[0]), fn)

def search(I_, st, itv, f, found, notfound):
    """first item satisfying the predicate f(item)"""
    it = itarg(I_, st, itv)
    byref = it.a[0] == 'iter:ByRef'
    if byref:
        m = it.a[2][0]; src = I_.mread(st, m)
    else: src = it
    if src.op == 'struct' and src.a[0] == 'iter:Split' and I_.mode == 'peel':
        out = []; cur = [(st, src)]
        for n in range(3):
            nxt = []
            for s, i in cur:
                for k, s2, r in I_.fork(s, lambda s1, i=i: it_next(I_, s1, i)):
                    if k != 'ret': out.append((k, s2, r)); continue
                    if r[0] is None:
                        if byref: I_.mwrite(s2, m, i)
                        out += notfound(s2); continue
                    def test(s3, r=r):
                        o = []
                        for k4, s4, v in I_.call_value(s3, f, [r[0]]):
                            o.append((k4, s4, decide(s4.fs, B(I_, s4, v))) if k4 == 'ret' else (k4, s4, v))
                        return o
                    for k3, s3, hit in I_.fork(s2, test):
                        if k3 != 'ret': out.append((k3, s3, hit)); continue
                        if not hit: nxt.append((s3, r[1])); continue
                        if byref: I_.mwrite(s3, m, r[1])
                        out += found(s3, S_unit(r[0]), I(0))
            cur = nxt
        return out + [('cut', s, 'pieces') for s, _ in cur]
    def fn(s, q):
        n = known(s.fs, seq_len(q))
        def cond(s2, j):
            return I_.call_value(s2, f, [seq_at(s2.fs, q, j)])
        if cval(n) is not None and cval(n) <= 6 and all(g[0] == 'r' and g[1].op in ('struct', 'seq') for g in q.a): return few(s, q, cval(n), cond)
        s, alts, pan, b = under(I_, s, n, cond)
        c = or_(*[and_(cd, B(I_, s, v)) for cd, v in alts]) if alts else FALSE
        ex = exists(n, b, c)
        if not decide(s.fs, ex):
            if byref: I_.mwrite(s, m, IT('Seq', EMPTY, I(0), I(0)))
            return pan + notfound(s)
        fi = first(n, b, c)
        s = s.assume(and_(le(I(0), fi), lt(fi, n)))
        if s is None: return pan
        s = s.assume(subst(c, {b: fi}))
        if s is None: return pan
        if byref: I_.mwrite(s, m, IT('Seq', q, addc(fi, 1), n))
        return pan + found(s, q, fi)
    def few(s, q, n, cond):
        # a handful of known elements: one after the other
        out = []; cur = [s]
        for i in range(n):
            nxt = []
            for s1 in cur:
                for k, s2, v in cond(s1.copy(), I(i)):
                    if k != 'ret': out.append((k, s2, v)); continue
                    def go(s3, v=v):
                        if decide(s3.fs, B(I_, s3, v)): return [('ret', s3, True)]
                        return [('ret', s3, False)]
                    for _, s3, hit in I_.fork(s2, go):
                        if hit:
                            if byref: I_.mwrite(s3, m, IT('Seq', q, I(i + 1), I(n)))
                            out += found(s3, q, I(i))
                        else: nxt.append(s3)
            cur = nxt
        for s1 in cur:
            if byref: I_.mwrite(s1, m, IT('Seq', EMPTY, I(0), I(0)))
            out += notfound(s1)
        return out
    return each(I_, to_seq(I_, st, src), fn)

@model('std::iter::Iterator::find')
def m_find(I_, st, a, f, t):
    return search(I_, st, a[0], a[1], lambda s, q, i: ret(s, SOME(seq_at(s.fs, q, i))), lambda s: ret(s, NONE))
def reversed_(I_, st, itv):
    it = itarg(I_, st, itv)
    return IT('Rev', I_.mread(st, it.a[2][0]) if it.a[0] == 'iter:ByRef' else it)
@model('std::iter::DoubleEndedIterator::rfind')
def m_rfind(I_, st, a, f, t): return search(I_, st, reversed_(I_, st, a[0]), a[1], lambda s, q, i: ret(s, SOME(seq_at(s.fs, q, i))), lambda s: ret(s, NONE))
@model('std::iter::Iterator::rposition')
def m_rposition(I_, st, a, f, t): return search(I_, st, reversed_(I_, st, a[0]), a[1], lambda s, q, i: ret(s, SOME(sub(addc(seq_len(q), -1), i))), lambda s: ret(s, NONE))
@model('std::iter::Iterator::position')
def m_position(I_, st, a, f, t):
    return search(I_, st, a[0], a[1], lambda s, q, i: ret(s, SOME(i)), lambda s: ret(s, NONE))
@model('std::iter::Iterator::any')
def m_any(I_, st, a, f, t):
    return search(I_, st, a[0], a[1], lambda s, q, i: ret(s, TRUE), lambda s: ret(s, FALSE))
@model('std::iter::Iterator::all')
def m_all(I_, st, a, f, t):
    return search(I_, st, a[0], mk('struct', 'negate', 0, (a[1],)), lambda s, q, i: ret(s, FALSE), lambda s: ret(s, TRUE))
@model('std::iter::Iterator::find_map')
def m_find_map(I_, st, a, f, t):
    def found(s, q, i):
        return I_.call_value(s, a[1], [seq_at(s.fs, q, i)])
    return search(I_, st, a[0], mk('struct', 'issome', 0, (a[1],)), found, lambda s: ret(s, NONE))

@model('std::iter::Iterator::nth')
def m_nth(I_, st, a, f, t):
    m = mref_of(I_, st, a[0])
    it = I_.mread(st, m)
    s = st
    I_.mwrite(s, m, adv(I_, s, it, L(I_, s, a[1])))
    return m_next(I_, s, [m], f, t)

@model('std::iter::Iterator::size_hint')
def m_size_hint(I_, st, a, f, t): raise Unsupported('size_hint')

@model('std::iter::Iterator::eq')
def m_it_eq(I_, st, a, f, t):
    def fn(s, q):
        return each(I_, seq_of(I_, s, a[1]), lambda s2, r: ret(s2, veq(I_, s2, q, r)))
    return each(I_, seq_of(I_, st, a[0]), fn)

@model('std::iter::Iterator::fold', 'std::iter::Iterator::for_each', 'std::iter::Iterator::try_fold', 'std::iter::Iterator::try_for_each', 'std::iter::Iterator::sum', 'std::iter::Iterator::max', 'std::iter::Iterator::min')
def m_fold(I_, st, a, f, t):
    name = f['name']
    if name in ('max', 'min'): raise Unsupported(name)
    if name == 'sum':
        def fn(s, q):
            n = seq_len(q)
            c = cval(n)
            if c is not None and c <= 40:
                r = I(0)
                for i in range(c): r = add(r, L(I_, s, seq_at(s.fs, q, I(i))))
                return ret(s, r)
            e = None
            if len(q.a) == 1 and q.a[0][0] == 'c':
                _, n, k, body = q.a[0]
                lo, hi = lrange(body)
                x = mk('flen', n, k, body)
                set_rng(x, 0 if lo is not None and lo >= 0 else None, None)
                return ret(s, A(x))
            raise Unsupported('sum')
        return each(I_, seq_of(I_, st, a[0]), fn)
    import loops
    return loops.it_loop(I_, st, itarg(I_, st, a[0]), name, a, t)

# ---------------------------------------------------------------- calls of closure-like values
def call_closure_like(I_, st, f, args):
    n = f.a[0]
    if n == 'konst': return ret(st, f.a[2][0])
    if n == 'noarg': return I_.call_value(st, f.a[2][0], [])
    if n == 'negate': return [(k, s, not_(B(I_, s, v)) if k == 'ret' else v) for k, s, v in I_.call_value(st, f.a[2][0], args)]
    if n == 'issome':
        def g(s, v):
            i, _ = variant(I_, s, v)
            return ret(s, TRUE if i == 1 else FALSE)
        return each(I_, I_.call_value(st, f.a[2][0], args), g)
    return None

@model('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call')
def m_fncall(I_, st, a, f, t):
    args = I_.strip(st, a[1])
    if args.op != 'struct': raise Unsupported('call args')
    return I_.call_value(st, a[0], list(args.a[2]))

# ---------------------------------------------------------------- sequences
def rbounds(I_, st, r, n):
    r = I_.strip(st, r)
    if r.op == 'ite': raise Split(r.a[0])
    if r.op != 'struct': raise Unsupported('range ' + r.op)
    p = r.a[0].split('::')[-1]; f = r.a[2]
    if p == 'Range': return f[0], f[1]
    if p == 'RangeFrom': return f[0], n
    if p == 'RangeTo': return I(0), f[0]
    if p == 'RangeFull': return I(0), n
    if p == 'RangeInclusive': return f[0], addc(f[1], 1)
    if p == 'RangeToInclusive': return I(0), addc(f[0], 1)
    raise Unsupported('range ' + p)

@model('std::ops::RangeInclusive::new')
def m_ri(I_, st, a, f, t): return ret(st, mk('struct', 'std::ops::RangeInclusive', 0, (a[0], a[1], FALSE)))

@model('std::ops::RangeInclusive::contains', 'std::ops::Range::contains', 'std::ops::RangeFrom::contains', 'std::ops::RangeTo::contains', 'std::ops::RangeToInclusive::contains', 'std::ops::RangeBounds::contains')
def m_rcontains(I_, st, a, f, t):
    r = I_.strip(st, a[0]); x = L(I_, st, a[1])
    p = r.a[0].split('::')[-1]; g = [I_.strip(st, y) for y in r.a[2]]
    if p == 'Range': c = and_(le(g[0], x), lt(x, g[1]))
    elif p == 'RangeInclusive': c = and_(le(g[0], x), le(x, g[1]))
    elif p == 'RangeFrom': c = le(g[0], x)
    elif p == 'RangeTo': c = lt(x, g[0])
    elif p == 'RangeToInclusive': c = le(x, g[0])
    else: raise Unsupported(p)
    return ret(st, c)

@model('std::ops::RangeInclusive::start')
def m_ristart(I_, st, a, f, t): return ret(st, I_.strip(st, a[0]).a[2][0])
@model('std::ops::RangeInclusive::end')
def m_riend(I_, st, a, f, t): return ret(st, I_.strip(st, a[0]).a[2][1])

def index(I_, st, q, ix, t, mref=None):
    n = seq_len(q)
    i = I_.strip(st, ix)
    if i.op == 'lin':
        st, out = guard(I_, st, and_(le(I(0), i), lt(i, n)), 'index out of bounds', t)
        if st is None: return out
        if mref is not None: return out + ret(st, mk('mref', mref.a[0], mref.a[1] + (('i', i),)))
        return out + I_.fork(st, lambda s: ret(s, seq_at(s.fs, q, i)))
    lo, hi = rbounds(I_, st, i, n)
    st, out = guard(I_, st, and_(le(lo, hi), le(hi, n)), 'slice index out of range', t)
    if st is None: return out
    if mref is not None:
        if cval(lo) == 0 and hi is n: return out + ret(st, mref)
        return out + ret(st, mk('mref', mref.a[0], mref.a[1] + (('sub', lo, hi),)))
    return out + I_.fork(st, lambda s: ret(s, slice_seq(s.fs, q, lo, hi)))

@model('std::ops::Index::index')
def m_index(I_, st, a, f, t):
    q = Q(I_, st, a[0])
    if not on_text(I_, f): return index(I_, st, q, a[1], t)
    lo, hi = rbounds(I_, st, a[1], seq_len(q))
    st, out = bounds_of_text(I_, st, q, (lo, hi), t)
    return out + index(I_, st, q, a[1], t) if st is not None else out

def on_text(I_, f):
    a = f.get('args') or ()
    if not a or not isinstance(a[0], int): return False
    return I_.P.T[a[0]]['s'] in ('str', 'std::string::String')

def bounds_of_text(I_, st, q, ix, t):
    """text may be cut only between characters"""
    out = []; n = seq_len(q)
    if getattr(I_, 'text_atoms', False): return st, out
    for i in ix:
        if cval(i) == 0 or i is n or st.fs.simp(eqi(i, n)) is TRUE or st.fs.simp(le(i, I(0))) is TRUE: continue
        c = or_(le(i, I(0)), ge(i, n), batom(mk('uf', 'char_boundary', q, i)))
        st, o = guard(I_, st, c, 'cuts a character', t)
        out += o
        if st is None: break
    return st, out

@model('std::ops::IndexMut::index_mut')
def m_index_mut(I_, st, a, f, t):
    m = mref_of(I_, st, a[0])
    return index(I_, st, Q(I_, st, m), a[1], t, m)

@model('std::slice::get', 'std::str::get')
def m_get(I_, st, a, f, t):
    q = Q(I_, st, a[0]); n = seq_len(q); i = I_.strip(st, a[1])
    if i.op == 'lin':
        if decide(st.fs, lt(i, n)): return ret(st, SOME(seq_at(st.fs, q, i)))
        return ret(st, NONE)
    lo, hi = rbounds(I_, st, i, n)
    if decide(st.fs, and_(le(lo, hi), le(hi, n))): return ret(st, SOME(slice_seq(st.fs, q, lo, hi)))
    return ret(st, NONE)

@model('std::slice::get_mut')
def m_get_mut(I_, st, a, f, t):
    m = mref_of(I_, st, a[0])
    q = Q(I_, st, m); n = seq_len(q); i = I_.strip(st, a[1])
    if i.op == 'lin':
        if decide(st.fs, lt(i, n)): return ret(st, SOME(mk('mref', m.a[0], m.a[1] + (('i', i),))))
        return ret(st, NONE)
    lo, hi = rbounds(I_, st, i, n)
    if decide(st.fs, and_(le(lo, hi), le(hi, n))): return ret(st, SOME(mk('mref', m.a[0], m.a[1] + (('sub', lo, hi),))))
    return ret(st, NONE)

@model('std::slice::len', 'std::vec::Vec::len', 'std::str::len', 'std::string::String::len', 'std::collections::VecDeque::len')
def m_len(I_, st, a, f, t): return ret(st, seq_len(Q(I_, st, a[0])))

@model('std::slice::is_empty', 'std::vec::Vec::is_empty', 'std::str::is_empty', 'std::string::String::is_empty')
def m_is_empty(I_, st, a, f, t): return ret(st, eqi(seq_len(Q(I_, st, a[0])), I(0)))

@model('std::slice::first', 'std::slice::last', 'std::slice::first_mut', 'std::slice::last_mut')
def m_first(I_, st, a, f, t):
    q = Q(I_, st, a[0]); n = seq_len(q)
    if not decide(st.fs, gt(n, I(0))): return ret(st, NONE)
    i = I(0) if f['name'].startswith('first') else addc(n, -1)
    if f['name'].endswith('_mut'):
        m = mref_of(I_, st, a[0])
        return ret(st, SOME(mk('mref', m.a[0], m.a[1] + (('i', i),))))
    return ret(st, SOME(seq_at(st.fs, q, i)))

@model('std::slice::split_first', 'std::slice::split_last')
def m_split_first(I_, st, a, f, t):
    q = Q(I_, st, a[0]); n = seq_len(q)
    if not decide(st.fs, gt(n, I(0))): return ret(st, NONE)
    if f['name'] == 'split_first': return ret(st, SOME(TUP(seq_at(st.fs, q, I(0)), slice_seq(st.fs, q, I(1), n))))
    return ret(st, SOME(TUP(seq_at(st.fs, q, addc(n, -1)), slice_seq(st.fs, q, I(0), addc(n, -1)))))

@model('std::slice::split_at', 'std::str::split_at')
def m_split_at(I_, st, a, f, t):
    q = Q(I_, st, a[0]); n = seq_len(q); i = L(I_, st, a[1])
    st, out = guard(I_, st, le(i, n), 'split_at out of range', t)
    if st is not None and 'str' in f['path'].split('::')[1:2]:
        st, o = bounds_of_text(I_, st, q, (i,), t); out = out + o
    if st is None: return out
    return out + I_.fork(st, lambda s: ret(s, TUP(slice_seq(s.fs, q, I(0), i), slice_seq(s.fs, q, i, n))))

@model('std::slice::split_at_checked')
def m_split_at_c(I_, st, a, f, t):
    q = Q(I_, st, a[0]); n = seq_len(q); i = L(I_, st, a[1])
    if not decide(st.fs, le(i, n)): return ret(st, NONE)
    return ret(st, SOME(TUP(slice_seq(st.fs, q, I(0), i), slice_seq(st.fs, q, i, n))))

@model('std::slice::split_at_mut')
def m_split_at_mut(I_, st, a, f, t):
    m = mref_of(I_, st, a[0]); q = Q(I_, st, m); n = seq_len(q); i = L(I_, st, a[1])
    st, out = guard(I_, st, le(i, n), 'split_at out of range', t)
    if st is None: return out
    return out + ret(st, TUP(mk('mref', m.a[0], m.a[1] + (('sub', I(0), i),)), mk('mref', m.a[0], m.a[1] + (('sub', i, n),))))

@model('std::slice::split_first_chunk', 'std::slice::first_chunk', 'std::slice::last_chunk')
def m_first_chunk(I_, st, a, f, t):
    q = Q(I_, st, a[0]); n = seq_len(q)
    c = f.get('consts') or []
    c = [x for x in c if isinstance(x, int)]
    if not c: raise Unsupported('chunk const')
    c = c[0]
    if not decide(st.fs, ge(n, I(c))): return ret(st, NONE)
    if f['name'] == 'first_chunk': return ret(st, SOME(slice_seq(st.fs, q, I(0), I(c))))
    if f['name'] == 'last_chunk': return ret(st, SOME(slice_seq(st.fs, q, addc(n, -c), n)))
    return ret(st, SOME(TUP(slice_seq(st.fs, q, I(0), I(c)), slice_seq(st.fs, q, I(c), n))))

@model('std::slice::chunks', 'std::slice::chunks_exact', 'std::slice::windows', 'std::slice::chunks_mut', 'std::slice::chunks_exact_mut')
def m_chunks(I_, st, a, f, t):
    c = L(I_, st, a[1])
    st, out = guard(I_, st, gt(c, I(0)), 'chunk size zero', t)
    if st is None: return out
    k = {'chunks': 'Chunks', 'chunks_exact': 'ChunksExact', 'windows': 'Windows', 'chunks_mut': 'ChunksMut', 'chunks_exact_mut': 'ChunksExactMut'}[f['name']]
    if k.endswith('Mut'): return out + ret(st, IT(k, mref_of(I_, st, a[0]), I(0), c))
    return out + ret(st, IT(k, Q(I_, st, a[0]), I(0), c))

@model('std::slice::ChunksExact::remainder')
def m_remainder(I_, st, a, f, t):
    it = I_.strip(st, a[0]); q = it.a[2][0]; n = seq_len(q); c = cval(it.a[2][2])
    if c is None: raise Unsupported('remainder')
    # the remainder does not depend on the position
    return ret(st, slice_seq(st.fs, q, sub(n, rem_(n, c)), n))

@model('std::slice::split')
def m_split(I_, st, a, f, t): return ret(st, IT('Split', Q(I_, st, a[0]), I(0), a[1], FALSE))

@model('std::slice::to_vec', 'std::slice::into_vec', 'std::vec::Vec::as_slice', 'std::vec::Vec::into_boxed_slice', 'std::str::as_bytes', 'std::string::String::as_bytes',
       'std::string::String::into_bytes', 'std::string::String::as_str', 'std::slice::as_ref', 'std::array::as_slice', 'std::str::to_string', 'std::str::to_owned', 'std::slice::as_slice', 'std::array::map_id')
def m_ident_seq(I_, st, a, f, t): return ret(st, Q(I_, st, a[0]))

@model('std::vec::Vec::as_mut_slice', 'std::array::as_mut_slice', 'std::string::String::as_mut_vec')
def m_ident_mut(I_, st, a, f, t): return ret(st, a[0])

@model('std::slice::starts_with', 'std::slice::ends_with', 'std::str::starts_with')
def m_starts(I_, st, a, f, t):
    q = Q(I_, st, a[0]); r = Q(I_, st, a[1]); n = seq_len(q); m = seq_len(r)
    if not decide(st.fs, le(m, n)): return ret(st, FALSE)
    x = slice_seq(st.fs, q, I(0), m) if f['name'] == 'starts_with' else slice_seq(st.fs, q, sub(n, m), n)
    return ret(st, veq(I_, st, x, r))

@model('std::slice::contains')
def m_contains(I_, st, a, f, t):
    q = Q(I_, st, a[0]); x = I_.strip(st, a[1]); n = seq_len(q)
    st, alts, pan, b = under(I_, st, n, lambda s, j: ret(s, veq(I_, s, seq_at(s.fs, q, j), x)))
    c = or_(*[and_(cd, v) for cd, v in alts]) if alts else FALSE
    return pan + ret(st, exists(n, b, c))

def concat_seq(I_, st, q):
    """flatten a sequence of sequences"""
    out = []
    for s in q.a:
        if s[0] == 'r':
            v = I_.strip(st, s[1])
            if v.op == 'ite': raise Split(v.a[0])
            if v.op != 'seq': raise Unsupported('concat')
            if cval(s[2]) == 1: out += list(v.a); continue
            out.append(('f', s[2], 1 + max_bv(v), v))
        elif s[0] == 'c':
            if s[3].op not in ('seq', 'ite'): raise Unsupported('concat')
            out.append(('f', s[1], s[2], s[3]))
        elif s[0] == 's':
            k = 1
            e = elem_value(s[1], add(s[2], A(bv(k))))
            if e.op != 'seq': raise Unsupported('concat')
            out.append(('f', sub(s[3], s[2]), k, e))
        else: raise Unsupported('concat of flat')
    return ret(st, mkseq(out))

@model('std::slice::concat')
def m_concat(I_, st, a, f, t): return concat_seq(I_, st, Q(I_, st, a[0]))

@model('std::slice::join')
def m_join(I_, st, a, f, t):
    q = Q(I_, st, a[0])
    vs = []
    for s in q.a:
        if s[0] == 'r' and cval(s[2]) is not None: vs += [I_.strip(st, s[1])] * cval(s[2])
        elif s[0] == 'c' and cval(s[1]) is not None and cval(s[1]) <= 64: vs += [I_.strip(st, seq_at(st.fs, mkseq([s]), I(i))) for i in range(cval(s[1]))]
        else: raise Unsupported('join')
    if any(v.op != 'seq' for v in vs): raise Unsupported('join')
    sep = I_.strip(st, a[1])
    sep = sep if sep.op == 'seq' else S_unit(sep)
    r = EMPTY
    for i, v in enumerate(vs): r = cat(r, v) if i == 0 else cat(r, sep, v)
    return ret(st, r)

@model('std::vec::Vec::new', 'std::vec::Vec::with_capacity', 'std::string::String::new', 'std::string::String::with_capacity', 'std::collections::VecDeque::new')
def m_vnew(I_, st, a, f, t): return ret(st, EMPTY)

@model('std::vec::from_elem')
def m_from_elem(I_, st, a, f, t): return ret(st, S_rep(a[0], L(I_, st, a[1])))

@model('std::boxed::Box::new_uninit')
def m_box_uninit(I_, st, a, f, t): return ret(st, BOX(UNINIT))

@model('std::boxed::box_assume_init_into_vec_unsafe')
def m_box_vec(I_, st, a, f, t):
    v = I_.strip(st, a[0])
    if v.op != 'seq': raise Unsupported('vec! of ' + v.op)
    return ret(st, v)

@model('std::boxed::Box::new')
def m_box_new(I_, st, a, f, t): return ret(st, BOX(a[0]))

@model('std::vec::Vec::push', 'std::collections::VecDeque::push_back')
def m_push(I_, st, a, f, t):
    m = mref_of(I_, st, a[0]); q = Q(I_, st, m)
    x = a[1]
    if x.op == 'unk': raise Unsupported('push of unknown')
    I_.mwrite(st, m, cat(q, S_unit(x)))
    return ret(st, UNIT)

@model('std::vec::Vec::pop')
def m_pop(I_, st, a, f, t):
    m = mref_of(I_, st, a[0]); q = Q(I_, st, m); n = seq_len(q)
    if not decide(st.fs, gt(n, I(0))): return ret(st, NONE)
    x = seq_at(st.fs, q, addc(n, -1))
    I_.mwrite(st, m, slice_seq(st.fs, q, I(0), addc(n, -1)))
    return ret(st, SOME(x))

@model('std::vec::Vec::insert')
def m_insert(I_, st, a, f, t):
    m = mref_of(I_, st, a[0]); q = Q(I_, st, m); n = seq_len(q); i = L(I_, st, a[1])
    st, out = guard(I_, st, le(i, n), 'insertion index out of bounds', t)
    if st is None: return out
    def go(s):
        I_.mwrite(s, m, cat(slice_seq(s.fs, q, I(0), i), S_unit(a[2]), slice_seq(s.fs, q, i, n)))
        return ret(s, UNIT)
    return out + I_.fork(st, go)

@model('std::vec::Vec::remove', 'std::vec::Vec::swap_remove')
def m_remove(I_, st, a, f, t):
    m = mref_of(I_, st, a[0]); q = Q(I_, st, m); n = seq_len(q); i = L(I_, st, a[1])
    st, out = guard(I_, st, lt(i, n), 'removal index out of bounds', t)
    if st is None: return out
    def go(s):
        x = seq_at(s.fs, q, i)
        pre = slice_seq(s.fs, q, I(0), i)
        if f['name'] == 'remove': r = cat(pre, slice_seq(s.fs, q, addc(i, 1), n))
        elif decide(s.fs, eqi(i, addc(n, -1))): r = pre
        else: r = cat(pre, S_unit(seq_at(s.fs, q, addc(n, -1))), slice_seq(s.fs, q, addc(i, 1), addc(n, -1)))
        I_.mwrite(s, m, r)
        return ret(s, x)
    return out + I_.fork(st, go)

@model('std::vec::Vec::truncate')
def m_truncate(I_, st, a, f, t):
    m = mref_of(I_, st, a[0]); q = Q(I_, st, m); n = seq_len(q); i = L(I_, st, a[1])
    if decide(st.fs, lt(i, n)): I_.mwrite(st, m, slice_seq(st.fs, q, I(0), i))
    return ret(st, UNIT)

@model('std::vec::Vec::resize')
def m_resize(I_, st, a, f, t):
    m = mref_of(I_, st, a[0]); q = Q(I_, st, m); n = seq_len(q); i = L(I_, st, a[1])
    if decide(st.fs, lt(i, n)): I_.mwrite(st, m, slice_seq(st.fs, q, I(0), i))
    else: I_.mwrite(st, m, cat(q, S_rep(a[2], sub(i, n))))
    return ret(st, UNIT)

@model('std::vec::Vec::clear', 'std::string::String::clear')
def m_clear(I_, st, a, f, t):
    I_.mwrite(st, mref_of(I_, st, a[0]), EMPTY)
    return ret(st, UNIT)

@model('std::vec::Vec::split_off')
def m_split_off(I_, st, a, f, t):
    m = mref_of(I_, st, a[0]); q = Q(I_, st, m); n = seq_len(q); i = L(I_, st, a[1])
    st, out = guard(I_, st, le(i, n), 'split_off out of range', t)
    if st is None: return out
    def go(s):
        I_.mwrite(s, m, slice_seq(s.fs, q, I(0), i))
        return ret(s, slice_seq(s.fs, q, i, n))
    return out + I_.fork(st, go)

@model('std::vec::Vec::append')
def m_append(I_, st, a, f, t):
    m = mref_of(I_, st, a[0]); o = mref_of(I_, st, a[1])
    q = Q(I_, st, m); r = Q(I_, st, o)
    I_.mwrite(st, m, cat(q, r)); I_.mwrite(st, o, EMPTY)
    return ret(st, UNIT)

@model('std::vec::Vec::extend_from_slice', 'std::string::String::push_str', 'std::vec::Vec::extend_from_within')
def m_extend_slice(I_, st, a, f, t):
    m = mref_of(I_, st, a[0]); q = Q(I_, st, m)
    if f['name'] == 'extend_from_within':
        n = seq_len(q); lo, hi = rbounds(I_, st, a[1], n)
        st, out = guard(I_, st, and_(le(lo, hi), le(hi, n)), 'range out of bounds', t)
        if st is None: return out
        I_.mwrite(st, m, cat(q, slice_seq(st.fs, q, lo, hi)))
        return out + ret(st, UNIT)
    I_.mwrite(st, m, cat(q, Q(I_, st, a[1])))
    return ret(st, UNIT)

@model('std::iter::Extend::extend')
def m_extend(I_, st, a, f, t):
    m = mref_of(I_, st, a[0]); q = Q(I_, st, m)
    src = I_.strip(st, a[1])
    if src.op == 'seq':
        I_.mwrite(st, m, cat(q, src)); return ret(st, UNIT)
    def fn(s, x):
        I_.mwrite(s, m, cat(q, x)); return ret(s, UNIT)
    return each(I_, seq_of(I_, st, a[1]), fn)

@model('std::vec::Vec::splice')
def m_splice(I_, st, a, f, t):
    m = mref_of(I_, st, a[0]); q = Q(I_, st, m); n = seq_len(q)
    lo, hi = rbounds(I_, st, a[1], n)
    st, out = guard(I_, st, and_(le(lo, hi), le(hi, n)), 'splice range out of bounds', t)
    if st is None: return out
    def fn(s, x):
        old = slice_seq(s.fs, q, lo, hi)
        I_.mwrite(s, m, cat(slice_seq(s.fs, q, I(0), lo), x, slice_seq(s.fs, q, hi, n)))
        return ret(s, IT('Seq', old, I(0), seq_len(old)))
    src = I_.strip(st, a[2])
    return out + each(I_, ret(st, src) if src.op == 'seq' else seq_of(I_, st, a[2]), fn)

@model('std::vec::Vec::retain', 'std::vec::Vec::retain_mut')
def m_retain(I_, st, a, f, t):
    m = mref_of(I_, st, a[0]); q = Q(I_, st, m)
    def fn(s, x):
        I_.mwrite(s, m, x); return ret(s, UNIT)
    return each(I_, to_seq(I_, st, IT('Filter', IT('Seq', q, I(0), seq_len(q)), a[1])), fn)

@model('std::vec::Vec::dedup')
def m_dedup(I_, st, a, f, t):
    # an element stays unless it equals its predecessor (equality is an equivalence)
    m = mref_of(I_, st, a[0]); q = Q(I_, st, m); n = seq_len(q)
    b = bv(max_bv(q) + TMPBV + 41); h = bind(st.fs, b.a[0], n)
    if h is None: return ret(st, UNIT)
    x = seq_at(h, q, A(b)); y = seq_at(h, q, addc(A(b), -1))
    same = and_(ge(A(b), I(1)), veq(I_, st, x, y))
    I_.mwrite(st, m, flat(n, b, ite(same, EMPTY, S_unit(x))))
    return ret(st, UNIT)

@model('std::slice::copy_from_slice', 'std::slice::clone_from_slice')
def m_copy_from(I_, st, a, f, t):
    m = mref_of(I_, st, a[0]); q = Q(I_, st, m); r = Q(I_, st, a[1])
    st, out = guard(I_, st, eqi(seq_len(q), seq_len(r)), 'copy_from_slice length mismatch', t)
    if st is None: return out
    def go(s):
        I_.mwrite(s, m, r); return ret(s, UNIT)
    return out + I_.fork(st, go)

@model('std::slice::fill')
def m_fill(I_, st, a, f, t):
    m = mref_of(I_, st, a[0]); q = Q(I_, st, m)
    I_.mwrite(st, m, S_rep(a[1], seq_len(q)))
    return ret(st, UNIT)

@model('std::slice::reverse')
def m_reverse(I_, st, a, f, t):
    m = mref_of(I_, st, a[0]); q = Q(I_, st, m)
    def fn(s, x):
        I_.mwrite(s, m, x); return ret(s, UNIT)
    return each(I_, to_seq(I_, st, IT('Rev', IT('Seq', q, I(0), seq_len(q)))), fn)

@model('std::slice::swap')
def m_swap_el(I_, st, a, f, t):
    m = mref_of(I_, st, a[0]); q = Q(I_, st, m); n = seq_len(q); i, j = L(I_, st, a[1]), L(I_, st, a[2])
    st, out = guard(I_, st, and_(lt(i, n), lt(j, n)), 'index out of bounds', t)
    if st is None: return out
    def go(s):
        x, y = seq_at(s.fs, q, i), seq_at(s.fs, q, j)
        r = I_.setp(s, q, (('i', i),), y); r = I_.setp(s, r, (('i', j),), x)
        I_.mwrite(s, m, r); return ret(s, UNIT)
    return out + I_.fork(st, go)

@model('std::vec::Vec::reserve', 'std::vec::Vec::shrink_to_fit', 'std::mem::drop', 'std::mem::forget', 'std::vec::Vec::reserve_exact')
def m_noop(I_, st, a, f, t):
    if f['name'] == 'drop': return [(k, s, UNIT if k == 'ret' else v) for k, s, v in I_.drop_value(st, a[0])]
    return ret(st, UNIT)

@model('std::vec::Vec::capacity')
def m_cap(I_, st, a, f, t): raise Unsupported('capacity')

@model('std::array::map')
def m_array_map(I_, st, a, f, t): return to_seq(I_, st, IT('Map', into_iter(I_, st, Q(I_, st, a[0])), a[1]))

@model('std::array::from_fn')
def m_array_from_fn(I_, st, a, f, t):
    ty = dty(I_, t)
    return to_seq(I_, st, IT('Map', mk('struct', 'std::ops::Range', 0, (I(0), I(ty['len']))), a[0]))

# ---------------------------------------------------------------- identity-like conversions
@model('std::clone::Clone::clone', 'std::borrow::ToOwned::to_owned', 'std::ops::Deref::deref', 'std::convert::AsRef::as_ref', 'std::borrow::Borrow::borrow',
       'std::borrow::Cow::into_owned', 'std::hint::must_use', 'std::convert::identity', 'std::hint::black_box', 'std::sync::Arc::as_ref', 'std::ops::Deref::deref_')
def m_ident(I_, st, a, f, t):
    v = a[0]
    if f['name'] in ('clone', 'deref', 'as_ref', 'borrow', 'to_owned') and v.op in ('mref', 'ref', 'box'):
        v = I_.strip(st, v) if f['name'] != 'borrow' else I_.strip(st, v)
    return ret(st, v)

@model('std::ops::DerefMut::deref_mut', 'std::convert::AsMut::as_mut', 'std::borrow::BorrowMut::borrow_mut', 'std::pin::Pin::new', 'std::pin::Pin::new_unchecked', 'std::pin::Pin::as_mut',
       'std::pin::Pin::get_mut', 'std::pin::Pin::get_unchecked_mut', 'std::boxed::Box::pin', 'std::sync::Arc::new', 'std::rc::Rc::new', 'std::boxed::Box::into_pin')
def m_ident_ref(I_, st, a, f, t):
    v = a[0]
    if f['name'] in ('deref_mut', 'as_mut'):
        while v.op == 'mref':
            w = I_.mread(st, v)
            if w.op == 'mref': v = w
            elif w.op == 'box': v = mk('mref', v.a[0], v.a[1] + (('box',),)); break
            elif w.op == 'struct' and w.a[0] == 'guard': raise Unsupported('guard')
            else: break
    return ret(st, v)

def conv_int(I_, st, v, ty, t, fallible):
    x = L(I_, st, v) if not is_bool(I_.strip(st, v)) else A_(iteint(I_.strip(st, v), I(1), I(0)))
    lo, hi = int_rng(ty['bits'], ty['signed'])
    if not fallible: return ret(st, x)
    if decide(st.fs, and_(le(I(lo), x), le(x, I(hi)))): return ret(st, OK(x))
    return ret(st, ERR(OPQ(mk('uf', 'TryFromIntError'))))

@model('std::convert::From::from', 'std::convert::Into::into')
def m_from(I_, st, a, f, t):
    v = I_.strip(st, a[0]) if a[0].op != 'box' else a[0]
    ty = dty(I_, t)
    if ty is None: return ret(st, v)
    s = ty['s']
    if ty['k'] == 'int': return conv_int(I_, st, v, ty, t, False)
    if v.op in ('seq', 'ite'):
        if ty['k'] == 'adt' and (ty['path'] in SEQADT or ty['path'] in FIXED): return ret(st, v)
        if ty['k'] in ('array', 'slice', 'ref'): return ret(st, v)
        if ty['k'] == 'adt' and ty['path'] in ('std::sync::Arc', 'std::rc::Rc', 'std::borrow::Cow'): return ret(st, v)
        if ty['k'] == 'adt' and ty['path'] == 'std::boxed::Box': return ret(st, BOX(v))
    if s.startswith(OPT): return ret(st, SOME(v))
    if ty['k'] == 'adt' and ty['path'] in FIXED and v.op == 'lin':
        n = FIXED[ty['path']]
        return ret(st, S_units([byte_of(v, n - 1 - i) for i in range(n)]))
    at = I_.P.T[t['argtys'][0]]['s'] if t and t.get('argtys') else None
    if at == s: return ret(st, v)
    # into() through a local From impl
    if f['name'] == 'into':
        for k in I_.P.bodies:
            if k.endswith('::from') and '<' + clean(s) + ' as std::convert::From<' in clean(k) and clean(k).split('From<')[1].startswith(at or '\0'):
                return I_.call_body(st.copy(), I_.P.bodies[k], a, k)
    return ret(st, OPQ(mk('uf', 'from', mk('tag', s), v)))

@model('std::convert::TryFrom::try_from', 'std::convert::TryInto::try_into')
def m_try_from(I_, st, a, f, t):
    ty = dty(I_, t)
    ta = targs(ty['s'])
    i = I_.P.ts.get(ta[0])
    v = I_.strip(st, a[0])
    if i is None:
        m = INTS.get(ta[0])
        if m: return conv_int(I_, st, v, {'bits': m[0], 'signed': m[1]}, t, True)
        raise Unsupported('try_into ' + ta[0])
    tt = I_.P.T[i]
    if tt['k'] == 'ref': tt = I_.P.T[tt['to']]
    if tt['k'] == 'int': return conv_int(I_, st, v, tt, t, True)
    if tt['k'] == 'array':
        q = Q(I_, st, v)
        if decide(st.fs, eqi(seq_len(q), I(tt['len']))): return ret(st, OK(q))
        return ret(st, ERR(OPQ(mk('uf', 'TryFromSliceError'))))
    if tt['k'] == 'adt' and tt['path'].startswith('crate::'):
        # blanket TryInto -> local TryFrom impl
        src = I_.P.T[t['argtys'][0]]['s'] if t.get('argtys') else ''
        for k in I_.P.bodies:
            ck = clean(k)
            if ck.endswith('::try_from') and tt['s'] in ck and 'TryFrom' in ck and src in ck:
                return I_.call_body(st.copy(), I_.P.bodies[k], a, k)
    raise Unsupported('try_into ' + tt['s'])

# ---------------------------------------------------------------- comparisons
@model('std::cmp::PartialEq::eq')
def m_eq(I_, st, a, f, t): return eq_call(I_, st, a, f, t, False)
@model('std::cmp::PartialEq::ne')
def m_ne(I_, st, a, f, t): return eq_call(I_, st, a, f, t, True)

def eq_call(I_, st, a, f, t, neg):
    x, y = I_.strip(st, a[0]), I_.strip(st, a[1])
    # a hand-written PartialEq of the crate
    if x.op in ('struct', 'symenum'):
        p = x.a[0] if x.op == 'struct' else 'crate::' + x.a[1].split('<')[0]
        if p.startswith('crate::'):
            k = local_impl(I_, p[7:], 'std::cmp::PartialEq', 'eq')
            if k is not None and not I_.P.bodies[k].get('derived'):
                return [(kd, s, (not_(v) if neg else v) if kd == 'ret' else v) for kd, s, v in I_.call_body(st.copy(), I_.P.bodies[k], [x, y], k)]
    e = veq(I_, st, x, y)
    return ret(st, not_(e) if neg else e)

def local_impl(I_, selfs, trait, name):
    for im in I_.P.impls:
        if im['trait'] and clean(im['trait']).split('<')[0] == trait and clean(im['self']).split('<')[0] == selfs:
            for k in im['items']:
                if k.endswith('::' + name) and k in I_.P.bodies: return k
    return None

@model('std::cmp::PartialOrd::lt', 'std::cmp::PartialOrd::le', 'std::cmp::PartialOrd::gt', 'std::cmp::PartialOrd::ge')
def m_ord(I_, st, a, f, t):
    x, y = I_.strip(st, a[0]), I_.strip(st, a[1])
    n = f['name']
    if x.op == 'lin' and y.op == 'lin': return ret(st, {'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[n](x, y))
    if x.op == 'unk' or y.op == 'unk': raise Unsupported('comparison')
    return ret(st, batom(mk('uf', n, x, y)))

ORD = 'std::cmp::Ordering'
@model('std::cmp::Ord::cmp', 'std::cmp::PartialOrd::partial_cmp')
def m_cmp(I_, st, a, f, t):
    x, y = L(I_, st, a[0]), L(I_, st, a[1])
    if decide(st.fs, lt(x, y)): i = 0
    elif decide(st.fs, eqi(x, y)): i = 1
    else: i = 2
    v = mk('struct', ORD, i, ())
    return ret(st, v if f['name'] == 'cmp' else SOME(v))

@model('std::cmp::Ord::min', 'std::cmp::min', 'std::cmp::Ord::max', 'std::cmp::max')
def m_min(I_, st, a, f, t):
    x, y = L(I_, st, a[0]), L(I_, st, a[1])
    c = decide(st.fs, le(x, y))
    return ret(st, (x if c else y) if f['name'] == 'min' else (y if c else x))

@model('std::cmp::Ord::clamp')
def m_clamp(I_, st, a, f, t):
    x, lo, hi = (L(I_, st, v) for v in a)
    if decide(st.fs, lt(x, lo)): return ret(st, lo)
    if decide(st.fs, gt(x, hi)): return ret(st, hi)
    return ret(st, x)

@model('std::intrinsics::discriminant_value', 'std::mem::discriminant')
def m_discr(I_, st, a, f, t): return ret(st, I_.discr(st, I_.strip(st, a[0])))
@model('std::intrinsics::unreachable', 'std::hint::unreachable_unchecked')
def m_unreach(I_, st, a, f, t): return []

# ---------------------------------------------------------------- operators on references
def _op(name):
    def m(I_, st, a, f, t):
        x, y = I_.strip(st, a[0]), I_.strip(st, a[1])
        ty = t['dty'] if t else None
        if ty is None: raise Unsupported('operator type')
        if name in ('Add', 'Sub', 'Mul', 'Div', 'Rem') and x.op == 'lin' and y.op == 'lin':
            if name in ('Div', 'Rem'):
                st, out = guard(I_, st, not_(eqi(y, I(0))), 'division by zero', t)
                if st is None: return out
                return out + ret(st, I_.binop(st, name, x, y, ty))
            r = I_.binop(st, name + 'WithOverflow', x, y, ty)
            st, out = guard(I_, st, not_(r.a[2][1]), 'overflow: ' + name, t)
            if st is None: return out
            return out + ret(st, r.a[2][0])
        return ret(st, I_.binop(st, name, x, y, ty))
    return m
for tr, me, op in (('BitXor', 'bitxor', 'BitXor'), ('BitAnd', 'bitand', 'BitAnd'), ('BitOr', 'bitor', 'BitOr'), ('Add', 'add', 'Add'), ('Sub', 'sub', 'Sub'),
                   ('Mul', 'mul', 'Mul'), ('Div', 'div', 'Div'), ('Rem', 'rem', 'Rem'), ('Shl', 'shl', 'Shl'), ('Shr', 'shr', 'Shr')):
    TAB[f'std::ops::{tr}::{me}'] = _op(op)

def _opassign(name):
    def m(I_, st, a, f, t):
        mm = mref_of(I_, st, a[0]); x = I_.mread(st, mm); y = I_.strip(st, a[1])
        ty = I_.P.T[t['argtys'][0]]['to']
        if name in ('Add', 'Sub', 'Mul'):
            r = I_.binop(st, name + 'WithOverflow', x, y, ty)
            st, out = guard(I_, st, not_(r.a[2][1]), 'overflow: ' + name, t)
            if st is None: return out
            I_.mwrite(st, mm, r.a[2][0]); return out + ret(st, UNIT)
        I_.mwrite(st, mm, I_.binop(st, name, x, y, ty))
        return ret(st, UNIT)
    return m
for tr, me, op in (('BitXorAssign', 'bitxor_assign', 'BitXor'), ('BitAndAssign', 'bitand_assign', 'BitAnd'), ('BitOrAssign', 'bitor_assign', 'BitOr'),
                   ('AddAssign', 'add_assign', 'Add'), ('SubAssign', 'sub_assign', 'Sub'), ('MulAssign', 'mul_assign', 'Mul')):
    TAB[f'std::ops::{tr}::{me}'] = _opassign(op)
@model('std::ops::Not::not')
def m_not(I_, st, a, f, t):
    v = I_.strip(st, a[0])
    if is_bool(v): return ret(st, not_(v))
    b, s = I_.tint(t['dty'])
    return ret(st, sub(I(-1 if s else (1 << b) - 1), v))

# ---------------------------------------------------------------- integers
def itype(f):
    m = re.search(r'impl ([ui](?:8|16|32|64|128|size))>', f['path'])
    if not m: raise Unsupported('integer type of ' + f['path'])
    return INTS[m.group(1)]

def num(name):
    def d(fn): TAB['std::num::' + name] = fn; return fn
    return d

@num('to_be_bytes')
def n_tobe(I_, st, a, f, t):
    b, s = itype(f); x = L(I_, st, a[0])
    if s:
        lo, hi = lrange(x)
        if lo is None or lo < 0: x = unsigned(st, x, b)
    return ret(st, S_units([byte_of(x, b // 8 - 1 - i) for i in range(b // 8)]))

def unsigned(st, x, b):
    if st.fs.ent_le(scale(x, -1)): return x
    return rem_(x, 1 << b)

@num('to_le_bytes')
def n_tole(I_, st, a, f, t):
    b, s = itype(f); x = unsigned(st, L(I_, st, a[0]), b) if s else L(I_, st, a[0])
    return ret(st, S_units([byte_of(x, i) for i in range(b // 8)]))
@num('to_ne_bytes')
def n_tone(I_, st, a, f, t): return n_tole(I_, st, a, f, t)

def _from_bytes(I_, st, q, f, rev):
    b, s = itype(f); n = b // 8
    bs = [seq_at(st.fs, q, I(i)) for i in range(n)]
    if rev: bs.reverse()
    x = from_be(bs)
    if s: x = I_.wrap(st.fs, x, b, True)
    return ret(st, x)
@num('from_be_bytes')
def n_frombe(I_, st, a, f, t): return _from_bytes(I_, st, Q(I_, st, a[0]), f, False)
@num('from_le_bytes')
def n_fromle(I_, st, a, f, t): return _from_bytes(I_, st, Q(I_, st, a[0]), f, True)
@num('from_ne_bytes')
def n_fromne(I_, st, a, f, t): return _from_bytes(I_, st, Q(I_, st, a[0]), f, True)

def _arith(kind):
    for nm, fn in (('add', add), ('sub', sub), ('mul', mul)):
        def m(I_, st, a, f, t, fn=fn):
            b, s = itype(f); lo, hi = int_rng(b, s)
            x = fn(L(I_, st, a[0]), L(I_, st, a[1]))
            if kind == 'wrapping': return ret(st, I_.wrap(st.fs, x, b, s))
            inr = and_(le(I(lo), x), le(x, I(hi)))
            if kind == 'checked':
                return ret(st, SOME(x)) if decide(st.fs, inr) else ret(st, NONE)
            if kind == 'overflowing': return ret(st, TUP(I_.wrap(st.fs, x, b, s), not_(inr)))
            if decide(st.fs, le(x, I(hi))):
                return ret(st, x if decide(st.fs, ge(x, I(lo))) else I(lo))
            return ret(st, I(hi))
        TAB[f'std::num::{kind}_{nm}'] = m
for kk in ('wrapping', 'checked', 'saturating', 'overflowing'): _arith(kk)

@num('checked_div')
def n_cdiv(I_, st, a, f, t):
    y = L(I_, st, a[1])
    if decide(st.fs, eqi(y, I(0))): return ret(st, NONE)
    b, s = itype(f)
    if cval(y) is None or s: raise Unsupported('checked_div')
    return ret(st, SOME(div_(L(I_, st, a[0]), cval(y))))
@num('checked_rem')
def n_crem(I_, st, a, f, t):
    y = L(I_, st, a[1])
    if cval(y) is None or cval(y) <= 0: raise Unsupported('checked_rem')
    return ret(st, SOME(rem_(L(I_, st, a[0]), cval(y))))
@num('div_ceil')
def n_divceil(I_, st, a, f, t):
    c = cval(L(I_, st, a[1]))
    if not c or c < 0: raise Unsupported('div_ceil')
    return ret(st, div_(addc(L(I_, st, a[0]), c - 1), c))
@num('next_multiple_of')
def n_nmo(I_, st, a, f, t):
    c = cval(L(I_, st, a[1]))
    if not c or c < 0: raise Unsupported('next_multiple_of')
    return ret(st, scale(div_(addc(L(I_, st, a[0]), c - 1), c), c))
@num('is_multiple_of')
def n_imo(I_, st, a, f, t):
    c = cval(L(I_, st, a[1]))
    if not c or c < 0: raise Unsupported('is_multiple_of')
    return ret(st, eqi(rem_(L(I_, st, a[0]), c), I(0)))
@num('abs_diff')
def n_absdiff(I_, st, a, f, t):
    x, y = L(I_, st, a[0]), L(I_, st, a[1])
    return ret(st, sub(x, y) if decide(st.fs, ge(x, y)) else sub(y, x))
@num('swap_bytes')
def n_swapb(I_, st, a, f, t):
    b, s = itype(f); x = L(I_, st, a[0])
    return ret(st, from_be([byte_of(x, i) for i in range(b // 8)]))
@num('to_be')
def n_tobe1(I_, st, a, f, t): return n_swapb(I_, st, a, f, t)
@num('pow')
def n_pow(I_, st, a, f, t):
    x, y = cval(L(I_, st, a[0])), cval(L(I_, st, a[1]))
    if x is None or y is None: raise Unsupported('pow')
    return ret(st, I(x ** y))
@num('min_value')
def n_minv(I_, st, a, f, t): return ret(st, I(int_rng(*itype(f))[0]))
@num('max_value')
def n_maxv(I_, st, a, f, t): return ret(st, I(int_rng(*itype(f))[1]))

@model('std::default::Default::default')
def m_default(I_, st, a, f, t):
    ty = dty(I_, t)
    return ret(st, default(I_, ty))

def default(I_, ty):
    k = ty['k']
    if k == 'int': return I(0)
    if k == 'bool': return FALSE
    if k == 'array':
        return S_rep(default(I_, I_.P.T[ty['of']]), I(ty['len']))
    if k == 'adt':
        if ty['path'] in SEQADT: return EMPTY
        if ty['path'] == OPT: return NONE
        if 'PhantomData' in ty['path']: return mk('struct', ty['path'], 0, ())
    if k == 'tuple': return TUP(*[default(I_, I_.P.T[x]) for x in ty['args']])
    if k in ('ref',): return EMPTY
    raise Unsupported('default of ' + ty['s'])

# ---------------------------------------------------------------- Option / Result
def opt(name):
    def d(fn): TAB['std::option::Option::' + name] = fn; return fn
    return d
def res(name):
    def d(fn): TAB['std::result::Result::' + name] = fn; return fn
    return d

def isopt(f): return 'option::Option' in f['path']

def both_(name):
    def d(fn):
        TAB['std::option::Option::' + name] = fn; TAB['std::result::Result::' + name] = fn
        return fn
    return d

def good(f): return 1 if isopt(f) else 0

def own(I_, st, v):
    """enum value; references are looked through"""
    return I_.strip(st, v)

@both_('map')
def o_map(I_, st, a, f, t):
    i, v = variant(I_, st, a[0])
    if i != good(f): return ret(st, NONE if isopt(f) else ERR(payload(I_, v, 1)))
    return [(k, s, (SOME(x) if isopt(f) else OK(x)) if k == 'ret' else x) for k, s, x in I_.call_value(st, a[1], [payload(I_, v, i)])]

@res('map_err')
def r_map_err(I_, st, a, f, t):
    i, v = variant(I_, st, a[0])
    if i == 0: return ret(st, OK(payload(I_, v, 0)))
    return [(k, s, ERR(x) if k == 'ret' else x) for k, s, x in I_.call_value(st, a[1], [payload(I_, v, 1)])]

@both_('and_then')
def o_and_then(I_, st, a, f, t):
    i, v = variant(I_, st, a[0])
    if i != good(f): return ret(st, NONE if isopt(f) else ERR(payload(I_, v, 1)))
    return I_.call_value(st, a[1], [payload(I_, v, i)])

@both_('or_else')
def o_or_else(I_, st, a, f, t):
    i, v = variant(I_, st, a[0])
    if i == good(f): return ret(st, v if v.op == 'struct' else (SOME if isopt(f) else OK)(payload(I_, v, i)))
    return I_.call_value(st, a[1], [] if isopt(f) else [payload(I_, v, 1)])

@both_('or')
def o_or(I_, st, a, f, t):
    i, v = variant(I_, st, a[0])
    return ret(st, v if i == good(f) else a[1])
@both_('and')
def o_and(I_, st, a, f, t):
    i, v = variant(I_, st, a[0])
    return ret(st, a[1] if i == good(f) else v)

@both_('map_or')
def o_map_or(I_, st, a, f, t):
    i, v = variant(I_, st, a[0])
    if i != good(f): return ret(st, a[1])
    return I_.call_value(st, a[2], [payload(I_, v, i)])
@both_('map_or_else')
def o_map_or_else(I_, st, a, f, t):
    i, v = variant(I_, st, a[0])
    if i != good(f): return I_.call_value(st, a[1], [] if isopt(f) else [payload(I_, v, 1)])
    return I_.call_value(st, a[2], [payload(I_, v, i)])

@both_('unwrap_or')
def o_unwrap_or(I_, st, a, f, t):
    i, v = variant(I_, st, a[0])
    return ret(st, payload(I_, v, i) if i == good(f) else a[1])
@both_('unwrap_or_else')
def o_unwrap_or_else(I_, st, a, f, t):
    i, v = variant(I_, st, a[0])
    if i == good(f): return ret(st, payload(I_, v, i))
    return I_.call_value(st, a[1], [] if isopt(f) else [payload(I_, v, 1)])
@both_('unwrap_or_default')
def o_unwrap_or_default(I_, st, a, f, t):
    i, v = variant(I_, st, a[0])
    if i == good(f): return ret(st, payload(I_, v, i))
    return ret(st, default(I_, dty(I_, t)))

@both_('unwrap')
def o_unwrap(I_, st, a, f, t):
    i, v = variant(I_, st, a[0])
    if i == good(f):
        sp, fn = site(I_, t); I_.asserts.setdefault((fn, sp, 'unwrap'), 'discharged')
        return ret(st, payload(I_, v, i))
    return panic(I_, st, 'unwrap', t)
TAB['std::option::Option::expect'] = TAB['std::result::Result::expect'] = o_unwrap
@res('unwrap_err')
def r_unwrap_err(I_, st, a, f, t):
    i, v = variant(I_, st, a[0])
    if i == 1: return ret(st, payload(I_, v, 1))
    return panic(I_, st, 'unwrap_err', t)
TAB['std::result::Result::expect_err'] = r_unwrap_err

def isq(val):
    def m(I_, st, a, f, t):
        v = I_.strip(st, a[0])
        if v.op == 'symenum': return ret(st, eqi(I_.discr(st, v), I(val)))
        i, v = variant(I_, st, v)
        return ret(st, TRUE if i == val else FALSE)
    return m
TAB['std::option::Option::is_some'] = isq(1); TAB['std::option::Option::is_none'] = isq(0)
TAB['std::result::Result::is_ok'] = isq(0); TAB['std::result::Result::is_err'] = isq(1)

def isand(val, other):
    def m(I_, st, a, f, t):
        i, v = variant(I_, st, a[0])
        if i != val: return ret(st, TRUE if other else FALSE)
        return I_.call_value(st, a[1], [payload(I_, v, i)])
    return m
TAB['std::option::Option::is_some_and'] = isand(1, False); TAB['std::option::Option::is_none_or'] = isand(1, True)
TAB['std::result::Result::is_ok_and'] = isand(0, False); TAB['std::result::Result::is_err_and'] = isand(1, False)

@res('ok')
def r_ok(I_, st, a, f, t):
    i, v = variant(I_, st, a[0])
    return ret(st, SOME(payload(I_, v, 0)) if i == 0 else NONE)
@res('err')
def r_err(I_, st, a, f, t):
    i, v = variant(I_, st, a[0])
    return ret(st, SOME(payload(I_, v, 1)) if i == 1 else NONE)
@opt('ok_or')
def o_ok_or(I_, st, a, f, t):
    i, v = variant(I_, st, a[0])
    return ret(st, OK(payload(I_, v, 1)) if i == 1 else ERR(a[1]))
@opt('ok_or_else')
def o_ok_or_else(I_, st, a, f, t):
    i, v = variant(I_, st, a[0])
    if i == 1: return ret(st, OK(payload(I_, v, 1)))
    return [(k, s, ERR(x) if k == 'ret' else x) for k, s, x in I_.call_value(st, a[1], [])]
@opt('filter')
def o_filter(I_, st, a, f, t):
    i, v = variant(I_, st, a[0])
    if i == 0: return ret(st, NONE)
    x = payload(I_, v, 1)
    return each(I_, I_.call_value(st, a[1], [x]), lambda s, c: ret(s, SOME(x) if decide(s.fs, B(I_, s, c)) else NONE))
@opt('take')
def o_take(I_, st, a, f, t):
    m = mref_of(I_, st, a[0]); v = I_.mread(st, m); I_.mwrite(st, m, NONE)
    return ret(st, v)
@opt('replace')
def o_replace(I_, st, a, f, t):
    m = mref_of(I_, st, a[0]); v = I_.mread(st, m); I_.mwrite(st, m, SOME(a[1]))
    return ret(st, v)
@opt('insert')
def o_insert(I_, st, a, f, t):
    m = mref_of(I_, st, a[0]); I_.mwrite(st, m, SOME(a[1]))
    return ret(st, mk('mref', m.a[0], m.a[1] + (('d', 1), ('f', 0, None))))
@opt('zip')
def o_zip(I_, st, a, f, t):
    i, v = variant(I_, st, a[0]); j, w = variant(I_, st, a[1])
    return ret(st, SOME(TUP(payload(I_, v, 1), payload(I_, w, 1))) if i and j else NONE)
@both_('cloned')
def o_cloned(I_, st, a, f, t): return ret(st, I_.strip(st, a[0]))
for nm in ('copied', 'as_ref', 'as_deref', 'flatten_'): TAB['std::option::Option::' + nm] = TAB['std::result::Result::' + nm] = o_cloned
@both_('as_mut')
def o_as_mut(I_, st, a, f, t):
    m = mref_of(I_, st, a[0]); i, v = variant(I_, st, I_.mread(st, m))
    g = good(f)
    if i != g: return ret(st, NONE if isopt(f) else ERR(mk('mref', m.a[0], m.a[1] + (('d', 1), ('f', 0, None)))))
    if v.op != 'struct': I_.mwrite(st, m, mk('struct', OPT if isopt(f) else RES, i, (payload(I_, v, i),)))
    return ret(st, (SOME if isopt(f) else OK)(mk('mref', m.a[0], m.a[1] + (('d', i), ('f', 0, None)))))
TAB['std::option::Option::as_deref_mut'] = o_as_mut
@opt('flatten')
def o_flatten(I_, st, a, f, t):
    i, v = variant(I_, st, a[0])
    return ret(st, payload(I_, v, 1) if i else NONE)
@opt('transpose')
def o_transpose(I_, st, a, f, t):
    i, v = variant(I_, st, a[0])
    if i == 0: return ret(st, OK(NONE))
    j, w = variant(I_, st, payload(I_, v, 1))
    return ret(st, OK(SOME(payload(I_, w, 0))) if j == 0 else ERR(payload(I_, w, 1)))
@res('transpose')
def r_transpose(I_, st, a, f, t):
    i, v = variant(I_, st, a[0])
    if i == 1: return ret(st, SOME(ERR(payload(I_, v, 1))))
    j, w = variant(I_, st, payload(I_, v, 0))
    return ret(st, SOME(OK(payload(I_, w, 1))) if j == 1 else NONE)
@both_('inspect')
def o_inspect(I_, st, a, f, t):
    i, v = variant(I_, st, a[0])
    if i != good(f): return ret(st, v)
    return [(k, s, a[0] if k == 'ret' else x) for k, s, x in I_.call_value(st, a[1], [payload(I_, v, i)])]
@res('inspect_err')
def r_inspect_err(I_, st, a, f, t):
    i, v = variant(I_, st, a[0])
    if i == 0: return ret(st, v)
    return [(k, s, a[0] if k == 'ret' else x) for k, s, x in I_.call_value(st, a[1], [payload(I_, v, 1)])]

CF = 'std::ops::ControlFlow'
@model('std::ops::Try::branch')
def m_branch(I_, st, a, f, t):
    i, v = variant(I_, st, a[0])
    s = v.a[0] if v.op == 'struct' else (v.a[1] if v.op == 'symenum' else I_.P.T[t['argtys'][0]]['s'])
    if s.startswith(OPT):
        if i == 1: return ret(st, mk('struct', CF, 0, (payload(I_, v, 1),)))
        return ret(st, mk('struct', CF, 1, (NONE,)))
    if s.startswith(RES):
        if i == 0: return ret(st, mk('struct', CF, 0, (payload(I_, v, 0),)))
        return ret(st, mk('struct', CF, 1, (ERR(payload(I_, v, 1)),)))
    raise Unsupported('? on ' + s)

@model('std::ops::FromResidual::from_residual')
def m_residual(I_, st, a, f, t):
    v = I_.strip(st, a[0])
    if v.op != 'struct': raise Unsupported('residual')
    if v.a[0] == OPT: return ret(st, NONE)
    e = v.a[2][0]
    src = I_.P.T[t['argtys'][0]]; dst = dty(I_, t)
    es = targs(src['s']); ed = targs(dst['s'])
    if len(es) == 2 and len(ed) == 2 and es[1] != ed[1]:
        for k in I_.P.bodies:
            ck = clean(k)
            if ck.endswith('::from') and ck.startswith('<' + ed[1] + ' as std::convert::From<' + es[1] + '>'):
                return [(kd, s, ERR(x) if kd == 'ret' else x) for kd, s, x in I_.call_body(st.copy(), I_.P.bodies[k], [e], k)]
        return ret(st, ERR(OPQ(mk('uf', 'from', mk('tag', ed[1]), e))))
    return ret(st, ERR(e))

@model('std::ops::Try::from_output')
def m_from_output(I_, st, a, f, t):
    s = dty(I_, t)['s']
    return ret(st, SOME(a[0]) if s.startswith(OPT) else OK(a[0]))

@model('std::bool::then')
def m_then(I_, st, a, f, t):
    if decide(st.fs, B(I_, st, a[0])): return [(k, s, SOME(x) if k == 'ret' else x) for k, s, x in I_.call_value(st, a[1], [])]
    return ret(st, NONE)
@model('std::bool::then_some')
def m_then_some(I_, st, a, f, t): return ret(st, SOME(a[1]) if decide(st.fs, B(I_, st, a[0])) else NONE)

# ---------------------------------------------------------------- memory
@model('std::mem::replace')
def m_replace(I_, st, a, f, t):
    m = mref_of(I_, st, a[0]); v = I_.mread(st, m); I_.mwrite(st, m, a[1])
    return ret(st, v)
@model('std::mem::take')
def m_take(I_, st, a, f, t):
    m = mref_of(I_, st, a[0]); v = I_.mread(st, m); I_.mwrite(st, m, default(I_, dty(I_, t)))
    return ret(st, v)
@model('std::mem::swap')
def m_swap(I_, st, a, f, t):
    m, n = mref_of(I_, st, a[0]), mref_of(I_, st, a[1])
    x, y = I_.mread(st, m), I_.mread(st, n)
    I_.mwrite(st, m, y); I_.mwrite(st, n, x)
    return ret(st, UNIT)
@model('std::mem::size_of')
def m_size_of(I_, st, a, f, t):
    ty = I_.P.T[f['args'][0]]
    if ty['k'] == 'int': return ret(st, I(ty['bits'] // 8))
    if ty['k'] == 'array' and I_.P.T[ty['of']]['k'] == 'int': return ret(st, I(ty['len'] * I_.P.T[ty['of']]['bits'] // 8))
    raise Unsupported('size_of')

# ---------------------------------------------------------------- text
def TEXT(node): return S_atom(seqatom(node, None, U8))

@model('std::string::String::from_utf8', 'std::str::from_utf8')
def m_utf8(I_, st, a, f, t):
    q = Q(I_, st, a[0])
    if all(s[0] == 'r' and cval(s[1]) is not None and cval(s[1]) < 128 for s in q.a): return ret(st, OK(q))
    c = batom(mk('uf', 'utf8', q))
    if decide(st.fs, c): return ret(st, OK(q))
    return ret(st, ERR(OPQ(mk('uf', 'FromUtf8Error', q))))
@model('std::string::String::from_utf8_unchecked', 'std::str::from_utf8_unchecked')
def m_utf8u(I_, st, a, f, t): return ret(st, Q(I_, st, a[0]))
@model('std::string::String::from_utf8_lossy')
def m_utf8l(I_, st, a, f, t):
    q = Q(I_, st, a[0])
    if decide(st.fs, batom(mk('uf', 'utf8', q))): return ret(st, q)
    return ret(st, TEXT(mk('uf', 'lossy', q)))

# characters of a text: only their number is known; between a quarter of the octets and all of them
def charcount(st, q):
    n = seq_len(q)
    if cval(n) == 0: return st, I(0)
    a = mk('i', mk('uf', 'charcount', q)); set_rng(a, 0, LENMAX)
    c = A(a)
    st = st.assume(and_(le(c, n), le(n, scale(c, 4))))
    if st is not None and st.fs.bs.get(mk('uf', 'is_ascii', q)) is True: st = st.assume(eqi(c, n))
    return st, c

@model('std::str::chars', 'std::str::char_indices')
def m_chars(I_, st, a, f, t): return ret(st, mk('struct', 'iter:Chars', 0, (Q(I_, st, a[0]),)))

@model('std::str::is_ascii', 'std::slice::is_ascii')
def m_is_ascii(I_, st, a, f, t):
    q = Q(I_, st, a[0])
    if not decide(st.fs, batom(mk('uf', 'is_ascii', q))): return ret(st, FALSE)
    return ret(st, TRUE)

@model('std::str::trim', 'std::str::trim_end', 'std::str::trim_start', 'std::str::trim_matches', 'std::str::trim_end_matches', 'std::str::trim_start_matches')
def m_trim(I_, st, a, f, t):
    q = Q(I_, st, a[0])
    if cval(seq_len(q)) == 0: return ret(st, EMPTY)
    if all(s[0] == 'r' for s in q.a) or len(a) > 1 and f['name'] not in ('trim_matches', 'trim_end_matches', 'trim_start_matches'): raise Unsupported('trim')
    r = TEXT(mk('uf', f['name'], q, *a[1:]))
    st = st.assume(le(seq_len(r), seq_len(q)))
    return ret(st, r)

@model('std::str::to_lowercase', 'std::str::to_uppercase', 'std::str::to_ascii_lowercase', 'std::str::to_ascii_uppercase', 'std::slice::to_ascii_lowercase', 'std::slice::to_ascii_uppercase')
def m_case(I_, st, a, f, t):
    q = Q(I_, st, a[0])
    if cval(seq_len(q)) == 0: return ret(st, EMPTY)
    if all(s[0] == 'r' for s in q.a): raise Unsupported('case')
    r = TEXT(mk('uf', f['name'], q))
    if 'ascii' in f['name']: st = st.assume(eqi(seq_len(r), seq_len(q)))
    return ret(st, r)

@model('std::string::ToString::to_string')
def m_to_string(I_, st, a, f, t):
    v = I_.strip(st, a[0])
    if v.op == 'seq':
        ty = I_.P.T[t['argtys'][0]]
        s = ty['s'].lstrip('&')
        if s in ('str', 'std::string::String'): return ret(st, v)
    if v.op in ('struct', 'symenum'):
        p = v.a[0][7:] if v.op == 'struct' and v.a[0].startswith('crate::') else (v.a[1].split('<')[0] if v.op == 'symenum' else '')
        k = local_impl(I_, p, 'std::fmt::Display', 'fmt')
        if k: return display_local(I_, st, v, k)
    if v.op == 'unk': raise Unsupported('to_string')
    return ret(st, TEXT(mk('uf', 'to_string', v)))

def display_local(I_, st, v, k):
    """text a Display impl of the crate writes"""
    I_.fid += 1
    cell = ('fmt', I_.fid)
    s = st.copy(); s.cells[cell] = EMPTY
    out = []
    for kd, s2, x in I_.call_body(s, I_.P.bodies[k], [v, mk('mref', cell, ())], k):
        s2 = s2.copy(); txt = s2.cells.pop(cell, EMPTY)
        out.append((kd, s2, txt if kd == 'ret' else x))
    return out

@model('std::fmt::rt::Argument::new_display', 'std::fmt::rt::Argument::new_debug', 'std::fmt::rt::Argument::new_lower_hex', 'std::fmt::rt::Argument::new_upper_hex')
def m_fmtarg(I_, st, a, f, t): return ret(st, mk('struct', 'fmtarg:' + f['name'], 0, (I_.strip(st, a[0]),)))
@model('std::fmt::Arguments::new', 'std::fmt::Arguments::from_str', 'std::fmt::Arguments::new_const', 'std::fmt::Arguments::from_str_nonconst', 'std::fmt::Arguments::new_v1')
def m_fmtargs(I_, st, a, f, t):
    return ret(st, mk('struct', 'fmtargs', 0, tuple(I_.strip(st, x) for x in a)))
def template(a):
    """text of format arguments whose template holds only literal pieces and plain placeholders"""
    if len(a) != 2 or a[0].op != 'seq' or a[1].op != 'seq': return None
    bs = []
    for s in a[0].a:
        if s[0] != 'r' or cval(s[1]) is None or cval(s[2]) is None: return None
        bs += [cval(s[1])] * cval(s[2])
    args = []
    for s in a[1].a:
        if s[0] != 'r' or cval(s[2]) is None: return None
        args += [s[1]] * cval(s[2])
    out = []; i = 0; k = 0
    while i < len(bs):
        b = bs[i]; i += 1
        if b == 0: break
        if b < 0x80: out.append(S_units([I(x) for x in bs[i:i + b]])); i += b
        elif b == 0x80:
            n = bs[i] + 256 * bs[i + 1]; out.append(S_units([I(x) for x in bs[i + 2:i + 2 + n]])); i += 2 + n
        elif b >= 0xC0:
            spec = []
            for bit, w in ((1, 4), (2, 2), (4, 2)):
                if b & bit: spec.append(int.from_bytes(bytes(bs[i:i + w]), 'little')); i += w
                else: spec.append(-1)
            if b & 8: k = bs[i] + 256 * bs[i + 1]; i += 2
            if k >= len(args): return None
            x = args[k]; k += 1
            if b & 7:
                if b & 0x30 or x.op != 'struct' or not x.a[0].startswith('fmtarg:') or x.a[2][0].op == 'unk': return None
                out.append(TEXT(mk('uf', 'formatted', mk('tag', x.a[0][7:]), *[I(y) for y in spec], x.a[2][0])))
                continue
            if x.op != 'struct' or not x.a[0].startswith('fmtarg:'): return None
            v = x.a[2][0]
            if v.op == 'unk': return None
            if x.a[0] == 'fmtarg:new_display': out.append(v if v.op == 'seq' else TEXT(mk('uf', 'to_string', v)))
            else: out.append(TEXT(mk('uf', x.a[0][7:], v)))
        else: return None
    return cat(*out) if out else EMPTY

def fmt_text(I_, st, v):
    if v.op == 'struct' and v.a[0] == 'fmtargs':
        if len(v.a[2]) == 1 and v.a[2][0].op == 'seq': return v.a[2][0]
        x = template(v.a[2])
        if x is not None: return x
        return TEXT(mk('uf', 'format', *v.a[2]))
    return TEXT(mk('uf', 'format', v))
@model('std::fmt::format')
def m_format(I_, st, a, f, t): return ret(st, fmt_text(I_, st, I_.strip(st, a[0])))
@model('std::fmt::Formatter::write_fmt', 'std::fmt::Formatter::write_str', 'std::fmt::Write::write_fmt', 'std::fmt::Write::write_str', 'std::fmt::Formatter::pad')
def m_write_fmt(I_, st, a, f, t):
    v = I_.strip(st, a[1])
    x = fmt_text(I_, st, v) if f['name'] == 'write_fmt' else v
    if a[0].op == 'mref':
        m = mref_of(I_, st, a[0]); q = I_.mread(st, m)
        if q.op == 'seq' and x.op == 'seq': I_.mwrite(st, m, cat(q, x))
    st.ev = st.ev + (('write', x),)
    return ret(st, OK(UNIT))
def m_debug(I_, st, a, f, t):
    st.ev = st.ev + tuple(('write', I_.strip(st, x)) for x in a[1:] if x.op != 'unk')
    if f['name'] in ('debug_struct', 'debug_tuple', 'debug_list', 'field', 'entry', 'entries'):
        return ret(st, a[0])
    return ret(st, OK(UNIT))
for nm in ('Formatter::debug_struct', 'Formatter::debug_tuple', 'DebugStruct::field', 'DebugStruct::finish', 'DebugTuple::field', 'DebugTuple::finish', 'Formatter::debug_c_like_enum_write_str',
           'Formatter::debug_list', 'DebugStruct::finish_non_exhaustive'):
    TAB['std::fmt::' + nm] = m_debug
PREFIX.append(('std::fmt::Formatter::debug_', m_debug))
PREFIX.append(('std::fmt::builders::', m_debug))
PREFIX.append(('std::fmt::Debug', m_debug))
@model('std::fmt::Display::fmt', 'std::fmt::Debug::fmt')
def m_fmt(I_, st, a, f, t):
    st.ev = st.ev + (('write', I_.strip(st, a[0])),)
    if a[1].op == 'mref':
        m = mref_of(I_, st, a[1]); q = I_.mread(st, m)
        x = I_.strip(st, a[0])
        if q.op == 'seq': I_.mwrite(st, m, cat(q, x if x.op == 'seq' else TEXT(mk('uf', 'to_string', x))))
    return ret(st, OK(UNIT))
@model('std::io::_print', 'std::io::_eprint', 'std::io::stdio::_print', 'std::io::stdio::_eprint')
def m_print(I_, st, a, f, t):
    st.ev = st.ev + (('print', I_.strip(st, a[0])),)
    return ret(st, UNIT)
@model('log::__private_api::log')
def m_log(I_, st, a, f, t):
    st.ev = st.ev + (('log', TUP(*[I_.strip(st, x) for x in a])),)
    return ret(st, UNIT)
@model('log::__private_api::loc', 'log::max_level', 'log::__private_api::enabled')
def m_logx(I_, st, a, f, t):
    if f['name'] == 'enabled': return ret(st, batom(mk('uf', 'log_enabled')))
    return ret(st, OPQ(mk('uf', f['name'])))
@model('thiserror::__private::AsDisplay::as_display')
def m_as_display(I_, st, a, f, t): return ret(st, I_.strip(st, a[0]))

@model('std::rt::panic_fmt', 'std::rt::panic_display', 'std::rt::unreachable_display', 'std::panicking::panic_fmt', 'std::panicking::panic', 'std::panicking::panic_str', 'std::rt::begin_panic', 'std::panicking::panic_explicit', 'std::panicking::unreachable_display', 'std::panicking::panic_display',
       'std::panicking::assert_failed', 'std::panicking::panic_nounwind', 'std::option::unwrap_failed', 'std::option::expect_failed', 'std::result::unwrap_failed', 'std::panicking::panic_bounds_check')
def m_panic(I_, st, a, f, t):
    return panic(I_, st, 'explicit panic', t)

@model('num_enum::TryFromPrimitiveError::new')
def m_tfp(I_, st, a, f, t): return ret(st, OPQ(mk('uf', 'TryFromPrimitiveError')))

# ---------------------------------------------------------------- digests, randomness, addresses, time
def MD5(q):
    return S_atom(seqatom(mk('uf', 'md5', q), 16, U8))
@model('md5::compute')
def m_md5(I_, st, a, f, t): return ret(st, MD5(Q(I_, st, a[0])))
@model('openssl::hash::MessageDigest::md5')
def m_omd5(I_, st, a, f, t): return ret(st, OPQ(SYM('MessageDigest::md5')))
@model('openssl::hash::hash')
def m_ohash(I_, st, a, f, t):
    if not (a[0].op == 'opq' and a[0].a[0] is SYM('MessageDigest::md5')): raise Unsupported('digest kind')
    q = Q(I_, st, a[1])
    c = batom(mk('uf', 'digest_available', I(len([1 for e in st.ev if e[0] == 'digest']))))
    st.ev = st.ev + (('digest', q),)
    if decide(st.fs, c): return ret(st, OK(MD5(q)))
    return ret(st, ERR(OPQ(mk('uf', 'ErrorStack'))))

def RND(I_, st):
    n = mk('rnd', st.rc, *[A(bv(TMPBV + i)) for i in range(I_.bvd)])
    st.rc += 1
    return n
@model('rand::thread_rng', 'rand::rng', 'rand::rngs::OsRng')
def m_rng(I_, st, a, f, t): return ret(st, mk('struct', 'rng', 0, ()))
@model('rand::Rng::gen', 'rand::random', 'rand::Rng::random')
def m_gen(I_, st, a, f, t):
    return ret(st, I_.P.expand(RND(I_, st), t['dty']))
@model('rand::Rng::gen_range', 'rand::Rng::random_range', 'rand::Rng::gen_bool')
def m_gen_range(I_, st, a, f, t):
    if f['name'] == 'gen_bool': return ret(st, batom(RND(I_, st)))
    r = I_.strip(st, a[1]); lo, hi = rbounds(I_, st, r, None)
    v = I_.P.expand(RND(I_, st), t['dty'])
    if v.op == 'lin' and len(v.a[1]) == 1 and cval(lo) is not None and cval(hi) is not None and cval(lo) < cval(hi): set_rng(v.a[1][0][0], cval(lo), cval(hi) - 1)
    s = st.assume(and_(le(lo, v), lt(v, hi)))
    return ret(s, v) if s else []
@model('rand::RngCore::fill_bytes', 'rand::Rng::fill', 'rand::Rng::try_fill', 'rand::RngCore::try_fill_bytes')
def m_fill_bytes(I_, st, a, f, t):
    m = mref_of(I_, st, a[1]); q = Q(I_, st, m); n = seq_len(q)
    node = RND(I_, st)
    sa = seqatom(node, cval(n), U8)
    if cval(n) is None:
        s2 = st.assume(eqi(alen(sa), n))
        if s2 is None: return []
        st = s2
    I_.mwrite(st, m, mkseq([('s', sa, I(0), n)]))
    return ret(st, OK(UNIT) if f['name'].startswith('try') else UNIT)
@model('rand::RngCore::next_u32', 'rand::RngCore::next_u64')
def m_next_u32(I_, st, a, f, t): return ret(st, I_.P.expand(RND(I_, st), t['dty']))

# ---------------------------------------------------------------- durations (nanoseconds)
DUR = 'std::time::Duration'
UNIT_NS = {'from_secs': 10**9, 'from_millis': 10**6, 'from_micros': 10**3, 'from_nanos': 1, 'from_mins': 60 * 10**9, 'from_hours': 3600 * 10**9}
@model(*[DUR + '::' + x for x in UNIT_NS])
def m_dur(I_, st, a, f, t): return ret(st, scale(L(I_, st, a[0]), UNIT_NS[f['name']]))
@model(DUR + '::new')
def m_durnew(I_, st, a, f, t): return ret(st, add(scale(L(I_, st, a[0]), 10**9), L(I_, st, a[1])))
AS_NS = {'as_secs': 10**9, 'as_millis': 10**6, 'as_micros': 10**3, 'as_nanos': 1}
@model(*[DUR + '::' + x for x in AS_NS])
def m_duras(I_, st, a, f, t):
    k = AS_NS[f['name']]; x = L(I_, st, a[0])
    return ret(st, x if k == 1 else div_(x, k))
@model(DUR + '::subsec_nanos', DUR + '::subsec_micros', DUR + '::subsec_millis')
def m_dursub(I_, st, a, f, t):
    y = L(I_, st, a[0]); x = sub(y, scale(div_(y, 10**9), 10**9))
    k = {'subsec_nanos': 1, 'subsec_micros': 10**3, 'subsec_millis': 10**6}[f['name']]
    return ret(st, x if k == 1 else div_(x, k))
@model(DUR + '::is_zero')
def m_durz(I_, st, a, f, t): return ret(st, eqi(L(I_, st, a[0]), I(0)))
DUR_MAX = I((1 << 64) * 10**9 - 1)
def dur_arith(op, x, y):
    if op == 'add': return add(x, y)
    if op == 'sub': return sub(x, y)
    if op == 'mul': return mul(x, y)
    if op == 'div':
        if cval(y): return div_(x, cval(y))
    raise Unsupported('duration arithmetic')
@model('std::ops::Add::add', 'std::ops::Sub::sub', 'std::ops::Mul::mul', 'std::ops::Div::div')
def m_durop(I_, st, a, f, t):
    if not any('std::time::Duration' in (f.get(k) or '') for k in ('path', 'rpath')) and not ((dty(I_, t) or {}).get('path') == DUR): raise NoModel()
    v = dur_arith(f['name'], L(I_, st, a[0]), L(I_, st, a[1]))
    out = []
    ok = and_(ge(v, I(0)), le(v, DUR_MAX))
    s = st.assume(ok)
    if s is not None: out.append(('ret', s, v))
    s = st.assume(not_(ok))
    if s is not None: out.append(('panic', s, {'msg': 'overflow in duration arithmetic', 'at': (t or {}).get('sp'), 'in': f['path']}))
    return out
@model(*[DUR + '::' + p + '_' + o for p in ('saturating', 'checked') for o in ('add', 'sub', 'mul', 'div')])
def m_dursat(I_, st, a, f, t):
    p, o = f['name'].split('_')
    y = L(I_, st, a[1])
    if o == 'div' and cval(y) == 0: return ret(st, mk('struct', OPT, 0, ()))
    v = dur_arith(o, L(I_, st, a[0]), y)
    if decide(st.fs, lt(v, I(0))): return ret(st, I(0) if p == 'saturating' else mk('struct', OPT, 0, ()))
    if decide(st.fs, gt(v, DUR_MAX)): return ret(st, DUR_MAX if p == 'saturating' else mk('struct', OPT, 0, ()))
    return ret(st, v if p == 'saturating' else SOME(v))

# ---------------------------------------------------------------- addresses: opaque predicates, io errors
PREDS = ('is_loopback', 'is_unspecified', 'is_multicast', 'is_private', 'is_link_local', 'is_broadcast', 'is_documentation', 'is_unicast_link_local', 'is_unique_local')
@model(*[f'std::net::{c}::{p}' for c in ('IpAddr', 'Ipv4Addr', 'Ipv6Addr') for p in PREDS])
def m_ippred(I_, st, a, f, t):
    v = I_.strip(st, a[0])
    if v.op == 'ite': raise Split(v.a[0])
    if has_unknown(v): raise Unsupported('address')
    if v.op == 'seq' and f['name'] == 'is_unspecified': return ret(st, and_(*[eqi(seq_at(st.fs, v, I(i)), I(0)) for i in range(cval(seq_len(v)))]))
    if v.op == 'seq' and cval(seq_len(v)) == 4 and f['name'] == 'is_loopback': return ret(st, eqi(seq_at(st.fs, v, I(0)), I(127)))
    return ret(st, batom(mk('uf', f['name'], v.a[0] if v.op in ('opq', 'symenum') else v)))
@model('std::io::Error::kind')
def m_iokind(I_, st, a, f, t):
    v = I_.strip(st, a[0])
    if v.op != 'opq': raise Unsupported('error kind')
    return ret(st, I_.P.expand(mk('uf', 'kind', v.a[0]), t['dty']))
@model('std::io::Error::new', 'std::io::Error::other', 'std::io::Error::from')
def m_ionew(I_, st, a, f, t):
    return ret(st, OPQ(mk('uf', 'io_error', *[I_.strip(st, x) for x in a])))

@model('std::net::Ipv4Addr::octets', 'std::net::Ipv6Addr::octets')
def m_octets(I_, st, a, f, t): return ret(st, Q(I_, st, a[0]))
@model('std::net::Ipv4Addr::new')
def m_ip4new(I_, st, a, f, t): return ret(st, S_units([L(I_, st, x) for x in a]))
@model('std::net::Ipv6Addr::new')
def m_ip6new(I_, st, a, f, t): return ret(st, S_units([byte_of(L(I_, st, x), k) for x in a for k in (1, 0)]))
@model('std::net::Ipv6Addr::segments')
def m_ip6seg(I_, st, a, f, t):
    q = Q(I_, st, a[0])
    return ret(st, S_units([from_be([seq_at(st.fs, q, I(2 * i)), seq_at(st.fs, q, I(2 * i + 1))]) for i in range(8)]))
@model('std::net::Ipv4Addr::to_bits', 'std::net::Ipv6Addr::to_bits')
def m_ipbits(I_, st, a, f, t):
    q = Q(I_, st, a[0])
    return ret(st, from_be([seq_at(st.fs, q, I(i)) for i in range(cval(seq_len(q)))]))
@model('std::net::Ipv4Addr::from_bits', 'std::net::Ipv6Addr::from_bits')
def m_ipfrombits(I_, st, a, f, t):
    n = 4 if 'Ipv4' in f['path'] else 16
    x = L(I_, st, a[0])
    return ret(st, S_units([byte_of(x, n - 1 - i) for i in range(n)]))

TSMIN, TSMAX = -8334632851200 - 10, 8210298412799 + 10
@model('chrono::DateTime::timestamp')
def m_timestamp(I_, st, a, f, t):
    v = I_.strip(st, a[0])
    if v.op == 'struct' and v.a[0] == 'datetime': return ret(st, v.a[2][0])
    x = mk('i', mk('uf', 'timestamp', v)); set_rng(x, TSMIN, TSMAX)
    return ret(st, A(x))
@model('chrono::DateTime::timestamp_millis', 'chrono::DateTime::timestamp_micros')
def m_timestampm(I_, st, a, f, t):
    raise Unsupported('timestamp_millis')
def DT(x, ns): return mk('struct', 'datetime', 0, (x, ns))
LRES = 'chrono::LocalResult'
@model('chrono::TimeZone::timestamp_opt')
def m_timestamp_opt(I_, st, a, f, t):
    x, ns = L(I_, st, a[1]), L(I_, st, a[2])
    okc = and_(le(I(TSMIN + 10), x), le(x, I(TSMAX - 10)), lt(ns, I(2000000000)))
    ty = dty(I_, t)
    p = ty['path'] if ty and ty['k'] == 'adt' else LRES
    if decide(st.fs, okc): return ret(st, mk('struct', p, 0, (DT(x, ns),)))
    return ret(st, mk('struct', p, 2, ()))
@model('chrono::TimeZone::timestamp')
def m_timestamp_ctor(I_, st, a, f, t):
    x, ns = L(I_, st, a[1]), L(I_, st, a[2])
    okc = and_(le(I(TSMIN + 10), x), le(x, I(TSMAX - 10)), lt(ns, I(2000000000)))
    st, out = guard(I_, st, okc, 'timestamp out of range', t)
    return out + (ret(st, DT(x, ns)) if st else [])
@model('chrono::offset::LocalResult::unwrap', 'chrono::LocalResult::unwrap')
def m_lr_unwrap(I_, st, a, f, t):
    v = I_.strip(st, a[0])
    if v.op != 'struct': raise Unsupported('LocalResult')
    if v.a[1] == 0:
        sp, fn = site(I_, t); I_.asserts.setdefault((fn, sp, 'unwrap'), 'discharged')
        return ret(st, v.a[2][0])
    return panic(I_, st, 'unwrap of LocalResult', t)
@model('chrono::offset::LocalResult::single', 'chrono::LocalResult::single', 'chrono::offset::LocalResult::earliest', 'chrono::offset::LocalResult::latest')
def m_lr_single(I_, st, a, f, t):
    v = I_.strip(st, a[0])
    if v.op != 'struct': raise Unsupported('LocalResult')
    return ret(st, SOME(v.a[2][0]) if v.a[1] == 0 else NONE)
@model('chrono::DateTime::from_timestamp')
def m_from_ts(I_, st, a, f, t):
    x, ns = L(I_, st, a[0]), L(I_, st, a[1])
    okc = and_(le(I(TSMIN + 10), x), le(x, I(TSMAX - 10)), lt(ns, I(2000000000)))
    return ret(st, SOME(DT(x, ns)) if decide(st.fs, okc) else NONE)

def before_first(I_, s, q, pred):
    """the elements before the first one satisfying pred (all of them when there is none)"""
    n = known(s.fs, seq_len(q))
    t = bv(TMPBV + 910)
    s2 = s.assume(and_(le(I(0), A(t)), lt(A(t), n)))
    if s2 is None: return q
    c = pred(seq_at(s2.fs, q, A(t)))
    if not decide(s.fs, exists(n, t, c)): return q
    fi = first(n, t, c)
    s3 = s.assume(and_(le(I(0), fi), lt(fi, n)))
    return slice_seq(s3.fs, q, I(0), fi)
