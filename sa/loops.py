"""Loop summaries.

A loop is generalised to an arbitrary iteration J: every cell the body changes becomes a template
(entry value + stride * J, accumulator prefix ++ phi, or an unconstrained phi).  The body is analysed
once on the template; the template is weakened until the body maps iteration J to iteration J+1 (an
inductive invariant).  When only strides and accumulators remain the phis have closed forms
(flat[X(i) for i < J]) and the exits are exact; otherwise the exits keep the phis, restricted by
linear invariants found by elimination of candidates, which is enough for absence of panics and for
the step-by-step comparison with a specification loop (refine.py)."""
from terms import *
from facts import *
from seqops import *
import interp as IT_
from interp import *

_n = [0]

class Fail(Exception): pass

class Rec:
    """one summarised loop"""
    def __init__(self): self.id = None; self.kind = None; self.phis = {}; self.backs = []; self.entry = {}; self.where = None; self.invs = []

class Prob:
    def __init__(self, I_, st, body, where):
        self.I = I_; self.st = st; self.body = body; self.where = where
        _n[0] += 1
        self.id = _n[0]
        self.J = mk('J', self.id); set_rng(self.J, 0, LENMAX)
        self.phi = {}       # atom -> (kind, entry value)
        self.tpl = {}       # changed cell -> template
        self.np = 0

    def fresh(self, kind, entry, fixed=None, ety=U8):
        self.np += 1
        n = mk('phi', self.id, self.np)
        self.phi[n] = (kind, entry)
        return n

def has(n, x): return x in fv(n)

def weaken(p, tpl, back, fs):
    """smallest weakening of the template that also covers the value after one more iteration"""
    J = p.J
    if tpl is back and not has(tpl, J): return tpl
    if tpl.op == 'unk' or back.op == 'unk': raise Fail('unknown value')
    nxt = subst(tpl, {J: addc(A(J), 1)})
    if nxt is back: return tpl
    # a havocked leaf covers everything
    if is_phi(tpl): return tpl
    if tpl.op == 'lin' and back.op == 'lin':
        if fs.ent_eq(sub(nxt, back)): return tpl
        if not has(tpl, J):
            d = sub(back, tpl)
            if cval(d) is not None and not (fv(tpl) & set(p.phi)): return add(tpl, scale(A(J), cval(d)))
        n = p.fresh('int', subst(tpl, {J: I(0)}))
        a = mk('i', n)
        lo, hi = widen_rng(lrange(tpl), lrange(back))
        set_rng(a, lo, hi)
        return A(a)
    if is_bool(tpl) and is_bool(back):
        n = p.fresh('bool', subst(tpl, {J: I(0)}))
        return batom(n)
    if tpl.op == 'struct' and back.op == 'struct' and tpl.a[:2] == back.a[:2] and len(tpl.a[2]) == len(back.a[2]):
        return mk('struct', tpl.a[0], tpl.a[1], tuple(weaken(p, x, y, fs) for x, y in zip(tpl.a[2], back.a[2])))
    if tpl.op == 'box' and back.op == 'box': return mk('box', weaken(p, tpl.a[0], back.a[0], fs))
    if tpl.op == 'seq' and back.op == 'seq': return weaken_seq(p, tpl, back, fs)
    raise Fail('cannot generalise ' + tpl.op + '/' + back.op)

def widen_rng(a, b):
    lo = None if None in (a[0], b[0]) else min(a[0], b[0])
    hi = None if None in (a[1], b[1]) else max(a[1], b[1])
    if lo is not None and lo >= 0:
        for w in (8, 16, 32, 64):
            if hi is not None and hi < (1 << w): return 0, (1 << w) - 1
        return 0, None
    return None, None

def is_phi(t):
    if t.op == 'lin': return t.a[0] == 0 and len(t.a[1]) == 1 and t.a[1][0][1] == 1 and t.a[1][0][0].op == 'i' and t.a[1][0][0].a[0].op == 'phi'
    if t.op == 'b': return t.a[0].op == 'phi'
    if t.op == 'seq':
        if len(t.a) != 1 or t.a[0][0] != 's': return False
        s = t.a[0]
        return s[1].a[0].op == 'phi' and cval(s[2]) == 0 and s[3] is alen(s[1])
    return False

def weaken_seq(p, tpl, back, fs):
    J = p.J
    nxt = subst(tpl, {J: addc(A(J), 1)})
    if eq_seq(fs, nxt, back): return tpl
    x, y = list(tpl.a), list(back.a)
    acc = acc_phi(p, tpl)
    if acc is not None:
        # base ++ phi: any back value base ++ phi ++ X is fine
        if y[:len(x)] == x or prefix_of(fs, tpl, back) is not None: return tpl
    elif len(x) == 1 and x[0][0] == 's' and (len(y) == 1 and y[0][0] == 's' and y[0][1] is x[0][1]):
        a = weaken(p, x[0][2], y[0][2], fs); b = weaken(p, x[0][3], y[0][3], fs)
        return mkseq([('s', x[0][1], a, b)])
    elif len(x) == 1 and x[0][0] == 's' and not y:
        # a slice that became empty: keep the end, move the start
        raise Fail('slice emptied')
    elif not (fv(tpl) & {J}) and (y[:len(x)] == x or not x):
        n = p.fresh('acc', EMPTY)
        ety = seq_ety(mkseq(y[len(x):])) or seq_ety(back) or U8
        e = elem_type(back, p)
        return cat(tpl, S_atom(seqatom(n, None, e)))
    l0, l1 = seq_len(tpl), seq_len(back)
    fixed = cval(l0) if cval(l0) is not None and cval(l0) == cval(l1) else None
    n = p.fresh('seq', subst(tpl, {J: I(0)}))
    return S_atom(seqatom(n, fixed, elem_type(back if back.a else tpl, p)))

def elem_type(q, p):
    for s in q.a:
        if s[0] == 's': return s[1].a[2]
        if s[0] == 'f':
            if s[3].op == 'seq': return elem_type(s[3], p)
        v = s[1] if s[0] == 'r' else s[3]
        if v.op == 'lin':
            lo, hi = lrange(v)
            return U8 if lo is not None and hi is not None and 0 <= lo and hi <= 255 else ('int', 128, True)
        if v.op == 'struct' and v.a[0].startswith('crate::'): return ('ty', v.a[0][7:])
        if v.op == 'seq': return ('ty', 'std::vec::Vec<u8>')
        return ('ty', '?')
    return U8

def acc_phi(p, q):
    if q.op == 'seq' and q.a and q.a[-1][0] == 's' and q.a[-1][1].a[0].op == 'phi' and p.phi.get(q.a[-1][1].a[0], ('',))[0] == 'acc':
        return q.a[-1][1]
    return None

def prefix_of(fs, a, b):
    """b = a ++ X: returns X or None"""
    x, y = list(a.a), list(b.a)
    while x and y and x[0] == y[0]: x.pop(0); y.pop(0)
    if x: return None
    return mkseq(y)

def generalise(p):
    I_, st = p.I, p.st
    base = st.copy()
    saved = dict(I_.asserts)
    outs = p.body(base.copy())
    rounds = 0
    while True:
        rounds += 1
        if rounds > 12: raise Fail('no invariant')
        backs = [s for k, s, v in outs if k == 'back']
        if not backs:
            return None, outs, base
        stable = True
        for s in backs:
            if s.taint and not p.st.taint: raise Fail('taint: ' + str(s.taint))
            if s.rc != p.st.rc: raise Fail('randomness in a loop')
            if s.ev != p.st.ev: raise Fail('events in a loop')
            for c in p.st.cells:
                cur = p.tpl.get(c, p.st.cells[c])
                if c not in s.cells: raise Fail('cell moved')
                v = s.cells[c]
                if c not in p.tpl and v is cur: continue
                w = weaken(p, cur, v, s.fs)
                if w is not p.tpl.get(c): p.tpl[c] = w; stable = False
        if stable: return backs, outs, g
        g = p.st.copy()
        for c, t in p.tpl.items(): g.cells[c] = t
        g = g.assume(ge(A(p.J), I(0))) or g
        invs = []
        while True:
            h = g
            for f in invs:
                h2 = h.assume(f)
                if h2 is None: raise Fail('invariant')
                h = h2
            I_.asserts = dict(saved)
            outs = p.body(h.copy())
            new = infer(p, h, outs, invs)
            if new == invs: break
            invs = new
        g = h
        p.invs = invs

def phi_values(p, s):
    """value of each int phi after a back edge: by walking template and back value together"""
    m = {}
    def go(t, v):
        if is_phi(t):
            if t.op == 'lin': m[t.a[1][0][0]] = v
            return
        if t.op != v.op: return
        if t.op == 'struct':
            for x, y in zip(t.a[2], v.a[2]): go(x, y)
        elif t.op == 'box': go(t.a[0], v.a[0])
        elif t.op == 'seq' and len(t.a) == 1 and len(v.a) == 1 and t.a[0][0] == v.a[0][0] == 's' and t.a[0][1] is v.a[0][1]:
            go(t.a[0][2], v.a[0][2]); go(t.a[0][3], v.a[0][3])
    for c, t in p.tpl.items():
        if c in s.cells: go(t, s.cells[c])
    return m

def infer(p, g, outs, invs):
    """linear invariants over J and the integer phis: keep what is inductive, add what the guards suggest"""
    J = p.J
    atoms = {J} | {a for t in p.tpl.values() for a in int_phis(t) if a.a[0] in p.phi}
    backs = [s for k, s, v in outs if k == 'back']
    entry = {J: I(0)}
    for a in atoms:
        if a is not J: entry[a] = p.phi[a.a[0]][1]
    def ind(f):
        if not p.st.fs.ent(subst(f, entry)): return False
        for s in backs:
            m = phi_values(p, s); m[J] = addc(A(J), 1)
            for a in atoms:
                if a not in m: return False
            if not s.fs.ent(subst(f, m)): return False
        return True
    cand = set(invs)
    gs = set(g.fs.formulas())
    lens = set()
    for t in list(p.st.cells.values()): scan_lens(t, lens, 0)
    for a in atoms:
        if a is not J:
            e = entry[a]
            cand.add(le(e, A(a)))
            for l in lens:
                if not (fv(l) & set(p.phi)): cand.add(le(A(a), l))
    for s in backs:
        for f in set(s.fs.formulas()) - gs:
            if f.op == 'le' and any(x in atoms for x, _ in f.a[0].a[1]):
                for d in (-1, 0):
                    cand.add(le0(addc(f.a[0], d)))
                # J < n on the back edge: J <= n at the header
                for x, k in f.a[0].a[1]:
                    if x in atoms: cand.add(le0(addc(f.a[0], -abs(k))))
    cand = {f for f in cand if f not in (TRUE, FALSE)}
    return sorted(f for f in cand if f in invs or ind(f))

def int_phis(t):
    return [x for x in _iatoms(t)]

def _iatoms(t, seen=None):
    r = set()
    def go(n, d):
        if d > 8: return
        if n.op == 'lin':
            for a, _ in n.a[1]:
                if a.op == 'i' and a.a[0].op == 'phi': r.add(a)
            return
        from terms import _children
        for c in _children(n): go(c, d + 1)
    go(t, 0)
    return r

def scan_lens(v, out, d):
    if d > 5: return
    if v.op == 'seq': out.add(seq_len(v))
    if v.op == 'struct':
        for x in v.a[2]: scan_lens(x, out, d + 1)
    elif v.op in ('box', 'ref'): scan_lens(v.a[0], out, d + 1)

def summarise_(I_, st, body, where):
    """outcomes of a loop: [(kind, state, value)] with kind in exit/ret/panic/..., or None"""
    p = Prob(I_, st, body, where)
    try:
        backs, outs, g = generalise(p)
    except Fail as e:
        I_.loops.append((where, 'unrolled: ' + str(e)))
        return None
    except RecursionError:
        return None
    if backs is None:
        return outs         # the body never comes back: straight-line
    finals = [o for o in outs if o[0] != 'back']
    J = p.J
    kinds = {k for k, _ in p.phi.values()}
    live = set()
    for t in p.tpl.values(): live |= fv(t) & set(p.phi)
    I_.sums.append((where, p, g, backs))
    closed = all(p.phi[n][0] == 'acc' for n in live)
    if closed:
        try:
            r = close_form(p, g, backs, finals, live)
            I_.loops.append((where, 'closed form'))
            return r
        except Fail as e:
            pass
    rec = Rec(); rec.id = p.id; rec.where = where; rec.J = J; rec.prob = p; rec.g = g; rec.backs = backs; rec.live = live
    rec.entry = {n: p.phi[n][1] for n in live}
    rec.stack = list(I_.stack)
    I_.recs.append(rec)
    I_.loops.append((where, 'inductive invariant'))
    out = []
    for k, s, v in finals:
        s = s.copy(); s.trace = s.trace + (p.id,)
        out.append((k, s, v))
    return out

def guards(g, s):
    return and_(*sorted(set(s.fs.formulas()) - set(g.fs.formulas())))

def close_form(p, g, backs, finals, live):
    import models
    I_ = p.I; J = p.J
    b = bv(models.TMPBV + 500 + p.id % 400)
    at = {J: A(b)}
    # per accumulator: appended sequence per back edge
    G = [guards(g, s) for s in backs]
    for f in G:
        if fv(f) & live: raise Fail('guard depends on the accumulator')
    X = {}
    for c, t in p.tpl.items():
        for sa in accs(p, t):
            vals = []
            for s in backs:
                v = locate(p, t, s.cells[c], sa)
                if v is None or fv(v) & live: raise Fail('accumulator')
                vals.append(v)
            X[sa] = vals
    common = None
    if len(G) > 1:
        parts = [set(f.a) if f.op == 'and' else {f} for f in G]
        common = set.intersection(*parts)
        D = [and_(*sorted(x - common)) for x in parts]
    else: D = [TRUE]
    cond = and_(and_(*sorted(common)) if common else TRUE, or_(*D) if len(G) > 1 else G[0])
    def closed_to(n):
        m = {}
        for sa, vals in X.items():
            v = vals[-1]
            for f, w in list(zip(D, vals))[-2::-1]: v = mk_ite(f, w, v)
            q = models.flat(n, b, subst(v, at)) if v is not EMPTY else EMPTY
            m[sa] = q
        return m
    # facts about all earlier iterations
    out = []
    for k, s, v in finals:
        fs = s.fs
        n = A(J)
        m = {}
        # J determined?
        for f in list(fs.formulas()):
            if f.op == 'le':
                co = dict(f.a[0].a[1]).get(J)
                if co in (1, -1):
                    e = scale(Lin(f.a[0].a[0], [(a, c) for a, c in f.a[0].a[1] if a is not J]), -co)
                    if J not in fv(e) and fs.ent_eq(sub(A(J), e)): n = e; break
        if n is not A(J): m[J] = n
        # universally quantified guard
        gg = and_(*[f for f in (cond.a if cond.op == 'and' else (cond,))])
        neg = subst(not_(gg), at)
        s = s.copy()
        h = s.fs
        u = h.assume(and_(ge(A(b), I(0)), lt(A(b), A(J))))
        nb = FALSE if u is None else u.simp(neg)
        if nb is not FALSE:
            e = models.exists(A(J), b, nb)
            s2 = s.assume(not_(e))
            if s2 is None: continue
            s = s2
        m2 = {}
        for sa, q in closed_to(A(J)).items(): m2[sa] = q
        s = subst_state(s, m2, live)
        if s is None: continue
        v = subst(v, m2) if isinstance(v, N) else v
        if m:
            s = subst_state(s, m, ())
            if s is None: continue
            v = subst(v, m) if isinstance(v, N) else v
        out.append((k, s, v))
    return out

def mk_ite(c, a, b):
    return ite(c, a, b)

def accs(p, t):
    r = []
    def go(n, d=0):
        a = acc_phi(p, n) if n.op == 'seq' else None
        if a is not None: r.append(a); return
        if n.op == 'struct' and d < 6:
            for x in n.a[2]: go(x, d + 1)
        elif n.op in ('box',): go(n.a[0], d + 1)
    go(t)
    return r

def locate(p, t, v, sa):
    """what was appended to the accumulator sa"""
    if t.op == 'seq' and acc_phi(p, t) is sa:
        return prefix_of(None, t, v)
    if t.op == 'struct' and v.op == 'struct':
        for x, y in zip(t.a[2], v.a[2]):
            if sa in accs(p, x): return locate(p, x, y, sa)
    if t.op == 'box': return locate(p, t.a[0], v.a[0], sa)
    return None

def subst_ev(e, m, memo):
    if isinstance(e, N): return subst(e, m, memo)
    if isinstance(e, tuple): return tuple(subst_ev(x, m, memo) for x in e)
    return e

def subst_state(s, m, live):
    memo = {}
    s = s.copy()
    for c, v in list(s.cells.items()):
        w = subst(v, m, memo)
        if w is not v: s.cells[c] = w
    fs = s.fs.subst(m)
    if fs is None: return None
    s.fs = fs
    s.ev = tuple(subst_ev(e, m, memo) for e in s.ev)
    return s

def summarise(I_, fr, header, st):
    region = fr.cfg.loops[header]
    def body(s):
        I_.prune(fr, header, s)
        s.cells = {c: v for c, v in s.cells.items()}
        res = I_.run(fr, header, [s], region, header)
        out = []
        for k, s2, v in res:
            if k == 'back': I_.prune(fr, header, s2)
            out.append((k, s2, v))
        return out
    st = st.copy()
    I_.prune(fr, header, st)
    r = summarise_(I_, st, body, (fr.key, header))
    if r is None: return None
    return [(('edge' if k == 'exit' else k), s, v) for k, s, v in r]

# ---------------------------------------------------------------- internal iteration (fold, for_each, ...)
def it_loop(I_, st, it, name, a, t):
    import models
    I_.fid += 1
    ci = ('itl', I_.fid, 'it'); ca = ('itl', I_.fid, 'acc'); cf = ('itl', I_.fid, 'f')
    st = st.copy()
    st.cells[ci] = it
    if name in ('fold', 'try_fold'): st.cells[ca] = a[1]; f = a[2]
    else: st.cells[ca] = UNIT; f = a[1]
    fm = I_.strip(st, f)
    st.cells[cf] = fm
    def finish(s, v):
        s = s.copy()
        for c in (ci, ca, cf): s.cells.pop(c, None)
        return ('ret', s, v)
    def body(s):
        out = []
        def nxt(s1): return models.it_next(I_, s1, s1.cells[ci])
        for k, s1, r in I_.fork(s, nxt):
            if k != 'ret': out.append((k, s1, r)); continue
            x, ni = r
            s1 = s1.copy(); s1.cells[ci] = ni
            if x is None:
                v = s1.cells[ca]
                if name == 'try_fold' or name == 'try_for_each': v = wrap_try(I_, t, v)
                out.append(('exit', s1, v)); continue
            args = [s1.cells[ca], x] if name in ('fold', 'try_fold') else [x]
            for k2, s2, v in I_.call_value(s1, mk('mref', cf, ()), args):
                if k2 != 'ret': out.append((k2, s2, v)); continue
                s2 = s2.copy()
                if name == 'fold': s2.cells[ca] = v; out.append(('back', s2, None))
                elif name == 'for_each': out.append(('back', s2, None))
                else:
                    def go(s3, v=v):
                        i, vv = models.variant(I_, s3, v)
                        p = vv.a[0] if vv.op == 'struct' else None
                        good = (i == 0) if is_res(v) else (i == 1)
                        if good:
                            s3 = s3.copy(); s3.cells[ca] = models.payload(I_, vv, i); return [('back', s3, None)]
                        return [('exit', s3, vv)]
                    out += I_.fork(s2, go)
        return out
    if name not in ('fold', 'for_each', 'try_fold', 'try_for_each'): raise Unsupported('iterator ' + name)
    r = summarise_(I_, st, body, (I_.stack[-1] if I_.stack else '?', name)) if I_.mode == 'fix' else None
    if r is None: r = peel_(I_, st, body)
    return [finish(s, v) if k == 'exit' else (k, s, v) for k, s, v in r]

def is_res(v):
    if v.op == 'struct': return v.a[0] == RES
    if v.op == 'symenum': return v.a[1].startswith(RES)
    return False

def wrap_try(I_, t, v):
    s = I_.P.s(t['dty']) if t else ''
    return SOME(v) if s.startswith(OPT) else OK(v)

def peel_(I_, st, body):
    outs = []; cur = [(st, 0)]; n = 0
    while cur:
        n += 1
        if n > 400:
            I_.cuts += len(cur); outs += [('cut', s, 'loop') for s, c in cur]; break
        nxt = []
        for s, c in cur:
            res = body(s.copy())
            others = [x for x in res if x[0] != 'back']; backs = [x for x in res if x[0] == 'back']
            forced = not others and len(backs) == 1
            outs += others
            for _, s2, _ in backs:
                c2 = c if forced else c + 1
                if c2 >= I_.K: I_.cuts += 1; outs.append(('cut', s2, 'loop'))
                else: nxt.append((s2, c2))
        if len(nxt) > 64:
            I_.cuts += len(nxt) - 64; outs += [('cut', s, 'loop') for s, c in nxt[64:]]; nxt = nxt[:64]
        cur = nxt
    return outs
