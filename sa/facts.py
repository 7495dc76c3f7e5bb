"""Path facts: linear constraints over atoms, disequalities and boolean atoms, with entailment by
integer-tightened Fourier-Motzkin elimination.  No external solver."""
from math import gcd
from terms import *

FM_CAP = 350

class Stats:
    queries = 0
    fm = 0
    capped = 0

def _con(l):
    return (dict(l.a[1]), l.a[0])

def _tight(d, c):
    """sum + c <= 0"""
    g = 0
    for k in d.values():
        g = gcd(g, k)
        if g == 1: return d, c
    if g > 1:
        return {a: k // g for a, k in d.items()}, -((-c) // g)
    return d, c

def axioms(atom):
    """constraints defining an atom: list of ('eq'|'le', Lin)"""
    o = atom.op
    if o == 'div':
        x, m = atom.a
        return [('eq', sub(sub(x, scale(A(atom), m)), rem_(x, m)))]
    if o == 'rem':
        x, m = atom.a
        return [('eq', sub(sub(x, scale(div_(x, m), m)), A(atom)))]
    if o == 'flen':
        n, k, l = atom.a
        lo, hi = lrange(l)
        r = []
        if lo is not None and lo >= 0: r.append(('le', sub(scale(n, lo), A(atom))))
        if hi is not None and hi < (1 << 40): r.append(('le', sub(A(atom), scale(n, hi))))
        return r
    if o == 'minmax':
        kind, a, b = atom.a
        if kind == 'min': return [('le', sub(A(atom), a)), ('le', sub(A(atom), b))]
        return [('le', sub(a, A(atom))), ('le', sub(b, A(atom)))]
    if o == 'idl': return [('eq', sub(A(atom), atom.a[0]))]
    return []

def gather(les, eqs, seed):
    """constraints connected with the atoms in seed, plus ranges and axioms"""
    atoms = set(seed)
    todo = list(seed)
    L = [(_con(l)) for l in les]
    Q = [(_con(l)) for l in eqs]
    idx = {}
    for kind, cons in ((0, L), (1, Q)):
        for i, (d, c) in enumerate(cons):
            for a in d:
                idx.setdefault(a, []).append((kind, i))
                if a.op in ('rem', 'div'):
                    for b, _ in a.a[0].a[1]: idx.setdefault(b, []).append((kind, i))
    usedL = set(); usedQ = set()
    outL = []; outQ = []
    while todo:
        a = todo.pop()
        for kind, i in idx.get(a, ()):
            if kind == 0:
                if i in usedL: continue
                usedL.add(i); con = L[i]; outL.append(con)
            else:
                if i in usedQ: continue
                usedQ.add(i); con = Q[i]; outQ.append(con)
            for b in con[0]:
                if b not in atoms: atoms.add(b); todo.append(b)
        lo, hi = rng(a)
        if lo is not None: outL.append(({a: -1}, lo))
        if hi is not None: outL.append(({a: 1}, -hi))
        for k, l in axioms(a):
            con = _con(l)
            (outQ if k == 'eq' else outL).append(con)
            for b in con[0]:
                if b not in atoms: atoms.add(b); todo.append(b)
    return outL, outQ

def elim_eqs(L, Q):
    """substitute equalities with a unit coefficient; returns L, leftover Q (as two inequalities) or None if contradictory"""
    Q = [(dict(d), c) for d, c in Q]
    L = list(L)
    subs = []
    while Q:
        best = None
        for qi, (d, c) in enumerate(Q):
            if not d:
                if c != 0: return None
                continue
            for a, k in d.items():
                if abs(k) == 1:
                    best = (qi, a, k); break
            if best: break
        if best is None: break
        qi, a, k = best
        d, c = Q.pop(qi)
        # a = -(rest)/k, k = +-1
        rest = {b: -x * k for b, x in d.items() if b is not a}
        rc = -c * k
        subs.append((a, rest, rc))
        def rep(con):
            dd, cc = con
            if a not in dd: return con
            dd = dict(dd); q = dd.pop(a)
            for b, x in rest.items():
                v = dd.get(b, 0) + q * x
                if v: dd[b] = v
                else: dd.pop(b, None)
            return dd, cc + q * rc
        Q = [rep(x) for x in Q]; L = [rep(x) for x in L]
    for d, c in Q:
        if not d:
            if c != 0: return None
            continue
        g = 0
        for k in d.values(): g = gcd(g, k)
        if c % g: return None
        L.append((d, c)); L.append(({a: -k for a, k in d.items()}, -c))
    return L, subs

def fm_infeasible(L, Q):
    Stats.fm += 1
    r = elim_eqs(L, Q)
    if r is None: return True
    L, _ = r
    cs = {}
    for d, c in L:
        d, c = _tight(d, c)
        if not d:
            if c > 0: return True
            continue
        key = frozenset(d.items())
        if key not in cs or cs[key] < c: cs[key] = c
    while cs:
        pos = {}; neg = {}
        for key in cs:
            for a, k in key:
                if k > 0: pos[a] = pos.get(a, 0) + 1
                else: neg[a] = neg.get(a, 0) + 1
        best = None
        for a in set(pos) | set(neg):
            p = pos.get(a, 0); n = neg.get(a, 0)
            cost = p * n - p - n
            if best is None or cost < best[0] or (cost == best[0] and a.id < best[1].id): best = (cost, a)
        a = best[1]
        P = []; M = []; R = {}
        for key, c in cs.items():
            d = dict(key)
            k = d.get(a)
            if k is None: R[key] = c
            elif k > 0: P.append((d, c, k))
            else: M.append((d, c, -k))
        for d1, c1, k1 in P:
            for d2, c2, k2 in M:
                g = gcd(k1, k2); m1 = k2 // g; m2 = k1 // g
                d = {}
                for b, k in d1.items():
                    if b is not a: d[b] = k * m1
                for b, k in d2.items():
                    if b is not a:
                        v = d.get(b, 0) + k * m2
                        if v: d[b] = v
                        else: d.pop(b, None)
                c = c1 * m1 + c2 * m2
                d, c = _tight(d, c)
                if not d:
                    if c > 0: return True
                    continue
                key = frozenset(d.items())
                if key not in R or R[key] < c: R[key] = c
        cs = R
        if len(cs) > FM_CAP:
            Stats.capped += 1
            return False
    return False

class Facts:
    __slots__ = ('les', 'eqs', 'nes', 'bs', 'ors', 'log', 'cache', 'bad')
    def __init__(self):
        self.les = {}; self.eqs = {}; self.nes = {}; self.bs = {}; self.ors = {}
        self.log = (); self.cache = {}; self.bad = False

    def copy(self):
        f = Facts()
        f.les = dict(self.les); f.eqs = dict(self.eqs); f.nes = dict(self.nes)
        f.bs = dict(self.bs); f.ors = dict(self.ors); f.log = self.log; f.bad = self.bad
        f.cache = self.cache
        return f

    # -------------------------------------------------- adding
    def assume(self, f, depth=0):
        """returns a new Facts, or None if contradictory"""
        g = self.simp(f)
        if g is TRUE:
            return self
        if g is FALSE: return None
        n = self.copy(); n.cache = {}
        if not n._add(g): return None
        if n._inconsistent(g): return None
        n.log = n.log + (g,)
        if n.bs and depth < 2:
            h = n._instances(depth)
            if h is not None: return h or None
        return n

    def _instances(self, depth):
        """instances of failed searches at the indices in play: None nothing new, False contradiction, or new facts"""
        ex = [o for o, v in self.bs.items() if v is False and o.op == 'exists']
        if not ex: return None
        r = self
        for a in self._indices():
            x = A(a)
            for o in ex:
                if a.op == 'first' and a.a[0] is o.a[0] and a.a[2] is o.a[2]: continue
                b = subst(o.a[2], {bv(o.a[1]): x})
                if r.simp(b) is FALSE: continue
                if r.ent_le(scale(x, -1)) and r.ent_le(addc(sub(x, o.a[0]), 1)):
                    r = r.assume(not_(b), depth + 1)
                    if r is None: return False
        return None if r is self else r

    def _add(self, f):
        o = f.op
        if f is TRUE: return True
        if f is FALSE: return False
        if o == 'and':
            return all(self._add(x) for x in f.a)
        if o == 'le': self.les[f.a[0]] = 1; return True
        if o == 'eq': self.eqs[f.a[0]] = 1; return True
        if o == 'not':
            if f.a[0].op == 'eq': self.nes[f.a[0].a[0]] = 1; return True
            if self.bs.get(f.a[0].a[0]) is True: return False
            self.bs[f.a[0].a[0]] = False; return True
        if o == 'b':
            if self.bs.get(f.a[0]) is False: return False
            self.bs[f.a[0]] = True; return True
        if o == 'or': self.ors[f] = 1; return True
        raise Exception(o)

    def _inconsistent(self, f):
        seed = [a for l in _lins(f) for a, _ in l.a[1]]
        if not seed: return False
        return self._infeas(seed, [])

    def _infeas(self, seed, extra_les, extra_eqs=()):
        L, Q = gather(list(self.les) + list(extra_les), list(self.eqs) + list(extra_eqs), seed)
        if fm_infeasible(L, Q): return True
        # disequalities: x != 0 with x in the same component
        atoms = set()
        for d, c in L: atoms.update(d)
        for d, c in Q: atoms.update(d)
        nes = [l for l in self.nes if any(a in atoms for a, _ in l.a[1])]
        if nes:
            iv = {}
            for d, c in L:
                if len(d) == 1:
                    (a, k), = d.items()
                    lo, hi = iv.get(a, (None, None))
                    if k > 0:
                        h = (-c) // k; hi = h if hi is None else min(hi, h)
                    else:
                        l = -((-c) // -k); lo = l if lo is None else max(lo, l)
                    iv[a] = (lo, hi)
            def inside(l):
                if len(l.a[1]) != 1: return False
                a, k = l.a[1][0]
                lo, hi = iv.get(a, (None, None))
                v, r = divmod(-l.a[0], k)
                if r: return True
                if all(a not in d or len(d) == 1 for d, c in L) and all(a not in d for d, c in Q):
                    return (lo is None or v > lo) and (hi is None or v < hi)
                return lo is not None and hi is not None and lo < v < hi
            nes = [l for l in nes if not inside(l)]
        if nes:
            ch = True
            addl = []
            left = list(nes)
            while ch:
                ch = False
                for l in list(left):
                    d, c = _con(l)
                    neg = ({a: -k for a, k in d.items()}, -c)
                    # l >= 0 forced?  (l <= -1 infeasible)
                    if fm_infeasible(L + [(d, c + 1)], Q):
                        L = L + [(neg[0], neg[1] + 1)]      # l >= 1
                        left.remove(l); ch = True
                    elif fm_infeasible(L + [(neg[0], neg[1] + 1)], Q):
                        L = L + [(d, c + 1)]                # l <= -1
                        left.remove(l); ch = True
                if ch and fm_infeasible(L, Q): return True
        return False

    # -------------------------------------------------- asking
    def ent_le(self, l):
        """facts entail l <= 0"""
        c = cval(l)
        if c is not None: return c <= 0
        lo, hi = lrange(l)
        if hi is not None and hi <= 0: return True
        k = ('le', l)
        r = self.cache.get(k)
        if r is None:
            Stats.queries += 1
            if l in self.les or l in self.eqs: r = True
            else: r = self._infeas([a for a, _ in l.a[1]], [addc(scale(l, -1), 1)])
            self.cache[k] = r
        return r

    def ent_eq(self, l):
        c = cval(l)
        if c is not None: return c == 0
        if l in self.eqs: return True
        return self.ent_le(l) and self.ent_le(scale(l, -1))

    def ent_ne(self, l):
        c = cval(l)
        if c is not None: return c != 0
        f = eq0(l)
        if f is FALSE: return True
        l2 = f.a[0]
        if l2 in self.nes: return True
        k = ('ne', l2)
        r = self.cache.get(k)
        if r is None:
            r = self._infeas([a for a, _ in l2.a[1]], [], [l2])
            self.cache[k] = r
        return r

    def simp(self, f):
        """f simplified under the facts: TRUE, FALSE or a residual formula"""
        o = f.op
        if f is TRUE or f is FALSE: return f
        if o == 'le':
            if self.ent_le(f.a[0]): return TRUE
            if self.ent_le(addc(scale(f.a[0], -1), 1)): return FALSE
            return f
        if o == 'eq':
            l = f.a[0]
            if self.ent_ne(l): return FALSE
            a = self.ent_le(l); b = self.ent_le(scale(l, -1))
            if a and b: return TRUE
            return f
        if o == 'b':
            v = self.bs.get(f.a[0])
            if v is not None: return TRUE if v else FALSE
            return self._batom(f)
        if o == 'not': return not_(self.simp(f.a[0]))
        if o == 'and':
            r = []
            for x in f.a:
                y = self.simp(x)
                if y is FALSE: return FALSE
                r.append(y)
            return and_(*r)
        if o == 'or':
            if f in self.ors: return TRUE
            r = []
            for x in f.a:
                y = self.simp(x)
                if y is TRUE: return TRUE
                r.append(y)
            return or_(*r)
        raise Exception(o)

    def _batom(self, f):
        n = f.a[0]
        if n.op == 'seqeq':
            h = SEQEQ[0]
            r = h(self, n.a[0], n.a[1])
            if r is not f and r is not None:
                if r is TRUE or r is FALSE: return r
                if r.op == 'b':
                    v = self.bs.get(r.a[0])
                    if v is not None: return TRUE if v else FALSE
                    return r
                return self.simp(r)
        if n.op == 'exists':
            r = self._exists(n)
            if r is not None: return r
        # congruence: same atom up to entailed-equal arguments
        for m, v in self.bs.items():
            if m.op == n.op and m is not n and SAME[0](self, m, n): return TRUE if v else FALSE
        return f

    def _indices(self):
        r = self.cache.get('idx')
        if r is None:
            s = {}
            for f in self.les, self.eqs, self.nes:
                for l in f:
                    for a, _ in l.a[1]:
                        if a.op in ('J', 'first'): s[a] = 1
            r = self.cache['idx'] = list(s)[:6]
        return r

    def _exists(self, n):
        """exists k < n. body(k), from an index known to satisfy it or a wider search known to fail"""
        m, k, body = n.a
        key = ('ex', n)
        if key in self.cache: return self.cache[key]
        self.cache[key] = None
        r = None
        for a in self._indices():
            if a.op == 'first' and a.a[0] is m and a.a[2] is body and n not in self.bs: continue
            x = A(a)
            if self.ent_le(scale(x, -1)) and self.ent_le(addc(sub(x, m), 1)) and self.simp(subst(body, {bv(k): x})) is TRUE:
                r = TRUE; break
        if r is None:
            for o, v in self.bs.items():
                if v is False and o.op == 'exists' and o is not n and self.ent_le(sub(m, o.a[0])):
                    b = A(bv(k))
                    g = self.assume(le(I(0), b))
                    g = g and g.assume(lt(b, m))
                    g = g and g.assume(body)
                    if g is None or g.simp(subst(o.a[2], {bv(o.a[1]): b})) is TRUE: r = FALSE; break
        self.cache[key] = r
        return r

    def ent(self, f):
        k = ('f', f)
        r = self.cache.get(k)
        if r is None:
            r = self.simp(f) is TRUE
            if not r and (self.ors or f.op == 'or'):
                r = self._refute(not_(f), 2)
            self.cache[k] = r
        return r

    def _refute(self, f, depth):
        """facts and f are contradictory (bounded case analysis over disjunctions)"""
        n = self.assume(f)
        if n is None: return True
        if depth == 0: return False
        for o in list(n.ors):
            o2 = or_(*[n.simp(x) for x in o.a])
            if o2 is FALSE: return True
            if o2 is TRUE: continue
            alts = o2.a if o2.op == 'or' else (o2,)
            if len(alts) > 24: continue
            m = n.copy(); m.ors.pop(o, None); m.cache = {}
            if all(m._refute(x, depth - 1) for x in alts): return True
        return False

    def feasible(self, f):
        return self.assume(f) is not None

    def consistent(self):
        """bounded check that the disjunctions leave some case"""
        return not self._refute(TRUE, 2) if self.ors else True

    def formulas(self):
        r = [mk('le', l) for l in self.les] + [mk('eq', l) for l in self.eqs]
        r += [not_(mk('eq', l)) for l in self.nes]
        r += [batom(n) if v else not_(batom(n)) for n, v in self.bs.items()]
        r += list(self.ors)
        return r

    def subst(self, m):
        """facts with atoms replaced; None if contradictory"""
        memo = {}
        n = Facts(); n.cache = {}
        for f in self.formulas():
            g = subst(f, m, memo)
            if g is FALSE: return None
            if not n._add(g): return None
        n.log = self.log
        return n

SEQEQ = [None]
SAME = [lambda fs, a, b: False]

def _lins(f):
    o = f.op
    if o in ('le', 'eq'): return [f.a[0]]
    if o in ('not', 'and', 'or'): return [l for x in f.a for l in _lins(x)]
    return []

# ---------------------------------------------------------------- models (for alarm confirmation)
def linear_model(fs, rnd, want=(), small=True):
    """an integer assignment of all atoms in the linear facts, or None"""
    seed = set()
    for l in list(fs.les) + list(fs.eqs) + list(fs.nes) + list(want):
        for a, _ in l.a[1]: seed.add(a)
    L, Q = gather(list(fs.les), list(fs.eqs), seed)
    r = elim_eqs(L, Q)
    if r is None: return None
    L, subs = r
    stack = []
    cs = []
    for d, c in L:
        d, c = _tight(d, c)
        if not d:
            if c > 0: return None
            continue
        cs.append((d, c))
    allatoms = set()
    for d, c in cs: allatoms.update(d)
    cur = _dedup(cs)
    left = set(allatoms)
    while left:
        best = None
        for a in left:
            p = sum(1 for d, _ in cur if d.get(a, 0) > 0); n = sum(1 for d, _ in cur if d.get(a, 0) < 0)
            cost = p * n - p - n
            if best is None or cost < best[0] or (cost == best[0] and a.id < best[1].id): best = (cost, a)
        a = best[1]
        P = [x for x in cur if x[0].get(a, 0) > 0]; M = [x for x in cur if x[0].get(a, 0) < 0]
        R = [x for x in cur if a not in x[0]]
        stack.append((a, P, M))
        for d1, c1 in P:
            for d2, c2 in M:
                k1 = d1[a]; k2 = -d2[a]
                d = {}
                for b, k in d1.items():
                    if b is not a: d[b] = k * k2
                for b, k in d2.items():
                    if b is not a:
                        v = d.get(b, 0) + k * k1
                        if v: d[b] = v
                        else: d.pop(b, None)
                d, c = _tight(d, c1 * k2 + c2 * k1)
                if not d:
                    if c > 0: return None
                    continue
                R.append((d, c))
        cur = _dedup(R)
        if len(cur) > 1500: return None
        left.discard(a)
    val = {}
    for a, P, M in reversed(stack):
        lo = hi = None
        for d, c in P:      # k*a + rest + c <= 0 -> a <= floor(-(rest+c)/k)
            s = c + sum(k * val.get(b, 0) for b, k in d.items() if b is not a)
            h = (-s) // d[a]
            hi = h if hi is None else min(hi, h)
        for d, c in M:      # -k*a + rest + c <= 0 -> a >= ceil((rest+c)/k)
            s = c + sum(k * val.get(b, 0) for b, k in d.items() if b is not a)
            k = -d[a]
            l = -((-s) // k)
            lo = l if lo is None else max(lo, l)
        if lo is not None and hi is not None and lo > hi: return None
        val[a] = _pick(lo, hi, rnd, a)
    for a, rest, rc in reversed(subs):
        for b in rest:
            if b not in val:
                lo, hi = rng(b); val[b] = _pick(lo, hi, rnd, b)
        val[a] = rc + sum(k * val[b] for b, k in rest.items())
    for l in fs.nes:
        if l.a[0] + sum(k * val.get(a, 0) for a, k in l.a[1]) == 0: return None
    return val

def _pick(lo, hi, rnd, a):
    if lo is None and hi is None: return rnd.randint(0, 40)
    if lo is None: return hi - rnd.choice([0, 0, 1, rnd.randint(0, 30)])
    big = hi is None or hi - lo > 300
    if big:
        r = rnd.random()
        if r < 0.3: v = lo
        elif r < 0.85: v = lo + rnd.randint(0, 40)
        elif hi is not None and r < 0.95 and hi - lo < 5000: v = hi - rnd.randint(0, 3)
        else: v = lo + rnd.randint(0, 300)
        return v if hi is None else min(v, hi)
    return rnd.choice([lo, hi, rnd.randint(lo, hi), rnd.randint(lo, hi)])

def _dedup(cs):
    m = {}
    for d, c in cs:
        k = frozenset(d.items())
        if k not in m or m[k] < c: m[k] = c
    return [(dict(k), c) for k, c in m.items()]
