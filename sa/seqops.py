"""Fact-dependent operations on sequences, equality of values under facts, and concretisation of
abstract values (used only to confirm that two unequal normal forms really differ)."""
import random
from terms import *
from facts import *

class Split(Exception):
    """the operation needs to know whether this formula holds"""
    def __init__(self, f): self.f = f; Exception.__init__(self, show(f))

class NoModel(Exception):
    """the transfer function does not apply to these operands"""
class Unsupported(Exception):
    pass

def decide(fs, f):
    g = fs.simp(f)
    if g is TRUE: return True
    if g is FALSE: return False
    if fs.ors and fs.ent(g): return True
    if fs.ors and fs.ent(not_(g)): return False
    raise Split(g)

def try_decide(fs, f):
    g = fs.simp(f)
    return True if g is TRUE else False if g is FALSE else None

def slice_seq(fs, q, st, en):
    """q[st..en]; the caller has established 0 <= st <= en <= len(q)"""
    if q.op == 'ite': raise Split(q.a[0])
    if cval(st) == 0:
        L = seq_len(q)
        if en is L or try_decide(fs, eqi(en, L)): return q
    if st is en or try_decide(fs, eqi(st, en)): return EMPTY
    if len(q.a) == 1 and q.a[0][0] == 's':
        s = q.a[0]
        return mkseq([('s', s[1], add(s[2], st), add(s[2], en))])
    out = []; off = I(0)
    for s in q.a:
        l = seg_len(s); end = add(off, l)
        if try_decide(fs, le(l, I(0))): continue
        # cheap order of tests: before the slice? after it?
        if decide(fs, le(end, st)): off = end; continue
        if decide(fs, le(en, off)): break
        a = I(0) if decide(fs, le(st, off)) else sub(st, off)
        b = l if decide(fs, le(end, en)) else sub(en, off)
        t = seg_slice(s, a, b)
        if t is None:
            return mkseq([('s', mk('sa', mk('wrap', q), None, seq_ety(q)), st, en)])
        out.append(t); off = end
    return mkseq(out)

def seq_at(fs, q, i):
    if q.op == 'ite': raise Split(q.a[0])
    off = I(0)
    for s in q.a:
        l = seg_len(s); rel = sub(i, off)
        if s[0] == 'f' and cval(seq_len(s[3])) is None: break
        r = try_decide(fs, lt(rel, l))
        if r is True:
            if try_decide(fs, ge(rel, I(0))) is not True: break
            v = seg_elem(s, rel)
            if v is None: break
            return v
        if r is None:
            break
        off = add(off, l)
    return elem_like(q, mk('atc', q, i))

def sample_elem(q):
    if q.op == 'ite': return sample_elem(q.a[1]) or sample_elem(q.a[2])
    for s in q.a:
        if s[0] == 'r': return s[1]
        if s[0] == 's': return elem_value(s[1], s[2])
        if s[0] == 'c': return s[3]
        if s[0] == 'f':
            r = sample_elem(s[3])
            if r is not None: return r
    return None

def elem_like(q, node):
    v = sample_elem(q)
    if v is None: return mk('opq', node)
    return like(v, node)

def like(v, node):
    """symbolic value of the same shape as v rooted at node"""
    o = v.op
    if o == 'lin':
        a = mk('i', node)
        lo, hi = lrange(v)
        if lo is None or lo < 0: set_rng(a, None, None)
        elif hi is None: set_rng(a, 0, None)
        else: set_rng(a, 0, 255 if hi <= 255 else 65535 if hi <= 65535 else (1 << 32) - 1 if hi < (1 << 32) else LENMAX * 2 + 1)
        return A(a)
    if is_bool(v): return batom(node)
    if o == 'seq':
        l = cval(seq_len(v))
        return S_atom(seqatom(node, None, seq_ety(v) or ('int', 8, False)))
    if o == 'struct':
        return mk('struct', v.a[0], v.a[1], tuple(like(x, mk('fld', node, i)) for i, x in enumerate(v.a[2])))
    if o == 'ref': return mk('ref', like(v.a[0], mk('deref', node)))
    if o == 'box': return mk('box', like(v.a[0], mk('deref', node)))
    if o == 'symenum': return mk('symenum', node, v.a[1])
    return mk('opq', node)

def norm_seq(fs, q):
    """drop provably empty segments, merge provably adjacent slices, split comprehensions"""
    out = []
    for s in q.a:
        l = seg_len(s)
        if cval(l) is None and try_decide(fs, le(l, I(0))): continue
        if s[0] == 'c': 
            t = split_comp(fs, s)
            if t is not None:
                out += t; continue
        if out and s[0] == 's' and out[-1][0] == 's' and out[-1][1] is s[1] and out[-1][3] is not s[2] and try_decide(fs, eqi(out[-1][3], s[2])):
            out[-1] = ('s', s[1], out[-1][2], s[3]); continue
        out.append(s)
    return mkseq(out)

def _find_atc(n, k, memo):
    """an element access of a composite sequence whose index is bv(k)+const inside n"""
    if n in memo: return None
    memo.add(n)
    if n.op == 'atc' and n.a[0].op == 'seq':
        off = sub(n.a[1], A(bv(k)))
        if not has_bv(off, k) and not has_bv(n.a[0], k): return n, off
    if not has_bv(n, k): return None
    for c in _children_(n):
        r = _find_atc(c, k, memo)
        if r: return r
    return None

from terms import _children as _children_

def split_comp(fs, s):
    """split a comprehension at the segment boundaries of composite sequences it reads"""
    _, n, k, body = s
    r = _find_atc(body, k, set())
    if not r: return None
    node, off = r
    q = node.a[0]
    out = []; pos = I(0); cur = sub(I(0), off)   # comprehension position of the start of the segment
    for g in q.a:
        l = seg_len(g); end = add(cur, l)
        # intersect [cur,end) with [pos,n)
        if try_decide(fs, le(end, I(0))): cur = end; continue
        lo = I(0) if try_decide(fs, le(cur, I(0))) else (cur if try_decide(fs, ge(cur, I(0))) else None)
        if lo is None: return None
        if try_decide(fs, ge(lo, n)): break
        if try_decide(fs, le(end, n)): hi = end
        elif try_decide(fs, ge(end, n)): hi = n
        else: return None
        # body for positions lo + j, j < hi - lo
        jb = add(A(bv(k)), lo)
        b2 = subst(body, {bv(k): jb})
        tgt = mk('atc', q, add(jb, off))
        rel = sub(add(jb, off), add(cur, off))
        ev = seg_elem(g, rel)
        if ev is None: return None
        cnt = sub(hi, lo)
        b3 = replace_elem(b2, tgt, ev)
        t = mkseq([('c', cnt, k, b3)])
        for u in t.a:
            if u[0] == 'c':
                v = split_comp(fs, u)
                if v is not None: out += v; continue
            out.append(u)
        cur = end
        if hi is n: break
    return out

def replace_elem(body, node, val):
    """replace the symbolic element rooted at node by the value val"""
    m = {}
    def go(v, nd):
        if v.op == 'lin': m[mk('i', nd)] = v
        elif is_bool(v): m[nd] = v
        elif v.op == 'seq': m[mk('sa', nd, None, seq_ety(v) or ('int', 8, False))] = v
        elif v.op == 'struct':
            for i, x in enumerate(v.a[2]): go(x, mk('fld', nd, i))
        elif v.op in ('ref', 'box'): go(v.a[0], mk('deref', nd))
        elif v.op == 'opq': m[nd] = v.a[0]
        elif v.op == 'symenum': m[nd] = v.a[0]
    go(val, node)
    m[node] = val if val.op not in ('opq', 'symenum') else val.a[0]
    return subst(body, m)

# ---------------------------------------------------------------- equality under facts
def eqv(fs, a, b, d=0):
    if a is b: return True
    if d > 30: return False
    if a.op == 'lin' and b.op == 'lin': return eq_lin(fs, a, b, d)
    if is_bool(a) and is_bool(b):
        x, y = fs.simp(a), fs.simp(b)
        if x is y: return True
        if x in (TRUE, FALSE) or y in (TRUE, FALSE): return False
        x2, y2 = expand_formula(x), expand_formula(y)
        if x2 is y2: return True
        if (x2 is not x or y2 is not y) and d < 3:
            p1 = fs.assume(x2)
            if p1 is None or p1.ent(y2):
                p2 = fs.assume(y2)
                if p2 is None or p2.ent(x2): return True
        if x.op == y.op and len(x.a) == len(y.a):
            if x.op == 'b': return same_node(fs, x.a[0], y.a[0], d + 1)
            if x.op in ('le', 'eq'): return eq_lin(fs, x.a[0], y.a[0], d + 1)
            if x.op == 'not': return eqv(fs, x.a[0], y.a[0], d + 1)
            used = set()
            for p in x.a:
                hit = None
                for i, r in enumerate(y.a):
                    if i not in used and eqv(fs, p, r, d + 1): hit = i; break
                if hit is None: return False
                used.add(hit)
            return True
        return False
    if a.op == 'seq' and b.op == 'seq': return eq_seq(fs, a, b, d)
    if a.op == 'ite' or b.op == 'ite':
        x = a if a.op == 'ite' else b
        c = x.a[0]
        f1 = fs.assume(c); f2 = fs.assume(not_(c))
        def arm(n, i): return n.a[i] if n.op == 'ite' and n.a[0] is c else n
        return (f1 is None or eqv(f1, arm(a, 1), arm(b, 1), d + 1)) and (f2 is None or eqv(f2, arm(a, 2), arm(b, 2), d + 1))
    if a.op != b.op: return False
    return same_node(fs, a, b, d)

def same_node(fs, a, b, d=0):
    if a is b: return True
    if d > 30 or a.op != b.op or len(a.a) != len(b.a): return False
    if a.op in ('isym', 'sym', 'phi', 'J', 'bv', 'rnd', 'unk'): return False
    if a.op in ('lin', 'seq', 'ite') or is_bool(a): return eqv(fs, a, b, d + 1)
    if a.op == 'exists' or a.op == 'first':
        if a.a[1] != b.a[1] or not eqv(fs, a.a[0], b.a[0], d + 1): return False
        g = bind(fs, a.a[1], a.a[0])
        return g is None or eqv(g, a.a[2], b.a[2], d + 1)
    return same_args(fs, a.a, b.a, d)

def same_args(fs, xs, ys, d):
    for x, y in zip(xs, ys):
        if isinstance(x, N):
            if not isinstance(y, N) or not eqv(fs, x, y, d + 1): return False
        elif isinstance(x, tuple):
            if not isinstance(y, tuple) or len(x) != len(y) or not same_args(fs, x, y, d + 1): return False
        elif x != y: return False
    return True

def bind(fs, k, n):
    b = A(bv(k))
    f = fs.assume(ge(b, I(0)))
    return f.assume(lt(b, n)) if f else None

def eq_lin(fs, a, b, d=0):
    l = sub(a, b)
    if fs.ent_eq(l): return True
    # congruent atoms
    pos = [x for x, k in l.a[1] if k > 0]; neg = [x for x, k in l.a[1] if k < 0]
    m = {}
    for x in pos:
        for y in neg:
            if x.op == y.op and x.op not in ('isym', 'phi', 'J', 'bv', 'rnd') and y not in m and same_node(fs, x, y, d + 1):
                m[y] = A(x); break
    if m:
        l2 = subst(l, m)
        if l2 is not l and fs.ent_eq(l2): return True
    # iteint: case split
    for x, _ in l.a[1]:
        if x.op == 'iteint':
            c = x.a[0]
            f1 = fs.assume(c); f2 = fs.assume(not_(c))
            return (f1 is None or eq_lin(f1, subst(a, {x: x.a[1]}), subst(b, {x: x.a[1]}), d + 1)) and \
                   (f2 is None or eq_lin(f2, subst(a, {x: x.a[2]}), subst(b, {x: x.a[2]}), d + 1))
    # element of a composite sequence that the facts now locate
    for x, _ in l.a[1]:
        if x.op == 'i' and x.a[0].op == 'atc':
            v = seq_at(fs, x.a[0].a[0], x.a[0].a[1])
            if v.op == 'lin' and not (len(v.a[1]) == 1 and v.a[1][0][0] is x):
                return eq_lin(fs, subst(a, {x: v}), subst(b, {x: v}), d + 1)
    return False

def same_sa(fs, a, b, d):
    if a is b: return True
    if a.a[1] != b.a[1]: pass
    return same_node(fs, a.a[0], b.a[0], d + 1)

def eq_seq(fs, a, b, d=0):
    a, b = norm_seq(fs, a), norm_seq(fs, b)
    if a is b: return True
    x, y = list(a.a), list(b.a)
    while x and y:
        s, t = x[0], y[0]
        if s == t: x.pop(0); y.pop(0); continue
        ls, lt_ = seg_len(s), seg_len(t)
        if fs.ent_eq(sub(ls, lt_)) or (s[0] == t[0] == 'f' and eq_lin(fs, ls, lt_, d + 1)):
            if not eq_seg(fs, s, t, ls, d + 1): return False
            x.pop(0); y.pop(0); continue
        if fs.ent_le(sub(ls, lt_)):
            p, q = seg_slice(t, I(0), ls), seg_slice(t, ls, lt_)
            if p is None or q is None: return False
            if not eq_seg(fs, s, p, ls, d + 1): return False
            x.pop(0); y[0] = q
            if fs.ent_le(seg_len(q)): y.pop(0)
            continue
        if fs.ent_le(sub(lt_, ls)):
            p, q = seg_slice(s, I(0), lt_), seg_slice(s, lt_, ls)
            if p is None or q is None: return False
            if not eq_seg(fs, p, t, lt_, d + 1): return False
            y.pop(0); x[0] = q
            if fs.ent_le(seg_len(q)): x.pop(0)
            continue
        return False
    for r in x + y:
        if not fs.ent_le(seg_len(r)): return False
    return True

def eq_seg(fs, s, t, n, d):
    if s == t: return True
    if s[0] == t[0] == 's':
        if same_sa(fs, s[1], t[1], d) and fs.ent_eq(sub(s[2], t[2])): return True
        # a wrapped composite
        for p, q in ((s, t), (t, s)):
            if p[1].a[0].op == 'wrap':
                try: u = slice_seq(fs, p[1].a[0].a[0], p[2], p[3])
                except Split: return False
                if not (len(u.a) == 1 and u.a[0] == p): return eq_seq(fs, u, mkseq([q]), d + 1)
        return fs.ent_le(n)
    if s[0] == t[0] == 'f':
        k = max(s[2], t[2])
        if not eq_lin(fs, s[1], t[1], d): return False
        g = bind(fs, k, s[1])
        if g is None: return True
        b1 = subst(s[3], {bv(s[2]): A(bv(k))}) if s[2] != k else s[3]
        b2 = subst(t[3], {bv(t[2]): A(bv(k))}) if t[2] != k else t[3]
        return eqv(g, b1, b2, d + 1)
    if s[0] == 'f' or t[0] == 'f': return False
    # element-wise
    k = max([z[2] for z in (s, t) if z[0] == 'c'] + [1 + max(max_seg_bv(s), max_seg_bv(t)) if s[0] != 'c' and t[0] != 'c' else 0])
    if k == 0: k = 1
    b = A(bv(k))
    g = bind(fs, k, n)
    if g is None: return True
    return eqv(g, seg_elem(s, b), seg_elem(t, b), d + 1)

def max_seg_bv(s):
    m = 0
    for z in s[1:]:
        if isinstance(z, N): m = max(m, max_bv(z))
    return m

def expand_eq(a, b):
    """element-wise form of an equality of short sequences"""
    n, m = cval(seq_len(a)), cval(seq_len(b))
    if n is None or n != m or n > 32: return None
    out = []
    for i in range(n):
        x, y = seq_at_static(a, I(i)), seq_at_static(b, I(i))
        if x is None or y is None or x.op != 'lin' or y.op != 'lin': return None
        out.append(eqi(x, y))
    return and_(*out)

def expand_formula(f):
    o = f.op
    if o == 'b' and f.a[0].op == 'seqeq' and f.a[0].a[0].op == 'seq' and f.a[0].a[1].op == 'seq':
        g = expand_eq(f.a[0].a[0], f.a[0].a[1])
        return g if g is not None else f
    if o == 'not': return not_(expand_formula(f.a[0]))
    if o == 'and': return and_(*[expand_formula(x) for x in f.a])
    if o == 'or': return or_(*[expand_formula(x) for x in f.a])
    return f

def differ_at(fs, a, b):
    """is there an index the path knows of at which the elements differ"""
    for x in fs._indices():
        i = A(x)
        if not (fs.ent_le(scale(i, -1)) and fs.ent_le(addc(sub(i, seq_len(a)), 1)) and fs.ent_le(addc(sub(i, seq_len(b)), 1))): continue
        try: u, v = seq_at(fs, a, i), seq_at(fs, b, i)
        except Exception: continue
        if u.op == 'lin' and v.op == 'lin' and fs.ent_ne(sub(u, v)): return True
    return False

def _seqeq_hook(fs, a, b):
    if a.op != 'seq' or b.op != 'seq': return None
    key = ('seqeq', a, b)
    r = fs.cache.get(key)
    if r is None:
        la, lb = seq_len(a), seq_len(b)
        if fs.ent_ne(sub(la, lb)): r = FALSE
        elif eq_seq(fs, a, b): r = TRUE
        else:
            n1, n2 = norm_seq(fs, a), norm_seq(fs, b)
            r = mk_seqeq(n1, n2)
            if r.op == 'b':
                g = expand_eq(r.a[0].a[0], r.a[0].a[1]) if r.a[0].op == 'seqeq' else None
                if g is not None and (fs.eqs or fs.nes):
                    h = fs.simp(g)
                    if h is TRUE or h is FALSE: r = h
                if r.op == 'b' and differ_at(fs, n1, n2): r = FALSE
        fs.cache[key] = r
    return r

SEQEQ[0] = _seqeq_hook
SAME[0] = lambda fs, a, b: same_node(fs, a, b)

# ---------------------------------------------------------------- concretisation
class Reject(Exception): pass
FIELDS = {}        # type -> field name -> index

_FB = {}
def free_bvs(n):
    """indices of the bound variables that occur free in n"""
    r = _FB.get(n)
    if r is not None: return r
    if n.op == 'bv': r = frozenset((n.a[0],))
    elif n.op == 'seq':
        r = frozenset()
        for s in n.a:
            if s[0] in ('c', 'f'): r |= free_bvs(s[1]) | (free_bvs(s[3]) - {s[2]})
            else:
                for x in s[1:]:
                    if isinstance(x, N): r |= free_bvs(x)
    elif n.op in ('exists', 'first', 'flen'): r = free_bvs(n.a[0]) | (free_bvs(n.a[2]) - {n.a[1]})
    else:
        from terms import _children
        r = frozenset()
        for c in _children(n): r |= free_bvs(c)
    _FB[n] = r
    return r

class Env:
    """one point of the concretisation of an abstract state"""
    def __init__(self, rnd):
        self.rnd = rnd; self.tab = {}; self.bvs = {}; self.depth = 0; self.steps = 0; self.memo = {}; self.plain = False; self.clones = False; self.zeros = False; self.hints = ()

    def tick(self, n=1):
        self.steps += n
        if self.steps > 400000: raise Reject('budget')

    def ckey(self, n):
        if n.op != 'uf': return self.ckey_(n)
        k = (n,) + tuple(self.bvs.get(b) for b in free_bvs(n))
        r = self.memo.get(k)
        if r is None: r = self.memo[k] = self.ckey_(n)
        return r

    def ckey_(self, n):
        o = n.op
        if o in ('sym', 'isym', 'rnd'):
            return (o,) + tuple(self.cv(x) if isinstance(x, N) else x for x in n.a)
        if o in ('phi', 'J'): return (o,) + tuple(n.a)
        if o == 'at':
            k = self.ckey(n.a[0]); i = self.int(n.a[1])
            if k[0] == 'val':
                if not isinstance(k[1], tuple) or i < 0 or i >= len(k[1]): raise Reject('val')
                return ('val', k[1][i])
            if self.clones and not (n.a[0].op == 'sa' and n.a[0].a[2] and n.a[0].a[2][0] == 'int'): i = 0
            return ('at', k, i)
        if o in ('fld', 'vfld', 'dsc'):
            k = self.ckey(n.a[0])
            if k[0] == 'val': return ('val', self.part(n, k[1]))
            return (o, k) + tuple(self.cv(x) if isinstance(x, N) else x for x in n.a[1:])
        if o == 'atc':
            q = self.seq(n.a[0]); i = self.int(n.a[1])
            if i < 0 or i >= len(q): raise Reject('atc')
            return ('val', q[i])
        if o == 'sa': return self.ckey(n.a[0])
        if o == 'unk': raise Reject('unknown')
        if o in ('lin', 'seq', 'struct', 'ref', 'ite') or is_bool(n): return ('v', self.cv(n))
        return (o,) + tuple(self.cv(x) if isinstance(x, N) else x for x in n.a)

    def part(self, n, v):
        """component of an evaluated composite"""
        o = n.op
        if not (isinstance(v, tuple) and v and v[0] == 'S'): raise Reject('val')
        if o == 'dsc': return v[2]
        if o == 'vfld':
            if v[2] != n.a[1] or 3 + n.a[2] >= len(v): raise Reject('val')
            return v[3 + n.a[2]]
        i = n.a[1]
        if isinstance(i, str): i = FIELDS.get(v[1], {}).get(i)
        if not isinstance(i, int) or 3 + i >= len(v): raise Reject('val')
        return v[3 + i]

    def base(self, key, lo, hi):
        if key in self.tab: return self.tab[key]
        r = self.rnd
        if lo is None and hi is None: lo, hi = -5, 40
        elif lo is None: lo = hi - 40
        elif hi is None: hi = lo + 40
        if self.zeros and lo == 0 and isinstance(key, tuple) and key[0] == 'at': v = 0
        elif self.hints and r.random() < .4 and any(lo <= h <= hi for h in self.hints): v = r.choice([h for h in self.hints if lo <= h <= hi])
        elif hi - lo > 400:
            v = lo + r.randint(0, 40) if r.random() < .8 else r.randint(lo, hi)
        elif self.plain and hi - lo > 100: v = r.randint(lo, hi)
        else: v = r.choice([lo, hi, r.randint(lo, hi), r.randint(lo, hi)])
        self.tab[key] = v
        return v

    def atom(self, a):
        self.tick()
        o = a.op
        if o == 'div': return self.int(a.a[0]) // a.a[1]
        if o == 'rem': return self.int(a.a[0]) % a.a[1]
        if o == 'idl': return self.int(a.a[0])
        if o == 'bv':
            if a.a[0] not in self.bvs: raise Reject('bv')
            return self.bvs[a.a[0]]
        if o == 'bxor':
            r = 0
            for x in a.a: r ^= self.int(x)
            return r
        if o == 'band': return self.int(a.a[0]) & self.int(a.a[1])
        if o == 'bor': return self.int(a.a[0]) | self.int(a.a[1])
        if o == 'mul': return self.int(a.a[0]) * self.int(a.a[1])
        if o == 'len':
            k = self.ckey(a.a[0])
            if k[0] == 'val':
                if not isinstance(k[1], tuple): raise Reject('val')
                return len(k[1])
            return self.base(('len', k), 0, 24)
        if o == 'iteint': return self.int(a.a[1]) if self.bool(a.a[0]) else self.int(a.a[2])
        if o == 'flen':
            n = self.int(a.a[0]); t = 0
            for i in range(n): t += self.under(a.a[1], i, lambda: self.int(a.a[2]))
            return t
        if o == 'first':
            n = self.int(a.a[0])
            for i in range(n):
                if self.under(a.a[1], i, lambda: self.bool(a.a[2])): return i
            return n
        if o == 'minmax':
            x, y = self.int(a.a[1]), self.int(a.a[2])
            return min(x, y) if a.a[0] == 'min' else max(x, y)
        if o == 'i':
            k = self.ckey(a.a[0])
            if k[0] == 'val':
                if not isinstance(k[1], int): raise Reject('val')
                return k[1]
            lo, hi = rng(a)
            return self.base(k, lo, hi)
        if o == 'unk': raise Reject('unknown')
        lo, hi = rng(a)
        k = self.ckey(a)
        if k[0] == 'val':
            if not isinstance(k[1], int): raise Reject('val')
            return k[1]
        return self.base(k, lo, hi)

    def under(self, k, i, f):
        old = self.bvs.get(k)
        self.bvs[k] = i
        try: return f()
        finally:
            if old is None: self.bvs.pop(k, None)
            else: self.bvs[k] = old

    def int(self, l):
        if l.op != 'lin': return self.atom(l)
        r = l.a[0]
        for a, k in l.a[1]: r += k * self.atom(a)
        return r

    def bool(self, f):
        o = f.op
        if o == 'true': return True
        if o == 'false': return False
        if o == 'le': return self.int(f.a[0]) <= 0
        if o == 'eq': return self.int(f.a[0]) == 0
        if o == 'not': return not self.bool(f.a[0])
        if o == 'and': return all(self.bool(x) for x in f.a)
        if o == 'or': return any(self.bool(x) for x in f.a)
        n = f.a[0]
        if n.op == 'seqeq': return self.seq(n.a[0]) == self.seq(n.a[1])
        if n.op in ('fld', 'vfld', 'at', 'atc'):
            k = self.ckey(n)
            if k[0] == 'val': return bool(k[1])
        if n.op == 'exists':
            c = self.int(n.a[0])
            return any(self.under(n.a[1], i, lambda: self.bool(n.a[2])) for i in range(c))
        k = ('bool', self.ckey(n))
        if k not in self.tab: self.tab[k] = self.rnd.random() < .5
        return self.tab[k]

    def seq(self, q):
        k = (q,) + tuple(self.bvs.get(b) for b in free_bvs(q))
        r = self.memo.get(k)
        if r is None: r = self.memo[k] = self.seq_(q)
        return r

    def seq_(self, q):
        if q.op == 'ite': return self.seq(q.a[1]) if self.bool(q.a[0]) else self.seq(q.a[2])
        if q.op == 'sa': return [self.sa_elem(q, i) for i in range(self.int(alen(q)))]
        out = []
        for s in q.a:
            self.tick()
            if s[0] == 's':
                a, b = self.int(s[2]), self.int(s[3])
                if b - a > 5000: raise Reject('long')
                self.tick(max(b - a, 0))
                for i in range(a, b): out.append(self.sa_elem(s[1], i))
            elif s[0] == 'r':
                c = self.int(s[2])
                if c > 5000: raise Reject('long')
                out += [self.cv(s[1])] * c
            elif s[0] == 'c':
                c = self.int(s[1])
                if c > 3000: raise Reject('long')
                for i in range(c): out.append(self.under(s[2], i, lambda: self.cv(s[3])))
            else:
                c = self.int(s[1])
                if c > 3000: raise Reject('long')
                for i in range(c): out += self.under(s[2], i, lambda: self.seq(s[3]))
        return out

    def sa_elem(self, sa, i):
        if sa.a[0].op == 'wrap':
            q = self.seq(sa.a[0].a[0])
            if i < 0 or i >= len(q): raise Reject('range')
            return q[i]
        return self.cv(elem_value(sa, I(i)))

    def cv(self, n):
        """comparable Python value of an abstract value"""
        o = n.op
        if o == 'lin': return self.int(n)
        if is_bool(n): return self.bool(n)
        if o == 'seq': return tuple(self.seq(n))
        if o == 'ite': return self.cv(n.a[1]) if self.bool(n.a[0]) else self.cv(n.a[2])
        if o == 'struct': return ('S', n.a[0], n.a[1]) + tuple(self.cv(x) for x in n.a[2])
        if o in ('ref', 'box'): return self.cv(n.a[0])
        if o == 'symenum':
            k = self.ckey(n.a[0])
            return k[1] if k[0] == 'val' else ('E', k)
        if o == 'opq': return ('O', self.ckey(n.a[0]))
        if o == 'unk': raise Reject('unknown')
        return self.ckey(n)

def has_unknown(n):
    return any(x.op == 'unk' for x in fv(n))

def hints(ts):
    """integers that terms are compared with"""
    out = set(); seen = set(); todo = list(ts)
    while todo and len(seen) < 3000:
            x = todo.pop()
            if not isinstance(x, N) or x in seen: continue
            seen.add(x); todo += list(_children_(x))
            if x.op in ('eq', 'le') and x.a[0].op == 'lin':
                c, cs = x.a[0].a[0], x.a[0].a[1]
                k = abs(cs[0][1]) if cs else 1
                out |= {abs(c) // k, abs(c) // k + 1}
                if c: out.add(abs(c) // k - 1)
                if len(out) > 40: return tuple(sorted(out))
    return tuple(sorted(out))

def models(fs, seed=1, tries=120, want=(), complete=None, hint=()):
    """points of the concretisation of the facts"""
    rnd = random.Random(seed)
    for t in range(tries):
        val = linear_model(fs, rnd, want)
        if val is None: continue
        e = Env(rnd)
        e.plain = t % 2 == 1; e.clones = t % 5 == 2; e.zeros = t % 6 == 4; e.hints = hint if t % 3 == 1 else ()     # lists of equal elements
        try:
            for a in sorted(val, key=lambda x: x.id):
                o = a.op
                if o in ('div', 'rem', 'bxor', 'band', 'bor', 'mul', 'idl', 'iteint', 'flen', 'first', 'minmax', 'bv'): continue
                if o == 'len':
                    k = e.ckey(a.a[0])
                    if k[0] != 'val': e.tab[('len', k)] = val[a]
                elif o == 'i':
                    k = e.ckey(a.a[0])
                    if k[0] != 'val': e.tab[k] = val[a]
                else: e.tab[e.ckey(a)] = val[a]
            for n, v in fs.bs.items():
                if n.op in ('seqeq', 'exists'): continue
                e.tab[('bool', e.ckey(n))] = v
            for n, v in fs.bs.items():
                if n.op == 'seqeq' and v: _force(e, n)
                elif n.op == 'seqeq' and t % 5 == 3: _force(e, n, near=True)
            if t % 2 == 0:
                for a in val:
                    if a.op == 'flen': _fit(e, a, val[a])
            e.memo = {}
            if complete is not None and t % 4 != 3: complete(e); e.memo = {}
            if all(e.bool(f) for f in fs.formulas()): yield e
        except Reject: continue

def _fit(e, a, total):
    """choose as many elements, and each so long, that a sum over a list of symbolic length comes out"""
    n, k, body = a.a
    def free(x):
        return x.op == 'lin' and x.a[0] >= 0 and len(x.a[1]) == 1 and x.a[1][0][1] == 1 and x.a[1][0][0].op == 'len'
    if not free(n) or n.a[0] != 0 or not free(body): return
    ck = e.ckey(n.a[1][0][0].a[0])
    if ck[0] == 'val': return
    c = body.a[0]; most = c + e.rnd.choice([e.rnd.randint(1, 253), 253, 253])
    lo = -(-total // most); hi = total // c if c else max(lo, 1)
    if lo > hi or lo > 2500 or total < 0: return
    cnt = e.rnd.choice([lo, min(hi, lo + 1), e.rnd.randint(lo, min(hi, lo + 30))])
    rest = total; lens = []
    for i in range(cnt):
        left = cnt - i - 1
        x = max(c, min(most, rest - left * c)); x = min(x, e.rnd.choice([x, max(c, rest - left * most, c)])) if rest - left * most <= x else x
        lens.append(x); rest -= x
    if rest: return
    e.tab[('len', ck)] = cnt
    for i, x in enumerate(lens):
        def put():
            q = e.ckey(body.a[1][0][0].a[0])
            if q[0] != 'val': e.tab[('len', q)] = x - c
        e.under(k, i, put)

def _force(e, n, near=False):
    """make an equation between a digest (or any free sequence) and another sequence true; near: all but true, in a way a weak comparison misses"""
    for a, b in ((n.a[0], n.a[1]), (n.a[1], n.a[0])):
        if a.op == 'seq' and len(a.a) == 1 and a.a[0][0] == 's':
            s = a.a[0]
            tgt = e.seq(b)
            lo, hi = e.int(s[2]), e.int(s[3])
            if hi - lo != len(tgt): continue
            if near:
                tgt = list(tgt)
                if len(tgt) < 2 or not all(isinstance(x, int) and 0 <= x < 256 for x in tgt): return
                i, j = e.rnd.sample(range(len(tgt)), 2); how = e.rnd.randrange(4); d = e.rnd.choice([1, 2, 4, 32, 128])
                if how == 0: tgt[i] ^= d; tgt[j] ^= d
                elif how == 1: tgt[i], tgt[j] = tgt[j], tgt[i]
                elif how == 2: tgt[i] = (tgt[i] + d) % 256; tgt[j] = (tgt[j] - d) % 256
                else: tgt[e.rnd.choice([0, len(tgt) - 1, i])] ^= d
            for i, v in enumerate(tgt):
                el = elem_value(s[1], I(lo + i))
                if el.op != 'lin' or len(el.a[1]) != 1: return
                e.tab[e.ckey(el.a[1][0][0].a[0])] = v
            return

def differ(fs, pairs, seed=1, tries=80, edges=True):
    """a concretisation of the facts where some pair of values differs, described as text; None if none found"""
    cnt = 0
    for e in models(fs, seed, tries, hint=hints([x for p in pairs for x in p])):
        try:
            for a, b in pairs:
                x, y = e.cv(a), e.cv(b)
                if x != y: return describe(e, x, y)
        except Reject: continue
        cnt += 1
        if cnt > 40: break
    return differ_at_edges(fs, pairs, seed) if edges else None

def differ_at_edges(fs, pairs, seed):
    """the same, at points where one of the inequalities about the values compared is an equation"""
    if not all(isinstance(x, N) for p in pairs for x in p): return None
    atoms = {y for p in pairs for x in p for y in fv(x) if y.op in ('flen', 'len', 'isym', 'sym')}
    n = 0
    for l in list(fs.les):
        if not any(y in atoms for a, _ in l.a[1] for y in fv(a)): continue
        g = fs.assume(eqi(l, I(0)))
        if g is None: continue
        n += 1
        if n > 12: break
        w = differ(g, pairs, seed, tries=10, edges=False)
        if w is not None: return w
    return None

def describe(e, x, y):
    t = {}
    for k, v in list(e.tab.items())[:60]:
        if isinstance(k, tuple) and k and k[0] in ('len', 'isym', 'at', 'fld', 'J', 'phi'): t[_ks(k)] = v
    return {'point': {k: t[k] for k in list(t)[:14]}, 'code': _cut(x), 'spec': _cut(y)}

def _ks(k):
    if not isinstance(k, tuple): return str(k)
    if k and k[0] in ('sym', 'isym'): return str(k[1])
    if k and k[0] == 'len': return f'len({_ks(k[1])})'
    if k and k[0] == 'at': return f'{_ks(k[1])}[{k[2]}]'
    if k and k[0] == 'fld': return f'{_ks(k[1])}.{k[2]}'
    return '(' + ','.join(_ks(x) for x in k)[:60] + ')'

def _cut(x):
    s = str(x)
    return s if len(s) < 300 else s[:300] + '…'
