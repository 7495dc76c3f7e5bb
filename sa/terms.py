"""Term domain: hash-consed nodes, linear integer forms, formulas, normal-form sequences.

Every abstract value of the analysis is a node of this module.  Integers are linear forms over
atoms, booleans are formulas, sequences (slices, vectors, strings, arrays) are normal-form
concatenations of segments.  Nothing here depends on the program analysed.
"""
from math import gcd

class N:
    __slots__ = ('op', 'a', 'id', 'ub', '_fv')
    def __repr__(self): return show(self)
    def __lt__(self, o): return self.id < o.id

_tab = {}
_cnt = [0]

def mk(op, *a):
    k = (op, a)
    n = _tab.get(k)
    if n is None:
        n = N(); n.op = op; n.a = a; n.id = _cnt[0]; _cnt[0] += 1; n.ub = None; n._fv = None
        _tab[k] = n
    return n

# ---------------------------------------------------------------- integers
RNG = {}          # atom id -> (lo, hi)

def set_rng(atom, lo, hi):
    o = RNG.get(atom.id)
    if o:
        lo = o[0] if lo is None else (lo if o[0] is None else max(lo, o[0]))
        hi = o[1] if hi is None else (hi if o[1] is None else min(hi, o[1]))
    RNG[atom.id] = (lo, hi)

def rng(atom):
    r = RNG.get(atom.id)
    return r if r else (None, None)

def Lin(c, terms=()):
    """terms: dict or iterable of (atom, coef)"""
    if isinstance(terms, dict): items = terms.items()
    else:
        d = {}
        for a, k in terms: d[a] = d.get(a, 0) + k
        items = d.items()
    t = tuple(sorted(((a, k) for a, k in items if k != 0), key=lambda x: x[0].id))
    return mk('lin', c, t)

def I(c): return mk('lin', c, ())
def A(atom): return mk('lin', 0, ((atom, 1),))

def is_int(n): return n.op == 'lin'
def cval(n): return n.a[0] if n.op == 'lin' and not n.a[1] else None

def add(x, y):
    if not y.a[1]:
        return mk('lin', x.a[0] + y.a[0], x.a[1])
    if not x.a[1]:
        return mk('lin', x.a[0] + y.a[0], y.a[1])
    return Lin(x.a[0] + y.a[0], list(x.a[1]) + list(y.a[1]))

def scale(x, k):
    if k == 1: return x
    if k == 0: return I(0)
    return mk('lin', x.a[0] * k, tuple((a, c * k) for a, c in x.a[1]))

def sub(x, y): return add(x, scale(y, -1))
def addc(x, c): return mk('lin', x.a[0] + c, x.a[1])

def lrange(x):
    lo = hi = x.a[0]
    for a, k in x.a[1]:
        l, h = rng(a)
        if k < 0: l, h = h, l
        lo = None if lo is None or l is None else lo + k * l
        hi = None if hi is None or h is None else hi + k * h
    return lo, hi

def div_(x, m):
    """floor division by a positive constant"""
    if m == 1: return x
    c = cval(x)
    if c is not None: return I(c // m)
    lo, hi = lrange(x)
    if lo is not None and hi is not None and lo // m == hi // m: return I(lo // m)
    # pull out multiples
    ks = [(a, k) for a, k in x.a[1] if k % m == 0]
    rest = [(a, k) for a, k in x.a[1] if k % m != 0]
    if ks or x.a[0] >= m or x.a[0] < 0:
        q, r = divmod(x.a[0], m)
        y = Lin(r, rest)
        base = Lin(q, [(a, k // m) for a, k in ks])
        return add(base, div_(y, m)) if (y is not x) else A(_div_atom(y, m))
    return A(_div_atom(x, m))

def _div_atom(x, m):
    # canonical: div by 256^k is nested div by 256, by 2^k stays
    if m > 256 and m % 256 == 0:
        d = div_(x, 256)
        r = div_(d, m // 256)
        if len(r.a[1]) == 1 and r.a[0] == 0 and r.a[1][0][1] == 1: return r.a[1][0][0]
        n = mk('idl', r); set_rng(n, *lrange(r)); return n
    n = mk('div', x, m)
    if n.id not in RNG:
        lo, hi = lrange(x)
        RNG[n.id] = (None if lo is None else lo // m, None if hi is None else hi // m)
    return n

def rem_(x, m):
    """x mod m for a positive constant m (result in [0, m))"""
    if m == 1: return I(0)
    c = cval(x)
    if c is not None: return I(c % m)
    lo, hi = lrange(x)
    if lo is not None and hi is not None and lo // m == hi // m:
        return addc(x, -(lo // m) * m)
    terms = [(a, k % m) for a, k in x.a[1]]
    y = Lin(x.a[0] % m, terms)
    if y is not x:
        return rem_(y, m)
    if m > 256 and m % 256 == 0:
        return add(rem_(x, 256), scale(rem_(div_(x, 256), m // 256), 256))
    n = mk('rem', x, m)
    set_rng(n, 0, m - 1)
    return A(n)

def byte_of(x, k):
    """k-th octet (k = 0 least significant) of x"""
    y = x
    for _ in range(k): y = div_(y, 256)
    return rem_(y, 256)

def from_be(bs):
    r = I(0)
    for b in bs: r = add(scale(r, 256), b)
    return collapse(r)

def collapse(x):
    """256*div(y,256)+rem(y,256) -> y, repeatedly"""
    while True:
        d = dict(x.a[1])
        done = True
        for a, k in x.a[1]:
            if a.op == 'rem':
                y, m = a.a
                q = div_(y, m)
                # need k*m*q present in x
                need = scale(q, k * m)
                if need.a[1] and all(d.get(b, 0) == c or (d.get(b, 0) * c > 0 and abs(d.get(b, 0)) >= abs(c)) for b, c in need.a[1]):
                    x2 = add(sub(sub(x, Lin(0, [(a, k)])), need), scale(y, k))
                    x = x2; done = False
                    break
        if done: return x

def bitand(x, y):
    if cval(x) is not None: x, y = y, x
    c = cval(y)
    if c is not None:
        if cval(x) is not None: return I(cval(x) & c)
        if c == 0: return I(0)
        lo, hi = lrange(x)
        if c > 0 or (lo is not None and lo >= 0):
            # decompose mask into runs of ones
            r = I(0); i = 0; cc = c if c > 0 else c & ((1 << 128) - 1)
            if hi is not None: cc &= (1 << max(hi.bit_length(), 1)) - 1
            else:
                if cc.bit_length() > 64: return A(_bop('band', x, y))
            while cc:
                tz = (cc & -cc).bit_length() - 1
                cc >>= tz; i += tz
                ones = ((~cc) & (cc + 1)).bit_length() - 1
                f = rem_(div_(x, 1 << i), 1 << ones)
                r = add(r, scale(f, 1 << i))
                cc >>= ones; i += ones
            return collapse(r)
    return A(_bop('band', x, y))

def bitor(x, y):
    if cval(x) is not None and cval(y) is not None: return I(cval(x) | cval(y))
    if cval(x) is not None: x, y = y, x
    c = cval(y)
    if c == 0: return x
    if c is not None and c > 0:
        return sub(add(x, y), bitand(x, y))
    if x is y: return x
    # disjoint parts: one is a multiple of 2^k, the other below 2^k
    for p, q in ((x, y), (y, x)):
        lo, hi = lrange(q)
        if lo is not None and hi is not None and lo >= 0:
            m = 1 << hi.bit_length()
            if p.a[0] % m == 0 and all(k % m == 0 for _, k in p.a[1]): return collapse(add(p, q))
    return A(_bop('bor', x, y))

def bitxor(x, y):
    if cval(x) is not None and cval(y) is not None: return I(cval(x) ^ cval(y))
    if x is y: return I(0)
    if cval(x) == 0: return y
    if cval(y) == 0: return x
    # flatten nested xor
    parts = []
    c = 0
    for z in (x, y):
        if len(z.a[1]) == 1 and z.a[0] == 0 and z.a[1][0][1] == 1 and z.a[1][0][0].op == 'bxor':
            parts += list(z.a[1][0][0].a)
        else: parts.append(z)
    d = {}
    for p in parts:
        if cval(p) is not None: c ^= cval(p)
        elif p in d: del d[p]
        else: d[p] = 1
    ps = sorted(d)
    if c: ps.append(I(c))
    if not ps: return I(0)
    if len(ps) == 1: return ps[0]
    n = mk('bxor', *ps)
    if n.id not in RNG:
        hi = 0
        for p in ps:
            l, h = lrange(p)
            if l is None or l < 0 or h is None: hi = None; break
            hi = max(hi, h)
        RNG[n.id] = (0, (1 << hi.bit_length()) - 1) if hi is not None else (None, None)
    return A(n)

def _bop(op, x, y):
    if y.id < x.id: x, y = y, x
    n = mk(op, x, y)
    if n.id not in RNG:
        (l1, h1), (l2, h2) = lrange(x), lrange(y)
        if None in (l1, h1, l2, h2) or l1 < 0 or l2 < 0: RNG[n.id] = (None, None)
        elif op == 'band': RNG[n.id] = (0, min(h1, h2))
        else: RNG[n.id] = (max(l1, l2), (1 << max(h1, h2).bit_length()) - 1)
    return n

def mul(x, y):
    if cval(x) is not None: return scale(y, cval(x))
    if cval(y) is not None: return scale(x, cval(y))
    if y.id < x.id: x, y = y, x
    n = mk('mul', x, y)
    (l1, h1), (l2, h2) = lrange(x), lrange(y)
    if None not in (l1, l2) and l1 >= 0 and l2 >= 0:
        set_rng(n, l1 * l2, None if h1 is None or h2 is None else h1 * h2)
    return A(n)

def isym(name, lo=None, hi=None):
    n = mk('isym', name); set_rng(n, lo, hi); return A(n)

def bv(k):
    n = mk('bv', k)
    if n.id not in RNG: RNG[n.id] = (0, (1 << 63))
    return n

# ---------------------------------------------------------------- formulas
TRUE = mk('true'); FALSE = mk('false')

def le0(x):
    """x <= 0"""
    c = cval(x)
    if c is not None: return TRUE if c <= 0 else FALSE
    lo, hi = lrange(x)
    if hi is not None and hi <= 0: return TRUE
    if lo is not None and lo > 0: return FALSE
    g = 0
    for _, k in x.a[1]: g = gcd(g, k)
    if g > 1:
        # sum + c <= 0  <=>  sum/g <= floor(-c/g)
        x = Lin(-((-x.a[0]) // g), [(a, k // g) for a, k in x.a[1]])
    if len(x.a[1]) == 1 and x.a[1][0][0].op == 'div':
        # div(t, m) <= v  <=>  t <= m*v + m - 1;   div(t, m) >= v  <=>  t >= m*v
        (n, k), = x.a[1]; t, m = n.a; c = x.a[0]
        if k == 1: return le(t, I(m * -c + m - 1))
        if k == -1: return le(I(m * c), t)
    return mk('le', x)

def le(x, y): return le0(sub(x, y))
def lt(x, y): return le0(addc(sub(x, y), 1))
def ge(x, y): return le(y, x)
def gt(x, y): return lt(y, x)

def eq0(x):
    c = cval(x)
    if c is not None: return TRUE if c == 0 else FALSE
    lo, hi = lrange(x)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0): return FALSE
    g = 0
    for _, k in x.a[1]: g = gcd(g, k)
    if x.a[0] % g: return FALSE
    if x.a[1][0][1] < 0: g = -g
    if g != 1: x = Lin(x.a[0] // g, [(a, k // g) for a, k in x.a[1]])
    if x.a[0] == 0 and len(x.a[1]) == 1 and x.a[1][0][0].op in ('bor', 'bxor'):
        n = x.a[1][0][0]
        if n.op == 'bor' and all((lrange(y)[0] or 0) >= 0 and lrange(y)[0] is not None for y in n.a): return and_(eq0(n.a[0]), eq0(n.a[1]))
        if n.op == 'bxor' and len(n.a) == 2: return eqi(n.a[0], n.a[1])
    if len(x.a[1]) == 1 and x.a[1][0][0].op == 'div' and x.a[1][0][1] == 1:
        t, m = x.a[1][0][0].a; v = -x.a[0]
        return and_(le(I(m * v), t), le(t, I(m * v + m - 1)))
    return mk('eq', x)

def eqi(x, y): return eq0(sub(x, y))

def batom(n): return mk('b', n)

def not_(f):
    o = f.op
    if o == 'true': return FALSE
    if o == 'false': return TRUE
    if o == 'le': return le0(addc(scale(f.a[0], -1), 1))
    if o == 'not': return f.a[0]
    if o == 'and': return or_(*[not_(x) for x in f.a])
    if o == 'or': return and_(*[not_(x) for x in f.a])
    return mk('not', f)

def and_(*fs):
    s = {}
    for f in fs:
        if f is FALSE: return FALSE
        if f is TRUE: continue
        for g in (f.a if f.op == 'and' else (f,)): s[g] = 1
    for g in s:
        if not_(g) in s: return FALSE
    l = sorted(s)
    if not l: return TRUE
    return l[0] if len(l) == 1 else mk('and', *l)

def or_(*fs):
    s = {}
    for f in fs:
        if f is TRUE: return TRUE
        if f is FALSE: continue
        for g in (f.a if f.op == 'or' else (f,)): s[g] = 1
    for g in s:
        if not_(g) in s: return TRUE
    l = sorted(s)
    if not l: return FALSE
    return l[0] if len(l) == 1 else mk('or', *l)

FOPS = {'true', 'false', 'le', 'eq', 'not', 'and', 'or', 'b'}
def is_bool(n): return n.op in FOPS

# ---------------------------------------------------------------- sequences
LENMAX = (1 << 47) - 1      # no object is larger than the address space

def seqatom(node, fixed=None, ety=('int', 8, False)):
    return mk('sa', node, fixed, ety)

def alen(sa):
    if sa.a[1] is not None: return I(sa.a[1])
    if sa.a[0].op == 'wrap': return seq_len(sa.a[0].a[0])
    n = mk('len', sa)
    if n.id not in RNG: RNG[n.id] = (0, LENMAX)
    return A(n)

def S_atom(sa): return mkseq([('s', sa, I(0), alen(sa))])
def S_unit(v): return mkseq([('r', v, I(1))])
def S_units(vs): return mkseq([('r', v, I(1)) for v in vs])
def S_bytes(bs): return mkseq([('r', I(b), I(1)) for b in bs])
def S_rep(v, n): return mkseq([('r', v, n)])
EMPTY = None

def seg_len(s):
    k = s[0]
    if k == 's': return sub(s[3], s[2])
    if k == 'r': return s[2]
    if k == 'c': return s[1]
    if k == 'f': return flat_len(s)
    raise Exception(k)

def flat_len(s):
    """length of a flat segment: n * constant body length, or an opaque sum"""
    _, n, k, body = s
    l = seq_len(body)
    if cval(l) is not None: return scale(n, cval(l))
    a = mk('flen', n, k, l); set_rng(a, 0, LENMAX)
    return A(a)

def seq_len(q):
    if q.op == 'ite':
        l1, l2 = seq_len(q.a[1]), seq_len(q.a[2])
        if l1 is l2: return l1
        a = mk('iteint', q.a[0], l1, l2)
        (a1, b1), (a2, b2) = lrange(l1), lrange(l2)
        set_rng(a, 0 if None in (a1, a2) else min(a1, a2), None if None in (b1, b2) else max(b1, b2))
        return A(a)
    r = I(0)
    for s in segs(q): r = add(r, seg_len(s))
    return r

def segs(q): return q.a

def at_atom(sa, i):
    """element i of an atomic sequence, as a raw symbolic node"""
    return mk('at', sa, i)

def unflat(ss):
    """repetitions of a sequence a known small number of times, written out"""
    for s in ss:
        if s[0] == 'f' and s[3].op == 'seq' and cval(s[1]) is not None and cval(s[1]) <= 32:
            for i in range(cval(s[1])): yield from unflat(subst(s[3], {bv(s[2]): I(i)}).a)
        else: yield s

def mkseq(ss):
    out = []
    for s in unflat(ss):
        if s[0] == 's':
            if s[2] is s[3]: continue
            if out and out[-1][0] == 's' and out[-1][1] is s[1] and out[-1][3] is s[2]:
                out[-1] = ('s', s[1], out[-1][2], s[3]); continue
        elif s[0] == 'r':
            if cval(s[2]) == 0: continue
            v = s[1]
            # element of an atomic sequence -> one-element slice
            if v.op == 'lin' and len(v.a[1]) == 1 and v.a[0] == 0 and v.a[1][0][1] == 1:
                at = v.a[1][0][0]
                if at.op == 'i' and at.a[0].op == 'at' and cval(s[2]) == 1:
                    node = at.a[0]
                    t = ('s', node.a[0], node.a[1], addc(node.a[1], 1))
                    if out and out[-1][0] == 's' and out[-1][1] is t[1] and out[-1][3] is t[2]:
                        out[-1] = ('s', t[1], out[-1][2], t[3])
                    else: out.append(t)
                    continue
            if out and out[-1][0] == 'r' and out[-1][1] is v:
                out[-1] = ('r', v, add(out[-1][2], s[2])); continue
        elif s[0] == 'c':
            if cval(s[1]) == 0: continue
            t = norm_comp(s)
            if len(t) != 1 or t[0] != s:
                for u in mkseq(t).a: out = _push(out, u)
                continue
        elif s[0] == 'f':
            if cval(s[1]) == 0: continue
            t = norm_flat(s)
            if len(t) != 1 or t[0] != s:
                for u in mkseq(t).a: out = _push(out, u)
                continue
        out.append(s)
    return mk('seq', *out)

def _push(out, s):
    if out and out[-1][0] == s[0] == 's' and out[-1][1] is s[1] and out[-1][3] is s[2]:
        out[-1] = ('s', s[1], out[-1][2], s[3])
    elif out and out[-1][0] == s[0] == 'r' and out[-1][1] is s[1]:
        out[-1] = ('r', s[1], add(out[-1][2], s[2]))
    else: out.append(s)
    return out

def norm_comp(s):
    """('c', n, k, body): n elements body[bv(k) := i]"""
    _, n, k, body = s
    b = bv(k)
    if not has_bv(body, k): return [('r', body, n)]
    if body.op == 'lin' and len(body.a[1]) == 1 and body.a[0] == 0 and body.a[1][0][1] == 1:
        at = body.a[1][0][0]
        if at.op == 'i' and at.a[0].op == 'at':
            sa, ix = at.a[0].a
            off = sub(ix, A(b))
            if not has_bv(off, k) and not has_bv(sa, k): return [('s', sa, off, add(off, n))]
    if cval(n) == 1:
        return [('r', subst(body, {b: I(0)}), I(1))]
    return [s]

def norm_flat(s):
    _, n, k, body = s
    if body.op == 'seq':
        if not body.a: return []
        if len(body.a) == 1 and body.a[0][0] == 'r' and cval(body.a[0][2]) == 1:
            return [('c', n, k, body.a[0][1])]
        if len(body.a) == 1 and body.a[0][0] == 's':
            _, sa, st, en = body.a[0]
            # flat of consecutive slices: start(i+1) == end(i)
            if not has_bv(sa, k):
                nxt = subst(st, {bv(k): addc(A(bv(k)), 1)})
                if nxt is en and has_bv(st, k):
                    s0 = subst(st, {bv(k): I(0)})
                    return [('s', sa, s0, subst(st, {bv(k): n}))]
    return [s]

def cat(*qs):
    out = []
    for q in qs:
        assert q.op == 'seq', q
        out += list(q.a)
    return mkseq(out)

EMPTY = mk('seq')

# ---------------------------------------------------------------- free variables and substitution
def _children(n):
    for x in n.a:
        if isinstance(x, N): yield x
        elif isinstance(x, tuple):
            yield from _tch(x)

def _tch(t):
    for y in t:
        if isinstance(y, N): yield y
        elif isinstance(y, tuple): yield from _tch(y)

def fv(n):
    """set of leaf atoms (isym, sym, phi, J, bv) occurring in n"""
    if n._fv is not None: return n._fv
    if n.op in ('isym', 'sym', 'phi', 'J', 'bv', 'unk', 'rnd', 'cell'):
        r = frozenset((n,))
        if n.op == 'rnd':
            for c in _children(n): r |= fv(c)
    else:
        r = frozenset()
        for c in _children(n): r |= fv(c)
        if n.op in ('exists', 'first', 'flen'): pass
    n._fv = r
    return r

def has_bv(n, k): return bv(k) in fv(n)
def max_bv(n):
    m = 0
    for x in fv(n):
        if x.op == 'bv': m = max(m, x.a[0])
    return m

def subst(n, m, memo=None):
    """replace atoms/nodes by terms (atoms inside linear forms map to linear forms)"""
    if not m: return n
    if memo is None: memo = {}
    keys = frozenset(m)
    return _subst(n, m, keys, memo)

def _hits(n, keys, memo):
    r = memo.get(('h', n))
    if r is None:
        if n in keys: r = True
        else:
            r = any(_hits(c, keys, memo) for c in _children(n))
        memo[('h', n)] = r
    return r

def _subst(n, m, keys, memo):
    if n in m: return m[n]
    if not _hits(n, keys, memo): return n
    r = memo.get(n)
    if r is not None: return r
    r = rebuild(n, lambda x: _subst(x, m, keys, memo))
    memo[n] = r
    return r

def _maptuple(t, f):
    return tuple(f(y) if isinstance(y, N) else (_maptuple(y, f) if isinstance(y, tuple) else y) for y in t)

def _atom_to_lin(a, f):
    x = f(a)
    return x if x.op == 'lin' else A(x)

REBUILD = {}

def rebuild(n, f):
    op = n.op
    if op == 'lin':
        r = I(n.a[0])
        for a, k in n.a[1]: r = add(r, scale(_atom_to_lin(a, f), k))
        return collapse(r) if any(a.op == 'rem' for a, _ in r.a[1]) else r
    if op == 'div': return div_(f(n.a[0]), n.a[1])
    if op == 'rem': return rem_(f(n.a[0]), n.a[1])
    if op == 'idl': return f(n.a[0])
    if op == 'len':
        sa = f(n.a[0])
        if sa.op == 'sa': return alen(sa)
        return seq_len(sa)
    if op == 'band': return bitand(f(n.a[0]), f(n.a[1]))
    if op == 'bor': return bitor(f(n.a[0]), f(n.a[1]))
    if op == 'bxor':
        r = I(0)
        for x in n.a: r = bitxor(r, f(x))
        return r
    if op == 'mul': return mul(f(n.a[0]), f(n.a[1]))
    if op == 'le': return le0(f(n.a[0]))
    if op == 'eq': return eq0(f(n.a[0]))
    if op == 'not': return not_(f(n.a[0]))
    if op == 'and': return and_(*[f(x) for x in n.a])
    if op == 'or': return or_(*[f(x) for x in n.a])
    if op == 'b':
        x = f(n.a[0])
        return x if is_bool(x) else batom(x)
    if op == 'seq':
        out = []
        for s in n.a:
            if s[0] == 's':
                sa = f(s[1])
                st, en = f(s[2]), f(s[3])
                if sa.op == 'sa': out.append(('s', sa, st, en))
                else:       # an atomic sequence was replaced by a composite one
                    out += list(raw_slice(sa, st, en).a)
            elif s[0] == 'r': out.append(('r', f(s[1]), f(s[2])))
            else: out.append((s[0], f(s[1]), s[2], f(s[3])))
        return mkseq(out)
    if op == 'flen':
        nn, k, l = f(n.a[0]), n.a[1], f(n.a[2])
        if cval(l) is not None: return scale(nn, cval(l))
        a = mk('flen', nn, k, l); set_rng(a, 0, LENMAX); return a
    if op == 'i':
        x = f(n.a[0])
        if x.op == 'lin': return x
        m2 = mk('i', x)
        if n.id in RNG: set_rng(m2, *RNG[n.id])
        return m2
    if op == 'at':
        sa, i = f(n.a[0]), f(n.a[1])
        if sa.op == 'sa': return mk('at', sa, i)
        v = seq_at_static(sa, i)
        return v if v is not None else mk('atc', sa, i)
    if op == 'atc':
        q, i = f(n.a[0]), f(n.a[1])
        v = seq_at_static(q, i)
        return v if v is not None else mk('atc', q, i)
    if op == 'sa':
        x = f(n.a[0])
        if x.op == 'seq': return x
        return mk('sa', x, n.a[1], n.a[2])
    if op == 'ite': return ite(f(n.a[0]), f(n.a[1]), f(n.a[2]))
    if op == 'iteint':
        r = iteint(f(n.a[0]), f(n.a[1]), f(n.a[2]))
        return r
    if op == 'seqeq': return mk_seqeq(f(n.a[0]), f(n.a[1]))
    if op in REBUILD: return REBUILD[op](n, f)
    r = mk(op, *_maptuple(n.a, f))
    if n.id in RNG and r.id not in RNG: RNG[r.id] = RNG[n.id]
    return r

def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if is_bool(a) and is_bool(b): return or_(and_(c, a), and_(not_(c), b))
    if a.op == 'lin' and b.op == 'lin': return A_(iteint(c, a, b))
    if c.op == 'not' or (c.op == 'le' and not_(c).id < c.id): return mk('ite', not_(c), b, a)
    return mk('ite', c, a, b)

def A_(x): return x if x.op == 'lin' else A(x)

def iteint(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == 'not' or (c.op == 'le' and not_(c).id < c.id): c, a, b = not_(c), b, a
    n = mk('iteint', c, a, b)
    (l1, h1), (l2, h2) = lrange(a), lrange(b)
    set_rng(n, None if None in (l1, l2) else min(l1, l2), None if None in (h1, h2) else max(h1, h2))
    return n

def seq_at_static(q, i):
    """element at index i when decidable without facts"""
    if q.op != 'seq': return None
    off = I(0)
    for s in q.a:
        l = seg_len(s)
        rel = sub(i, off)
        lo, hi = lrange(rel)
        inlo = lo is not None and lo >= 0
        d = sub(rel, l)
        dl, dh = lrange(d)
        if inlo and dh is not None and dh < 0: return seg_elem(s, rel)
        if not (dl is not None and dl >= 0): return None
        off = add(off, l)
    return None

def seg_elem(s, rel):
    k = s[0]
    if k == 's': return elem_value(s[1], add(s[2], rel))
    if k == 'r': return s[1]
    if k == 'c': return subst(s[3], {bv(s[2]): rel})
    return None

ELEM = [None]   # hook: (sa, idx) -> typed value, set by the interpreter
def elem_value(sa, idx):
    return ELEM[0](sa, idx)

def raw_slice(q, st, en):
    """slice of a composite sequence when boundaries are decidable without facts; else an opaque one"""
    L = seq_len(q)
    if cval(st) == 0 and en is L: return q
    out = []; off = I(0); ok = True
    for s in q.a:
        l = seg_len(s); end = add(off, l)
        # relation of [off,end) with [st,en)
        def cmp(a, b):
            lo, hi = lrange(sub(a, b))
            if lo is not None and lo >= 0: return 1 if lo > 0 else (0 if hi == 0 else 2)
            if hi is not None and hi <= 0: return -1 if hi < 0 else -2
            return None
        c1 = cmp(off, en); c2 = cmp(st, end)
        if c1 in (0, 1, 2) or c2 in (0, 1, 2): off = end; continue
        cs = cmp(st, off); ce = cmp(en, end)
        if cs is None or ce is None: ok = False; break
        a = I(0) if cs in (0, -1, -2) else sub(st, off)
        b = l if ce in (0, 1, 2) else sub(en, off)
        t = seg_slice(s, a, b)
        if t is None: ok = False; break
        out.append(t); off = end
    if ok: return mkseq(out)
    return mkseq([('s', mk('sa', mk('wrap', q), None, seq_ety(q)), st, en)])

def seg_slice(s, a, b):
    k = s[0]
    if cval(a) == 0 and b is seg_len(s): return s
    if k == 's': return ('s', s[1], add(s[2], a), add(s[2], b))
    if k == 'r': return ('r', s[1], sub(b, a))
    if k == 'c':
        if cval(a) == 0: return ('c', b, s[2], s[3])
        return ('c', sub(b, a), s[2], subst(s[3], {bv(s[2]): add(A(bv(s[2])), a)}))
    if k == 'f':
        l = cval(seq_len(s[3]))
        if l:
            ca, cb = div_(a, l), div_(b, l)
            if scale(ca, l) is a and scale(cb, l) is b:
                if cval(a) == 0: return ('f', cb, s[2], s[3])
                return ('f', sub(cb, ca), s[2], subst(s[3], {bv(s[2]): add(A(bv(s[2])), ca)}))
    return None

def seq_ety(q):
    if q.op == 'sa': return q.a[2]
    if q.op == 'ite': return seq_ety(q.a[1]) or seq_ety(q.a[2])
    for s in q.a:
        if s[0] == 's': return s[1].a[2]
        if s[0] in ('r',):
            if s[1].op == 'lin': return ('int', 8, False)
            return None
        if s[0] == 'c': return ('int', 8, False) if s[3].op == 'lin' else None
        if s[0] == 'f': return seq_ety(s[3])
    return None

def mk_seqeq(a, b):
    if a is b: return TRUE
    if a.op == 'seq' and b.op == 'seq':
        la, lb = seq_len(a), seq_len(b)
        if eqi(la, lb) is FALSE: return FALSE
        # strip common prefix / suffix
        x, y = list(a.a), list(b.a)
        while x and y and x[0] == y[0]: x.pop(0); y.pop(0)
        while x and y and x[-1] == y[-1]: x.pop(); y.pop()
        a, b = mkseq(x), mkseq(y)
        if a is b: return TRUE
        if len(x) == 1 and len(y) == 1 and x[0][0] == 'r' and y[0][0] == 'r' and cval(x[0][2]) == 1 and cval(y[0][2]) == 1:
            if x[0][1].op == 'lin' and y[0][1].op == 'lin': return eqi(x[0][1], y[0][1])
        if la is lb and all(s[0] == 'r' for s in x + y):
            # element-wise when all runs have constant counts
            if all(cval(s[2]) is not None for s in x + y):
                ex = [s[1] for s in x for _ in range(cval(s[2]))]
                ey = [s[1] for s in y for _ in range(cval(s[2]))]
                if len(ex) == len(ey) and all(p.op == 'lin' for p in ex + ey):
                    return and_(*[eqi(p, q) for p, q in zip(ex, ey)])
        if not x and not y: return TRUE
        if not x or not y:
            # empty versus non-empty
            return eq0(seq_len(b if not x else a))
    if b.id < a.id: a, b = b, a
    return batom(mk('seqeq', a, b))

# ---------------------------------------------------------------- printing
def show(n, d=0):
    if not isinstance(n, N):
        if isinstance(n, tuple): return '(' + ','.join(show(x, d + 1) for x in n) + ')'
        return str(n)
    if d > 14: return '..'
    o = n.op; a = n.a
    if o == 'lin':
        p = []
        for x, k in a[1]:
            s = show(x, d + 1)
            p.append(('' if k == 1 else '-' if k == -1 else f'{k}*') + s)
        if a[0] or not p: p.append(str(a[0]))
        r = ' + '.join(p).replace('+ -', '- ')
        return r
    if o in ('isym', 'sym'): return str(a[0])
    if o == 'bv': return f'i{a[0]}'
    if o == 'le': return f'({show(a[0], d+1)} <= 0)'
    if o == 'eq': return f'({show(a[0], d+1)} == 0)'
    if o == 'not': return '!' + show(a[0], d + 1)
    if o in ('and', 'or'): return '(' + (' & ' if o == 'and' else ' | ').join(show(x, d + 1) for x in a) + ')'
    if o == 'b': return show(a[0], d + 1)
    if o == 'true' or o == 'false': return o
    if o == 'sa': return show(a[0], d + 1)
    if o == 'i': return show(a[0], d + 1)
    if o == 'len': return f'len({show(a[0], d+1)})'
    if o == 'at': return f'{show(a[0], d+1)}[{show(a[1], d+1)}]'
    if o == 'seq':
        ls = []
        lit = []
        for s in a:
            if s[0] == 's':
                ls.append(f'{show(s[1], d+1)}[{show(s[2], d+1)}..{show(s[3], d+1)}]')
            elif s[0] == 'r':
                ls.append(show(s[1], d + 1) + ('' if cval(s[2]) == 1 else f'*{show(s[2], d+1)}'))
            elif s[0] == 'c': ls.append(f'[{show(s[3], d+1)} for i{s[2]}<{show(s[1], d+1)}]')
            else: ls.append(f'flat[{show(s[3], d+1)} for i{s[2]}<{show(s[1], d+1)}]')
        if len(ls) > 3 and all(s[0] == 'r' and cval(s[1]) is not None and cval(s[2]) is not None and 9 <= cval(s[1]) < 127 for s in a):
            return '"' + ''.join(chr(cval(s[1])) * cval(s[2]) for s in a) + '"'
        return '<' + ' ++ '.join(ls) + '>'
    if o == 'struct':
        nm = str(a[0]).split('::')[-1]
        return f'{nm}#{a[1]}(' + ', '.join(show(x, d + 1) for x in a[2]) + ')'
    if o == 'ref': return '&' + show(a[0], d + 1)
    if o == 'fld': return f'{show(a[0], d+1)}.{a[1]}'
    if o == 'vfld': return f'{show(a[0], d+1)}.{a[1]}.{a[2]}'
    if o == 'deref': return f'*{show(a[0], d+1)}'
    if o == 'uf': return f'{a[0]}(' + ', '.join(show(x, d + 1) for x in a[1:]) + ')'
    return f'{o}(' + ', '.join(show(x, d + 1) for x in a) + ')'
