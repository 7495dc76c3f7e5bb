"""Further transfer functions: patterns in text, less common list operations, bit shuffling."""
from models import *
from interp import *
from terms import *
from ambient import over
import models

# ---------------------------------------------------------------- patterns in text
def ascii_pat(I_, st, v):
    """the octet a pattern stands for, if it is one ASCII character"""
    try: w = I_.strip(st, v)
    except (Unsupported, Dead): return None
    if w.op == 'lin':
        c = cval(w)
        return I(c) if c is not None and c < 128 else None
    if w.op == 'seq' and cval(seq_len(w)) == 1:
        x = seq_at(st.fs, w, I(0))
        return x if x.op == 'lin' and cval(x) is not None and cval(x) < 128 else None
    return None

def eqoct(c): return mk('struct', 'eqoct', 0, (c,))
_ccl = models.call_closure_like
def call_closure_like(I_, st, f, args):
    if f.a[0] == 'eqoct': return ret(st, eqi(L(I_, st, args[0]), f.a[2][0]))
    if f.a[0] == 'retain_step':
        out = []
        for k, s, v in I_.call_value(st, f.a[2][0], [args[1]]):
            if k != 'ret': out.append((k, s, v)); continue
            def go(s2, v=v):
                return ret(s2, cat(args[0], S_unit(args[1])) if decide(s2.fs, B(I_, s2, v)) else args[0])
            out += I_.fork(s, go)
        return out
    return _ccl(I_, st, f, args)
models.call_closure_like = call_closure_like

@model('std::str::split')
def m_str_split(I_, st, a, f, t):
    c = ascii_pat(I_, st, a[1])
    if c is None: raise Unsupported('split pattern')
    return ret(st, IT('Split', Q(I_, st, a[0]), I(0), eqoct(c), FALSE))

@model('std::str::find', 'std::str::contains')
def m_str_find(I_, st, a, f, t):
    c = ascii_pat(I_, st, a[1]); q = Q(I_, st, a[0])
    it = IT('Seq', q, I(0), seq_len(q))
    if c is None:
        if f['name'] != 'contains': raise Unsupported('pattern')
        return ret(st, TRUE if decide(st.fs, batom(mk('uf', 'text_contains', q, a[1]))) else FALSE)
    if f['name'] == 'contains': return search(I_, st, it, eqoct(c), lambda s, q, i: ret(s, TRUE), lambda s: ret(s, FALSE))
    return search(I_, st, it, eqoct(c), lambda s, q, i: ret(s, SOME(i)), lambda s: ret(s, NONE))

@model('std::str::split_once')
def m_split_once(I_, st, a, f, t):
    c = ascii_pat(I_, st, a[1])
    if c is None: raise Unsupported('pattern')
    q = Q(I_, st, a[0])
    def found(s, q, i): return ret(s, SOME(TUP(slice_seq(s.fs, q, I(0), i), slice_seq(s.fs, q, addc(i, 1), seq_len(q)))))
    return search(I_, st, IT('Seq', q, I(0), seq_len(q)), eqoct(c), found, lambda s: ret(s, NONE))

@model('std::slice::strip_prefix', 'std::slice::strip_suffix', 'std::str::strip_prefix', 'std::str::strip_suffix')
def m_strip_fix(I_, st, a, f, t):
    q = Q(I_, st, a[0]); w = I_.strip(st, a[1])
    if w.op == 'lin':
        c = ascii_pat(I_, st, a[1])
        if c is None: raise Unsupported('pattern')
        r = S_unit(c)
    elif w.op == 'seq': r = w
    else: raise Unsupported('pattern')
    n = seq_len(q); m = seq_len(r)
    if not decide(st.fs, le(m, n)): return ret(st, NONE)
    pre = f['name'] == 'strip_prefix'
    x = slice_seq(st.fs, q, I(0), m) if pre else slice_seq(st.fs, q, sub(n, m), n)
    if not decide(st.fs, veq(I_, st, x, r)): return ret(st, NONE)
    return ret(st, SOME(slice_seq(st.fs, q, m, n) if pre else slice_seq(st.fs, q, I(0), sub(n, m))))

@model('std::str::ends_with')
def m_str_ends(I_, st, a, f, t):
    w = I_.strip(st, a[1])
    if w.op == 'lin':
        c = ascii_pat(I_, st, a[1])
        if c is None: raise Unsupported('pattern')
        return TAB['std::slice::ends_with'](I_, st, [a[0], S_unit(c)], f, t)
    if w.op != 'seq': raise Unsupported('pattern')
    return TAB['std::slice::ends_with'](I_, st, a, f, t)
def starts_char(I_, st, a, f, t):
    w = I_.strip(st, a[1])
    if w.op == 'seq': return None
    c = ascii_pat(I_, st, a[1])
    if c is None: raise Unsupported('pattern')
    q = Q(I_, st, a[0]); n = seq_len(q)
    if not decide(st.fs, ge(n, I(1))): return ret(st, FALSE)
    return ret(st, eqi(seq_at(st.fs, q, I(0)), c))
over(['std::str::starts_with'], starts_char)

@model('std::str::replace', 'std::str::replacen')
def m_replace(I_, st, a, f, t):
    q = Q(I_, st, a[0])
    if all(s[0] == 'r' for s in q.a): raise Unsupported('replace in a literal')
    return ret(st, TEXT(mk('uf', f['name'], q, *[I_.strip(st, x) for x in a[1:]])))

@model('std::str::is_char_boundary')
def m_boundary(I_, st, a, f, t):
    q = Q(I_, st, a[0]); n = seq_len(q); i = L(I_, st, a[1])
    if cval(i) == 0: return ret(st, TRUE)
    if decide(st.fs, gt(i, n)): return ret(st, FALSE)
    if decide(st.fs, or_(eqi(i, n), le(i, I(0)))): return ret(st, TRUE)
    return ret(st, TRUE if decide(st.fs, batom(mk('uf', 'char_boundary', q, i))) else FALSE)

def str_get(I_, st, a, f, t):
    """text.get(range): None where the range would cut a character"""
    i = I_.strip(st, a[1])
    if i.op == 'lin': return None
    q = Q(I_, st, a[0]); n = seq_len(q); lo, hi = rbounds(I_, st, i, n)
    if not decide(st.fs, and_(le(lo, hi), le(hi, n))): return ret(st, NONE)
    for x in (lo, hi):
        if cval(x) == 0 or x is n or st.fs.simp(eqi(x, n)) is TRUE: continue
        c = or_(le(x, I(0)), ge(x, n), batom(mk('uf', 'char_boundary', q, x)))
        if not decide(st.fs, c): return ret(st, NONE)
    return ret(st, SOME(slice_seq(st.fs, q, lo, hi)))
over(['std::str::get'], str_get)

@model('std::string::String::push')
def m_push_char(I_, st, a, f, t):
    c = cval(L(I_, st, a[1]))
    if c is None or c > 0x10ffff: raise Unsupported('push of a character')
    m = mref_of(I_, st, a[0])
    I_.mwrite(st, m, cat(Q(I_, st, m), S_bytes(chr(c).encode())))
    return ret(st, UNIT)
@model('std::string::String::truncate')
def m_str_trunc(I_, st, a, f, t):
    m = mref_of(I_, st, a[0]); q = Q(I_, st, m); n = seq_len(q); i = L(I_, st, a[1])
    if decide(st.fs, ge(i, n)): return ret(st, UNIT)
    st, out = bounds_of_text(I_, st, q, [i], t)
    if st is None: return out
    I_.mwrite(st, m, slice_seq(st.fs, q, I(0), i))
    return out + ret(st, UNIT)

# texts made of some of the characters of another
def chars_under(it):
    n = 0
    while it.op == 'struct' and it.a[0].startswith('iter:') and n < 10:
        if it.a[0] == 'iter:Chars': return it
        if not it.a[2]: return None
        it = it.a[2][0]; n += 1
    return None
def collect_chars(I_, st, a, f, t):
    ty = dty(I_, t)
    if not ty or ty['s'] != 'std::string::String': return None
    try: it = into_iter(I_, st, a[0]) if a[0].op != 'mref' else None
    except (Unsupported, Split, Dead): return None
    if it is None: return None
    c = chars_under(it)
    if c is None: return None
    q = c.a[2][0]
    if it is c: return ret(st, q)
    if all(s[0] == 'r' for s in q.a): return None
    return ret(st, TEXT(mk('uf', 'characters', it)))
over(['std::iter::Iterator::collect'], collect_chars)
def any_char(I_, st, a, f, t):
    it = I_.strip(st, a[0])
    c = chars_under(it) if it.op == 'struct' else None
    if c is None: return None
    q = c.a[2][0]
    if cval(seq_len(q)) == 0: return ret(st, TRUE if f['name'] == 'all' else FALSE)
    return ret(st, TRUE if decide(st.fs, batom(mk('uf', 'characters_' + f['name'], it, I_.strip(st, a[1])))) else FALSE)
over(['std::iter::Iterator::any', 'std::iter::Iterator::all'], any_char)

# ---------------------------------------------------------------- lists
_retain = TAB['std::vec::Vec::retain']
@model('std::vec::Vec::retain', 'std::vec::Vec::retain_mut')
def m_retain2(I_, st, a, f, t):
    s0 = st.copy()
    try: return _retain(I_, st, a, f, t)
    except Unsupported as e:
        if 'side effects' not in str(e): raise
    # a predicate that remembers: element by element
    import loops
    m = mref_of(I_, s0, a[0]); q = Q(I_, s0, m)
    I_.fid += 1
    cell = ('ret', I_.fid)
    fv_ = a[1]
    if fv_.op != 'mref': s0.cells[cell] = fv_; fv_ = mk('mref', cell, ())
    outs = loops.it_loop(I_, s0, IT('Seq', q, I(0), seq_len(q)), 'fold', [None, EMPTY, mk('struct', 'retain_step', 0, (fv_,))], t)
    res = []
    for k, s, v in outs:
        if k != 'ret': res.append((k, s, v)); continue
        s = s.copy(); I_.mwrite(s, m, v); s.cells.pop(cell, None); res.append(('ret', s, UNIT))
    return res

@model('std::slice::sort', 'std::slice::sort_unstable', 'std::slice::sort_by_key', 'std::slice::sort_by', 'std::slice::sort_unstable_by_key', 'std::slice::sort_unstable_by', 'std::slice::sort_by_cached_key')
def m_sort(I_, st, a, f, t):
    m = mref_of(I_, st, a[0]); q = Q(I_, st, m); n = seq_len(q)
    if decide(st.fs, le(n, I(1))): return ret(st, UNIT)
    e = sample_elem(q)
    if e is None: return ret(st, UNIT)
    if e.op == 'lin' and all(s[0] == 'r' for s in q.a): raise Unsupported('sort of literals')
    if len(q.a) == 1 and q.a[0][0] == 's': ety = q.a[0][1].a[2]
    elif e.op == 'lin': ety = U8
    elif e.op == 'struct' and e.a[0] in I_.P.adts: ety = ('ty', e.a[0].removeprefix('crate::'))
    else: raise Unsupported('sort')
    r = S_atom(seqatom(mk('uf', f['name'], q), None, ety))
    st = st.assume(eqi(seq_len(r), n))
    if st is None: return []
    I_.mwrite(st, m, r)
    return ret(st, UNIT)

@model('std::vec::Vec::dedup_by', 'std::vec::Vec::dedup_by_key')
def m_dedup_by(I_, st, a, f, t):
    m = mref_of(I_, st, a[0]); q = Q(I_, st, m); n = seq_len(q)
    def fn(s, j):
        if not decide(s.fs, ge(j, I(1))): return ret(s, FALSE)
        x = seq_at(s.fs, q, j); y = seq_at(s.fs, q, addc(j, -1))
        if f['name'] == 'dedup_by': return I_.call_value(s, a[1], [x, y])
        out = []
        for k, s1, u in I_.call_value(s, a[1], [x]):
            if k != 'ret': out.append((k, s1, u)); continue
            out += [(k2, s2, veq(I_, s2, u, w)) if k2 == 'ret' else (k2, s2, w) for k2, s2, w in I_.call_value(s1, a[1], [y])]
        return out
    st, alts, pan, b = under(I_, st, n, fn)
    same = or_(*[and_(c, B(I_, st, v)) for c, v in alts]) if alts else FALSE
    I_.mwrite(st, m, flat(n, b, ite(same, EMPTY, S_unit(seq_at(st.fs, q, A(b))))))
    return pan + ret(st, UNIT)

@model('std::iter::Iterator::partition')
def m_partition(I_, st, a, f, t):
    it = into_iter(I_, st, a[0])
    def fn(s, x):
        return each(I_, to_seq(I_, s, IT('Filter', it, mk('struct', 'negate', 0, (a[1],)))), lambda s2, y: ret(s2, TUP(x, y)))
    return each(I_, to_seq(I_, st, IT('Filter', it, a[1])), fn)

@model('std::slice::repeat', 'std::str::repeat')
def m_repeat_seq(I_, st, a, f, t):
    q = Q(I_, st, a[0]); n = L(I_, st, a[1]); c = cval(n)
    if len(q.a) == 1 and q.a[0][0] == 'r' and cval(q.a[0][2]) == 1: return ret(st, S_rep(q.a[0][1], n))
    if c is not None and c <= 64: return ret(st, cat(*[q] * c) if c else EMPTY)
    raise Unsupported('repeat')

# ---------------------------------------------------------------- bits
def shifted(x, b, k):
    k %= b
    if k == 0: return x
    return add(rem_(scale(x, 1 << k), 1 << b), div_(x, 1 << (b - k)))
@num('rotate_left')
def n_rotl(I_, st, a, f, t):
    b, s = itype(f); x = L(I_, st, a[0]); k = cval(L(I_, st, a[1]))
    if s or k is None: raise Unsupported('rotate')
    return ret(st, shifted(x, b, k))
@num('rotate_right')
def n_rotr(I_, st, a, f, t):
    b, s = itype(f); x = L(I_, st, a[0]); k = cval(L(I_, st, a[1]))
    if s or k is None: raise Unsupported('rotate')
    return ret(st, shifted(x, b, b - k % b))
@num('reverse_bits')
def n_revbits(I_, st, a, f, t):
    b, s = itype(f); x = L(I_, st, a[0])
    if s: raise Unsupported('reverse_bits')
    r = I(0)
    for i in range(b): r = add(r, scale(rem_(div_(x, 1 << i), 2), 1 << (b - 1 - i)))
    return ret(st, r)
@num('count_ones')
def n_ones(I_, st, a, f, t):
    b, s = itype(f); x = L(I_, st, a[0])
    if s: raise Unsupported('count_ones')
    r = I(0)
    for i in range(b): r = add(r, rem_(div_(x, 1 << i), 2))
    return ret(st, r)

# ---------------------------------------------------------------- the largest and the smallest by a key
@model('std::iter::Iterator::max_by_key', 'std::iter::Iterator::min_by_key')
def m_best(I_, st, a, f, t):
    big = f['name'] == 'max_by_key'
    def fn(s, q):
        n = models.known(s.fs, seq_len(q))
        s, alts, pan, b = under(I_, s, n, lambda s2, j: I_.call_value(s2, a[1], [seq_at(s2.fs, q, j)]))
        if not decide(s.fs, lt(I(0), n)): return pan + ret(s, NONE)
        def num(s2, v):
            v = I_.strip(s2, v)
            if v.op == 'lin': return v
            if v.op in ('b', 'not', 'and', 'or', 'le', 'eq', 'ne', 'T', 'F') or v is TRUE or v is FALSE: return ite(v, I(1), I(0))
            raise Unsupported('key of ' + v.op)
        k = models.merge_ite([(c, num(s, v)) for c, v in alts])
        b2 = bv(b.a[0] + 1)
        k2 = subst(k, {b: A(b2)})
        # the first minimum; the last maximum
        better = gt(k2, k) if big else lt(k2, k)
        if big: better = or_(better, and_(eqi(k2, k), lt(A(b), A(b2))))
        c = not_(exists(n, b2, better))
        i = first(n, b, c)
        s = s.assume(and_(le(I(0), i), lt(i, n)))
        if s is None: return pan
        s = s.assume(subst(c, {b: i}))
        if s is None: return pan
        return pan + ret(s, SOME(seq_at(s.fs, q, i)))
    return models.each(I_, models.to_seq(I_, st, itarg(I_, st, a[0])), fn)
