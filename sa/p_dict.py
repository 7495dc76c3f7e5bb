"""Dictionary accessors (C14-C17): the tables are read from /repo/dicts on every run."""
import os, re
from spec import *
from p_core import *
import p_core

def key(s): return re.sub(r'[^a-z0-9]', '', s.lower())

class Attr:
    def __init__(self, mod, name, num, typ, opts, line): self.mod = mod; self.name = name; self.num = num; self.typ = typ; self.opts = opts; self.line = line

def dicts(repo):
    """[(module, attributes, values)] of the shipped dictionaries"""
    out = []
    d = os.path.join(repo, 'dicts')
    for f in sorted(os.listdir(d)):
        if not f.startswith('dictionary.'): continue
        at_, va = [], []
        for ln, l in enumerate(open(os.path.join(d, f), errors='replace'), 1):
            w = l.split('#')[0].split()
            if not w: continue
            if w[0] == 'ATTRIBUTE': at_.append(Attr(f[11:], w[1], int(w[2], 0), w[3], set(w[4].split(',')) if len(w) > 4 else set(), ln))
            elif w[0] == 'VALUE': va.append((f[11:], w[1], w[2], int(w[3], 0), ln))
        out.append((f[11:], at_, va))
    return out

def attributes(repo): return [a for _, at_, _ in dicts(repo) for a in at_]

def module_items(P, mod):
    """accessor functions and constants of a module by normalised name"""
    pre = f'crate::core::{mod}::'
    fns = {}
    for k, b in P.bodies.items():
        if k.startswith(pre) and b['kind'] == 'Fn' and '::' not in k[len(pre):]: fns.setdefault(key(k[len(pre):]), k)
    cs = {key(c[len(pre):]): v for c, v in P.consts.items() if c.startswith(pre)}
    # items kept in a submodule and re-exported
    for k, b in P.bodies.items():
        if k.startswith(pre) and b['kind'] == 'Fn': fns.setdefault(key(k.rsplit('::', 1)[1]), k)
    for c, v in P.consts.items():
        if c.startswith(pre): cs.setdefault(key(c.rsplit('::', 1)[1]), v)
    return fns, cs

# ---------------------------------------------------------------- arguments
def arg_roles(P, body):
    """indices of the packet, the tag and the value among the arguments"""
    r = {}
    for i in range(body['argc']):
        s = P.s(body['locals'][i + 1])
        if 'packet::Packet' in s: r['packet'] = i
        elif 'tag::Tag' in s: r['tag'] = i
        else: r['value'] = i
    return r

def names_for(P, body):
    n = [None] * body['argc']
    for k, i in arg_roles(P, body).items(): n[i] = k
    return n

def before_packet(P, body):
    i = arg_roles(P, body)['packet']
    t = P.T[body['locals'][i + 1]]
    return P.expand(SYM('packet'), t['to'])

def tag_octet(P, I_, s, t, none):
    i, vv = models.variant(I_, s, I_.strip(s, t))
    return getf(P, I_.strip(s, models.payload(I_, vv, 1)), typath(P, 'Tag'), 'value') if i == 1 else none

# ---------------------------------------------------------------- wire forms by dictionary type
def w_int(n): return lambda P, I_, s, tag, v: be(I_.strip(s, v), n)
def w_raw(P, I_, s, tag, v): return QQ(I_, s, v)
def w_date(P, I_, s, tag, v): return be(rem_(dtsec(I_, s, v), 1 << 32), 4)
def w_prefix(n, exact):
    def f(P, I_, s, tag, v):
        q = QQ(I_, s, v); l = seq_len(q)
        if exact and not yes(s, eqi(l, I(n))): return None
        if not exact and yes(s, gt(l, I(n))): return None
        return cat(S_unit(I(0)), S_unit(scale(l, 8)), q)
    return f
def w_fixed(n):
    def f(P, I_, s, tag, v):
        q = QQ(I_, s, v)
        return q if yes(s, eqi(seq_len(q), I(n))) else None
    return f
def w_tagint(P, I_, s, tag, v): return cat(S_unit(tag_octet(P, I_, s, tag, I(0))), be(I_.strip(s, v), 4))
def w_tagstr(P, I_, s, tag, v):
    t = tag_octet(P, I_, s, tag, None)
    return QQ(I_, s, v) if t is None else cat(S_unit(t), QQ(I_, s, v))

def r_tagint(P):
    def f(I_, s, q):
        if not yes(s, eqi(seq_len(q), I(5))): return None
        if yes(s, gt(at(s, q, 0), I(0x1f))): return None
        return TUP(from_be([at(s, q, i) for i in range(1, 5)]), mkTag(P, at(s, q, 0)))
    return f
def r_tagstr(P):
    def f(I_, s, q):
        n = seq_len(q)
        if yes(s, le(n, I(0))): return None
        t = at(s, q, 0)
        if yes(s, eqi(t, I(0))): return None
        if yes(s, le(t, I(0x1f))):
            r = utf8(I_, s, sl(s, q, 1, n))
            return None if r is None else TUP(r, SOME(mkTag(P, t)))
        r = utf8(I_, s, q)
        return None if r is None else TUP(r, NONE)
    return f
def r_6prefix(I_, s, q):
    if yes(s, lt(seq_len(q), I(2))): return None
    return sl(s, q, 2, seq_len(q))
def r_raw(I_, s, q): return q

def wire(P, a):
    """(writer, reader) for an attribute of the dictionary, or None when its type is not one of the known ones"""
    t, o = a.typ, a.opts
    m = re.fullmatch(r'octets\[(\d+)\]', t)
    if m: return w_fixed(int(m.group(1))), r_raw
    if t == 'string' and o == {'has_tag'}: return w_tagstr, r_tagstr(P)
    if t == 'integer' and o == {'has_tag'}: return w_tagint, r_tagint(P)
    if o: return None
    return {'string': (w_raw, utf8), 'octets': (w_raw, r_raw), 'integer': (w_int(4), exactly(4, intof(4))), 'short': (w_int(2), exactly(2, intof(2))),
            'ipaddr': (w_raw, exactly(4, r_raw)), 'ipv6addr': (w_raw, exactly(16, r_raw)),
            'ipv4prefix': (w_prefix(4, True), exactly(6, lambda I_, s, q: sl(s, q, 2, 6))), 'ipv6prefix': (w_prefix(16, False), r_6prefix),
            'ifid': (w_fixed(8), r_raw), 'date': (w_date, exactly(4, lambda I_, s, q: models.DT(intof(4)(I_, s, q), I(0))))}.get(t)

PW = {'encrypt=1': 'user', 'encrypt=2': 'tunnel'}
def pw_kind(a):
    for o in a.opts:
        if o in PW: return PW[o]

def pw_uf(P):
    """password conversions as opaque functions of their arguments: C08 and C09 decide what they compute"""
    def mkh(name):
        def h(I_, s, args, f, t):
            body = P.bodies[find(P, 'core::avp::AVP::' + name)]
            I_.pwcalled = True
            return [('ret', s, pw_term(P, I_, s, name, args))]
        return h
    out = {}
    for n in ('from_user_password', 'encode_user_password', 'from_tunnel_password', 'encode_tunnel_password'):
        k = find(P, 'core::avp::AVP::' + n)
        if k: out[k] = mkh(n)
    return out

def pw_term(P, I_, s, name, args):
    body = P.bodies[find(P, 'core::avp::AVP::' + name)]
    return P.expand(mk('uf', name, *[I_.strip(s, x) for x in args]), body['locals'][0])

# ---------------------------------------------------------------- add
def result_obs(P, body, I_, s, v):
    """'ok'/'err' of the value an accessor returned (unit functions always succeed)"""
    t = P.T[body['locals'][0]]
    if t['k'] == 'tuple': return 'ok'
    return res_of(I_, s, v)[0]

def check_add(P, k, a):
    body = P.bodies[k]; ro = arg_roles(P, body); po = packet_obs(P)
    if 'packet' not in ro or 'value' not in ro: return [Ob(k, 'add', 'undecided', {'reason': 'arguments not recognised'})]
    kind = pw_kind(a); w = None if kind else wire(P, a)
    if not kind and w is None: return [Ob(k, 'add', 'undecided', {'reason': f'dictionary type {a.typ} {sorted(a.opts)}'})]
    tagged = 'has_tag' in a.opts
    if tagged != ('tag' in ro): return [Ob(k, 'add', 'violated', {'reason': 'takes a tag' if 'tag' in ro else 'takes no tag', 'dictionary': a.name}, body['span'])]
    def proj(I_, s, v, args):
        r = result_obs(P, body, I_, s, v)
        if r == 'err': return {'res': 'err'}
        return {'res': 'ok', **po(I_, s, I_.mread(s, args[ro['packet']]))}
    def spec(I_, s, args):
        b = po(I_, s, before_packet(P, body))
        val = args[ro['value']]; tag = args[ro['tag']] if tagged else None
        if kind:
            if kind == 'user': r = pw_term(P, I_, s, 'from_user_password', [I(a.num), val, b['secret'], b['authenticator']])
            else: r = pw_term(P, I_, s, 'from_tunnel_password', [I(a.num), tag, val, b['secret'], b['authenticator']])
            kd, x = res_of(I_, s, r)
            if kd == 'err': return {'res': 'err'}
            b['attributes'] = cat(b['attributes'], S_unit(I_.strip(s, x)))
            return {'res': 'ok', **b}
        x = w[0](P, I_, s, tag, val)
        if x is None: return {'res': 'err'}
        b['attributes'] = cat(b['attributes'], S_unit(mkAVP(P, I(a.num), x)))
        return {'res': 'ok', **b}
    o = check_fn(P, None, spec, proj, key=k, names=names_for(P, body), what=f'appends attribute {a.num} in the {a.typ} wire form', uninterp=pw_uf(P) if kind else None, K=3)
    return guard_pw(o, kind)

def guard_pw(obs, kind): return obs

# ---------------------------------------------------------------- delete
def check_delete(P, k, a):
    body = P.bodies[k]; ro = arg_roles(P, body); po = packet_obs(P); AV = typath(P, 'AVP')
    def spec(I_, s, args):
        b = po(I_, s, before_packet(P, body))
        b['attributes'] = filtered(P, I_, s, b['attributes'], I(a.num), True)
        return b
    return check_fn(P, None, spec, lambda I_, s, v, args: po(I_, s, I_.mread(s, args[ro['packet']])), key=k, names=names_for(P, body), what=f'removes attributes {a.num} only', K=3)

def filtered(P, I_, s, q, typ, neg):
    AV = typath(P, 'AVP')
    if I_.mode == 'peel':
        n = seq_len(q); i = 0; out = EMPTY
        while not yes(s, le(n, I(i))):
            v = at(s, q, i)
            if yes(s, eqi(getf(P, v, AV, 'typ'), typ)) != neg: out = cat(out, S_unit(v))
            i += 1
            if i > 10: raise SpecBound()
        return out
    _, sa, x, y = q.a[0]
    t = bv(models.TMPBV + 903)
    v = elem_value(sa, add(x, A(t)))
    c = eqi(getf(P, v, AV, 'typ'), typ)
    if neg: c = not_(c)
    return models.flat(seq_len(q), t, ite(c, S_unit(v), EMPTY))

# ---------------------------------------------------------------- lookup
def first_of(P, I_, s, q, typ):
    AV = typath(P, 'AVP'); n = seq_len(q)
    if I_.mode == 'peel':
        i = 0
        while not yes(s, le(n, I(i))):
            v = at(s, q, i)
            if yes(s, eqi(getf(P, v, AV, 'typ'), typ)): return v
            i += 1
            if i > 10: raise SpecBound()
        return None
    _, sa, x, y = q.a[0]
    t = bv(models.TMPBV + 904)
    c = eqi(getf(P, elem_value(sa, add(x, A(t))), AV, 'typ'), typ)
    if not yes(s, models.exists(n, t, c)): return None
    return elem_value(sa, add(x, models.first(n, t, c)))

def inner_result(P, ty):
    """does Option<T> / T hold a Result"""
    return P.s(ty).find('std::result::Result<') >= 0

def decode_with(P, a, I_, s, v, pk):
    """('ok', value) or ('err', None) of converting attribute v"""
    kind = pw_kind(a)
    if kind:
        PK = typath(P, 'Packet')
        r = pw_term(P, I_, s, 'encode_user_password' if kind == 'user' else 'encode_tunnel_password', [v, getf(P, pk, PK, 'secret'), getf(P, pk, PK, 'authenticator')])
        kd, x = res_of(I_, s, r)
        return kd, (I_.strip(s, x) if kd == 'ok' else None)
    x = wire(P, a)[1](I_, s, QQ(I_, s, getf(P, v, typath(P, 'AVP'), 'value')))
    return ('err', None) if x is None else ('ok', x)

def check_lookup(P, k, a):
    body = P.bodies[k]; ro = arg_roles(P, body)
    kind = pw_kind(a)
    if not kind and wire(P, a) is None: return [Ob(k, 'lookup', 'undecided', {'reason': f'dictionary type {a.typ} {sorted(a.opts)}'})]
    hasres = inner_result(P, body['locals'][0])
    def proj(I_, s, v, args):
        i, vv = models.variant(I_, s, v)
        if i == 0: return {'res': 'none'}
        x = models.payload(I_, vv, 1)
        if not hasres: return {'res': 'ok', 'value': I_.strip(s, x)}
        kd, y = res_of(I_, s, x)
        return {'res': 'err'} if kd == 'err' else {'res': 'ok', 'value': I_.strip(s, y)}
    def spec(I_, s, args):
        pk = I_.strip(s, args[ro['packet']])
        v = first_of(P, I_, s, attrs_of(P, I_, s, pk), I(a.num))
        if v is None: return {'res': 'none'}
        kd, x = decode_with(P, a, I_, s, v, pk)
        return {'res': kd, **({'value': x} if kd == 'ok' else {})}
    return check_fn(P, None, spec, proj, key=k, names=names_for(P, body), what=f'first attribute {a.num} read as {a.typ}', uninterp=pw_uf(P) if kind else None, K=3)

def check_lookup_all(P, k, a):
    body = P.bodies[k]; ro = arg_roles(P, body); AV = typath(P, 'AVP')
    kind = pw_kind(a)
    if not kind and wire(P, a) is None: return [Ob(k, 'lookup_all', 'undecided', {'reason': f'dictionary type {a.typ} {sorted(a.opts)}'})]
    hasres = P.s(body['locals'][0]).startswith('std::result::Result<')
    def proj(I_, s, v, args):
        if not hasres: return {'res': 'ok', 'value': I_.strip(s, v)}
        kd, y = res_of(I_, s, v)
        return {'res': 'err'} if kd == 'err' else {'res': 'ok', 'value': I_.strip(s, y)}
    la = find(P, 'core::packet::Packet::lookup_all')
    lty = P.bodies[la]['locals'][0] if la else None
    def uf_list(I_, s, pk, typ):
        return P.expand(mk('uf', 'lookup_all', attrs_of(P, I_, s, pk), typ), lty)
    def h(I_, s, args, f, t): return [('ret', s, uf_list(I_, s, args[0], args[1]))]
    def mkspec(uf):
        def lst(I_, s, args):
            pk = I_.strip(s, args[ro['packet']])
            return (uf_list(I_, s, pk, I(a.num)) if uf else attrs_of(P, I_, s, pk)), pk
        def init(I_, s, args):
            q, pk = lst(I_, s, args)
            if uf and not I_.recs:
                c = closed(P, a, I_, s, q, pk)
                if c is not None: return ('done', c)
            return ('loop', (I(0), EMPTY))
        def step(I_, s, args, state):
            i, out = state
            q, pk = lst(I_, s, args)
            if yes(s, ge(i, seq_len(q))): return ('done', {'res': 'ok', 'value': out})
            v = at(s, q, i)
            if not uf and not yes(s, eqi(getf(P, v, AV, 'typ'), I(a.num))): return ('loop', (addc(i, 1), out))
            kd, x = decode_with(P, a, I_, s, v, pk)
            if kd == 'err': return ('done', {'res': 'err'})
            return ('loop', (addc(i, 1), cat(out, S_unit(x))))
        return LoopSpec(init, step)
    pu = pw_uf(P) if kind else {}
    what = f'all attributes {a.num} read as {a.typ}, first error reported'
    nm = names_for(P, body)
    o = []
    if la:
        o = check_fn(P, None, mkspec(True), proj, key=k, names=nm, what=what, uninterp={**pu, la: h}, modes=('fix',), K=3)
        if o[0].status == 'proved': return o
    p = check_fn(P, None, mkspec(False), proj, key=k, names=nm, what=what, uninterp=pu, modes=('peel',), K=3)
    if o and p[0].status != 'violated': p[0].detail = {**(p[0].detail or {}), 'general case': o[0].detail}
    return p

def ok_form(P, a, I_, s, v, pk):
    """(formula: attribute v converts, its value) without case distinctions, or None"""
    kind = pw_kind(a)
    if kind:
        PK = typath(P, 'Packet')
        r = pw_term(P, I_, s, 'encode_user_password' if kind == 'user' else 'encode_tunnel_password', [v, getf(P, pk, PK, 'secret'), getf(P, pk, PK, 'authenticator')])
        return eqi(I_.discr(s, r), I(0)), I_.strip(s, models.payload(I_, r, 0))
    q = QQ(I_, s, getf(P, v, typath(P, 'AVP'), 'value')); n = seq_len(q); t = a.typ
    el = lambda i: seq_at_static(q, I(i)) or elem_value(q.a[0][1], addc(q.a[0][2], i))
    u8 = lambda x: batom(mk('uf', 'utf8', x))
    if len(q.a) != 1 or q.a[0][0] != 's': return None
    if 'has_tag' in a.opts:
        if t == 'integer': return and_(eqi(n, I(5)), le(el(0), I(0x1f))), TUP(from_be([el(i) for i in range(1, 5)]), mkTag(P, el(0)))
        rest = mkseq([('s', q.a[0][1], addc(q.a[0][2], 1), q.a[0][3])])
        return and_(ge(n, I(1)), ge(el(0), I(1)), or_(and_(le(el(0), I(0x1f)), u8(rest)), and_(gt(el(0), I(0x1f)), u8(q)))), \
            ite(le(el(0), I(0x1f)), TUP(rest, SOME(mkTag(P, el(0)))), TUP(q, NONE))
    if t == 'string': return u8(q), q
    if t.startswith('octets') or t == 'ifid': return TRUE, q
    if t in ('integer', 'short', 'date'):
        w = 2 if t == 'short' else 4
        x = from_be([el(i) for i in range(w)])
        return eqi(n, I(w)), models.DT(x, I(0)) if t == 'date' else x
    if t == 'ipaddr': return eqi(n, I(4)), q
    if t == 'ipv6addr': return eqi(n, I(16)), q
    cut = mkseq([('s', q.a[0][1], addc(q.a[0][2], 2), q.a[0][3])])
    if t == 'ipv4prefix': return eqi(n, I(6)), cut
    if t == 'ipv6prefix': return ge(n, I(2)), cut
    return None

def closed(P, a, I_, s, q, pk):
    """reading every element of the list q, as one closed form"""
    n = seq_len(q); b = bv(models.TMPBV + 905)
    v = elem_value(q.a[0][1], add(q.a[0][2], A(b)))
    r = ok_form(P, a, I_, s, v, pk)
    if r is None: return None
    ok, x = r
    if ok is not TRUE and yes(s, models.exists(n, b, not_(ok))): return {'res': 'err'}
    return {'res': 'ok', 'value': models.comp(n, b, x) if x.op != 'ite' else models.flat(n, b, S_unit(x))}

# ---------------------------------------------------------------- C14
def C14(P, repo):
    o = []
    for a in attributes(repo):
        fns, cs = module_items(P, a.mod)
        k = key(a.name)
        c = cs.get(k + 'type')
        where = f'dicts/dictionary.{a.mod}:{a.line}'
        if c is None or 'int' not in (c.get('val') or {}): o.append(Ob(f'core::{a.mod} {a.name}', 'type constant', 'violated', {'reason': 'no type constant', 'dictionary': where}))
        else:
            ok = c['val']['int'] == a.num and c['tys'] == 'u8'
            o.append(Ob(c['path'], f'equals {a.num}', 'proved' if ok else 'violated', None if ok else {'reason': f"is {c['val']['int']}", 'dictionary': where}, c['span']))
        if a.typ == 'vsa' or 'concat' in a.opts: ops = {'delete': check_delete}
        else: ops = {'delete': check_delete, 'add': check_add, 'lookup': check_lookup, 'lookup_all': check_lookup_all}
        for op, f in ops.items():
            fk = fns.get(key(op) + k)
            if fk is None: o.append(Ob(f'core::{a.mod}::{op}_{a.name}', op, 'violated', {'reason': 'no such operation', 'dictionary': where})); continue
            o += f(P, fk, a)
    return o

# ---------------------------------------------------------------- C15
def C15(P, repo):
    o = []
    typ = {}
    for mod, at_, va in dicts(repo):
        for a in at_: typ[key(a.name)] = a
    for mod, at_, va in dicts(repo):
        fns, cs = module_items(P, mod)
        want = {}
        for m, an, vn, num_, line in va:
            where = f'dicts/dictionary.{mod}:{line}'
            k = key(an) + key(vn)
            want.setdefault(k, []).append(num_)
            c = cs.get(k)
            a = typ.get(key(an))
            ty = {'integer': 'u32', 'short': 'u16'}.get(a.typ if a else 'integer')
            what = f'{an} {vn} = {num_}'
            if c is None or 'int' not in (c.get('val') or {}): o.append(Ob(f'core::{mod}', what, 'violated', {'reason': 'no constant for this VALUE line', 'dictionary': where})); continue
            bad = None
            if c['val']['int'] not in want[k]: bad = f"is {c['val']['int']}"
            elif ty and c['tys'] != ty: bad = f"has type {c['tys']}, its attribute is a {a.typ}"
            o.append(Ob(c['path'], what, 'violated' if bad else 'proved', {'reason': bad, 'dictionary': where} if bad else None, c['span']))
        for a in at_:
            c = cs.get(key(a.name) + 'type'); what = f'{a.name} = {a.num}'
            if c is None: o.append(Ob(f'core::{mod}', what, 'violated', {'reason': 'no constant for this ATTRIBUTE line'})); continue
            ok = (c.get('val') or {}).get('int') == a.num
            o.append(Ob(c['path'], what, 'proved' if ok else 'violated', None if ok else {'reason': f"is {c.get('val')}"}, c['span']))
    return o

# ---------------------------------------------------------------- C16
def C16(P, repo):
    o = []
    for a in attributes(repo):
        if 'concat' not in a.opts: continue
        fns, cs = module_items(P, a.mod)
        k = key(a.name)
        ka, kl = fns.get('add' + k), fns.get('lookup' + k)
        for nm, kk, f in (('add', ka, check_add_concat), ('lookup', kl, check_lookup_concat)):
            if kk is None: o.append(Ob(f'core::{a.mod} {a.name}', nm, 'violated', {'reason': 'no such operation'}))
            else: o += f(P, kk, a)
    return o

LENS = (0, 1, 2, 15, 16, 127, 128, 251, 252, 253, 254, 255, 256, 257, 505, 506, 507, 508, 509, 510, 759, 760, 1012, 1013, 1265, 2024, 2530, 4000)

def check_add_concat(P, k, a):
    body = P.bodies[k]; ro = arg_roles(P, body); po = packet_obs(P); AV = typath(P, 'AVP')
    what = 'stores consecutive fragments of 1 to 253 octets'
    res = []
    notes = []
    for mode in ('fix', 'peel'):
        I_ = Interp(P, mode, K=4)
        args, st = sym_args(P, body, names_for(P, body))
        try: outs = I_.analyse(k, args, st)
        except (Budget, Unsupported, RecursionError, Undecided) as e: notes.append(f'{mode}: {e}'); continue
        val0 = SYM('value')
        bad = None; open_ = []; n = 0
        for kd, s, v in outs:
            if kd == 'cut': open_.append('loop bound'); continue
            if kd == 'panic':
                r = panic_status(s, v)
                if r[0] == 'refuted': bad = (r[1], r[2])
                else: open_.append(r[1])
                continue
            try:
                def one(s):
                    if s.taint: raise Undecided(s.taint)
                    if result_obs(P, body, I_, s, v) == 'err': return [('ret', s, ('reports an error', None))]
                    b = po(I_, s, before_packet(P, body)); w = po(I_, s, I_.mread(s, args[ro['packet']]))
                    q = QQ(I_, s, args[ro['value']])
                    for f in b:
                        if f != 'attributes' and not eqv(s.fs, b[f], w[f]): raise Undecided(f + ' changes')
                    after, base = w['attributes'], b['attributes']
                    m = len(base.a)
                    if after.a[:m] != base.a: return [('ret', s, ('the list before the call is not kept', (after, base, q)))]
                    new = norm_seq(s.fs, mkseq(after.a[m:]))
                    try: why = tiling(P, I_, s, new, q, a.num)
                    except Undecided as e: why = str(e)
                    return [('ret', s, (why, (new, None, q)))]
                for _, s2, (why, terms_) in I_.fork(s, one):
                    n += 1
                    if why is None: continue
                    w = None if terms_ is None else refute_tiling(P, s2, terms_, a.num)
                    if terms_ is None:
                        for e in models_of(s2.fs): w = {'point': point(e)}; break
                    if w is not None: bad = (why, w)
                    else: open_.append(why)
            except (Undecided, Unsupported, Budget, RecursionError, Split) as e: open_.append(f'{type(e).__name__}: {e}')
        if bad: return [Ob(k, what, 'violated', {'reason': bad[0], 'witness': bad[1], 'mode': mode}, body['span'])]
        notes.append(f'{mode}: {len(outs)} exits, {len(open_)} open')
        if not open_: return [Ob(k, what, 'proved', {'exits': len(outs), 'cases': n, 'loops': [f'{w[0]}: {x}' for w, x in I_.loops][:6]})]
    return [Ob(k, what, 'undecided', {'notes': notes, 'open': open_[:4]})]

def tiling(P, I_, s, new, q, typ):
    """None when the new attributes tile the value, else what could not be shown"""
    AV = typath(P, 'AVP'); fs = s.fs; n = seq_len(q)
    if not new.a: return None if fs.ent(le(n, I(0))) else 'stores nothing for a value that may not be empty'
    pos = I(0)
    for g in new.a:
        cnt = seg_len(g)
        b = bv(models.TMPBV + 906)
        def piece(x):
            v = I_.strip(s, seg_elem(g, x))
            if v.op != 'struct': raise Undecided('fragment')
            val = getf(P, v, AV, 'value')
            if len(val.a) != 1 or val.a[0][0] != 's' or not (len(q.a) == 1 and val.a[0][1] is q.a[0][1]): raise Undecided('fragment contents ' + show(val)[:120])
            return getf(P, v, AV, 'typ'), sub(val.a[0][2], q.a[0][2]), sub(val.a[0][3], q.a[0][2])
        h = bind(fs, b.a[0], cnt) if cval(cnt) != 1 else fs
        if h is None: continue
        x = A(b) if cval(cnt) != 1 else I(0)
        t, lo, hi = piece(x)
        if not eqv(h, t, I(typ)): return 'stores attributes of another type'
        if not h.ent(ge(sub(hi, lo), I(1))): return 'may store an empty fragment'
        if not h.ent(le(sub(hi, lo), I(253))): return 'may store a fragment longer than 253 octets'
        if not fs.ent(eqi(piece(I(0))[1], pos)): return 'fragments are not contiguous'
        if cval(cnt) != 1:
            h2 = h.assume(lt(addc(A(b), 1), cnt))
            if h2 is not None and h2.consistent() and not h2.ent(eqi(hi, piece(addc(A(b), 1))[1])): return 'fragments are not contiguous'
        pos = piece(addc(cnt, -1))[2]
    if not fs.ent(eqi(pos, n)): return 'the fragments may not cover the value'
    return None

def refute_tiling(P, s, terms_, typ):
    """a point where the fragments do not concatenate to the value"""
    new, base, q = terms_
    n = seq_len(q)
    ti = FIELDS_of(P, 'typ'); vi = FIELDS_of(P, 'value')
    for L in LENS:
        fs = s.fs.assume(eqi(n, I(L)))
        if fs is None or not fs.consistent(): continue
        for e in seqops.models(fs, 3, 6):
            try:
                if base is not None:
                    x, y = e.cv(new), e.cv(base)
                    if x[:len(y)] == y: continue
                    return {'value length': L, 'point': point(e)}
                frs = e.cv(new); val = e.cv(q)
                if len(val) != L: continue
                cat_ = tuple(z for f in frs for z in f[3 + vi])
                lens = [len(f[3 + vi]) for f in frs]
                if cat_ != val or any(l < 1 or l > 253 for l in lens) or any(f[3 + ti] != typ for f in frs):
                    return {'value length': L, 'fragment lengths': lens[:20], 'types': sorted({f[3 + ti] for f in frs})}
                break
            except seqops.Reject: continue
    return None

def FIELDS_of(P, name): return field_index(P, typath(P, 'AVP'), name)

def check_lookup_concat(P, k, a):
    body = P.bodies[k]; ro = arg_roles(P, body); AV = typath(P, 'AVP')
    la = find(P, 'core::packet::Packet::lookup_all')
    lty = P.bodies[la]['locals'][0] if la else None
    def uf_list(I_, s, pk, typ): return P.expand(mk('uf', 'lookup_all', attrs_of(P, I_, s, pk), typ), lty)
    def h(I_, s, args, f, t): return [('ret', s, uf_list(I_, s, args[0], args[1]))]
    def proj(I_, s, v, args):
        i, vv = models.variant(I_, s, v)
        if i == 0: return {'res': 'none'}
        return {'res': 'some', 'value': QQ(I_, s, I_.strip(s, models.payload(I_, vv, 1)))}
    def mkspec(uf):
        def spec(I_, s, args):
            pk = I_.strip(s, args[ro['packet']])
            if uf:
                q = uf_list(I_, s, pk, I(a.num)); n = seq_len(q)
                if yes(s, le(n, I(0))): return {'res': 'none'}
                b = bv(models.TMPBV + 907)
                v = elem_value(q.a[0][1], add(q.a[0][2], A(b)))
                return {'res': 'some', 'value': models.flat(n, b, getf(P, v, AV, 'value'))}
            q = attrs_of(P, I_, s, pk); n = seq_len(q); i = 0; out = EMPTY; some = False
            if uf is None and cval(n) is None:
                b = bv(models.TMPBV + 907); v = elem_value(q.a[0][1], add(q.a[0][2], A(b)))
                hit = eqi(getf(P, v, AV, 'typ'), I(a.num))
                if not yes(s, models.exists(n, b, hit)): return {'res': 'none'}
                return {'res': 'some', 'value': models.flat(n, b, ite(hit, getf(P, v, AV, 'value'), EMPTY))}
            while not yes(s, le(n, I(i))):
                v = at(s, q, i)
                if yes(s, eqi(getf(P, v, AV, 'typ'), I(a.num))): out = cat(out, getf(P, v, AV, 'value')); some = True
                i += 1
                if i > 4: raise SpecBound()
            return {'res': 'some', 'value': out} if some else {'res': 'none'}
        return spec
    what = f'concatenation of all attributes {a.num}, nothing if there is none'
    nm = names_for(P, body); o = []
    if la:
        o = check_fn(P, None, mkspec(True), proj, key=k, names=nm, what=what, uninterp={la: h}, modes=('fix',), K=3)
        if o[0].status == 'proved': return o
    p = check_fn(P, None, mkspec(None), proj, key=k, names=nm, what=what, modes=('fix',), K=1)
    if p[0].status in ('proved', 'violated'): return p
    p = check_fn(P, None, mkspec(False), proj, key=k, names=nm, what=what, modes=('peel',), K=3)
    if o and p[0].status != 'violated': p[0].detail = {**(p[0].detail or {}), 'general case': o[0].detail}
    return p

# ---------------------------------------------------------------- C17
def C17(P, repo):
    o = []
    po = packet_obs(P)
    for a in attributes(repo):
        if 'concat' in a.opts: continue
        fns, cs = module_items(P, a.mod)
        k = fns.get('add' + key(a.name))
        if k is None: continue
        o += check_unchanged(P, k, po)
    return o

def check_unchanged(P, k, po):
    body = P.bodies[k]; ro = arg_roles(P, body)
    def proj(I_, s, v, args):
        r = result_obs(P, body, I_, s, v); I_.r = r
        w = po(I_, s, I_.mread(s, args[ro['packet']]))
        q = w.pop('attributes'); b = po(I_, s, before_packet(P, body))['attributes']
        n = seq_len(b)
        if r == 'err': return {**w, 'attributes': q}
        w['attributes in total'] = seq_len(q)
        w['attributes before'] = sl(s, q, I(0), n) if yes(s, ge(seq_len(q), n)) else q
        return w
    def spec(I_, s, args):
        b = po(I_, s, before_packet(P, body))
        if I_.r == 'err': return b
        q = b.pop('attributes')
        return {**b, 'attributes in total': addc(seq_len(q), 1), 'attributes before': q}
    return check_fn(P, None, spec, proj, key=k, names=names_for(P, body), what='an error leaves the packet as it was, success appends one attribute', uninterp=pw_uf(P), K=3)

CHECKS = {'C14': C14, 'C15': C15, 'C16': C16, 'C17': C17}
