"""Specifications of the codec: packets, attributes, typed values (C02-C13, C24-C26)."""
from spec import *

def at(s, q, i): return seq_at(s.fs, q, i if isinstance(i, N) else I(i))
def sl(s, q, a, b): return slice_seq(s.fs, q, a if isinstance(a, N) else I(a), b if isinstance(b, N) else I(b))
def be(x, n): return S_units([byte_of(x, k) for k in range(n - 1, -1, -1)])
def yes(s, f): return decide(s.fs, f)
def QQ(I_, s, v): return models.Q(I_, s, v)
def ERRO(why=None): return {'res': 'err', 'why': why} if False else {'res': 'err'}

# ---------------------------------------------------------------- codes
CODES = {'AccessRequest': (1, 'Access-Request'), 'AccessAccept': (2, 'Access-Accept'), 'AccessReject': (3, 'Access-Reject'),
         'AccountingRequest': (4, 'Accounting-Request'), 'AccountingResponse': (5, 'Accounting-Response'),
         'AccessChallenge': (11, 'Access-Challenge'), 'StatusServer': (12, 'Status-Server'), 'StatusClient': (13, 'Status-Client'),
         'DisconnectRequest': (40, 'Disconnect-Request'), 'DisconnectACK': (41, 'Disconnect-ACK'), 'DisconnectNAK': (42, 'Disconnect-NAK'),
         'CoARequest': (43, 'CoA-Request'), 'CoAACK': (44, 'CoA-ACK'), 'CoANAK': (45, 'CoA-NAK'), 'Reserved': (255, 'Reserved'), 'Invalid': (0, 'Invalid')}
KEEP = (1, 12)
ZEROED = (4, 40, 43)
RESP = (2, 3, 5, 11, 41, 42, 44, 45)

def num(name): return CODES[name][0]

def cnum(I_, s, v):
    """number of a Code value"""
    return I_.discr(s, v)

def code_of_octet(I_, s, b):
    for nm, (n, _) in CODES.items():
        if n and yes(s, eqi(b, I(n))): return I(n)
    return I(0)

# ---------------------------------------------------------------- packet decoding
def decode_spec(P):
    def init(I_, s, args):
        bs, secret = QQ(I_, s, args[0]), QQ(I_, s, args[1])
        n = seq_len(bs)
        if yes(s, lt(n, I(20))): return ('done', ERRO('short datagram'))
        L = from_be([at(s, bs, 2), at(s, bs, 3)])
        if yes(s, lt(L, I(20))): return ('done', ERRO())
        if yes(s, gt(L, I(4096))): return ('done', ERRO())
        if yes(s, gt(L, n)): return ('done', ERRO())
        return ('loop', (I(20), EMPTY))
    def step(I_, s, args, state):
        pos, out = state
        bs, secret = QQ(I_, s, args[0]), QQ(I_, s, args[1])
        L = from_be([at(s, bs, 2), at(s, bs, 3)])
        if yes(s, ge(pos, L)):
            return ('done', {'res': 'ok', 'code': code_of_octet(I_, s, at(s, bs, 0)), 'identifier': at(s, bs, 1),
                             'authenticator': sl(s, bs, 4, 20), 'secret': secret, 'attributes': out})
        if yes(s, lt(sub(L, pos), I(2))): return ('done', ERRO())
        l = at(s, bs, addc(pos, 1))
        if yes(s, lt(l, I(2))): return ('done', ERRO())
        if yes(s, gt(l, sub(L, pos))): return ('done', ERRO())
        a = mkAVP(P, at(s, bs, pos), sl(s, bs, addc(pos, 2), add(pos, l)))
        return ('loop', (add(pos, l), cat(out, S_unit(a))))
    return LoopSpec(init, step, tiles(P))

def tiles(P):
    """points worth looking at: a length field within the datagram, attribute lengths that tile the section"""
    def complete(e, I_, s, args):
        bs = QQ(I_, s, args[0])
        n = e.int(seq_len(bs))
        if n < 20: return
        sa = bs.a[0][1]
        def put(i, v): e.tab[e.ckey(elem_value(sa, add(bs.a[0][2], I(i))).a[1][0][0].a[0])] = v
        L = e.int(at(s, bs, 2)) * 256 + e.int(at(s, bs, 3))
        if 4096 < L and e.rnd.random() < .8: L = 4096; put(2, 16); put(3, 0)
        if n < L <= 4096 and alen(sa).op == 'lin' and len(alen(sa).a[1]) == 1:
            k = alen(sa).a[1][0][0]
            if k.op == 'len': e.tab[('len', e.ckey(k.a[0]))] = n = L
        if not 20 <= L <= n: L = min(n, 4096); put(2, L // 256); put(3, L % 256)
        p = 20
        while L - p >= 2:
            l = min(255, L - p) if L - p > 255 else e.rnd.choice([L - p, min(L - p, 2), min(L - p, 7)])
            if L - p - l == 1: l -= 1
            if l < 2: break
            put(p + 1, l); p += l
    return complete

def packet_obs(P, only=None):
    def f(I_, st, v):
        PK = typath(P, 'Packet')
        v = I_.strip(st, v)
        o = {'code': cnum(I_, st, getf(P, v, PK, 'code')), 'identifier': getf(P, v, PK, 'identifier'),
             'authenticator': QQ(I_, st, getf(P, v, PK, 'authenticator')), 'secret': QQ(I_, st, getf(P, v, PK, 'secret')),
             'attributes': newtype_seq(getf(P, v, PK, 'attributes'))}
        return o
    return f

def C02(P):
    return check_fn(P, 'core::packet::Packet::decode', decode_spec(P), proj_result(packet_obs(P)), K=4, what='accepts exactly well-framed datagrams and keeps their fields')

def C03(P):
    sp = decode_spec(P)
    i0, s0 = sp.init, sp.step
    def init(I_, s, args):
        r = i0(I_, s, args)
        return ('done', {'any': True}) if r[0] == 'done' else r
    def step(I_, s, args, state):
        r = s0(I_, s, args, state)
        if r[0] == 'done' and r[1]['res'] == 'ok': return ('done', {'res': 'ok', 'attributes': r[1]['attributes']})
        return r
    po = packet_obs(P)
    return check_fn(P, 'core::packet::Packet::decode', LoopSpec(init, step, sp.complete), proj_result(lambda I_, st, v: {'attributes': po(I_, st, v)['attributes']}), K=5, what='attributes tile the section in wire order')

# ---------------------------------------------------------------- packet encoding
def attrs_of(P, I_, s, pk):
    return newtype_seq(getf(P, I_.strip(s, pk), typath(P, 'Packet'), 'attributes'))

def auth16(P):
    def pre(I_, st, args):
        pk = I_.strip(st, args[0])
        a = getf(P, pk, typath(P, 'Packet'), 'authenticator')
        n = seq_len(models.Q(I_, st, a))
        return st.assume(eqi(n, I(16)))
    return pre

def enc_attrs(P, s, q):
    """(too long formula, wire form) of an attribute list"""
    AV = typath(P, 'AVP')
    n = seq_len(q)
    def one(v):
        val = getf(P, v, AV, 'value')
        return cat(S_unit(getf(P, v, AV, 'typ')), S_unit(addc(seq_len(val), 2)), val), seq_len(val)
    if len(q.a) == 1 and q.a[0][0] == 's':
        _, sa, a, b = q.a[0]
        t = bv(models.TMPBV + 900)
        w, l = one(elem_value(sa, add(a, A(t))))
        return models.exists(n, t, gt(l, I(253))), models.flat(n, t, w)
    raise Undecided('attribute list shape')

def encode_spec(P, peel=False):
    def spec(I_, s, args):
        PK = typath(P, 'Packet')
        pk = I_.strip(s, args[0])
        q = newtype_seq(getf(P, pk, PK, 'attributes'))
        if digest_failed(s): return ERRO('the digest failed')
        n = seq_len(q)
        if I_.mode == 'peel':
            AV = typath(P, 'AVP'); i = 0; wire = EMPTY
            while not yes(s, le(n, I(i))):
                v = at(s, q, i); val = getf(P, v, AV, 'value')
                if yes(s, gt(seq_len(val), I(253))): return ERRO()
                wire = cat(wire, S_unit(getf(P, v, AV, 'typ')), S_unit(addc(seq_len(val), 2)), val)
                i += 1
                if i > 8: raise SpecBound()
        else:
            toolong, wire = enc_attrs(P, s, q)
            if yes(s, toolong): return ERRO('an attribute value is longer than 253 octets')
        size = addc(seq_len(wire), 20)
        if yes(s, gt(size, I(4096))): return ERRO('the packet is larger than 4096 octets')
        code = cnum(I_, s, getf(P, pk, PK, 'code'))
        c = None
        for nm, (k, _) in CODES.items():
            if yes(s, eqi(code, I(k))): c = k; break
        if c is None: return {'any': True}
        if c not in KEEP + ZEROED + RESP: return {'any': True}
        head = cat(S_unit(I(c)), S_unit(getf(P, pk, PK, 'identifier')), be(size, 2))
        return {'res': 'ok', 'header': head, 'attributes': wire, 'authenticator octets': I(16)}
    return spec

def frame(I_, s, v, args):
    """header, number of authenticator octets and attribute part of emitted octets"""
    k, x = res_of(I_, s, v)
    if k == 'err': return {'res': 'err'}
    q = QQ(I_, s, x); n = seq_len(q)
    if yes(s, lt(n, I(20))): return {'res': 'ok', 'header': q, 'attributes': EMPTY, 'authenticator octets': sub(n, I(4))}
    return {'res': 'ok', 'header': sl(s, q, 0, 4), 'attributes': sl(s, q, 20, n), 'authenticator octets': I(16)}

def C04(P):
    return check_fn(P, 'core::packet::Packet::encode', encode_spec(P), frame, K=3, pre=auth16(P), what='well-framed or refused')

def C05(P):
    def proj(I_, s, v, args):
        k, x = res_of(I_, s, v)
        if k == 'err': return {'res': 'err'}
        q = QQ(I_, s, x); I_.emitted = q
        if yes(s, lt(seq_len(q), I(20))): return {'res': 'ok', 'authenticator': EMPTY}
        return {'res': 'ok', 'authenticator': sl(s, q, 4, 20)}
    def spec(I_, s, args):
        PK = typath(P, 'Packet'); pk = I_.strip(s, args[0])
        code = cnum(I_, s, getf(P, pk, PK, 'code'))
        c = None
        for nm, (k, _) in CODES.items():
            if yes(s, eqi(code, I(k))): c = k; break
        if c is None: return {'any': True}
        if c not in KEEP + ZEROED + RESP: return ERRO('this code cannot be encoded')
        if I_.obs['res'] == 'err': return {'any': True}
        if digest_failed(s): return ERRO('the digest failed')
        auth = QQ(I_, s, getf(P, pk, PK, 'authenticator')); secret = QQ(I_, s, getf(P, pk, PK, 'secret'))
        if c in KEEP: return {'res': 'ok', 'authenticator': auth}
        q = I_.emitted
        if yes(s, lt(seq_len(q), I(20))): return {'res': 'ok', 'authenticator': auth}
        return {'res': 'ok', 'authenticator': models.MD5(cat(sl(s, q, 0, 4), S_rep(I(0), I(16)) if c in ZEROED else auth, sl(s, q, 20, seq_len(q)), secret))}
    return check_fn(P, 'core::packet::Packet::encode', spec, proj, K=3, pre=auth16(P), what='authenticator per code')

# ---------------------------------------------------------------- verification
def resp_authentic(I_, s, args):
    """RFC 2865/2866/3576: the response authenticator is the digest over the response with the request's authenticator"""
    resp, req, secret = [QQ(I_, s, x) for x in args]
    if digest_failed(s): return {'value': FALSE}
    if yes(s, lt(seq_len(resp), I(20))) or yes(s, lt(seq_len(req), I(20))) or yes(s, le(seq_len(secret), I(0))): return {'value': FALSE}
    d = models.MD5(cat(sl(s, resp, 0, 4), sl(s, req, 4, 20), sl(s, resp, 20, seq_len(resp)), secret))
    return {'value': mk_seqeq(d, sl(s, resp, 4, 20))}

def req_authentic(I_, s, args):
    req, secret = [QQ(I_, s, x) for x in args]
    if digest_failed(s): return {'value': FALSE}
    if yes(s, lt(seq_len(req), I(20))) or yes(s, le(seq_len(secret), I(0))): return {'value': FALSE}
    b = at(s, req, 0)
    for k in KEEP:
        if yes(s, eqi(b, I(k))): return {'value': TRUE}
    for k in ZEROED:
        if yes(s, eqi(b, I(k))):
            d = models.MD5(cat(sl(s, req, 0, 4), S_rep(I(0), I(16)), sl(s, req, 20, seq_len(req)), secret))
            return {'value': mk_seqeq(d, sl(s, req, 4, 20))}
    return {'value': FALSE}

def C06(P):
    return check_fn(P, 'core::packet::Packet::is_authentic_response', resp_authentic, proj_value, K=17, what='true iff the digest is right')

def C07(P):
    return check_fn(P, 'core::packet::Packet::is_authentic_request', req_authentic, proj_value, K=17, what='true iff its code allows it')

# ---------------------------------------------------------------- passwords
def xorseq(s, a, b, n):
    return S_units([bitxor(at(s, a, i), at(s, b, i)) for i in range(n)])

def hide_chain(s, plain, secret, first, maxblocks):
    """cipher text of the block chain, padded; at least one block"""
    n = seq_len(plain)
    out = EMPTY; prev = first; i = 0
    while True:
        if i > maxblocks: raise SpecBound()
        lo = 16 * i
        if i and yes(s, le(n, I(lo))): return out
        k = models.MD5(cat(secret, prev))
        if yes(s, ge(n, I(lo + 16))): blk = sl(s, plain, lo, lo + 16)
        elif yes(s, le(n, I(lo))): blk = S_rep(I(0), I(16))
        else: blk = cat(sl(s, plain, lo, n), S_rep(I(0), sub(I(lo + 16), n)))
        c = xor16(s, k, blk)
        out = cat(out, c); prev = c; i += 1

def xor16(s, k, blk):
    """k xor blk for two 16-octet sequences, segment by segment"""
    out = []; off = I(0)
    for g in blk.a:
        l = seg_len(g)
        t = bv(models.TMPBV + 901)
        e = seg_elem(g, A(t)); ke = seq_at_static(k, add(off, A(t)))
        if ke is None: ke = elem_value(k.a[0][1], add(add(k.a[0][2], off), A(t)))
        if cval(l) == 1:
            out.append(S_unit(subst(bitxor(e, ke), {t: I(0)})))
        else: out.append(models.comp(l, t, bitxor(e, ke)))
        off = add(off, l)
    return cat(*out)

def unhide_chain(s, cipher, secret, first, maxblocks):
    n = seq_len(cipher)
    out = EMPTY; prev = first; i = 0
    while True:
        if i > maxblocks: raise SpecBound()
        lo = 16 * i
        if yes(s, le(n, I(lo))): return out
        k = models.MD5(cat(secret, prev))
        blk = sl(s, cipher, lo, lo + 16) if yes(s, ge(n, I(lo + 16))) else sl(s, cipher, lo, n)
        out = cat(out, xor16(s, k, blk)); prev = blk; i += 1

def up_to_nul(I_, s, q):
    """the octets before the first NUL"""
    n = seq_len(q)
    t = bv(models.TMPBV + 902)
    r = models.search if False else None
    # same closed form as the library models use for split/position
    return models.before_first(I_, s, q, lambda e: eqi(e, I(0)))

def pw_guard(s, secret, auth):
    if yes(s, le(seq_len(secret), I(0))): return True
    if not yes(s, eqi(seq_len(auth), I(16))): return True
    return False

def user_hide(P):
    def hide(I_, s, args):
        typ = args[0]; plain, secret, auth = [QQ(I_, s, x) for x in args[1:4]]
        if yes(s, gt(seq_len(plain), I(128))): return ERRO()
        if pw_guard(s, secret, auth): return ERRO()
        if digest_failed(s): return ERRO()
        return {'res': 'ok', 'value': mkAVP(P, typ, hide_chain(s, plain, secret, auth, 9))}
    return hide

def C08(P):
    hide = user_hide(P)
    def unhide(I_, s, args):
        val = QQ(I_, s, getf(P, I_.strip(s, args[0]), typath(P, 'AVP'), 'value')); secret, auth = [QQ(I_, s, x) for x in args[1:3]]
        n = seq_len(val)
        if yes(s, lt(n, I(16))) or yes(s, gt(n, I(128))): return ERRO()
        if pw_guard(s, secret, auth): return ERRO()
        if digest_failed(s): return ERRO()
        return {'res': 'ok', 'value': up_to_nul(I_, s, unhide_chain(s, val, secret, auth, 9))}
    return check_fn(P, 'core::avp::AVP::from_user_password', hide, proj_result(ok_value), K=12, modes=('peel',), what='RFC 2865 5.2 cipher text or refusal') + \
        check_fn(P, 'core::avp::AVP::encode_user_password', unhide, proj_result(ok_value), K=12, modes=('peel',), what='inverse chain up to the first NUL')

def is_draw(n): return n.op == 'rnd' and not isinstance(n.a[0], str)

def rnd_root(n):
    """one component of a random draw"""
    while n.op in ('at', 'sa', 'fld'):
        if n.op == 'at' and fv(n.a[1]): return False
        n = n.a[0]
    return is_draw(n)

def fresh_octet(b):
    """is this octet one unmodified random octet: number of values it can take"""
    ats = set()
    def go(n):
        if n.op == 'i' and rnd_root(n.a[0]): ats.add(n); return
        from terms import _children
        for c in _children(n): go(c)
    go(b)
    if not ats: return None if any(x.op == 'unk' for x in fv(b)) else 0
    if any(not is_draw(x) for x in fv(b)) or len(ats) != 1: return None
    a = next(iter(ats)); lo, hi = rng(a)
    if lo is None or hi is None or hi - lo > 70000: return None if not (b.op == 'lin') else sample_image(b, a, lo, hi)
    vals = set()
    for v in range(lo, hi + 1):
        c = cval(subst(b, {a: I(v)}))
        if c is None: return None
        vals.add(c)
    return len(vals)

def draws(b):
    """the random draws an octet is made of"""
    out = set()
    def go(n):
        if n.op == 'i' and rnd_root(n.a[0]): out.add(n); return
        from terms import _children
        for c in _children(n): go(c)
    go(b)
    return out

def sample_image(b, a, lo, hi):
    vals = set(); import random
    r = random.Random(7)
    for _ in range(20000):
        c = cval(subst(b, {a: I(r.randint(lo, hi))}))
        if c is None: return None
        vals.add(c)
    return len(vals)

def joint(x, y):
    """can two octets take every combination of their values: False only when shared draws are enumerated and fall short"""
    dx, dy = draws(x), draws(y)
    if not dx or not dy or not (dx & dy): return x is not y
    if len(dx | dy) != 1 or any(not is_draw(a) for a in fv(x) | fv(y)): return x is not y
    a = next(iter(dx)); lo, hi = rng(a)
    if lo is None or hi is None or hi - lo > 70000: return x is not y
    nx, ny, n = set(), set(), set()
    for v in range(lo, hi + 1):
        p, q = cval(subst(x, {a: I(v)})), cval(subst(y, {a: I(v)}))
        if p is None or q is None: return x is not y
        nx.add(p); ny.add(q); n.add((p, q))
    return len(n) == len(nx) * len(ny)

def C09(P):
    def salt_of(v): return v
    def proj(I_, st, v, args):
        k, x = res_of(I_, st, v)
        if k == 'err': return {'res': 'err'}
        AV = typath(P, 'AVP')
        x = I_.strip(st, x)
        val = getf(P, x, AV, 'value')
        s0, s1 = at(st, val, 1), at(st, val, 2)
        i0, i1 = fresh_octet(s0), fresh_octet(s1)
        return {'res': 'ok', 'value': x, 'salt top bit': st.fs.simp(ge(s0, I(128))),
                'first salt octet takes 128 random values': True if i0 is None else i0 >= 128,
                'second salt octet takes 256 random values': True if i1 is None else i1 == 256,
                'salt octets are independent': joint(s0, s1)}
    def hide(I_, s, args, v=None):
        typ, tag = args[0], args[1]; plain, secret, auth = [QQ(I_, s, x) for x in args[2:5]]
        if yes(s, gt(seq_len(plain), I(240))): return ERRO()
        if pw_guard(s, secret, auth): return ERRO()
        if digest_failed(s): return ERRO()
        i, vv = models.variant(I_, s, I_.strip(s, tag))
        tg = getf(P, I_.strip(s, models.payload(I_, vv, 1)), typath(P, 'Tag'), 'value') if i == 1 else I(0)
        salt = I_.spec_salt(s)
        return {'res': 'ok', 'value': mkAVP(P, typ, cat(S_unit(tg), salt, hide_chain(s, plain, secret, cat(auth, salt), 17))),
                'salt top bit': TRUE, 'first salt octet takes 128 random values': True, 'second salt octet takes 256 random values': True,
                'salt octets are independent': True}
    def unhide(I_, s, args):
        val = QQ(I_, s, getf(P, I_.strip(s, args[0]), typath(P, 'AVP'), 'value')); secret, auth = [QQ(I_, s, x) for x in args[1:3]]
        n = seq_len(val)
        if yes(s, lt(n, I(19))) or yes(s, gt(n, I(243))): return ERRO()
        if not yes(s, eqi(rem_(addc(n, -3), 16), I(0))): return ERRO()
        if yes(s, lt(at(s, val, 1), I(128))): return ERRO()
        if pw_guard(s, secret, auth): return ERRO()
        if digest_failed(s): return ERRO()
        out = unhide_chain(s, sl(s, val, 3, n), secret, cat(auth, sl(s, val, 1, 3)), 17)
        return {'res': 'ok', 'value': TUP(up_to_nul(I_, s, out), mkTag(P, at(s, val, 0)))}
    # the salt of the specification is the salt the code wrote: its quality is checked separately
    def hide2(I_, s, args): return hide(I_, s, args)
    def proj2(I_, st, v, args):
        o = proj(I_, st, v, args)
        if o['res'] == 'ok':
            val = getf(P, o['value'], typath(P, 'AVP'), 'value')
            salt = sl(st, val, 1, 3)
            I_.spec_salt = lambda s: salt
        else: I_.spec_salt = lambda s: EMPTY
        return o
    return check_fn(P, 'core::avp::AVP::from_tunnel_password', hide2, proj2, K=18, modes=('peel',), what='salted chain or refusal') + \
        check_fn(P, 'core::avp::AVP::encode_tunnel_password', unhide, proj_result(ok_value), K=18, modes=('peel',), what='inverse salted chain up to the first NUL')

# ---------------------------------------------------------------- typed values
def avp_val(P, I_, s, a): return QQ(I_, s, getf(P, I_.strip(s, a), typath(P, 'AVP'), 'value'))

def writer(P, name, enc, pre=None, what='wire form'):
    def spec(I_, s, args): return {'value': mkAVP(P, args[0], enc(I_, s, args))}
    return check_fn(P, 'core::avp::AVP::' + name, spec, proj_value, pre=pre, what=what)

def reader(P, name, dec, what='reads its own wire form only'):
    def spec(I_, s, args):
        r = dec(I_, s, avp_val(P, I_, s, args[0]))
        return ERRO() if r is None else {'res': 'ok', 'value': r}
    return check_fn(P, 'core::avp::AVP::' + name, spec, proj_result(ok_value), what=what)

def exactly(n, f):
    def d(I_, s, q):
        if not yes(s, eqi(seq_len(q), I(n))): return None
        return f(I_, s, q)
    return d

def intof(n): return lambda I_, s, q: from_be([at(s, q, i) for i in range(n)])
def utf8(I_, s, q):
    return q if yes(s, batom(mk('uf', 'utf8', q))) else None

def dtsec(I_, s, v):
    v = I_.strip(s, v)
    if v.op == 'struct' and v.a[0] == 'datetime': return v.a[2][0]
    x = mk('i', mk('uf', 'timestamp', v)); set_rng(x, models.TSMIN, models.TSMAX)
    return A(x)

def C10(P):
    o = []
    o += writer(P, 'from_u32', lambda I_, s, a: be(a[1], 4)) + writer(P, 'from_u16', lambda I_, s, a: be(a[1], 2))
    o += writer(P, 'from_string', lambda I_, s, a: QQ(I_, s, a[1])) + writer(P, 'from_bytes', lambda I_, s, a: QQ(I_, s, a[1]))
    o += writer(P, 'from_ipv4', lambda I_, s, a: QQ(I_, s, a[1])) + writer(P, 'from_ipv6', lambda I_, s, a: QQ(I_, s, a[1]))
    def predate(I_, st, args):
        x = dtsec(I_, st, args[1])
        return st.assume(and_(ge(x, I(0)), lt(x, I(1 << 32))))
    o += writer(P, 'from_date', lambda I_, s, a: be(dtsec(I_, s, a[1]), 4), pre=predate)
    o += reader(P, 'encode_u32', exactly(4, intof(4))) + reader(P, 'encode_u16', exactly(2, intof(2)))
    o += reader(P, 'encode_ipv4', exactly(4, lambda I_, s, q: q)) + reader(P, 'encode_ipv6', exactly(16, lambda I_, s, q: q))
    o += reader(P, 'encode_date', exactly(4, lambda I_, s, q: models.DT(intof(4)(I_, s, q), I(0))))
    o += reader(P, 'encode_string', utf8)
    o += check_fn(P, 'core::avp::AVP::encode_bytes', lambda I_, s, a: {'value': avp_val(P, I_, s, a[0])}, proj_value, what='all octets')
    return o

def C11(P):
    T = typath(P, 'Tag')
    def tagof(I_, s, t, none):
        i, vv = models.variant(I_, s, I_.strip(s, t))
        return getf(P, I_.strip(s, models.payload(I_, vv, 1)), T, 'value') if i == 1 else none
    o = writer(P, 'from_tagged_u32', lambda I_, s, a: cat(S_unit(tagof(I_, s, a[1], I(0))), be(a[2], 4)))
    def ts(I_, s, a):
        t = tagof(I_, s, a[1], None)
        return QQ(I_, s, a[2]) if t is None else cat(S_unit(t), QQ(I_, s, a[2]))
    o += writer(P, 'from_tagged_string', ts)
    def ru(I_, s, q):
        if not yes(s, eqi(seq_len(q), I(5))): return None
        if yes(s, gt(at(s, q, 0), I(0x1f))): return None
        return TUP(from_be([at(s, q, i) for i in range(1, 5)]), mkTag(P, at(s, q, 0)))
    o += reader(P, 'encode_tagged_u32', ru)
    def rs(I_, s, q):
        n = seq_len(q)
        if yes(s, le(n, I(0))): return None
        t = at(s, q, 0)
        if yes(s, eqi(t, I(0))): return None
        if yes(s, le(t, I(0x1f))):
            r = utf8(I_, s, sl(s, q, 1, n))
            return None if r is None else TUP(r, SOME(mkTag(P, t)))
        r = utf8(I_, s, q)
        return None if r is None else TUP(r, NONE)
    o += reader(P, 'encode_tagged_string', rs)
    o += check_fn(P, 'core::tag::Tag::is_valid_value', lambda I_, s, a: {'value': and_(ge(tv(P, I_, s, a), I(1)), le(tv(P, I_, s, a), I(0x1f)))}, proj_value)
    o += check_fn(P, 'core::tag::Tag::is_zero', lambda I_, s, a: {'value': eqi(tv(P, I_, s, a), I(0))}, proj_value)
    o += check_fn(P, 'core::tag::Tag::get_value', lambda I_, s, a: {'value': tv(P, I_, s, a)}, proj_value)
    o += check_fn(P, 'core::tag::Tag::new', lambda I_, s, a: {'value': mkTag(P, a[0])}, proj_value)
    o += check_fn(P, 'core::tag::Tag::new_unused', lambda I_, s, a: {'value': mkTag(P, I(0))}, proj_value)
    return o
def tv(P, I_, s, a): return getf(P, I_.strip(s, a[0]), typath(P, 'Tag'), 'value')

def C12(P):
    def w(n, exact):
        def spec(I_, s, a):
            q = QQ(I_, s, a[1]); l = seq_len(q)
            if exact and not yes(s, eqi(l, I(n))): return ERRO()
            if not exact and yes(s, gt(l, I(n))): return ERRO()
            return {'res': 'ok', 'value': mkAVP(P, a[0], cat(S_unit(I(0)), S_unit(scale(l, 8)), q))}
        return spec
    o = check_fn(P, 'core::avp::AVP::from_ipv4_prefix', w(4, True), proj_result(ok_value), what='wire form or refusal')
    o += check_fn(P, 'core::avp::AVP::from_ipv6_prefix', w(16, False), proj_result(ok_value), what='wire form or refusal')
    o += reader(P, 'encode_ipv4_prefix', exactly(6, lambda I_, s, q: sl(s, q, 2, 6)))
    def r6(I_, s, q):
        if yes(s, lt(seq_len(q), I(2))): return None
        return sl(s, q, 2, seq_len(q))
    o += reader(P, 'encode_ipv6_prefix', r6)
    return o

# ---------------------------------------------------------------- attribute list
def C13(P):
    PK = typath(P, 'Packet'); AV = typath(P, 'AVP')
    def whole(I_, s, args):
        """the packet after the call, field by field, attributes as a plain list"""
        pk = I_.mread(s, args[0])
        return packet_obs(P)(I_, s, pk)
    def before(I_, s):
        pk = P.expand(SYM('self'), mutty(P, 'core::packet::Packet::add'))
        return packet_obs(P)(I_, s, pk)
    nm = ['self', 'typ', 'x', 'y']
    def mut(path, change):
        def spec(I_, s, args):
            o = before(I_, s)
            o['attributes'] = change(I_, s, o['attributes'], args)
            return o
        return check_fn(P, 'core::packet::Packet::' + path, spec, lambda I_, s, v, args: whole(I_, s, args), names=nm, what='list after the call')
    o = mut('add', lambda I_, s, q, a: cat(q, S_unit(a[1])))
    o += mut('extend', lambda I_, s, q, a: cat(q, QQ(I_, s, a[1])))
    def keep(I_, s, q, typ, neg):
        if I_.mode == 'peel':
            n = seq_len(q); i = 0; out = EMPTY
            if len(q.a) == 1 and q.a[0][0] == 's':
                t = bv(models.TMPBV + 903)
                ex = s.fs.simp(models.exists(n, t, eqi(getf(P, elem_value(q.a[0][1], add(q.a[0][2], A(t))), AV, 'typ'), typ)))
                if ex is FALSE: return q if neg else EMPTY
            while not yes(s, le(n, I(i))):
                v = at(s, q, i)
                if yes(s, eqi(getf(P, v, AV, 'typ'), typ)) != neg: out = cat(out, S_unit(v))
                i += 1
                if i > 6: raise SpecBound()
            return out
        _, sa, x, y = q.a[0]
        t = bv(models.TMPBV + 903)
        v = elem_value(sa, add(x, A(t)))
        c = eqi(getf(P, v, AV, 'typ'), typ)
        if neg: c = not_(c)
        return models.flat(seq_len(q), t, ite(c, S_unit(v), EMPTY))
    o += mut('delete', lambda I_, s, q, a: keep(I_, s, q, a[1], True))
    def all_(I_, s, a): return {'value': keep(I_, s, attrs_of(P, I_, s, a[0]), a[1], False)}
    o += check_fn(P, 'core::packet::Packet::lookup_all', all_, proj_value, names=nm, what='all of the type in order')
    def proj1(I_, s, v, args):
        i, vv = models.variant(I_, s, v)
        return {'res': 'some' if i == 1 else 'none', **({'value': I_.strip(s, models.payload(I_, vv, 1))} if i == 1 else {})}
    def first_(I_, s, a):
        q = attrs_of(P, I_, s, a[0]); n = seq_len(q)
        if I_.mode == 'peel':
            i = 0
            while not yes(s, le(n, I(i))):
                v = at(s, q, i)
                if yes(s, eqi(getf(P, v, AV, 'typ'), a[1])): return {'res': 'some', 'value': v}
                i += 1
                if i > 10: raise SpecBound()
            return {'res': 'none'}
        _, sa, x, y = q.a[0]
        t = bv(models.TMPBV + 904)
        c = eqi(getf(P, elem_value(sa, add(x, A(t))), AV, 'typ'), a[1])
        if not yes(s, models.exists(n, t, c)): return {'res': 'none'}
        return {'res': 'some', 'value': elem_value(sa, add(x, models.first(n, t, c)))}
    o += check_fn(P, 'core::packet::Packet::lookup', first_, proj1, names=nm, what='first of the type')
    return o

def mutty(P, path):
    b = P.bodies[find(P, path)]
    t = P.T[b['locals'][1]]
    return t['to'] if t['k'] == 'ref' else b['locals'][1]

# ---------------------------------------------------------------- constructors
def C24(P):
    PK = typath(P, 'Packet')
    po = packet_obs(P)
    def fresh_auth(I_, s, q):
        """every octet an independent full-range random octet"""
        n = seq_len(q)
        if not s.fs.ent(eqi(n, I(16))): return False
        seen = set()
        for i in range(16):
            e = at(s, q, i)
            k = fresh_octet(e)
            if k is None:
                if any(x.op == 'unk' for x in fv(e)): raise Undecided('authenticator')
                if not any(is_draw(x) for x in fv(e)): return False
                raise Undecided('authenticator octet ' + show(e)[:80])
            if k != 256: return False
            seen |= draws(e)
        return len(seen) == 16
    def proj(I_, st, v, args):
        o = po(I_, st, v)
        a = o.pop('authenticator')
        o['authenticator is 16 fresh random octets'] = fresh_auth(I_, st, a)
        i = o['identifier']
        if any(is_draw(x) for x in fv(i)):
            k = fresh_octet(i)
            o['identifier'] = SYM('random octet') if k in (256, None) and not draws(i) <= set().union(*[draws(at(st, a, j)) for j in range(16)]) else SYM('not a fresh octet')
        return o
    def spec(withid):
        def f(I_, s, args):
            return {'code': cnum(I_, s, args[0]), 'identifier': args[2] if withid else SYM('random octet'), 'secret': QQ(I_, s, args[1]),
                    'attributes': EMPTY, 'authenticator is 16 fresh random octets': True}
        return f
    o = check_fn(P, 'core::packet::Packet::new', spec(False), proj, K=18, what='fresh packet')
    o += check_fn(P, 'core::packet::Packet::new_with_identifier', spec(True), proj, K=18, what='fresh packet with identifier')
    def resp(I_, s, args):
        me = po(I_, s, I_.strip(s, args[0]))
        me['code'] = cnum(I_, s, args[1]); me['attributes'] = EMPTY
        return me
    o += check_fn(P, 'core::packet::Packet::make_response_packet', resp, lambda I_, s, v, a: po(I_, s, v), what='mirrors the request')
    def setid(I_, s, args):
        me = po(I_, s, P.expand(SYM('self'), mutty(P, 'core::packet::Packet::set_identifier')))
        me['identifier'] = args[1]
        return me
    o += check_fn(P, 'core::packet::Packet::set_identifier', setid, lambda I_, s, v, a: po(I_, s, I_.mread(s, a[0])), names=['self', 'identifier'], what='changes the identifier only')
    for g, fld in (('get_code', 'code'), ('get_identifier', 'identifier'), ('get_secret', 'secret'), ('get_authenticator', 'authenticator')):
        def pj(I_, s, v, a, fld=fld): return {fld: cnum(I_, s, v) if fld == 'code' else I_.strip(s, v)}
        o += check_fn(P, 'core::packet::Packet::' + g, lambda I_, s, a, fld=fld: {fld: po(I_, s, I_.strip(s, a[0]))[fld]}, pj, what='reads its field')
    return o

def C25(P):
    o = []
    a = P.adts.get(CODE_T) or P.adts[typath(P, 'Code')]
    tab = code_table(P)
    have = {n: k for n, k in tab.values()}
    for nm, (n, _) in CODES.items():
        st = 'proved' if have.get(nm) == n else 'violated'
        o.append(Ob('Code::' + nm, f'number {n}', st, {'reason': f'Code::{nm} has number {have.get(nm)} instead of {n}'} if st == 'violated' else None))
    def frm(I_, s, args): return {'code': code_of_octet(I_, s, args[0])}
    o += check_fn(P, 'core::code::Code::from', frm, lambda I_, s, v, a: {'code': cnum(I_, s, v)}, what='code of every octet')
    def nm(I_, s, args):
        c = cnum(I_, s, I_.strip(s, args[0]))
        for k, (n, t) in CODES.items():
            if yes(s, eqi(c, I(n))): return {'value': S_bytes(t.encode())}
        return {'any': True}
    o += check_fn(P, 'core::code::Code::string', nm, proj_value, what='RFC name')
    return o

def trait_impl(P, ty, trait, name):
    for im in P.impls:
        if im['trait'] and im['trait'].endswith(trait) and clean(im['self']).endswith(ty):
            for it in im['items']:
                if it.endswith('::' + name): return it
    return None

def C26(P):
    o = []
    for ty, tagged in (('StringVSA', False), ('TaggedStringVSA', True)):
        k = find(P, f'core::vsa::{ty}::new')
        if k is None: o.append(Ob(ty, 'constructor', 'violated', {'reason': 'missing'})); continue
        ln, ms, em = (trait_impl(P, ty, 'VSA', x) for x in ('len', 'message', 'is_empty'))
        if ln is None or ms is None or em is None: o.append(Ob(ty, 'VSA', 'undecided', {'reason': 'no impl'})); continue
        hdr = 3 if tagged else 2
        def pre(I_, st, args): return st.assume(le(addc(seq_len(QQ(I_, st, args[-1])), 4 + hdr), I(253)))
        def spec(I_, s, args):
            vid = args[0]; text = QQ(I_, s, args[-1]); l = addc(seq_len(text), hdr)
            u = rem_(vid, 1 << 32)
            msg = cat(be(u, 4), S_unit(args[1]), S_unit(l), *([S_unit(args[2])] if tagged else []), text)
            return {'message': msg, 'len': l, 'is_empty': mk('false')}
        def proj(I_, st, v, args):
            out = {}
            for nm, key in (('message', ms), ('len', ln), ('is_empty', em)):
                r = I_.analyse(key, [v], st.copy())
                rr = [x for x in r if x[0] == 'ret']
                if len(r) != 1 or len(rr) != 1:
                    for kd, s2, x in r:
                        if kd == 'panic' and panic_status(s2, x)[0] == 'refuted': out[nm] = SYM('panic')
                    if nm in out: continue
                    for kd, s2, x in r:
                        for f in s2.fs.log[len(st.fs.log):]:
                            if st.fs.simp(f).op not in ('true', 'false'): raise Split(f)
                    raise Undecided('several outcomes of ' + nm)
                if rr[0][1].taint: raise Undecided(rr[0][1].taint)
                out[nm] = I_.strip(rr[0][1], rr[0][2])
            return out
        o += check_fn(P, f'core::vsa::{ty}::new', spec, proj, pre=pre, what='message layout and length')
    return o

# ---------------------------------------------------------------- reasons of errors
def err_name(P, I_, s, e, enum):
    """(variant name, payload fields) of an error value"""
    e = I_.strip(s, e)
    p = typath(P, enum)
    if e.op != 'struct' or e.a[0] != p: return None, ()
    return P.adts[p]['variants'][e.a[1]]['name'], e.a[2]

def C31(P):
    """an error states a reason that holds, and the size it complains about"""
    o = []
    def rule(path, enum, table, pre=None):
        def proj(I_, s, v, args):
            I_.want = None
            k, x = res_of(I_, s, v)
            if k != 'err': return {'reason': 'holds'}
            nm, fs_ = err_name(P, I_, s, x, enum)
            if nm is None: raise Undecided('error value')
            if nm == 'HashComputationFailed': return {'reason': 'holds' if digest_failed(s) else nm + ' although the digest was computed'}
            t = table(I_, s, args)
            if nm not in t:
                if nm in KNOWN_REASONS: return {'reason': nm + ' is never the reason here'}
                raise Undecided('unknown error ' + nm)
            cond, sizes = t[nm]
            conds = cond if isinstance(cond, list) else [cond]
            if not any(yes(s, c()) if callable(c) else yes(s, c) for c in conds): return {'reason': nm + ' although it does not apply'}
            nums = [f for f in fs_ if isinstance(f, N) and I_.strip(s, f).op not in ('seq',)]
            I_.want = sizes
            if len(nums) != len(sizes): raise Undecided('payload of ' + nm)
            return {'reason': 'holds', **{f'size {i}': f for i, f in enumerate(nums)}}
        def spec(I_, s, args):
            return {'reason': 'holds', **{f'size {i}': f for i, f in enumerate(I_.want or ())}}
        return check_fn(P, path, spec, proj, what='an error states a true reason and size', pre=pre)
    def val(I_, s, a): return avp_val(P, I_, s, a[0])
    def length(ok):
        def t(I_, s, a):
            q = val(I_, s, a); n = seq_len(q)
            return {'InvalidAttributeLengthError': (not_(ok(n)), [n]), **tagged(s, q, n)}
        return t
    def tagged(s, q, n): return {}
    def tag_int(I_, s, a):
        q = val(I_, s, a); n = seq_len(q)
        return {'InvalidAttributeLengthError': (not_(eqi(n, I(5))), [n]), 'TagMissingError': (le(n, I(0)), []),
                'InvalidTagForIntegerValueError': ([lambda: and_(ge(n, I(1)), gt(at(s, q, 0), I(0x1f))) if yes(s, ge(n, I(1))) else mk('false')], [])}
    def tag_str(I_, s, a):
        q = val(I_, s, a); n = seq_len(q)
        def bad():
            if not yes(s, ge(n, I(1))): return mk('false')
            body = sl(s, q, 1, n) if yes(s, and_(ge(at(s, q, 0), I(1)), le(at(s, q, 0), I(0x1f)))) else q
            return not_(batom(mk('uf', 'utf8', body)))
        return {'TagMissingError': (le(n, I(0)), []), 'DecodingError': ([bad], []),
                'InvalidTagForStringValueError': ([lambda: eqi(at(s, q, 0), I(0)) if yes(s, ge(n, I(1))) else mk('false')], [])}
    def text(I_, s, a): return {'DecodingError': (not_(batom(mk('uf', 'utf8', val(I_, s, a)))), [])}
    def secrets(I_, s, secret, auth):
        return {'PasswordSecretMissingError': (le(seq_len(QQ(I_, s, secret)), I(0)), []), 'InvalidRequestAuthenticatorLength': (not_(eqi(seq_len(QQ(I_, s, auth)), I(16))), [])}
    A_ = 'core::avp::AVP::'
    for nm, k in (('encode_u32', 4), ('encode_u16', 2), ('encode_ipv4', 4), ('encode_ipv6', 16), ('encode_date', 4), ('encode_ipv4_prefix', 6)):
        o += rule(A_ + nm, 'AVPError', length(lambda n, k=k: eqi(n, I(k))))
    o += rule(A_ + 'encode_ipv6_prefix', 'AVPError', length(lambda n: and_(ge(n, I(2)), le(n, I(18)))))
    o += rule(A_ + 'encode_tagged_u32', 'AVPError', tag_int) + rule(A_ + 'encode_tagged_string', 'AVPError', tag_str) + rule(A_ + 'encode_string', 'AVPError', text)
    def given(i, ok):
        def t(I_, s, a):
            n = seq_len(QQ(I_, s, a[i]))
            return {'InvalidAttributeLengthError': (not_(ok(n)), [n])}
        return t
    o += rule(A_ + 'from_ipv4_prefix', 'AVPError', given(1, lambda n: eqi(n, I(4)))) + rule(A_ + 'from_ipv6_prefix', 'AVPError', given(1, lambda n: le(n, I(16))))
    def fu(I_, s, a):
        n = seq_len(QQ(I_, s, a[1]))
        return {'UserPasswordPlainTextMaximumLengthExceededError': (gt(n, I(128)), [n]), **secrets(I_, s, a[2], a[3])}
    def ft(I_, s, a):
        n = seq_len(QQ(I_, s, a[2]))
        return {'InvalidAttributeLengthError': (gt(n, I(240)), [n]), **secrets(I_, s, a[3], a[4])}
    def eu(I_, s, a):
        n = seq_len(val(I_, s, a))
        return {'InvalidAttributeLengthError': (or_(lt(n, I(16)), gt(n, I(128))), [n]), **secrets(I_, s, a[1], a[2])}
    def et(I_, s, a):
        q = val(I_, s, a); n = seq_len(q)
        def salt(): return lt(at(s, q, 1), I(128)) if yes(s, ge(n, I(2))) else mk('false')
        t = {'InvalidAttributeLengthError': (or_(lt(n, I(19)), gt(n, I(243)), not_(eqi(rem_(sub(n, I(3)), 16), I(0)))), [n]), **secrets(I_, s, a[1], a[2])}
        if yes(s, ge(n, I(2))): t['InvalidSaltMSBError'] = ([salt], [at(s, q, 1)])
        return t
    o += rule(A_ + 'from_user_password', 'AVPError', fu) + rule(A_ + 'from_tunnel_password', 'AVPError', ft)
    o += rule(A_ + 'encode_user_password', 'AVPError', eu) + rule(A_ + 'encode_tunnel_password', 'AVPError', et)
    def dec(I_, s, a):
        bs = QQ(I_, s, a[0]); n = seq_len(bs)
        t = {'InsufficientPacketPayloadLengthError': (lt(n, I(20)), [I(20), n])}
        if yes(s, lt(n, I(20))): return t
        L = from_be([at(s, bs, 2), at(s, bs, 3)])
        t['InsufficientPacketPayloadLengthError'] = (lt(n, L), [L, n])
        t['InsufficientHeaderDefinedPacketLengthError'] = (lt(L, I(20)), [L, I(20)])
        t['HeaderDefinedPacketLengthExceedsMaximumLimitError'] = (gt(L, I(4096)), [L, I(4096)])
        t['DecodingError'] = (and_(ge(L, I(20)), le(L, I(4096)), le(L, n)), [])
        return t
    o += rule('core::packet::Packet::decode', 'PacketError', dec)
    def enc(I_, s, a):
        PK = typath(P, 'Packet'); pk = I_.strip(s, a[0])
        code = cnum(I_, s, getf(P, pk, PK, 'code'))
        q = newtype_seq(getf(P, pk, PK, 'attributes')); n = seq_len(q)
        ok = [eqi(code, I(c)) for c in KEEP + ZEROED + RESP]
        def large():
            if I_.mode == 'peel':
                AV = typath(P, 'AVP'); i = 0; w = I(20)
                while not yes(s, le(n, I(i))):
                    l = seq_len(getf(P, at(s, q, i), AV, 'value'))
                    if yes(s, gt(l, I(253))): return mk('true')
                    w = add(w, addc(l, 2)); i += 1
                    if i > 8: raise SpecBound()
                return gt(w, I(4096))
            toolong, wire = enc_attrs(P, s, q)
            return or_(toolong, gt(addc(seq_len(wire), 20), I(4096)))
        return {'UnknownCodeError': (not_(or_(*ok)), []), 'EncodingError': ([large], [])}
    o += rule('core::packet::Packet::encode', 'PacketError', enc, pre=auth16(P))
    return o
KNOWN_REASONS = ('UserPasswordPlainTextMaximumLengthExceededError', 'PasswordSecretMissingError', 'InvalidRequestAuthenticatorLength', 'InvalidAttributeLengthError', 'TagMissingError',
                 'DecodingError', 'InvalidSaltMSBError', 'InvalidTagForStringValueError', 'InvalidTagForIntegerValueError', 'InsufficientPacketPayloadLengthError',
                 'InsufficientHeaderDefinedPacketLengthError', 'HeaderDefinedPacketLengthExceedsMaximumLimitError', 'EncodingError', 'UnknownCodeError')

CHECKS = {'C02': C02, 'C03': C03, 'C04': C04, 'C05': C05, 'C06': C06, 'C07': C07, 'C08': C08, 'C09': C09, 'C10': C10, 'C11': C11,
          'C12': C12, 'C13': C13, 'C24': C24, 'C25': C25, 'C26': C26, 'C31': C31}
