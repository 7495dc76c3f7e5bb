"""Abstract interpreter over the dumped MIR: a worklist dataflow analysis whose abstract state maps
places to terms (terms.py) under linear path facts (facts.py).  States are propagated block by block
in reverse post-order, joined where they agree, and loops are either summarised (loops.py) or, for the
confirmation of an alarm, unrolled a bounded number of times."""
import json, re, sys
from terms import *
import terms
from facts import *
from seqops import *
import seqops

sys.setrecursionlimit(20000)

class Budget(Exception): pass
class Dead(Exception): pass            # the path is infeasible

_life = re.compile(r"'[a-z_]\w*(?:\s|(?=[,>&]))|<'_>|'_, |, '_")
def clean(s):
    s = re.sub(r"for<[^>]*> ", '', s)
    s = re.sub(r"<'\w+>", '', s)
    s = re.sub(r"<'\w+, ", '<', s)
    s = re.sub(r"'\w+ ", '', s)
    return s

SEQADT = {'std::vec::Vec', 'std::string::String', 'std::collections::VecDeque', 'std::boxed::Box<[T]>'}
FIXED = {'std::net::Ipv4Addr': 4, 'std::net::Ipv6Addr': 16, 'md5::Digest': 16, 'openssl::hash::DigestBytes': 16,
         'core::net::Ipv4Addr': 4, 'core::net::Ipv6Addr': 16}
TRANSPARENT = {'std::boxed::Box', 'std::sync::Arc', 'std::rc::Rc', 'std::pin::Pin', 'std::mem::ManuallyDrop'}
U8 = ('int', 8, False)

OPT = 'std::option::Option'; RES = 'std::result::Result'
UNIT = mk('struct', '()', 0, ())
def SOME(v): return mk('struct', OPT, 1, (v,))
NONE = mk('struct', OPT, 0, ())
def OK(v): return mk('struct', RES, 0, (v,))
def ERR(v): return mk('struct', RES, 1, (v,))
def TUP(*v): return mk('struct', '()', 0, tuple(v))
def REF(v): return v          # shared references are transparent: a snapshot of the value
def BOX(v): return mk('box', v)
def OPQ(n): return mk('opq', n)
def SYM(s): return mk('sym', s)
UNINIT = mk('uninit')
_unk = [0]
def UNK(why):
    _unk[0] += 1
    return mk('unk', why, _unk[0])

def fresh_unk_like(v, why): return UNK(why)

FN = {}     # function values
def FNV(f):
    k = f.get('rpath') or f['path']
    k = k + '|' + str(f.get('args'))
    FN[k] = f
    return mk('fnv', k)

DOM = {}        # atom id -> tuple of possible values

class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.crate = d['crate']
        self.T = d['types']
        for t in self.T: t['s'] = clean(t['s'])
        self.bodies = {b['key']: b for b in d['bodies']}
        self.ext = {b['key']: b for b in d['ext']}
        self.statics = {b['key']: b for b in d.get('statics', ())}
        self.adts = {a['path']: a for a in d['adts']}
        for a in d['adts']:
            if a['kind'] == 'struct': seqops.FIELDS[a['path']] = {f['name']: i for i, f in enumerate(a['variants'][0]['fields'])}
        self.consts = {c['path']: c for c in d['consts']}
        self.impls = d['impls']
        self.ts = {}
        for i, t in enumerate(self.T): self.ts.setdefault(t['s'], i)
        self.drops = {}
        for im in self.impls:
            if im['trait'] == 'std::ops::Drop':
                self.drops[clean(im['self'])] = im['items'][0]
        self._cfg = {}

    def s(self, ty): return self.T[ty]['s']
    def k(self, ty): return self.T[ty]['k']

    def find(self, suffix, kind=None):
        return [b for k, b in self.bodies.items() if k == suffix or k.endswith('::' + suffix)]

    # ------------------------------------------------ types
    def ety(self, ty):
        t = self.T[ty]
        if t['k'] == 'int' and t['bits'] == 8 and not t['signed']: return U8
        return ('ty', t['s'])

    def is_seq(self, ty):
        t = self.T[ty]
        if t['k'] in ('slice', 'array', 'str'): return True
        if t['k'] == 'adt':
            if t['path'] in SEQADT or t['path'] in FIXED: return True
        return False

    def expand_s(self, node, s):
        i = self.ts.get(s)
        if i is None:
            m = INTS.get(s)
            if m: return int_atom(node, *m)
            if s == 'bool': return batom(node)
            if s.startswith('&mut '): return REF(self.expand_s(node, s[5:]))
            if s.startswith('&'): return REF(self.expand_s(node, s[1:]))
            if s in ('std::string::String', 'str'): return S_atom(seqatom(node, None, U8))
            if s.startswith('std::vec::Vec<') and s.endswith('>'): return S_atom(seqatom(node, None, self.ety_s(s[14:-1])))
            if s.startswith('[') and s.endswith(']') and ';' not in s: return S_atom(seqatom(node, None, self.ety_s(s[1:-1])))
            if s.startswith('std::option::Option<') or s.startswith('std::result::Result<'):
                return mk('symenum', node, s)
            if s == 'std::time::Duration': return nanos(node)
            p = 'crate::' + s
            if p in self.adts: return self.expand_adt(node, p, s)
            return OPQ(node)
        return self.expand(node, i)

    def ety_s(self, s): return U8 if s == 'u8' else ('ty', s)

    def expand_adt(self, node, path, s):
        a = self.adts[path]
        if a['kind'] == 'enum': return mk('symenum', node, s)
        return mk('struct', path, 0, tuple(self.expand_s(mk('fld', node, f['name']), clean(f['ty'])) for f in a['variants'][0]['fields']))

    def expand(self, node, ty):
        t = self.T[ty]; k = t['k']
        if k == 'int': return int_atom(node, t['bits'], t['signed'])
        if k == 'bool': return batom(node)
        if k == 'char':
            a = mk('i', node); set_rng(a, 0, 0x10ffff); return A(a)
        if k == 'ref' or k == 'ptr': return REF(self.expand(node, t['to']))
        if k == 'slice': return S_atom(seqatom(node, None, self.ety(t['of'])))
        if k == 'str': return S_atom(seqatom(node, None, U8))
        if k == 'array':
            if t['len'] is None: return S_atom(seqatom(node, None, self.ety(t['of'])))
            return S_atom(seqatom(node, t['len'], self.ety(t['of'])))
        if k == 'tuple': return mk('struct', '()', 0, tuple(self.expand(mk('fld', node, i), x) for i, x in enumerate(t['args'])))
        if k == 'never': return OPQ(node)
        if k == 'adt':
            p = t['path']
            if p in SEQADT: return S_atom(seqatom(node, None, self.ety(t['args'][0]) if p != 'std::string::String' else U8))
            if p in FIXED: return S_atom(seqatom(node, FIXED[p], U8))
            if p == 'std::boxed::Box' and t['args']: return BOX(self.expand(node, t['args'][0]))
            if p in TRANSPARENT and t['args']: return self.expand(node, t['args'][0])
            if p == 'std::time::Duration': return nanos(node)
            a = self.adts.get(p)
            if a is None: return OPQ(node)
            if a['kind'] == 'enum': return mk('symenum', node, t['s'])
            if a['kind'] == 'struct' and a['local']: return self.expand_adt(node, p, t['s'])
            return OPQ(node)
        return OPQ(node)

    def adt_of_s(self, s):
        """ADT description for the type string of a symbolic enum"""
        b = s.split('<')[0]
        return self.adts.get(b) or self.adts.get('crate::' + b)

    def discrs(self, a):
        return [v.get('discr', i) if v.get('discr') is not None else i for i, v in enumerate(a['variants'])]

    # ------------------------------------------------ control flow
    def cfg(self, body):
        c = self._cfg.get(id(body))
        if c is None:
            c = Cfg(body); self._cfg[id(body)] = c
        return c

INTS = {'u8': (8, False), 'u16': (16, False), 'u32': (32, False), 'u64': (64, False), 'usize': (64, False), 'u128': (128, False),
        'i8': (8, True), 'i16': (16, True), 'i32': (32, True), 'i64': (64, True), 'isize': (64, True), 'i128': (128, True)}

def int_rng(bits, signed):
    return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)

def nanos(node):
    """a Duration is its number of nanoseconds"""
    a = mk('i', node)
    if a.id not in RNG: set_rng(a, 0, (1 << 64) * 10**9 - 1)
    return A(a)

def int_atom(node, bits, signed):
    a = mk('i', node)
    if a.id not in RNG: set_rng(a, *int_rng(bits, signed))
    return A(a)

class Cfg:
    def __init__(self, body):
        bl = body['blocks']; n = len(bl)
        self.succ = []
        self.succ_all = []
        for b in bl:
            t = b['t']; k = t['k']; s = []
            if k == 'goto': s = [t['to']]
            elif k == 'switch': s = [x[1] for x in t['targets']] + [t['otherwise']]
            elif k in ('drop', 'call', 'assert', 'yield'):
                if t.get('to') is not None: s = [t['to']]
            self.succ.append(s)
            u = t.get('unwind')
            self.succ_all.append(s + ([u] if isinstance(u, int) else []))
        # reverse post-order
        seen = set(); order = []
        stack = [(0, iter(self.succ_all[0]))]; seen.add(0)
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen:
                    seen.add(y); stack.append((y, iter(self.succ_all[y]))); break
            else:
                order.append(x); stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        # dominators
        preds = {b: [] for b in order}
        for b in order:
            for s in self.succ_all[b]: preds[s].append(b)
        self.preds = preds
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in preds[b] if p in idom]
                if not ps: continue
                d = ps[0]
                for p in ps[1:]:
                    x, y = p, d
                    while x != y:
                        while self.rpo[x] > self.rpo[y]: x = idom[x]
                        while self.rpo[y] > self.rpo[x]: y = idom[y]
                    d = x
                if idom.get(b) != d: idom[b] = d; ch = True
        self.idom = idom
        # natural loops
        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if self.dom(s, b):
                    L = self.loops.setdefault(s, {s})
                    todo = [b]
                    while todo:
                        x = todo.pop()
                        if x not in L:
                            L.add(x); todo += preds[x]
        self._live(body, order)

    def dom(self, a, b):
        while True:
            if a == b: return True
            if b == 0: return False
            b = self.idom[b]

    def _live(self, body, order):
        bl = body['blocks']
        use = {}; df = {}
        keep = set()
        def pl(p, u, d, write):
            if write and not p.get('p'):
                if p['l'] not in u: d.add(p['l'])
            else:
                if p['l'] not in d: u.add(p['l'])
            for e in p.get('p', []):
                if e[0] == 'index' and e[1] not in d: u.add(e[1])
        def opr(o, u, d):
            if 'copy' in o: pl(o['copy'], u, d, False)
            elif 'move' in o: pl(o['move'], u, d, False)
        for b in order:
            u = set(); d = set()
            for s in bl[b]['s']:
                if s['k'] == 'assign':
                    r = s['r']; k = r['k']
                    if k in ('use', 'cast', 'un', 'repeat'): opr(r['o'], u, d)
                    elif k == 'bin': opr(r['a'], u, d); opr(r['b'], u, d)
                    elif k == 'agg':
                        for o in r['ops']: opr(o, u, d)
                    elif k in ('ref', 'discr'):
                        pl(r['p'], u, d, False)
                        if k == 'ref' and r['mut']: keep.add(r['p']['l'])
                    pl(s['d'], u, d, True)
                elif s['k'] == 'assume': opr(s['o'], u, d)
                elif s['k'] == 'setdiscr': pl(s['d'], u, d, False)
            t = bl[b]['t']; k = t['k']
            if k == 'switch': opr(t['o'], u, d)
            elif k == 'drop': pl(t['p'], u, d, False)
            elif k == 'call':
                opr(t['f'], u, d)
                for o in t['args']: opr(o, u, d)
                pl(t['d'], u, d, True)
            elif k == 'assert':
                opr(t['o'], u, d)
            elif k == 'yield':
                opr(t['v'], u, d); pl(t['d'], u, d, True)
            elif k == 'return': u.add(0) if 0 not in d else None
            use[b] = u; df[b] = d
        live = {b: set() for b in order}
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                o = set()
                for s in self.succ_all[b]: o |= live[s]
                n = use[b] | (o - df[b])
                if n != live[b]: live[b] = n; ch = True
        self.live = live; self.keep = keep

class Frame:
    __slots__ = ('body', 'id', 'cfg', 'key', 'caller')
    def __init__(self, body, fid, cfg, key): self.body = body; self.id = fid; self.cfg = cfg; self.key = key

class State:
    __slots__ = ('cells', 'fs', 'ev', 'taint', 'rc', 'trace')
    def __init__(self):
        self.cells = {}; self.fs = Facts(); self.ev = (); self.taint = None; self.rc = 0; self.trace = ()
    def copy(self):
        s = State.__new__(State)
        s.cells = dict(self.cells); s.fs = self.fs; s.ev = self.ev; s.taint = self.taint; s.rc = self.rc; s.trace = self.trace
        return s
    def assume(self, f):
        """a new state in which f holds, or None"""
        n = self.fs.assume(f)
        if n is None: return None
        if n is self.fs: return self.copy()
        if not n.consistent(): return None
        s = self.copy(); s.fs = n
        return s

def fset(fs):
    r = fs.cache.get('fset')
    if r is None:
        r = frozenset(fs.formulas()); fs.cache['fset'] = r
    return r

def from_set(fset_, log):
    h = Facts()
    for z in sorted(fset_):
        if not h._add(z): return None
    h.log = log
    return h

def merge_states(sts):
    """join of states that agree on everything but complementary facts (exact, no information lost)"""
    if len(sts) < 2: return sts
    groups = {}
    for s in sts:
        groups.setdefault((s.ev, s.taint, s.rc, frozenset(s.cells.items())), []).append(s)
    out = []
    for g in groups.values():
        if len(g) > 1: g = merge_group(g)
        out += g
    return out

def merge_group(g):
    cur = {}
    for s in g: cur.setdefault(fset(s.fs), s)
    ch = True
    while ch and len(cur) > 1:
        ch = False
        # subsumption: fewer facts cover more
        ks = sorted(cur, key=len)
        for i, k in enumerate(ks):
            for j in range(i):
                if ks[j] in cur and ks[j] < k: cur.pop(k, None); ch = True; break
        idx = {}
        for k in list(cur):
            if k not in cur: continue
            for x in k:
                rest = k - {x}
                y = not_(x)
                other = rest | {y}
                if other is not k and other in cur and k in cur:
                    f = from_set(rest, cur[k].fs.log)
                    if f is None: continue
                    s = cur[k].copy(); s.fs = f
                    cur.pop(k); cur.pop(other); cur[fset(f)] = s; ch = True
                    break
        if not ch and len(cur) <= 6:
            ks = list(cur)
            for i in range(len(ks)):
                for j in range(i + 1, len(ks)):
                    f = merge_facts(cur[ks[i]].fs, cur[ks[j]].fs)
                    if f is not None:
                        s = cur[ks[i]].copy(); s.fs = f
                        cur.pop(ks[i]); cur.pop(ks[j], None); cur[fset(f)] = s; ch = True
                        break
                if ch: break
    return list(cur.values())

def merge_facts(f, g):
    if f is g: return f
    A1 = fset(f); B1 = fset(g)
    ra = A1 - B1; rb = B1 - A1
    if not ra: return f
    if not rb: return g
    x = and_(*ra); y = and_(*rb)
    if len(ra) + len(rb) > 3 or any(z.op in ('b', 'or') or z.op == 'not' and z.a[0].op == 'b' for z in ra | rb): return None
    if not (fv(x) & fv(y)): return None
    h = from_set(A1 & B1, f.log)
    if h is None or not h._refute(and_(not_(x), not_(y)), 2): return None
    return h

class Interp:
    def __init__(self, prog, mode='peel', K=3, budget=400000):
        self.P = prog; self.mode = mode; self.K = K
        self.fid = 0; self.steps = 0; self.budget = budget
        self.uninterp = {}          # body key -> handler(interp, st, args, fn, term) -> outcomes
        self.depth = 0
        self.asserts = {}           # site -> status
        self.unwind = False
        self.inselect = 0; self.tasks = []; self.poison = False; self.Kawait = None; self.headers = {}
        self.models = None
        self.called = set()         # local functions analysed
        self.unmodelled = {}; self.ints = set()
        self.loopn = 0
        self.loops = []             # loop records (fix mode)
        self.recs = []; self.sums = []              # loops with an inductive invariant but no closed form
        self.bvd = 0                # depth of bound variables in use
        self.stack = []
        self.cuts = 0
        self.awaits = False
        import models, amodels, ambient, textmodels
        self.models = models; self.ambient = ambient
        terms.ELEM[0] = self.elem
        self.hooks = {}

    def elem(self, sa, idx):
        node = mk('at', sa, idx)
        ety = sa.a[2]
        if ety is None: return OPQ(node)
        if ety[0] == 'int':
            return int_atom(node, ety[1], ety[2])
        return self.P.expand_s(node, ety[1])

    # ------------------------------------------------ forking
    def fork(self, st, fn, depth=0):
        """run fn(state copy) -> list of outcomes, forking the state where fn needs to know a formula"""
        try:
            return fn(st.copy())
        except Split as e:
            if depth > 60: raise Budget('forks')
            self.tick(5)
            out = []
            for f in (e.f, not_(e.f)):
                s = st.assume(f)
                if s is not None:
                    if s.fs is st.fs: raise Unsupported('no progress on ' + show(f))
                    out += self.fork(s, fn, depth + 1)
            return out
        except Dead:
            return []

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.budget: raise Budget('steps')

    # ------------------------------------------------ places
    def proj(self, st, v, e):
        o = v.op; k = e[0]
        if o == 'unk': return v
        if k == 'box':
            if o == 'box': return v.a[0]
            return v
        if o == 'ite':
            raise Split(v.a[0])
        if k == 'f':
            i = e[1]
            if o == 'struct':
                if i < len(v.a[2]): return v.a[2][i]
                raise Unsupported('field')
            if o == 'down': return self.P.expand(mk('vfld', v.a[0], v.a[1], i), e[2]) if e[2] is not None else OPQ(mk('vfld', v.a[0], v.a[1], i))
            if o == 'opq': return self.P.expand(mk('fld', v.a[0], i), e[2]) if e[2] is not None else OPQ(mk('fld', v.a[0], i))
            if o == 'box' or o == 'ref': return self.proj(st, v.a[0], e)   # smart pointer internals
            if o == 'seq' and i == 0: return v          # newtype around a sequence (digest)
            return UNK('field of ' + o)
        if k == 'd':
            if o == 'struct':
                if v.a[1] != e[1]: raise Dead()
                return v
            if o == 'symenum': return mk('down', v.a[0], e[1])
            if o == 'opq': return mk('down', v.a[0], e[1])
            return UNK('downcast of ' + o)
        if k == 'i':
            if o == 'seq': return seq_at(st.fs, v, e[1])
            return UNK('index of ' + o)
        if k == 'sub':
            if o == 'seq': return slice_seq(st.fs, v, e[1], e[2])
            return UNK('slice of ' + o)
        raise Unsupported(str(e))

    def setp(self, st, v, path, new):
        if not path: return new
        e = path[0]; k = e[0]; o = v.op
        if o in ('uninit', 'moved') or o == 'unk':
            if o == 'unk': return v
            if k == 'f' and len(path) == 1 and o == 'moved': return UNK('partial reinit')
            return new
        if k == 'box':
            if o == 'box': return BOX(self.setp(st, v.a[0], path[1:], new))
            return UNK('box write')
        if k == 'f':
            if o == 'struct':
                fs = list(v.a[2]); fs[e[1]] = self.setp(st, fs[e[1]], path[1:], new)
                return mk('struct', v.a[0], v.a[1], tuple(fs))
            if o == 'seq' and e[1] == 0: return self.setp(st, v, path[1:], new)
            if o == 'box': return BOX(self.setp(st, v.a[0], path[1:], new))
            return UNK('field write')
        if k == 'd':
            if o == 'struct':
                if v.a[1] != e[1]: raise Dead()
                return self.setp(st, v, path[1:], new)
            if o == 'symenum':
                a = self.P.adt_of_s(v.a[1])
                if a:
                    nf = len(a['variants'][e[1]]['fields'])
                    if nf == 1 and len(path) >= 2 and path[1][0] == 'f':
                        inner = self.P.expand(mk('vfld', v.a[0], e[1], 0), path[1][2])
                        return mk('struct', a['path'], e[1], (self.setp(st, inner, path[2:], new),))
            return UNK('variant write')
        if o == 'ite': raise Split(v.a[0])
        if k == 'i' and o == 'seq':
            L = seq_len(v); i = e[1]
            x = self.setp(st, seq_at(st.fs, v, i), path[1:], new) if len(path) > 1 else new
            return cat(slice_seq(st.fs, v, I(0), i), S_unit(x), slice_seq(st.fs, v, addc(i, 1), L))
        if k == 'sub' and o == 'seq':
            L = seq_len(v)
            x = self.setp(st, slice_seq(st.fs, v, e[1], e[2]), path[1:], new)
            if x.op == 'unk': return x
            if x.op == 'ite': raise Split(x.a[0])
            return cat(slice_seq(st.fs, v, I(0), e[1]), x, slice_seq(st.fs, v, e[2], L))
        return UNK('write into ' + o)

    def getroot(self, st, root, path):
        v = st.cells.get(root)
        if v is None: raise Unsupported('uninitialised ' + str(root))
        for e in path: v = self.proj(st, v, e)
        return v

    def setroot(self, st, root, path, new):
        if not path: st.cells[root] = new; return
        v = st.cells.get(root)
        if v is None: v = UNINIT
        st.cells[root] = self.setp(st, v, path, new)

    def mread(self, st, m):
        return self.getroot(st, m.a[0], m.a[1])

    def mwrite(self, st, m, v):
        self.setroot(st, m.a[0], m.a[1], v)

    def deref(self, st, v):
        """value behind a reference, smart pointer or place reference"""
        if v.op == 'mref': return self.mread(st, v)
        if v.op in ('ref', 'box'): return v.a[0]
        return v

    def strip(self, st, v):
        """value behind any number of references and smart pointers"""
        n = 0
        while v.op in ('mref', 'ref', 'box') and n < 20:
            v = self.deref(st, v); n += 1
        return v

    def pel(self, st, fr, e, cur):
        k = e[0]
        if k == 'field': return ('f', e[1], e[2] if len(e) > 2 else None)
        if k == 'downcast': return ('d', e[1])
        if k == 'index': return ('i', st.cells[(fr.id, e[1])])
        if k == 'cindex':
            off, minlen, fromend = e[1], e[2], e[3]
            if not fromend: return ('i', I(off))
            return ('i', addc(seq_len(cur), -off))
        if k == 'subslice':
            a, b, fe = e[1], e[2], e[3]
            return ('sub', I(a), addc(seq_len(cur), -b) if fe else I(b))
        raise Unsupported('projection ' + k)

    def read(self, st, fr, p):
        v = st.cells.get((fr.id, p['l']))
        if v is None: raise Unsupported(f"uninitialised _{p['l']} in {fr.key}")
        for e in p.get('p', ()):
            if e[0] == 'deref': v = self.deref(st, v)
            else:
                if v.op == 'mref': v = self.mread(st, v)
                v = self.proj(st, v, self.pel(st, fr, e, v))
        return v

    def resolve(self, st, fr, p):
        """(root cell, path) of a place, or ('val', value) if it lies behind a shared reference"""
        root = (fr.id, p['l']); path = ()
        val = None
        for e in p.get('p', ()):
            if val is not None:
                val = self.deref(st, val) if e[0] == 'deref' else self.proj(st, val, self.pel(st, fr, e, val))
                continue
            if e[0] == 'deref':
                v = self.getroot(st, root, path)
                if v.op == 'mref': root, path = v.a[0], v.a[1]
                elif v.op == 'box': path = path + (('box',),)
                elif v.op == 'ite': raise Split(v.a[0])
                else: val = self.deref(st, v)
            else:
                cur = self.getroot(st, root, path) if e[0] in ('cindex', 'subslice') else None
                path = path + (self.pel(st, fr, e, cur),)
        if val is not None: return ('val', val)
        return (root, path)

    def write(self, st, fr, p, v):
        if not p.get('p'):
            st.cells[(fr.id, p['l'])] = v; return
        r = self.resolve(st, fr, p)
        if r[0] == 'val':
            st.taint = st.taint or 'write behind a shared reference'; return
        self.setroot(st, r[0], r[1], v)

    def operand(self, st, fr, o):
        if 'copy' in o: return self.read(st, fr, o['copy'])
        if 'move' in o:
            p = o['move']
            v = self.read(st, fr, p)
            if not p.get('p'): st.cells.pop((fr.id, p['l']), None)
            else:
                r = self.resolve(st, fr, p)
                if r[0] != 'val' and not any(e[0] in ('i', 'sub') for e in r[1]) and v.op in ('struct', 'seq', 'box', 'opq', 'symenum', 'mref'):
                    try: self.setroot(st, r[0], r[1], mk('moved'))
                    except (Unsupported, Dead): pass
            return v
        return self.const(st, fr, o['const'])

    def const(self, st, fr, c):
        if 'fn' in c: return FNV(c['fn'])
        if 'static' in c: return self.ambient.static_const(self, st, c)
        if 'ty' in c:
            t = self.P.T[c['ty']]
            while t['k'] == 'ref': t = self.P.T[t['to']]
            if t['s'].startswith('std::thread::LocalKey<'): return self.ambient.ambient(c.get('item') or 'thread local', self.P.T.index(t))
        if 'int' in c:
            if 'item' not in c: self.ints.add(c['int'])
            return I(c['int'])
        if 'bool' in c: return TRUE if c['bool'] else FALSE
        if 'str' in c: return REF(S_bytes(c['str']))
        if 'bytes' in c:
            q = S_bytes(c['bytes'])
            t = self.P.T[c['ty']] if 'ty' in c else None
            return q if (t is not None and t['k'] == 'array') else REF(q)
        if 'tuple' in c: return mk('struct', '()', 0, tuple(self.const(st, fr, x) for x in c['tuple']))
        if 'array' in c: return S_units([self.const(st, fr, x) for x in c['array']])
        if 'adt' in c:
            if c['adt'] in FIXED:
                pass
            return mk('struct', c['adt'], c['variant'], tuple(self.const(st, fr, x) for x in c['fields']))
        if 'refto' in c: return REF(self.const(st, fr, c['refto']))
        if 'promoted' in c:
            b = self.P.bodies.get(c['of']) or self.P.ext.get(c['of'])
            if b is None and fr is not None: b = fr.body
            pb = b['promoted'][c['promoted']]
            key = (c['of'], c['promoted'])
            outs = self.call_body(st.copy(), pb, [], f"{c['of']}::promoted{c['promoted']}")
            if len(outs) == 1 and outs[0][0] == 'ret': return outs[0][2]
            return UNK('promoted')
        if 'closure' in c: return mk('struct', 'closure:' + c['closure']['path'], 0, ())
        if 'zst' in c:
            t = self.P.T[c['ty']] if 'ty' in c else None
            if t and t['k'] == 'adt': return mk('struct', t['path'], 0, ())
            return UNIT
        if 'item' in c and c['item'] in self.P.consts:
            v = self.P.consts[c['item']].get('val')
            if v and 'opaque' not in v: return self.const(st, fr, v)
        return UNK('const ' + str(c.get('opaque'))[:60])

    # ------------------------------------------------ rvalues
    def tint(self, ty):
        t = self.P.T[ty]
        if t['k'] == 'int': return t['bits'], t['signed']
        if t['k'] == 'char': return 32, False
        if t['k'] == 'bool': return 1, False
        return None

    def wrap(self, fs, x, bits, signed):
        lo, hi = int_rng(bits, signed)
        if self.in_range(fs, x, lo, hi): return x
        if not signed: return rem_(x, 1 << bits)
        c = cval(x)
        if c is not None: return I((c - lo) % (1 << bits) + lo)
        return addc(rem_(addc(x, -lo), 1 << bits), lo)

    def in_range(self, fs, x, lo, hi):
        a, b = lrange(x)
        if (a is None or a < lo) and not fs.ent_le(sub(I(lo), x)): return False
        if (b is None or b > hi) and not fs.ent_le(addc(x, -hi)): return False
        return True

    def discr(self, st, v):
        if v.op in ('mref', 'ref', 'box'): v = self.strip(st, v)
        if v.op == 'ite': raise Split(v.a[0])
        if v.op == 'struct':
            a = self.P.adts.get(v.a[0])
            if a and a['kind'] == 'enum': return I(self.P.discrs(a)[v.a[1]])
            return I(v.a[1])
        if v.op == 'symenum':
            a = self.P.adt_of_s(v.a[1])
            at = mk('i', mk('dsc', v.a[0]))
            if a:
                ds = self.P.discrs(a)
                set_rng(at, min(ds), max(ds)); DOM[at.id] = tuple(sorted(ds))
            else: set_rng(at, 0, 1)
            return A(at)
        if v.op == 'opq':
            at = mk('i', mk('dsc', v.a[0])); set_rng(at, 0, 255)
            return A(at)
        return UNK('discr of ' + v.op)

    def rvalue(self, st, fr, r):
        k = r['k']
        if k == 'use': return self.operand(st, fr, r['o'])
        if k == 'ref':
            if r['mut']:
                x = self.resolve(st, fr, r['p'])
                if x[0] == 'val': return REF(x[1])
                return mk('mref', x[0], x[1])
            v = self.read(st, fr, r['p'])
            return REF(v)
        if k == 'bin':
            a = self.operand(st, fr, r['a']); b = self.operand(st, fr, r['b'])
            return self.binop(st, r['op'], a, b, r['ty'])
        if k == 'cast': return self.cast(st, r['c'], self.operand(st, fr, r['o']), r['from'], r['to'])
        if k == 'un':
            v = self.operand(st, fr, r['o']); op = r['op']
            if op == 'PtrMetadata':
                q = self.strip(st, v)
                if q.op in ('seq', 'ite'): return seq_len(q)
                return UNK('len')
            if v.op == 'unk': return v
            if op == 'Not':
                if is_bool(v): return not_(v)
                b, s = self.tint(r['ty'])
                return sub(I(-1 if s else (1 << b) - 1), v)
            if op == 'Neg' and v.op == 'lin': return scale(v, -1)
            return UNK('un ' + op)
        if k == 'discr':
            return self.discr(st, self.read(st, fr, r['p']))
        if k == 'agg':
            ops = [self.operand(st, fr, o) for o in r['ops']]
            a = r['a']
            if a == 'array': return S_units(ops)
            if a == 'tuple': return mk('struct', '()', 0, tuple(ops))
            if a == 'adt':
                if r['path'] in FIXED and len(ops) == 1: return ops[0]
                return mk('struct', r['path'], r['variant'] or 0, tuple(ops))
            if a == 'closure': return mk('struct', 'closure:' + r['path'], 0, tuple(ops))
            if a == 'coroutine': return mk('struct', 'coro:' + r['path'], 0, tuple(ops))
            if a == 'rawptr': return ops[0]
            return UNK('agg ' + a)
        if k == 'repeat':
            v = self.operand(st, fr, r['o'])
            if r['n'] is None: return UNK('repeat')
            return S_rep(v, I(r['n']))
        return UNK('rvalue ' + k)

    def binop(self, st, op, a, b, ty):
        if a.op == 'unk': return a if not op.endswith('WithOverflow') else TUP(a, FALSE)
        if b.op == 'unk': return b if not op.endswith('WithOverflow') else TUP(b, FALSE)
        if is_bool(a) and is_bool(b):
            if op == 'Eq': return or_(and_(a, b), and_(not_(a), not_(b)))
            if op in ('Ne', 'BitXor'): return or_(and_(a, not_(b)), and_(not_(a), b))
            if op == 'BitAnd': return and_(a, b)
            if op == 'BitOr': return or_(a, b)
            return UNK('bool ' + op)
        if a.op == 'lin' and b.op == 'lin':
            if op == 'Eq': return eqi(a, b)
            if op == 'Ne': return not_(eqi(a, b))
            if op == 'Lt': return lt(a, b)
            if op == 'Le': return le(a, b)
            if op == 'Gt': return lt(b, a)
            if op == 'Ge': return le(b, a)
            ti = self.tint(ty)
            if ti is None: return UNK('binop type')
            bits, sg = ti
            lo, hi = int_rng(bits, sg)
            base = op.replace('WithOverflow', '').replace('Unchecked', '')
            if base in ('Add', 'Sub', 'Mul'):
                x = add(a, b) if base == 'Add' else sub(a, b) if base == 'Sub' else mul(a, b)
                if op.endswith('WithOverflow'):
                    return TUP(x, or_(lt(x, I(lo)), gt(x, I(hi))))
                if op.endswith('Unchecked'): return x
                return self.wrap(st.fs, x, bits, sg)
            if base == 'BitAnd': return bitand(a, b)
            if base == 'BitOr': return bitor(a, b)
            if base == 'BitXor': return bitxor(a, b)
            c = cval(b)
            if base == 'Shl' and c is not None: return self.wrap(st.fs, scale(a, 1 << (c % bits)), bits, sg)
            if base == 'Shr' and c is not None: return div_(a, 1 << (c % bits))
            if base in ('Div', 'Rem') and c is not None and c > 0:
                l, h = lrange(a)
                if (l is not None and l >= 0) or st.fs.ent_le(scale(a, -1)):
                    return div_(a, c) if base == 'Div' else rem_(a, c)
            if base in ('Shl', 'Shr', 'Div', 'Rem'):
                if cval(a) is not None and c is not None:
                    if base == 'Div': return I(int(cval(a) / c)) if c else UNK('div0')
                n = mk('uf', 'op' + base, a, b); at = mk('i', n); set_rng(at, lo, hi)
                return A(at)
            return UNK('binop ' + op)
        if op in ('Eq', 'Ne'):
            x, y = self.strip(st, a), self.strip(st, b)
            if x is y and not has_unknown(x): return TRUE if op == 'Eq' else FALSE
        return UNK('binop ' + op + ' ' + a.op + ' ' + b.op)

    def cast(self, st, c, v, frm, to):
        if v.op == 'unk': return v
        tt = self.P.T[to]
        if c == 'int':
            if v.op == 'symenum' or v.op == 'struct': v = self.discr(st, v)
            if is_bool(v): return A_(iteint(v, I(1), I(0)))
            if v.op != 'lin': return UNK('cast')
            ti = self.tint(to)
            return self.wrap(st.fs, v, *ti)
        if c.startswith('coerce') or c in ('ptr', 'subtype'): return v
        if c == 'transmute': return v if v.op in ('opq', 'mref', 'ref') else UNK('transmute')
        return UNK('cast ' + c)

    # ------------------------------------------------ running
    def call_body(self, st, body, args, key):
        if self.depth > 40: raise Unsupported('recursion ' + key)
        self.depth += 1
        self.fid += 1
        fr = Frame(body, self.fid, self.P.cfg(body), key)
        self.stack.append(key)
        try:
            for i, a in enumerate(args): st.cells[(fr.id, i + 1)] = a
            outs = self.run(fr, 0, [st], None, None)
        finally:
            self.depth -= 1; self.stack.pop()
        res = []
        for k, s, v in outs:
            if k == 'ret':
                v = s.cells.get((fr.id, 0), UNIT)
                s = s.copy()
                for c in [c for c in s.cells if c[0] == fr.id]: del s.cells[c]
                res.append(('ret', s, v))
            else: res.append((k, s, v))
        if len(res) > 1: res = self.merge_rets(res)
        return res

    def merge_rets(self, res):
        g = {}; out = []
        for k, s, v in res:
            if k == 'ret': g.setdefault(v, []).append(s)
            else: out.append((k, s, v))
        for v, ss in g.items():
            for s in merge_states(ss): out.append(('ret', s, v))
        return out

    def run(self, fr, start, states, region, header):
        work = {start: list(states)}
        outs = []; rpo = fr.cfg.rpo; first = True
        while work:
            b = min(work, key=lambda x: rpo.get(x, 1 << 30))
            sts = work.pop(b)
            if len(sts) > 1:
                for s in sts: self.prune(fr, b, s)
                sts = merge_states(sts)
            for s in sts:
                if b in fr.cfg.loops and not (b == header and first):
                    res = self.loop(fr, b, s)
                else: res = self.block(fr, b, s)
                for k, s2, v in res:
                    if k == 'edge':
                        if header is not None and v == header: outs.append(('back', s2, None))
                        elif region is not None and v not in region: outs.append(('exit', s2, v))
                        else: work.setdefault(v, []).append(s2)
                    else: outs.append((k, s2, v))
            first = False
        return outs

    def prune(self, fr, b, s):
        live = fr.cfg.live[b]; keep = fr.cfg.keep
        for c in [c for c in s.cells if c[0] == fr.id and c[1] not in live and c[1] not in keep]: del s.cells[c]

    def block(self, fr, b, st):
        """outcomes of one basic block"""
        bl = fr.body['blocks'][b]
        return self.stmts(fr, b, bl, 0, st.copy())

    def stmts(self, fr, b, bl, i, st):
        ss = bl['s']
        while i < len(ss):
            s = ss[i]
            self.tick()
            snap = dict(st.cells)
            try:
                if s['k'] == 'assign':
                    v = self.rvalue(st, fr, s['r'])
                    self.write(st, fr, s['d'], v)
                elif s['k'] == 'dead':
                    st.cells.pop((fr.id, s['l']), None)
                elif s['k'] == 'assume':
                    pass
                elif s['k'] == 'setdiscr':
                    st.taint = st.taint or 'setdiscr'
            except Split as e:
                out = []
                st.cells = snap
                for f in (e.f, not_(e.f)):
                    s2 = st.assume(f)
                    if s2 is not None:
                        if s2.fs is st.fs: raise Unsupported('no progress')
                        out += self.stmts(fr, b, bl, i, s2)
                return out
            except Dead: return []
            except Unsupported as e:
                if s['k'] == 'assign' and not s['d'].get('p'):
                    st.cells[(fr.id, s['d']['l'])] = UNK(str(e))
                else: st.taint = st.taint or str(e)
            i += 1
        return self.term(fr, b, bl['t'], st)

    def branch(self, fr, st, f, tt, tf):
        """outcomes for a two-way branch on formula f"""
        out = []
        g = st.fs.simp(f)
        if g is TRUE: return [('edge', st, tt)]
        if g is FALSE: return [('edge', st, tf)]
        a = st.assume(g); b = st.assume(not_(g))
        if a is not None: out.append(('edge', a, tt))
        if b is not None: out.append(('edge', b, tf))
        return out

    def term(self, fr, b, t, st):
        k = t['k']
        self.tick()
        if k == 'goto': return [('edge', st, t['to'])]
        if k == 'return': return [('ret', st, None)]
        if k in ('resume',): return [('unwind', st, None)]
        if k in ('unreachable', 'corodrop'): return []
        if k == 'switch': return self.switch(fr, st, t)
        if k == 'assert': return self.do_assert(fr, st, t)
        if k == 'drop':
            r = []
            try:
                v = None
                if not t['p'].get('p'): v = st.cells.get((fr.id, t['p']['l']))
                else: v = self.read(st, fr, t['p'])
            except (Unsupported, Dead, Split): v = None
            if v is None or v.op in ('moved', 'uninit'): return [('edge', st, t['to'])]
            outs = self.drop_value(st, v)
            for k2, s2, _ in outs:
                if k2 == 'ret':
                    if not t['p'].get('p'): s2.cells.pop((fr.id, t['p']['l']), None)
                    r.append(('edge', s2, t['to']))
                else: r.append((k2, s2, _))
            return r
        if k == 'call': return self.do_call(fr, b, t, st)
        if k == 'yield':
            # the analysis runs futures to completion; a yield only happens where a poll said Pending
            st.ev = st.ev + (('yield', fr.key),)
            return [('cut', st, 'yield')]
        raise Unsupported('terminator ' + k)

    def switch(self, fr, st, t):
        try: v = self.operand(st, fr, t['o'])
        except Split as e:
            out = []
            for f in (e.f, not_(e.f)):
                s2 = st.assume(f)
                if s2 is not None: out += self.switch(fr, s2, t)
            return out
        except Unsupported as e: v = UNK(str(e))
        if v.op == 'unk' or not (v.op == 'lin' or is_bool(v)):
            out = []
            for _, x in t['targets']:
                s = st.copy(); s.taint = s.taint or ('branch on ' + str(v.a[0] if v.op == 'unk' else v.op)); out.append(('edge', s, x))
            s = st.copy(); s.taint = s.taint or ('branch on ' + str(v.a[0] if v.op == 'unk' else v.op)); out.append(('edge', s, t['otherwise']))
            return out
        if is_bool(v):
            tf = tt = None
            for c, x in t['targets']:
                if c == 0: tf = x
                else: tt = x
            if tf is None: tf = t['otherwise']
            if tt is None: tt = t['otherwise']
            return self.branch(fr, st, v, tt, tf)
        ti = self.tint(t['ty']) or (64, False)
        out = []; cur = st
        dom = None
        if len(v.a[1]) == 1 and v.a[0] == 0 and v.a[1][0][1] == 1: dom = DOM.get(v.a[1][0][0].id)
        seen = []
        for c, x in t['targets']:
            if ti[1] and c >= (1 << (ti[0] - 1)): c -= 1 << ti[0]
            if dom is not None and c not in dom: continue
            f = eqi(v, I(c)); seen.append(c)
            g = cur.fs.simp(f)
            if g is TRUE: out.append(('edge', cur, x)); return out
            if g is FALSE: continue
            a = cur.assume(g)
            if a is not None: out.append(('edge', a, x))
            cur = cur.assume(not_(g))
            if cur is None: return out
        if dom is not None:
            rest = [c for c in dom if c not in seen and cur.fs.feasible(eqi(v, I(c)))]
            if not rest: return out
        out.append(('edge', cur, t['otherwise']))
        return out

    def do_assert(self, fr, st, t):
        try: v = self.operand(st, fr, t['o'])
        except (Unsupported, Split) as e: v = UNK(str(e))
        site = (fr.key, t['sp'], t['msg'])
        if not is_bool(v):
            self.asserts[site] = 'unknown'
            st.taint = st.taint or 'assertion on an unmodelled value'
            return [('edge', st, t['to'])]
        f = v if t['expected'] else not_(v)
        g = st.fs.simp(f)
        if g is not TRUE and st.fs.ors and st.fs.ent(g): g = TRUE
        if g is TRUE:
            self.asserts.setdefault(site, 'discharged')
            return [('edge', st, t['to'])]
        out = []
        bad = st.assume(not_(g))
        if bad is not None:
            self.asserts[site] = 'open'
            out += self.panic(fr, bad, t['msg'], t['sp'], t.get('unwind'))
        ok = st.assume(g)
        if ok is not None: out.append(('edge', ok, t['to']))
        return out

    def panic(self, fr, st, msg, sp, unwind):
        st = st.copy()
        d = {'msg': msg, 'at': sp, 'in': fr.key}
        if self.unwind and isinstance(unwind, int):
            st.ev = st.ev + (('panic', msg),)
            return [('edge', st, unwind)]
        return [('panic', st, d)]

    # ------------------------------------------------ calls
    def do_call(self, fr, b, t, st):
        snap = dict(st.cells)
        try:
            f = self.operand(st, fr, t['f'])
            args = [self.operand(st, fr, a) for a in t['args']]
        except Split as e:
            out = []
            st.cells = snap
            for g in (e.f, not_(e.f)):
                s2 = st.assume(g)
                if s2 is not None: out += self.do_call(fr, b, t, s2)
            return out
        except Dead: return []
        except Unsupported as e:
            st.taint = st.taint or str(e)
            f = None; args = []
        if f is None or f.op != 'fnv':
            outs = self.call_value(st, f, args) if f is not None and f.op in ('struct',) else [('ret', st, UNK('indirect call'))]
        else:
            outs = self.call_fn(st, FN[f.a[0]], args, t)
        res = []
        for k, s, v in outs:
            if k == 'ret' and t['to'] is None:
                # a function that never returns: a panic, an abort or an exit
                k, v = 'panic', {'msg': 'call of ' + (FN[f.a[0]].get('path', '?') if f is not None and f.op == 'fnv' else 'a diverging function'), 'at': t.get('sp'), 'in': fr.key}
                self.asserts[(fr.key, t.get('sp'), v['msg'])] = 'open'
            if k == 'ret':
                s = s.copy()
                def put(s, v=v):
                    self.write(s, fr, t['d'], v)
                    return [('edge', s, t['to'])]
                res += self.fork(s, put)
            elif k == 'panic' :
                if self.unwind and isinstance(t.get('unwind'), int):
                    s = s.copy(); s.ev = s.ev + (('panic', v['msg'] if isinstance(v, dict) else v),)
                    res.append(('edge', s, t['unwind']))
                else: res.append((k, s, v))
            elif k == 'unwind':
                if isinstance(t.get('unwind'), int): res.append(('edge', s, t['unwind']))
                else: res.append((k, s, v))
            else: res.append((k, s, v))
        return res

    def call_fn(self, st, f, args, t):
        """outcomes of calling a function item"""
        self.tick()
        if f.get('ctor_adt'):
            if f['ctor_adt'] in FIXED and len(args) == 1: return [('ret', st, args[0])]
            return [('ret', st, mk('struct', f['ctor_adt'], f['ctor_variant'], tuple(args)))]
        key = f.get('rpath') or f['path']
        for kk in (key, f['path']):
            if kk in self.uninterp:
                try: return self.fork(st, lambda s: self.uninterp[kk](self, s, args, f, t))
                except Unsupported as e:        # an argument that is not known
                    self.unmodelled[key] = str(e)
                    st = self.havoc(st, args).copy(); st.taint = st.taint or 'call of ' + key
                    return [('ret', st, UNK(f"{key}: {e}"))]
        body = self.P.bodies.get(key) if f.get('rlocal', True) else None
        if body is not None and not body['coroutine'] or (body is not None and body.get('kind') != 'Closure'):
            self.called.add(key)
            return self.call_body(st.copy(), body, args, key)
        m = self.models.find(f)
        if m is not None:
            try:
                return self.fork(st, lambda s: m(self, s, args, f, t))
            except NoModel: pass
            except Unsupported as e:
                self.unmodelled[key] = str(e)
                return [('ret', self.effects(self.havoc(st, args), key, args), UNK(f"{key}: {e}"))]
            except (IndexError, KeyError, TypeError, AttributeError, ValueError) as e:     # an operand of a shape the model does not know
                self.unmodelled[key] = f'{type(e).__name__} {e}'
                return [('ret', self.effects(self.havoc(st, args), key, args), UNK(f"{key}: {e}"))]
        ek = f.get('ext')
        eb = self.P.ext.get(ek) if ek else None
        if eb is not None and self.depth < 12 and self.models.ext_ok(key):
            try:
                return self.call_body(st.copy(), eb, args, key)
            except (Unsupported, Budget) as e:
                pass
        self.unmodelled[key] = 'no model'
        return [('ret', self.effects(self.havoc(st, args), key, args), UNK('call ' + key))]

    def effects(self, st, key, args):
        """a call without a model leaves the effect trace of the path open if it may act: it is given a socket, a lock, a task,
        a draw or code to run, or belongs to a library that acts"""
        def acts(v, d=0):
            if v.op in ('fnv', 'unk'): return True
            if v.op == 'struct' and isinstance(v.a[0], str) and (v.a[0].startswith(('closure:', 'coro:', 'fut:')) or v.a[0] in ('lock', 'guard')): return True
            if v.op == 'uf' and v.a and v.a[0] in ('socket', 'trigger'): return True
            if v.op == 'opq' and 'socket' in str(v.a[0])[:20]: return True
            return d < 6 and any(acts(c, d + 1) for c in terms._children(v))
        if key.split('::')[0].lstrip('<') in ('tokio', 'futures', 'rand', 'crate') or any(acts(a) for a in args):
            st = st.copy(); st.taint = st.taint or 'call of ' + key
        return st

    def havoc(self, st, args):
        st = st.copy()
        def go(v, d=0):
            if v.op == 'mref': self.setroot(st, v.a[0], v.a[1], UNK('havoc'))
            elif d < 4:
                for c in terms._children(v): go(c, d + 1)
        for a in args:
            try: go(a)
            except (Unsupported, Dead, Split): st.taint = st.taint or 'havoc'
        return st

    def call_value(self, st, f, args):
        """call a closure, function item or function pointer value with already spread arguments"""
        f0 = f
        f = self.strip(st, f)
        if f.op == 'fnv': return self.call_fn(st, FN[f.a[0]], args, None)
        if f.op == 'struct' and f.a[0].startswith('closure:'):
            key = f.a[0][8:]
            body = self.P.bodies.get(key) or self.P.ext.get(key)
            if body is None: return [('ret', st, UNK('closure ' + key))]
            self.called.add(key)
            lt = self.P.T[body['locals'][1]]
            st = st.copy()
            cell = None
            if lt['k'] == 'ref':
                if f0.op == 'mref': selfv = f0
                elif lt['mut']:
                    self.fid += 1
                    cell = ('clo', self.fid); st.cells[cell] = f
                    selfv = mk('mref', cell, ())
                else: selfv = REF(f)
            else: selfv = f
            outs = self.call_body(st, body, [selfv] + list(args), key)
            if cell:
                for k, s, v in outs: s.cells.pop(cell, None)
            return outs
        if f.op == 'ite': raise Split(f.a[0])
        if f.op == 'struct':
            r = self.models.call_closure_like(self, st, f, args)
            if r is not None: return r
        return [('ret', self.havoc(st, args), UNK('call of ' + f.op))]

    # ------------------------------------------------ drops
    def drop_value(self, st, v, d=0):
        """run the destructors that matter: Drop impls of the crate, lock guards"""
        if d > 6 or v.op not in ('struct', 'box'): return [('ret', st, UNIT)]
        if v.op == 'box': return self.drop_value(st, v.a[0], d + 1)
        path = v.a[0]
        if path == 'guard':
            st = st.copy(); st.ev = st.ev + (('unlock', v.a[2][0], v.a[2][1]),)
            return [('ret', st, UNIT)]
        sts = [('ret', st, UNIT)]
        s = path[7:] if path.startswith('crate::') else path
        dk = self.P.drops.get(s)
        if dk is None:
            for k in self.P.drops:
                if k.split('<')[0] == s: dk = self.P.drops[k]
        if dk is not None:
            body = self.P.bodies[dk]
            self.called.add(dk)
            s2 = st.copy(); self.fid += 1
            cell = ('drop', self.fid); s2.cells[cell] = v
            sts = self.call_body(s2, body, [mk('mref', cell, ())], dk)
            r = []
            for k, s3, x in sts:
                s3 = s3.copy()
                w = s3.cells.pop(cell, v)
                r.append((k, s3, w))
            sts = r
        else: sts = [('ret', st, v)]
        if path.startswith('iter:'): return [(k, s, UNIT) for k, s, _ in sts]
        out = []
        for k, s, w in sts:
            if k != 'ret': out.append((k, s, w)); continue
            cur = [('ret', s, UNIT)]
            for x in w.a[2] if w.op == 'struct' else ():
                nxt = []
                for k2, s2, _ in cur:
                    if k2 == 'ret': nxt += self.drop_value(s2, x, d + 1)
                    else: nxt.append((k2, s2, _))
                cur = nxt
            out += cur
        return out

    # ------------------------------------------------ loops
    def loop(self, fr, header, st):
        if self.mode == 'fix':
            import loops
            r = loops.summarise(self, fr, header, st)
            if r is not None: return r
        return self.peel(fr, header, st)

    def peel(self, fr, header, st):
        """bounded unrolling: every iteration that is not forced counts against the bound"""
        region = fr.cfg.loops[header]
        outs = []
        awaiting = any(fr.body['blocks'][x]['t']['k'] == 'yield' for x in region)
        K = self.Kawait if awaiting and self.Kawait else self.K
        cur = [(st, 0)]
        n = 0
        while cur:
            n += 1
            if n > 400:
                self.cuts += len(cur); outs += [('cut', s, 'loop') for s, c in cur]; break
            nxt = []
            for s, c in cur:
                self.prune(fr, header, s)
                if awaiting and self.Kawait: self.headers.setdefault((fr.key, fr.id, header), []).append((s.fs, {k[1]: v for k, v in s.cells.items() if k[0] == fr.id}))
                res = self.run(fr, header, [s], region, header)
                others = [x for x in res if x[0] != 'back']
                backs = [x for x in res if x[0] == 'back']
                forced = not others and len(backs) == 1
                for k, s2, v in others:
                    if k == 'exit': outs.append(('edge', s2, v))
                    else: outs.append((k, s2, v))
                for _, s2, _ in backs:
                    c2 = c if forced else c + 1
                    if c2 >= K:
                        self.cuts += 1
                        s2 = s2.copy(); outs.append(('cut', s2, 'loop'))
                    else: nxt.append((s2, c2))
            if len(nxt) > 1:
                byc = {}
                for s, c in nxt: byc.setdefault(c, []).append(s)
                nxt = [(s, c) for c, ss in byc.items() for s in merge_states(ss)]
            if len(nxt) > 64:
                self.cuts += len(nxt) - 64; outs += [('cut', s, 'loop') for s, c in nxt[64:]]; nxt = nxt[:64]
            cur = nxt
        return outs

    # ------------------------------------------------ entry
    def analyse(self, key, args, st=None):
        """outcomes of calling a local function on the given abstract arguments"""
        body = self.P.bodies[key]
        self.called.add(key)
        return self.call_body(st or State(), body, args, key)

def sym_args(P, body, names=None, st=None):
    """symbolic arguments for a body: (values, state); mutable references point at fresh cells"""
    st = st or State()
    vals = []
    for i in range(body['argc']):
        nm = (names[i] if names else None) or body['names'].get(str(i + 1)) or f'arg{i+1}'
        node = SYM(nm)
        ty = body['locals'][i + 1]
        t = P.T[ty]
        if t['k'] == 'ref' and t['mut']:
            cell = ('arg', i); st.cells[cell] = P.expand(node, t['to'])
            vals.append(mk('mref', cell, ()))
        else: vals.append(P.expand(node, ty))
    return vals, st
