"""The code generator (C27): what it writes for the shipped dictionaries, derived from its source, against the shipped modules.

1. The generator's entry point is analysed on symbolic dictionary files. A line stands for all dictionary lines of its shape (kind, type, options);
   names and numbers stay symbolic. The result is the text written, as a term over the lines. Blocks of one or two lines cover each line, each value
   together with the attribute it belongs to, and each pair of neighbouring lines (a line must not change what is written for the next).
2. The terms are instantiated for each dictionary line; the items obtained are compared with the items of the shipped module.
3. Items that are written differently are compared by meaning: the generated modules are type-checked in place of the shipped ones in a scratch copy
   and the accessor rules (C14-C17) are decided for both."""
import os, re, json, shutil, tempfile, subprocess
from spec import *
import interp, p_dict, p_core, seqops
from interp import *
from p_core import QQ

# ---------------------------------------------------------------- Rust items of a module text
TOK = re.compile(r'''//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])'|'[A-Za-z_]\w*|[A-Za-z_0-9]+|::|->|=>|\.\.=|\.\.|&&|\|\||[=!<>+\-*/%^&|]=|<<|>>|[^\sA-Za-z_0-9]''', re.S)
def tokens(t): return [x for x in TOK.findall(t) if not x.startswith(('//', '/*'))]
OPEN, CLOSE = '([{', ')]}'
def items(text):
    """{(kind, name): tokens} of the items at the top level, {use path}, problems"""
    ts = tokens(text); out = {}; uses = set(); odd = []
    i = 0; n = len(ts)
    while i < n:
        j = i; d = 0
        while j < n:
            if ts[j] in OPEN: d += 1
            elif ts[j] in CLOSE:
                d -= 1
                if d == 0 and ts[j] == '}' and 'use' not in ts[i:i + 2]: break
            elif ts[j] == ';' and d == 0: break
            j += 1
        it = ts[i:j + 1]; i = j + 1
        if not it: continue
        while it[:1] == ['#']:
            k = 1; d = 0
            while k < len(it):
                if it[k] in OPEN: d += 1
                elif it[k] in CLOSE:
                    d -= 1
                    if d == 0: break
                k += 1
            it = it[k + 1:]
        w = [x for x in it if x != 'pub']
        if w[:1] == ['use']: uses |= set(flat(w[1:-1])); continue
        if w[:1] and w[0] in ('const', 'type', 'fn', 'static') and len(w) > 1:
            key = (w[0], w[1])
            c = canon(it)
            if key in out and out[key] != c: odd.append(key)
            out[key] = c
        else: odd.append(' '.join(it[:6]))
    return out, uses, odd

def flat(ts):
    """paths of a use tree"""
    if '{' not in ts:
        p = ''.join(x if x != 'as' else ' as ' for x in ts)
        return [p]
    i = ts.index('{'); pre = ''.join(ts[:i]); d = 0; cur = []; out = []
    for x in ts[i + 1:-1] + [',']:
        if x == '{': d += 1
        if x == '}': d -= 1
        if x == ',' and d == 0:
            if cur: out += [pre + p for p in flat(cur)]
            cur = []
        else: cur.append(x)
    return out

def canon(ts):
    out = []
    for i, x in enumerate(ts):
        if x == ',' and i + 1 < len(ts) and ts[i + 1] in CLOSE: continue
        out.append(x)
    return ' '.join(out)

# ---------------------------------------------------------------- the dictionary lines
class Line:
    def __init__(self, mod, i, text):
        self.mod = mod; self.i = i; self.text = text
        w = text.split('#')[0].split()
        self.w = w; self.kind = w[0] if w else None
        n = len(re.split(r'\s+', text))
        self.shape = (self.kind,) if self.kind is None else (self.kind, w[3], w[4] if len(w) > 4 else '', n) if self.kind == 'ATTRIBUTE' and len(w) > 3 else (self.kind, '#' in text, n)

def read(repo):
    out = []
    d = os.path.join(repo, 'dicts')
    for f in sorted(os.listdir(d)):
        if f.startswith('dictionary.'):
            out.append((f[11:], [Line(f[11:], i, l.rstrip('\r')) for i, l in enumerate(open(os.path.join(d, f), errors='replace').read().split('\n')[:], 1)]))
    for m, ls in out:
        if ls and ls[-1].text == '': ls.pop()
    return out

class Blocks:
    """what the generator writes for small dictionaries, as terms"""
    def __init__(self, P):
        import gmodels
        self.g = gmodels; self.P = P; self.n = 0; self.failed = []; self.panics = []; self.fns = set(); self.unmodelled = {}
        self.entry = find(P, 'main') or 'crate::main'

    def texts(self, groups):
        """groups: [[(module, [lines])]]: small dictionaries of one form; the text written for each of them, per output file: [{file: text} or None]"""
        g = self.g
        envs = []
        for ds in groups:
            e = {}
            for j, (m, ls) in enumerate(ds):
                e[('path', j)] = f'/dicts/dictionary.{m}'
                for i, l in enumerate(ls): e[('line', j, i)] = l.text
            envs.append(e)
        g.ENVS[:] = envs; g._memo.clear()
        files = {g.tx('path', j): (j, len(ls)) for j, (m, ls) in enumerate(groups[0])}
        g.setup(envs, files)
        I_ = Interp(self.P, 'peel', K=4)
        self.n += 1
        try: outs = I_.analyse(self.entry, [], State())
        except (Unsupported, Split, Dead, Budget, RecursionError, KeyError, TypeError) as x:
            if len(groups) > 1: return [self.texts([d])[0] for d in groups]
            return [('undecided', f'{type(x).__name__}: {x}'[:200])]
        self.unmodelled.update(I_.unmodelled)
        self.fns |= set(I_.seen) if hasattr(I_, 'seen') else set()
        res = []
        for e, ds in zip(envs, groups):
            r = None
            for kd, s, v in outs:
                try:
                    if not all(g.val(f, e) for f in s.fs.formulas()): continue
                except g.NoValue as x:
                    r = ('undecided', str(x)); break
                if r is not None: r = ('undecided', 'more than one path'); break
                if s.taint: r = ('undecided', s.taint); continue
                if kd == 'panic': r = ('stops', v); continue
                if kd != 'ret': r = ('undecided', f'{kd}: {v}'); continue
                r = {}
                try:
                    for x in s.ev:
                        if x[0] == 'create': r.setdefault(g.val(x[1], e), '')
                        elif x[0] == 'out':
                            f = x[1]
                            if f.op != 'struct' or f.a[0] != 'outfile': raise g.NoValue('writer')
                            f = g.val(f.a[2][0], e)
                            r[f] = r.get(f, '') + g.val(x[2], e)
                except g.NoValue as x: r = ('undecided', str(x))
            res.append(r if r is not None else ('undecided', 'no path'))
        if len(groups) > 1:
            for i, r in enumerate(res):
                if isinstance(r, tuple) and r[0] == 'undecided': res[i] = self.texts([groups[i]])[0]
        return res

def by_shape(groups):
    out = {}
    for ds in groups: out.setdefault(tuple((tuple(l.shape for l in ls)) for m, ls in ds) + (tuple(m for m, _ in ds[1:]) and len(ds),), []).append(ds)
    return list(out.values())

def desc(ds): return ' / '.join(f'dicts/dictionary.{m}:' + ','.join(f'{l.i} "{" ".join(l.text.split())}"' for l in ls) for m, ls in ds)

class Gen:
    def __init__(self, P, repo):
        self.P = P; self.repo = repo; self.obs = []
        self.dicts = read(repo); self.B = Blocks(P)
        self.mods = {m: ({}, set()) for m, _ in self.dicts}      # items (kind, name) -> text, uses
        self.undecided = []

    def run(self, groups):
        """[(dictionaries, {module: (items, uses, odd)})] of the groups that were decided"""
        out = []
        for gs in by_shape(groups):
            for ds, r in zip(gs, self.B.texts(gs)):
                if isinstance(r, tuple):
                    if r[0] == 'stops': self.obs.append(Ob('code-generator', desc(ds), 'violated', {'reason': 'the generator stops', 'panic': str(r[1])[:200]}))
                    else: self.undecided.append((desc(ds), r[1]))
                    continue
                res = {}
                for f, t in r.items():
                    m = re.fullmatch(r'/out/(.+)\.rs', f)
                    if not m: self.obs.append(Ob('code-generator', desc(ds), 'violated', {'reason': 'writes ' + f})); continue
                    res[m.group(1)] = items(t)
                for m, ls in ds:
                    if m not in res: self.obs.append(Ob('code-generator', desc(ds), 'violated', {'reason': f'no file {m}.rs'}))
                out.append((ds, res))
        return out

    def collect(self):
        where = {}
        for m, ls in self.dicts:
            for l in ls:
                if l.kind == 'ATTRIBUTE' and len(l.w) > 1: where.setdefault(l.w[1], []).append((m, l))
        order = [m for m, _ in self.dicts]
        groups = []
        for m, ls in self.dicts:
            vals = {}
            for l in ls:
                if l.kind == 'VALUE' and len(l.w) > 2: vals.setdefault(l.w[1], []).append(l)
            for l in ls:
                if l.kind == 'ATTRIBUTE' and len(l.w) > 1 and l.w[1] in vals: groups.append([(m, [l, vals[l.w[1]][0]])])
                elif l.kind == 'ATTRIBUTE': groups.append([(m, [l])])
                elif l.kind != 'VALUE': groups.append([(m, [l])])
            for a, vs in vals.items():
                here = [l for mm, l in where.get(a, ()) if mm == m]
                before = [(mm, l) for mm, l in where.get(a, ()) if order.index(mm) < order.index(m)]
                for k, v in enumerate(vs):
                    pre = [(before[-1][0], [before[-1][1]])] if before else []
                    groups.append(pre + [(m, here[:1] + ([vs[k - 1]] if k else []) + [v])])
        self.blocks = self.run(groups)
        self.single = {}
        for ds, res in self.blocks:
            m = ds[-1][0]
            its, uses, odd = res.get(m, ({}, set(), []))
            its_, uses_ = self.mods[m]
            for k, t in its.items():
                if k in its_ and its_[k] != t: self.obs.append(Ob(f'core::{m}::{k[1]}', 'one definition', 'violated', {'reason': 'the generator writes two definitions', 'one': its_[k][:200], 'other': t[:200], 'for': desc(ds)}))
                its_[k] = t
            uses_ |= uses
            for x in odd: self.obs.append(Ob(f'core::{m}', f'{x}', 'violated', {'reason': 'not an item of an accessor module', 'for': desc(ds)}))
        for m in order: self.mods[m][1].update({f'crate::core::{x}' for x in order[:order.index(m)] if f'crate::core::{x}' in self.imports(m, order)})

    def imports(self, m, order):
        """modules imported by the header when they precede"""
        groups = [[(x, []), (m, [])] for x in order[:order.index(m)]]
        if not hasattr(self, '_imp'): self._imp = {}
        if m not in self._imp:
            s = set()
            for ds, res in self.run(groups): s |= res.get(m, ({}, set(), []))[1]
            self._imp[m] = s
        return self._imp[m]

    def neighbours(self):
        """a line does not change what is written for the line after it"""
        pairs = []
        for m, ls in self.dicts:
            real = [l for l in ls if l.kind]
            for q in (real, [l for l in real if l.kind == 'ATTRIBUTE'], [l for l in real if l.kind == 'VALUE']):
                pairs += list(zip(q, q[1:]))
        seen = set(); groups = []
        for a, b in pairs:
            k = (a.shape, b.shape, a.w[1:2] == b.w[1:2])
            if k in seen: continue
            seen.add(k); groups.append([(a.mod, [a, b])])
        single = {}
        lines = {id(l): l for ds in groups for _, ls in ds for l in ls}
        for ds, res in self.run([[(l.mod, [l])] for l in lines.values()]): single[id(ds[0][1][0])] = res[ds[0][0]]
        n = 0
        for ds, res in self.run(groups):
            m, (a, b) = ds[0]
            if id(a) not in single or id(b) not in single: continue
            got = res[m][0]
            same = a.w[1:2] == b.w[1:2] and a.kind != b.kind
            want = {**single[id(a)][0], **single[id(b)][0]}
            if same: continue                # an attribute and its values belong together
            ok = got == want
            n += 1
            d = None
            if not ok:
                k = next((k for k in {**got, **want} if got.get(k) != want.get(k)), None)
                d = {'reason': 'what is written for a line depends on the line before it', 'item': k, 'alone': (want.get(k) or '')[:200], 'together': (got.get(k) or '')[:200]}
            self.obs.append(Ob('code-generator', 'independent: ' + desc(ds), 'proved' if ok else 'violated', d))
        return n

    def compare(self):
        """(module, key) of the items that are not the same text in the shipped module"""
        diff = []; self.ship = {}
        known_uses = set()
        for m in self.mods:
            p = os.path.join(self.repo, 'radius/src/core', m + '.rs')
            self.ship[m] = items(open(p).read()) if os.path.exists(p) else None
            self.reexp = getattr(self, 'reexp', {}); self.reexp[m] = bool(self.ship[m]) and 'pub use' in open(p).read()
            if self.ship[m]: known_uses |= self.ship[m][1]
        known_uses |= {f'crate::core::{m}' for m in self.mods}
        self.recompile = []
        for m, (its, uses) in self.mods.items():
            if self.ship[m] is None:
                self.obs.append(Ob(f'core::{m}', 'module', 'violated', {'reason': 'no shipped module for this dictionary'})); continue
            si, su, odd = self.ship[m]
            for k in its:
                if k not in si: diff.append((m, k, 'not in the shipped module'))
                elif si[k] != its[k]: diff.append((m, k, 'differs'))
                else: self.obs.append(Ob(f'core::{m}::{k[1]}', f'{k[0]} is what the generator writes', 'proved'))
            for k in si:
                if k not in its: diff.append((m, k, 'not generated'))
            if su - uses or uses - known_uses: self.recompile.append(m)
        return diff

    def module_text(self, m):
        its, uses = self.mods[m]
        return ''.join(f'use {u};\n' for u in sorted(uses)) + '\n' + '\n'.join(its.values()) + '\n'

def C27(P, repo, dump, ship, done=None):
    """dump(dir) -> Prog of the radius crate in a directory; ship() -> Prog of the working tree"""
    G = Gen(P, repo)
    G.collect(); G.neighbours()
    o = G.obs
    for d, why in G.undecided: o.append(Ob('code-generator', d, 'undecided', {'reason': why}))
    complete = not G.undecided and not any(x.detail and x.detail.get('reason') == 'the generator stops' for x in o)
    diff = G.compare()
    if not complete: diff = [x for x in diff if x[2] != 'not generated']
    if diff or G.recompile: o += by_meaning(G, diff, dump, ship, complete)
    return o, G

def scratch(G, skip=()):
    d = tempfile.mkdtemp(prefix='c27.')
    ig = shutil.ignore_patterns('target', '.git')
    for x in os.listdir(G.repo):
        if x in ('target', '.git', 'dicts'): continue
        s = os.path.join(G.repo, x)
        (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(d, x), **({'ignore': ig} if os.path.isdir(s) else {}))
    for m in G.mods:
        if m not in skip: open(os.path.join(d, 'radius/src/core', m + '.rs'), 'w').write(G.module_text(m))
    return d

def norm(x):
    """body without spans"""
    if isinstance(x, dict): return {k: norm(v) for k, v in x.items() if k not in ('sp', 'span', 'vis')}
    if isinstance(x, list): return [norm(v) for v in x]
    return x

def same_body(A, B, k):
    """the two functions have the same MIR (types by name)"""
    def r(P, x):
        if isinstance(x, dict):
            return {a: (P.s(b) if a in ('ty', 'dty') and isinstance(b, int) else [P.s(y) for y in b] if a == 'locals' and all(isinstance(y, int) for y in b) else r(P, b)) for a, b in x.items() if a not in ('sp', 'span')}
        if isinstance(x, list): return [r(P, v) for v in x]
        return x
    try: return json.dumps(r(A, A.bodies[k]), sort_keys=True) == json.dumps(r(B, B.bodies[k]), sort_keys=True)
    except (KeyError, TypeError, IndexError): return False

def fragments(P, k, a):
    """{value length: lengths of the attributes appended} as far as the analysis fixes them"""
    body = P.bodies[k]; ro = p_dict.arg_roles(P, body); po = p_core.packet_obs(P)
    I_ = Interp(P, 'fix', K=4); r = {}
    args, st = sym_args(P, body, p_dict.names_for(P, body))
    vi = p_dict.FIELDS_of(P, 'value')
    for kd, s, v in I_.analyse(k, args, st):
        if kd != 'ret' or s.taint: continue
        w = po(I_, s, I_.mread(s, args[ro['packet']])); b = po(I_, s, p_dict.before_packet(P, body)); q = QQ(I_, s, args[ro['value']])
        m = len(b['attributes'].a)
        if w['attributes'].a[:m] != b['attributes'].a: continue
        new = norm_seq(s.fs, mkseq(w['attributes'].a[m:]))
        for n in p_dict.LENS:
            fs = s.fs.assume(eqi(seq_len(q), I(n)))
            if fs is None or not fs.consistent(): continue
            for e in seqops.models(fs, 3, 6):
                try: r[n] = [len(f[3 + vi]) for f in e.cv(new)]; break
                except seqops.Reject: continue
    return r

def st_of(attrs, m, k):
    for a in attrs:
        if a.mod == m and p_dict.key(k[1]).endswith(p_dict.key(a.name)): return a.opts
    return ()

def by_meaning(G, diff, dump, ship, complete):
    o = []
    if not complete: return [Ob(f'core::{m}::{k[1]}', f'{k[0]} is what the generator writes', 'undecided', {'reason': why + '; some of the generator was not followed'}) for m, k, why in diff]
    d = scratch(G)
    try: A = dump(d)
    finally: shutil.rmtree(d, ignore_errors=True)
    if isinstance(A, str):
        return o + [Ob('code-generator', 'the modules it writes compile', 'violated', {'reason': 'the crate does not compile with the generated modules', 'error': A[:600], 'items': [f'{m}::{k[1]}' for m, k, w in diff][:10]})]
    S = ship()
    o.append(Ob('code-generator', 'the modules it writes compile', 'proved'))
    again = {}
    for m, k, why in diff:
        path = f'crate::core::{m}::{k[1]}'; what = f'{k[0]} is what the generator writes'; where = f'core::{m}::{k[1]}'
        if why == 'not generated':
            # private helpers of a shipped module are not part of its interface
            pub = G.ship[m][0][k].startswith('pub ') and not G.ship[m][0][k].startswith('pub (')
            o.append(Ob(where, what, 'violated' if pub else 'proved', {'reason': 'the generator does not write this public item', 'shipped': G.ship[m][0][k][:200]} if pub else None)); continue
        if why != 'differs':
            if not G.mods[m][0][k].startswith('pub '): o.append(Ob(where, what, 'proved')); continue
            if k[0] == 'type' or path not in (S.bodies if k[0] == 'fn' else S.consts):
                if not (G.ship[m][2] or G.reexp[m]): pass
                else: o.append(Ob(where, what, 'undecided', {'reason': 'the shipped module defines items by other means'})); continue
            else:
                g = G.mods[m][0][k]; why = 'differs'
        if why != 'differs':
            o.append(Ob(where, what, 'violated', {'reason': 'the shipped module lacks this item', 'generated': G.mods[m][0][k][:200]})); continue
        g, s = G.mods[m][0][k], G.ship[m][0].get(k, G.mods[m][0][k])
        if g.startswith('pub ') != s.startswith('pub '): o.append(Ob(where, what, 'violated', {'reason': 'visibility', 'generated': g[:120], 'shipped': s[:120]})); continue
        if k[0] == 'const':
            x, y = A.consts.get(path), S.consts.get(path)
            if x is None or y is None: o.append(Ob(where, what, 'undecided', {'reason': 'constant not found'})); continue
            ok = (x.get('val'), x['tys']) == (y.get('val'), y['tys'])
            o.append(Ob(where, what, 'proved' if ok else 'violated', None if ok else {'generated': f"{x.get('val')} {x['tys']}", 'shipped': f"{y.get('val')} {y['tys']}"})); continue
        if k[0] == 'type':
            # an alias: what it stands for shows in the constants and signatures that use it
            ok = g.split()[-2:] == s.split()[-2:]
            o.append(Ob(where, what, 'proved' if ok else 'undecided', {'generated': g, 'shipped': s})); continue
        a, b = A.bodies.get(path), S.bodies.get(path)
        if a is None or b is None: o.append(Ob(where, what, 'undecided', {'reason': 'function not found'})); continue
        sa, sb = [[X.s(t) for t in y['locals'][1:y['argc'] + 1]] + [X.s(y['locals'][0])] for X, y in ((A, a), (S, b))]
        if sa != sb: o.append(Ob(where, what, 'violated', {'reason': 'signature', 'generated': str(sa), 'shipped': str(sb)})); continue
        if same_body(A, S, path): o.append(Ob(where, what, 'proved')); continue
        again[path] = (where, what, m, k)
    if not again: return o
    # the accessor rules decide both versions
    keep = p_dict.attributes
    names = {}
    for path, (where, what, m, k) in again.items():
        for a in keep(G.repo):
            if a.mod == m and p_dict.key(k[1]).endswith(p_dict.key(a.name)) and p_dict.key(k[1])[:-len(p_dict.key(a.name))] in ('add', 'lookup', 'lookupall', 'delete'): names.setdefault((a.mod, a.name), []).append(path)
    cov = {x for v in names.values() for x in v}
    p_dict.attributes = lambda repo: [a for a in keep(repo) if (a.mod, a.name) in names]
    try: V = {t: [x for c in ('C14', 'C16', 'C17') for x in p_dict.CHECKS[c](X, G.repo)] for t, X in (('generated', A), ('shipped', S))}
    finally: p_dict.attributes = keep
    for path, (where, what, m, k) in again.items():
        st = {}
        for t in V:
            xs = [x for x in V[t] if x.fn == path or x.fn.endswith(f'core::{m}::{k[1]}')]
            st[t] = 'violated' if any(x.status == 'violated' for x in xs) else 'proved' if xs and all(x.status == 'proved' for x in xs) else 'undecided'
            if st[t] == 'violated': st[t + ' detail'] = str(next(x for x in xs if x.status == 'violated').js())[:400]
        v = (st['generated'], st['shipped'])
        if v == ('proved', 'proved') and 'concat' in st_of(keep(G.repo), m, k) and k[1].startswith('add'):
            # how a long value is cut is not fixed by the accessor rule
            try: fa, fb = fragments(A, path, None), fragments(S, path, None)
            except (Unsupported, Undecided, Budget, RecursionError, Split, Dead, KeyError): fa = fb = {}
            x = next((n for n in sorted(fa) if n in fb and fa[n] != fb[n]), None)
            if x is not None: o.append(Ob(where, what, 'violated', {'reason': 'a value is cut differently', 'value length': x, 'generated': fa[x][:20], 'shipped': fb[x][:20]}))
            else: o.append(Ob(where, what, 'bounded' if fa else 'undecided', {'reason': 'same fragments at the lengths compared', 'lengths': sorted(set(fa) & set(fb))}))
            continue
        r = 'proved' if v == ('proved', 'proved') else 'violated' if 'violated' in v and 'proved' in v else 'undecided'
        o.append(Ob(where, what, r, {**st, 'reason': 'judged by the accessor rules'} if r != 'proved' else None))
    return o
