"""Transfer functions for the code generator: the output file, name conversions, the dictionary text, regular expressions.

The text written is collected in the event list: ('out', writer, text)."""
import ambient, textmodels          # before this module: its models of text operations over instances take precedence
from amodels import *
import re
import models, amodels
from interp import Unsupported, Dead, Split
_index = TAB.get("std::ops::Index::index")

WR = ['std::io::Write', 'std::io::BufWriter', 'std::io::LineWriter', 'std::fs::File']
@model('std::io::Write::write_all', 'std::io::Write::write_fmt', 'std::io::BufWriter::write_all', 'std::io::Write::write')
def m_write_all(I_, st, a, f, t):
    v = I_.strip(st, a[1])
    x = fmt_text(I_, st, v) if f['name'] == 'write_fmt' else Q(I_, st, v)
    w = I_.strip(st, a[0])
    ok = OK(UNIT) if f['name'] != 'write' else OK(seq_len(x))
    return [('ret', ev(st, 'out', w, x), ok)]
@model('std::io::Write::flush')
def m_flush(I_, st, a, f, t): return ret(st, OK(UNIT))
@model('std::io::BufWriter::new', 'std::io::BufWriter::with_capacity', 'std::io::BufReader::new')
def m_bufw(I_, st, a, f, t): return ret(st, a[-1])

# ---------------------------------------------------------------- texts over a finite set of instances
# A text of the dictionary stands for one concrete text per instance (ENVS); an operation whose result is the same for all instances is
# folded to that constant, everything else stays a term that can be evaluated per instance.
ENVS = []            # [{('line', file, i): text, ('path', file): text}]
FILES = {}           # path (sequence) -> (file, number of lines)
class NoValue(Exception): pass
_memo = {}
def setup(envs, files):
    ENVS[:] = envs; FILES.clear(); FILES.update(files); _memo.clear()

def rust_re(p):
    p = p.replace('(?<', '(?P<').replace('\\z', '\\Z')
    if re.search(r'\\[pPhHRKXGQE]|\[\[:|&&', p): raise NoValue('regular expression ' + p)
    try: return re.compile(p)
    except re.error: raise NoValue('regular expression ' + p)
def split_re(p, s):
    out = []; last = 0
    for m in rust_re(p).finditer(s):
        out.append(s[last:m.start()]); last = m.end()
    return out + [s[last:]]
def groups(p, s, k):
    m = rust_re(p).search(s)
    if m is None or m.group(k) is None: raise NoValue('no match')
    return m.group(k)
def expand_repl(p, s, r, n):
    def one(m):
        return re.sub(r'\$(?:\{(\w+)\}|(\w+)|(\$))', lambda g: '$' if g.group(3) else (m.group(int(g.group(1) or g.group(2))) or '') if (g.group(1) or g.group(2)).isdigit() else (m.groupdict().get(g.group(1) or g.group(2)) or ''), r)
    return rust_re(p).sub(one, s, count=n)
def num(ty, s):
    b = ty[1:]; n = 64 if b == 'size' else int(b)
    lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if ty[0] == 'i' else (0, (1 << n) - 1)
    if not re.fullmatch(r'[+-]?[0-9]+' if ty[0] == 'i' else r'\+?[0-9]+', s): return None
    v = int(s)
    return v if lo <= v <= hi else None
def alnum(c): return c.isalnum()
def snake(s, sep, up):
    t = s
    while t and not alnum(t[-1]): t = t[:-1]
    out = ''; first = True
    def upper(c): return c == (c.upper() if 'a' <= c <= 'z' else c)
    for i, c in enumerate(t):
        if not alnum(c):
            if not first: first = True; out += sep
            continue
        low = lambda j: (s[j] if 0 <= j < len(s) else 'A').islower()
        if not first and upper(c) and (low(i + 1) or low(i - 1)): out += sep
        first = False; out += c.upper() if up else c.lower()
    return out
def camel(s, new_word, first_word, sep, inverted):
    t = s
    while t and not alnum(t[-1]): t = t[:-1]
    out = ''; last = ' '; found = False
    for c in t:
        if not alnum(c) and found: new_word = True
        elif not found and not alnum(c): continue
        elif c.isnumeric(): found = True; new_word = True; out += c
        elif new_word or (last.islower() and c.isupper() and last != ' '):
            found = True; new_word = False
            if sep and not first_word: out += sep
            out += c.upper() if not inverted or first_word else c.lower()
            first_word = False
        else: found = True; last = c; out += c.lower()
    return out
def ext_of(p):
    b = p.rsplit('/', 1)[-1]
    if '.' not in b.lstrip('.') : return None
    return b.rsplit('.', 1)[1]
def opt(x):
    if x is None: raise NoValue('none')
    return x
def fmt_int(v): return str(v)
def formatted(tag, flags, width, prec, v):
    if prec != -1: raise NoValue('precision')
    fill = chr(flags & 0x1fffff) if flags != -1 else ' '
    fl = flags if flags != -1 else 0x20
    s = {'new_display': str, 'new_lower_hex': lambda x: format(x, 'x'), 'new_upper_hex': lambda x: format(x, 'X')}.get(tag, lambda x: opt(None))(v)
    if width == -1: return s
    if fl & (1 << 24): return s.rjust(width, '0')
    return s.rjust(width, fill) if isinstance(v, int) else s.ljust(width, fill)
WS = ' \t\n\r\x0b\x0c'
TXF = {
    'to_snake_case': lambda s: snake(s, '_', False), 'to_screaming_snake_case': lambda s: snake(s, '_', True), 'to_kebab_case': lambda s: snake(s, '-', False),
    'to_pascal_case': lambda s: camel(s, True, False, '', False), 'to_camel_case': lambda s: camel(s, False, False, '', False),
    're_item': lambda p, s, i: split_re(p, s)[i], 're_group': groups, 're_replace': lambda p, s, r: expand_repl(p, s, r, 1), 're_replace_all': lambda p, s, r: expand_repl(p, s, r, 0),
    'item': lambda sep, s, i: s.split(sep)[i], 'ws_item': lambda s, i: s.split()[i], 'line_item': lambda s, i: s.splitlines()[i], 'n_item': lambda n, sep, s, i: s.split(sep, n - 1)[i],
    'to_string': str, 'formatted': formatted, 'new_lower_hex': lambda v: format(v, 'x'), 'new_upper_hex': lambda v: format(v, 'X'),
    'trim': lambda s: s.strip(), 'trim_start': lambda s: s.lstrip(), 'trim_end': lambda s: s.rstrip(), 'to_lowercase': str.lower, 'to_uppercase': str.upper, 'to_ascii_lowercase': str.lower, 'to_ascii_uppercase': str.upper,
    'replace': lambda a, b, s: s.replace(a, b), 'before': lambda sep, s: s[:s.index(sep)] if sep in s else opt(None), 'after': lambda sep, s: s[s.index(sep) + len(sep):] if sep in s else opt(None),
    'rbefore': lambda sep, s: s[:s.rindex(sep)] if sep in s else opt(None), 'rafter': lambda sep, s: s[s.rindex(sep) + len(sep):] if sep in s else opt(None),
    'no_prefix': lambda p, s: s[len(p):] if s.startswith(p) else opt(None), 'no_suffix': lambda p, s: s[:len(s) - len(p)] if s.endswith(p) else opt(None),
    'with_extension': lambda p, x: (p[:len(p) - len(ext_of(p)) - 1] if ext_of(p) is not None else p) + ('.' + x if x else ''),
    'extension': lambda p: opt(ext_of(p)), 'file_name': lambda p: p.rsplit('/', 1)[-1], 'file_stem': lambda p: p.rsplit('/', 1)[-1].rsplit('.', 1)[0],
}
PRF = {
    're_match': lambda p, s: rust_re(p).search(s) is not None, 'parses': lambda ty, s: num(ty, s) is not None, 'is_empty': lambda s: s == '', 'starts_with': lambda p, s: s.startswith(p), 'ends_with': lambda p, s: s.endswith(p),
    'contains': lambda p, s: p in s, 'has_group': lambda p, s, k: rust_re(p).search(s) is not None and rust_re(p).search(s).group(k) is not None, 'has_extension': lambda p: ext_of(p) is not None, 'same': lambda a, b: a == b,
    'less': lambda a, b: a.encode() < b.encode(),
}
LSF = {'re_item': lambda p, s: split_re(p, s), 'item': lambda sep, s: s.split(sep), 'ws_item': lambda s: s.split(), 'line_item': lambda s: s.splitlines(), 'n_item': lambda n, sep, s: s.split(sep, n - 1)}
INF = {'parsed': lambda ty, s: opt(num(ty, s)), 'length': lambda s: len(s.encode())}

def val(n, e):
    """value of a term at an instance: text, integer, truth value"""
    k = (n, id(e))
    r = _memo.get(k)
    if r is None:
        try: r = (val_(n, e),)
        except (NoValue, ValueError, IndexError, TypeError, KeyError) as x: r = (None, str(x))
        _memo[k] = r
    if len(r) == 2: raise NoValue(r[1])
    return r[0]
def val_(n, e):
    o = n.op
    if o == 'tag': return n.a[0]
    if o == 'seq':
        out = bytearray()
        for s in n.a:
            if s[0] == 'r': out += bytes([val(s[1], e)]) * val(s[2], e)
            elif s[0] == 's':
                t = val(s[1], e)
                t = t.encode()
                out += t[val(s[2], e):val(s[3], e)]
            else: raise NoValue('text')
        return out.decode()
    if o == 'sa': return val(n.a[0], e)
    if o == 'lin':
        r = n.a[0]
        for a, c in n.a[1]: r += c * val(a, e)
        return r
    if o == 'len': return len(val(n.a[0], e).encode())
    if o == 'i' or o == 'b': return val(n.a[0], e)
    if o == 'true': return True
    if o == 'false': return False
    if o == 'le': return val(n.a[0], e) <= 0
    if o == 'eq': return val(n.a[0], e) == 0
    if o == 'not': return not val(n.a[0], e)
    if o == 'and': return all(val(x, e) for x in n.a)
    if o == 'or': return any(val(x, e) for x in n.a)
    if o == 'seqeq': return val(n.a[0], e) == val(n.a[1], e)
    if o == 'vfld' and n.a[0].op == 'struct' and n.a[0].a[1] == n.a[1]: return val(n.a[0].a[2][n.a[2]], e)
    if o == 'fld' and n.a[0].op == 'struct' and isinstance(n.a[1], int): return val(n.a[0].a[2][n.a[1]], e)
    if o == 'uf':
        f, a = n.a[0], n.a[1:]
        if f in ('line', 'path', 'contents'): return e[(f, *[cval(x) for x in a])]
        for T in (TXF, PRF, INF):
            if f in T: return T[f](*[val(x, e) for x in a])
    raise NoValue(o + ' ' + show(n)[:60])

def uniform(n):
    """the common value at all instances, or None"""
    if not ENVS: return None
    try: vs = {val(n, e) for e in ENVS}
    except NoValue: return None
    return (vs.pop(),) if len(vs) == 1 else None

def arg(x): return mk('tag', x) if isinstance(x, str) else I(x) if isinstance(x, int) else x
def CT(s): return S_units([I(x) for x in s.encode()])
def tx(f, *a):
    n = mk('uf', f, *[arg(x) for x in a])
    u = uniform(n)
    return CT(u[0]) if u else TEXT(n)
def pred(f, *a):
    n = mk('uf', f, *[arg(x) for x in a])
    u = uniform(n)
    return (TRUE if u[0] else FALSE) if u else batom(n)
def lst(f, *a):
    """list of texts: its length has to be the same at all instances"""
    try: ls = {len(LSF[f](*[val(arg(x), e) for x in a])) for e in ENVS}
    except NoValue as x: raise Unsupported('split: ' + str(x))
    if len(ls) != 1: raise Unsupported('split of texts of different shape')
    return cat(*[S_unit(tx(f, *a, i)) for i in range(ls.pop())])

@model(*['inflector::Inflector::' + c for c in ('to_snake_case', 'to_screaming_snake_case', 'to_pascal_case', 'to_kebab_case', 'to_camel_case')])
def m_inflect(I_, st, a, f, t): return ret(st, tx(f['name'], Q(I_, st, a[0])))

_veq = models.veq
def veq(I_, st, a, b, d=0):
    x, y = I_.strip(st, a), I_.strip(st, b)
    if x.op == 'seq' and y.op == 'seq' and x is not y and ENVS:
        p = pred('same', x, y)
        if p is TRUE or p is FALSE: return p
    return _veq(I_, st, a, b, d)
models.veq = veq

def needle(I_, st, v):
    v = I_.strip(st, v)
    if v.op == 'seq': return v
    c = cval(v) if v.op == 'lin' else None
    if c is None: raise Unsupported('search pattern')
    return CT(chr(c))
@model('std::str::split')
def m_strsplit(I_, st, a, f, t): return ret(st, into_iter(I_, st, lst('item', needle(I_, st, a[1]), Q(I_, st, a[0]))))
@model('std::str::splitn')
def m_strsplitn(I_, st, a, f, t): return ret(st, into_iter(I_, st, lst('n_item', L(I_, st, a[1]), needle(I_, st, a[2]), Q(I_, st, a[0]))))
@model('std::str::split_whitespace', 'std::str::split_ascii_whitespace')
def m_splitws(I_, st, a, f, t): return ret(st, into_iter(I_, st, lst('ws_item', Q(I_, st, a[0]))))
@model('std::str::lines')
def m_strlines(I_, st, a, f, t): return ret(st, into_iter(I_, st, lst('line_item', Q(I_, st, a[0]))))
@model(*['std::str::' + x for x in ('trim', 'trim_start', 'trim_end', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase')])
def m_text1(I_, st, a, f, t): return ret(st, tx(f['name'], Q(I_, st, a[0])))
@model('std::str::replace')
def m_replace(I_, st, a, f, t): return ret(st, tx('replace', needle(I_, st, a[1]), Q(I_, st, a[2]), Q(I_, st, a[0])))
@model('std::str::starts_with', 'std::str::ends_with', 'std::str::contains')
def m_textp(I_, st, a, f, t): return fork_bool(st, pred(f['name'], needle(I_, st, a[1]), Q(I_, st, a[0])))
def fork_opt(st, c, some):
    out = []
    s = st.assume(c)
    if s is not None: out.append(('ret', s, SOME(some())))
    s = st.assume(not_(c))
    if s is not None: out.append(('ret', s, NONE))
    return out
@model('std::str::strip_prefix', 'std::str::strip_suffix')
def m_strip(I_, st, a, f, t):
    p, q = needle(I_, st, a[1]), Q(I_, st, a[0]); pre = f['name'].endswith('prefix')
    return fork_opt(st, pred('starts_with' if pre else 'ends_with', p, q), lambda: tx('no_prefix' if pre else 'no_suffix', p, q))
@model('std::str::split_once', 'std::str::rsplit_once')
def m_split_once(I_, st, a, f, t):
    p, q = needle(I_, st, a[1]), Q(I_, st, a[0]); r = 'r' if f['name'][0] == 'r' else ''
    return fork_opt(st, pred('contains', p, q), lambda: TUP(tx(r + 'before', p, q), tx(r + 'after', p, q)))
_isempty = TAB['std::str::is_empty']
@model('std::str::is_empty', 'std::string::String::is_empty')
def m_text_empty(I_, st, a, f, t):
    q = Q(I_, st, a[0])
    p = pred('is_empty', q) if ENVS else None
    if p is TRUE or p is FALSE: return ret(st, p)
    return _isempty(I_, st, a, f, t)

_parse = TAB['std::str::parse']
@model('std::str::parse', 'std::str::FromStr::from_str')
def m_gparse(I_, st, a, f, t):
    ty = dty(I_, t); s = ty['s'] if ty else ''
    m = re.match(r'std::result::Result<(u8|u16|u32|u64|usize|i32|i64), ', s)
    if not m:
        if f['name'] == 'from_str': raise NoModel()
        return _parse(I_, st, a, f, t)
    q = Q(I_, st, a[0]); g = pred('parses', m.group(1), q)
    out = []
    s = st.assume(g)
    if s is not None:
        n = mk('uf', 'parsed', mk('tag', m.group(1)), q); u = uniform(n)
        out.append(('ret', s, OK(I(u[0]) if u else I_.P.expand_s(n, m.group(1)))))
    s = st.assume(not_(g))
    if s is not None: out.append(('ret', s, ERR(OPQ(mk('uf', 'parse_error', q)))))
    return out

# ---------------------------------------------------------------- regular expressions (literal patterns)
def RE(I_, st, v):
    v = I_.strip(st, v)
    if v.op == 'struct' and v.a[0] == 'regex': return v.a[2][0].a[0]
    raise Unsupported('regular expression')
@model('regex::Regex::new')
def m_re_new(I_, st, a, f, t):
    p = const_text(Q(I_, st, a[0]))
    if p is None: raise Unsupported('pattern')
    return ret(st, OK(mk('struct', 'regex', 0, (mk('tag', p),))))
@model('regex::Regex::is_match')
def m_re_match(I_, st, a, f, t): return fork_bool(st, pred('re_match', RE(I_, st, a[0]), Q(I_, st, a[1])))
@model('regex::Regex::split')
def m_re_split(I_, st, a, f, t): return ret(st, into_iter(I_, st, lst('re_item', RE(I_, st, a[0]), Q(I_, st, a[1]))))
@model('regex::Regex::captures', 'regex::Regex::find')
def m_re_cap(I_, st, a, f, t):
    p, q = RE(I_, st, a[0]), Q(I_, st, a[1])
    return fork_opt(st, pred('re_match', p, q), lambda: mk('struct', 'captures', 0, (mk('tag', p), q)) if f['name'] == 'captures' else mk('struct', 'rematch', 0, (tx('re_group', p, q, 0),)))
def group(I_, st, c, k): return tx('re_group', c.a[2][0].a[0], c.a[2][1], k)
@model('regex::Captures::get')
def m_cap_get(I_, st, a, f, t):
    c = I_.strip(st, a[0]); k = L(I_, st, a[1])
    if c.op != 'struct' or c.a[0] != 'captures' or cval(k) is None: raise Unsupported('captures')
    return fork_opt(st, pred('has_group', c.a[2][0].a[0], c.a[2][1], k), lambda: mk('struct', 'rematch', 0, (group(I_, st, c, k),)))
@model('std::ops::Index::index')
def m_cap_index(I_, st, a, f, t):
    c = I_.strip(st, a[0])
    if c.op == 'struct' and c.a[0] == 'captures': return ret(st, group(I_, st, c, L(I_, st, a[1])))
    return _index(I_, st, a, f, t)
@model('regex::Match::as_str')
def m_match_str(I_, st, a, f, t):
    v = I_.strip(st, a[0])
    if v.op == 'struct' and v.a[0] == 'rematch': return ret(st, v.a[2][0])
    raise Unsupported('match')
@model('regex::Regex::replace', 'regex::Regex::replace_all')
def m_re_replace(I_, st, a, f, t): return ret(st, tx('re_' + f['name'], RE(I_, st, a[0]), Q(I_, st, a[1]), Q(I_, st, a[2])))

# ---------------------------------------------------------------- command line, files, paths
@model('std::env::args')
def m_args(I_, st, a, f, t): return ret(st, into_iter(I_, st, cat(*[S_unit(CT(x)) for x in ['code-generator', '--out-dir=/out']], *[S_unit(p) for p in FILES])))
@model('getopts::Options::new')
def m_opts(I_, st, a, f, t): return ret(st, OPQ(mk('tag', 'options')))
@model(*['getopts::Options::' + x for x in ('optflag', 'optopt', 'reqopt', 'optmulti', 'optflagmulti', 'optflagopt', 'opt', 'parsing_style', 'long_only')])
def m_optdef(I_, st, a, f, t): return ret(st, a[0])
@model('getopts::Options::parse')
def m_optparse(I_, st, a, f, t):
    return ret(st, OK(mk('struct', 'getopts::Matches', 0, (UNK('opts'), UNK('vals'), cat(*[S_unit(p) for p in FILES]), UNK('end')))))
@model('getopts::Matches::opt_present')
def m_optpresent(I_, st, a, f, t):
    n = const_text(Q(I_, st, a[1]))
    if n not in ('o', 'h', 'out-dir', 'help'): raise Unsupported('option')
    return ret(st, TRUE if n in ('o', 'out-dir') else FALSE)
@model('getopts::Matches::opt_str')
def m_optstr(I_, st, a, f, t):
    n = const_text(Q(I_, st, a[1]))
    if n not in ('o', 'out-dir'): raise Unsupported('option')
    return ret(st, SOME(CT('/out')))
@model('std::path::Path::new', 'std::path::Path::to_path_buf', 'std::path::PathBuf::as_path', 'std::path::Path::as_os_str', 'std::ffi::OsStr::to_os_string', 'std::path::Path::display', 'std::ffi::OsStr::to_string_lossy', 'std::path::Path::to_string_lossy', 'std::path::PathBuf::new')
def m_path(I_, st, a, f, t): return ret(st, Q(I_, st, a[0]) if a else EMPTY)
@model('std::path::Path::to_str', 'std::ffi::OsStr::to_str')
def m_pathstr(I_, st, a, f, t): return ret(st, SOME(Q(I_, st, a[0])))
@model('std::path::Path::exists', 'std::path::Path::is_file')
def m_exists(I_, st, a, f, t): return ret(st, TRUE)
@model('std::path::Path::extension')
def m_ext(I_, st, a, f, t):
    q = Q(I_, st, a[0])
    return fork_opt(st, pred('has_extension', q), lambda: tx('extension', q))
@model('std::path::Path::file_name', 'std::path::Path::file_stem')
def m_fname(I_, st, a, f, t): return ret(st, SOME(tx(f['name'], Q(I_, st, a[0]))))
@model('std::path::Path::join')
def m_join(I_, st, a, f, t): return ret(st, cat(Q(I_, st, a[0]), CT('/'), Q(I_, st, a[1])))
@model('std::path::Path::with_extension')
def m_withext(I_, st, a, f, t):
    q, e = Q(I_, st, a[0]), Q(I_, st, a[1])
    return ret(st, tx('with_extension', q, e))
@model('std::fs::write')
def m_fswrite(I_, st, a, f, t):
    p = path_of(I_, st, a[0])
    s = ev(st, 'create', p)
    return [('ret', ev(s, 'out', mk('struct', 'outfile', 0, (p,)), Q(I_, st, a[1])), OK(UNIT))]
@model('std::fs::create_dir_all', 'std::fs::create_dir')
def m_mkdir(I_, st, a, f, t): return ret(st, OK(UNIT))
for c in ('slice', 'vec::Vec'):
    for n in ('sort', 'sort_unstable'):
        def g_sort(I_, st, a, f, t, old=TAB.get(f'std::{c}::{n}')):
            m = mref_of(I_, st, a[0]); q = I_.mread(st, m)
            n = cval(seq_len(q)) if q.op == 'seq' else None
            if n is None or n > 6: raise Unsupported('sort')
            es = [seq_at(st.fs, q, I(i)) for i in range(n)]
            try: perms = {tuple(sorted(range(n), key=lambda i: val(I_.strip(st, es[i]), e).encode())) for e in ENVS}
            except NoValue: raise Unsupported('sort')
            if len(perms) != 1: raise Unsupported('sort')
            s = st.copy()
            I_.mwrite(s, m, cat(*[S_unit(es[i]) for i in perms.pop()]))
            return ret(s, UNIT)
        TAB[f'std::{c}::{n}'] = g_sort

def path_of(I_, st, v): return Q(I_, st, v)
@model('std::fs::File::open')
def m_open(I_, st, a, f, t):
    p = path_of(I_, st, a[0])
    return ret(st, OK(mk('struct', 'file', 0, (p,))))
@model('std::fs::File::create')
def m_create(I_, st, a, f, t):
    p = path_of(I_, st, a[0])
    return [('ret', ev(st, 'create', p), OK(mk('struct', 'outfile', 0, (p,))))]
def lines_of(p):
    if p not in FILES: raise Unsupported('file')
    j, n = FILES[p]
    return cat(*[S_unit(OK(tx('line', j, i))) for i in range(n)])
@model('std::io::BufRead::lines')
def m_lines(I_, st, a, f, t):
    v = I_.strip(st, a[0])
    if v.op != 'struct' or v.a[0] != 'file': raise Unsupported('lines')
    return ret(st, into_iter(I_, st, lines_of(v.a[2][0])))
@model('std::fs::read_to_string')
def m_read(I_, st, a, f, t):
    p = path_of(I_, st, a[0])
    if p not in FILES: raise Unsupported('file')
    j, n = FILES[p]
    return ret(st, OK(cat(*[cat(tx('line', j, i), CT('\n')) for i in range(n)])))

# ---------------------------------------------------------------- maps and sets as values: a base (empty or symbolic) and the entries added to it
# ('map', 0, (base, ('ent', 0, (key, value)), ...)); a set has UNIT values
def MAP(base, *ents): return mk('struct', 'map', 0, (base, *ents))
def ENT(k, v): return mk('struct', 'ent', 0, (k, v))
NOBASE = mk('tag', 'empty')
SEQSET = lambda q: mk('struct', 'setof', 0, (q,))
def as_map(I_, st, v):
    w = I_.strip(st, v)
    if w.op == 'ite': raise Split(w.a[0])
    if w.op == 'struct' and w.a[0] == 'map': return w
    if w.op == 'opq' and not (w.a[0].op == 'uf' and w.a[0].a[0] == 'empty_set'): return MAP(w.a[0])
    return None
def as_setof(I_, st, v):
    w = I_.strip(st, v)
    return w if w.op == 'struct' and w.a[0] == 'setof' else None

@model(*[c + '::new' for c in COLL], *[c + '::with_capacity' for c in COLL], *[c + '::default' for c in COLL])
def g_new(I_, st, a, f, t): return ret(st, MAP(NOBASE))

def kterm(I_, st, k):
    k = I_.strip(st, k)
    return k
def lookup(I_, st, m, key):
    """[(state, index of the entry | 'base' | None)] of a key"""
    out = []; s = st
    for i, e in reversed(list(enumerate(m.a[2][1:]))):
        c = veq(I_, s, key, e.a[2][0])
        hit = s.assume(c)
        if hit is not None: out.append((hit, i))
        s = s.assume(not_(c))
        if s is None: return out
    if m.a[2][0] is NOBASE: return out + [(s, None)]
    g = batom(mk('uf', 'in_map', m.a[2][0], key))
    b = s.assume(g)
    if b is not None: out.append((b, 'base'))
    s = s.assume(not_(g))
    if s is not None: out.append((s, None))
    return out
def base_value(I_, m, key, ty):
    return I_.P.expand_s(mk('uf', 'map_get', m.a[2][0], key), ty)
def optarg(I_, t):
    ty = dty(I_, t); s = ty['s'] if ty else ''
    m = re.match(r'std::option::Option<(.*)>$', s)
    if not m: raise NoModel()
    return re.sub(r"^&('\w+ )?(mut )?", '', m.group(1))

def fallback(name, new):
    """the new model for map values, the former one for everything else"""
    for c in COLL:
        old = TAB.get(c + '::' + name)
        def g(I_, st, a, f, t, old=old):
            m = as_map(I_, st, a[0]) or as_setof(I_, st, a[0])
            if m is None:
                if old is None: raise NoModel()
                return old(I_, st, a, f, t)
            return new(I_, st, m, a, f, t)
        TAB[c + '::' + name] = g

def g_contains(I_, st, m, a, f, t):
    key = kterm(I_, st, a[1])
    if m.a[0] == 'setof':
        q = m.a[2][0]
        if cval(seq_len(q)) is not None and cval(seq_len(q)) <= 8:
            c = or_(*[veq(I_, st, key, seq_at(st.fs, q, I(i))) for i in range(cval(seq_len(q)))])
        else: c = batom(mk('uf', 'in_seq', q, key))
        return fork_bool(st, c)
    return [('ret', s, B_(w is not None)) for s, w in lookup(I_, st, m, key)]
def fork_bool(st, c):
    out = []
    for g, v in ((c, TRUE), (not_(c), FALSE)):
        s = st.assume(g)
        if s is not None: out.append(('ret', s, v))
    return out
fallback('contains', g_contains); fallback('contains_key', g_contains)

def g_get(I_, st, m, a, f, t):
    if m.a[0] == 'setof': raise Unsupported('get of a set')
    key = kterm(I_, st, a[1]); out = []
    for s, w in lookup(I_, st, m, key):
        if w is None: out.append(('ret', s, NONE))
        elif w == 'base': out.append(('ret', s, SOME(base_value(I_, m, key, optarg(I_, t)))))
        else: out.append(('ret', s, SOME(m.a[2][1 + w].a[2][1])))
    return out
fallback('get', g_get)

def place(I_, st, v):
    return mref_of(I_, st, v)
def g_get_mut(I_, st, m, a, f, t):
    key = kterm(I_, st, a[1]); out = []; r = place(I_, st, a[0])
    for s, w in lookup(I_, st, m, key):
        if w is None: out.append(('ret', s, NONE)); continue
        if w == 'base':
            s = s.copy(); n = len(m.a[2])
            I_.mwrite(s, r, mk('struct', 'map', 0, m.a[2] + (ENT(key, base_value(I_, m, key, optarg(I_, t))),)))
            w = n - 1
        out.append(('ret', s, SOME(mk('mref', r.a[0], r.a[1] + (('f', 1 + w, None), ('f', 1, None))))))
    return out
fallback('get_mut', g_get_mut)

def put(I_, st, r, m, key, val, w):
    s = st.copy(); fs = list(m.a[2])
    if w is None or w == 'base': fs.append(ENT(key, val))
    else: fs[1 + w] = ENT(fs[1 + w].a[2][0], val)
    I_.mwrite(s, r, mk('struct', 'map', 0, tuple(fs)))
    return s
def g_insert(I_, st, m, a, f, t):
    key = kterm(I_, st, a[1]); out = []; r = place(I_, st, a[0])
    if m.a[0] == 'setof': raise Unsupported('insert into a collected set')
    for s, w in lookup(I_, st, m, key):
        if len(a) == 3:
            old = NONE if w is None else SOME(m.a[2][1 + w].a[2][1] if w != 'base' else base_value(I_, m, key, optarg(I_, t)))
            out.append(('ret', put(I_, s, r, m, key, a[2], w), old))
        else: out.append(('ret', put(I_, s, r, m, key, UNIT, w) if w is None else s, B_(w is None)))
    return out
fallback('insert', g_insert)

# the entry interface
def g_entry(I_, st, m, a, f, t):
    return ret(st, mk('struct', 'entry', 0, (place(I_, st, a[0]), kterm(I_, st, a[1]))))
fallback('entry', g_entry)
ENTS = [p + 'Entry' for p in ('std::collections::btree_map::', 'std::collections::hash_map::', 'std::collections::btree::map::entry::', 'std::collections::hash::map::')]
def entry_default(I_, st, a, f, t, mkv):
    e = I_.strip(st, a[0])
    if e.op != 'struct' or e.a[0] != 'entry': raise Unsupported('entry')
    r, key = e.a[2]; m = as_map(I_, st, r); out = []
    ty = dty(I_, t)
    vt = re.sub(r"^&('\w+ )?(mut )?", '', ty['s'])
    for s, w in lookup(I_, st, m, key):
        outs = [('ret', s, None)] if w not in (None,) else mkv(s)
        for kd, s2, v in outs:
            if kd != 'ret': out.append((kd, s2, v)); continue
            if w is None or w == 'base':
                s2 = put(I_, s2, r, m, key, v if w is None else base_value(I_, m, key, vt), None); i = len(m.a[2]) - 1
            else: i = w
            out.append(('ret', s2, mk('mref', r.a[0], r.a[1] + (('f', 1 + i, None), ('f', 1, None)))))
    return out
@model(*[e + '::or_default' for e in ENTS])
def g_or_default(I_, st, a, f, t): return entry_default(I_, st, a, f, t, lambda s: [('ret', s, EMPTY)])
@model(*[e + '::or_insert' for e in ENTS])
def g_or_insert(I_, st, a, f, t): return entry_default(I_, st, a, f, t, lambda s: [('ret', s, a[1])])
@model(*[e + '::or_insert_with' for e in ENTS])
def g_or_insert_with(I_, st, a, f, t): return entry_default(I_, st, a, f, t, lambda s: I_.call_value(s, a[1], []))

# iteration: the entries of a map with at most one entry, or the listing of a symbolic one
def listing(I_, st, m, what):
    if m.a[0] == 'setof': return m.a[2][0]
    b, es = m.a[2][0], m.a[2][1:]
    pick = {'keys': lambda e: e.a[2][0], 'values': lambda e: e.a[2][1], 'pairs': lambda e: TUP(*e.a[2])}[what]
    if b is NOBASE:
        if len(es) > 1:
            # ordered by key (the order in which a hash map is listed does not matter for the set of items written)
            try: perms = {tuple(sorted(range(len(es)), key=lambda i: val(I_.strip(st, es[i].a[2][0]), e).encode())) for e in ENVS}
            except NoValue: raise Unsupported('order of the entries of a map')
            if len(perms) != 1: raise Unsupported('order of the entries of a map')
            es = [es[i] for i in perms.pop()]
        return cat(*[S_unit(pick(e)) for e in es])
    raise Unsupported('entries of a symbolic map')
for nm, what in (('iter', 'pairs'), ('keys', 'keys'), ('values', 'values'), ('into_iter', 'pairs'), ('into_keys', 'keys'), ('into_values', 'values')):
    def g(I_, st, m, a, f, t, what=what):
        q = listing(I_, st, m, 'keys' if m.a[2][1:] and what == 'pairs' and all(e.a[2][1] is UNIT for e in m.a[2][1:]) else what)
        return ret(st, into_iter(I_, st, q))
    fallback(nm, g)
def g_len(I_, st, m, a, f, t):
    if m.a[0] == 'map' and m.a[2][0] is not NOBASE: raise Unsupported('size of a symbolic map')
    n = seq_len(m.a[2][0]) if m.a[0] == 'setof' else I(len(m.a[2]) - 1)
    return ret(st, n if f['name'] == 'len' else eqi(n, I(0)))
fallback('len', g_len); fallback('is_empty', g_len)

_ii = models.into_iter
def into_iter(I_, st, v):
    try: w = I_.strip(st, v)
    except (Unsupported, Dead): w = None
    if w is not None and w.op == 'struct' and w.a[0] in ('map', 'setof'):
        return _ii(I_, st, listing(I_, st, w, 'pairs'))
    return _ii(I_, st, v)
models.into_iter = into_iter; amodels.into_iter = into_iter

_collect_target = None
_collect = TAB['std::iter::Iterator::collect']
@model('std::iter::Iterator::collect', 'std::iter::FromIterator::from_iter')
def g_collect(I_, st, a, f, t):
    ty = dty(I_, t); s = ty['s'] if ty else ''
    if 'HashSet' in s.split('<')[0] or 'BTreeSet' in s.split('<')[0]:
        return each(I_, seq_of(I_, st, a[0]), lambda s2, q: ret(s2, SEQSET(q)))
    if 'HashMap' in s.split('<')[0] or 'BTreeMap' in s.split('<')[0]:
        def go(s2, q):
            m = MAP(NOBASE); states = [(s2, m)]
            for i in range(few(q)):
                nxt = []
                for s3, m in states:
                    p = I_.strip(s3, seq_at(s3.fs, q, I(i)))
                    for s4, w in lookup(I_, s3, m, kterm(I_, s3, p.a[2][0])):
                        nxt.append((s4, with_entry(m, p.a[2][0], p.a[2][1], w)))
                states = nxt
            return [('ret', s3, m) for s3, m in states]
        return each(I_, seq_of(I_, st, a[0]), go)
    return _collect(I_, st, a, f, t)
def few(q):
    n = cval(seq_len(q))
    if n is None or n > 6: raise Unsupported('entries of a map')
    return n
def with_entry(m, k, v, w):
    fs = list(m.a[2])
    if w is None or w == 'base': fs.append(ENT(k, v))
    else: fs[1 + w] = ENT(fs[1 + w].a[2][0], v)
    return mk('struct', 'map', 0, tuple(fs))
def g_extend(I_, st, a, f, t, old):
    m = as_map(I_, st, a[0]) or as_setof(I_, st, a[0])
    if m is None: return old(I_, st, a, f, t)
    if m.a[0] == 'setof': raise Unsupported('extend of a collected set')
    r = place(I_, st, a[0])
    def go(s2, q):
        states = [s2]
        for i in range(few(q)):
            nxt = []
            for s3 in states:
                p = I_.strip(s3, seq_at(s3.fs, q, I(i))); m = as_map(I_, s3, a[0])
                pair = p.op == 'struct' and len(p.a[2]) == 2 or p.op == 'tup'
                k, v = (p.a[2] if p.op == 'struct' else p.a[:2]) if pair else (p, UNIT)
                for s4, w in lookup(I_, s3, m, kterm(I_, s3, k)): nxt.append(put(I_, s4, r, m, k, v, w))
            states = nxt
        return [('ret', s3, UNIT) for s3 in states]
    return each(I_, seq_of(I_, st, a[1]), go)
for c in COLL + ['std::iter::Extend']:
    def g(I_, st, a, f, t, old=TAB.get(c + '::extend')):
        def no(*x): raise NoModel()
        return g_extend(I_, st, a, f, t, old or no)
    TAB[c + '::extend'] = g
def g_remove(I_, st, m, a, f, t):
    if m.a[0] == 'setof' or m.a[2][0] is not NOBASE: raise Unsupported('remove')
    key = kterm(I_, st, a[1]); out = []; r = place(I_, st, a[0])
    sett = dty(I_, t)['k'] == 'bool'
    for s, w in lookup(I_, st, m, key):
        if w is None: out.append(('ret', s, FALSE if sett else NONE)); continue
        s2 = s.copy(); I_.mwrite(s2, r, mk('struct', 'map', 0, m.a[2][:1 + w] + m.a[2][2 + w:]))
        out.append(('ret', s2, TRUE if sett else SOME(m.a[2][1 + w].a[2][1])))
    return out
fallback('remove', g_remove)
