"""Pretty-printer for the dumped MIR (debugging aid)."""
import json, sys

def place(p):
    s = f"_{p['l']}"
    for e in p.get('p', []):
        if e[0] == 'deref': s = f"(*{s})"
        elif e[0] == 'field': s += f".{e[1]}"
        elif e[0] == 'index': s += f"[_{e[1]}]"
        elif e[0] == 'downcast': s += f" as {e[2] or e[1]}"
        else: s += str(e)
    return s

def const(c):
    if 'fn' in c:
        f = c['fn']; r = f.get('rpath')
        return f['path'] + (f" => {r}[{f.get('rkind')}{'+ext' if f.get('ext') else ''}]" if r and r != f['path'] else ('+ext' if f.get('ext') else ''))
    c = dict(c); c.pop('ty', None)
    return 'const ' + json.dumps(c)

def op(o):
    if 'copy' in o: return place(o['copy'])
    if 'move' in o: return 'move ' + place(o['move'])
    return const(o['const'])

def rv(r):
    k = r['k']
    if k == 'use': return op(r['o'])
    if k == 'ref': return ('&mut ' if r['mut'] else '&') + place(r['p'])
    if k == 'bin': return f"{r['op']}({op(r['a'])}, {op(r['b'])})"
    if k == 'un': return f"{r['op']}({op(r['o'])})"
    if k == 'cast': return f"cast[{r['c']}] {op(r['o'])}"
    if k == 'discr': return f"discr({place(r['p'])})"
    if k == 'agg': return f"{r['a']} {r.get('path','')}#{r.get('variant','')}({', '.join(op(x) for x in r['ops'])})"
    if k == 'repeat': return f"[{op(r['o'])}; {r['n']}]"
    return str(r)

def show(b, types):
    print(f"fn {b['key']} [{b['span']}] argc={b['argc']} {b.get('kind')} {b.get('vis')} coroutine={b.get('coroutine')}")
    for i, t in enumerate(b['locals']):
        print(f"   let _{i}: {types[t]['s']}  {b['names'].get(str(i),'')}")
    for i, bb in enumerate(b['blocks']):
        if bb.get('cleanup'): continue
        print(f"  bb{i}:")
        for s in bb['s']:
            if s['k'] == 'assign': print(f"    {place(s['d'])} = {rv(s['r'])}")
            elif s['k'] in ('live', 'dead'): pass
            else: print('   ', s)
        t = bb['t']; k = t['k']
        if k == 'call': print(f"    {place(t['d'])} = {op(t['f'])}({', '.join(op(a) for a in t['args'])}) -> {t['to']} unwind {t['unwind']}   // {t['sp']}")
        elif k == 'switch': print(f"    switch {op(t['o'])} {t['targets']} else {t['otherwise']}")
        elif k == 'goto': print(f"    goto {t['to']}")
        elif k == 'drop': print(f"    drop {place(t['p'])} -> {t['to']}")
        elif k == 'assert': print(f"    assert {op(t['o'])}=={t['expected']} {t['msg']} -> {t['to']}")
        else: print('   ', t)
    for i, p in enumerate(b.get('promoted', [])):
        print(f"  -- promoted {i}"); show(dict(p, key='promoted'), types)

if __name__ == '__main__':
    d = json.load(open(sys.argv[1]))
    if len(sys.argv) == 2:
        for b in d['bodies']: print(b['key'], b['kind'], len(b['blocks']))
        print(len(d['ext']))
    else:
        for b in d['bodies'] + d['ext']:
            if sys.argv[2] in b['key']: show(b, d['types'])
