"""Which rule decides which property."""
import interp, p_core, p_dict, p_async, p_more
from spec import Ob, Undecided

class Ctx:
    def __init__(self, dumps, repo, tier, seed):
        self.dumps = dumps; self.repo = repo; self.tier = tier; self.seed = seed; self.progs = {}; self.obs = []
    def prog(self, c):
        if c not in self.progs: self.progs[c] = interp.Prog(self.dumps[c])
        return self.progs[c]
    def both(self, fn):
        out = []
        for c in ('md5', 'openssl'):
            for o in fn(self.prog(c)):
                o.fn = o.fn + f' [{c}]'
                out.append(o)
            self.obs = list(out)
        return out
    def stats(self):
        return {c: {'functions': len(p.bodies)} for c, p in self.progs.items()}

def core(pid):
    def f(ctx): return ctx.both(p_core.CHECKS[pid])
    return f

def dic(pid):
    def f(ctx): return ctx.both(lambda P: p_dict.CHECKS[pid](P, ctx.repo))
    return f

CHECKS = {pid: (core(pid), 'proof') for pid in p_core.CHECKS}
CHECKS.update({pid: (dic(pid), 'proof') for pid in p_dict.CHECKS})
def asy(pid):
    def f(ctx): return ctx.both(p_async.CHECKS[pid])
    return f
CHECKS.update({pid: (asy(pid), 'proof') for pid in p_async.CHECKS})
CHECKS.update({pid: ((lambda ctx, pid=pid: ctx.both(p_more.CHECKS[pid])), 'proof') for pid in p_more.CHECKS})
CHECKS.update({pid: ((lambda ctx, pid=pid: p_more.CROSS[pid](ctx.prog('md5'), ctx.prog('openssl'))), 'proof') for pid in p_more.CROSS})
def gen(ctx):
    import gmodels, p_gen
    def dump(d):
        import sys
        f = (sys.modules.get('check') or sys.modules['__main__']).dump_dir(d)
        return f[1] if isinstance(f, tuple) else interp.Prog(f)
    obs, G = p_gen.C27(ctx.prog('gen'), ctx.repo, dump, lambda: ctx.prog('md5'))
    ctx.blocks = G.B.n
    return obs
CHECKS['C27'] = (gen, 'translation_validation')
DOC = {}
ASSUME = {}
TECH = {'*': 'abstract interpretation of the type-checked MIR (symbolic terms with linear and sequence facts, loop invariants and closed forms), normal forms compared with a reference definition'}
NOTE = {'*': 'Every exit of the analysed operations, for all inputs and both digest back ends, is shown equal to the reference definition in sa/p_*.py; an exit that cannot be shown equal is an alarm only when a concrete point of its abstract state separates the two. Trusts rustc, the transfer functions for library calls (sa/models.py; MD5 uninterpreted) and the reference definitions.'}
TECH['C27'] = 'string analysis of the generator (abstract interpretation of its MIR over symbolic dictionary lines), the derived text compared item by item with the shipped modules; items written differently are compared by the accessor rules'
NOTE['C27'] = 'The text the generator writes is derived from its MIR for every shape of dictionary line (names and numbers symbolic), instantiated for every line of the shipped dictionaries and compared with the modules in radius/src/core. Trusts the models of regex, Inflector, getopts and std::fs in sa/gmodels.py, and that the output for a dictionary is the union of the outputs for its lines (checked for each line with its values and for each pair of neighbouring lines).'
NA = {}
