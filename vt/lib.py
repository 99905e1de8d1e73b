"""Loading the library's modules into an executor (functions resolved to generated files on demand)."""
from . import build, layout
from .execu import *
from . import execu, terms as T

BASE = ['simint/simint_init.c', 'simint/simint_eri.c', 'simint/ostei/ostei.c', 'simint/ostei/ostei_init.c', 'simint/ostei/ostei_deriv1_init.c',
        'simint/shell/shell_constants.c', 'simint/recur_lookup.c', 'simint/boys/boys_shortgrid.c']
_mods = {}
def module(variant, rel):
    k = (variant, rel)
    m = _mods.get(k)
    if m is None: m = _mods[k] = build.module(variant, rel)
    return m

def drop(variant, keep):
    for k in list(_mods):
        if k[0] == variant and k[1] not in keep: del _mods[k]

class LibExec(Exec):
    def __init__(self, variant, contracts=None, **kw):
        self.variant = variant
        Exec.__init__(self, [], contracts, **kw)
        self.defs = build.defs(variant)
        self.loaded = set()
    def load_rel(self, rel):
        if rel in self.loaded: return
        self.loaded.add(rel)
        m = module(self.variant, rel)
        self.modules.append(m)
        for f in m.funcs.values():
            if not f.declared and not f.internal: self.syms.setdefault(f.name, f)
    def resolve(self, name):
        f = self.syms.get(name)
        if f is not None: return f
        rel = self.defs.get(name[1:])
        if rel is None: return None
        self.load_rel(rel)
        return self.syms.get(name)
    def lookup(self, mod, name):
        if mod is not None:
            f = mod.funcs.get(name)
            if f is not None and not f.declared: return f
        return self.resolve(name)
    def call(self, name, args, mod=None, instr=None):
        h = self.contracts.get(name)
        if h is not None: return h(self, args)
        f = self.lookup(mod, name)
        if f is not None: return self.run(f, args)
        h = BUILTINS.get(name)
        if h is not None: return h(self, args)
        if name.startswith('@llvm.'): return intrinsic(self, name, args)
        raise Unsupported('call to unknown function ' + name)
    def gptr(self, mod, name):
        L = mod.globals.get(name)
        if L is not None:
            ext = ' external ' in L[:160]
            if ext and not any(name in m.globals and ' external ' not in m.globals[name][:160] for m in self.modules):
                for rel in GLOBAL_HOME:
                    if rel not in self.loaded:
                        try: m = module(self.variant, rel)
                        except build.BuildError: continue
                        if name in m.globals and ' external ' not in m.globals[name][:160]:
                            self.load_rel(rel); break
        return Exec.gptr(self, mod, name)

GLOBAL_HOME = BASE + ['simint/shell/shell.c', 'simint/osoei/osoei_terms.c']
