"""Scenarios: sequences of calls to the public C functions with symbolic real contents.

A scenario is interpreted twice: by the verifier (symbolic executor; every check is a term identity
for all real contents) and, when an obligation fails, as a C program compiled from the real sources
with the address and undefined-behaviour sanitizers on random contents (the replay).
"""
import os, subprocess, tempfile, shutil, math, random
from fractions import Fraction
from . import terms as T, layout, build
from .execu import *
from .lib import LibExec

class Ref:
    """address of element idx of a declared object"""
    __slots__ = ('name', 'idx')
    def __init__(self, name, idx=0): self.name = name; self.idx = idx

class Scen:
    def __init__(self, title): self.title = title; self.ops = []; self.kinds = {}; self.sizes = {}
    def decl(self, name, kind, n=1):
        """kind: shell | pair | double | pairptr | int"""
        self.ops.append(('decl', name, kind, n)); self.kinds[name] = kind; self.sizes[name] = n
        return name
    def reals(self, name, vals):
        """array of doubles with the given terms"""
        self.decl(name, 'double', len(vals)); self.ops.append(('set', name, list(vals))); return name
    def ptrs(self, name, names):
        self.decl(name, 'pairptr', len(names)); self.ops.append(('setp', name, list(names))); return name
    def poke(self, name, idx, field, sub, val): self.ops.append(('poke', name, idx, field, sub, val))
    def call(self, fn, *args, ret=None): self.ops.append(('call', fn, args, ret))
    def check(self, label, path, want, kind='real'):
        """path: (name, idx, field[, sub])  or (name, idx) for plain arrays, or ('ret', name)"""
        self.ops.append(('check', label, path, want, kind))
    def hook(self, f, cpath=None):
        """f(sym) is run by the verifier; returns a list of (label, message) failures"""
        self.ops.append(('hook', f))

INTF = {'am', 'nprim', 'am1', 'am2', 'nshell12', 'nshell12_clip'}
ARRI = {'nprim12'}
SCALD = {'x', 'y', 'z', 'screen_max'}
def is_scalar_double(kind, f): return (kind == 'shell' and f in ('x', 'y', 'z')) or f == 'screen_max'

STRUCT = {'shell': 'simint_shell', 'pair': 'simint_multi_shellpair'}

class SymFail(Exception): pass

class Sym:
    def __init__(self, scen, variant, contracts=None, env=None, init=False, extra=(), pick_max=None, vec=None):
        self.s = scen; self.variant = variant; self.lay = layout.get(variant)
        self.objs = {}; self.fail = []; self.obl = 0; self.ring = 0; self.vals = {}
        self.env = env
        self.ex = ex = LibExec(variant, contracts or {})
        ex.load_rel('simint/shell/shell.c')
        for r in extra: ex.load_rel(r)
        if env is not None: ex.force_real = self.force
        ex.possplit = True
        if pick_max: ex.sel_hook = pick_max
    def force(self, ex, fb):
        a = T.evalf(fb.a, self.env); b = T.evalf(fb.b, self.env)
        r = {'olt': a < b, 'ole': a <= b, 'ogt': a > b, 'oge': a >= b, 'oeq': a == b, 'une': a != b, 'one': a != b}[fb.op]
        return r
    def size(self, kind):
        if kind in STRUCT: return self.lay[STRUCT[kind]][1]
        return 4 if kind == 'int' else 8
    def ptr(self, name, idx=0): return Ptr(self.objs[name], idx * self.size(self.s.kinds[name]))
    def read(self, path):
        ex = self.ex
        if path[0] == 'ret': return self.vals[path[1]]
        name, idx = path[0], path[1]; kind = self.s.kinds[name]
        o = self.objs[name]
        if kind not in STRUCT:
            if kind == 'double': return ex.load(Ptr(o, 8 * idx), ('double',), 8, 8)
            return ex.load(Ptr(o, 4 * idx), ('i', 32), 4, 4)
        lay, sz = self.lay[STRUCT[kind]]
        f = path[2]; at = Ptr(o, idx * sz + lay[f])
        if f in INTF: return ex.load(at, ('i', 32), 4, 4)
        if f == 'memsize': return ex.load(at, ('i', 64), 8, 8)
        if is_scalar_double(kind, f): return ex.load(at, ('double',), 8, 8)
        p = ex.load(at, ('ptr',), 8, 8)
        if len(path) == 3: return p
        if not isinstance(p, Ptr): raise Violation('uninitialised', '%s.%s is not a pointer' % (name, f))
        if f in ARRI: return ex.load(Ptr(p.obj, p.off + 4 * path[3]), ('i', 32), 4, 4)
        return ex.load(Ptr(p.obj, p.off + 8 * path[3]), ('double',), 8, 8)
    def has(self, path):
        """is the array field long enough (inside its object)?"""
        try: self.read(path); return True
        except Violation: return False
    def equal(self, got, want, kind):
        if kind == 'int': return type(got) is int and got == want
        if kind == 'null': return isinstance(got, Ptr) and got.obj is None
        if not isinstance(got, T.Node): return False
        if isinstance(want, (int, Fraction)): want = T.const(want)
        if callable(want): return want(self, got)
        return approx_equal(got, want)
    def run(self):
        ex = self.ex
        try:
            for op in self.s.ops:
                k = op[0]
                if k == 'decl': self.objs[op[1]] = Obj(op[1], self.size(op[2]) * op[3], 64)
                elif k == 'set':
                    o = self.objs[op[1]]
                    for i, v in enumerate(op[2]): o.cells[8 * i] = (8, v, 1)
                    o.ro = True
                elif k == 'setp':
                    o = self.objs[op[1]]
                    for i, v in enumerate(op[2]): o.cells[8 * i] = (8, self.ptr(*v) if isinstance(v, tuple) else self.ptr(v), 1)
                    o.ro = True
                elif k == 'copy':
                    _, dn, di, sn, si = op
                    sz = self.size(self.s.kinds[dn])
                    ex.memcpy(self.ptr(dn, di), self.ptr(sn, si), sz)
                elif k == 'poke':
                    _, name, idx, field, sub, val = op
                    lay, sz = self.lay[STRUCT[self.s.kinds[name]]]
                    at = Ptr(self.objs[name], idx * sz + lay[field])
                    if field in INTF: ex.store(at, ('i', 32), val, 4, 4)
                    elif sub is None: ex.store(at, ('double',), val, 8, 8)
                    else:
                        p = ex.load(at, ('ptr',), 8, 8)
                        ex.store(Ptr(p.obj, p.off + 8 * sub), ('double',), val, 8, 8)
                elif k == 'call':
                    args = []
                    for a in op[2]:
                        if isinstance(a, Ref): args.append(self.ptr(a.name, a.idx))
                        elif a is None: args.append(NULL)
                        else: args.append(a)
                    r = ex.call('@' + op[1], args)
                    if op[3]: self.vals[op[3]] = r
                elif k == 'check':
                    _, label, path, want, kind = op
                    self.obl += 1
                    try: got = self.read(path)
                    except Violation as e: self.fail.append((label, e.kind, str(e))); continue
                    if not self.equal(got, want, kind):
                        self.fail.append((label, 'value', '%s is %s, not %s' % (fmt(path), show(got), show(want))))
                elif k == 'hook':
                    for label, msg in op[1](self): self.fail.append((label, 'value', msg))
        except Violation as e:
            self.fail.append(('call', e.kind, str(e)))
            return self
        for o in ex.heap:
            self.obl += 1
            if not o.freed: self.fail.append(('leak', 'leak', 'heap object %s is never freed' % o.name)); break
        return self

def fmt(p):
    if p[0] == 'ret': return 'the value returned by ' + p[1]
    s = p[0] if p[1] == 0 else '%s[%d]' % (p[0], p[1])
    if len(p) > 2: s += '.' + p[2]
    if len(p) > 3: s += '[%d]' % p[3]
    return s
def show(v):
    if isinstance(v, T.Node): return T.show(v, 5)[:200]
    return repr(v)[:200] if not callable(v) else 'as specified'

ROUND = 2.0 ** -46
_probe = [None]
def differ(a, b):
    """quick refutation: the terms have clearly different values at one random point"""
    if _probe[0] is None: _probe[0] = Env(977)
    try: x, y = float(T.evalf(a, _probe[0])), float(T.evalf(b, _probe[0]))
    except Exception: return False
    d = abs(x - y)
    return d > 1e-8 and d > 1e-5 * max(abs(x), abs(y)) and d == d and d < 1e300
def approx_equal(a, b):
    """identity of terms up to the rounding of double constants (relative 2^-46 per coefficient)"""
    if a is b: return True
    if differ(a, b): return False
    try:
        if a.fp == b.fp and T.equal(a, b): return True
        if T.is_zero(T.pa(T.poly(a), T.poly(b), -1)): return True
    except (T.TooBig, ZeroDivisionError): return False
    try: pa_, pb_ = T._reduce_sqrt(T.poly(a)), T._reduce_sqrt(T.poly(b))
    except (T.TooBig, ZeroDivisionError): return False
    if set(pa_) != set(pb_): 
        return False
    return all(abs(pa_[m] - pb_[m]) <= ROUND * max(abs(pa_[m]), abs(pb_[m])) for m in pa_)

def addends(t):
    """the terms of a sum"""
    out = []; todo = [t]
    while todo:
        x = todo.pop()
        if x.op == '+': todo += x.args
        elif x.op == 'c' and x.args == 0: pass
        else: out.append(x)
    return out
def sum_equal(got, wants):
    """got is the sum of wants: term by term when the sum has that shape, as polynomials otherwise"""
    if not isinstance(got, T.Node): return False
    left = list(wants)
    for g in addends(got):
        k = next((k for k, w in enumerate(left) if approx_equal(g, w)), None)
        if k is None: break
        left.pop(k)
    else:
        if not left: return True
    t = T.ZERO
    for w in wants: t = T.add(t, w)
    return approx_equal(got, t)

# ------------------------------------------------------------------ native replay
CLIST = ['shell/shell.c', 'shell/shell_screen.c', 'shell/shell_constants.c', 'simint_init.c', 'recur_lookup.c', 'boys/boys_shortgrid.c']
_libs = {}
def native_lib(variant, full):
    """archive of the real sources (sanitized); full: False (shell and one-electron code), or the two-electron
    functions that must be there besides the whole hand-written library"""
    d = build.source(variant); v = build.VARIANTS[variant]
    fl, base = build.libfiles(variant)
    out = os.path.join(d, 'nat-base' if full is False else '-'.join(['nat-full'] + sorted(full))); os.makedirs(out, exist_ok=True)
    lib = os.path.join(out, 'lib.a')
    with build.Lock('nat-%s-%s-%s' % (variant, os.path.basename(out), build.tree_hash())):
        if not os.path.exists(lib):
            files = ['simint/' + f for f in base]
            if full is False: files = [f for f in files if '/shell/' in f or '/osoei/' in f or f.endswith('recur_lookup.c') or f.endswith('oneelectron.c') or f.endswith('shortgrid.c')]
            else:
                from checks.eri_common import deps
                for fn in full: files += [f for f in deps(variant, fn) if f not in files]
            cmds = []
            for f in files:
                if not os.path.exists(os.path.join(d, 'src', f)): continue
                o = os.path.join(out, f.replace('/', '_') + '.o')
                cmds.append((['gcc', '-O1', '-g', '-w', '-std=gnu11', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
                             '-I' + d + '/stage', '-I' + d + '/src'] + build.VECFLAGS[v['vec']] + ['-c', os.path.join(d, 'src', f), '-o', o], o))
            from concurrent.futures import ThreadPoolExecutor
            with ThreadPoolExecutor(8) as p: list(p.map(lambda c: build.run(c[0]), cmds))
            build.run(['ar', 'rcs', lib + '.tmp'] + [o for c, o in cmds]); os.replace(lib + '.tmp', lib)
    return lib

CT = {'shell': 'struct simint_shell', 'pair': 'struct simint_multi_shellpair', 'double': 'double', 'int': 'int', 'pairptr': 'struct simint_multi_shellpair const *'}
def native(scen, variant, env, rtol=1e-9, full=False):
    """compile and run the scenario; returns (reproduced, detail)"""
    d = build.source(variant); v = build.VARIANTS[variant]
    L = ['#include <stdio.h>', '#include <stdlib.h>', '#include <string.h>', '#include "simint/simint.h"', '#include "simint/shell/shell_screen.h"', 'int main(void){ %s' % ('simint_init();' if full is not False else '')]
    checks = []; rets = {}
    def cv(a):
        if isinstance(a, Ref): return '(void*)(%s+%d)' % (a.name, a.idx)
        if a is None: return 'NULL'
        if isinstance(a, T.Node): return '(%s)' % float(T.evalf(a, env)).hex()
        return str(a)
    def lv(p):
        if p[0] == 'ret': return p[1]
        s = '%s[%d]' % (p[0], p[1])
        if len(p) > 2: s += '.' + p[2]
        if len(p) > 3: s += '[%d]' % p[3]
        return s
    for op in scen.ops:
        k = op[0]
        if k == 'decl':
            _, n, kind, cnt = op
            L.append('%s *%s = malloc(sizeof(*%s)*%d + 1); memset(%s, 0xA5, sizeof(*%s)*%d);' % (CT[kind], n, n, cnt, n, n, cnt))
        elif k == 'set':
            for i, x in enumerate(op[2]): L.append('%s[%d] = %s;' % (op[1], i, cv(x)))
        elif k == 'setp':
            for i, x in enumerate(op[2]): L.append('%s[%d] = %s;' % (op[1], i, '%s+%d' % x if isinstance(x, tuple) else x))
        elif k == 'copy': L.append('%s[%d] = %s[%d];' % op[1:])
        elif k == 'poke':
            _, name, idx, field, sub, val = op
            L.append('%s[%d].%s%s = %s;' % (name, idx, field, '' if sub is None else '[%d]' % sub, cv(val)))
        elif k == 'call':
            if op[3]:
                t = rets.get(op[3], 'double'); L.append('%s %s = (%s)%s(%s);' % (t, op[3], t, op[1], ','.join(cv(a) for a in op[2])))
            else: L.append('%s(%s);' % (op[1], ','.join(cv(a) for a in op[2])))
        elif k == 'check':
            _, label, path, want, kind = op
            if kind == 'null': L.append('printf("C %d %%a\\n", %s == NULL ? 0.0 : 1.0);' % (len(checks), lv(path)))
            else: L.append('printf("C %d %%a\\n", (double)%s);' % (len(checks), lv(path)))
            checks.append((label, want, kind, path))
        elif k == 'hook':
            c = getattr(op[1], 'native', None)
            if c:
                for path, lab in c: L.append('printf("H %s %%a\\n", (double)%s);' % (lab, lv(path)))
    for n in scen.kinds: L.append('free((void*)%s);' % n)
    L.append('%s return 0; }' % ('simint_finalize();' if full is not False else ''))
    work = tempfile.mkdtemp(prefix='vtnat')
    try:
        src = os.path.join(work, 'm.c')
        with open(src, 'w') as f: f.write('\n'.join(L) + '\n')
        exe = os.path.join(work, 'm')
        build.run(['gcc', '-O1', '-g', '-w', '-std=gnu11', '-fsanitize=address,undefined', '-I' + d + '/stage', '-I' + d + '/src'] + build.VECFLAGS[v['vec']] + [src, native_lib(variant, full), '-lm', '-o', exe, '-Wl,--unresolved-symbols=ignore-all'])
        r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, cwd=work, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=1:allocator_may_return_null=1'))
        out = r.stdout.decode(); err = r.stderr.decode(errors='replace')
    except (build.BuildError, subprocess.TimeoutExpired) as e:
        return False, 'replay could not be run: ' + str(e)[-400:]
    finally: shutil.rmtree(work, ignore_errors=True)
    got = {}; H = {}
    for line in out.splitlines():
        p = line.split()
        if p and p[0] == 'C': got[int(p[1])] = float.fromhex(p[2])
        elif p and p[0] == 'H': H[p[1]] = float.fromhex(p[2])
    for i, (label, want, kind, path) in enumerate(checks):
        if i not in got: continue
        g = got[i]
        if kind == 'null': w = 0.0
        elif kind == 'int': w = float(want)
        elif callable(want) and hasattr(want, 'term'): w = float(T.evalf(want.term, env))
        elif callable(want) and hasattr(want, 'nat'):
            m = want.nat(g)
            if m: return True, 'compiled code: %s = %.17g: %s (%s)' % (fmt(path), g, m, scen.title)
            continue
        elif callable(want): continue
        else: w = float(T.evalf(want, env)) if isinstance(want, T.Node) else float(want)
        if not (g == w or abs(g - w) <= rtol * max(abs(g), abs(w)) + 1e-290) or math.isnan(g):
            return True, 'compiled code: %s = %.17g, specified %.17g (%s)' % (fmt(path), g, w, scen.title)
    for op in scen.ops:
        if op[0] == 'hook' and getattr(op[1], 'native', None) and getattr(op[1], 'judge', None):
            m = op[1].judge(H, env)
            if m: return True, 'compiled code: %s (%s)' % (m, scen.title)
    if r.returncode != 0:
        ls = [l for l in err.splitlines() if 'ERROR' in l or 'runtime error' in l or 'SUMMARY' in l or ' in simint' in l]
        return True, 'compiled code with sanitizers (%s): %s' % (scen.title, ' | '.join(ls[:4])[:500])
    return False, 'the compiled code agrees with the specification on random contents (%s)' % scen.title

class Env:
    """random contents for atoms, reproducible by seed; only contraction coefficients, charges and positions may be negative"""
    def __init__(self, seed, fixed=None): self.seed = seed; self.fixed = dict(fixed or {})
    def __call__(self, name):
        v = self.fixed.get(name)
        if v is None:
            r = random.Random('%s|%r' % (self.seed, name))
            k = name[0] if isinstance(name, tuple) else name
            if k in ('al',): v = r.uniform(0.2, 3.0)
            elif k in ('X',): v = r.uniform(-0.7, 0.7)
            else: v = r.uniform(0.3, 1.5)
            if k in ('c', 'Z') and r.random() < .4: v = -v
            self.fixed[name] = v
        return v
