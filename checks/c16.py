"""C16: initialisation and dispatch.

The generated tree is configured for every (maximum angular momentum, derivative order) it offers.  The initialiser and the
finaliser are functions from the contents of the mutable globals to the contents of the mutable globals; all contents reachable
by any sequence of calls are enumerated up to a fixed point, and in every one that follows an initialisation every supported
combination is sent through every public entry point, the integral routines being replaced by a contract that records how they
were called.  Arguments are symbolic; z3 decides that a path returns without calling a routine only if the estimate is below
the tolerance.
"""
import itertools, os, re, shutil, subprocess, tempfile, z3
from . import eri_common as E
from vt import framework, build, irparse, eri, terms as T, layout, scen
from vt.execu import *
from vt.screen import Z
AM = 'spdfghik'
CORE = ['simint/simint_init.c', 'simint/simint_eri.c', 'simint/ostei/ostei.c', 'simint/ostei/ostei_init.c', 'simint/ostei/ostei_deriv1_init.c']
RET = 4711

def rname(der, am): return '@ostei_' + ('deriv1_' if der else '') + '_'.join(AM[l] for l in am)

def stage(variant, l, der, stub):
    """configured headers of the tree for (l, der); with stub, declarations of every class up to l replace the generated ones"""
    d = build.source(variant); v = build.VARIANTS[variant]
    st = tempfile.mkdtemp(prefix='c16-', dir=build.CACHE)
    build.configure(d + '/src', st, l, der, v['vec'])
    if stub:
        os.makedirs(st + '/simint/ostei/gen')
        for k, nm in ((0, 'ostei_generated.h'), (1, 'ostei_deriv1_generated.h')):
            with open(st + '/simint/ostei/gen/' + nm, 'w') as f:
                f.write('#pragma once\n#include "simint/ostei/ostei.h"\n')
                for am in itertools.product(range(l + 1), repeat=4):
                    f.write('int %s(struct simint_multi_shellpair const, struct simint_multi_shellpair const, double, double * const restrict, double * const restrict);\n' % rname(k, am)[1:])
        # quoted includes look beside the including file first
        for rel in CORE:
            os.makedirs(os.path.dirname(os.path.join(st, 'c', rel)), exist_ok=True)
            shutil.copy(os.path.join(d, 'src', rel), os.path.join(st, 'c', rel))
    return st

def modules(variant, st, stub):
    d = build.source(variant); v = build.VARIANTS[variant]
    return [irparse.parse(build.ir(os.path.join(st, 'c', rel) if stub else os.path.join(d, 'src', rel), d + '/src', st, v['vec']), rel) for rel in CORE]

class X16(Exec):
    dirty = True
    def store(self, p, t, v, sz, al):
        if isinstance(p, Ptr) and p.obj is not None and p.obj.id in self.gids: self.dirty = True
        return Exec.store(self, p, t, v, sz, al)
    gids = ()
    def gptr(self, mod, name):
        L = mod.globals.get(name)
        if L is not None and ' external ' in L[:160]:
            for m in self.modules:
                if name in m.globals and ' external ' not in m.globals[name][:160]: return Exec.gptr(self, m, name)
        return Exec.gptr(self, mod, name)

def fresh(mods):
    ex = X16(mods)
    for m in mods:
        for g, L in m.globals.items():
            if ' external ' in L[:160]: continue
            ex.gptr(m, g)
    ex.gids = {o.id for o in ex.gobj.values()}
    return ex

def key(ex):
    """contents of the mutable globals"""
    out = []
    for k, o in sorted(ex.gobj.items(), key=lambda t: str(t[0])):
        if o.ro: continue
        cells = []
        for off, (sz, v, n) in sorted(o.cells.items()):
            if isinstance(v, FnPtr): v = v.name
            elif isinstance(v, Ptr):
                if v.obj is None: continue
                v = (v.obj.name, v.off)
            elif isinstance(v, int) and v == 0 and o.fill == 0: continue
            elif isinstance(v, T.Node): v = T.show(v, 20)
            cells.append((off, sz, v))
        out.append((str(k) if isinstance(k, str) else o.name, o.fill, tuple(cells)))
    if any(not o.freed for o in ex.heap): raise Unsupported('initialisation keeps heap memory')
    return tuple(out)

def snapshot(ex): return {k: (dict(o.cells), o.fill) for k, o in ex.gobj.items() if not o.ro}
def restore(ex, s):
    ex.dirty = False
    for k, o in ex.gobj.items():
        if k in s: o.cells = dict(s[k][0]); o.fill = s[k][1]

def pair(ex, lay, tag, a, b, der):
    off, size = lay['simint_multi_shellpair']
    o = Obj(tag, size, 16); vals = {}
    for f, p in off.items():
        if f in ('alpha2', 'beta2') and not der: continue
        if f in ('am1', 'am2'): v = a if f == 'am1' else b; sz = 4
        elif f in ('nprim', 'nshell12', 'nshell12_clip'): v = 1000 + 7 * len(vals) + (500 if tag == 'Q' else 0); sz = 4
        elif f == 'screen_max': v = T.var((tag, 'max')); sz = 8
        elif f == 'memsize': v = 12345; sz = 8
        else: v = Ptr(Obj('%s.%s' % (tag, f), 0, 64), 0); sz = 8
        o.cells[p] = (sz, v, 1); vals[f] = (p, sz, v)
    o.ro = True
    return o, vals

_imp = {}
def implied(pc, screened):
    k = (tuple((op, a.id, b.id, r) for kind, op, a, b, r in pc), screened)
    if k not in _imp:
        z = Z(); s = z3.Solver()
        for kind, op, a, b, r in pc: s.add(z.cmp(op, a, b, r))
        tol = T.var('tol')
        f = z3.And(z.cmp('ogt', tol, T.ZERO, True), z.cmp('olt', T.mul(T.var(('P', 'max')), T.var(('Q', 'max'))), T.mul(tol, tol), True))
        s.add(z3.Not(f) if screened else f)
        # screening data are largest absolute values: not negative (C10)
        for x in (T.var(('P', 'max')), T.var(('Q', 'max')), T.mul(T.var(('P', 'max')), T.var(('Q', 'max')))): s.add(z.term(x) >= 0)
        t2 = z.term(T.mul(tol, tol)); s.add(t2 >= 0, (t2 == 0) == (z.term(tol) == 0))      # (products are opaque to the solver)
        _imp[k] = s.check() == z3.unsat
    return _imp[k]

def dispatch(ex, lay, der, am, entry, hasder, ret):
    """all paths of one entry point for one class: list of (label, message)"""
    bad = []; n = 0
    base = ex.base
    calls = []
    P, pv = pair(ex, lay, 'P', am[0], am[1], hasder); Q, qv = pair(ex, lay, 'Q', am[2], am[3], hasder)
    tol = T.var('tol'); work = Ptr(Obj('work', 1 << 20, 64), 0); out = Ptr(Obj('integrals', 1 << 20, 64), 0)
    args = [Ptr(P, 0), Ptr(Q, 0), tol, work, out]
    if entry.endswith('deriv'): args = [der] + args
    names = {}
    def run(oracle):
        if ex.dirty: restore(ex, base)
        ex.oracle = oracle; ex.opos = 0; ex.pc = []; ex.fdec = {}
        calls.clear()
        ex.result = ex.call('@' + entry, list(args))
        return ex
    def rec(name):
        def h(e, a):
            calls.append((name, a)); return ret
        return h
    for f in ex.allroutines: ex.contracts[f] = rec(f)
    try:
        for e in explore(run, 64):
            n += 1
            if not calls:
                if e.result != -1: bad.append(('return', 'returns %r without calling a routine' % (e.result,)))
                if not implied(e.pc, True): bad.append(('lost', 'no routine is called although the pair is not screened'))
                continue
            if not implied(e.pc, False): bad.append(('screen', 'a routine is called although the pair is screened'))
            if len(calls) != 1: bad.append(('calls', '%d routines are called' % len(calls)))
            name, a = calls[0]; n += 6
            if name != rname(der, am): bad.append(('class', 'reaches %s' % name))
            if e.result != ret: bad.append(('return', 'returns %r, the routine returned %d' % (e.result, ret)))
            for got, vals, tag in ((a[0], pv, 'P'), (a[1], qv, 'Q')):
                for f, (off, sz, v) in vals.items():
                    c = got.obj.cells.get(got.off + off); n += 1
                    if c is None or not same(c[1], v): bad.append(('arguments', 'field %s of %s is not passed on' % (f, tag)))
            if not scen.approx_equal(a[2], T.mul(tol, tol)): bad.append(('arguments', 'the squared tolerance is passed as %s' % T.show(a[2], 4)))
            if not same(a[3], work): bad.append(('arguments', 'the work array is not passed on'))
            if not same(a[4], out): bad.append(('arguments', 'the output array is not passed on'))
    except Violation as v:
        bad.append((v.kind, str(v)))
    finally:
        if ex.dirty: restore(ex, base)
        for f in ex.allroutines: ex.contracts.pop(f, None)
    return bad, n

def same(a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.obj is b.obj and a.off == b.off
    return a is b or (type(a) is int and type(b) is int and a == b)

def task(variant, l, der, stub, quick, first=None):
    T.reset(); T.EPOCH[0] += 1; _imp.clear()
    name = '%s/maxam %d, order %d%s' % (variant, l, der, (' (declared classes)' if stub else '') + ('' if first is None else ', first ' + AM[first]))
    st = stage(variant, l, der, stub); bad = []; n = 0; fails = []
    try:
        mods = modules(variant, st, stub)
        lay = layout.get(variant if der else 'noder')   # the structure does not depend on the vector width
        hasder = 'alpha2' in lay['simint_multi_shellpair'][0]
        ex = fresh(mods)
        ex.allroutines = {f for m in mods for f, F in m.funcs.items() if F.declared and re.match(r'@ostei_(deriv1_)?[%s]_' % AM, f)}
        s0 = snapshot(ex); seen = {('start', key(ex)): ()}; todo = [('start', s0, ())]; ready = []
        while todo:
            last, s, hist = todo.pop(0)
            for op in ('init', 'finalize'):
                restore(ex, s)
                try: ex.call('@simint_' + op, [])
                except Violation as v:
                    bad.append((v.kind, 'after %s: %s' % (', '.join(hist + (op,)), v))); continue
                n += 1
                k = (op, key(ex))
                if k in seen: continue
                seen[k] = hist + (op,)
                if len(seen) > 40: raise Unsupported('too many states of the globals')
                sn = snapshot(ex); todo.append((op, sn, hist + (op,)))
                if op == 'init': ready.append((sn, hist + (op,)))
        # a state left by finalize directly after an initialised one is only used through another init
        for sn, hist in ready:
            restore(ex, sn); ex.base = sn
            for o in range(der + 1):
                for am in itertools.product(range(l + 1), repeat=4):
                    if first is not None and am[0] != first: continue
                    ents = ['simint_compute_eri_deriv', 'simint_compute_ostei_deriv'] + ([] if o else ['simint_compute_eri', 'simint_compute_ostei'])
                    if quick and l >= 4: ents = [ents[sum(am) % len(ents)]]
                    for en in ents:
                        b, k = dispatch(ex, lay, o, am, en, hasder and der > 0, RET); n += k
                        for lab, msg in b:
                            fails.append((hist, o, am, en, lab, msg))
                            if len(fails) > 50: break
        # names are only a convention: a class that reaches another name is judged by what the routine computes
        keep = []
        judged = {}
        for f in fails:
            hist, o, am, en, lab, msg = f
            if lab == 'class' and not stub and l == build.VARIANTS[variant]['l'] and hist == ('init',):
                j = judged.get((o, am))
                if j is None:
                    r = E.task(variant, o, am, 'light')
                    j = judged[(o, am)] = not r['bad']
                if j: continue
            keep.append(f)
        for hist, o, am, en, lab, msg in keep:
            bad.append((lab, '%s, then %s%s of (%s): %s' % (', '.join(hist), en, ' order %d' % o, ' '.join(AM[x] for x in am), msg)))
        out = dict(name=name, obl={'out': n}, mem=ex.checks, instr=ex.count, bad=bad, fn='@simint_compute_eri')
        if bad and framework.REPLAY[0]: out['replay'] = native(variant, l, der, st, stub, keep)
    finally: shutil.rmtree(st, ignore_errors=True)
    return out

def screened_dispatch(variant):
    """replay: the compiled dispatch code of a variant with recording routines"""
    v = build.VARIANTS[variant]; der = v.get('d', 1); l = v['l']
    st = tempfile.mkdtemp(prefix='c16-', dir=build.CACHE)
    try:
        build.configure(build.source(variant) + '/src', st, l, der, v['vec'])
        return native(variant, l, der, st, False, [])
    finally: shutil.rmtree(st, ignore_errors=True)

def native(variant, l, der, st, stub, fails):
    """the real initialisation and dispatch code with routines that only report how they were called"""
    d = build.source(variant); v = build.VARIANTS[variant]
    hists = [('init',), ('init', 'init'), ('init', 'finalize', 'init'), ('finalize', 'init')]
    for f in fails:
        if f[0] not in hists and f[0]: hists.append(f[0])
    sig = 'struct simint_multi_shellpair const P, struct simint_multi_shellpair const Q, double t, double * const restrict w, double * const restrict o'
    L = ['#include <stdio.h>', '#include <string.h>', '#include <stdlib.h>', '#include "simint/simint_init.h"', '#include "simint/simint_eri.h"', '#include "simint/ostei/ostei.h"',
         'static struct simint_multi_shellpair A, B; static double W[4], O[4]; static int id, ok, ncall; static double T2;',
         'static int rec(int k, struct simint_multi_shellpair const *P, struct simint_multi_shellpair const *Q, double t, double *w, double *o){ id = k; ncall++; ok = !memcmp(P, &A, sizeof A) && !memcmp(Q, &B, sizeof B) && t == T2 && w == W && o == O; return 4711; }']
    ids = {}
    for o in range(2):
        for am in itertools.product(range(l + 1), repeat=4):
            ids[(o, am)] = len(ids)
            L.append('int %s(%s){ return rec(%d, &P, &Q, t, w, o); }' % (rname(o, am)[1:], sig, ids[(o, am)]))
    L.append('int main(void){ memset(&A, 0, sizeof A); memset(&B, 0, sizeof B); A.nprim = 5; B.nprim = 6; A.screen_max = 3; B.screen_max = 4; A.x = W; B.x = O; int r;')
    # one process per history
    L.append('int h; FILE *dev = stdin; (void)dev; if(scanf("%d", &h) != 1) return 9;')
    for k, h in enumerate(hists): L.append('if(h == %d){ %s }' % (k, ' '.join('simint_%s();' % c for c in h)))
    L.append('for(int d = 0; d <= %d; d++) for(int i = 0; i <= %d; i++) for(int j = 0; j <= %d; j++) for(int k = 0; k <= %d; k++) for(int l = 0; l <= %d; l++){ A.am1 = i; A.am2 = j; B.am1 = k; B.am2 = l;' % (der, l, l, l, l))
    L.append(' int want = ((((d*%d+i)*%d+j)*%d+k)*%d+l); fprintf(stderr, "before %%d %%d %%d %%d %%d\\n", d, i, j, k, l);' % (l + 1, l + 1, l + 1, l + 1))
    # largest estimates, tolerance, whether a routine has to be called
    L.append(' static const double sc[][4] = {{3, 4, 0.5, 1}, {0.5, 0.4, 0.5, 0}, {0.5, 0.5, 0.5, 1}, {0.5, 0.625, 0.5, 1}, {3, 4, 3.5, 0}, {3, 4, 3.25, 1}, {0.03125, 8, 0.75, 0}, {8, 0.03125, 0.75, 0}, {0.25, 0.25, 0.0, 1}, {0, 0, 0, 1}, {4, 1, 2, 1}};')
    L.append(' for(int s = 0; s < 11; s++){ A.screen_max = sc[s][0]; B.screen_max = sc[s][1]; double tol = sc[s][2]; T2 = tol * tol; int call = (int)sc[s][3];')
    for en, cond in (('simint_compute_eri_deriv', 1), ('simint_compute_ostei_deriv', 1), ('simint_compute_eri', 0), ('simint_compute_ostei', 0)):
        L.append(' %s{ id = -1; ok = 0; ncall = 0; r = %s(%s&A, &B, tol, W, O); if(call ? (r != 4711 || id != want || !ok || ncall != 1) : (r != -1 || ncall)){ printf("BAD %s order %%d class %%d %%d %%d %%d, screen_max %%g and %%g, tolerance %%g: returned %%d, routine %%d (expected %%d), arguments %%s, calls %%d (expected %%d)\\n", d, i, j, k, l, A.screen_max, B.screen_max, tol, r, id, want, ok ? "passed on" : "changed", ncall, call); fflush(stdout); _Exit(3); } }' % ('' if cond else 'if(d == 0)', en, 'd, ' if cond else '', en))
    L.append(' }')
    L.append('} return 0; }')
    with open(st + '/main.c', 'w') as f: f.write('\n'.join(L) + '\n')
    exe = st + '/a.out'
    try:
        build.run(['gcc', '-O0', '-g', '-fsanitize=address,undefined'] + build.cflags(d + '/src', st, v['vec']) + [st + '/main.c'] + [os.path.join(st, 'c', r) if stub else os.path.join(d, 'src', r) for r in CORE] + ['-o', exe])
    except build.BuildError as e: return dict(reproduced=False, detail='the replay could not be built: ' + str(e)[-300:])
    for k, h in enumerate(hists):
        r = subprocess.run([exe], input=str(k).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        if r.returncode:
            o = r.stdout.decode(); e = r.stderr.decode(errors='replace')
            pos = [x for x in e.splitlines() if x.startswith('before')]; err = [x for x in e.splitlines() if 'ERROR' in x or 'runtime error' in x]
            return dict(reproduced=True, detail='compiled code after %s: %s' % (', '.join(h), (o.strip() or 'crashed at %s: %s' % (pos[-1:] , err[:1]))[:400]))
    return dict(reproduced=False, detail='the compiled code dispatches correctly')

def closure(variant, l, der, deep):
    """every routine the configured library can reach is in one of the files it is built from, and these files compile"""
    name = '%s/files for maxam %d, order %d' % (variant, l, der); bad = []; n = 0
    d = build.source(variant) + '/src'; v = build.VARIANTS[variant]
    fl = d + '/simint/ostei/gen/filelist_d%d_%d' % (der, l)
    if not os.path.exists(fl): return dict(name=name, obl={'out': 1}, mem=0, instr=0, bad=[('files', 'no file list for this configuration')], fn='@create.py')
    with open(fl) as f: files = ['simint/' + x for x in f.read().split()]
    _, base = build.libfiles(variant)
    have = set(files) | {'simint/' + b for b in base}
    defs = build.defs(variant)
    need = [rname(o, am)[1:] for o in range(der + 1) for am in itertools.product(range(l + 1), repeat=4)]
    seen = set()
    st = None
    def text(rel):
        with open(os.path.join(d, rel)) as f: s = f.read()
        return re.sub(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\])*"', ' ', s, flags=re.S)
    inl = inlines(variant)
    while need:
        f = need.pop()
        if f in seen: continue
        seen.add(f); n += 1
        if f in inl and f not in defs: need += [g for g in inl[f] if g in defs or g in inl]; continue
        rel = defs.get(f)
        if rel is None: bad.append(('files', 'no file defines %s' % f)); continue
        if rel not in have: bad.append(('files', '%s is needed but its file %s is not in the file list' % (f, os.path.basename(rel)))); continue
        if rel == 'simint/ostei/ostei_general_vrr.c' or '/gen/' in rel or 'general' in rel:
            for g in set(re.findall(r'\b(\w+)\s*\(', text(rel))):
                if (g in defs or g in inl) and g not in seen: need.append(g)
    for f in sorted(set(files)):
        if not os.path.exists(os.path.join(d, f)): bad.append(('files', f + ' is listed but was not generated'))
    rep = None
    if deep or (der == 0 and v.get('d', 1) and l <= 1):
        st = tempfile.mkdtemp(prefix='c16-', dir=build.CACHE)
        try:
            build.configure(d, st, l, der, v['vec'])
            for f in sorted(set(files)):
                n += 1
                r = subprocess.run([build.CLANG, '-fsyntax-only', '-U__clang__'] + build.cflags(d, st, v['vec']) + [os.path.join(d, f)], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                if r.returncode:
                    rep = dict(reproduced=True, detail='does not compile: ' + r.stderr.decode(errors='replace')[:300]); bad.append(('files', '%s does not compile with maximum angular momentum %d and derivative order %d' % (f, l, der))); break
        finally: shutil.rmtree(st, ignore_errors=True)
    if bad and rep is None: rep = dict(reproduced=True, detail='file list %s of the real generated tree: %s' % (os.path.basename(fl), bad[0][1]))
    return dict(name=name, obl={'out': n}, mem=0, instr=0, bad=bad, fn='@create.py', **(dict(replay=rep) if bad else {}))

_inl = {}
def inlines(variant):
    """static inline functions of the headers and what they mention"""
    if variant in _inl: return _inl[variant]
    d = build.source(variant) + '/src/simint'; out = {}
    for dp, dn, fn in os.walk(d):
        for f in fn:
            if f.endswith('.h'):
                with open(os.path.join(dp, f)) as fh: s = re.sub(r'/\*.*?\*/|//[^\n]*', ' ', fh.read(), flags=re.S)
                for m in re.finditer(r'\bstatic\s+inline\s+[\w\s\*]*?\b(\w+)\s*\([^)]*\)\s*\{', s):
                    i = m.end(); dep = 1
                    while i < len(s) and dep: dep += (s[i] == '{') - (s[i] == '}'); i += 1
                    out.setdefault(m.group(1), set(re.findall(r'\b(\w+)\s*\(', s[m.end():i])))
    _inl[variant] = out
    return out

def tasks(tier):
    ts = []
    for v in build.VARIANTS:
        V = build.VARIANTS[v]
        for l in range(V['l'] + 1):
            for der in range(V.get('d', 1) + 1):
                ts.append((task, (v, l, der, False, tier == 'quick'), 50 * (l + 1) ** 4))
                ts.append((closure, (v, l, der, tier != 'quick'), 1000))
    for der in (1,) if tier == 'quick' else (0, 1):
        for a in range(8): ts.append((task, ('inline', 7, der, True, tier == 'quick', a), 10 ** 6))
    if tier != 'quick':
        for l in (4, 5, 6): ts.append((task, ('inline', l, 1, True, False), 10 ** 6))
    return ts

def run(ck, tier):
    ck.trusted += ['the integral routines are replaced by a contract that records the call (what they compute: C01, C02)',
                   'for maximum angular momenta no generated tree covers (4 to 7) the generated declarations are replaced by declarations of every class',
                   'which file a routine calls is read off the text of the generated files (comments and strings removed)',
                   'clang-18 -O0 + opt-18 preserve the meaning of the C source']
    for v in build.VARIANTS: layout.get(v); build.defs(v)
    res = framework.run_tasks(tasks(tier))
    E.collect(ck, res)
