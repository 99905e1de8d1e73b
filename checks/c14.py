"""C14: the operations of the vectorisation headers act lane by lane, in every width and for both compilers' text."""
import random, time
import z3
from vt import framework, vecops as V, terms as T, build
from vt.execu import *
from vt.screen import Z, pick_max
from . import eri_common as E

D = ('double',)
def arr(ex, name, n, align, ro=True):
    o = Obj(name, 8 * n, align)
    for k in range(n): ex.store(Ptr(o, 8 * k), D, T.var((name, k)), 8, 8)
    o.ro = ro
    return Ptr(o, 0)
def ints(ex, name, vals, ro=True):
    o = Obj(name, 4 * len(vals), 4)
    for k, v in enumerate(vals): ex.store(Ptr(o, 4 * k), ('i', 32), v, 4, 4)
    o.ro = ro
    return Ptr(o, 0)
def get(ex, p, k): return ex.load(Ptr(p.obj, p.off + 8 * k), D, 8, 8)

ELEM = {
 'neg': (1, lambda a: T.neg(a)), 'add': (2, T.add), 'sub': (2, T.sub), 'mul': (2, T.mul), 'div': (2, T.div),
 'sqrt': (1, lambda a: T.func('sqrt', a)), 'exp': (1, lambda a: T.func('exp', a)), 'pow': (2, lambda a, b: T.func('pow', a, b)),
 'fmadd': (3, lambda a, b, c: T.add(T.mul(a, b), c)), 'fmsub': (3, lambda a, b, c: T.sub(T.mul(a, b), c)),
 'expr': (3, lambda a, b, c: T.sub(T.mul(T.add(a, b), T.sub(b, c)), T.sub(T.mul(T.neg(T.add(a, c)), T.sub(a, b)), T.mul(c, T.sub(c, a))))),
}
CEXPR = {'neg': '-a[k]', 'add': 'a[k]+b[k]', 'sub': 'a[k]-b[k]', 'mul': 'a[k]*b[k]', 'div': 'a[k]/b[k]', 'sqrt': 'sqrt(a[k])', 'exp': 'exp(a[k])', 'pow': 'pow(a[k],b[k])',
         'fmadd': 'a[k]*b[k]+c[k]', 'fmsub': 'a[k]*b[k]-c[k]', 'expr': '(a[k]+b[k])*(b[k]-c[k]) - (-(a[k]+c[k])*(a[k]-b[k]) - c[k]*(c[k]-a[k]))'}

class Bad(Exception): pass
def need(c, kind, msg):
    if not c: raise Violation(kind, msg)

def z3valid(facts, goal):
    s = z3.Solver(); s.set('timeout', 20000); s.add(facts); s.add(z3.Not(goal))
    r = s.check()
    if r == z3.unknown: raise Unsupported('z3 gave no answer')
    return r == z3.unsat

def offset_patterns(L, rng, tier):
    ps = [[0] * L, list(range(L)), list(range(L))[::-1], [k // 2 for k in range(L)], [k % 2 for k in range(L)], [3] + [1] * (L - 1), [0] * (L - 1) + [2]]
    for _ in range(3 if tier != 'thorough' else 12): ps.append([rng.randrange(L + 1) for _ in range(L)])
    out = []
    for p in ps:
        if p not in out: out.append(p)
    return out

def task(cfg, clang, op, tier, seed):
    T.reset(); T.EPOCH[0] += 1
    name = '%s/%s/%s' % (cfg, 'clang' if clang else 'gcc', op)
    t0 = time.process_time()
    r = dict(name=name, fn=None, obl={}, mem=0, instr=0, bad=[], solver=0.0)
    L = V.CONFIGS[cfg]['L']
    try: body(cfg, clang, op, tier, seed, L, r)
    except Violation as e: r['bad'].append((e.kind, str(e)))
    except Unsupported as e:
        # not within the verifier's reach: bounded stand-in on the compiled code
        rep = replay(cfg, clang, op, L)
        if rep.get('reproduced'): r['bad'].append(('value', 'bounded stand-in: ' + rep['detail'])); r['replay'] = rep
        else: r['bounded'] = str(e)[:200] + ' (bounded stand-in: random inputs of the compiled operation)' if rep.get('ran') else str(e)[:200] + ' (not executed: no such processor here)'
    r['cpu'] = time.process_time() - t0
    r['fn'] = '@' + FN.get(op, op)
    if r['bad'] and framework.REPLAY[0] and 'replay' not in r: r['replay'] = replay(cfg, clang, op, L)
    return r

FN = {'contract': 'contract', 'contract_all': 'contract_all', 'contract_fac': 'contract_fac', 'contract_all_fac': 'contract_all_fac', 'min': 'vector_min', 'max': 'vector_max',
      'mask': 'mask_load', 'count': 'count_prim_screen_survival', 'elem': 'SIMINT_ADD,SUB,MUL,DIV,NEG,SQRT,EXP,POW,FMADD,FMSUB', 'misc': 'SIMINT_DBLLOAD,DBLSET1,SIMD_ROUND,ALLOC,FREE'}

def mk(cfg, m, oracle=None):
    ex = Exec([m], V.contracts(cfg)); ex.sel_hook = pick_max; ex.maxcell = max(64, 8 * V.CONFIGS[cfg]['L'])
    if oracle is not None: ex.oracle = oracle
    return ex

def body(cfg, clang, op, tier, seed, L, r):
    m = V.module(cfg, clang); rng = random.Random(seed * 7 + L)
    def done(ex, kind, n):
        r['obl'][kind] = r['obl'].get(kind, 0) + n; r['mem'] += ex.checks; r['instr'] += ex.count
    def noeffect(ex): need(not ex.pc, 'value', 'the result depends on a comparison of the data')
    if op == 'elem':
        for o, (n, f) in ELEM.items():
            ex = mk(cfg, m)
            ins = [arr(ex, x, L, 8 * L) for x in 'abc'[:n]]
            out = Ptr(Obj('r', 8 * L, 8 * L), 0)
            ex.call('@w_' + o, [out] + ins); noeffect(ex)
            for k in range(L):
                e = f(*[T.var((x, k)) for x in 'abc'[:n]])
                need(T.equal(get(ex, out, k), e), 'value', '%s: lane %d is %s' % (o, k, T.show(get(ex, out, k), 6)))
            done(ex, 'lane', L)
    elif op == 'misc':
        ex = mk(cfg, m)
        for i in range(4):
            out = Ptr(Obj('r', 8 * L, 8 * L), 0)
            ex.call('@w_load', [out, arr(ex, 'a', 4 * L, 8 * L), i * L])
            for k in range(L): need(get(ex, out, k) is T.var(('a', i * L + k)), 'value', 'DBLLOAD(p,%d): lane %d' % (i * L, k))
        out = Ptr(Obj('r', 8 * L, 8 * L), 0)
        ex.call('@w_set1', [out, T.var('s')])
        for k in range(L): need(get(ex, out, k) is T.var('s'), 'value', 'DBLSET1: lane %d' % k)
        ex.call('@w_expr2', [out, T.var('s'), T.var('t')])
        s, t = T.var('s'), T.var('t')
        for k in range(L): need(T.equal(get(ex, out, k), T.div(T.sub(s, t), T.add(T.add(s, t), T.sub(t, T.ONE)))), 'value', 'arguments that are expressions: lane %d' % k)
        need(ex.call('@w_len', []) == L, 'value', 'SIMINT_SIMD_LEN')
        need(ex.call('@w_nshell', []) == 2 * L, 'value', 'SIMINT_NSHELL_SIMD is not twice the vector length')
        need(ex.call('@w_aligndbl', []) == 8 * L and ex.call('@w_alignint', []) == 4 * L, 'value', 'alignment macros')
        for x in range(0, 20 * L + 3): need(ex.call('@w_round', [x]) == -(-x // L) * L, 'value', 'SIMINT_SIMD_ROUND(%d)' % x)
        p = ex.call('@w_alloc', [64 * L])
        need(isinstance(p, Ptr) and p.obj.size == 64 * L and p.off == 0, 'value', 'SIMINT_ALLOC does not return the requested memory')
        need(cfg == 'SCALAR' or p.obj.align % (8 * L) == 0, 'alignment', 'SIMINT_ALLOC returns memory aligned to %d only' % p.obj.align)
        ex.call('@w_free', [p]); need(p.obj.freed, 'lifetime', 'SIMINT_FREE does not release the memory')
        done(ex, 'lane', 4 * L + 2 * L + 6 + 20 * L)
    elif op in ('min', 'max'):
        for ex in paths(cfg, m, lambda ex: setattr(ex, 'res', ex.call('@w_' + op, [arr(ex, 'a', L, 8 * L)]))):
            z = Z(); facts = [z.cmp(*x[1:]) for x in ex.pc]; v = z.term(ex.res)
            xs = [z.term(T.var(('a', k))) for k in range(L)]
            t = time.time()
            for k in range(L): need(z3valid(facts, v >= xs[k] if op == 'max' else v <= xs[k]), 'value', 'vector_%s can miss lane %d' % (op, k))
            need(z3valid(facts, z3.Or([v == x for x in xs])), 'value', 'vector_%s is not the value of a lane' % op)
            r['solver'] += time.time() - t
            done(ex, 'extremum', L + 1)
    elif op == 'mask':
        for n in range(0, L + 1):
            ex = mk(cfg, m)
            a = arr(ex, 'a', L, 8 * L); out = Ptr(Obj('r', 8 * L, 8 * L), 0)
            ex.call('@w_mask', [out, n, a]); noeffect(ex)
            for k in range(L):
                e = T.var(('a', k)) if k < n else T.ZERO
                need(T.equal(get(ex, out, k), e), 'value', 'mask_load(%d): lane %d is %s' % (n, k, T.show(get(ex, out, k), 4)))
            # lanes from n on must not matter even if they were never written
            ex2 = mk(cfg, m); o = Obj('a', 8 * L, 8 * L)
            for k in range(n): ex2.store(Ptr(o, 8 * k), D, T.var(('a', k)), 8, 8)
            out = Ptr(Obj('r', 8 * L, 8 * L), 0); ex2.call('@w_mask', [out, n, Ptr(o, 0)])
            for k in range(L): need(get(ex2, out, k) is (T.var(('a', k)) if k < n else T.ZERO), 'value', 'mask_load(%d): lane %d depends on a masked value' % (n, k))
            done(ex, 'lane', 2 * L)
    elif op == 'count':
        if not V.has_count(cfg): return
        def check(ex):
            z = Z(); facts = [z.cmp(*x[1:]) for x in ex.pc]
            goal = z3.Sum([z3.If(z.term(T.var(('a', k))) >= z.term(T.var('tol')), 1, 0) for k in range(L)]) == ex.res
            t = time.time(); need(z3valid(facts, goal), 'value', 'count_prim_screen_survival returns %r' % (ex.res,)); r['solver'] += time.time() - t
            done(ex, 'count', 1)
        go = lambda ex: setattr(ex, 'res', ex.call('@w_count', [arr(ex, 'a', L, 8 * L), T.var('tol')]))
        if L <= 8:
            for ex in paths(cfg, m, go): check(ex)
        else:
            pats = [[0] * L, [1] * L] + [[int(j == k) for j in range(L)] for k in range(L)] + [[rng.randrange(2) for _ in range(L)] for _ in range(30)]
            for p in pats:
                ex = mk(cfg, m, [[x, 2] for x in p] + [[0, 2]] * 4); go(ex); check(ex)
            r['bounded'] = 'count_prim_screen_survival: %d of the 2^%d outcomes of the comparisons' % (len(pats), L)
    else:
        fac = 'fac' in op; allv = 'all' in op
        ncs = list(range(0, 2 * max(L, 8) + 3)) + [36, 45, 81, 100] if tier != 'thorough' else list(range(0, 8 * L + 10)) + [108, 150, 216, 225, 441]
        pats = [[0] * L] if allv else offset_patterns(L, rng, tier)
        if L > 8 and tier != 'thorough': ncs = [0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 33, 40]; pats = pats[:4]
        for nc in ncs:
            for off in (pats if nc < 20 or tier == 'thorough' else pats[:3]):
                T.reset()
                ex = mk(cfg, m)
                nd = (max(off) + 1) * nc
                src = arr(ex, 'src', L * nc, 8 * L); dst = arr(ex, 'dst', nd, 8, ro=False)
                args = [nc]
                if fac: args.append(arr(ex, 'f', L, 8 * L))
                if not allv: args.append(ints(ex, 'off', off))
                ex.call('@w_' + op, args + [src, dst]); noeffect(ex)
                for d in range(nd):
                    e = T.var(('dst', d)); q, c = divmod(d, nc)
                    for n in range(L):
                        if off[n] == q:
                            x = T.var(('src', c * L + n))
                            if fac: x = T.mul(T.var(('f', n)), x)
                            e = T.add(e, x)
                    need(T.equal(get(ex, dst, d), e), 'value', '%s with %d components, destinations %s: element %d' % (op, nc, off, d))
                done(ex, 'destination', nd)

def paths(cfg, m, go):
    def make(oracle):
        ex = mk(cfg, m, oracle); go(ex); return ex
    yield from explore(make, 2000)

MAIN = r'''
#include <stdio.h>
#include <string.h>
#define L SIMINT_SIMD_LEN
static unsigned long S = 88172645463325252UL;
static double rnd(void) { S ^= S << 13; S ^= S >> 7; S ^= S << 17; return (double)(S >> 11) / 9007199254740992.0; }
static double *al(size_t n, size_t a) { void *p; if(a < 16) { p = malloc(8*(n?n:1)); } else if(posix_memalign(&p, a, 8*(n?n:1))) exit(9); return p; }
static int ne(double x, double y) { return !(fabs(x-y) <= 1e-11*(1.0+fabs(x)+fabs(y))); }
#define BAD(...) do { printf("BAD " __VA_ARGS__); return 3; } while(0)
int main(void)
{
  double *a = al(L, 64*sizeof(double)), *b = al(L, 512), *c = al(L, 512), *r = al(L, 512);
  for(int it = 0; it < 60; it++) {
    for(int k = 0; k < L; k++) { a[k] = rnd()*4 + 0.1; b[k] = rnd()*4 - 2; c[k] = rnd()*4 - 2; r[k] = 77; }
    int neg = it % 3;
%s
  }
  printf("ok\n");
  return 0;
}
'''
def replay(cfg, clang, op, L):
    if cfg not in V.X86: return dict(reproduced=False, detail='no processor of this kind here')
    s = []
    if op == 'elem':
        for o, (n, f) in ELEM.items():
            s.append('    w_%s(r, %s); for(int k = 0; k < L; k++) if(ne(r[k], %s)) BAD("%s lane %%d: %%.17g instead of %%.17g\\n", k, r[k], %s);' % (o, ', '.join('abc'[:n]), CEXPR[o], o, CEXPR[o]))
    elif op == 'misc':
        s.append('''    if(w_len() != %d || w_nshell() != %d || w_aligndbl() != %d || w_alignint() != %d) BAD("vector constants\\n");
    for(int x = 0; x < 400; x++) if(w_round(x) != (x + L-1)/L*L) BAD("SIMINT_SIMD_ROUND(%%d) = %%d\\n", x, w_round(x));
    double *q = al(4*L, 512); for(int k = 0; k < 4*L; k++) q[k] = k + it;
    for(int i = 0; i < 4; i++) { w_load(r, q, i*L); for(int k = 0; k < L; k++) if(r[k] != q[i*L+k]) BAD("DBLLOAD lane %%d\\n", k); }
    w_set1(r, 3.5); for(int k = 0; k < L; k++) if(r[k] != 3.5) BAD("DBLSET1 lane %%d\\n", k);
    w_expr2(r, a[0], 2.5); for(int k = 0; k < L; k++) if(ne(r[k], (a[0]-2.5)/((a[0]+2.5)-(-(2.5-1.0))))) BAD("expression arguments, lane %%d\\n", k);
    void *p = w_alloc(64*L); if(%d && (size_t)p %% (8*L)) BAD("SIMINT_ALLOC alignment\\n"); memset(p, 1, 64*L); w_free(p); free(q);''' % (L, 2 * L, 8 * L, 4 * L, cfg != 'SCALAR'))
    elif op in ('min', 'max'):
        s.append('''    for(int k = 0; k < L; k++) a[k] = neg == 1 ? -a[k] : neg == 2 ? b[k] : a[k];
    double e = a[0]; for(int k = 1; k < L; k++) if(a[k] %s e) e = a[k];
    if(w_%s(a) != e) { printf("BAD vector_%s of"); for(int k = 0; k < L; k++) printf(" %%.17g", a[k]); printf(" is %%.17g\\n", w_%s(a)); return 3; }''' % ('>' if op == 'max' else '<', op, op, op))
    elif op == 'mask':
        s.append('''    for(int n = 0; n <= L; n++) { w_mask(r, n, b); for(int k = 0; k < L; k++) if(r[k] != (k < n ? b[k] : 0.0)) BAD("mask_load(%d) lane %d is %.17g\\n", n, k, r[k]); }''')
    elif op == 'count':
        s.append('''    double tol = it & 1 ? b[0] : 0.3; int e = 0; for(int k = 0; k < L; k++) e += b[k] >= tol;
    if(w_count(b, tol) != e) BAD("count %d instead of %d\\n", w_count(b, tol), e);''')
    else:
        fac = 'fac' in op; allv = 'all' in op
        s.append('''    for(int nc = 0; nc < 70; nc++) {
      int off[L]; int mx = 0; for(int k = 0; k < L; k++) { off[k] = %s; if(off[k] > mx) mx = off[k]; }
      double *src = al(L*nc, 8*L < 16 ? 8 : 8*L), *dst = al((mx+1)*nc, 8), *ref = al((mx+1)*nc, 8);
      for(int k = 0; k < L*nc; k++) src[k] = rnd()*4-2;
      for(int k = 0; k < (mx+1)*nc; k++) ref[k] = dst[k] = rnd()*4-2;
      for(int np = 0; np < nc; np++) for(int k = 0; k < L; k++) ref[off[k]*nc+np] += %ssrc[np*L+k];
      w_%s(nc, %s%ssrc, dst);
      for(int k = 0; k < (mx+1)*nc; k++) if(ne(ref[k], dst[k])) BAD("%s of %%d components: destination %%d is %%.17g instead of %%.17g\\n", nc, k, dst[k], ref[k]);
      free(src); free(dst); free(ref); }''' % ('0' if allv else 'it == 0 ? k : (int)(rnd()*(L+1))', 'b[k]*' if fac else '', op, 'b, ' if fac else '', '' if allv else 'off, ', op))
    rc, out = V.native(cfg, clang, MAIN.replace('%s', '\n'.join(s), 1))
    if rc is None: return dict(reproduced=False, detail=out[-400:])
    if rc == 0: return dict(reproduced=False, detail='60 random inputs gave the expected values', ran=True)
    if rc in (-4,): return dict(reproduced=False, detail='the processor lacks these instructions')
    return dict(reproduced=True, detail='compiled %s operation (%s): %s' % (cfg, 'clang' if clang else 'gcc', out.strip()[:500]))

OPS = ['elem', 'misc', 'min', 'max', 'mask', 'count', 'contract', 'contract_all', 'contract_fac', 'contract_all_fac']
def run(ck, tier):
    ck.trusted += [
     'double arithmetic treated as exact real arithmetic (order of additions is free); NaN excluded',
     'meaning of the intrinsics: as compiled to LLVM IR by the intrinsic headers of clang-18; Arm SVE intrinsics as in vt/vecops.py (Arm C Language Extensions)',
     'glibc vector mathematics library (_ZGV*_exp, _ZGV*_pow) acts lane by lane',
     'the text for the Intel compiler (__INTEL_COMPILER) is not covered']
    ts = []
    for cfg in V.CONFIGS:
        L = V.CONFIGS[cfg]['L']
        for clang in (0, 1):
            for op in OPS: ts.append((task, (cfg, clang, op, tier, framework.SEED), L * (5 if op.startswith('contract') else 1)))
    res = framework.run_tasks(ts)
    E.collect(ck, res)
    ck.solver_s = sum(r.get('solver', 0) for r in res)
