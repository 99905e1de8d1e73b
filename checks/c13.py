"""C13: accuracy of the Boys function, every order, every argument, every evaluation path, every lane."""
import itertools, random, time
from fractions import Fraction
from vt import framework, vecops as V, boysv as B, terms as T, build
from vt.execu import *
from . import eri_common as E
mp, mpf = B.mp, B.mpf
FULL = (3, 4, 29)
NATIVE = mpf(10) ** -12 * 2     # limit for the compiled code: the claimed accuracy and rounding

def patterns(L, K, tier, full, rng):
    """classes of the lanes (0..K-1); (list, are these all)"""
    if L == 1: return [[k] for k in range(K)], True
    if K ** L <= (100 if tier != 'thorough' else 7000) and (full or K ** L <= 10): return [list(p) for p in itertools.product(range(K), repeat=L)], True
    ps = [[k] * L for k in range(K)]
    far = [k for k in range(K) if k % 2 == 0]
    pos = range(L) if L <= 8 else (0, L // 2, L - 1)
    for a in far:
        for b in (range(K) if L <= 8 else far):
            if a != b:
                for j in pos: ps.append([a] * j + [b] + [a] * (L - 1 - j))
    if full and L <= 8: ps += [list(p) for p in itertools.product((0, K - 1), repeat=L)]
    for _ in range(4): ps.append([rng.randrange(K) for _ in range(L)])
    out = []
    for p in ps:
        if p not in out: out.append(p)
    return out, False

def task(n, cfgs, tier, seed):
    t0 = time.process_time(); tab = B.table(); J = B.Judge(tab); out = []
    for cfg, clang, extra in cfgs:
        L = V.CONFIGS[cfg]['L']; rng = random.Random(seed * 31 + n * 7 + L)
        r = dict(name='%s%s/%s/n=%d' % (cfg, ' '.join(('',) + extra), 'clang' if clang else 'gcc', n), obl={}, mem=0, instr=0, bad=[], solver=0.0, fn='@boys_F_split', runs=0, worst='0')
        try:
            worst = mpf(0); consts = []; first = [[0] * L]
            while True:   # discover the constants that the code compares the argument with
                pats, al = patterns(L, 2 * len(consts) + 1, tier, tier == 'thorough' or not extra and (n in FULL and (L != 8 or cfg == 'COMMONAVX512' and n != 29) or L == 2), rng)
                new = set(); und = []
                for p in pats:
                    q = B.run(cfg, clang, n, consts, p, J, extra)
                    if 'consts' in q: new = q['consts']; break
                    r['runs'] += 1; r['mem'] += q['mem']; r['instr'] += q['instr']; worst = max(worst, q['worst'])
                    r['obl']['accuracy'] = r['obl'].get('accuracy', 0) + q['obl']
                    r['obl']['lane'] = r['obl'].get('lane', 0) + q['obl']
                    if q['unknown'] or q['bad']: und.append((p, q))
                if not new: break
                consts = sorted(set(consts) | new)
                if len(consts) > 6: raise Unsupported('compares the argument with more than 6 constants')
            r['worst'] = mp.nstr(worst, 3); r['classes'] = [str(c) for c in consts]
            if not al: r['sampled'] = True
            if und: raise Undecided(und)
        except Undecided as e:
            p, q = e.args[0][0]
            pts = [(b[3], b[4]) for p, q in e.args[0] for b in q['bad']]
            why = 'order %d of lane %d has relative error up to %s at x = %s' % (q['bad'][0][0], q['bad'][0][1], mp.nstr(q['bad'][0][2], 4), mp.nstr(q['bad'][0][3], 8)) if q['bad'] else 'order %d of lane %d: the form %s is not one the error bounds cover' % q['unknown'][0]
            standin(r, cfg, clang, n, extra, pts, why)
        except Violation as e:
            standin(r, cfg, clang, n, extra, [], str(e), e.kind)
        except Unsupported as e: standin(r, cfg, clang, n, extra, [], str(e)[:200])
        except RecursionError: standin(r, cfg, clang, n, extra, [], 'recursion')
        out.append(r)
    for r in out: r['cpu'] = (time.process_time() - t0) / len(out)
    return dict(name='n=%d' % n, many=out)

class Undecided(Exception): pass

_nat = {}
def standin(r, cfg, clang, n, extra, pts, why, kind=None):
    """the compiled code on a dense set of arguments; a proved failure (kind) stays one even when this finds nothing"""
    k = (cfg, clang, n, extra)
    if k not in _nat: _nat[k] = native(cfg, clang, n, extra, pts)
    rep = _nat[k]
    if rep.get('reproduced'): r['bad'].append((kind or 'accuracy', why)); r['replay'] = rep
    elif kind: r['bad'].append((kind, why)); r['replay'] = rep
    else: r['bounded'] = why[:300] + (' (bounded stand-in: compiled code at %d arguments)' % rep['n'] if rep.get('ran') else ' (not executed: %s)' % rep['detail'][:80])

MAIN = r'''
#include <stdio.h>
int main(void)
{
  int N; FILE *f = fopen("%s/data", "r"); if(!f || fscanf(f, "%%d", &N) != 1) return 9;
  static SIMINT_DBLTYPE F[%d + 1]; static double x[SIMINT_SIMD_LEN] __attribute__((aligned(512)));
  for(int i = 0; i < N; i++) {
    for(int k = 0; k < SIMINT_SIMD_LEN; k++) if(fscanf(f, "%%la", &x[k]) != 1) return 9;
    for(int k = 0; k < (%d+1)*SIMINT_SIMD_LEN; k++) ((double *)F)[k] = 1e300;
    w_boys(F, x, %d);
    for(int k = 0; k < (%d+1)*SIMINT_SIMD_LEN; k++) printf("%%a ", ((double *)F)[k]);
  }
  return 0;
}
'''
def grid(n, seed=1):
    rng = random.Random(seed); xs = []
    for i in range(366): xs += [i / 10.0, i / 10.0 + 0.05, i / 10.0 + 0.0499999, rng.uniform(i / 10.0, i / 10.0 + 0.1)]
    import math
    s = 36.5; up = math.nextafter(s, 99); dn = math.nextafter(s, 0)
    xs = [x for x in xs if x < 60] + [s, up, dn, 36.45, math.nextafter(36.45, 99), 36.55, 36.6, 1e-300, 5e-324, 1e-16, 1e-8]
    for i in range(120): xs.append(36.5 * 1.07 ** i)
    for e in range(2, 300, 7): xs.append(10.0 ** e)
    return xs

def native(cfg, clang, n, extra, pts=()):
    if cfg not in V.X86: return dict(reproduced=False, detail='no processor of this kind here')
    L = V.CONFIGS[cfg]['L']; rng = random.Random(n); xs = grid(n)
    for x, dom in pts[:20]: xs.append(float(x))
    rows = []
    for i in range(0, len(xs), L): rows.append((xs[i:i + L] + xs[:L])[:L])       # neighbours
    for _ in range(len(xs) if L > 1 else 0): rows.append([rng.choice(xs) for _ in range(L)])   # mixed lanes
    data = '%d\n' % len(rows) + '\n'.join(' '.join(x.hex() for x in r) for r in rows)
    import tempfile
    main = MAIN % ('.', n, n, n, n)
    rc, out = V.native(cfg, clang, main, 'boys', extra, [build.REPO + '/skel/simint/boys/boys_shortgrid.c'], data)
    if rc is None: return dict(reproduced=False, detail=out[-400:])
    if rc == -4: return dict(reproduced=False, detail='the processor lacks these instructions')
    if rc != 0: return dict(reproduced=True, detail='boys_F_split compiled for %s fails: %s' % (cfg, out[-500:]))
    v = [float.fromhex(w) for w in out.split()]; i = 0; worst = (mpf(0), None)
    lim = NATIVE
    for r in rows:
        fs = [B.ref(mpf(x)) for x in r]
        for o in range(n + 1):
            for k in range(L):
                g = v[i]; i += 1; f = fs[k][o]
                if f < mpf(10) ** -290: continue
                e = abs(mpf(g) - f) / f if g == g and abs(g) < 1e299 else mp.inf
                if e > worst[0]: worst = (e, (r, o, k, g, f))
    if worst[0] > lim:
        r, o, k, g, f = worst[1]
        return dict(reproduced=True, detail='compiled for %s (%s)%s, order %d of %d, lane %d of x = %r: %.17g instead of %s (relative error %s)' % (cfg, 'clang' if clang else 'gcc', ' '.join(('',) + extra), o, n, k, r, g, mp.nstr(f, 17), mp.nstr(worst[0], 3)))
    return dict(reproduced=False, ran=True, n=len(rows) * L, detail='largest relative error of the compiled code %s' % mp.nstr(worst[0], 3))

def sweep(cfg, clang, n, extra):
    """rounding: the compiled code on a dense set of arguments (thorough)"""
    r = dict(name='rounding/%s/%s/n=%d' % (cfg, 'clang' if clang else 'gcc', n), obl={}, mem=0, instr=0, bad=[], solver=0.0, fn='@boys_F_split')
    rep = native(cfg, clang, n, extra)
    if rep.get('reproduced'): r['bad'].append(('rounding', rep['detail'])); r['replay'] = rep
    r['bounded'] = 'floating-point rounding: ' + rep['detail']
    return r

def run(ck, tier):
    ck.trusted += [
     'double arithmetic treated as exact real arithmetic; the rounding of the compiled code is only compared at sample points (bounded)',
     'exp, sqrt exact; glibc vector mathematics library acts lane by lane',
     'Boys function, incomplete gamma function: mpmath with 60 digits; Lagrange bound of the Taylor remainder; F_n decreasing in x, x exp(x) F_n(x) increasing, Q(n+1/2,x) decreasing (textbook facts)',
     'values below the smallest double (arguments beyond about 1e10 for the highest orders) underflow and are not covered',
     'the text for the Intel compiler (__INTEL_COMPILER) is not covered']
    vec = [(c, cl, ()) for c in V.CONFIGS for cl in (0, 1)]
    nov = [(c, cl, ('-DSIMINT_BOYS_NOVECTOR',)) for c in ('SCALAR', 'SSE', 'AVX2', 'COMMONAVX512') for cl in (0, 1)]
    same = [c for c in vec + nov if c[1] and V.same_text(c[0], 'boys', c[2])]
    ck.notes += ['%s: clang and gcc get the same text' % ' '.join((c[0],) + c[2]) for c in same]
    vec = [c for c in vec if c not in same]; nov = [c for c in nov if c not in same]
    ts = []
    for n in range(B.NMAX + 1):
        for Ls in ((1, 2), (4,), (8,), (16, 32)):
            g = [c for c in vec + nov if V.CONFIGS[c[0]]['L'] in Ls]
            if n in FULL or tier == 'thorough':   # the long ones apart
                for c in g: ts.append((task, (n, [c], tier, framework.SEED), 5 * Ls[-1] + n))
            else: ts.append((task, (n, g, tier, framework.SEED), Ls[-1] + n))
    for n in (range(B.NMAX + 1) if tier == 'thorough' else (3, 4, 29)):
        for c in (V.X86 if tier == 'thorough' else ['SCALAR', 'AVX2']): ts.append((sweep, (c, 0, n, ()), 1))
    res = framework.run_tasks(ts); flat = []
    for r in res: flat += r['many'] if 'many' in r else [r]
    E.collect(ck, flat)
    ck.extra['worst_relative_error'] = max((float(r.get('worst', 0)) for r in flat), default=0)
    ck.extra['runs'] = sum(r.get('runs', 0) for r in flat)
    ck.extra['switch_points'] = sorted({c for r in flat for c in r.get('classes', [])})
    sm = sorted({r['name'].split('/')[0] for r in flat if r.get('sampled')})
    if sm: ck.bounded.append('all argument classes of every single lane are covered, but only selected combinations of classes of the lanes for: ' + ', '.join(sm))
