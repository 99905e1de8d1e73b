"""Replays of violations against the real compiled code (address + undefined sanitizers on)."""
import os, subprocess, random, tempfile, shutil, json
from . import build, layout, eri, numref
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']

def cc_obj(variant, rel, out, vec=None, san=True):
    d = build.source(variant); v = build.VARIANTS[variant]
    stage = d + '/stage' if vec in (None, v['vec']) else build.restage(variant, vec)
    cmd = ['gcc', '-O1', '-g', '-c'] + (SAN if san else []) + build.cflags(d + '/src', stage, vec or v['vec']) + [os.path.join(d, 'src', rel), '-o', out]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    if r.returncode: raise build.BuildError(r.stdout.decode()[-1500:])

def compile_run(variant, rels, driver, timeout=120, keep=None, vec=None):
    """driver: C text with main(); returns (rc, output)"""
    d = build.source(variant); v = build.VARIANTS[variant]
    stage = d + '/stage' if vec in (None, v['vec']) else build.restage(variant, vec)
    tmp = tempfile.mkdtemp(prefix='replay-', dir=build.CACHE)
    try:
        objs = []
        for k, rel in enumerate(rels):
            o = os.path.join(tmp, 'o%d.o' % k); cc_obj(variant, rel, o, vec); objs.append(o)
        c = os.path.join(tmp, 'main.c')
        with open(c, 'w') as f: f.write(driver)
        exe = os.path.join(tmp, 'a.out')
        cmd = ['gcc', '-O1', '-g'] + SAN + build.cflags(d + '/src', stage, vec or v['vec']) + [c] + objs + ['-o', exe, '-lm', '-Wl,--unresolved-symbols=ignore-all']
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        if r.returncode: return None, r.stdout.decode()[-1500:]
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=1:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=1')
        r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=tmp)
        return r.returncode, r.stdout.decode(errors='replace')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def carr(name, vals, typ='double'):
    return 'static %s %s[%d] __attribute__((aligned(64))) = {%s};' % (typ, name, max(1, len(vals)), ', '.join(repr(v) if typ == 'double' else str(v) for v in vals) or '0')

def eri_driver(P, Q, fn, der, am, tol, worksize, lay, pm, qm):
    s = ['#include <stdio.h>', '#include <stdlib.h>', '#include <string.h>', '#include "simint/shell/shell.h"', '#include "simint/vectorization/vectorization.h"',
         'int %s(struct simint_multi_shellpair const, struct simint_multi_shellpair const, double, double * const, double * const);' % fn]
    for N in (P, Q):
        m = N.m; t = m.tag
        for f in N.f:
            if f != 'screen_max': s.append(carr(t + '_' + f, N.f[f]))
        s.append(carr(t + '_n', m.nprims, 'int'))
        for d, x in enumerate('xyz'): s.append(carr(t + '_AB_' + x, [N.AB(k, d) for k in range(len(m.nprims))]))
    s.append('static void fill(struct simint_multi_shellpair *S, int which){ memset(S, 0, sizeof *S);')
    for N, w in ((P, 0), (Q, 1)):
        m = N.m; t = m.tag
        s.append('if(which == %d){' % w)
        s.append('S->am1=%d; S->am2=%d; S->nprim=%d; S->nshell12=%d; S->nshell12_clip=%d;' % (m.am[0], m.am[1], sum(m.nprims), len(m.nprims), m.clip))
        s.append('S->nprim12=%s_n; S->screen_max=%r;' % (t, N.f['screen_max']))
        for f in list(N.f) + ['AB_x', 'AB_y', 'AB_z']:
            if f == 'screen_max': continue
            if f in ('alpha2', 'beta2') and f not in lay['simint_multi_shellpair'][0]: continue
            # exact-size aligned copies so that the sanitizer sees every overrun
            s.append('{ void *p_; if(posix_memalign(&p_, 64, sizeof(%s_%s))) exit(9); memcpy(p_, %s_%s, sizeof(%s_%s)); S->%s = p_; }' % (t, f, t, f, t, f, f))
        s.append('}')
    s.append('}')
    nc = 1
    for l in am: nc *= eri.ncart(l)
    n = nc * (12 if der else 1) * P.m.clip * Q.m.clip
    s.append('''int main(void){ struct simint_multi_shellpair P, Q; fill(&P,0); fill(&Q,1);
 double *work, *out; if(posix_memalign((void**)&work, 64, 8ul*%d) || posix_memalign((void**)&out, 64, 8ul*%d)) return 9;
 memset(work, 0, 8ul*%d);
 for(long i = 0; i < %d; i++) out[i] = -777.0;
 int r = %s(P, Q, %r, work, out);
 printf("RET %%d\\n", r);
 for(long i = 0; i < %d; i++) printf("V %%.17g\\n", out[i]);
 fflush(stdout); _Exit(0); }''' % (worksize, n, worksize, n, fn, tol, n))
    return '\n'.join(s) + '\n'

def eri_replay(variant, der, am, conf, fn, rels, seed=1, tol=0.0, worksize=None, tiny=0.0):
    """returns dict(reproduced, detail)"""
    lay = layout.get(variant)
    rng = random.Random(seed)
    hasder = 'alpha2' in lay['simint_multi_shellpair'][0]
    bra, bc, ket, kc = conf
    pm = eri.Pair('P', bra, bc, am[0], am[1], lay, der=hasder); qm = eri.Pair('Q', ket, kc, am[2], am[3], lay, der=hasder)
    P = numref.NumPair(pm, rng, tiny); Q = numref.NumPair(qm, rng, tiny)
    fn = fn.lstrip('@')
    skip = ('ostei_init.c', 'ostei_deriv1_init.c', 'simint_init.c', 'simint_eri.c', 'ostei/ostei.c')
    rl = [r for r in rels if not r.endswith(skip)]
    if 'simint/boys/boys_shortgrid.c' not in rl: rl.append('simint/boys/boys_shortgrid.c')
    if 'simint/shell/shell_constants.c' not in rl: rl.append('simint/shell/shell_constants.c')
    for extra in ('simint/recur_lookup.c',):
        if extra not in rl: rl.append(extra)
    try:
        rc, txt = compile_run(variant, rl, eri_driver(P, Q, fn, der, am, tol, worksize or 100000, lay, pm, qm))
    except (build.BuildError, subprocess.TimeoutExpired) as e:
        return dict(reproduced=False, detail='could not build or run the replay: %s' % str(e)[:400])
    if rc is None: return dict(reproduced=False, detail='link failed: ' + txt[-500:])
    vals = [float(l[2:]) for l in txt.splitlines() if l.startswith('V ')]
    if rc != 0 or 'ERROR: AddressSanitizer' in txt or 'runtime error' in txt:
        i = max(txt.find('ERROR: Addr'), txt.find('runtime error'), 0)
        return dict(reproduced=True, detail='the real code aborts (exit %s): %s' % (rc, txt[max(0, i - 200):i + 700]))
    ref = numref.reference(P, Q, der, am); slack = numref.slack(P, Q, der, am, tol) if tol > 0 else [0.0] * len(ref)
    scale = max([abs(x) for x in ref] + [1e-30])
    bad = [(k, v, r) for k, (v, r) in enumerate(zip(vals, ref)) if not abs(v - r) <= 1e-8 * scale + slack[k]]
    ret = [l for l in txt.splitlines() if l.startswith('RET')]
    want = 'RET %d' % (bc * kc)
    if bad: return dict(reproduced=True, detail='%d of %d values differ from the reference; first: index %d real code %.15g reference %.15g' % (len(bad), len(ref), bad[0][0], bad[0][1], bad[0][2]))
    if ret and ret[0] != want: return dict(reproduced=True, detail='returned %s, expected %s' % (ret[0], want))
    return dict(reproduced=False, detail='the real code agrees with the reference on this input (%d values)' % len(ref))
