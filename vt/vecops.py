"""The operations of the vectorisation headers, one wrapper function each, extracted for every width.

The wrapper file only names the macros and functions of the headers; what is executed (and, for
replays, compiled) is the header text itself.
"""
import os, subprocess, hashlib, tempfile, shutil
from . import build, irparse, terms as T
from .execu import *
from . import execu

# name -> (macro, flags, targets clang/gcc path)
CONFIGS = {
    'SCALAR':        dict(vec='SCALAR', flags=[], L=1),
    'SSE':           dict(vec='SSE', flags=['-mssse3'], L=2),
    'SSE+FMA':       dict(vec='SSE', flags=['-mssse3', '-mfma', '-DSIMINT_FMA'], L=2),
    'AVX':           dict(vec='AVX', flags=['-mavx'], L=4),
    'AVX2':          dict(vec='AVX2', flags=['-mavx2', '-mfma'], L=4),
    'COMMONAVX512':  dict(vec='COMMONAVX512', flags=['-mavx512f', '-mavx512cd', '-mfma'], L=8),
    'MICAVX512':     dict(vec='MICAVX512', flags=['-mavx512f', '-mavx512cd', '-mfma'], L=8),
    'ASIMD':         dict(vec='ASIMD', flags=[], L=2, target='aarch64-linux-gnu'),
}
for _b in (128, 256, 512, 1024, 2048):
    CONFIGS['SVE%d' % _b] = dict(vec='SVE', flags=['-march=armv8-a+sve', '-msve-vector-bits=%d' % _b], L=_b // 64, target='aarch64-linux-gnu', sve=_b // 64)
X86 = [c for c in CONFIGS if 'target' not in CONFIGS[c]]

WRAP = r'''
#include <stdlib.h>
#include <math.h>
#include "simint/vectorization/vectorization.h"
#define V SIMINT_DBLTYPE
typedef V va_ __attribute__((may_alias));
#define IN(p) SIMINT_DBLLOAD(p, 0)
#define OUT(x) (*(va_ *)r = (x))
int w_len(void) { return SIMINT_SIMD_LEN; }
int w_nshell(void) { return SIMINT_NSHELL_SIMD; }
int w_aligndbl(void) { return (int)SIMINT_SIMD_ALIGN_DBL; }
int w_alignint(void) { return (int)SIMINT_SIMD_ALIGN_INT; }
int w_round(int x) { return SIMINT_SIMD_ROUND(x); }
void w_load(double *r, const double *a, int i) { OUT(SIMINT_DBLLOAD(a, i)); }
void w_set1(double *r, double a) { OUT(SIMINT_DBLSET1(a)); }
void w_neg(double *r, const double *a) { OUT(SIMINT_NEG(IN(a))); }
void w_add(double *r, const double *a, const double *b) { OUT(SIMINT_ADD(IN(a), IN(b))); }
void w_sub(double *r, const double *a, const double *b) { OUT(SIMINT_SUB(IN(a), IN(b))); }
void w_mul(double *r, const double *a, const double *b) { OUT(SIMINT_MUL(IN(a), IN(b))); }
void w_div(double *r, const double *a, const double *b) { OUT(SIMINT_DIV(IN(a), IN(b))); }
void w_sqrt(double *r, const double *a) { OUT(SIMINT_SQRT(IN(a))); }
void w_fmadd(double *r, const double *a, const double *b, const double *c) { OUT(SIMINT_FMADD(IN(a), IN(b), IN(c))); }
void w_fmsub(double *r, const double *a, const double *b, const double *c) { OUT(SIMINT_FMSUB(IN(a), IN(b), IN(c))); }
void w_exp(double *r, const double *a) { OUT(SIMINT_EXP(IN(a))); }
void w_pow(double *r, const double *a, const double *b) { OUT(SIMINT_POW(IN(a), IN(b))); }
/* macro arguments that are expressions: the macros must not depend on their arguments being single names */
void w_expr(double *r, const double *a, const double *b, const double *c)
{
    V x = IN(a), y = IN(b), z = IN(c);
    OUT(SIMINT_SUB(SIMINT_MUL(SIMINT_ADD(x, y), SIMINT_SUB(y, z)), SIMINT_FMSUB(SIMINT_NEG(SIMINT_ADD(x, z)), SIMINT_SUB(x, y), SIMINT_MUL(z, SIMINT_SUB(z, x)))));
}
void w_expr2(double *r, double a, double b)
{
    OUT(SIMINT_DIV(SIMINT_DBLSET1(a - b), SIMINT_SUB(SIMINT_DBLSET1(a + b), SIMINT_NEG(SIMINT_DBLSET1(b - 1.0)))));
}
void w_contract(int n, const int *o, const double *s, double *d) { contract(n, o, (const V *)s, d); }
void w_contract_all(int n, const double *s, double *d) { contract_all(n, (const V *)s, d); }
void w_contract_fac(int n, const double *f, const int *o, const double *s, double *d) { contract_fac(n, IN(f), o, (const V *)s, d); }
void w_contract_all_fac(int n, const double *f, const double *s, double *d) { contract_all_fac(n, IN(f), (const V *)s, d); }
double w_min(const double *a) { return vector_min(IN(a)); }
double w_max(const double *a) { return vector_max(IN(a)); }
void w_mask(double *r, int n, double *a) { OUT(mask_load(n, a)); }
#ifdef HAVE_COUNT
int w_count(const double *a, double tol) { return count_prim_screen_survival(IN(a), tol); }
#endif
void *w_alloc(size_t n) { return SIMINT_ALLOC(n); }
void w_free(void *p) { SIMINT_FREE(p); }
'''

BOYS = r'''
#include "simint/boys/boys.h"
int w_len(void) { return SIMINT_SIMD_LEN; }
void w_boys(SIMINT_DBLTYPE *F, const double *x, int n) { boys_F_split(F, SIMINT_DBLLOAD(x, 0), n); }
'''
FILES = {'wrap': WRAP, 'boys': BOYS}

_h = {}
def skel_hash():
    if 's' not in _h: _h['s'] = build._hash_tree([build.REPO + '/skel/simint/vectorization', build.REPO + '/skel/simint/boys'], [os.path.abspath(__file__), os.path.abspath(build.__file__)])
    return _h['s']

def stage(cfg):
    d = os.path.join(build.CACHE, 'vec-%s' % skel_hash(), cfg)
    with build.Lock('vec-%s-%s' % (skel_hash(), cfg)):
        if not os.path.exists(d + '/ok'):
            vec = CONFIGS[cfg]['vec']
            os.makedirs(d + '/simint/vectorization', exist_ok=True)
            with open(build.REPO + '/skel/simint/vectorization/vector_config.h.in') as f: s = f.read()
            s = s.replace('@SIMINT_VECTOR@', vec) + '\n#define SIMINT_%s\n' % vec
            with open(d + '/simint/vectorization/vector_config.h', 'w') as f: f.write(s)
            for n, t in FILES.items():
                with open(d + '/%s.c' % n, 'w') as f: f.write(t)
            if 'target' in CONFIGS[cfg]:   # the C library headers here are those of this machine: give them the one file they miss
                os.makedirs(d + '/gnu', exist_ok=True); open(d + '/gnu/stubs-32.h', 'w').close()
            open(d + '/ok', 'w').close()
    return d

def has_count(cfg):
    """does this configuration define count_prim_screen_survival (the scalar and SSE headers do not)"""
    d = stage(cfg); c = CONFIGS[cfg]
    r = subprocess.run([build.CLANG, '-E', '-P', '-w', '-I' + d, '-I' + build.REPO + '/skel'] + tgt(c) + c['flags'] + [d + '/wrap.c'], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode: raise build.BuildError(r.stderr.decode(errors='replace')[-1500:])
    return b'count_prim_screen_survival' in r.stdout

def tgt(c): return ['--target=' + c['target'], '-isystem', '/usr/include/x86_64-linux-gnu'] if c.get('target') else []

_mods = {}
def same_text(cfg, unit, extra=()):
    """do the headers give clang and gcc the same text"""
    d = stage(cfg); t = []
    for cl in (0, 1):
        module(cfg, cl, unit, extra)
        with open(os.path.join(d, '%s%s-%s.ll' % (os.path.basename(unit).replace('.c', ''), ''.join(extra), 'clang' if cl else 'gcc'))) as f: t.append(f.read())
    return t[0] == t[1]

def module(cfg, clang, unit='wrap', extra=()):
    k = (cfg, clang, unit, tuple(extra))
    if k not in _mods: _mods[k] = _module(cfg, clang, unit, extra)
    return _mods[k]
def _module(cfg, clang, unit='wrap', extra=()):
    """clang: take the text the headers give to clang; otherwise the one they give to gcc"""
    d = stage(cfg); c = CONFIGS[cfg]
    p = os.path.join(d, '%s%s-%s.ll' % (os.path.basename(unit).replace('.c', ''), ''.join(extra), 'clang' if clang else 'gcc'))
    if not os.path.exists(p):
        fl = c['flags'] + (['-DHAVE_COUNT'] if unit == 'wrap' and has_count(cfg) else []) + tgt(c) + list(extra)
        cf = unit if unit.startswith('/') else d + '/%s.c' % unit
        cmd = [build.CLANG, '-O0', '-std=gnu11', '-w', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-ffp-contract=off', '-fno-math-errno', '-DNDEBUG']
        if not clang: cmd.append('-U__clang__')
        cmd += ['-I' + d, '-I' + build.REPO + '/skel'] + fl + ['-S', '-emit-llvm', '-o', '-', cf]
        p1 = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p1.returncode: raise build.BuildError(p1.stderr.decode(errors='replace')[-1500:])
        p2 = subprocess.run([build.OPT, '-S', '-passes=' + build.PASSES, '-', '-o', '-'], input=p1.stdout, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p2.returncode: raise build.BuildError(p2.stderr.decode(errors='replace')[-1500:])
        with open(p + '.%d' % os.getpid(), 'w') as f: f.write(p2.stdout.decode())
        os.replace(p + '.%d' % os.getpid(), p)
    with open(p) as f: t = f.read()
    if c.get('sve'):
        # the vector length is fixed by the compiler option, so scalable types have a known number of lanes
        t = t.replace('<vscale x 2 x double>', '<%d x double>' % c['sve']).replace('<vscale x 2 x i1>', '<%d x i1>' % c['sve']).replace('<vscale x 16 x i1>', '<%d x i1>' % c['sve'])
    return irparse.parse(t, unit)

def veclib(name):
    """the vector mathematics library of glibc: assumed to act lane by lane"""
    def h(ex, args):
        L = {'b': 2, 'c': 4, 'd': 4, 'e': 8}[name[5]]
        if name.endswith('_exp'): return T.vec([execu.b_exp(ex, [T.lane(args[0], k)]) for k in range(L)])
        return T.vec([execu.powr(ex, [T.lane(args[0], k), T.lane(args[1], k)]) for k in range(L)])
    return h
VECLIB = {n: veclib(n) for n in ('@_ZGVbN2v_exp', '@_ZGVcN4v_exp', '@_ZGVdN4v_exp', '@_ZGVeN8v_exp', '@_ZGVbN2vv_pow', '@_ZGVcN4vv_pow', '@_ZGVdN4vv_pow', '@_ZGVeN8vv_pow')}

def _lanes(x, L): return [T.lane(x, k) for k in range(L)]
def arm(cfg):
    """meaning of the Arm intrinsics that are not generic LLVM ones (Arm C Language Extensions)"""
    L = CONFIGS[cfg]['L']; S = '@llvm.aarch64.sve.'
    def bin(f):
        # merging operation: inactive lanes keep the first operand
        def h(ex, a):
            p, x, y = a; X, Y = _lanes(x, L), _lanes(y, L)
            return T.vec([f(X[k], Y[k]) if ex.truth(p[k]) else X[k] for k in range(L)])
        return h
    def tri(f):
        def h(ex, a):
            p = a[0]; X, Y, Z = (_lanes(v, L) for v in a[1:])
            return T.vec([f(X[k], Y[k], Z[k]) if ex.truth(p[k]) else X[k] for k in range(L)])
        return h
    def un(f):
        def h(ex, a):
            o, p, x = a; O, X = _lanes(o, L), _lanes(x, L)
            return T.vec([f(ex, X[k]) if ex.truth(p[k]) else O[k] for k in range(L)])
        return h
    def dup(ex, a): return T.vec([a[2] if ex.truth(a[1][k]) else T.lane(a[0], k) for k in range(L)])
    def ptrue(ex, a):
        if a[0] != 31: raise Unsupported('predicate pattern %r' % (a[0],))
        return tuple([1] * L)
    def ld1(ex, a): return T.vec([ex.load(Ptr(a[1].obj, a[1].off + 8 * k), ('double',), 8, 8) if ex.truth(a[0][k]) else T.ZERO for k in range(L)])
    def whilelt(ex, a): return tuple(1 if a[0] + k < a[1] else 0 for k in range(L))
    def faddv(ex, a):
        acc = T.ZERO
        for k in range(L):
            if ex.truth(a[0][k]): acc = T.add(acc, T.lane(a[1], k))
        return acc
    def ext(name):
        def h(ex, a):
            acc = None
            for k in range(L):
                if ex.truth(a[0][k]): acc = T.lane(a[1], k) if acc is None else T.func(name, acc, T.lane(a[1], k))
            return acc
        return h
    def neonadd(ex, a):
        acc = T.ZERO
        for k in range(L): acc = T.add(acc, T.lane(a[0], k))
        return acc
    same = lambda ex, a: a[0]
    return {'@llvm.aarch64.neon.faddv.f64.v2f64': neonadd,
        S + 'convert.from.svbool.nxv2i1': same, S + 'convert.to.svbool.nxv2i1': same,
        S + 'dup.nxv2f64': dup, S + 'ptrue.nxv2i1': ptrue, S + 'ld1.nxv2f64': ld1, S + 'whilelt.nxv2i1.i32': whilelt,
        S + 'fadd.nxv2f64': bin(T.add), S + 'fsub.nxv2f64': bin(T.sub), S + 'fmul.nxv2f64': bin(T.mul), S + 'fdiv.nxv2f64': bin(T.div),
        S + 'fneg.nxv2f64': un(lambda ex, x: T.neg(x)), S + 'fsqrt.nxv2f64': un(execu.sqrtr),
        S + 'fmad.nxv2f64': tri(lambda x, y, z: T.add(T.mul(x, y), z)), S + 'fnmsb.nxv2f64': tri(lambda x, y, z: T.sub(T.mul(x, y), z)),
        S + 'fmla.nxv2f64': tri(lambda x, y, z: T.add(x, T.mul(y, z))), S + 'fmls.nxv2f64': tri(lambda x, y, z: T.sub(x, T.mul(y, z))),
        S + 'fmsb.nxv2f64': tri(lambda x, y, z: T.sub(z, T.mul(x, y))), S + 'fnmad.nxv2f64': tri(lambda x, y, z: T.neg(T.add(z, T.mul(x, y)))),
        S + 'fnmla.nxv2f64': tri(lambda x, y, z: T.neg(T.add(x, T.mul(y, z)))), S + 'fnmls.nxv2f64': tri(lambda x, y, z: T.sub(T.mul(y, z), x)),
        S + 'faddv.nxv2f64': faddv, S + 'fmaxv.nxv2f64': ext('max'), S + 'fminv.nxv2f64': ext('min'), S + 'fmaxnmv.nxv2f64': ext('max'), S + 'fminnmv.nxv2f64': ext('min'),
        '@llvm.vector.extract.v%df64.nxv2f64' % L: same, '@llvm.vector.insert.nxv2f64.v%df64' % L: lambda ex, a: a[1]}

def contracts(cfg):
    d = dict(VECLIB)
    if CONFIGS[cfg].get('target'): d.update(arm(cfg))
    return d

def native(cfg, clang, main, unit='wrap', extra=(), files=(), data=None):
    """compile the wrapper with the compiler the text is meant for and run it; returns (rc, output)"""
    d = stage(cfg); c = CONFIGS[cfg]
    tmp = tempfile.mkdtemp(prefix='vecops-', dir=build.CACHE)
    try:
        with open(tmp + '/main.c', 'w') as f: f.write('#include "%s/%s.c"\n%s' % (d, unit, main))
        if data is not None:
            with open(tmp + '/data', 'w') as f: f.write(data)
        cmd = [build.CLANG if clang else 'gcc', '-O1', '-g', '-w', '-std=gnu11', '-ffp-contract=off', '-I' + d, '-I' + build.REPO + '/skel'] + c['flags'] + (['-DHAVE_COUNT'] if unit == 'wrap' and has_count(cfg) else []) + list(extra)
        if not clang: cmd += ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']
        r = subprocess.run(cmd + [tmp + '/main.c'] + list(files) + ['-o', tmp + '/a.out', '-lmvec', '-lm'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        if r.returncode: return None, r.stdout.decode(errors='replace')[-1000:]
        r = subprocess.run([tmp + '/a.out'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300, cwd=tmp)
        return r.returncode, r.stdout.decode(errors='replace')
    finally: shutil.rmtree(tmp, ignore_errors=True)
