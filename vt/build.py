"""Mechanical extraction: generator build, code generation, and LLVM IR of the real sources.

Everything is rebuilt from /repo's current working tree.  A content-addressed cache (keyed by
the hash of every file that feeds the build) under /verif/.cache avoids repeated work.
What the extraction drops: see DESIGN.md ("Extraction").
"""
import os, sys, re, subprocess, hashlib, shutil, json, fcntl, time
from . import irparse

REPO = os.environ.get('SIMINT_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, '.cache')

def _q(s): return [tuple(map(int, x)) for x in s.split()]

class Variants(dict):
    """iteration yields the complete trees only; the 'tall' trees (a few classes of high angular momentum) are asked for by name"""
    def __iter__(self): return (k for k in dict.__iter__(self) if 'only' not in self[k])

VARIANTS = Variants({
    'general':  dict(l=3, opts=['-l', '3', '-p', '3'], vec='SSE'),
    'external': dict(l=2, opts=['-l', '2', '-p', '2', '-ve', '0', '-vg', '5', '-he', '0', '-hg', '20'], vec='SCALAR'),
    'inline':   dict(l=2, opts=['-l', '2', '-p', '2', '-ve', '20', '-vg', '20', '-he', '20', '-hg', '20'], vec='AVX2'),
    # small trees used for the other vector widths and option combinations
    'wide':     dict(l=1, opts=['-l', '1', '-p', '1', '-ve', '20', '-vg', '20', '-he', '20', '-hg', '20'], vec='COMMONAVX512'),
    'noder':    dict(l=1, opts=['-l', '1', '-p', '2'], vec='AVX', d=0),
    # trees in which only the listed classes are generated (create.py runs unchanged; see tall_generators)
    'tallg':    dict(l=5, opts=['-l', '5', '-p', '6'], vec='SCALAR', only=_q('4500 0045 4000 0400 0040 0004 5000 0500 0050 0005 4040 0404 4004 0440 4100 1400 0041 0014 4110 2220 3300 0033 4020'),
                     only1=_q('4000 0400 0040 0004 5000 0500 0005 3100 0301 3010')),
    'talle':    dict(l=5, opts=['-l', '5', '-p', '6', '-ve', '0', '-vg', '99', '-he', '0', '-hg', '99'], vec='SCALAR',
                     only=_q('4000 0400 0040 0004 5000 0500 0050 0005 4040 0404 4100 1400 0041 0014 1140 4011 1150 1144 3300 0033 4400 0044 2240 4022 5010 1050 0510 1005'),
                     only1=_q('4000 0400 0040 0004 3100 0031 1130 3011')),
    'tallm':    dict(l=4, opts=['-l', '4', '-p', '4', '-ve', '2', '-vg', '4', '-he', '3', '-hg', '5'], vec='AVX', only=_q('4000 0400 0040 0004 4010 0401 4100 0014 2200 0022 3110 1131 4111 3300 0033'),
                     only1=_q('4000 0004 2100 0021 2110 3000 0300')),
    'tallk':    dict(l=7, opts=['-l', '7', '-p', '3'], vec='SCALAR', only=_q('6000 7000 6010 7100 6100 5500 6600 7011 5050'), only1=_q('6000 7000 5100 0600')),
    'tallx':    dict(l=7, opts=['-l', '7', '-p', '8', '-ve', '0', '-vg', '99', '-he', '0', '-hg', '99'], vec='SCALAR', d=0,
                     only=_q('6000 0600 7000 0070 1160 6011 1155 5511 1166 1177 3344'), only1=[]),
})
VECFLAGS = {'SCALAR': [], 'SSE': ['-mssse3'], 'AVX': ['-mavx'], 'AVX2': ['-mavx2', '-mfma'],
            'COMMONAVX512': ['-mavx512f', '-mavx512cd', '-mfma']}
SIMD = {'SCALAR': 1, 'SSE': 2, 'AVX': 4, 'AVX2': 4, 'COMMONAVX512': 8}

class BuildError(Exception): pass

def _hash_tree(dirs, files=()):
    h = hashlib.sha256()
    names = list(files)
    for d in dirs:
        for dp, dn, fn in os.walk(d):
            dn[:] = sorted(x for x in dn if x not in ('__pycache__', '.git', '_build'))
            for f in sorted(fn): names.append(os.path.join(dp, f))
    for n in names:
        h.update(n.encode()); h.update(b'\0')
        with open(n, 'rb') as fh: h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]

_h = {}
def gen_hash():
    if 'g' not in _h: _h['g'] = _hash_tree([REPO + '/generator'], [REPO + '/CMakeLists.txt'])
    return _h['g']
def tree_hash():
    if 't' not in _h: _h['t'] = hashlib.sha256((gen_hash() + _hash_tree([REPO + '/skel'], [REPO + '/create.py'])).encode()).hexdigest()[:20]
    return _h['t']

class Lock:
    def __init__(self, name):
        os.makedirs(CACHE, exist_ok=True); self.p = os.path.join(CACHE, name + '.lock')
    def __enter__(self): self.f = open(self.p, 'w'); fcntl.flock(self.f, fcntl.LOCK_EX); return self
    def __exit__(self, *a): self.f.close()

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        raise BuildError('command failed: %s\n%s' % (' '.join(map(str, cmd)), r.stdout.decode(errors='replace')[-3000:]))
    return r.stdout.decode(errors='replace')

def prune(keep):
    """drop stale cache entries"""
    try:
        ents = [os.path.join(CACHE, e) for e in os.listdir(CACHE) if os.path.isdir(os.path.join(CACHE, e))]
    except OSError: return
    ents.sort(key=os.path.getmtime)
    for e in ents[:-6]:
        if os.path.basename(e) not in keep: shutil.rmtree(e, ignore_errors=True)

def generator():
    d = os.path.join(CACHE, 'gen-' + gen_hash())
    with Lock('gen-' + gen_hash()):
        if not os.path.exists(d + '/ok'):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            env = dict(os.environ, CC='gcc', CXX='g++')
            for k in ('CFLAGS', 'CXXFLAGS', 'LDFLAGS'): env.pop(k, None)
            run(['cmake', '-S', REPO, '-B', d, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=None', '-DCMAKE_CXX_FLAGS=-O1',
                 '-DCMAKE_POLICY_VERSION_MINIMUM=3.5'], env=env)
            run(['ninja', '-C', d], env=env)
            open(d + '/ok', 'w').close()
    return d + '/generator/ostei'

def source(variant):
    """generated source tree of a variant, plus the configured headers"""
    v = VARIANTS[variant]
    key = 'src-%s-%s-%s' % (variant, tree_hash(), hashlib.sha256(repr(sorted(v.items())).encode()).hexdigest()[:8])
    d = os.path.join(CACHE, key)
    with Lock(key):
        if not os.path.exists(d + '/ok'):
            g = generator()
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            if 'only' in v: g = tall_generators(g, d, v)
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
            out = run([sys.executable, REPO + '/create.py', '-n', '8', '-g', g, '-d', str(v.get('d', 1))] + v['opts'] + [d + '/src'], env=env)
            if 'aborting' in out: raise BuildError('a generator process failed\n' + out[-2000:])
            configure(d + '/src', d + '/stage', v['l'], v.get('d', 1), v['vec'])
            open(d + '/ok', 'w').close()
    return d

def canon(q):
    """the classes a permuted class may hand over to"""
    a, b, c, d = q; out = {q}
    for x in ((a, b), (b, a)):
        for y in ((c, d), (d, c)): out |= {x + y, y + x}
    return out

STUB = '''#!/bin/sh
# runs the real generator for the wanted classes and emits a declaration for the others
q= o= h=; prev=; n=0
for a in "$@"; do
  if [ $n -gt 0 ]; then q="$q$a"; n=$((n-1)); fi
  case "$prev" in -o) o=$a;; -oh) h=$a;; esac
  [ "$a" = -q ] && n=4
  prev=$a
done
case "$q" in ????) ;; *) exec %(real)s "$@";; esac
[ -n "$o" ] && [ -n "$h" ] || exec %(real)s "$@"
case " %(only)s " in *" $q "*) exec %(real)s "$@";; esac
f=$(basename "$o" .c)
echo "int $f();" >> "$h"
: > "$o"
case " $* " in *" -p "*) ;; *) exit 0;; esac
# the file of a class also holds its permutations
base=${f%%_?_?_?_?}; r=${f#${base}_}; IFS=_; set -- $r
for x in $1_$2_$3_$4 $2_$1_$3_$4 $1_$2_$4_$3 $2_$1_$4_$3 $3_$4_$1_$2 $4_$3_$1_$2 $3_$4_$2_$1 $4_$3_$2_$1; do echo "int ${base}_$x();" >> "$h"; done
'''
def tall_generators(g, d, v):
    """directory with the real generator programs, the quartet generators restricted to the wanted classes"""
    t = d + '/gen'; os.makedirs(t)
    for n in sorted(os.listdir(g)):
        p = os.path.join(g, n)
        if os.path.isfile(p) and os.access(p, os.X_OK): os.symlink(p, os.path.join(t, n))
    for n, key in (('ostei_generator', 'only'), ('ostei_deriv1_generator', 'only1')):
        want = set()
        for q in v[key]: want |= canon(q) if max(q) >= int(v['opts'][v['opts'].index('-p') + 1]) else {q}
        os.unlink(os.path.join(t, n))
        with open(os.path.join(t, n), 'w') as f: f.write(STUB % dict(real=os.path.join(g, n), only=' '.join(''.join(map(str, q)) for q in sorted(want))))
        os.chmod(os.path.join(t, n), 0o755)
    return t

def configure(src, stage, l, der, vec):
    for rel in ('simint/ostei/ostei_config.h', 'simint/vectorization/vector_config.h'):
        with open(os.path.join(src, rel + '.in')) as f: s = f.read()
        sub = {'SIMINT_MAXAM': str(l), 'SIMINT_MAXDER': str(der), 'SIMINT_VECTOR': vec}
        s = re.sub(r'@(\w+)@', lambda m: sub.get(m.group(1), ''), s)
        if rel.endswith('vector_config.h'): s += '#define SIMINT_%s\n' % vec
        os.makedirs(os.path.dirname(os.path.join(stage, rel)), exist_ok=True)
        with open(os.path.join(stage, rel), 'w') as f: f.write(s)

CLANG = '/usr/bin/clang-18'; OPT = '/usr/bin/opt-18'
PASSES = 'function(sroa,early-cse,simplifycfg)'

def cflags(srcdir, stage, vec, extra=()):
    return ['-std=gnu11', '-w', '-I' + stage, '-I' + srcdir] + VECFLAGS[vec] + list(extra)

def ir(cfile, srcdir, stage, vec, extra=(), passes=PASSES, key=None):
    """LLVM IR text of one C file"""
    cmd = [CLANG, '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-U__clang__', '-ffp-contract=off',
           '-fno-math-errno', '-DNDEBUG', '-fno-builtin-printf'] + cflags(srcdir, stage, vec, extra) + ['-S', '-emit-llvm', '-o', '-', cfile]
    p1 = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p1.returncode != 0: raise BuildError('clang failed on %s\n%s' % (cfile, p1.stderr.decode(errors='replace')[-2000:]))
    p2 = subprocess.run([OPT, '-S', '-passes=' + passes, '-', '-o', '-'], input=p1.stdout, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p2.returncode != 0: raise BuildError('opt failed on %s\n%s' % (cfile, p2.stderr.decode(errors='replace')[-2000:]))
    return p2.stdout.decode()

def module(variant, rel, vec=None, extra=(), passes=PASSES):
    d = source(variant)
    v = VARIANTS[variant]; vec = vec or v['vec']
    stage = d + '/stage'
    if vec != v['vec']: stage = restage(variant, vec)
    f = os.path.join(d, 'src', rel)
    k = hashlib.sha256(repr((rel, vec, tuple(extra), passes)).encode()).hexdigest()[:16]
    c = os.path.join(d, 'ir'); os.makedirs(c, exist_ok=True)
    p = os.path.join(c, k + '.ll')
    if not os.path.exists(p):
        t = ir(f, d + '/src', stage, vec, extra, passes)
        tmp = p + '.%d' % os.getpid()
        with open(tmp, 'w') as fh: fh.write(t)
        os.replace(tmp, p)
    with open(p) as fh: t = fh.read()
    m = irparse.parse(t, rel)
    return m

def restage(variant, vec):
    d = source(variant); v = VARIANTS[variant]
    st = d + '/stage-' + vec
    if not os.path.exists(st + '/ok'):
        with Lock('stage-%s-%s' % (variant, tree_hash())):
            configure(d + '/src', st, v['l'], v.get('d', 1), vec); open(st + '/ok', 'w').close()
    return st

_defs = {}
def defs(variant):
    """function name -> generated file (relative) for the simint C library of a variant"""
    if variant in _defs: return _defs[variant]
    d = source(variant) + '/src'
    out = {}
    pat = re.compile(r'^(?:static\s+|inline\s+)*(?:int|void|double|size_t)\s*\n?\s*(\w+)\s*\(', re.M)
    for dp, dn, fn in os.walk(d + '/simint'):
        for f in sorted(fn):
            if f.endswith('.c'):
                rel = os.path.relpath(os.path.join(dp, f), d)
                if rel == 'simint/ostei/recur_lookup.c': continue   # not part of the library (CMakeLists.txt)
                with open(os.path.join(dp, f)) as fh: s = fh.read()
                for m in pat.finditer(s):
                    # definitions only: next non-space after the closing paren is '{'
                    i = m.end() - 1; depth = 0
                    while i < len(s):
                        if s[i] == '(': depth += 1
                        elif s[i] == ')':
                            depth -= 1
                            if depth == 0: break
                        i += 1
                    rest = s[i + 1:i + 40].lstrip()
                    if rest.startswith('{'): out.setdefault(m.group(1), rel)
    _defs[variant] = out
    return out

def libfiles(variant):
    d = source(variant) + '/src/simint'
    v = VARIANTS[variant]
    fl = open(d + '/ostei/gen/filelist_d%d_%d' % (v.get('d', 1), v['l'])).read().split()
    base = ['simint_init.c', 'recur_lookup.c', 'simint_eri.c', 'simint_oneelectron.c', 'boys/boys_shortgrid.c', 'ostei/ostei_init.c',
            'ostei/ostei_deriv1_init.c', 'ostei/ostei_general_vrr.c', 'ostei/ostei_general_hrr.c', 'ostei/ostei.c', 'osoei/osoei_terms.c',
            'osoei/osoei_overlap.c', 'osoei/osoei_potential.c', 'osoei/osoei_ke.c', 'shell/shell.c', 'shell/shell_screen.c', 'shell/shell_constants.c']
    return fl, base
