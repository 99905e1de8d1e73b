"""C17: the Fortran module: layout of the derived types, interfaces, and the body of every module procedure."""
import os, re, time, shutil, subprocess, tempfile
from vt import framework, build, fort as F
from . import eri_common as E

# extents of the arrays that the C functions read (documentation of the headers); others are scratch or output whose length the caller decides
EXTENT = {('simint_initialize_shells', 1): {('n',): 1}, ('simint_free_shells', 1): {('n',): 1}, ('simint_normalize_shells', 1): {('n',): 1},
          ('simint_initialize_multi_shellpairs', 1): {('n',): 1}, ('simint_free_multi_shellpairs', 1): {('n',): 1},
          ('simint_create_shell', 5): {('nprim',): 1}, ('simint_create_shell', 6): {('nprim',): 1},
          ('simint_create_multi_shellpair', 1): {('na',): 1}, ('simint_create_multi_shellpair', 3): {('nb',): 1},
          ('simint_create_multi_shellpair2', 1): {('npair',): 2},
          ('simint_compute_potential', 1): {('ncenter',): 1}, ('simint_compute_potential', 2): {('ncenter',): 1}, ('simint_compute_potential', 3): {('ncenter',): 1}, ('simint_compute_potential', 4): {('ncenter',): 1}}
KIND = {('INTEGER', '4'): 'i32', ('INTEGER', '8'): 'i64', ('REAL', '8'): 'f64'}

def typ(s, syms):
    """interoperable type of a Fortran object"""
    t = s.type
    if t[0] == 'DERIVED':
        d = syms.get(t[1])
        n = d.name if d else '?'
        return 'ptr' if n == 'c_ptr' else 'struct ' + (n[2:] if n.startswith('c_') else n)
    return KIND.get((t[0], t[1]), '%s(%s)' % (t[0], t[1]))

def task(variant, part):
    t0 = time.process_time()
    r = dict(name='%s/%s' % (variant, part), fn=None, obl={}, mem=0, instr=0, bad=[], solver=0.0)
    def need(ok, kind, msg):
        r['obl'][kind] = r['obl'].get(kind, 0) + 1
        if not ok: r['bad'].append((kind, msg)); r['obl'][kind] -= 1
    d = F.tree(variant); C = F.cprotos(d); out = []
    if part == 'layout':
        c = F.dwarf(d + '/f/c.o'); f = F.dwarf(d + '/f/simint.o')
        for n in ('simint_shell', 'simint_multi_shellpair'):
            need(n in c and 'c_' + n in f, 'layout', 'type c_%s is missing' % n)
            if not (n in c and 'c_' + n in f): continue
            (cs, cm), (fs, fm) = c[n], f['c_' + n]
            need(cs == fs, 'layout', 'c_%s has %d bytes, struct %s has %d' % (n, fs, n, cs))
            fd = {m[0]: m for m in fm}
            for m in cm:
                g = fd.pop(m[0], None)
                need(g is not None and g[1:] == m[1:], 'layout', 'member %s of %s: C has offset %d, %d bytes (%s), Fortran has %s' % (m[0], n, m[1], m[2], m[3], 'no such member' if g is None else 'offset %d, %d bytes (%s)' % g[1:]))
            for g in fd: need(False, 'layout', 'member %s of c_%s does not exist in the C structure' % (g, n))
        r['cpu'] = time.process_time() - t0
        fin(r, variant); return dict(name=r['name'], many=[r])
    S = F.module(d)
    if part == 'interfaces':
        for s in S.values():
            if s.flavor != 'PROCEDURE' or not s.label or 'EXTERNAL-PROC' not in s.flags: continue
            q = dict(r, name='%s/interface %s' % (variant, s.name), fn='interface ' + s.name, obl={}, bad=[]); out.append(q)
            def nd(ok, msg, q=q):
                q['obl']['interface'] = q['obl'].get('interface', 0) + 1
                if not ok: q['bad'].append(('interface', msg)); q['obl']['interface'] -= 1
            p = C.get(s.label)
            nd(p is not None, '%s is bound to %s, which the C headers do not declare' % (s.name, s.label))
            if p is None: continue
            base = s.name[2:] if s.name.startswith('c_') else s.name
            nd(base == s.label, '%s is bound to %s' % (s.name, s.label))
            args = [S[a] for a in s.rest[5]]
            nd(len(args) == len(p[1]), '%s passes %d arguments, %s has %d parameters' % (s.name, len(args), s.label, len(p[1])))
            for k, (a, (cn, ct)) in enumerate(zip(args, p[1])):
                t = typ(a, S)
                if 'VALUE' in a.flags: ok = (t == 'ptr' and ct.startswith('p:')) or t == ct
                else: ok = ct == 'p:' + t or (t == 'ptr' and ct.startswith('p:p:')) or ct == 'p:void'
                if 'OPTIONAL' in a.flags or 'ALLOCATABLE' in a.flags or 'POINTER' in a.flags: ok = False
                nd(ok, 'argument %d (%s) of %s is passed as %s%s, %s expects %s' % (k + 1, a.name, s.name, t, ' by value' if 'VALUE' in a.flags else ' by reference', s.label, ct))
            if 'FUNCTION' in s.flags:
                res = S.get(s.rest[7]) if isinstance(s.rest[7], str) else None
                t = typ(res, S) if res is not None else typ(s, S)
                if t == 'ptr': t = 'p:void'
                nd(t == p[0] or (t == 'p:void' and p[0].startswith('p:')), 'result of %s is %s, %s returns %s' % (s.name, t, s.label, p[0]))
            else: nd(p[0] == 'void', '%s is a subroutine, %s returns %s' % (s.name, s.label, p[0]))
        if len(out) < 10: raise build.BuildError('only %d interfaces found' % len(out))
    else:
        B = F.bodies(d)
        for s in S.values():
            if s.flavor != 'PROCEDURE' or 'MODULE-PROC' not in s.flags or s.mod != 'simintfortran' or s.name.startswith('__'): continue
            if s.label and s.name not in B: continue     # the C function itself, see its interface
            if s.name not in C: continue     # helper procedures: covered where they are called
            q = dict(r, name='%s/procedure %s' % (variant, s.name), fn='procedure ' + s.name, obl={}, bad=[]); out.append(q)
            def nd(ok, msg, q=q):
                q['obl']['procedure'] = q['obl'].get('procedure', 0) + 1
                if not ok: q['bad'].append(('procedure', msg)); q['obl']['procedure'] -= 1
            cr, cp = C[s.name]; args = [S[a] for a in s.rest[5]]
            nd(len(args) == len(cp), '%s has %d arguments, the C function %d' % (s.name, len(args), len(cp)))
            if len(args) != len(cp): continue
            for k, (a, (cn, ct)) in enumerate(zip(args, cp)):
                t = typ(a, S)
                nd(ct == t or ct == 'p:' + t, 'argument %s of %s is %s, the C function takes %s' % (a.name, s.name, t, ct))
                if ct.startswith('p:struct'): nd(a.intent != 'OUT', 'argument %s of %s is intent(out), but the C function reads it' % (a.name, s.name))
                if (s.name, k) in EXTENT:
                    want = EXTENT[(s.name, k)]; ar = a.rest[6] if len(a.rest) > 6 else []
                    sp = array_extent(ar, S)
                    if sp == 'any': nd(True, '')
                    else:
                        pos = {cn2: args[j].name for j, (cn2, _) in enumerate(cp)}
                        w = {tuple(pos.get(x, x) for x in m): c for m, c in want.items()}
                        if sp is None and not ar: nd(False, 'argument %s of %s is a scalar, the C function reads an array' % (a.name, s.name))
                        elif sp is None: q['bounded'] = 'extent of %s is not a polynomial' % a.name
                        else: nd(sp == w, 'argument %s of %s has extent %s, the C function reads %s' % (a.name, s.name, show(sp), show(w)))
            try:
                if s.name not in B: raise F.Unread('no body')
                calls, stores, ret, params = F.run_body(B[s.name])
            except F.Unread as e:
                q['und'] = str(e); continue
            ext = [c for c in calls]
            nd(len(ext) == 1 and ext[0][0] == s.name, '%s calls %s, not %s' % (s.name, ', '.join(c[0] for c in ext) or 'nothing', s.name))
            nd(not stores, '%s changes its argument %s itself' % (s.name, stores[0][0] if stores else ''))
            if len(ext) != 1: continue
            a0 = ext[0][1]
            nd(len(a0) == len(cp), '%s passes %d values' % (s.name, len(a0)))
            for k, (v, (cn, ct)) in enumerate(zip(a0, cp)):
                a = args[k]
                want = ('in', a.name) if ct.startswith('p:') or 'VALUE' in a.flags else ('deref', a.name)
                nd(v == want, 'the C parameter %s of %s gets %s, expected %s' % (cn, s.name, shv(v), shv(want)))
            if cr == 'void': nd(ret is None, '%s returns a value' % s.name)
            else:
                v = ret
                while v and v[0] == 'cast' and v[1].startswith('integer(kind='): v = v[2]
                nd(v == ('call', 0), 'the result of %s is %s, expected the result of the C function' % (s.name, shv(v) if v else 'nothing'))
        if len(out) < 10: raise build.BuildError('only %d procedures found' % len(out))
        und = [q for q in out if 'und' in q]
        if und:
            rep = native(variant)
            for q in und:
                if rep.get('reproduced'): q['bad'].append(('procedure', 'bounded stand-in: ' + rep['detail'])); q['replay'] = rep
                else: q['bounded'] = 'body not within reach (%s); bounded stand-in: one scenario through both interfaces (%s)' % (q['und'], rep['detail'][:100])
    for q in out: q['cpu'] = (time.process_time() - t0) / len(out); fin(q, variant)
    return dict(name=r['name'], many=out)

def fin(q, variant):
    if q['bad'] and 'replay' not in q: q['replay'] = native(variant)

def array_extent(ar, S):
    """extent of a rank-1 array as a polynomial of dummies; 'any' when its length is the caller's"""
    if not ar: return None
    if len(ar) < 3 or ar[0] != '1': return None
    if ar[2] in ('ASSUMED_SIZE', 'ASSUMED_SHAPE', 'DEFERRED'): return 'any'
    lo, hi = F.fpoly(ar[3], S), F.fpoly(ar[4], S)
    if lo is None or hi is None: return None
    r = dict(hi)
    for m, c in lo.items(): r[m] = r.get(m, 0) - c
    r[()] = r.get((), 0) + 1
    return {m: c for m, c in r.items() if c}
def show(p): return '+'.join(('%d*' % c if c != 1 else '') + '*'.join(m) if m else str(c) for m, c in p.items()) or '0'
def shv(v): return {'in': 'the address of %s', 'deref': 'the value of %s', 'call': 'the result of call %s', 'const': 'the constant %s'}.get(v[0], '%s') % (v[1],) if v[0] != 'cast' else '%s converted to %s' % (shv(v[2]), v[1])

_nat = {}
def native(variant):
    if variant not in _nat:
        try: _nat[variant] = _native(variant)
        except (build.BuildError, OSError, subprocess.TimeoutExpired) as e: _nat[variant] = dict(reproduced=False, detail=str(e)[:500])
    return _nat[variant]

def _native(variant):
    """one scenario through the Fortran interface and through the C interface"""
    d = F.tree(variant); src = build.source(variant) + '/src'; v = build.VARIANTS[variant]
    flags = open(d + '/flags').read().split(); inc = ['-I' + x for x in open(d + '/inc').read().split('\n')]
    tmp = tempfile.mkdtemp(prefix='fort-', dir=build.CACHE); H = build.VERIF + '/harness/'
    try:
        fl, base = build.libfiles(variant)
        cf = [src + '/simint/' + x for x in base] + [src + '/simint/' + (x if '/' in x else 'ostei/gen/' + x) for x in fl]
        objs = []; ps = []
        for k, c in enumerate(cf):
            o = '%s/%d.o' % (tmp, k); objs.append(o)
            ps.append(subprocess.Popen(['gcc', '-std=gnu11', '-w', '-O1', '-c'] + inc + [c, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
            if len(ps) % 8 == 0: [p.wait() for p in ps]
        for p in ps:
            if p.wait(): raise build.BuildError('library: ' + p.communicate()[0].decode(errors='replace')[-500:])
        def run(c):
            r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=tmp, timeout=300)
            if r.returncode: raise build.BuildError(r.stdout.decode(errors='replace')[-700:])
        run(['gcc', '-std=gnu11', '-w', '-g', '-O1', '-c'] + inc + [H + 'fdriver.c', '-o', 'c.o'])
        run(['gfortran'] + flags + ['-g', '-c', src + '/simint/simint.f90', '-o', 'm.o'])
        run(['gfortran', '-cpp', '-g', '-O1', '-w', '-ffree-line-length-none', '-DMAXDER=%d' % v.get('d', 1), '-c', H + 'fdriver.f90', '-o', 'f.o'])
        run(['gfortran', 'f.o', 'm.o', 'c.o'] + objs + ['-o', 'drv', '-lm', '-fopenmp'])
        r = subprocess.run(['./drv'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=tmp, timeout=120)
        t = r.stdout.decode(errors='replace')
    finally: shutil.rmtree(tmp, ignore_errors=True)
    c = {}; bad = []
    for l in t.splitlines():
        w = l.split()
        if len(w) == 3 and w[0] == 'C': c[w[1]] = w[2]
        if len(w) == 3 and w[0] == 'F' and w[1] in c and float(w[2]) != float(c[w[1]]): bad.append('member %s set to %s by C is read as %s from Fortran' % (w[1], c[w[1]], w[2]))
        if l.startswith('BAD'): bad.append(l[4:])
    if bad: return dict(reproduced=True, detail='compiled (SIMINT_MAXDER=%d): %s' % (v.get('d', 1), '; '.join(bad[:3])))
    if r.returncode or 'DONE' not in t: return dict(reproduced=True, detail='the Fortran program ends with status %s: %s' % (r.returncode, t[-400:]))
    return dict(reproduced=False, detail='one scenario through both interfaces gives the same')

def run(ck, tier):
    ck.trusted += ['gfortran 13: meaning of the module is taken from its module file, DWARF and optimised GIMPLE; calling convention of the same compiler family for C',
                   'other Fortran compilers are not covered', 'extents read by the C functions as documented in the headers',
                   'results of type size_t are only passed on if they fit the default integer']
    vs = ['noder', 'wide'] + (['general', 'external', 'inline'] if tier == 'thorough' else [])
    ts = [(task, (v, p), 1) for v in vs for p in ('layout', 'interfaces', 'procedures')]
    flat = []
    for r in framework.run_tasks(ts): flat += r['many'] if 'many' in r else [r]
    E.collect(ck, flat)
    if tier == 'thorough':
        for v in vs[:2]:
            rep = native(v)
            ck.bounded.append('%s: one scenario through both interfaces: %s' % (v, rep['detail']))
            if rep.get('reproduced'): ck.violation('scenario:' + v, rep['detail'], rep['detail'], True)
