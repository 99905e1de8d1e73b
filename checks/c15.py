"""C15: the component tables.  Every entry is an obligation: the table is a constant of the real source, read from its LLVM IR."""
import os, subprocess, tempfile, shutil
from . import eri_common as E
from vt import framework, build, irparse
from vt.execu import *

def carts(l): return [(i, j, l - i - j) for i in range(l, -1, -1) for j in range(l - i, -1, -1)]
def index(c):
    """position of a component in the documented order: first exponent descending, then the second"""
    l = sum(c); r = l - c[0]
    return r * (r + 1) // 2 + r - c[1]

OFF = '''#include <stddef.h>
#include "%s"
long vt_[] = { offsetof(struct RecurInfo, ijk), offsetof(struct RecurInfo, dir), offsetof(struct RecurInfo, idx), sizeof(struct RecurInfo),
  sizeof(((struct RecurInfo *)0)->ijk[0]), sizeof(((struct RecurInfo *)0)->idx[0][0]), sizeof(((struct RecurInfo *)0)->idx[0]),
  sizeof(((struct RecurInfo *)0)->dir), sizeof(recurinfo_array), sizeof(am_recur_map)};
'''

def task(rel):
    hdr = rel[:-2] + '.h'; v = 'general'
    d = build.source(v); bad = []; n = 0
    tmp = tempfile.mkdtemp(prefix='c15-', dir=build.CACHE)
    try:
        with open(tmp + '/o.c', 'w') as f: f.write(OFF % hdr)
        import re
        t = build.ir(tmp + '/o.c', d + '/src', d + '/stage', 'SSE')
        oi, od, ox, sz, si, sx, sxd, sd, tot, mtot = [int(x.split()[1]) for x in re.search(r'@vt_ = .*?\[\d+ x i64\] \[(.*?)\]', t).group(1).split(', ')]
        m = irparse.parse(build.ir(os.path.join(d, 'src', rel), d + '/src', d + '/stage', 'SSE'), rel)
        ex = Exec([m]); A = ex.gptr(m, '@recurinfo_array').obj; M = ex.gptr(m, '@am_recur_map').obj
        if not A.ro or not M.ro: pass
        def rd(o, off, s):
            x = ex.load(Ptr(o, off), ('i', 8 * s), s, s)
            return x
        nl = mtot // 4; N = A.size // sz
        def fail(msg): bad.append(('table', msg))
        if M.size != mtot or A.size != tot: fail('the declared and the defined table sizes differ')
        e = 0
        for l in range(nl):
            n += 1
            try: o = rd(M, 4 * l, 4)
            except Violation as x: fail('am_recur_map[%d]: %s' % (l, x)); break
            if o != e: fail('am_recur_map[%d] = %d, the components of angular momentum %d start at %d' % (l, o, l, e))
            for p, c in enumerate(carts(l)):
                assert index(c) == p
                try:
                    b = (e + p) * sz
                    got = tuple(rd(A, b + oi + si * k, si) for k in range(3)); n += 1
                    if got != c: fail('recurinfo_array[%d] is %r, the component %d of angular momentum %d is %r' % (e + p, got, p, l, c)); continue
                    dr = rd(A, b + od, sd); n += 1
                    if l == 0:
                        if dr != -1: fail('recurinfo_array[0].dir = %d, but an s function cannot be lowered' % dr)
                    elif dr not in (0, 1, 2) or c[dr] < 1: fail('recurinfo_array[%d] (%r): dir = %d is not a direction in which it can be lowered' % (e + p, c, dr))
                    for k in range(3):
                        for w, st in ((0, -1), (1, -2), (2, 1)):
                            g = rd(A, b + ox + k * sxd + w * sx, sx); n += 1
                            q = list(c); q[k] += st
                            want = index(q) if q[k] >= 0 else -1
                            if g != want: fail('recurinfo_array[%d] (%r): idx[%d][%d] = %d, expected %d' % (e + p, c, k, w, g, want))
                except Violation as x:
                    fail('recurinfo_array[%d]: %s' % (e + p, x))
            e += (l + 1) * (l + 2) // 2
        n += 1
        if e != N: fail('the table has %d entries for %d components' % (N, e))
        # the general routines and the one-electron integrals use the entries up to the largest angular momentum plus one
        n += 1
        if nl < 9: fail('the table ends at angular momentum %d' % (nl - 1))
        out = dict(name=rel, fn='@' + os.path.basename(rel), obl={'out': n}, mem=0, instr=0, bad=bad)
        if bad: out['replay'] = native(rel, hdr, d, tmp)
        return out
    finally: shutil.rmtree(tmp, ignore_errors=True)

def native(rel, hdr, d, tmp):
    with open(tmp + '/m.c', 'w') as f:
        f.write('''#include <stdio.h>
#include "%s"
static int at(int i, int j, int k){ int l = i+j+k, p = 0; if(i<0||j<0||k<0) return -1; for(int x=l;x>=0;x--) for(int y=l-x;y>=0;y--,p++) if(x==i&&y==j) return p; return -1; }
int main(void){ int e = 0;
 for(int l = 0; l < (int)(sizeof am_recur_map/sizeof(int)); l++){
  if(am_recur_map[l] != e){ printf("am_recur_map[%%d] = %%d, expected %%d\\n", l, am_recur_map[l], e); return 3; }
  for(int x=l;x>=0;x--) for(int y=l-x;y>=0;y--,e++){ int z=l-x-y; struct RecurInfo const *r = &recurinfo_array[e]; int c[3]={x,y,z};
   if(e >= (int)(sizeof recurinfo_array/sizeof *r)) { printf("too few entries\\n"); return 3; }
   if(r->ijk[0]!=x||r->ijk[1]!=y||r->ijk[2]!=z){ printf("recurinfo_array[%%d] is (%%d,%%d,%%d), expected (%%d,%%d,%%d)\\n", e, r->ijk[0], r->ijk[1], r->ijk[2], x, y, z); return 3; }
   if(l ? (r->dir<0||r->dir>2||c[(int)r->dir]<1) : r->dir != -1){ printf("recurinfo_array[%%d].dir = %%d\\n", e, r->dir); return 3; }
   for(int d=0;d<3;d++) for(int w=0;w<3;w++){ int q[3]={x,y,z}; q[d] += w==0?-1:w==1?-2:1; int g=at(q[0],q[1],q[2]); if(r->idx[d][w]!=g){ printf("recurinfo_array[%%d].idx[%%d][%%d] = %%d, expected %%d\\n", e, d, w, r->idx[d][w], g); return 3; } }
  } } return 0; }
''' % hdr)
    try: build.run(['gcc', '-O0', '-w'] + build.cflags(d + '/src', d + '/stage', 'SSE') + [tmp + '/m.c', os.path.join(d, 'src', rel), '-o', tmp + '/m'])
    except build.BuildError as e: return dict(reproduced=False, detail=str(e)[-300:])
    r = subprocess.run([tmp + '/m'], stdout=subprocess.PIPE, timeout=60)
    return dict(reproduced=r.returncode == 3, detail='compiled table: ' + r.stdout.decode()[:200])

def run(ck, tier):
    ck.trusted += ['clang-18 -O0 preserves the constants of the C source']
    d = build.source('general') + '/src/'
    rels = [r for r in ('simint/recur_lookup.c', 'simint/ostei/recur_lookup.c') if os.path.exists(d + r)]
    res = framework.run_tasks([(task, (r,), 1) for r in rels])
    E.collect(ck, res)
