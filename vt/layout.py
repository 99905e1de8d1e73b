"""Field offsets of the public structures, read from the real headers by the compiler."""
import re, os, subprocess, hashlib
from . import build

FIELDS = {
 'simint_multi_shellpair': ['am1','am2','nprim','nshell12','nshell12_clip','nprim12','AB_x','AB_y','AB_z','x','y','z','PA_x','PA_y','PA_z',
    'PB_x','PB_y','PB_z','alpha','alpha2','beta2','prefac','screen','screen_max','memsize','ptr'],
 'simint_shell': ['am','nprim','x','y','z','alpha','coef','memsize','ptr'],
}
_c = {}
def get(variant, vec=None):
    """{struct: ({field: offset}, size)} and {'L': simd length, 'NS': SIMINT_NSHELL_SIMD, 'MAXDER':..}"""
    key = (variant, vec)
    if key in _c: return _c[key]
    d = build.source(variant); v = build.VARIANTS[variant]; vec = vec or v['vec']
    stage = d + '/stage' if vec == v['vec'] else build.restage(variant, vec)
    src = ['#include <stddef.h>', '#include "simint/shell/shell.h"', '#include "simint/vectorization/vectorization.h"',
           '#include "simint/ostei/ostei_config.h"', 'long vt_[] = {']
    names = []
    for st, fs in FIELDS.items():
        for f in fs:
            if f in ('alpha2', 'beta2') and v.get('d', 1) == 0: continue
            src.append('offsetof(struct %s, %s),' % (st, f)); names.append((st, f))
        src.append('sizeof(struct %s),' % st); names.append((st, None))
    for n in ('SIMINT_SIMD_LEN', 'SIMINT_NSHELL_SIMD', 'SIMINT_OSTEI_MAXDER', 'SIMINT_OSTEI_MAXAM'):
        src.append(n + ','); names.append(('', n))
    src.append('};')
    p = os.path.join(d, 'layout-%s-%d.c' % (vec, os.getpid()))
    with open(p, 'w') as f: f.write('\n'.join(src) + '\n')
    try:
        t = build.ir(p, d + '/src', stage, vec)
    finally: os.unlink(p)
    m = re.search(r'@vt_ = .*?\[\d+ x i64\] \[(.*?)\]', t)
    vals = [int(x.split()[1]) for x in m.group(1).split(', ')]
    out = {}
    for (st, f), x in zip(names, vals):
        if st == '': out[f] = x
        elif f is None: out[st] = (out.get(st, {}), x)
        else: out.setdefault(st, {})[f] = x
    out['L'] = out['SIMINT_SIMD_LEN']; out['NS'] = out['SIMINT_NSHELL_SIMD']
    _c[key] = out
    return out
