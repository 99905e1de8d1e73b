"""C05: memory behaviour of the integral routines (same symbolic runs as C01/C02, other obligations) and the work size table."""
import random
from . import eri_common as E, c01, c03
from vt import framework, build, layout, eri
MEM = {'bounds', 'frame', 'alignment', 'leak', 'null', 'overflow', 'uninitialised', 'lifetime', 'pointer', 'division', 'unreachable', 'assert', 'return-shape'}

def wtask(variant):
    """the reported size is monotone in the angular momentum and the memory variant is that many doubles"""
    v = build.VARIANTS[variant]; bad = []; n = 0
    ex = eri.setup_exec(variant, {}, init=False)
    for der in range(v.get('d', 1) + 1):
        prev = 0
        for l in range(v['l'] + 1):
            w = ex.call('@simint_eri_worksize', [der, l]); m = ex.call('@simint_eri_workmem', [der, l]); n += 2
            if m != 8 * w: bad.append(('bounds', 'simint_eri_workmem(%d,%d) is %s bytes for %s doubles' % (der, l, m, w)))
            if w < prev: bad.append(('bounds', 'simint_eri_worksize(%d,%d) = %d is below the size for angular momentum %d' % (der, l, w, l - 1)))
            prev = w
    return dict(name='%s/worksize' % variant, fn='@simint_eri_worksize', obl={'out': n}, mem=0, instr=ex.count, bad=bad)

def tasks(tier):
    ts = []
    for v in build.VARIANTS:
        for der in range(build.VARIANTS[v].get('d', 1) + 1):
            cap = 99 if tier == 'thorough' else ({'external': 8, 'inline': 8, 'general': 5, 'wide': 4, 'noder': 4} if not der else {'external': 5, 'inline': 5, 'general': 3, 'wide': 4})[v]
            for am in E.classes(v):
                # the classes that need the most work space are always taken
                if sum(am) > cap: continue
                ts.append((E.task, (v, der, am, E.conf_name(der, am, tier), None, MEM), E.weight(der, am)))
        ts.append((wtask, (v,), 1))
    for der in (0, 1): ts += E.tall_tasks(tier, der, MEM)
    # every shape (bounds, alignment, overflow, frame obligations of the inductive proofs)
    ts += E.unb_tasks(tier, {'external': 90, 'general': 20}, kinds=MEM)
    # the shapes of the batch property
    rng = random.Random(framework.SEED * 7919 + 5)
    for v in build.VARIANTS:
        L = layout.get(v)['L']
        for der, am in [(0, (0, 0, 0, 0)), (0, (1, 0, 0, 0)), (0, (0, 0, 1, 0))] + ([(1, (0, 0, 0, 0))] if build.VARIANTS[v].get('d', 1) else []):
            sh = c03.shapes(L, 6 if tier == 'thorough' else 0, rng)
            if sum(am) == 0 and der == 0: sh.append(c03.big(L))
            elif tier != 'thorough': sh = sh[::3]
            for label, b, bc, k, kc in sh:
                ts.append((E.task, (v, der, am, 'shape ' + label, (b, bc, k, kc), MEM), (sum(b) * sum(k) + 1) * E.weight(der, am)))
    return ts

def run(ck, tier):
    ck.trusted += E.TRUST
    for v in list(build.VARIANTS) + E.tall(tier): layout.get(v)
    res = framework.run_tasks(tasks(tier))
    E.collect(ck, res, kinds=MEM | {'mem'})
    E.unb_collect(ck, res)
    ck.solver_s = sum(r.get('cpu', 0) for r in res)
