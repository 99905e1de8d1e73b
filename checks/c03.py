"""C03: batch shapes."""
import random
from . import eri_common as E
from vt import framework, build, layout

def shapes(L, n, rng):   # (n random shapes)
    NS = 2 * L
    r = lambda k, a=1, b=4: [rng.randint(a, b) for _ in range(k)]
    odd = lambda k: [1 + (3 * s + s * s) % (L + 2) for s in range(k)]
    out = [
        ('bra over two batches', odd(NS + 2), NS + 2, [1, 2], 2),
        ('ket over two batches', [1], 1, odd(NS + 3), NS + 3),
        ('bra clipped in the second batch', odd(NS + 3), NS + 1, [2, 1], 1),
        ('ket clipped', [2], 1, odd(NS + 3), NS + 1),
        ('ket clipped in the first batch', [1, 1], 1, odd(NS), max(1, NS - 2)),
        ('single primitives', [1, 1], 2, [1] * (NS + 1), NS + 1),
        ('full batches', [1], 1, [L] * NS + [L + 1], NS + 1),
        ('nothing requested (bra)', [1, 2], 0, [1, 2], 2),
        ('nothing requested (ket)', [1, 2], 1, [1, 2], 0),
        ('long shell pair', [1], 1, [2 * L + 1, 1, L], 3),
    ]
    for k in range(n):
        nb, nk = rng.randint(1, 3), rng.randint(1, 2 * NS + 2)
        if k % 3 == 0: nb, nk = rng.randint(1, NS + 2), rng.randint(1, 3)
        out.append(('random %d' % k, r(nb, 1, 3), rng.randint(1, nb), r(nk, 1, L + 3), rng.randint(1, nk)))
    return out

def big(L): return ('many vectors', [1], 1, [4 * 2 * L * L + 1, 2, 1], 3)

def task(variant, der, am, label, conf):
    return E.task(variant, der, am, 'shape ' + label, conf)

def run(ck, tier):
    ck.trusted += E.TRUST
    for v in build.VARIANTS: layout.get(v)
    rng = random.Random(framework.SEED * 7919 + 3)
    ts = []
    for v in build.VARIANTS:
        L = layout.get(v)['L']
        cl = [(0, (0, 0, 0, 0)), (0, (1, 0, 0, 0)), (0, (0, 1, 0, 0)), (0, (0, 0, 1, 0)), (0, (1, 0, 1, 0)), (0, (1, 1, 1, 0))]
        if build.VARIANTS[v].get('d', 1): cl += [(1, (0, 0, 0, 0)), (1, (0, 0, 1, 0))]
        if tier == 'thorough':
            cl += [(0, (1, 1, 1, 1)), (0, (1, 1, 0, 0)), (0, (0, 0, 1, 1)), (0, (0, 1, 1, 0))] + ([(1, (1, 0, 0, 0)), (1, (0, 1, 0, 1))] if build.VARIANTS[v].get('d', 1) else [])
        # permuted classes that use the (permuted) shell pair separations
        perm = {'external': [(0, (1, 2, 0, 0)), (0, (0, 0, 1, 2)), (1, (0, 2, 0, 0))], 'inline': [(0, (1, 2, 0, 0)), (0, (0, 0, 1, 2))],
                'wide': [(1, (0, 1, 0, 0)), (1, (0, 0, 0, 1))]}.get(v, [])
        for der, am in cl + perm:
            n = (2 if der == 0 and sum(am) < 2 else 1) if tier != 'thorough' else 25
            sh = shapes(L, n, rng)
            if sum(am) == 0 and der == 0: sh.append(big(L))
            if (der, am) in perm and tier != 'thorough': sh = [sh[k] for k in ((1, 2) if am[2] + am[3] else (0, 2))]
            elif (der or sum(am) > 2) and tier != 'thorough': sh = sh[:4] + sh[-1:]
            for label, b, bc, k, kc in sh:
                w = (sum(b) * sum(k) + 1) * E.weight(der, am)
                ts.append((task, (v, der, am, label, (b, bc, k, kc)), w))
    # every shape: loop invariants, proved by induction
    ts += E.unb_tasks(tier, {'external': 40, 'general': 75, 'inline': 72, 'noder': 27})
    res = framework.run_tasks(ts)
    E.collect(ck, res)
    E.unb_collect(ck, res)
    ck.extra['slowest'] = sorted(((round(r.get('cpu', 0), 1), r['name']) for r in res), reverse=True)[:8]
    ck.solver_s = sum(r.get('cpu', 0) for r in res)
