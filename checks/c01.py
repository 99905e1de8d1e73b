"""C01: every two-electron integral is the sum over its primitives of the defined primitive integral."""
from . import eri_common as E
from vt import framework, build, layout

def tasks(tier, der):
    ts = []
    for v in ('external', 'inline', 'general', 'wide', 'noder'):
        if der and build.VARIANTS[v].get('d', 1) < 1: continue
        cap = 99 if tier == 'thorough' else ({'external': 8, 'inline': 8, 'general': 7, 'wide': 4, 'noder': 4} if not der else {'external': 6, 'inline': 6, 'general': 5, 'wide': 4})[v]
        for am in E.classes(v):
            if sum(am) > cap: continue
            ts.append((E.task, (v, der, am, E.conf_name(der, am, tier)), E.weight(der, am)))
    ts += E.unb_tasks(tier, {'external': 650, 'general': 180} if not der else {'external': 2300, 'general': 180, 'inline': 20}, (der,))
    return ts + E.tall_tasks(tier, der)

def run(ck, tier, der=0):
    ck.trusted += E.TRUST
    for v in list(build.VARIANTS) + E.tall(tier): layout.get(v)
    res = framework.run_tasks(tasks(tier, der))
    import collections
    E.collect(ck, res)
    E.unb_collect(ck, res)
    cpu = sum(r.get('cpu', 0) for r in res)
    ck.solver_s = cpu
    ck.extra['slowest'] = sorted(((round(r.get('cpu', 0), 1), r['name']) for r in res), reverse=True)[:8]
