"""C04: screening."""
import time
from . import eri_common as E
from vt import framework, build, layout, screen, replay

def task(variant, der, am, cf, limit):
    L = layout.get(variant)['L']
    conf = screen.CONF[cf][L]
    name = '%s/%s%s/%s' % (variant, 'd' if der else '', screen.cname(am), cf)
    t = time.process_time()
    try: c = screen.run_class(variant, der, am, conf, limit)
    except screen.Unsupported as e:
        return E.fallback(name, variant, der, am, conf, str(e), tol=True)
    out = dict(name=name, fn=c.fn, obl=c.obl, mem=0, instr=c.instr, bad=[(b.kind, str(b)) for b in c.bad], cpu=time.process_time() - t, solver=c.solver, paths=c.paths, complete=c.complete if not c.bad else None)
    if c.bad and c.fn and framework.REPLAY[0]:
        out['replay'] = E.screen_replay(variant, der, am, conf, c.fn)
        if not out['replay']['reproduced']:
            from . import c16
            out['replay'] = c16.screened_dispatch(variant)
    return out

def run(ck, tier):
    ck.trusted += E.TRUST + ['screening values are non-negative and screen_max is not below any of them (property C10)', 'z3 4.8 for linear real arithmetic; monotonicity of multiplication supplied as lemma instances']
    for v in build.VARIANTS: layout.get(v)
    ts = []; th = tier == 'thorough'
    for v in build.VARIANTS:
        for der in range(build.VARIANTS[v].get('d', 1) + 1):
            for am in E.classes(v):
                s = sum(am)
                if s > ((6 if not der else 4) if th else (4 if not der else 2)): continue
                if not th and v in ('general',) and s > 3: continue
                ts.append((task, (v, der, am, 'hvy', 40), E.weight(der, am) * 8))
                if (s <= 1 and not der) or am == (1, 0, 1, 0) and not der or th and s <= 2:
                    ts.append((task, (v, der, am, 'one', 120 if th else 90), E.weight(der, am) * 60))
                    ts.append((task, (v, der, am, 'two', 300 if th else 60), E.weight(der, am) * 60))
    ts += E.unb_tasks(tier, {'external': 180, 'general': 27, 'inline': 18}, tol=True)
    res = framework.run_tasks(ts)
    E.collect(ck, res)
    E.unb_collect(ck, res)
    ck.solver_s = sum(r.get('solver', 0) + r.get('z3', 0) for r in res)
    ck.extra['paths'] = sum(r.get('paths', 0) for r in res)
    ck.extra['runs_with_all_paths_explored'] = sum(1 for r in res if r.get('complete'))
    ck.extra['runs'] = len(res)
