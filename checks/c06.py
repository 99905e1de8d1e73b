"""C06: overlap and kinetic energy integrals."""
from .oei_common import *

def run(ck, tier):
    ck.trusted += SHELL_TRUST[:1] + SHELL_TRUST[1:2] + SHELL_TRUST[3:]
    rng = random.Random(framework.SEED * 5 + 6); ts = [(lemma_task, (8, 4), 100)]
    for v in build.VARIANTS:
        layout.get(v); top = 7 if v == "general" else 3
        if tier == 'thorough': top = 7
        for kind in 'ST':
            for a1 in range(top + 1):
                for a2 in range(top + 1): ts.append((task, (v, kind, a1, a2, 1, 1, 0), (a1 + 1) * (a2 + 1)))
            for a1 in range(top + 1):
                for a2 in range(top + 1): ts.append((ind_task, (v, kind, a1, a2), 30 * (a1 + 1) * (a2 + 1)))
            for a1, a2, n1, n2 in ((0, 0, 3, 2), (1, 1, 2, 3), (2, 1, 2, 2), (0, 2, 1, 4), (1, 1, 2, None), (2, 2, 1, None), (0, 0, 3, None), (0, 1, 7, 6), (1, 0, 1, 9), (1, 1, 6, None)): ts.append((task, (v, kind, a1, a2, n1, n2, 0), 20))
            for q in range(1 if tier != 'thorough' else 20): ts.append((task, (v, kind, rng.randint(0, 3), rng.randint(0, 3), rng.randint(1, 3), rng.randint(1, 3), 0), 30))
    res = framework.run_tasks(ts)
    E.collect(ck, res)
    E.ind_collect(ck, res)
    ck.solver_s = sum(r.get('cpu', 0) for r in res)
