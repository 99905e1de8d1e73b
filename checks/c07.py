"""C07: nuclear attraction integrals."""
from .oei_common import *

def run(ck, tier):
    ck.trusted += SHELL_TRUST[:1] + SHELL_TRUST[1:2] + SHELL_TRUST[3:] + ['Obara-Saika relations as definition of the attraction integrals', 'contract of boys_F_split: F[m] = F_m(x) for m <= n (property C13)']
    rng = random.Random(framework.SEED * 5 + 7); ts = []
    for v in build.VARIANTS:
        layout.get(v); top = 4 if v == 'general' else 2
        if tier == 'thorough': top = 5 if v == 'general' else 3
        for a1 in range(top + 1):
            for a2 in range(top + 1): ts.append((task, (v, 'V', a1, a2, 1, 1, 1), 10 * (a1 + 1) ** 3 * (a2 + 1) ** 3))
        for a1 in range(top + 1):
            for a2 in range(top + 1): ts.append((ind_task, (v, 'V', a1, a2), 10 * (a1 + 1) ** 3 * (a2 + 1) ** 3))
        for a1, a2, n1, n2, nc in ((0, 0, 2, 3, 3), (1, 1, 2, 2, 2), (2, 1, 1, 2, 2), (0, 1, 2, 1, 0), (1, 0, 1, 1, 4), (1, 1, 2, None, 1), (2, 2, 1, None, 1), (0, 0, 6, 5, 1), (0, 0, 1, 2, 13), (1, 0, 1, 1, 9), (0, 0, 5, None, 1)): ts.append((task, (v, 'V', a1, a2, n1, n2, nc), 500))
        ts.append((task, (v, 'V', 1, 2, 1, 2, 2, 'on centres'), 500)); ts.append((task, (v, 'V', 1, 1, 2, None, 1, 'on centres'), 500))
        for q in range(1 if tier != 'thorough' else 12): ts.append((task, (v, 'V', rng.randint(0, 2), rng.randint(0, 2), rng.randint(1, 2), rng.randint(1, 2), rng.randint(1, 3)), 500))
        if v == 'general': ts += [(task, (v, 'V', a1, a2, 1, 1, 1), 500) for a1, a2 in ((4, 0), (0, 4), (5, 0), (0, 5))]
        ts += [(task, (v, 'V', a1, a2, 1, 1, 0), 30) for a1, a2 in ((7, 7), (9, 9))]
    res = framework.run_tasks(ts)
    E.collect(ck, res)
    E.ind_collect(ck, res)
    ck.solver_s = sum(r.get('cpu', 0) for r in res)
