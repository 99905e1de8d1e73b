"""Floating-point reference (from the same Obara-Saika specification) used only to replay violations."""
import math, random
from .eri import up, Z3, XYZ, carts, ncart

def boys(m, x):
    if x < 40:
        # series: F_m = exp(-x) sum (2x)^k / ((2m+1)(2m+3)...)
        t = 1.0 / (2 * m + 1); s = t; k = 1
        while t > s * 1e-17 and k < 2000:
            t *= 2 * x / (2 * m + 2 * k + 1); s += t; k += 1
        return math.exp(-x) * s
    f = 0.5 * math.sqrt(math.pi / x)
    for n in range(m): f = ((2 * n + 1) * f - math.exp(-x)) / (2 * x)
    return f

class NumPair:
    def __init__(self, model, rng, tiny=0.0):
        self.m = model
        n = len(model.nprims)
        self.A = [[rng.uniform(-1, 1) for _ in range(3)] for _ in range(n)]
        self.B = [[rng.uniform(-1, 1) for _ in range(3)] for _ in range(n)]
        fs = ['alpha', 'alpha2', 'beta2', 'prefac', 'screen'] + [p + x for p in ('', 'PA_', 'PB_') for x in XYZ]
        self.f = {k: [0.0] * model.size for k in fs}
        for p in range(model.size):
            s = model.prim_shell[p]
            if s is None: self.f['alpha'][p] = 1.0; continue
            a, b = rng.uniform(.3, 2.5), rng.uniform(.3, 2.5)
            self.f['alpha'][p] = a + b; self.f['alpha2'][p] = 2 * a; self.f['beta2'][p] = 2 * b
            self.f['prefac'][p] = rng.uniform(.5, 2.0); self.f['screen'][p] = rng.uniform(.5, 2.0)
            if tiny and rng.random() < tiny: self.f['prefac'][p] *= 1e-13; self.f['screen'][p] *= 1e-13
            for d, x in enumerate(XYZ):
                c = (a * self.A[s][d] + b * self.B[s][d]) / (a + b)
                self.f[x][p] = c; self.f['PA_' + x][p] = c - self.A[s][d]; self.f['PB_' + x][p] = c - self.B[s][d]
        self.f['screen_max'] = max([self.f['screen'][p] for p in range(model.size)] + [0.0])
    def AB(self, s, d): return self.A[s][d] - self.B[s][d]

def theta(P, i, Q, j):
    f, g = P.f, Q.f
    p, q = f['alpha'][i], g['alpha'][j]
    al = p * q / (p + q)
    PQ = [f[x][i] - g[x][j] for x in XYZ]
    X = al * sum(v * v for v in PQ)
    pre = f['prefac'][i] * g['prefac'][j] / math.sqrt(p + q)
    WP = [-q / (p + q) * v for v in PQ]; WQ = [p / (p + q) * v for v in PQ]
    off = [[f['PA_' + x][i] for x in XYZ], [f['PB_' + x][i] for x in XYZ], [g['PA_' + x][j] for x in XYZ], [g['PB_' + x][j] for x in XYZ]]
    memo = {}; bm = {}
    def th(m, q4):
        k = (m, q4)
        if k in memo: return memo[k]
        for C in range(4):
            for d in range(3):
                if q4[C][d]:
                    lo = q4[:C] + (up(q4[C], d, -1),) + q4[C + 1:]
                    bra = C < 2
                    W = WP if bra else WQ
                    r = off[C][d] * th(m, lo) + W[d] * th(m + 1, lo)
                    i2 = 1 / (2 * (p if bra else q)); ao = al / (p if bra else q)
                    for Y in ((0, 1) if bra else (2, 3)):
                        n = lo[Y][d]
                        if n:
                            l2 = lo[:Y] + (up(lo[Y], d, -1),) + lo[Y + 1:]
                            r += n * i2 * (th(m, l2) - ao * th(m + 1, l2))
                    for Y in ((2, 3) if bra else (0, 1)):
                        n = lo[Y][d]
                        if n:
                            l2 = lo[:Y] + (up(lo[Y], d, -1),) + lo[Y + 1:]
                            r += n / (2 * (p + q)) * th(m + 1, l2)
                    memo[k] = r
                    return r
        if m not in bm: bm[m] = boys(m, X)
        return pre * bm[m]
    return th

def reference(P, Q, der, am, tol2=0.0):
    """list of lists: admissible values; with screening on a primitive pair below tol may be dropped, so only totals
    with nothing droppable are compared"""
    out = []
    C = [carts(l) for l in am]
    mp, mq = P.m, Q.m
    for ab in range(mp.clip):
        for cd in range(mq.clip):
            ths = []
            for i in range(mp.start[ab], mp.start[ab] + mp.nprims[ab]):
                for j in range(mq.start[cd], mq.start[cd] + mq.nprims[cd]):
                    ths.append((theta(P, i, Q, j), (P.f['alpha2'][i], P.f['beta2'][i], Q.f['alpha2'][j], Q.f['beta2'][j])))
            for a in C[0]:
                for b in C[1]:
                    for c in C[2]:
                        for d in C[3]:
                            q = (a, b, c, d)
                            if not der: out.append(sum(t(0, q) for t, w in ths)); continue
                            for X in range(4):
                                for dd in range(3):
                                    hi = q[:X] + (up(q[X], dd),) + q[X + 1:]
                                    v = 0.0
                                    n = q[X][dd]
                                    lo = q[:X] + (up(q[X], dd, -1),) + q[X + 1:]
                                    for t, w in ths:
                                        v += w[X] * t(0, hi)
                                        if n: v -= n * t(0, lo)
                                    out.append(v)
    return out

def slack(P, Q, der, am, tol2):
    """how much screening with the squared tolerance tol2 may change each value: the sum of the absolute
    contributions of the primitive combinations whose estimate is below it"""
    out = []
    C = [carts(l) for l in am]; mp, mq = P.m, Q.m
    for ab in range(mp.clip):
        for cd in range(mq.clip):
            ths = []
            for i in range(mp.start[ab], mp.start[ab] + mp.nprims[ab]):
                for j in range(mq.start[cd], mq.start[cd] + mq.nprims[cd]):
                    if P.f['screen'][i] * Q.f['screen'][j] < tol2:
                        ths.append((theta(P, i, Q, j), (P.f['alpha2'][i], P.f['beta2'][i], Q.f['alpha2'][j], Q.f['beta2'][j])))
            for a in C[0]:
                for b in C[1]:
                    for c in C[2]:
                        for d in C[3]:
                            q = (a, b, c, d)
                            if not der: out.append(sum(abs(t(0, q)) for t, w in ths)); continue
                            for X in range(4):
                                for dd in range(3):
                                    v = 0.0; n = q[X][dd]
                                    hi = q[:X] + (up(q[X], dd),) + q[X + 1:]; lo = q[:X] + (up(q[X], dd, -1),) + q[X + 1:]
                                    for t, w in ths: v += abs(w[X] * t(0, hi)) + (n * abs(t(0, lo)) if n else 0)
                                    out.append(v)
    return out
