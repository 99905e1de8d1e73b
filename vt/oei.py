"""One-electron integrals: specification (closed forms), atoms and proof of stored values."""
from math import comb
from fractions import Fraction
import math
from . import terms as T, scen
from .eri import carts, up, Z3

PI = Fraction(math.pi)
C = T.const
def fact2(n):
    r = 1
    while n > 1: r *= n; n -= 2
    return r
def psqrt(a):
    if a.op == '*': return T.mul(psqrt(a.args[0]), psqrt(a.args[1]))
    if a.op == '/': return T.div(psqrt(a.args[0]), psqrt(a.args[1]))
    return T.func('sqrt', a)
def tsum(xs):
    r = T.ZERO
    for x in xs: r = T.add(r, x)
    return r
def tmul(*xs):
    r = T.ONE
    for x in xs: r = T.mul(r, x)
    return r
def tpow(x, n):
    r = T.ONE
    for _ in range(n): r = T.mul(r, x)
    return r

def closed_S(a, b, PA, PB, o2p, s0):
    """one-dimensional overlap of (x-A)^a and (x-B)^b by the binomial expansion about P"""
    r = T.ZERO
    for k in range((a + b) // 2 + 1):
        f = T.ZERO; j = 2 * k
        for l in range(max(0, j - b), min(a, j) + 1):
            f = T.add(f, tmul(C(comb(a, l) * comb(b, j - l)), tpow(PA, a - l), tpow(PB, b - (j - l))))
        r = T.add(r, tmul(C(fact2(j - 1)), tpow(o2p, k), f))
    return T.mul(s0, r)
def closed_T(a, b, beta, S):
    """-1/2 times the second derivative of the ket function, S(a,b) the overlaps"""
    r = tmul(C(2 * b + 1), beta, S(a, b))
    if b > 1: r = T.sub(r, T.mul(C(Fraction(b * (b - 1), 2)), S(a, b - 2)))
    return T.sub(r, tmul(C(2), beta, beta, S(a, b + 2)))

def rel_S(a, b, side, PA, PB, o2p, S):
    """Obara-Saika relation for the overlap that lowers one side"""
    if side == 0:
        r = T.mul(PA, S(a - 1, b))
        if a > 1: r = T.add(r, tmul(C(a - 1), o2p, S(a - 2, b)))
        if b > 0: r = T.add(r, tmul(C(b), o2p, S(a - 1, b - 1)))
    else:
        r = T.mul(PB, S(a, b - 1))
        if b > 1: r = T.add(r, tmul(C(b - 1), o2p, S(a, b - 2)))
        if a > 0: r = T.add(r, tmul(C(a), o2p, S(a - 1, b - 1)))
    return r
def rel_T(a, b, side, PA, PB, o2p, al, be, oop, S, K):
    mu2 = tmul(C(2), al, be, oop)
    if side == 0:
        r = T.add(T.mul(PA, K(a - 1, b)), T.mul(mu2, S(a, b)))
        if a > 1: r = T.sub(T.add(r, tmul(C(a - 1), o2p, K(a - 2, b))), tmul(C(a - 1), be, oop, S(a - 2, b)))
        if b > 0: r = T.add(r, tmul(C(b), o2p, K(a - 1, b - 1)))
    else:
        r = T.add(T.mul(PB, K(a, b - 1)), T.mul(mu2, S(a, b)))
        if b > 1: r = T.sub(T.add(r, tmul(C(b - 1), o2p, K(a, b - 2))), tmul(C(b - 1), al, oop, S(a, b - 2)))
        if a > 0: r = T.add(r, tmul(C(a), o2p, K(a - 1, b - 1)))
    return r

def lemmas(n, nk):
    """the closed forms satisfy the relations used to prove stored values; returns (number proved, failures)"""
    T.reset(); T.EPOCH[0] += 1
    PA, PB, o, s0 = T.var(('PA',)), T.var(('PB',)), T.var(('o2p',)), T.var(('s0',)); done = 0; bad = []
    S = lambda a, b: closed_S(a, b, PA, PB, o, s0)
    for a in range(n + 1):
        for b in range(n + 1):
            for side in (0, 1):
                if (a, b)[side] == 0: continue
                done += 1
                if not T.equal(S(a, b), rel_S(a, b, side, PA, PB, o, S)): bad.append('overlap relation %d at (%d,%d)' % (side, a, b))
    # kinetic energy: in terms of exponents and the centre difference.  1/p is an atom u with b = 1/u - a
    al, ab, u = T.var(('al',)), T.var(('AB',)), T.var(('be',))
    be = u; p = T.add(al, be); oop = T.div(T.ONE, p); PA = T.neg(tmul(be, ab, oop)); PB = tmul(al, ab, oop); o = T.mul(C(Fraction(1, 2)), oop)
    S = lambda a, b: closed_S(a, b, PA, PB, o, s0)
    K = lambda a, b: closed_T(a, b, be, S)
    K2 = lambda a, b: closed_T(b, a, al, lambda x, y: S(y, x))
    for a in range(nk + 1):
        for b in range(nk + 1):
            done += 1
            if not T.equal(K(a, b), K2(a, b)): bad.append('kinetic energy from either side at (%d,%d)' % (a, b))
            for side in (0, 1):
                if (a, b)[side] == 0: continue
                done += 1
                if not T.equal(K(a, b), rel_T(a, b, side, PA, PB, o, al, be, oop, S, K)): bad.append('kinetic energy relation %d at (%d,%d)' % (side, a, b))
    return done, bad

class OEI:
    """atoms of one pair of shells and the proof of stored values"""
    def __init__(self, A, B, kind, centers=()):
        self.A = A; self.B = B; self.kind = kind; self.tab = {}; self.proved = dict(base=0, rel=0, out=0); self.centers = centers
        self.geo = {}; self.clos = {}; self.bases = []
        for i in range(A.n):
            for j in range(B.n):
                if kind == 'V': self.init_V(i, j)
                else: self.init_S(i, j)
    def G(self, i, j):
        g = self.geo.get((i, j))
        if g is None:
            A, B = self.A, self.B; a, b = A.al(i), B.al(j); p = T.add(a, b); oop = T.div(T.ONE, p)
            Pt = [T.mul(T.add(T.mul(a, A.X(d)), T.mul(b, B.X(d))), oop) for d in range(3)]
            ab = [T.sub(A.X(d), B.X(d)) for d in range(3)]; mu = tmul(a, b, oop)
            g = self.geo[(i, j)] = dict(a=a, b=b, p=p, oop=oop, P=Pt, PA=[T.sub(Pt[d], A.X(d)) for d in range(3)], PB=[T.sub(Pt[d], B.X(d)) for d in range(3)], o2p=T.mul(C(Fraction(1, 2)), oop), AB=ab, mu=mu,
                s0=[T.mul(T.div(T.func('sqrt', C(PI)), T.func('sqrt', p)), T.func('exp', T.neg(T.mul(mu, T.mul(ab[d], ab[d]))))) for d in range(3)])
        return g
    def reg(self, key, closed):
        """atom of a specified value"""
        if closed.fp == 0: a = T.ZERO
        else:
            e = self.tab.get(closed.fp)
            if e is None: e = self.tab[closed.fp] = (T.var(key, closed.fp), [])
            a = e[0]; e[1].append(key)
        self.clos[key] = (a, closed)
        return a
    # ---- overlap and kinetic energy
    def init_S(self, i, j):
        g = self.G(i, j); e = 2 if self.kind == 'T' else 0
        for d in range(3):
            cs = {}
            for a in range(self.A.am + 1 + e):
                for b in range(self.B.am + 1 + e):
                    cs[a, b] = closed_S(a, b, g['PA'][d], g['PB'][d], g['o2p'], g['s0'][d]); self.reg(('S', i, j, d, a, b), cs[a, b])
            if e:
                for a in range(self.A.am + 1):
                    for b in range(self.B.am + 1): self.reg(('T', i, j, d, a, b), closed_T(a, b, g['b'], lambda x, y: cs[x, y]))
        for d in range(3):
            self.bases.append((('S', i, j, d, 0, 0), g['s0'][d]))
    def S(self, i, j, d): return lambda a, b: self.clos['S', i, j, d, a, b][0]
    def K(self, i, j, d): return lambda a, b: self.clos['T', i, j, d, a, b][0]
    def defs(self, key):
        """right-hand sides that prove a stored value to be the one named key"""
        if key[0] == 'Th': yield from self.defs_V(key); return
        k, i, j, d, a, b = key; g = self.G(i, j); S = self.S(i, j, d)
        if k == 'S':
            if a == b == 0: yield g['s0'][d]
            for side in (0, 1):
                if (a, b)[side]: yield rel_S(a, b, side, g['PA'][d], g['PB'][d], g['o2p'], S)
        else:
            for side in (0, 1):
                if (a, b)[side]: yield rel_T(a, b, side, g['PA'][d], g['PB'][d], g['o2p'], g['a'], g['b'], g['oop'], S, self.K(i, j, d))
            if a == b == 0:
                yield T.mul(S(0, 0), T.sub(g['a'], tmul(C(2), g['a'], g['a'], T.add(T.mul(g['PA'][d], g['PA'][d]), g['o2p']))))
                yield T.mul(S(0, 0), T.sub(g['b'], tmul(C(2), g['b'], g['b'], T.add(T.mul(g['PB'][d], g['PB'][d]), g['o2p']))))
            yield closed_T(a, b, g['b'], S)
            yield closed_T(b, a, g['a'], lambda x, y: S(y, x))
    # ---- nuclear attraction
    def init_V(self, i, j):
        am1, am2 = self.A.am, self.B.am; g = self.G(i, j); n = am1 + am2
        for c, (Z, X) in enumerate(self.centers):
            PC = [T.sub(g['P'][d], X[d]) for d in range(3)]; x = T.mul(g['p'], tsum(T.mul(q, q) for q in PC))
            pre = tmul(C(2 * PI), g['oop'], T.func('exp', T.neg(T.mul(g['mu'], tsum(T.mul(q, q) for q in g['AB'])))))
            g['PC', c] = PC; g['x', c] = x; g['pre', c] = pre
            self.args = getattr(self, 'args', {}); self.args.setdefault(x.fp, []).append((c, i, j))
            fk = self.args[x.fp][0]   # the Boys function depends on the argument only
            for m in range(n + 1):
                f = T.mul(pre, T.var(('F',) + fk + (m,)))
                self.reg(('Th', c, i, j, m, Z3, Z3), f); self.bases.append((('Th', c, i, j, m, Z3, Z3), f))
            for la in range(am1 + 1):
                for lb in range(am2 + 1):
                    if la + lb == 0: continue
                    for m in range(n - la - lb + 1):
                        for a in carts(la):
                            for b in carts(lb):
                                X_, d = next((X_, d) for X_ in (1, 0) for d in range(3) if (a, b)[X_][d])
                                self.reg(('Th', c, i, j, m, a, b), self.rel_V(c, i, j, m, a, b, X_, d, lambda *k: self.clos[('Th', c, i, j) + k][1]))
    def rel_V(self, c, i, j, m, a, b, X, d, V):
        g = self.G(i, j); q = [a, b]; o = g['o2p']; lo = list(q); lo[X] = up(q[X], d, -1); PX = g['PB' if X else 'PA'][d]
        r = T.sub(T.mul(PX, V(m, *lo)), T.mul(g['PC', c][d], V(m + 1, *lo)))
        for Y in (0, 1):
            n = lo[Y][d]
            if n:
                l2 = list(lo); l2[Y] = up(lo[Y], d, -1)
                r = T.add(r, tmul(C(n), o, T.sub(V(m, *l2), V(m + 1, *l2))))
        return r
    def defs_V(self, key):
        _, c, i, j, m, a, b = key
        V = lambda *k: self.clos[('Th', c, i, j) + k][0]
        if a == b == Z3: yield self.clos[key][1]; return
        for X in (1, 0):
            for d in range(3):
                if (a, b)[X][d]: yield self.rel_V(c, i, j, m, a, b, X, d, V)
    def boys(self, ex, args, L):
        """contract of boys_F_split"""
        from .execu import Ptr, Violation
        F, x, n = args
        ty = ('vec', L, ('double',)) if L > 1 else ('double',)
        if isinstance(x, Ptr): x = ex.load(x, ty, 8 * L, 8)
        x0 = T.lane(x, 0) if L > 1 else x
        for c, i, j in self.args.get(x0.fp, ()):
            if T.equal(x0, self.G(i, j)['x', c]):
                for m in range(n + 1): ex.store(Ptr(F.obj, F.off + 8 * L * m), ty, T.vec([T.var(('F', c, i, j, m))] + [T.var('undef')] * (L - 1)) if L > 1 else T.var(('F', c, i, j, m)), 8 * L, 8 * L)
                return None
        raise Violation('boys-argument', 'the argument of the Boys function is not p |P-C|^2 of any primitive pair and charge', ex.where())
    # ---- abstraction of stored values
    def hook(self, ex, o, off, v, nl):
        if v.__class__ is not T.Node or v.op in 'cv' or nl > 1 or v.op == 'vec': return v
        return self.rewrite(v)
    def rewrite(self, v):
        """replaces sub-terms by the atoms they are proved equal to"""
        memo = self.__dict__.setdefault('memo', {})
        r = memo.get(v.id)
        if r is not None: return r
        op = v.op
        if op in 'cv' or op == 'vec': r = v
        else:
            r = v
            if op != 'f':
                x, y = v.args; x2, y2 = self.rewrite(x), self.rewrite(y)
                if x2 is not x or y2 is not y: r = T.add(x2, y2) if op == '+' else T.mul(x2, y2) if op == '*' else T.div(x2, y2)
            if r.op != 'v' and r.op != 'c': r = self.prove(r)
        memo[v.id] = r
        return r
    def prove(self, v):
        e = self.tab.get(v.fp)
        if e is None:
            if v.op == '*' and self.top_exp(v):
                for key, t in self.bases:
                    if scen.approx_equal(v, t): self.proved['base'] += 1; return self.clos[key][0]
            return v
        for key in e[1]:
            for r in self.defs(key):
                if T.equal(v, r): self.proved['rel'] += 1; return e[0]
        return v
    def top_exp(self, v, n=4):
        if v.op == 'f': return v.args[0] == 'exp'
        if n and v.op in '*/': return self.top_exp(v.args[0], n - 1) or self.top_exp(v.args[1], n - 1)
        return False
    # ---- outputs
    def spec(self, a, b, which): return tsum(self.terms(a, b, which))
    def terms(self, a, b, which):
        """which: 0 atoms, 1 closed forms"""
        out = []
        for i in range(self.A.n):
            for j in range(self.B.n):
                cc = T.mul(self.A.co(i), self.B.co(j))
                if self.kind == 'V':
                    for c, (Z, X) in enumerate(self.centers): out.append(T.neg(tmul(Z, cc, self.clos['Th', c, i, j, 0, a, b][which])))
                    continue
                s = [self.clos['S', i, j, d, a[d], b[d]][which] for d in range(3)]
                if self.kind == 'S': out.append(tmul(cc, *s)); continue
                t = [self.clos['T', i, j, d, a[d], b[d]][which] for d in range(3)]
                out.append(T.mul(cc, tsum([tmul(t[0], s[1], s[2]), tmul(s[0], t[1], s[2]), tmul(s[0], s[1], t[2])])))
        return out
