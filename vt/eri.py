"""Specification of the two-electron integrals and the verification driver for one class.

Ghost values (see DESIGN.md, "ERI contract"):
  Th(i,J,m,a,b,c,d)  auxiliary integral Theta^m of bra primitive i and ket vector J (lane-wise)
  S(i,p,a,b,c,d)     Theta^0 of one primitive quartet (a lane of the above)
  Om(w,ab,cd,a..d)   sum over the primitives of shell pairs ab, cd of weight w times S
Trusted axioms: Obara-Saika recurrences per centre and direction, the base case, the horizontal
recurrence, and (derivatives) the Gaussian derivative rule and translational invariance.
"""
from fractions import Fraction
from . import terms as T, layout
from .terms import MP
from .execu import *
from .lib import LibExec, drop
from . import execu

def carts(l):
    return [(x, y, l - x - y) for x in range(l, -1, -1) for y in range(l - x, -1, -1)]
Z3 = (0, 0, 0)
def up(a, d, k=1): return a[:d] + (a[d] + k,) + a[d + 1:]
XYZ = 'xyz'

def rnd(*k): return T.hash_fp(*k)
def finv(x): return pow(x, MP - 2, MP)

class Pair:
    """model of a multi shell pair: what simint_fill_multi_shellpair establishes (see shellpair property)"""
    def __init__(self, tag, nprims, clip, am1, am2, lay, screen=True, der=True):
        self.tag = tag; self.nprims = list(nprims); self.clip = clip; self.am = (am1, am2)
        L, NS = lay['L'], lay['NS']; self.L = L; self.lay = lay
        self.prim_shell = []      # position -> shell or None (padding)
        self.start = []
        for s, n in enumerate(self.nprims):
            self.start.append(len(self.prim_shell))
            self.prim_shell += [s] * n
            if (s + 1) % NS == 0 or s + 1 == len(self.nprims):
                while len(self.prim_shell) % L: self.prim_shell.append(None)
        self.size = len(self.prim_shell)
        self.screen = screen; self.der = der
        self._g = {}
    def valid(self, p): return 0 <= p < self.size and self.prim_shell[p] is not None
    # fingerprints: consistent geometry
    def geo(self, key):
        """key: prim index, or ('V',J) for the generic primitive standing for a vector"""
        g = self._g.get(key)
        if g is None:
            t = self.tag
            if isinstance(key, int):
                s = self.prim_shell[key]
                A = [rnd(t, 'A', s, d) for d in range(3)]; B = [rnd(t, 'B', s, d) for d in range(3)]
            else:
                A = [rnd(t, 'A', key, d) for d in range(3)]; B = [rnd(t, 'B', key, d) for d in range(3)]
            a2 = rnd(t, 'al2', key); b2 = rnd(t, 'be2', key)
            p = (a2 + b2) * finv(2) % MP
            i2p = finv(a2 + b2)
            x = [(a2 * A[d] + b2 * B[d]) * i2p % MP for d in range(3)]
            g = dict(alpha=p, alpha2=a2, beta2=b2, prefac=rnd(t, 'pf', key), screen=rnd(t, 'sc', key))
            for d in range(3):
                g[XYZ[d]] = x[d]; g['PA_' + XYZ[d]] = (x[d] - A[d]) % MP; g['PB_' + XYZ[d]] = (x[d] - B[d]) % MP
            self._g[key] = g
        return g
    PADV = {'alpha': 1}
    def atom(self, f, p):
        if not self.valid(p): return T.const(self.PADV.get(f, 0))
        return T.var((self.tag, f, p), self.geo(p)[f])
    def vatom(self, f, J):
        if self.L == 1: return self.atom(f, J)
        return T.var((self.tag, f, ('V', J)), self.geo(('V', J))[f])
    def AB(self, s, d):
        return T.var((self.tag, 'AB_' + XYZ[d], s), (rnd(self.tag, 'A', s, d) - rnd(self.tag, 'B', s, d)) % MP)
    def objects(self, ex):
        """memory of the structure; returns Ptr to the struct object"""
        lay, ssz = self.lay['simint_multi_shellpair']
        o = Obj(self.tag, ssz, 8, ro=True)
        n = len(self.nprims)
        def put(f, sz, v):
            if f in lay: o.cells[lay[f]] = (sz, v, 1)
        put('am1', 4, self.am[0]); put('am2', 4, self.am[1])
        put('nprim', 4, sum(self.nprims)); put('nshell12', 4, n); put('nshell12_clip', 4, self.clip)
        np_ = Obj(self.tag + '.nprim12', 4 * n, 64, ro=True)
        for k, v in enumerate(self.nprims): np_.cells[4 * k] = (4, v, 1)
        put('nprim12', 8, Ptr(np_, 0))
        self.objs = {'nprim12': np_}
        for d in range(3):
            f = 'AB_' + XYZ[d]
            ao = Obj(self.tag + '.' + f, 8 * n, 64, ro=True)
            for s in range(n): ao.cells[8 * s] = (8, self.AB(s, d), 1)
            put(f, 8, Ptr(ao, 0)); self.objs[f] = ao
        fs = ['x', 'y', 'z', 'PA_x', 'PA_y', 'PA_z', 'PB_x', 'PB_y', 'PB_z', 'alpha', 'prefac', 'alpha2', 'beta2']
        if self.screen: fs.append('screen')
        else: put('screen', 8, NULL)
        for f in fs:
            if f not in lay: continue
            ao = Obj(self.tag + '.' + f, 8 * self.size, 64, ro=True)
            ao.reader = self.reader(f)
            put(f, 8, Ptr(ao, 0)); self.objs[f] = ao
        put('screen_max', 8, T.var((self.tag, 'screen_max')))
        put('memsize', 8, 0)
        put('ptr', 8, NULL)
        for a in self.objs.values(): a.meta = ('pair', self)
        return Ptr(o, 0)
    def reader(self, f):
        def rd(ex, off, t, sz):
            if t[0] == 'double': return self.atom(f, off // 8)
            if t[0] == 'vec' and t[1] == self.L: return self.vatom(f, off // 8)
            if t[0] == 'vec': return None
            return None
        return rd

def lane_of(n, k, ctx):
    """lane hook: n an atom"""
    key = n.args
    if not isinstance(key, tuple): return None
    if key[0] in ('P', 'Q'):
        if isinstance(key[2], tuple):
            return ctx.pairs[key[0]].atom(key[1], key[2][1] + k)
        return None
    if key[0] == 'Th':
        _, i, J, m, a, b, c, d = key
        if ctx.L == 1: return None
        p = J + k
        if k >= ctx.nvalid(J): return T.ZERO      # masked or padded lane: prefactor 0
        assert m == 0
        return ctx.S(i, p, a, b, c, d)
    if key[0] == 'F':
        return None
    return None

class Inst:
    """Theta^m of (bra primitive i, ket vector J)"""
    def __init__(self, ctx, i, J):
        self.ctx = ctx; self.i = i; self.J = J
        P, Q = ctx.P, ctx.Q
        g = self.g = P.geo(i); h = self.h = Q.geo(J if ctx.L == 1 else ('V', J))
        p, q = g['alpha'], h['alpha']; self.pf = p; self.qf = q
        ipq = finv(p + q)
        al = p * q % MP * ipq % MP
        self.i2p = finv(2 * p); self.i2q = finv(2 * q); self.i2pq = ipq * finv(2) % MP
        self.aop = al * finv(p) % MP; self.aoq = al * finv(q) % MP
        PQ = [(g[x] - h[x]) % MP for x in XYZ]
        self.WP = [-self.aop * v % MP for v in PQ]; self.WQ = [self.aoq * v % MP for v in PQ]
        self.fpx = (sum(v * v for v in PQ) * al) % MP
        self.memo = {}
        self.off = {0: [g['PA_' + x] for x in XYZ], 1: [g['PB_' + x] for x in XYZ], 2: [h['PA_' + x] for x in XYZ], 3: [h['PB_' + x] for x in XYZ]}
        # terms
        A, V = P.atom, Q.vatom
        self.tp = A('alpha', i); self.tq = V('alpha', J)
        s = T.add(self.tp, self.tq); self.ts = s
        self.tal = T.div(T.mul(self.tp, self.tq), s)
        self.tPQ = [T.sub(A(x, i), V(x, J)) for x in XYZ]
        self.t2p = T.div(T.ONE, T.mul(T.const(2), self.tp)); self.t2q = T.div(T.ONE, T.mul(T.const(2), self.tq)); self.t2pq = T.div(T.ONE, T.mul(T.const(2), s))
        self.taop = T.div(self.tq, s); self.taoq = T.div(self.tp, s)
        self.tWP = [T.neg(T.mul(self.taop, v)) for v in self.tPQ]; self.tWQ = [T.mul(self.taoq, v) for v in self.tPQ]
        self.toff = {0: [A('PA_' + x, i) for x in XYZ], 1: [A('PB_' + x, i) for x in XYZ], 2: [V('PA_' + x, J) for x in XYZ], 3: [V('PB_' + x, J) for x in XYZ]}
        r2 = T.ZERO
        for v in self.tPQ: r2 = T.add(r2, T.mul(v, v))
        self.tx = T.mul(r2, self.tal)
        nv = ctx.nvalid(J); L = ctx.L
        if L == 1 or nv == L: pf = V('prefac', J)
        else: pf = T.vec([Q.atom('prefac', J + k) if k < nv else T.ZERO for k in range(L)])
        self.tbase = T.mul(T.mul(A('prefac', i), pf), T.func('sqrt', T.div(T.ONE, s)))
        self.F = []
    def fatom(self, m):
        return T.var(('F', self.i, self.J, m))
    def base(self, m):
        return T.mul(self.tbase, self.fatom(m))
    def fp(self, m, q):
        k = (m, q)
        r = self.memo.get(k)
        if r is not None: return r
        # highest populated centre/direction first
        for X in range(4):
            a = q[X]
            for d in range(3):
                if a[d]:
                    r = self.rhs_fp(m, q, X, d); self.memo[k] = r
                    return r
        r = self.base(m).fp
        self.memo[k] = r
        return r
    def rhs_fp(self, m, q, X, d):
        lo = q[:X] + (up(q[X], d, -1),) + q[X + 1:]
        fp = self.fp
        bra = X < 2
        W = self.WP if bra else self.WQ
        r = self.off[X][d] * fp(m, lo) + W[d] * fp(m + 1, lo)
        i2 = self.i2p if bra else self.i2q; ao = self.aop if bra else self.aoq
        for Y in ((0, 1) if bra else (2, 3)):
            n = lo[Y][d]
            if n:
                l2 = lo[:Y] + (up(lo[Y], d, -1),) + lo[Y + 1:]
                r += n * i2 % MP * (fp(m, l2) - ao * fp(m + 1, l2))
        for Y in ((2, 3) if bra else (0, 1)):
            n = lo[Y][d]
            if n:
                l2 = lo[:Y] + (up(lo[Y], d, -1),) + lo[Y + 1:]
                r += n * self.i2pq % MP * fp(m + 1, l2)
        return r % MP
    def atom(self, m, q):
        return T.var(('Th', self.i, self.J, m) + q, self.fp(m, q))
    def rhs(self, m, q, X, d):
        """Obara-Saika relation raising centre X in direction d to q (axiom instance)"""
        lo = q[:X] + (up(q[X], d, -1),) + q[X + 1:]
        at = self.atom
        bra = X < 2
        W = self.tWP if bra else self.tWQ
        r = T.add(T.mul(self.toff[X][d], at(m, lo)), T.mul(W[d], at(m + 1, lo)))
        i2 = self.t2p if bra else self.t2q; ao = self.taop if bra else self.taoq
        for Y in ((0, 1) if bra else (2, 3)):
            n = lo[Y][d]
            if n:
                l2 = lo[:Y] + (up(lo[Y], d, -1),) + lo[Y + 1:]
                r = T.add(r, T.mul(T.mul(T.const(n), i2), T.sub(at(m, l2), T.mul(ao, at(m + 1, l2)))))
        for Y in ((2, 3) if bra else (0, 1)):
            n = lo[Y][d]
            if n:
                l2 = lo[:Y] + (up(lo[Y], d, -1),) + lo[Y + 1:]
                r = T.add(r, T.mul(T.mul(T.const(n), self.t2pq), at(m + 1, l2)))
        return r

WNAMES = {'1': None, 'a': ('P', 'alpha2'), 'b': ('P', 'beta2'), 'c': ('Q', 'alpha2'), 'd': ('Q', 'beta2')}

class Ctx:
    """specification context of one verification run"""
    def __init__(self, P, Q, lay):
        self.P = P; self.Q = Q; self.pairs = {'P': P, 'Q': Q}; self.L = lay['L']; self.NS = lay['NS']
        self.insts = {}; self.byx = {}
        self.omf = {}; self.sfp = {}
        self.proved = {'base': 0, 'os': 0, 'sum': 0, 'hrr': 0, 'x': 0, 'out': 0}
        self.failed = []
        self.vends = {}
        # ket vectors and the number of valid lanes
        L, NS = self.L, self.NS
        s = 0
        while s < Q.clip:
            e = min(s + NS, Q.clip)
            j0 = Q.start[s]; j1 = Q.start[e - 1] + Q.nprims[e - 1]
            for J in range(j0, j1, L): self.vends[J] = min(L, j1 - J)
            s += NS
        self.dropped = set()     # (i,J) legitimately screened out on this path
        self.dropped_lanes = set()   # (i,p), the same per lane
        self.canon = {}
        self.nosum = False       # keep sums over primitives written out
        T.lane_hook[0] = lambda n, k: lane_of(n, k, self)
    def nvalid(self, J): return self.vends[J]
    def inst(self, i, J):
        r = self.insts.get((i, J))
        if r is None: r = self.insts[(i, J)] = Inst(self, i, J)
        return r
    def find_x(self, x):
        """which primitive pair does a Boys argument belong to"""
        if not self.byx:
            for i in range(self.P.size):
                if not self.P.valid(i) or self.P.prim_shell[i] >= self.P.clip: continue
                for J in self.vends: self.byx.setdefault(self.inst(i, J).fpx, []).append((i, J))
        for i, J in self.byx.get(x.fp, ()):
            I = self.inst(i, J)
            if T.equal(x, I.tx):
                self.proved['x'] += 1
                return I
        return None
    # ------------------------------------------------ scalar primitive quartets
    def S_fp(self, i, p, q):
        if self.L == 1: return self.inst(i, p).fp(0, q)
        k = (i, p, q)
        r = self.sfp.get(k)
        if r is None:
            a, b, c, d = q
            if b == Z3 and d == Z3: r = rnd('S', i, p, q)
            else:
                if b != Z3: X, Y, pr = 1, 0, (self.P, self.P.prim_shell[i])
                else: X, Y, pr = 3, 2, (self.Q, self.Q.prim_shell[p])
                dd = next(z for z in range(3) if q[X][z])
                lo = q[:X] + (up(q[X], dd, -1),) + q[X + 1:]
                hi = lo[:Y] + (up(lo[Y], dd),) + lo[Y + 1:]
                r = (self.S_fp(i, p, hi) + pr[0].AB(pr[1], dd).fp * self.S_fp(i, p, lo)) % MP
            self.sfp[k] = r
        return r
    def S_canon(self, i, p, q):
        """one primitive quartet in terms of those without momentum on the second and fourth centre (horizontal recurrence)"""
        k = (i, p, q)
        r = self.canon.get(k)
        if r is not None: return r
        a, b, c, d = q
        if b == Z3 and d == Z3:
            r = self.inst(i, p).atom(0, q) if self.L == 1 else T.var(('S', i, p) + q, self.S_fp(i, p, q))
        else:
            if b != Z3: X, Y, pr, s = 1, 0, self.P, self.P.prim_shell[i]
            else: X, Y, pr, s = 3, 2, self.Q, self.Q.prim_shell[p]
            dd = next(z for z in range(3) if q[X][z])
            lo = q[:X] + (up(q[X], dd, -1),) + q[X + 1:]
            hi = lo[:Y] + (up(lo[Y], dd),) + lo[Y + 1:]
            r = T.add(self.S_canon(i, p, hi), T.mul(pr.AB(s, dd), self.S_canon(i, p, lo)))
        self.canon[k] = r
        return r
    def canonical(self, v, memo):
        r = memo.get(v.id)
        if r is not None: return r
        op = v.op
        if op == 'v':
            k = v.args; r = v
            if isinstance(k, tuple):
                if k[0] == 'Th' and self.L == 1 and k[3] == 0: r = self.S_canon(k[1], k[2], k[4:])
                elif k[0] == 'S': r = self.S_canon(k[1], k[2], k[3:])
        elif op == 'c': r = v
        else:
            a = [self.canonical(x, memo) if isinstance(x, T.Node) else x for x in v.args]
            if op == '+': r = T.add(*a)
            elif op == '*': r = T.mul(*a)
            elif op == '/': r = T.div(*a)
            elif op == 'f': r = T.func(*a)
            else: r = T.vec(a)
        memo[v.id] = r
        return r
    def S(self, i, p, a, b, c, d):
        q = (a, b, c, d)
        if self.nosum: return self.S_canon(i, p, q)
        if self.L == 1: return self.inst(i, p).atom(0, q)
        return T.var(('S', i, p) + q, self.S_fp(i, p, q))
    def w(self, w, i, p):
        f = WNAMES[w]
        if f is None: return T.ONE
        return (self.P.atom(f[1], i) if f[0] == 'P' else self.Q.atom(f[1], p))
    def quartet_prims(self, ab, cd):
        i0 = self.P.start[ab]; p0 = self.Q.start[cd]
        for i in range(i0, i0 + self.P.nprims[ab]):
            for p in range(p0, p0 + self.Q.nprims[cd]):
                if (i, p) not in self.dropped_lanes and (i, self.vec_of(p)) not in self.dropped: yield i, p
    def vec_of(self, p):
        if self.L == 1: return p
        for J, n in self.vends.items():
            if J <= p < J + n: return J
        return None
    def om_fp(self, w, ab, cd, q):
        k = (w, ab, cd, q)
        r = self.omf.get(k)
        if r is None:
            r = 0
            for i, p in self.quartet_prims(ab, cd): r += self.w(w, i, p).fp * self.S_fp(i, p, q)
            r %= MP
            self.omf[k] = r
        return r
    def om(self, w, ab, cd, q):
        if not any(True for _ in self.quartet_prims(ab, cd)): return T.ZERO
        return T.var(('Om', w, ab, cd) + q, self.om_fp(w, ab, cd, q))
    def om_sum(self, w, ab, cd, q):
        r = T.ZERO
        for i, p in self.quartet_prims(ab, cd): r = T.add(r, T.mul(self.w(w, i, p), self.S(i, p, *q)))
        return r

    # ------------------------------------------------ abstraction of stored values
    def leaves(self, n):
        v = n.info
        if v is not None: return v
        op = n.op
        if op == 'v':
            k = n.args
            v = (n,) if isinstance(k, tuple) and k[0] in ('Th', 'F', 'S', 'Om') else ()
        elif op == 'c': v = ()
        else:
            args = n.args if op != 'f' else n.args[1:]
            s = None; v = ()
            for x in args:
                lx = self.leaves(x)
                if lx:
                    if not v: v = lx
                    elif lx is not v:
                        v = v + tuple(y for y in lx if y not in v) if len(v) < 24 else v
        n.info = v
        return v

    def abstract(self, ex, o, off, v, nl):
        if v.__class__ is not T.Node: return v
        op = v.op
        if op == 'c': return v
        if op == 'v':
            k = v.args
            if self.L > 1 and not self.nosum and isinstance(k, tuple) and k[0] == 'S':
                ab = self.P.prim_shell[k[1]]; cd = self.Q.prim_shell[k[2]]
                it = self.quartet_prims(ab, cd); next(it)
                if next(it, None) is None:
                    self.proved['sum'] += 1
                    return self.om('1', ab, cd, k[3:])
            return v
        lv = self.leaves(v)
        if not lv: return v
        best = max(lv, key=_am)
        kind = best.args[0]
        if nl > 1 and (op == 'vec' or kind in ('S', 'Om')):
            return T.vec([self.abstract(ex, o, off, T.lane(v, k), 1) for k in range(nl)])
        if op == 'vec': return v
        r = None
        if kind == 'F': r = self.abs_base(v, best)
        elif kind == 'Th' and (nl > 1 or self.L == 1):
            r = self.abs_os(v, best)
        if self.nosum: return v if r is None else r
        if r is None and (kind == 'S' or (kind == 'Th' and self.L == 1)) : r = self.abs_sum(v, best)
        elif r is None and all(x.args[0] == 'Om' for x in lv): r = self.abs_hrr(v, lv)
        if r is None and self.L == 1 and kind == 'Th':
            # quartets of a single primitive combination: Theta^0 is the contracted integral
            v2 = self.single(v, {})
            if v2 is not v and v2.op != 'v':
                lv2 = self.leaves(v2)
                if all(x.args[0] == 'Om' for x in lv2): r = self.abs_hrr(v2, lv2)
        if r is None: return v
        return r
    def single(self, v, memo):
        r = memo.get(v.id)
        if r is not None: return r
        op = v.op
        if op == 'c': r = v
        elif op == 'v':
            k = v.args; r = v
            if isinstance(k, tuple) and k[0] == 'Th' and k[3] == 0:
                ab = self.P.prim_shell[k[1]]; cd = self.Q.prim_shell[k[2]]
                it = self.quartet_prims(ab, cd); next(it, None)
                if next(it, None) is None:
                    self.proved['sum'] += 1
                    r = self.om('1', ab, cd, k[4:])
        else:
            a = [self.single(x, memo) if isinstance(x, T.Node) else x for x in v.args]
            r = T.add(*a) if op == '+' else T.mul(*a) if op == '*' else T.div(*a) if op == '/' else T.func(*a) if op == 'f' else T.vec(a)
        memo[v.id] = r
        return r
    def abs_base(self, v, best):
        _, i, J, m = best.args
        I = self.inst(i, J)
        at = I.atom(m, (Z3,) * 4)
        if at.fp == v.fp and T.equal(v, I.base(m)):
            self.proved['base'] += 1
            return at
        return None
    def abs_os(self, v, best):
        _, i, J, m, a, b, c, d = best.args
        I = self.inst(i, J); q = (a, b, c, d); fpv = v.fp
        for mm in (m, m - 1):
            if mm < 0: continue
            for X in range(4):
                for dd in range(3):
                    q2 = q[:X] + (up(q[X], dd),) + q[X + 1:]
                    if I.fp(mm, q2) == fpv:
                        at = I.atom(mm, q2)
                        if T.equal(v, I.rhs(mm, q2, X, dd)):
                            self.proved['os'] += 1; return at
                        for X2 in range(4):
                            for d2 in range(3):
                                if q2[X2][d2] and (X2, d2) != (X, dd) and T.equal(v, I.rhs(mm, q2, X2, d2)):
                                    self.proved['os'] += 1; return at
        return None
    def abs_sum(self, v, best):
        if self.L == 1:
            _, i, J, m, a, b, c, d = best.args; p = J
            if m: return None
        else: _, i, p, a, b, c, d = best.args
        ab = self.P.prim_shell[i]; cd = self.Q.prim_shell[p]; q = (a, b, c, d)
        for w in ('1', 'a', 'b', 'c', 'd') if self.P.der else ('1',):
            if self.om_fp(w, ab, cd, q) == v.fp:
                if T.equal(v, self.om_sum(w, ab, cd, q)):
                    self.proved['sum'] += 1
                    return self.om(w, ab, cd, q)
        return None
    def abs_hrr(self, v, lv):
        fpv = v.fp
        lo = min(lv, key=_am); hi = max(lv, key=_am)
        _, w, ab, cd, a, b, c, d = lo.args
        q = (a, b, c, d)
        for X, Y, pr, s in ((1, 0, self.P, ab), (3, 2, self.Q, cd)):
            for dd in range(3):
                AB = pr.AB(s, dd)
                qx = q[:X] + (up(q[X], dd),) + q[X + 1:]; qy = q[:Y] + (up(q[Y], dd),) + q[Y + 1:]
                if self.om_fp(w, ab, cd, qx) == fpv and T.equal(v, T.add(self.om(w, ab, cd, qy), T.mul(AB, lo))):
                    self.proved['hrr'] += 1; return self.om(w, ab, cd, qx)
                if self.om_fp(w, ab, cd, qy) == fpv and T.equal(v, T.sub(self.om(w, ab, cd, qx), T.mul(AB, lo))):
                    self.proved['hrr'] += 1; return self.om(w, ab, cd, qy)
        return None

def _am(n):
    k = n.args
    if k[0] == 'F': return -1
    if k[0] == 'Th': return sum(map(sum, k[4:])) * 64 + k[3]
    if k[0] == 'S': return sum(map(sum, k[3:]))
    return sum(map(sum, k[4:]))

def boys_contract(ctx):
    """contract of boys_F_split(F, x, n): F[0..n] are the Boys functions of x (lane-wise)"""
    def h(ex, args):
        F, x, n = args
        if isinstance(x, Ptr): x = ex.load(x, ('vec', ctx.L, ('double',)) if ctx.L > 1 else ('double',), 8 * ctx.L, 8)
        I = ctx.find_x(x)
        if I is None:
            raise Violation('boys-argument', 'the argument of the Boys function is not R^2 pq/(p+q) of any (bra primitive, ket vector)', ex.where())
        t = ('vec', ctx.L, ('double',)) if ctx.L > 1 else ('double',)
        for m in range(n + 1):
            ex.store(Ptr(F.obj, F.off + 8 * ctx.L * m), t, I.fatom(m), 8 * ctx.L, 8 * ctx.L)
        return None
    return h

def show_atom(n):
    return T.show(n, 3)

# ------------------------------------------------------------------ bounded driver
CONF = {   # (bra shells, bra clip, ket shells, ket clip) by SIMD length; see DESIGN.md for what each exercises
    'light': {1: ([2, 3, 2, 2], 3, [1, 2, 1], 2), 2: ([2, 1, 2, 2, 1, 2, 1], 6, [1, 2, 1, 3, 2, 1, 2], 6),
              4: ([2, 1, 1, 1, 2, 1, 1, 2, 1, 2], 9, [1, 2, 1, 4, 5, 1, 1, 1, 3, 2, 1], 10),
              8: ([2, 1], 2, [1, 2, 1, 4, 5, 1, 1, 1, 3, 9, 1], 10)},
    'mid': {1: ([2, 2], 1, [1, 2, 1], 2), 2: ([2, 2], 1, [1, 2, 2], 2), 4: ([2, 2], 1, [1, 1, 3, 2], 3), 8: ([2, 2], 1, [1, 2, 1, 7, 2], 4)},
    'heavy': {1: ([2], 1, [1], 1), 2: ([1], 1, [1, 2], 2), 4: ([1], 1, [1, 3], 2), 8: ([1], 1, [1, 7], 2)},
}
AMC = 'spdfghik'
def cname(am): return '(' + ''.join(AMC[x] for x in am[:2]) + '|' + ''.join(AMC[x] for x in am[2:]) + ')'

class Result:
    def __init__(self): self.obl = {}; self.bad = []; self.instr = 0; self.mem = 0; self.fn = None

def setup_exec(variant, contracts, init=True):
    ex = LibExec(variant, contracts)
    ex.load_rel('simint/simint_init.c'); ex.load_rel('simint/simint_eri.c')
    if init: ex.call('@simint_init', [])
    return ex

def ncart(l): return (l + 1) * (l + 2) // 2

def run_class(variant, der, am, conf, screen=None, drops=(), verbose=False):
    """symbolically execute the real function for one class; returns Result"""
    T.reset(); T.EPOCH[0] += 1
    lay = layout.get(variant)
    L = lay['L']
    bra, bc, ket, kc = conf
    hasder = 'alpha2' in lay['simint_multi_shellpair'][0]
    P = Pair('P', bra, bc, am[0], am[1], lay, screen=True, der=hasder)
    Q = Pair('Q', ket, kc, am[2], am[3], lay, screen=True, der=hasder)
    ctx = Ctx(P, Q, lay)
    res = Result(); res.ctx = ctx
    ex = setup_exec(variant, {})
    ex.contracts['@boys_F_split'] = boys_contract(ctx)
    worksize = ex.call('@simint_eri_worksize', [der, max(am)])
    work = Obj('work', 8 * worksize, 64)
    nc = 1
    for l in am: nc *= ncart(l)
    ncomp = 12 if der else 1
    out = Obj('integrals', 8 * nc * ncomp * bc * kc, 64)
    pp, qq = P.objects(ex), Q.objects(ex)
    ex.store_hook = ctx.abstract
    fnseen = []
    orig = ex.run
    def spy(f, args):
        if (f.name.startswith('@ostei_') and 'deriv' in f.name or f.name.startswith('@ostei_')) and not fnseen: fnseen.append(f.name)
        return orig(f, args)
    ex.run = spy
    tol = T.ZERO
    args = [pp, qq, tol, Ptr(work, 0), Ptr(out, 0)]
    try:
        if der: ret = ex.call('@simint_compute_eri_deriv', [der] + args)
        else: ret = ex.call('@simint_compute_eri', args)
    except Violation as e:
        res.bad.append(e); ret = None
    res.fn = fnseen[0] if fnseen else None
    res.loaded = sorted(ex.loaded); res.worksize = worksize
    if ret is not None:
        if ret != bc * kc: res.bad.append(Violation('return', 'returns %r instead of the number of shell quartets %d' % (ret, bc * kc), res.fn))
        check_output(ctx, res, out, der, am, bc, kc, ex)
    for o in ex.heap:
        if not o.freed: res.bad.append(Violation('leak', 'heap object %s is not freed' % o.name, res.fn or ''))
    res.instr = ex.count; res.mem = ex.checks; res.obl = dict(ctx.proved)
    return res

def check_output(ctx, res, out, der, am, bc, kc, ex):
    def rd(off): return (8, ex.load(Ptr(out, off), ('double',), 8, 8))
    C = [carts(l) for l in am]
    off = 0
    bad = 0
    for ab in range(bc):
        for cd in range(kc):
            for a in C[0]:
                for b in C[1]:
                    for c in C[2]:
                        for d in C[3]:
                            q = (a, b, c, d)
                            if not der:
                                cells = [rd(off)]; off += 8
                                want = lambda k: ctx.om('1', ab, cd, q)
                                if not ok_plain(ctx, cells[0], ab, cd, q): 
                                    bad += 1
                                    if bad < 4: res.bad.append(Violation('integral', 'integral %s of quartet (%d,%d) component %s is not the sum over its primitives' % (cname(am), ab, cd, q), res.fn))
                                else: ctx.proved['out'] += 1
                            else:
                                cells = [rd(off + 8 * k) for k in range(12)]; off += 96
                                e = ok_deriv(ctx, cells, ab, cd, q)
                                if e is not None:
                                    bad += 1
                                    if bad < 4: res.bad.append(Violation('derivative', 'd/d%s%d of %s quartet (%d,%d) component %s is wrong' % (XYZ[e % 3], e // 3 + 1, cname(am), ab, cd, q), res.fn))
                                else: ctx.proved['out'] += 12
    if bad: res.nbad = bad

def ok_plain(ctx, c, ab, cd, q):
    if c is None or c[0] != 8: return False
    v = c[1]
    if v is ctx.om('1', ab, cd, q): return True
    if not isinstance(v, T.Node): return False
    return T.equal(v, ctx.om_sum('1', ab, cd, q))

def deriv_direct(ctx, ab, cd, q, X, d):
    w = 'abcd'[X]
    r = ctx.om(w, ab, cd, q[:X] + (up(q[X], d),) + q[X + 1:])
    n = q[X][d]
    if n: r = T.sub(r, T.mul(T.const(n), ctx.om('1', ab, cd, q[:X] + (up(q[X], d, -1),) + q[X + 1:])))
    return r
def deriv_direct_sum(ctx, ab, cd, q, X, d):
    w = 'abcd'[X]
    r = ctx.om_sum(w, ab, cd, q[:X] + (up(q[X], d),) + q[X + 1:])
    n = q[X][d]
    if n: r = T.sub(r, T.mul(T.const(n), ctx.om_sum('1', ab, cd, q[:X] + (up(q[X], d, -1),) + q[X + 1:])))
    return r

def ok_deriv(ctx, cells, ab, cd, q):
    vs = []
    for k, c in enumerate(cells):
        if c is None or c[0] != 8 or not isinstance(c[1], T.Node): return k
        vs.append(c[1])
    for d in range(3):
        miss = []
        for X in range(4):
            v = vs[3 * X + d]
            if not (T.equal(v, deriv_direct(ctx, ab, cd, q, X, d)) or T.equal(v, deriv_direct_sum(ctx, ab, cd, q, X, d))): miss.append(X)
        if len(miss) > 1: return 3 * miss[0] + d
        if miss:
            s = T.ZERO
            for X in range(4):
                if X != miss[0]: s = T.add(s, vs[3 * X + d])
            if not T.equal(vs[3 * miss[0] + d], T.neg(s)): return 3 * miss[0] + d
    return None
