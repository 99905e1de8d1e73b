"""Accuracy contract of boys_F_split (property C13).

The function is executed for symbolic arguments in every lane.  Every value it stores is one of
  (T) a polynomial in the argument and in entries of the table around it,
  (L) a constant times a power of the argument,
  (R) a step of the exact recursion F[m] <-> F[m+1] with exp(-x),
each proved by exact polynomial arithmetic; the error of each is then bounded over the whole set
of arguments that reach it (Taylor remainder per cell of the table, incomplete gamma function,
error propagation of the recursion), with 60-digit arithmetic.
"""
import re, struct, itertools
from fractions import Fraction
import mpmath
from mpmath import mp, mpf
import z3
from . import terms as T, vecops as V, build
from .execu import *
from .sint import SInt, SBool
from .screen import pick_max

mp.dps = 60
REL = mpf(10) ** -12          # the accuracy that is claimed, relative to the value
NMAX = 29                     # l = 7: 4*7, and one more for first derivatives
TOP = 64

_F = {}
def ref(x):
    """F_0..F_TOP at x (mpf), by the incomplete gamma function for the top order and the stable downward recursion"""
    k = mpf(x)
    r = _F.get(k)
    if r is None:
        if k == 0: r = [mpf(1) / (2 * n + 1) for n in range(TOP + 1)]
        else:
            s = mpf(1) / (2 * TOP + 1)   # series of exp(x) F_TOP(x): sum_i (2x)^i / ((2n+1)(2n+3)...)
            if k < 4000:
                t = s; i = 0; e = mpf(10) ** -62
                while True:
                    i += 1; t = t * 2 * k / (2 * TOP + 2 * i + 1); s += t
                    if t < e * s and 2 * k < (2 * TOP + 2 * i + 1): break
                ex = mp.exp(-k); f = s * ex
                r = [None] * (TOP + 1); r[TOP] = f
                for n in range(TOP - 1, -1, -1): r[n] = (2 * k * r[n + 1] + ex) / (2 * n + 1)
            else:
                r = [mp.sqrt(mp.pi / k) / 2]
                for n in range(TOP): r.append(r[-1] * (2 * n + 1) / (2 * k))
        _F[k] = r
    return r

def table():
    """(rows, columns, values) of boys_shortgrid, from its definition as compiled"""
    m = V.module('SCALAR', False, build.REPO + '/skel/simint/boys/boys_shortgrid.c')
    L = m.globals.get('@boys_shortgrid')
    if L is None: raise Unsupported('boys_shortgrid is not defined')
    h = re.search(r'\[(\d+) x \[(\d+) x double\]\]', L)
    R, C = int(h.group(1)), int(h.group(2))
    vals = []
    body = L[h.end():]
    for row in re.finditer(r'\[\d+ x double\]\s*(\[([^\[\]]*)\]|zeroinitializer)', body):
        if row.group(1) == 'zeroinitializer': vals += [0.0] * C; continue
        for w in re.findall(r'double ([^,\]\s]+)', row.group(2)):
            vals.append(struct.unpack('>d', bytes.fromhex(w[2:].zfill(16)))[0] if w.startswith('0x') else float(w))
    if len(vals) != R * C: raise Unsupported('boys_shortgrid: %d values for %d x %d' % (len(vals), R, C))
    return R, C, vals

PROVED = set()
class Lanes:
    """integers read off the lanes' arguments"""
    def __init__(self, env): self.defs = {}; self.bylin = {}; self.env = env
    def fptosi(self, ex, v):
        p = T.poly(v); key = tuple(sorted(p.items()))
        n = self.bylin.get(key)
        if n is None:
            names = {}
            for m, c in p.items():
                for k, e in m:
                    nm = T_name(k)
                    if e != 1 or len(m) != 1 or not nm or nm[0] != 'x': raise Unsupported('the table index is not linear in the argument')
                    names[nm] = c
            if len(names) != 1: raise Unsupported('the table index depends on %d lanes' % len(names))
            (nm, a), = names.items()
            n = ('I', nm[1], len([1 for d in self.defs if d[1] == nm[1]]))
            self.defs[n] = (nm, a, p.get((), Fraction(0)), v); self.bylin[key] = n
        return SInt(((n, 1),), 0)
    def tofp(self, ex, v):
        if isinstance(v, int): return T.const(v)
        t = T.const(v.c)
        for k, c in v.t: t = T.add(t, T.mul(T.const(c), var(k)))
        return t
    def z3facts(self, ex):
        fs = []; X = {}
        for n, (nm, a, b, _) in self.defs.items():
            I = z3.Int(str(n)); x = z3.Real(str(nm)); lo, lc, hi, hc = self.env.dom(nm[1])
            t = x * z3.RealVal(str(a)) + z3.RealVal(str(b))
            # truncation towards zero
            fs += [z3.If(t >= 0, z3.And(z3.ToReal(I) <= t, t < z3.ToReal(I) + 1), z3.And(z3.ToReal(I) >= t, t > z3.ToReal(I) - 1))]
            fs.append(x >= z3.RealVal(str(lo)) if lc else x > z3.RealVal(str(lo)))
            if hi is not None: fs.append(x <= z3.RealVal(str(hi)) if hc else x < z3.RealVal(str(hi)))
        return fs
    def zi(self, v):
        if isinstance(v, int): return z3.IntVal(v)
        return z3.Sum([z3.Int(str(k)) * c for k, c in v.t]) + v.c
    def valid(self, ex, g):
        s = z3.Solver(); s.set('timeout', 20000); s.add(self.z3facts(ex)); s.add(z3.Not(g))
        r = s.check()
        if r == z3.unknown: raise Unsupported('z3 gave no answer')
        return r == z3.unsat
    def require(self, ex, tr, what, o):
        off, sz, size = tr
        k = (off.key(), sz, o.name)
        if k in self.env.known: return
        g = None
        if isinstance(off, SInt) and len(off.t) == 1 and isinstance(size, int):   # the same question for every lane
            (w, c), = off.t; nm, a, b, _ = self.defs[w]
            g = (a, b, self.env.dom(nm[1]), off.c, c, sz, size)
            if g in PROVED: self.env.known.add(k); return
        if not self.valid(ex, z3.And(self.zi(off) >= 0, self.zi(off) + sz <= self.zi(size))):
            raise Violation('bounds', '%s of %s at byte offset %r can be outside the object' % (what, o.name, off), ex.where())
        self.env.known.add(k)
        if g is not None: PROVED.add(g)
    def require_div(self, ex, off, al, o): raise Unsupported('alignment of a symbolic offset')
    def require_nonneg(self, ex, v):
        if not self.valid(ex, self.zi(v) >= 0): raise Unsupported('zero extension of a value that can be negative')
    def require_range(self, ex, v, n): pass
    def compare(self, ex, op, n, a, b): return SBool(op, a, b)
    def decide(self, ex, b):
        f = {'eq': lambda x, y: x == y, 'ne': lambda x, y: x != y, 'slt': lambda x, y: x < y, 'sle': lambda x, y: x <= y, 'sgt': lambda x, y: x > y, 'sge': lambda x, y: x >= y}[b.op](self.zi(b.a), self.zi(b.b))
        if self.valid(ex, f): return True
        if self.valid(ex, z3.Not(f)): return False
        raise Unsupported('a branch depends on the table index')
    def load_sym(self, ex, o, off, t, sz): raise Unsupported('symbolic offset into ' + o.name)
    def store_sym(self, ex, o, off, t, v, sz, nl): raise Unsupported('symbolic store')

_names = {}
def T_name(k):
    n = _names.get((T.EPOCH[0], k))
    return n
def var(nm):
    v = T.var(nm); _names[(T.EPOCH[0], v.id)] = nm
    return v

class Env:
    """one class of arguments per lane: an open interval between two constants of the code, or a constant"""
    def __init__(self, consts, pattern):
        self.c = consts; self.p = pattern; self.new = set(); self.known = set(); self.crossed = 0
    def dom(self, k):
        """(lo, closed, hi or None, closed)"""
        q = self.p[k]; c = self.c
        if q % 2: return (c[q // 2], True, c[q // 2], True)     # the constant itself
        lo = c[q // 2 - 1] if q else Fraction(0)
        hi = c[q // 2] if q // 2 < len(c) else None
        return (lo, q == 0, hi, False)
    def sample(self, k):
        lo, lc, hi, hc = self.dom(k)
        # distinct per lane, so that ties do not hide anything
        f = Fraction(k + 1, 40)
        return lo if hc and lo == hi else (lo + (hi - lo) * f if hi is not None else lo + 1 + f * 40)
    def decide(self, ex, fb):
        a, b = fb.a, fb.b
        for s in (a, b):
            for nm in lanevars(s):
                if nm is None: raise Unsupported('a comparison involves %s' % T.show(s, 3))
        for s in (a, b):
            if s.op == 'c' and s.args > 0 and s.args not in self.c: self.new.add(s.args)
        if a.op != 'c' and b.op != 'c': self.crossed += 1
        e = {T.var(('x', k)).id: self.sample(k) for k in range(len(self.p))}
        x, y = ev(a, e), ev(b, e)
        return {'olt': x < y, 'ole': x <= y, 'ogt': x > y, 'oge': x >= y, 'oeq': x == y, 'une': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[fb.op]

def lanevars(t):
    if t.op == 'c': return
    if t.op == 'v':
        nm = T_name(t.id)
        yield nm if nm and nm[0] == 'x' else None; return
    if t.op == 'f' and t.args[0] in ('min', 'max'):
        for s in t.args[1:]: yield from lanevars(s)
        return
    yield None
def ev(t, e):
    if t.op == 'c': return t.args
    if t.op == 'v': return e[t.id]
    r = [ev(s, e) for s in t.args[1:]]
    return min(r) if t.args[0] == 'min' else max(r)

class Judge:
    """error bounds of the stored values; memoised over lanes and paths by the canonical form of the value"""
    def __init__(self, tab): self.tab = tab; self.memo = {}; self.cells = 0; self.lemmas = 0

    def canon(self, p, lane):
        out = []
        for m, c in p.items():
            mm = []
            for k, e in m:
                nm = T_name(k)
                if nm is None or nm[0] not in ('x', 'I', 'grid'): return None
                if nm[1] not in (lane, None): raise Violation('lane', 'the value of lane %d depends on lane %s' % (lane, nm[1]))
                mm.append((('grid', nm[2], nm[3]) if nm[0] == 'grid' else nm[:1], e))
            out.append((tuple(sorted(mm, key=repr)), c))
        return tuple(sorted(out, key=repr))

    def poly_err(self, can, idx, dom, n):
        """sup of |E - F_n| / F_n over the domain, E a polynomial in x, I and table entries; (bound, where)"""
        key = ('P', can, idx, dom, n)
        r = self.memo.get(key)
        if r is not None: return r
        R, C, vals = self.tab
        a, b = idx
        lo, lc, hi, hc = dom
        if hi is None: return None
        worst = mpf(0); at = None
        i = int(a * lo + b); lastx = None
        ai, bi = mpf(a.numerator) / a.denominator, mpf(b.numerator) / b.denominator
        flo, fhi = mpf(lo.numerator) / lo.denominator, mpf(hi.numerator) / hi.denominator
        if a <= 0: return None
        while True:
            c0 = max((i - bi) / ai, flo); c1 = min((i + 1 - bi) / ai, fhi)
            if c0 > fhi or (c0 >= c1 and not (c0 == c1 and lc and hc)): break
            x0 = mpf(i) / 10 if abs(mpf(i) / 10 - c0) < 1 else (c0 + c1) / 2
            d = max(abs(c0 - x0), abs(c1 - x0))
            by = {}
            for m, c in can:
                k = 0; t = mpf(c.numerator) / c.denominator
                for nm, e in m:
                    if nm[0] == 'x': k += e
                    elif nm[0] == 'I': t *= mpf(i) ** e
                    elif nm[0] == 'grid':
                        j = i * nm[2] + nm[1]
                        if j % 8 or not 0 <= j // 8 < R * C: return (mp.inf, c0)
                        t *= mpf(vals[j // 8]) ** e
                    else: return None
                if k < 0: return None
                by[k] = by.get(k, mpf(0)) + t
            K = max(by) if by else 0
            # recentre: sum_k c_k (x0 + d)^k
            co = [mpf(0)] * (K + 1)
            for k, c in by.items():
                for j in range(k + 1): co[j] += c * mp.binomial(k, j) * x0 ** (k - j)
            f = ref(x0); N = max(K + 1, 8)
            if n + N > TOP: return None
            err = mpf(0)
            for k in range(N):
                fk = (-1) ** k * f[n + k] / mp.factorial(k)
                err += abs((co[k] if k <= K else 0) - fk) * d ** k
            xl = min(c0, x0)
            err += ref(xl)[n + N] * d ** N / mp.factorial(N)
            e = err / ref(max(c1, x0))[n]
            self.cells += 1
            if e > worst: worst = e; at = c0 if abs(c0 - x0) > abs(c1 - x0) else c1
            i += 1
        self.memo[key] = (worst, at)
        return worst, at

    def long_err(self, coef, n, dom):
        """sup over x >= lo of |coef x^-(n+1/2) / F_n(x) - 1|"""
        lo, lc, hi, hc = dom
        if lo <= 0: return mp.inf, mpf(0)
        key = ('L', coef, n, lo)
        r = self.memo.get(key)
        if r is None:
            x = mpf(lo.numerator) / lo.denominator
            g = mp.gamma(n + mpf(1) / 2); q = mp.gammainc(n + mpf(1) / 2, x) / g
            c = mpf(coef.numerator) / coef.denominator
            dc = c / (g / 2)
            # F_n = (g/2) x^-(n+1/2) (1 - q), q decreasing in x
            r = self.memo[key] = (max(abs(dc - 1), abs(dc / (1 - q) - 1)), x)
            self.lemmas += 1
        return r

    def up_factor(self, n, dom):
        """sup over x >= lo of (2n-1) F_{n-1} / (2x F_n) = 1 + exp(-x)/(2x F_n); x exp(x) F_n is increasing"""
        lo = dom[0]
        if lo <= 0: return mp.inf
        key = ('U', n, lo)
        r = self.memo.get(key)
        if r is None:
            x = mpf(lo.numerator) / lo.denominator
            r = self.memo[key] = 1 + mp.exp(-x) / (2 * x * ref(x)[n]); self.lemmas += 1
        return r

def run(cfg, clang, n, consts, pattern, judge, extra=()):
    """one class of arguments; returns dict(consts=..) when the code compares with further constants, else the result"""
    T.reset(); T.EPOCH[0] += 1; _names.clear()
    L = V.CONFIGS[cfg]['L']; R, C, vals = judge.tab
    m = V.module(cfg, clang, 'boys', extra)
    env = Env(consts, pattern)
    ex = Exec([m], V.contracts(cfg)); ex.sel_hook = pick_max; ex.maxcell = max(64, 8 * L)
    lanes = Lanes(env); ex.solver = lanes
    ex.fptosi = lambda v: lanes.fptosi(ex, v)
    ex.force_real = env.decide
    x = Obj('x', 8 * L, 8 * L)
    xs = [var(('x', k)) for k in range(L)]
    for k in range(L): ex.store(Ptr(x, 8 * k), ('double',), xs[k], 8, 8)
    x.ro = True
    def rd(e, off, t, sz):
        if t[0] == 'vec': raise Unsupported('vector read of the table')
        if isinstance(off, int): return var(('grid', None, off, 0))
        if len(off.t) != 1: raise Unsupported('table offset depends on several lanes')
        (k, c), = off.t
        return var(('grid', k[1], off.c, c, k))
    g = Obj('boys_shortgrid', 8 * R * C, 16, reader=rd); g.ro = True
    ex.gobj['@boys_shortgrid'] = g
    F = Obj('F', 8 * L * (n + 1), 8 * L)
    defs = {}; ver = {}
    def hook(e, o, off, v, nl):
        if o is not F: return v
        if not isinstance(v, T.Node): raise Unsupported('store of a non-real into F')
        out = []
        for j in range(nl):
            w = off + 8 * j; order, lane = divmod(w // 8, L)
            q = T.lane(v, j) if nl > 1 or v.op == 'vec' else v
            k = ver[(order, lane)] = ver.get((order, lane), 0) + 1
            nm = ('F', lane, order, k); defs[nm] = q
            out.append(var(nm))
        return T.vec(out) if nl > 1 else out[0]
    ex.store_hook = hook
    try: ex.call('@w_boys', [Ptr(F, 0), Ptr(x, 0), n])
    except Violation:
        if not env.new: raise
    if env.new: return dict(consts=env.new)
    # error bound of every stored value
    errs = {}; kinds = {}
    def bound(nm):
        """relative error bound of a stored value with respect to F_order(x_lane), and a place"""
        if nm in errs: return errs[nm]
        q = defs[nm]; lane, o = nm[1], nm[2]; dom = env.dom(lane); X = xs[lane]
        r = None
        p = T.poly(q)
        for mon, c in p.items():
            for k, e in mon:
                w = T_name(k)
                if w is not None and w[1] not in (lane, None): raise Violation('lane', 'order %d of lane %d depends on lane %s' % (o, lane, w[1]))
        E = T.func('exp', T.neg(X))
        fs = [w for w in {T_name(k) for mon in p for k, e in mon} if w and w[0] == 'F']
        if len(fs) == 1:
            w = fs[0]; f = var(w)
            if w[2] == o + 1 and T.equal(q, T.div(T.add(T.mul(T.mul(T.const(2), X), f), E), T.const(2 * o + 1))):
                r = bound(w); kinds['recursion down'] = kinds.get('recursion down', 0) + 1
            elif w[2] == o - 1 and T.equal(T.mul(q, T.mul(T.const(2), X)), T.sub(T.mul(T.const(2 * o - 1), f), E)):
                b = bound(w)
                if b is not None: r = (b[0] * judge.up_factor(o, dom), b[1])
                kinds['recursion up'] = kinds.get('recursion up', 0) + 1
        elif not fs:
            can = judge.canon(p, lane)
            if can is not None:
                ids = {k for k in lanes.defs if k[1] == lane}
                if len(ids) == 1:
                    nm2, a, b, _ = lanes.defs[next(iter(ids))]
                    r = judge.poly_err(can, (a, b), dom, o)
                    if r is not None: kinds['table'] = kinds.get('table', 0) + 1
            if r is None:
                x1 = T.div(T.ONE, X)
                for root in (T.func('sqrt', x1), T.div(T.ONE, T.func('sqrt', X))):
                    cand = root
                    for _ in range(o): cand = T.mul(cand, x1)
                    pc = T._reduce_sqrt(T.poly(cand)); pq = T._reduce_sqrt(p)
                    if len(pc) == 1 and len(pq) == 1 and list(pc) == list(pq):
                        (mon, cq), = pq.items()
                        r = judge.long_err(cq / pc[mon], o, dom)
                        kinds['asymptotic'] = kinds.get('asymptotic', 0) + 1; break
        errs[nm] = r
        return r
    out = dict(obl=0, kinds=kinds, mem=ex.checks, instr=ex.count, crossed=env.crossed, bad=[], unknown=[], worst=mpf(0), worstcase=0.0)
    for o in range(n + 1):
        for k in range(L):
            v = ex.load(Ptr(F, 8 * (o * L + k)), ('double',), 8, 8)
            nm = T_name(v.id) if v.op == 'v' else None
            if nm is None or nm[0] != 'F': raise Violation('uninitialised', 'order %d of lane %d is never set' % (o, k))
            b = bound(nm)
            if b is None: out['unknown'].append((o, k, T.show(defs[nm], 4))); continue
            out['obl'] += 1
            if b[0] > out['worst']: out['worst'] = b[0]
            if b[0] > REL: out['bad'].append((o, k, b[0], b[1], env.dom(k)))
    return out
