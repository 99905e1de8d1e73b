"""C12: normalisation of shells."""
import random
from fractions import Fraction
from . import eri_common as E
from .shell_common import *
from mpmath import mp, mpf
mp.prec = 200

def fac(l):
    """pi^(3/2) (2l-1)!! / 2^l"""
    v = mp.pi ** mpf('1.5')
    for k in range(1, 2 * l, 2): v *= k
    v /= mpf(2) ** l
    m, e = mp.frexp(v)
    return Fraction(int(m * mpf(2) ** 180)) * Fraction(2) ** (int(e) - 180)

def qpow(a, n4):
    """a^(n4/4) of a positive term"""
    n, den = n4, 4
    while den > 1 and n % 2 == 0: n //= 2; den //= 2
    x = a
    while den > 1: x = psqrt(x); den //= 2
    r = T.ONE
    for _ in range(n): r = T.mul(r, x)
    return r
def psqrt(a):
    if a.op == '*': return T.mul(psqrt(a.args[0]), psqrt(a.args[1]))
    if a.op == '/': return T.div(psqrt(a.args[0]), psqrt(a.args[1]))
    return T.func('sqrt', a)

def overlap(S, co):
    """self-overlap of the contracted x^l function with coefficients co"""
    l = S.am; t = T.ZERO
    for i in range(S.n):
        for j in range(S.n): t = T.add(t, T.div(T.mul(co(i), co(j)), qpow(T.add(S.al(i), S.al(j)), 4 * l + 6)))
    return T.mul(C(fac(l)), t)

def spec(S):
    """coefficients after normalisation: primitives weighted by a^((l+3/2)/2), the whole scaled to unit self-overlap"""
    w = [T.mul(S.co(i), qpow(S.al(i), 2 * S.am + 3)) for i in range(S.n)]
    n = T.func('sqrt', overlap(S, lambda i: w[i]))
    return [T.div(x, n) for x in w]

def make(shells, i0, cnt):
    s = Scen('normalise shells %d..%d of %d: (am, primitives) %s' % (i0, i0 + cnt - 1, len(shells), shells))
    SS = [Shell('s%d' % k, am, n) for k, (am, n) in enumerate(shells)]
    s.decl('G', 'shell', len(SS))
    for k, S in enumerate(SS): S.make(s, 'G', k)
    s.call('simint_normalize_shells', cnt, Ref('G', i0))
    for k, S in enumerate(SS):
        s.check('nprim', ('G', k, 'nprim'), S.n, 'int'); s.check('am', ('G', k, 'am'), S.am, 'int')
        for d in range(3): s.check('centre', ('G', k, XYZ[d]), S.X(d))
        inn = i0 <= k < i0 + cnt
        for i in range(S.n):
            s.check('exponent', ('G', k, 'alpha', i), S.al(i))
            if not inn: s.check('other shell', ('G', k, 'coef', i), S.co(i))
        if inn:
            w = spec(S)
            for i in range(S.n):
                def t(sym, got, w=w, i=i, S=S):
                    if scen.approx_equal(got, w[i]): return True
                    # the square and the sign decide it
                    return scen.approx_equal(T.mul(got, got), T.mul(w[i], w[i])) and T.evalf(got, sym.env) * T.evalf(w[i], sym.env) > 0
                t.term = w[i]
                s.check('coefficient', ('G', k, 'coef', i), t)
    s.call('simint_free_shells', len(SS), Ref('G'))
    return s

def lemma(n):
    """coefficients w_i/sqrt(F sum w_i w_j q_ij) have F sum c_i c_j q_ij = 1, whatever the powers q_ij are"""
    T.reset(); T.EPOCH[0] += 1
    w = [V(('w', i)) for i in range(n)]; F = V(('F',)); q = lambda i, j: V(('q', min(i, j), max(i, j)))
    def O(c):
        t = T.ZERO
        for i in range(n):
            for j in range(n): t = T.add(t, T.mul(T.mul(c[i], c[j]), q(i, j)))
        return T.mul(F, t)
    r = T.func('sqrt', O(w)); ok = T.equal(O([T.div(x, r) for x in w]), T.ONE) or scen.approx_equal(O([T.div(x, r) for x in w]), T.ONE)
    return dict(name='lemma/unit overlap, %d primitives' % n, fn=None, obl={'out': 1}, mem=0, instr=0, bad=[] if ok else [('lemma', 'not proved')])

def task(variant, shells, i0, cnt):
    return run_scen(lambda: make(shells, i0, cnt), '%s/%s/%d+%d' % (variant, shells, i0, cnt), variant, 'simint_normalize_shells', env=Env(3))

def run(ck, tier):
    ck.trusted += SHELL_TRUST
    rng = random.Random(framework.SEED * 7 + 12); ts = [(lemma, (n,), 5) for n in range(1, 7)]
    for v in build.VARIANTS:
        layout.get(v)
        for am in range(21): ts.append((task, (v, ((am, 1), (am, 2)), 0, 2), 5 + am))
        for am in range(8): ts.append((task, (v, ((am, 3), (am, 4)), 0, 2), 5 + am))
        for sh, i0, c in ((((0, 1), (1, 2), (2, 1), (1, 3)), 1, 2), (((1, 1), (0, 2), (3, 2)), 0, 3), (((2, 2),), 0, 0), (((1, 6), (0, 5)), 1, 1), (((0, 9),), 0, 1), (((1, 8), (2, 7)), 0, 2)): ts.append((task, (v, sh, i0, c), 9))
        for q in range(2 if tier != 'thorough' else 40):
            sh = tuple((rng.randint(0, 7), rng.randint(1, 4)) for _ in range(rng.randint(1, 4))); i0 = rng.randrange(len(sh))
            ts.append((task, (v, sh, i0, rng.randint(0, len(sh) - i0)), 9))
    res = framework.run_tasks(ts)
    E.collect(ck, res)
    ck.solver_s = sum(r.get('cpu', 0) for r in res)
