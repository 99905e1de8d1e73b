"""C10: screening estimates."""
import random, math
from . import eri_common as E
from .shell_common import *
from .c08 import mk_pairs, shells_of, free_shells
from vt.screen import pick_max
from vt import numref
from vt.execu import *

def nc(l): return (l + 1) * (l + 2) // 2

def prim_pre(A, B, i, j):
    """prefactor of one ordered primitive combination"""
    p = T.add(A.al(i), B.al(j)); r2 = T.ZERO
    for v in pair_ab(A, B): r2 = T.add(r2, T.mul(v, v))
    e = T.ONE if A is B else T.func('exp', T.neg(T.div(T.mul(r2, T.mul(A.al(i), B.al(j))), p)))
    return T.div(T.mul(T.mul(T.mul(A.co(i), B.co(j)), e), C(SQRT_TWO_PI_52)), p)

def ikey(A, B, i, j):
    """name of the integrals of one combination (i None: the whole pair); both orders of a combination of a
    shell with itself have the same centre, exponent and weight"""
    if i is None: return (A.tag, B.tag, 'all') if len(combos(A, B)) > 1 else (A.tag, B.tag, 0, 0)
    if A is B: i, j = max(i, j), min(i, j)
    return (A.tag, B.tag, i, j)

def eri_contract(pairs):
    """contract of simint_compute_eri (C01/C03/C05) for one shell pair with itself, tolerance zero: the
    output holds the diagonal block of that pair; the work array has the reported size"""
    def mk(variant):
        lay = layout.get(variant)
        F, _ = lay['simint_multi_shellpair']
        def h(ex, args):
            P, Q, tol, work, out = args
            if not (P.obj is Q.obj and P.off == Q.off): raise Unsupported('estimate from two different shell pairs')
            if tol is not T.ZERO: raise Violation('screening', 'estimate computed with a tolerance', ex.where())
            def li(f): return ex.load(Ptr(P.obj, P.off + F[f]), ('i', 32), 4, 4)
            def lp(f, k, t=('double',), sz=8):
                q = ex.load(Ptr(P.obj, P.off + F[f]), ('ptr',), 8, 8)
                return ex.load(Ptr(q.obj, q.off + sz * k), t, sz, sz)
            a1, a2 = li('am1'), li('am2')
            if li('nshell12') != 1 or li('nshell12_clip') != 1: raise Unsupported('estimate from a batch of several pairs')
            n = lp('nprim12', 0, ('i', 32), 4)
            wsz = ex.call('@simint_eri_worksize', [0, max(a1, a2)])
            ex.ck(work.obj, work.off, 8 * wsz, 'integral call: work array')
            tot = (nc(a1) * nc(a2)) ** 2
            ex.ck(out.obj, out.off, 8 * tot, 'integral call: output array')
            got = [(lp('alpha', k), lp('prefac', k), [lp(x, k) for x in XYZ]) for k in range(n)]
            key = None
            for A, B in pairs:
                if (A.am, B.am) != (a1, a2): continue
                for i in range(A.n):
                    for j in range(B.n):
                        if A is B and j > i: continue
                        if n == 1 and scen.approx_equal(got[0][0], T.add(A.al(i), B.al(j))) and scen.approx_equal(got[0][1], prim_pre(A, B, i, j)) and \
                           all(scen.approx_equal(got[0][2][d], combo(A, B, i, j, False)[XYZ[d]]) for d in range(3)): key = ikey(A, B, i, j); break
                    if key: break
                if key: break
                cs = combos(A, B)
                if len(cs) == n and all(any(scen.approx_equal(g[0], combo(A, B, i, j, A is B)['alpha']) and scen.approx_equal(g[1], combo(A, B, i, j, A is B)['prefac']) for i, j in cs) for g in got): key = ikey(A, B, None, None); break
            if key is None: raise Violation('screening', 'the estimate is computed from a shell pair that is not one of the primitive combinations', ex.where())
            for k in range(tot): out.obj.cells[out.off + 8 * k] = (8, V(('I',) + key + (k,)), 1)
            return 1
        return {'@simint_compute_eri': h, '@simint_compute_ostei': h}
    return mk

def leaves(t, memo=None):
    """arguments of a tree of maxima"""
    if memo is None: memo = {}
    r = memo.get(t.id)
    if r is not None: return r
    if t.op == 'f' and t.args[0] == 'max':
        r = frozenset().union(*[leaves(x, memo) for x in t.args[1:]])
    else: r = frozenset([t.id])
    memo[t.id] = r
    return r

def diag(A, B, i, j, all_=False):
    n1, n2 = nc(A.am), nc(B.am); out = []
    key = ikey(A, B, i, j)
    for m in range(n1):
        for n in range(n2): out.append(V(('I',) + key + (((m * n2 + n) * n1 + m) * n2 + n,)))
    return out
def everything(A, B):
    return [V(('I',) + ikey(A, B, None, None) + (k,)) for k in range((nc(A.am) * nc(B.am)) ** 2)]

def is_max(sym, got, want, allowed=None):
    """got is the largest absolute value of the atoms want"""
    if not isinstance(got, T.Node): return False
    ls = {T._nodes[i] for i in leaves(got)}
    ls = {x for x in ls if not (x.op == 'c' and x.args == 0)}
    w = {T.func('fabs', x) for x in want}
    al = {T.func('fabs', x) for x in allowed} if allowed else w
    if w <= ls <= al: return True
    if len(ls) > 1 and not any(x.op == 'c' for x in ls): return False
    # decided by branches on this path: compare on the values that select the path
    return abs(float(T.evalf(got, sym.env)) - max(abs(float(T.evalf(x, sym.env))) for x in want)) < 1e-12

def schwarz_screen(sym, got, A, B, i, j): return is_max(sym, got, diag(A, B, i, j))
def max_term(want):
    r = T.func('fabs', want[0])
    for x in want[1:]: r = T.func('max', r, T.func('fabs', x))
    return r
schwarz_screen.spec = lambda A, B, i, j: max_term(diag(A, B, i, j))
def max_check(want, allowed=None):
    f = lambda sym, got: is_max(sym, got, want, allowed)
    f.term = max_term(want)
    return f

class _Prims: pass
class IEnv(Env):
    """random contents of shells for replays; the integrals follow from them (numeric reference)"""
    def __init__(self, seed, pairs, fixed=None): Env.__init__(self, seed, fixed); self.pairs = pairs; self.th = {}
    def __call__(self, name):
        if not (isinstance(name, tuple) and name[0] == 'I'): return Env.__call__(self, name)
        v = self.fixed.get(name)
        if v is None: v = self.fixed[name] = self.integral(*name[1:])
        return v
    def integral(self, ta, tb, i, j, k=None):
        if k is None: k = j; i = None
        A, B = next((x, y) for x, y in self.pairs if (x.tag, y.tag) == (ta, tb))
        key = (ta, tb, i, j if i is not None else 0)
        if key not in self.th:
            al = lambda S, q: self(('al', S.tag, q)); co = lambda S, q: self(('c', S.tag, q)); X = lambda S, d: self(('X', S.tag, d))
            f = {x: [] for x in ('alpha', 'prefac') + tuple(p + x for p in ('', 'PA_', 'PB_') for x in XYZ)}
            for p, q in ([(i, j)] if i is not None else [(p, q) for p in range(A.n) for q in range(B.n)]):
                a, b = al(A, p), al(B, q); r2 = sum((X(A, d) - X(B, d)) ** 2 for d in range(3))
                f['alpha'].append(a + b); f['prefac'].append(co(A, p) * co(B, q) * math.exp(-r2 * a * b / (a + b)) * float(SQRT_TWO_PI_52) / (a + b))
                for d, x in enumerate(XYZ):
                    c = (a * X(A, d) + b * X(B, d)) / (a + b); f[x].append(c); f['PA_' + x].append(c - X(A, d)); f['PB_' + x].append(c - X(B, d))
            P = _Prims(); P.f = f; n = len(f['alpha'])
            self.th[key] = [numref.theta(P, u, P, v) for u in range(n) for v in range(n)]
        n1, n2 = nc(A.am), nc(B.am); C = numref.carts(A.am), numref.carts(B.am)
        d = k % n2; c = k // n2 % n1; b = k // (n1 * n2) % n2; a = k // (n1 * n2 * n2)
        return sum(t(0, (C[0][a], C[1][b], C[0][c], C[1][d])) for t in self.th[key])

def make_prim(A, B, variant, method, fn, null):
    s = Scen('%s for shells of %d and %d primitives, am %d %d%s' % (fn, A.n, B.n, A.am, B.am, ' (same shell)' if A is B else ''))
    s.decl('A', 'shell'); A.make(s, 'A')
    if A is not B: s.decl('B', 'shell'); B.make(s, 'B')
    b = 'A' if A is B else 'B'
    cs = combos(A, B)
    if null: o = None
    else: s.decl('out', 'double', len(cs)); o = Ref('out')
    args = [Ref('A'), Ref(b), o] + ([method] if method is not None else [])
    s.call(fn, *args, ret='m')
    fast = method == 2 or 'fast' in fn
    if fast:
        if not null:
            for k, (i, j) in enumerate(cs): s.check('estimate', ('out', k), fast_spec(A, B, i, j))
        def mx(sym, got):
            w = [fast_spec(A, B, i, j) for i, j in cs]
            ls = [T._nodes[x] for x in leaves(got)]; ls = [x for x in ls if not (x.op == 'c' and x.args == 0)]
            if len(ls) == len(w) and all(any(scen.approx_equal(x, y) for y in w) for x in ls) and all(any(scen.approx_equal(x, y) for x in ls) for y in w): return True
            return abs(T.evalf(got, sym.env) - max(T.evalf(y, sym.env) for y in w)) < 1e-12
        t = fast_spec(A, B, *cs[0])
        for c in cs[1:]: t = T.func('max', t, fast_spec(A, B, *c))
        mx.term = t
        s.check('maximum', ('ret', 'm'), mx)
    else:
        if not null:
            for k, (i, j) in enumerate(cs): s.check('estimate', ('out', k), max_check(diag(A, B, i, j)))
        s.check('maximum', ('ret', 'm'), max_check([x for i, j in cs for x in diag(A, B, i, j)]))
    s.call('simint_free_shell', Ref('A'))
    if A is not B: s.call('simint_free_shell', Ref('B'))
    return s

def make_shell(A, B, method, fn):
    s = Scen('%s for shells of %d and %d primitives' % (fn, A.n, B.n))
    s.decl('A', 'shell'); A.make(s, 'A')
    if A is not B: s.decl('B', 'shell'); B.make(s, 'B')
    s.call(fn, Ref('A'), Ref('A' if A is B else 'B'), *([method] if method is not None else []), ret='m')
    if method == 2 or 'fast' in fn:
        ws = [fast_spec(A, B, i, j) for i, j in combos(A, B)]
        t = T.ZERO
        for w in ws: t = T.add(t, w)
        f = lambda sym, got: scen.sum_equal(got, ws)
        f.term = t
        s.check('estimate', ('ret', 'm'), f)
    else: s.check('estimate', ('ret', 'm'), max_check(diag(A, B, None, None), everything(A, B)))
    s.call('simint_free_shell', Ref('A'))
    if A is not B: s.call('simint_free_shell', Ref('B'))
    return s

def make_batch(ps, method, lay, am):
    s = Scen('create a batch of %d pairs with screening method %d' % (len(ps), method))
    sh = shells_of(ps, *am)
    s.decl('P', 'pair'); s.call('simint_initialize_multi_shellpair', Ref('P'))
    mk_pairs(s, 'AB', ps, sh)
    b = Batch([(sh[a], sh[c]) for a, c, _, _ in ps], lay['L'], lay['NS'])
    s.call('simint_create_multi_shellpair2', len(ps), Ref('AB'), Ref('P'), method)
    expect_batch(s, 'P', b, lay, fast_screen if method == 2 else schwarz_screen)
    def mx(sym):
        got = sym.read(('P', 0, 'screen_max')); out = []
        g = T.evalf(got, sym.env); ls = leaves(got); big = any(T._nodes[x].op == 'c' and T._nodes[x].args > 10 ** 90 for x in ls)
        for k in range(b.size):
            if k in b.pad: continue
            v = sym.read(('P', 0, 'screen', k)); sym.obl += 1
            if not (big or leaves(v) - {T.ZERO.id} <= ls or T.evalf(v, sym.env) <= g * (1 + 1e-12)): out.append(('maximum', 'screen_max is below screen[%d]' % k)); break
            if not big and T.evalf(v, sym.env) > g * (1 + 1e-12): out.append(('maximum', 'screen_max is below screen[%d]' % k)); break
        return out
    nat = [(('P', 0, 'screen_max'), 'smax')] + [(('P', 0, 'screen', k), 's%d' % k) for k in range(b.size)]
    mx.native = nat
    mx.judge = lambda H, env: 'screen_max = %g is below screen = %g' % (H['smax'], max(v for k, v in H.items() if k[0] == 's' and k != 'smax' and '/' not in k)) if 'smax' in H and max(v for k, v in H.items() if k[0] == 's' and k != 'smax' and '/' not in k) > H['smax'] * (1 + 1e-9) else None
    s.hook(mx)
    s.call('simint_free_multi_shellpair', Ref('P')); free_shells(s, sh)
    return s, [(sh[a], sh[c]) for a, c, _, _ in ps]

EX = ('simint/shell/shell_screen.c', 'simint/simint_eri.c')
def task(variant, kind, args):
    lay = layout.get(variant); holder = []
    a, b = args[2:4] if kind != 'batch' else args[3]
    full = (E.fname(0, (a, b, a, b)),)
    if kind == 'prim':
        n1, n2, a1, a2, method, fn, null = args
        def mk():
            A = Shell('a', a1, n1); B = A if n2 is None else Shell('b', a2, n2)
            holder[:] = [(A, B)]
            return make_prim(A, B, variant, method, fn, null)
        nm = '%s/am %d%d/%s x %s prims/method %s%s' % (fn, a1, a2, n1, n2, method, '/no output' if null else '')
    elif kind == 'shell':
        n1, n2, a1, a2, method, fn = args
        def mk():
            A = Shell('a', a1, n1); B = A if n2 is None else Shell('b', a2, n2)
            holder[:] = [(A, B)]
            return make_shell(A, B, method, fn)
        nm = '%s/am %d%d/%s x %s prims/method %s' % (fn, a1, a2, n1, n2, method); 
    else:
        label, ps, method, am = args; fn = 'simint_fill_multi_shellpair2'
        def mk():
            s, h = make_batch(ps, method, lay, am); holder[:] = h; return s
        nm = '%s/%s/method %d/am %d%d' % (fn, label, method, am[0], am[1])
    return run_scen(mk, variant + '/' + nm, variant, fn, contracts=eri_contract(holder), env=Env(11), extra=EX, pick_max=pick_max, full=full, natenv=lambda seed: IEnv(seed, holder))

def run(ck, tier):
    ck.trusted += SHELL_TRUST + ['contract of simint_compute_eri (C01, C03, C05) for the calls the estimates make']
    for v in build.VARIANTS: layout.get(v)
    rng = random.Random(framework.SEED * 13 + 10); ts = []
    for v in build.VARIANTS:
        lay = layout.get(v); ml = build.VARIANTS[v]['l']; L, NS = lay['L'], lay['NS']
        ams = [(0, 0), (1, 0), (0, 1), (1, 1)] + ([(2, 1), (1, 2), (0, 2)] if ml >= 2 else []) + ([(3, 1), (1, 3), (3, 3)] if ml >= 3 else [])
        for a1, a2 in ams:
            shapes = [(1, 1), (2, 3), (3, 3), (4, 2), (1, L + 2)] if a1 + a2 <= 2 else [(2, 3)]
            if a1 + a2 == 0: shapes = shapes + [(6, 7), (7, None)]
            if a1 + a2 > 4: shapes = [(1, 1)]
            for n1, n2 in shapes + ([(3, None), (4, None)] if a1 + a2 <= 4 else []):
                if n2 is None and a1 != a2: continue
                for method, fn in ((1, 'simint_primscreen'), (2, 'simint_primscreen'), (None, 'simint_primscreen_schwarz'), (None, 'simint_primscreen_fastschwarz'), (7, 'simint_primscreen')):
                    if method == 7 and (n1, n2) != (2, 3): continue
                    ts.append((task, (v, 'prim', (n1, n2, a1, a2, method, fn, False)), n1 * (n2 or n1) * nc(a1) ** 2 * nc(a2) ** 2))
                    if (n1, n2) == (2, 3): ts.append((task, (v, 'prim', (n1, n2, a1, a2, method, fn, True)), n1 * (n2 or n1) * nc(a1) ** 2 * nc(a2) ** 2))
            for n1, n2 in ((1, 1), (2, 3), (2, None)) if a1 + a2 <= 4 else ((1, 1),):
                if n2 is None and a1 != a2: continue
                for method, fn in ((1, 'simint_shellscreen'), (2, 'simint_shellscreen'), (9, 'simint_shellscreen'), (None, 'simint_shellscreen_schwarz'), (None, 'simint_shellscreen_fastschwarz')):
                    ts.append((task, (v, 'shell', (n1, n2, a1, a2, method, fn)), nc(a1) ** 2 * nc(a2) ** 2))
        bs = [('odd pairs', [('a%d' % k, 'b%d' % k, 1 + k % 3, 1 + (k * k) % 3) for k in range(NS + 2)]), ('ends off a boundary', [('a', 'b', 1, 1), ('c', 'd', 3, 3)]), ('ends after a batch', [('x%d' % k, 'y%d' % k, 1, 1 + k % 2) for k in range(NS)] + [('a', 'b', 1, 1), ('c', 'd', 3, L + 2)]),
              ('same', [('a', 'a', 3, 3), ('b', 'b', 2, 2)]), ('many primitives', [('a', 'b', 5, 6), ('c', 'd', 1, 7), ('e', 'f', 6, 1)])]
        for q in range(2 if tier != 'thorough' else 20):
            bs.append(('random %d' % q, [('a%d' % k, 'b%d' % k, rng.randint(1, 4), rng.randint(1, 4)) for k in range(rng.randint(1, NS + 3))]))
        for label, ps in bs:
            for method in (1, 2): ts.append((task, (v, 'batch', (label, ps, method, (1, 0) if label != 'same' else (1, 1))), 30 * len(ps)))
    res = framework.run_tasks(ts)
    E.collect(ck, res)
    ck.solver_s = sum(r.get('cpu', 0) for r in res)
