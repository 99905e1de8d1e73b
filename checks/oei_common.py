"""driver of the one-electron checks (C06, C07)"""
import random, math
from . import eri_common as E
from .shell_common import *
from vt.oei import OEI, lemmas, carts
from vt.numref import boys

FN = {'S': 'simint_compute_overlap', 'T': 'simint_compute_ke', 'V': 'simint_compute_potential'}
class OEnv(Env):
    """random contents; values of the Boys function follow from them"""
    spec = None
    def __call__(self, name):
        if isinstance(name, tuple) and name[0] == 'F':
            _, c, i, j, m = name
            return float(boys(m, T.evalf(self.spec.G(i, j)['x', c], self)))
        return Env.__call__(self, name)

def make(kind, A, B, cent, hold, env):
    o = hold[0] = OEI(A, B, kind, cent); env.spec = o
    s = Scen('%s of shells with am %d %d and %d, %d primitives%s%s' % (FN[kind], A.am, B.am, A.n, B.n, ' (same shell)' if A is B else '', ', %d charges' % len(cent) if kind == 'V' else ''))
    s.decl('A', 'shell'); A.make(s, 'A')
    b = 'A' if A is B else 'B'
    if A is not B: s.decl('B', 'shell'); B.make(s, 'B')
    ca, cb = carts(A.am), carts(B.am)
    s.decl('out', 'double', len(ca) * len(cb))
    pre = ()
    if kind == 'V':
        s.reals('Z', [Z for Z, X in cent] or [C(0)])
        for d in range(3): s.reals('c' + XYZ[d], [X[d] for Z, X in cent] or [C(0)])
        pre = (len(cent), Ref('Z'), Ref('cx'), Ref('cy'), Ref('cz'))
    def arm(sym):
        for x in sym.ex.heap: x.ro = True
        for n in ('A', 'B'):
            if n in sym.objs: sym.objs[n].ro = True
        sym.ex.store_hook = o.hook
        if kind == 'V':
            L = sym.lay['L']; sym.ex.contracts['@boys_F_split'] = lambda ex, args: o.boys(ex, args, L)
        return []
    def disarm(sym):
        sym.ex.store_hook = None
        for x in sym.ex.heap: x.ro = False
        for x in sym.objs.values(): x.ro = False
        return []
    s.hook(arm)
    s.call(FN[kind], *pre, Ref('A'), Ref(b), Ref('out'))
    s.hook(disarm)
    k = 0
    for a in ca:
        for bb in cb:
            def t(sym, got, a=a, bb=bb):
                w = o.terms(a, bb, 0)
                r = scen.sum_equal(got, w)
                o.proved['out'] += r
                return r
            t.term = o.spec(a, bb, 1)
            s.check('integral', ('out', k), t); k += 1
    s.call('simint_free_shell', Ref('A'))
    if A is not B: s.call('simint_free_shell', Ref('B'))
    return s

def task(variant, kind, a1, a2, n1, n2, nc, pos='general', seed=None):
    hold = [None]; env = OEnv(seed or 4 + a1 + 3 * a2 + 5 * n1 + 7 * (n2 or 1) + 11 * nc)
    def mk():
        A = Shell('a', a1, n1); B = A if n2 is None else Shell('b', a2, n2)
        cent = [(V(('Z', c)), [V(('X', 'c%d' % c, d)) for d in range(3)]) for c in range(nc)]
        if pos == 'on centres' and nc: cent[0] = (cent[0][0], [A.X(d) for d in range(3)])
        return make(kind, A, B, cent, hold, env)
    r = run_scen(mk, '%s/%s/am %d %d/prims %s %s%s%s' % (variant, FN[kind], a1, a2, n1, n2, '/%d charges' % nc if kind == 'V' else '', '' if pos == 'general' else '/' + pos), variant, FN[kind], env=env,
                 extra=('simint/simint_oneelectron.c',), full=() if kind == 'V' else False)
    if hold[0]: r['obl'].update({k: v for k, v in hold[0].proved.items() if k != 'out'})
    return r

def lemma_task(n, nk):
    d, bad = lemmas(n, nk)
    return dict(name='lemma/closed forms', fn=None, obl={'lemma': d}, mem=0, instr=0, bad=[('lemma', b) for b in bad])

def numeric(variant, kind, a1, a2, n1, n2, nc, seed=4):
    """the compiled code on random inputs of one (large) shape"""
    T.reset(); T.EPOCH[0] += 1; T.lane_hook[0] = None
    env = OEnv(seed); hold = [None]
    s = make(kind, Shell('a', a1, n1), Shell('b', a2, n2), [(V(('Z', c)), [V(('X', 'c%d' % c, d)) for d in range(3)]) for c in range(nc)], hold, env)
    rep, det = scen.native(s, variant, env, full=() if kind == 'V' else False)
    return dict(name='', fn='@' + FN[kind], obl={}, mem=0, instr=0, bad=[('integral', det)] if rep else [], replay=dict(reproduced=rep, detail=det))

def ind_task(variant, kind, a1, a2):
    """proof for any numbers of primitives (and charges); a failed obligation counts when a run of the counterexample's shape confirms it"""
    from vt import ind
    nm = '%s/%s/am %d %d/any numbers of primitives%s' % (variant, FN[kind], a1, a2, ' and charges' if kind == 'V' else '')
    def mk():
        cent = [(V(('Z', 0)), [V(('X', 'c0', d)) for d in range(3)])] if kind == 'V' else []
        return OEI(Shell('a', a1, 1), Shell('b', a2, 1), kind, cent)
    def confirm(m):
        n1, n2, nc = (max(0, min(int(m.get(x, d)), 24)) for x, d in (('n1', 2), ('n2', 3), ('nc', 2)))
        n1, n2 = max(n1, 1), max(n2, 1)
        if kind != 'V': nc = 0
        if n1 * n2 * max(nc, 1) * ((a1 + 1) * (a2 + 1)) ** 2 > 2500: r = numeric(variant, kind, a1, a2, n1, n2, nc)
        else: r = task(variant, kind, a1, a2, n1, n2, nc)
        for seed in range(5, 13):
            # what is added may depend on the values
            if r['bad'] or n1 * n2 * max(nc, 1) * ((a1 + 1) * (a2 + 1)) ** 2 > 600: break
            r = numeric(variant, kind, a1, a2, n1, n2, nc, seed)
        return r
    return E.ind_run(ind.OneE(variant, kind, FN[kind], mk, ('simint/simint_oneelectron.c',)), nm, '@' + FN[kind], variant, confirm, [dict(n1=2, n2=3, nc=2)])
