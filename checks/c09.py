"""C09: combining shell pair batches."""
import random
from . import eri_common as E
from .shell_common import *
from .c08 import mk_pairs, shells_of, free_shells, smaller

def same_max(want_names):
    """the maximum of the inputs' maxima (values follow the concrete ordering of this path)"""
    def t(sym, got):
        w = max(float(T.evalf(V(n), sym.env)) for n in want_names)
        return abs(float(T.evalf(got, sym.env)) - w) <= 1e-12 * abs(w)
    return t

def make(groups, method, lay, single, reuse, setmax=True):
    L, NS = lay['L'], lay['NS']
    s = Scen('combine %d batches of %s pairs with %s (screening %d%s)' % (len(groups), [len(g) for g in groups], 'simint_cat_shellpairs' if single else 'simint_cat_multi_shellpair', method, ', destination used before' if reuse else ''))
    allps = [p for g in groups for p in g]
    sh = shells_of(allps)
    s.decl('own', 'shell', len(sh)); pos = {}
    for k, (t, S) in enumerate(sh.items()): S.make(s, 'own', k); pos[t] = k
    s.decl('In', 'pair', len(groups)); batches = []
    for g, ps in enumerate(groups):
        s.call('simint_initialize_multi_shellpair', Ref('In', g))
        nm = 'AB%d' % g
        s.decl(nm, 'shell', 2 * len(ps))
        for k, (a, b, _, _) in enumerate(ps): s.ops.append(('copy', nm, 2 * k, 'own', pos[a])); s.ops.append(('copy', nm, 2 * k + 1, 'own', pos[b]))
        s.call('simint_create_multi_shellpair2', len(ps), Ref(nm), Ref('In', g), method)
        if setmax: s.poke('In', g, 'screen_max', None, V(('sm', g)))
        batches.append(Batch([(sh[a], sh[b]) for a, b, _, _ in ps], L, NS))
    s.decl('P', 'pair'); s.call('simint_initialize_multi_shellpair', Ref('P'))
    if reuse:
        sr = shells_of(reuse); mk_pairs(s, 'Z', reuse, sr); s.call('simint_create_multi_shellpair2', len(reuse), Ref('Z'), Ref('P'), method)
    s.ptrs('Ptrs', [('In', g) for g in range(len(groups))])
    s.call('simint_cat_shellpairs' if single else 'simint_cat_multi_shellpair', len(groups), Ref('Ptrs'), Ref('P'), method)
    expect_batch(s, 'P', Batch([p for b in batches for p in b.pairs], L, NS), lay, fast_screen if method == 2 else None)
    if method and setmax: s.check('screen_max', ('P', 0, 'screen_max'), same_max([('sm', g) for g in range(len(groups))]))
    for g, b in enumerate(batches): expect_batch(s, 'In', b, lay, fast_screen if method == 2 else None, idx=g)
    s.call('simint_free_multi_shellpairs', len(groups), Ref('In')); s.call('simint_free_multi_shellpair', Ref('P')); s.call('simint_free_shells', len(sh), Ref('own'))
    for own, n in getattr(s, 'owners', []): s.call('simint_free_shells', n, Ref(own))
    return s

def task(variant, label, groups, method, single, reuse):
    lay = layout.get(variant)
    return run_scen(lambda: make(groups, method, lay, single, reuse), '%s/%s/%s/screen %d%s' % (variant, 'cat_shellpairs' if single else 'cat_multi', label, method, '/reused' if reuse else ''), variant,
                    'simint_cat_shellpairs' if single else 'simint_cat_multi_shellpair', env=Env(9), extra=('simint/shell/shell_screen.c',))

def P(k, na, nb, t='a'): return (t + str(k), ('b' + str(k)) if na or nb else t, na, nb)
def groups_for(NS, rng, n, single):
    if single:
        out = [('one', [[P(0, 2, 2)]]), ('a batch', [[P(k, 1 + k % 2, 1 + k % 3)] for k in range(NS)]), ('a batch and two', [[P(k, 1 + k % 3, 1)] for k in range(NS + 2)]), ('same shell', [[('a', 'a', 3, 3)], [('a', 'b', 3, 1)]]), ('long', [[P(k, 1 + (k % 3 == 1), 1 + k % 2)] for k in range(3 * NS + 1)]), ('many primitives', [[P(0, 6, 7)], [P(1, 1, 11)], [('a', 'a', 6, 6)]])]
        for q in range(n): out.append(('random %d' % q, [[P(k, rng.randint(1, 3), rng.randint(1, 3))] for k in range(rng.randint(1, 2 * NS + 1))]))
        return out
    out = [('one of one', [[P(0, 2, 2)]]), ('one of three', [[P(0, 2, 2), P(1, 1, 3), P(2, 2, 1)]]), ('two', [[P(0, 2, 1), P(1, 1, 1)], [P(2, 3, 1)]]),
           ('batch crossing', [[P(k, 1 + k % 2, 1) for k in range(NS - 1)], [P(NS + k, 2, 1 + k) for k in range(3)]]),
           ('padded input', [[P(k, 1 + k % 3, 1) for k in range(NS + 2)], [P(NS + 5, 2, 2)]]), ('same shell', [[('a', 'a', 2, 2), ('a', 'b', 2, 1)], [('b', 'b', 1, 1)]]),
           ('long', [[P(k, 1 + (k % 3 == 1), 1) for k in range(2 * NS + 1)], [P(100 + k, 1, 1 + k % 2) for k in range(3 * NS)], [P(200, 3, 1)]]), ('many primitives', [[P(0, 6, 7), P(1, 1, 11)], [('a', 'a', 6, 6), P(2, 3, 3)], [P(3, 1, 1)]]), ('many inputs', [[P(k, 1 + k % 2, 1)] for k in range(NS + 3)])]
    for q in range(n):
        k0 = 0; gs = []
        for g in range(rng.randint(1, 4)):
            m = rng.randint(1, NS + 1); gs.append([P(k0 + k, rng.randint(1, 3), rng.randint(1, 2)) for k in range(m)]); k0 += m
        out.append(('random %d' % q, gs))
    return out

def run(ck, tier):
    ck.trusted += SHELL_TRUST
    for v in build.VARIANTS: layout.get(v)
    rng = random.Random(framework.SEED * 17 + 9); ts = []
    for v in build.VARIANTS:
        NS = layout.get(v)['NS']
        for single in (True, False):
            for label, gs in groups_for(NS, rng, 3 if tier != 'thorough' else 30, single):
                for method in (0, 2):
                    ts.append((task, (v, label, gs, method, single, None), sum(map(len, gs))))
                ts.append((task, (v, label, gs, 2, single, [('q', 'r', 4, 4), ('s', 't', 2, 2)]), sum(map(len, gs))))
                for r in smaller([p for g in gs for p in g]): ts.append((task, (v, label, gs, 2, single, r), sum(map(len, gs))))
    res = framework.run_tasks(ts)
    E.collect(ck, res)
    ck.solver_s = sum(r.get('cpu', 0) for r in res)
