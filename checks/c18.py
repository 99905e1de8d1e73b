"""C18: sorting the primitives of shell pairs by screening value."""
import random, itertools
from . import eri_common as E
from .shell_common import *
from .c08 import mk_pairs, shells_of, free_shells

def weak_orders(n):
    """all weak orderings of n values, as rank tuples"""
    for r in itertools.product(range(n), repeat=n):
        m = max(r)
        if set(r) == set(range(m + 1)): yield r

def descending(b, name='P'):
    def h(sym):
        out = []
        for k in range(len(b.pairs)):
            vs = [T.evalf(sym.read((name, 0, 'screen', b.start[k] + q)), sym.env) for q in range(b.n[k])]
            sym.obl += max(0, len(vs) - 1)
            for q in range(len(vs) - 1):
                if vs[q] < vs[q + 1]: out.append(('order', 'screen[%d] of pair %d is below the value that follows it' % (b.start[k] + q, k))); return out
        return out
    h.native = [((name, 0, 'screen', b.start[k] + q), 'sc/%d/%d' % (k, q)) for k in range(len(b.pairs)) for q in range(b.n[k])]
    def judge(H, env):
        for k in range(len(b.pairs)):
            for q in range(b.n[k] - 1):
                x, y = H.get('sc/%d/%d' % (k, q)), H.get('sc/%d/%d' % (k, q + 1))
                if x is not None and y is not None and x < y: return 'pair %d: screen[%d] = %.17g is below the next value %.17g' % (k, q, x, y)
        return None
    h.judge = judge
    return h

def make(ps, lay, am):
    s = Scen('create and sort a batch of pairs %s' % (ps if len(ps) < 4 else len(ps),))
    sh = shells_of(ps, *am)
    s.decl('P', 'pair'); s.call('simint_initialize_multi_shellpair', Ref('P'))
    mk_pairs(s, 'AB', ps, sh)
    b = Batch([(sh[a], sh[c]) for a, c, _, _ in ps], lay['L'], lay['NS'])
    s.call('simint_create_multi_shellpair2', len(ps), Ref('AB'), Ref('P'), 2)
    expect_batch(s, 'P', b, lay, fast_screen)
    s.hook(descending(b))
    s.call('simint_free_multi_shellpair', Ref('P')); free_shells(s, sh)
    return s

def rank_env(ranks):
    """exponents alike and coefficients +-r: estimates are ordered as the ranks, ties included, and no two primitives are alike"""
    f = {('al', 'a', i): 1.0 for i in range(len(ranks))}; seen = {}
    f[('al', 'b', 0)] = 0.5; f[('c', 'b', 0)] = 1.0
    for i, r in enumerate(ranks):
        k = seen.get(r, 0); seen[r] = k + 1
        f[('c', 'a', i)] = (1.0 + r) * (-1 if k % 2 else 1)
    return Env(1, f)

def task(variant, name, ps, fix, am=(1, 0)):
    lay = layout.get(variant)
    env = rank_env(fix) if isinstance(fix, tuple) else Env(fix)
    return run_scen(lambda: make(ps, lay, am), '%s/%s' % (variant, name), variant, 'simint_sort_multi_shellpair', env=env, extra=('simint/shell/shell_screen.c',))

def tied(variant, name, ps, seed, vals):
    """random batches whose coefficients come from a few values, so that estimates often tie"""
    lay = layout.get(variant); f = {}; r = random.Random(seed)
    for a, c, na, nb in ps:
        for t, n in ((a, na), (c, nb)):
            for i in range(n):
                f.setdefault(('al', t, i), r.choice((0.5, 1.0))); f.setdefault(('c', t, i), r.choice(vals))
            for d in range(3): f.setdefault(('X', t, d), 0.0)
    return run_scen(lambda: make(ps, lay, (0, 1)), '%s/%s' % (variant, name), variant, 'simint_sort_multi_shellpair', env=Env(1, f), extra=('simint/shell/shell_screen.c',))

def run(ck, tier):
    ck.trusted += SHELL_TRUST + ['the sort branches only on comparisons of screening values, so that one case per weak ordering of them covers all values']
    rng = random.Random(framework.SEED * 3 + 18); ts = []
    for v in build.VARIANTS:
        lay = layout.get(v); NS = lay['NS']
        full = v in ('general', 'noder') or tier == 'thorough'
        for n in range(1, 6 if tier == 'thorough' else 5):
            for r in weak_orders(n):
                if n < 4 or full: ts.append((task, (v, 'order %s' % (r,), [('a', 'b', n, 1)], r), 1))
        for n in (6, 9, 16, 37):
            asc = tuple(range(n)); rnd = list(asc); rng.shuffle(rnd)
            for nm, r in (('ascending', asc), ('descending', asc[::-1]), ('all equal', (0,) * n), ('organ pipe', asc[::2] + asc[1::2][::-1]), ('shuffled', tuple(rnd)), ('two values', tuple(rng.randrange(2) for _ in range(n)))):
                ts.append((task, (v, '%s %d' % (nm, n), [('a', 'b', n, 1)], r), 2))
        bs = [('batch and more', [('a%d' % k, 'b%d' % k, 1 + k % 4, 1 + k % 3) for k in range(NS + 3)]), ('same shell', [('a', 'a', 4, 4), ('a', 'b', 4, 2), ('b', 'b', 2, 2)]), ('single primitives', [('a%d' % k, 'b%d' % k, 1, 1) for k in range(NS + 1)]),
              ('long', [('a%d' % k, 'b%d' % k, 1 + k % 3, 1 + k % 2) for k in range(3 * NS + 1)]), ('one then many', [('a', 'b', 1, 1), ('c', 'd', 5, 2), ('e', 'f', 1, 1)])]
        for q in range(3 if tier != 'thorough' else 40): bs.append(('random %d' % q, [('r%d' % k, 's%d' % k, rng.randint(1, 4), rng.randint(1, 4)) for k in range(rng.randint(1, NS + 2))]))
        for nm, ps in bs:
            am = (1, 1) if nm == 'same shell' else (1, 0)
            ts.append((task, (v, nm, ps, rng.randrange(10 ** 6), am), 5))
            if nm != 'same shell': ts.append((tied, (v, nm + ', ties', ps, rng.randrange(10 ** 6), (0.5, -0.5, 1.0)), 5))
    res = framework.run_tasks(ts)
    E.collect(ck, res)
    ck.solver_s = sum(r.get('cpu', 0) for r in res)
