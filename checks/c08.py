"""C08: shell pair data."""
import random
from . import eri_common as E
from .shell_common import *

def batches(L, NS, rng, n):
    """lists of pairs as (label of A, label of B, nprim A, nprim B); equal labels: the same shell"""
    out = [('one pair', [('a', 'b', 2, 3)]), ('same shell', [('a', 'a', 3, 3)]), ('single primitive same', [('a', 'a', 1, 1)]),
           ('a batch and one', [('a%d' % k, 'b%d' % k, 1 + k % 2, 1 + k % 3) for k in range(NS + 1)]),
           ('two full batches', [('a%d' % k, 'b%d' % k, 1 + (k * k) % 3, 1) for k in range(2 * NS)]),
           ('mixed same', [('a', 'b', 2, 2), ('a', 'a', 2, 2), ('b', 'a', 2, 2), ('b', 'b', 2, 2), ('c', 'a', 1, 2)]),
           ('many primitives', [('a', 'b', 7, 9), ('c', 'c', 8, 8), ('d', 'e', 1, 12), ('f', 'g', 11, 1)]), ('long batch', [('a%d' % k, 'b%d' % k, 1 + (k % 7 == 3), 1 + (k % 5 == 4)) for k in range(4 * NS + 3)]),
           ('same count, different shells', [('a', 'b', 2, 2), ('c', 'd', 3, 3)])]
    for k in range(n):
        m = rng.randint(1, 2 * NS + 1); names = {}
        ps = []
        for q in range(m):
            x, y = 'abcdef'[rng.randrange(6)] + str(k), 'abcdef'[rng.randrange(6)] + str(k)
            for z in (x, y): names.setdefault(z, rng.randint(1, 3))
            ps.append((x, y, names[x], names[y]))
        out.append(('random %d' % k, ps))
    return out

def shells_of(ps, am1=1, am2=1):
    sh = {}
    for a, b, na, nb in ps:
        for t, n, am in ((a, na, am1), (b, nb, am2)):
            if t not in sh: sh[t] = Shell(t, am, n)
    return sh

def make(ps, method, lay, grid=False, reuse=None, am=(1, 1), method0=0):
    s = Scen('create a batch of %d pairs %s, screening %d' % (len(ps), ps if len(ps) < 4 else '', method))
    sh = shells_of(ps, *am)
    s.decl('P', 'pair'); s.call('simint_initialize_multi_shellpair', Ref('P'))
    if reuse:
        sr = shells_of(reuse); mk_pairs(s, 'Z', reuse, sr); s.call('simint_create_multi_shellpair2', len(reuse), Ref('Z'), Ref('P'), method0)
    mk_pairs(s, 'AB', ps, sh)
    b = Batch([(sh[a], sh[c]) for a, c, _, _ in ps], lay['L'], lay['NS'])
    s.call('simint_create_multi_shellpair2', len(ps), Ref('AB'), Ref('P'), method)
    expect_batch(s, 'P', b, lay, fast_screen if method == 2 else None)
    if method == 0: s.check('screen is NULL', ('P', 0, 'screen'), None, 'null')
    s.call('simint_free_multi_shellpair', Ref('P'))
    free_shells(s, sh)
    return s

def smaller(ps):
    """earlier contents of the same object that need slightly less memory"""
    out = [ps[:-1]] if len(ps) > 1 else []
    a, b, na, nb = ps[-1]
    if na > 1 and a != b and sum(q[:2].count(a) for q in ps) == 1: out.append(ps[:-1] + [(a, b, na - 1, nb)])
    return [[('r' + x, 'r' + y, n, m) for x, y, n, m in r] for r in out]

def mk_pairs(s, name, ps, sh):
    """the array AB of shell structures: copies share the data of one shell object, as the library's callers do"""
    own = 'own_' + name
    s.decl(own, 'shell', len(sh)); pos = {}
    for k, (t, S) in enumerate(sh.items()): S.make(s, own, k); pos[t] = k
    s.decl(name, 'shell', 2 * len(ps))
    for k, (a, b, _, _) in enumerate(ps):
        s.ops.append(('copy', name, 2 * k, own, pos[a])); s.ops.append(('copy', name, 2 * k + 1, own, pos[b]))
    s.owners = getattr(s, 'owners', []) + [(own, len(sh))]
def free_shells(s, sh):
    for own, n in s.owners: s.call('simint_free_shells', n, Ref(own))

def make_grid(na, nb, nps, lay, same=False):
    """simint_create_multi_shellpair: all pairs of two lists, first list outermost"""
    s = Scen('create all pairs of %d and %d shells' % (na, nb))
    A = [Shell('a%d' % k, 1, nps[k % len(nps)]) for k in range(na)]
    B = A if same else [Shell('b%d' % k, 0, nps[(k + 1) % len(nps)]) for k in range(nb)]
    if same: nb = na
    s.decl('A', 'shell', na)
    for k, S in enumerate(A): S.make(s, 'A', k)
    if not same:
        s.decl('B', 'shell', nb)
        for k, S in enumerate(B): S.make(s, 'B', k)
    s.decl('P', 'pair'); s.call('simint_initialize_multi_shellpair', Ref('P'))
    s.call('simint_create_multi_shellpair', na, Ref('A'), nb, Ref('A' if same else 'B'), Ref('P'), 0)
    expect_batch(s, 'P', Batch([(x, y) for x in A for y in B], lay['L'], lay['NS']), lay, None)
    s.call('simint_free_multi_shellpairs', 1, Ref('P')); s.call('simint_free_shells', na, Ref('A'))
    if not same: s.call('simint_free_shells', nb, Ref('B'))
    return s

def task(variant, label, ps, method, reuse):
    lay = layout.get(variant)
    env = Env(5) if method else None
    return run_scen(lambda: make(ps, method, lay, reuse=reuse), '%s/%s/screen %d%s' % (variant, label, method, '/reused' if reuse else ''), variant, 'simint_fill_multi_shellpair2', env=env, extra=('simint/shell/shell_screen.c',))
def gtask(variant, na, nb, nps, same):
    lay = layout.get(variant)
    return run_scen(lambda: make_grid(na, nb, nps, lay, same), '%s/grid %dx%d%s' % (variant, na, nb, ' same' if same else ''), variant, 'simint_fill_multi_shellpair')

def run(ck, tier):
    ck.trusted += SHELL_TRUST
    for v in build.VARIANTS: layout.get(v)
    rng = random.Random(framework.SEED * 31 + 8); ts = []
    for v in build.VARIANTS:
        lay = layout.get(v)
        for label, ps in batches(lay['L'], lay['NS'], rng, 4 if tier != 'thorough' else 40):
            for method in (0, 2): ts.append((task, (v, label, ps, method, None), len(ps)))
            ts.append((task, (v, label, ps, 0, [('q', 'r', 3, 2)]), len(ps)))
            for r in smaller(ps): ts.append((task, (v, label, ps, 0, r), len(ps)))
        for na, nb, nps, same in ((2, 3, (1, 2), False), (1, 4, (3,), False), (3, 3, (2, 1), True), (5, 4, (1, 4), False)): ts.append((gtask, (v, na, nb, nps, same), 8))
    res = framework.run_tasks(ts)
    E.collect(ck, res)
    ck.solver_s = sum(r.get('cpu', 0) for r in res)
