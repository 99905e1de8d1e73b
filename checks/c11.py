"""C11: histories of create, copy, reuse and free."""
import random, copy
from . import eri_common as E
from .shell_common import *

class PokedShell(Shell):
    """a shell some of whose entries were overwritten by the caller"""
    def __init__(self, base): self.__dict__.update(base.__dict__); self.over = dict(getattr(base, 'over', {}))
    def al(self, i): return self.over.get(('al', i)) or (ZERO_SHELL if self.tag == 'zero' else V(('al', self.tag, i)))
    def co(self, i): return self.over.get(('co', i)) or (C(1) if self.tag == 'zero' else V(('c', self.tag, i)))
    def X(self, d): return C(0) if self.tag == 'zero' else V(('X', self.tag, d))
ZERO_SHELL = None

class Hist:
    """builds a scenario together with the expected contents"""
    def __init__(self, lay, ns, np_, title):
        self.lay = lay; self.s = Scen(title); self.sh = [None] * ns; self.pr = [None] * np_; self.t = 0; self.log = []; self.meth = {}
        self.s.decl('S', 'shell', ns); self.s.decl('P', 'pair', np_)
        self.s.call('simint_initialize_shells', ns, Ref('S')); self.s.call('simint_initialize_multi_shellpairs', np_, Ref('P'))
        global ZERO_SHELL
        ZERO_SHELL = C(0)
    def check_shell(self, k):
        m = self.sh[k]; s = self.s
        if m is None: return
        if m == 'free': s.check('freed', ('S', k, 'ptr'), None, 'null'); return
        s.check('nprim', ('S', k, 'nprim'), m.n, 'int'); s.check('am', ('S', k, 'am'), m.am, 'int')
        for d in range(3): s.check('centre', ('S', k, XYZ[d]), m.X(d))
        for i in range(m.n): s.check('alpha', ('S', k, 'alpha', i), m.al(i)); s.check('coef', ('S', k, 'coef', i), m.co(i))
    def check_pair(self, k):
        m = self.pr[k]
        if m in (None, 'free', 'alloc'): return
        expect_batch(self.s, 'P', Batch(m, self.lay['L'], self.lay['NS']), self.lay, fast_screen if self.meth.get(k) == 2 else None, idx=k)
    def check_all(self):
        for k in range(len(self.sh)): self.check_shell(k)
        for k in range(len(self.pr)): self.check_pair(k)
    # operations
    def create(self, k, n, am):
        self.t += 1; S = PokedShell(Shell('h%d' % self.t, am, n)); S.make(self.s, 'S', k, init=False); self.sh[k] = S; self.check_shell(k)
    def zero(self, k):
        self.s.call('simint_create_zero_shell', Ref('S', k)); self.sh[k] = PokedShell(Shell('zero', 0, 1)); self.check_shell(k)
    def alloc(self, k, n):
        """allocate and fill by hand"""
        s = self.s; self.t += 1; S = PokedShell(Shell('h%d' % self.t, 1, n))
        s.call('simint_allocate_shell', n, Ref('S', k))
        s.poke('S', k, 'nprim', None, n); s.poke('S', k, 'am', None, 1)
        for d in range(3): s.poke('S', k, XYZ[d], None, S.X(d))
        for i in range(n): s.poke('S', k, 'alpha', i, S.al(i)); s.poke('S', k, 'coef', i, S.co(i))
        self.sh[k] = S; self.check_shell(k)
    def copy(self, a, b):
        self.s.call('simint_copy_shell', Ref('S', a), Ref('S', b))
        self.sh[b] = PokedShell(self.sh[a]); self.check_shell(a); self.check_shell(b)
    def scribble(self, k, i):
        """the caller changes one entry"""
        m = self.sh[k]; self.t += 1; v = V(('c', 'w%d' % self.t, 0)); w = V(('al', 'w%d' % self.t, 0))
        self.s.poke('S', k, 'coef', i, v); self.s.poke('S', k, 'alpha', i, w)
        m = PokedShell(m); m.over[('co', i)] = v; m.over[('al', i)] = w; m.tag = m.tag
        m.ckey = (m.tag, self.t); self.sh[k] = m
        for q in range(len(self.sh)): self.check_shell(q)
    def free(self, k): self.s.call('simint_free_shell', Ref('S', k)); self.sh[k] = 'free'; self.check_shell(k)
    def pairs(self, k, ps, via, method=0):
        """via: create2 | alloc2 | grid"""
        s = self.s; self.t += 1; nm = 'AB%d' % self.t
        m = [(self.sh[a], self.sh[b]) for a, b in ps]
        if via == 'grid':
            a, b = ps[0]
            s.call('simint_create_multi_shellpair', 1, Ref('S', a), 1, Ref('S', b), Ref('P', k), method); m = m[:1]
        else:
            s.decl(nm, 'shell', 2 * len(ps))
            for q, (a, b) in enumerate(ps): s.ops.append(('copy', nm, 2 * q, 'S', a)); s.ops.append(('copy', nm, 2 * q + 1, 'S', b))
            if via == 'create2': s.call('simint_create_multi_shellpair2', len(ps), Ref(nm), Ref('P', k), method)
            else:
                s.call('simint_allocate_multi_shellpair2', len(ps), Ref(nm), Ref('P', k), method)
                s.call('simint_fill_multi_shellpair2', len(ps), Ref(nm), Ref('P', k), method)
        self.pr[k] = m; self.meth[k] = method; self.check_pair(k)
    def cat(self, ks, k):
        s = self.s; self.t += 1; method = 2 if all(self.meth.get(q) == 2 for q in ks) else 0
        s.ptrs('Q%d' % self.t, [('P', q) for q in ks])
        s.call('simint_cat_multi_shellpair', len(ks), Ref('Q%d' % self.t), Ref('P', k), method)
        self.meth[k] = method
        self.pr[k] = [p for q in ks for p in self.pr[q]]; self.check_pair(k)
        for q in ks: self.check_pair(q)
    def freep(self, k):
        self.s.call('simint_free_multi_shellpair', Ref('P', k)); self.pr[k] = 'free'
        self.s.check('freed', ('P', k, 'ptr'), None, 'null')
    def end(self):
        self.check_all()
        self.s.call('simint_free_shells', len(self.sh), Ref('S')); self.s.call('simint_free_multi_shellpairs', len(self.pr), Ref('P'))
        return self.s

def fixed():
    """histories that every run covers: (name, f(H))"""
    def reuse(sizes):
        def f(H):
            for n in sizes: H.create(0, n, 1)
        return f
    def copies(n0, n1, n2):
        """destination last held n0 primitives (0: nothing), source held n1 before it got n2"""
        def f(H):
            if n0: H.create(1, n0, 2)
            H.create(0, n1, 1)
            if n2 != n1: H.create(0, n2, 1)
            H.copy(0, 1); H.scribble(1, 0); H.scribble(0, n2 - 1); H.free(0); H.check_all(); H.create(0, 1, 0); H.check_all(); H.create(1, max(n0, n1, n2), 1); H.create(0, n2, 1); H.copy(1, 0); H.check_all()
        return f
    def pairs(ns, via, mode=0):
        def f(H):
            H.create(0, ns[0], 1); H.create(1, ns[1], 1)
            for k, ps in enumerate(([(0, 1)] * 2, [(0, 1)] * 19, [(1, 0)], [(0, 0), (0, 1), (1, 1)])): H.pairs(0, ps, via, 2 * (mode & 1) if mode < 2 else 2 * ((k + mode) % 2))
            H.free(0); H.check_all(); H.freep(0); H.freep(0)
        return f
    def catsm(H): cats(H, 2)
    def cats(H, m=0):
        H.create(0, 2, 1); H.create(1, 3, 1); H.pairs(0, [(0, 1), (1, 1)], 'create2', m); H.pairs(1, [(1, 0)] * 9, 'create2', m)
        H.cat([0, 1], 2); H.freep(0); H.free(1); H.check_all(); H.create(1, 1, 1); H.pairs(0, [(1, 0)], 'create2', 2 - m); H.cat([0], 2); H.cat([0, 0], 1); H.check_all()
    def grow(via, mode):
        """one object, batches of growing size"""
        def f(H):
            H.create(0, 1, 1); H.create(1, 2, 1); H.create(2, 3, 1)
            for q in range(1, 11): H.pairs(0, [(0, 0)] * q, via, mode)
            for q in ((0, 0), (0, 1), (0, 2), (1, 2), (2, 2)): H.pairs(1, [q], via, mode)
            H.cat([1], 0); H.check_all()
        return f
    def twice(H): H.free(0); H.free(0); H.create(0, 3, 1); H.free(0); H.free(0); H.create(0, 2, 1)
    def zeros(H): H.create(0, 4, 2); H.zero(0); H.create(1, 2, 1); H.zero(2); H.copy(1, 2); H.copy(0, 1)
    def zpair(H): H.create(0, 2, 1); H.zero(1); H.pairs(0, [(0, 1)] * 3, 'create2'); H.pairs(0, [(0, 1)], 'grid')
    out = [('reuse %s' % (q,), reuse(q)) for q in ((1, 4, 2), (5, 1, 3), (2, 2), (3, 4, 5, 1, 5), (1, 33, 17, 34))]
    out += [('copy %d %d %d' % q, copies(*q)) for q in ((0, 2, 2), (0, 5, 1), (1, 3, 3), (4, 1, 1), (5, 2, 2), (3, 5, 2), (2, 5, 2), (7, 40, 12), (40, 41, 41))]
    out += [('pairs %s %s' % (ns, via), pairs(ns, via)) for ns in ((2, 3), (1, 1), (6, 5)) for via in ('create2', 'alloc2', 'grid')]
    out += [('pairs %s %s screening %d' % (ns, via, m), pairs(ns, via, m)) for ns in ((2, 3), (1, 1)) for via in ('create2', 'alloc2', 'grid') for m in (1, 2, 3)]
    out += [('combine with screening', catsm)]
    out += [('growing batches %s %d' % (via, m), grow(via, m)) for via in ('create2', 'alloc2') for m in (0, 2)]
    return out + [('combine', cats), ('free twice', twice), ('zero shell', zeros), ('zero shell pair', zpair)]

def rand(seed, n):
    def f(H):
        r = random.Random(seed)
        for q in range(n):
            live = [k for k, m in enumerate(H.sh) if isinstance(m, Shell)]
            eq = [k for k in live if H.sh[k].am == 1 and H.sh[k].tag != 'zero']
            lp = [k for k, m in enumerate(H.pr) if isinstance(m, list)]
            op = r.choice(['create', 'create', 'copy', 'copy', 'alloc', 'scribble', 'free', 'zero', 'pairs', 'pairs', 'pairs', 'cat', 'freep'])
            if op == 'create': H.create(r.randrange(3), r.randint(1, 5), 1)
            elif op == 'alloc': H.alloc(r.randrange(3), r.randint(1, 5))
            elif op == 'copy' and live:
                a = r.choice(live); b = r.choice([k for k in range(3) if k != a]); H.copy(a, b)
            elif op == 'scribble' and live:
                a = r.choice(live); H.scribble(a, r.randrange(H.sh[a].n))
            elif op == 'free': H.free(r.randrange(3))
            elif op == 'zero': H.zero(r.randrange(3))
            elif op == 'freep': H.freep(r.randrange(3))
            elif op == 'pairs' and eq: H.pairs(r.randrange(3), [(r.choice(eq), r.choice(eq)) for _ in range(r.choice((1, 2, 3, 9, 17)))], r.choice(['create2', 'alloc2', 'grid']), r.choice((0, 0, 2)))
            elif op == 'cat' and len(lp) > 1:
                k = r.choice(lp); ks = [x for x in lp if x != k]; H.cat([r.choice(ks) for _ in range(r.randint(1, 2))], k)
    return f

def task(variant, name, f):
    if isinstance(f, tuple): f = rand(*f)
    elif isinstance(f, int): f = fixed()[f][1]
    def mk():
        H = Hist(layout.get(variant), 3, 3, 'history ' + name); f(H); return H.end()
    return run_scen(mk, variant + '/' + name, variant, 'simint_shell_history', env=Env(5), extra=('simint/shell/shell_screen.c',))

def pairs_of(npair, q, L, NS, t):
    """npair pairs whose padded primitives fill q vectors"""
    nb = (npair + NS - 1) // NS; first = min(npair, NS)
    big = max(1, L * (q - (nb - 1)) - (first - 1)) if q >= nb else 1
    # a batch of single primitives takes NS/L vectors at most; the first pair takes what is left
    rest = sum((min(NS, npair - b * NS) + L - 1) // L for b in range(1, nb)); big = max(1, L * (q - rest) - (first - 1))
    return [('%sa%d' % (t, k), '%sb%d' % (t, k), 1, big if k == 0 else 1) for k in range(npair)]

def alloc_pair_task(variant, screen):
    """the allocation of shell pairs for all sizes and all earlier sizes"""
    from vt import alloc
    from . import c08
    lay = layout.get(variant)
    nm = '%s/allocate shell pairs of any size, %s' % (variant, 'screened' if screen else 'not screened')
    def confirm(m):
        n, q, n0, q0 = (int(m.get(x, 1)) for x in ('npair', 'q', 'npair0', 'q0')); b = {'name': nm, 'bad': []}
        if max(n, n0) > 40 or max(q, q0) * lay['L'] > 400: return b
        ps, ps0 = pairs_of(n, q, lay['L'], lay['NS'], 'a'), pairs_of(n0, q0, lay['L'], lay['NS'], 'r')
        for m0 in (0, 2):
            for reuse in (ps0, None):
                b = run_scen(lambda: c08.make(ps, 2 * screen, lay, reuse=reuse, method0=m0), nm, variant, 'simint_allocate_multi_shellpair_base', env=Env(5), extra=('simint/shell/shell_screen.c',))
                if b['bad']: return b
        return b
    return E.ind_run(alloc.PairAlloc(variant, screen), nm, '@simint_allocate_multi_shellpair_base', variant, confirm, [])

def alloc_shell_task(variant, what):
    """the allocation, creation and copy of a shell for any number of primitives"""
    from vt import alloc
    nm = '%s/%s a shell of any size' % (variant, what)
    def confirm(m):
        n, n0 = (min(int(m.get(x, 1)), 400) for x in ('n', 'n0'))
        def hist(start):
            def f(H):
                if start: H.create(1, n0, 2)
                if what == 'allocate': H.alloc(1, n)
                elif what == 'create': H.create(1, n, 1)
                else: H.create(0, n, 1); H.copy(0, 1)
                H.check_all()
            return f
        for st in (True, False):
            H = lambda st=st: (lambda h: (hist(st)(h), h.end())[1])(Hist(layout.get(variant), 3, 3, '%s a shell of %d primitives after one of %d' % (what, n, n0)))
            b = run_scen(H, nm, variant, 'simint_%s_shell' % what, env=Env(5), extra=('simint/shell/shell_screen.c',))
            if b['bad']: return b
        return b
    return E.ind_run(alloc.ShellAlloc(variant, what), nm, '@simint_%s_shell' % what, variant, confirm, [dict(n=5, n0=3), dict(n=3, n0=5)])

def run(ck, tier):
    ck.trusted += SHELL_TRUST
    for v in build.VARIANTS: layout.get(v)
    ts = []
    for v in build.VARIANTS:
        for k, (n, f) in enumerate(fixed()): ts.append((task, (v, n, k), 8))
        for q in range(12 if tier != 'thorough' else 200): ts.append((task, (v, 'random %d' % q, (framework.SEED * 1000 + q, 14 if tier != 'thorough' else 30)), 10))
    for v in build.VARIANTS:
        for k in (0, 1): ts.append((alloc_pair_task, (v, k), 50))
        for w in ('allocate', 'create', 'copy'): ts.append((alloc_shell_task, (v, w), 9))
    res = framework.run_tasks(ts)
    E.collect(ck, res)
    E.ind_collect(ck, res)
    ck.solver_s = sum(r.get('cpu', 0) for r in res)
