"""Unbounded proofs of the two-electron kernels: loop invariants over arbitrary shell-pair structures.

The kernel (the function generated for one class) is cut at the headers of its data-dependent loops.
The loops are recognised by what they do in concrete runs (how often they iterate), the invariants of
their variables are fitted to those runs as integer combinations of ghost quantities of the batch
layout, and every invariant is then *proved* on the LLVM IR: on entry, by induction for an arbitrary
iteration, and on exit; together with every memory, alignment and overflow obligation, and the
functional postcondition (each requested quartet is the sum over all its primitive quartets).
Numbers of shell pairs, primitives per shell pair, clips and array sizes are symbolic integers.

Anything outside this scheme raises Unsupported: the class is then covered by the runs of bounded
shape only.  A failed obligation yields a concrete shape (solver model) that the caller replays.
"""
import itertools
from fractions import Fraction
import z3
from . import terms as T, layout, eri, build
from .execu import *
from .lib import LibExec
from .irparse import body
from .sint import SInt, SBool, mkint

class UFail(Violation):
    def __init__(self, kind, msg, where='', model=None):
        Violation.__init__(self, kind, msg, where); self.model = model

class Unk:
    def __repr__(self): return 'unknown'
UNK = Unk()

# ------------------------------------------------------------------ control flow
class Loop:
    __slots__ = ('header', 'body', 'idx', 'phis', 'kind', 'forms', 'xforms', 'wset', 'trips', 'exit_ok', 'parent', 'exits', 'exits_from')
def loops(f):
    body(f)
    succ = {}; bi = {bn: i for i, bn in enumerate(f.order)}
    for bn in f.order:
        s = []
        for dst, op, data, txt in f.blocks[bn]:
            if op == 'br': s = [data[1], data[2]]
            elif op == 'jmp': s = [data[0]]
            elif op == 'switch': s = [data[2]] + [l for _, l in data[3]]
        succ[bn] = [x if x in bi else f.order[0] for x in s]
    pred = {bn: [] for bn in f.order}
    for a, ss in succ.items():
        for b in ss: pred[b].append(a)
    dom = {bn: None for bn in f.order}; dom[f.order[0]] = {f.order[0]}
    ch = True
    while ch:
        ch = False
        for bn in f.order[1:]:
            ps = [dom[p] for p in pred[bn] if dom[p] is not None]
            if not ps: continue
            d = set.intersection(*ps) | {bn}
            if d != dom[bn]: dom[bn] = d; ch = True
    res = {}
    for a, ss in succ.items():
        for h in ss:
            if dom[a] is not None and h in dom[a]:
                bd = res.setdefault(h, {h}); todo = [a]
                while todo:
                    x = todo.pop()
                    if x in bd: continue
                    bd.add(x); todo += pred[x]
    out = {}
    for h, bd in res.items():
        l = Loop(); l.header = h; l.body = {bi[x] for x in bd}; l.idx = bi[h]; l.kind = None; l.forms = {}; l.xforms = {}
        l.wset = set(); l.trips = []; l.parent = None
        l.phis = [dst for dst, op, data, txt in f.blocks[h] if op == 'phi']
        l.exit_ok = all(x == h or all(s in bd for s in succ[x]) for x in bd)
        out[h] = l
    for l in out.values():
        l.exits = [s for s in succ[l.header] if bi[s] not in l.body]
        ps = [p for p in out.values() if p is not l and l.body < p.body]
        if ps: l.parent = min(ps, key=lambda p: len(p.body))
    return out

# ------------------------------------------------------------------ concrete traces
class CPair(eri.Pair):
    """a shell pair of the given shape whose data are constants (traces only look at the control flow)"""
    def atom(self, f, p): return T.ZERO if f == 'prefac' else T.ONE
    def vatom(self, f, J): return T.ZERO if f == 'prefac' else T.ONE
    def AB(self, s, d): return T.ONE

class TExec(LibExec):
    wlog = None
    def memset(self, p, b, n):
        if self.wlog is not None and isinstance(p, Ptr) and p.obj: self.wlog(p.obj)
        return LibExec.memset(self, p, b, n)
    def memcpy(self, d, s, n):
        if self.wlog is not None and isinstance(d, Ptr) and d.obj: self.wlog(d.obj)
        return LibExec.memcpy(self, d, s, n)

def shapes(L):
    NS = 2 * L
    a = lambda k, s: [1 + (s + 3 * i + i * i) % 3 for i in range(k)]
    q = lambda k, s: [1 + (s * i + 2 * i * i + s) % (L + 2) for i in range(k)]
    return [(a(NS + 2, 0), NS + 2, q(NS + 3, 1), NS + 2), (a(NS + 1, 1), NS, q(NS, 2), NS - 1), (a(2, 2), 1, q(2 * NS + 3, 3), 2 * NS + 1), (a(3, 1), 3, q(3, 5), 1),
            (a(2, 0), 2, q(NS + 1, 7), NS + 1), (a(5, 1), 4, [2 * L + 1] + q(NS - 1, 1), NS),
            (a(2, 1), 2, [2 * L + 2] + q(NS - 1, 1) + [1] * NS + q(NS + 2, 3), 3 * NS + 1), ([2, 1], 2, [1] * NS + q(NS, 1) + [L] * NS + [3, 1], 3 * NS + 2),
            ([1, 2], 2, [1] * NS + [8 * L * L + 3] + q(NS - 1, 1) + [12 * L * L + 3, 1], 2 * NS + 2)]

def ghosts(kinds, counts, sh, L):
    """values of the ghost quantities: kinds/counts of the active loops from outermost"""
    NS = 2 * L; bra, bc, ket, kc = sh
    P = eri.Pair('P', bra, bc, 0, 0, {'L': L, 'NS': NS}); Q = eri.Pair('Q', ket, kc, 0, 0, {'L': L, 'NS': NS})
    d = dict(zip(kinds, counts)); g = dict(cP=bc, cQ=kc, N=bc * kc)
    go = {}
    if 'AB' in d:
        ab = d['AB']; g['ab'] = ab; g['R'] = ab * kc
        g['BP'] = P.start[ab] if ab < bc else None
        g['na'] = bra[ab] if ab < bc else None
    if 'CD' in d:
        cd = NS * d['CD']; g['cd'] = cd; g['Rcd'] = g['R'] + cd
        g['RcQ'] = g['R'] + kc
        g['bq'] = Q.start[cd] if cd < kc else None
        n = min(NS, kc - cd)
        if n > 0:
            g['nsb'] = n; C = [0]
            for k in range(n): C.append(C[-1] + ket[cd + k])
            g['E'] = C[n]; g['bqE'] = g['bq'] + C[n]; g['C1'] = C[1]
            g['Rcdn'] = g['Rcd'] + n; g['cdn'] = cd + n
        if 'SLOT' in d and n > 0:
            s = d['SLOT']; g['s'] = s; g['Cs'] = C[s]; g['bqCs'] = g['bq'] + C[s]; g['cds'] = cd + s; g['Rcds'] = g['Rcd'] + s
        if 'BPRIM' in d: g['t'] = d['BPRIM']; g['BPt'] = g['BP'] + d['BPRIM']
        if 'KVEC' in d or 'PVEC' in d:
            g['v'] = d.get('KVEC', d.get('PVEC')); Lv = L * g['v']; g['Lv'] = Lv; g['bqLv'] = g['bq'] + Lv
            if Lv < C[n]:
                o = 0
                while C[o + 1] < Lv: o += 1
                g['o'] = o; g['Co'] = C[o]; g['Co1'] = C[o + 1]; g['Rcdo'] = g['Rcd'] + o; g['cdo'] = g['cd'] + o
    return g

def trip_of(kind, par, sh, L):
    """(number of iterations) a loop of this kind makes, given the counts of the enclosing cut loops"""
    NS = 2 * L; bra, bc, ket, kc = sh
    if kind == 'AB': return bc
    if kind == 'CD': return -(-kc // NS)
    cd = NS * par['CD']; n = min(NS, kc - cd)
    if kind == 'SLOT': return n
    if kind == 'BPRIM': return bra[par['AB']]
    return -(-sum(ket[cd:cd + n]) // L)
NEED = {'AB': [], 'CD': ['AB'], 'SLOT': ['AB', 'CD'], 'PVEC': ['AB', 'CD'], 'BPRIM': ['AB', 'CD'], 'KVEC': ['AB', 'CD', 'BPRIM']}

class Kernel:
    def __init__(self, variant, der, am):
        self.variant = variant; self.der = der; self.am = am
        self.lay = layout.get(variant); self.L = self.lay['L']; self.NS = self.lay['NS']
        if self.NS != 2 * self.L: raise Unsupported('batch size')
        self.nc = 1
        for l in am: self.nc *= eri.ncart(l)
        self.ncomp = 12 if der else 1
        self.stride = 8 * self.nc * self.ncomp

    # -------------------------------------------------------- traces
    def trace(self):
        T.reset(); T.EPOCH[0] += 1
        T.lane_hook[0] = None
        L = self.L
        self.heaps = {}
        self.samples = {}       # header -> list of (shape index, counts of active loops by header, phi values)
        ex = TExec(self.variant, {}); self.tex = ex
        ex.load_rel('simint/simint_init.c'); ex.load_rel('simint/simint_eri.c')
        ex.call('@simint_init', [])
        self.worksize = ex.call('@simint_eri_worksize', [self.der, max(self.am)])
        ex.contracts['@boys_F_split'] = self.boys_const
        self.kf = self.entry = None
        orig = ex.run
        def spy(f, args):
            if f.name.startswith('@ostei_') and len(f.params) == 5 and f.params[0][2] is not None:
                self.kf = f
                if self.entry is None: self.entry = f
            return orig(f, args)
        ex.run = spy
        self.shapes = shapes(L)
        for si, sh in enumerate(self.shapes):
            if si == 0:
                self.run_shape(ex, ([1], 1, [1], 1), -1)
                if self.kf is None: raise Unsupported('no kernel')
                if self.entry is not self.kf: raise Unsupported('permuted class')
                self.loops = loops(self.kf)
                ex.hooks = {(self.kf.name, b): self.exit_hook(b) for l in self.loops.values() for b in l.exits}
                ex.hooks.update({(self.kf.name, h): self.hook_for(l) for h, l in self.loops.items()})
            self.run_shape(ex, sh, si)
        self.classify()
        self.fit()
    def boys_const(self, ex, args):
        F, x, n = args
        t = ('vec', self.L, ('double',)) if self.L > 1 else ('double',)
        for m in range(n + 1): ex.store(Ptr(F.obj, F.off + 8 * self.L * m), t, T.ONE, 8 * self.L, 8 * self.L)
    def run_shape(self, ex, sh, si):
        bra, bc, ket, kc = sh; am = self.am; lay = self.lay
        hasder = 'alpha2' in lay['simint_multi_shellpair'][0]
        P = CPair('P', bra, bc, am[0], am[1], lay, der=hasder); Q = CPair('Q', ket, kc, am[2], am[3], lay, der=hasder)
        work = Obj('work', 8 * self.worksize, 64); out = Obj('integrals', self.stride * bc * kc, 64)
        self.cur = dict(si=si, act=[], roles={work.id: 'work', out.id: 'out'}, started=False)
        def log(o, *a):
            if self.cur['act']:
                r = self.role(o)
                for l, c in self.cur['act']: l.wset.add(r)
        def sh_(ex, o, off, v, nl):
            if self.cur['act']: log(o)
            return v
        ex.store_hook = sh_; ex.wlog = log
        args = [P.objects(ex), Q.objects(ex), T.ZERO, Ptr(work, 0), Ptr(out, 0)]
        if self.der: ex.call('@simint_compute_eri_deriv', [self.der] + args)
        else: ex.call('@simint_compute_eri', args)
        while self.cur['act']: self.pop()
    def role(self, o):
        if o.heap: return 'heap'
        r = self.cur['roles'].get(o.id)
        if r is None: r = self.cur.setdefault('alloc', {}).get(o.id, '?')
        return r
    def pop(self):
        l, c = self.cur['act'].pop()
        l.trips.append((self.cur['si'], [(x.header, y) for x, y in self.cur['act']], c))
    def exit_hook(self, b):
        i = self.kf.order.index(b)
        def h(ex, f, cf, R, prev):
            act = self.cur['act']
            while act and i not in act[-1][0].body: self.pop()
        return h
    def hook_for(self, l):
        def h(ex, f, cf, R, prev):
            cu = self.cur; al = cu.setdefault('alloc', {})
            for k, o in enumerate(R[0]): al.setdefault(o.id, ('a', k))
            act = cu['act']
            while act and l.idx not in act[-1][0].body: self.pop()
            if act and act[-1][0] is l and prev in l.body: act[-1][1] += 1
            else: act.append([l, 0])
            v = []
            for p in l.phis:
                x = R[cf.reg[p]]
                if type(x) is int: v.append(x)
                elif isinstance(x, Ptr) and x.obj is not None: v.append((self.role(x.obj), x.off))
                else: v.append(None)
            self.samples.setdefault(l.header, []).append((cu['si'], [(a.header, c) for a, c in act], v))
            live = [o for o in ex.heap if not o.freed]
            if live: self.heaps.setdefault(l.header, []).append((live[0].size if len(live) == 1 else None, v))
        return h

    # -------------------------------------------------------- classification of loops
    def classify(self):
        L = self.L
        for l in sorted(self.loops.values(), key=lambda l: -len(l.body)):
            if not l.trips: l.kind = 'const'; continue      # executed as it is if it is ever reached
            cnts = {c for _, _, c in l.trips}
            anc = []
            p = l.parent
            while p is not None:
                if p.kind != 'const': anc.append(p)
                p = p.parent
            anc.reverse()
            ak = [a.kind for a in anc]
            kind = None
            for k in ('AB', 'CD', 'SLOT', 'BPRIM', 'KVEC', 'PVEC'):
                if ak != NEED[k]: continue
                ok = True
                for si, act, c in l.trips:
                    d = dict(act); par = {a.kind: d[a.header] for a in anc}
                    if trip_of(k, par, self.shapes[si], L) != c: ok = False; break
                if ok and len(cnts) > 1: kind = k; break
            if kind is None and len(cnts) == 1: kind = 'const'
            if kind is None: raise Unsupported('loop %s: iterations not recognised' % l.header)
            if kind != 'const' and not l.exit_ok: raise Unsupported('loop %s leaves from its body' % l.header)
            l.kind = kind
        for k in ('AB', 'CD', 'BPRIM', 'KVEC', 'PVEC'):
            n = sum(1 for l in self.loops.values() if l.kind == k)
            if n > 1 or n < 1 and k != 'PVEC': raise Unsupported('%d loops of kind %s' % (n, k))

    # -------------------------------------------------------- fitting of invariants
    def fit(self):
        for l in self.loops.values():
            if l.kind == 'const': continue
            anc = [l]; p = l.parent
            while p is not None:
                if p.kind != 'const': anc.append(p)
                p = p.parent
            anc.reverse()
            kinds = [a.kind for a in anc]; hs = [a.header for a in anc]
            cont = []; done = []; gcache = {}
            for si, act, vals in self.samples.get(l.header, ()):
                d = dict(act); counts = [d[h] for h in hs]
                key = (si, tuple(counts)); g = gcache.get(key)
                if g is None: g = gcache[key] = ghosts(kinds, counts, self.shapes[si], self.L)
                par = {k: c for k, c in zip(kinds, counts)}
                (cont if counts[-1] < trip_of(l.kind, par, self.shapes[si], self.L) else done).append((g, vals))
            for i, phi in enumerate(l.phis):
                l.forms[phi] = fit_phi([(g, v[i]) for g, v in cont], self.key_order(l.kind))
                f2 = l.forms[phi]
                ds = [(g, v[i]) for g, v in done]
                if f2 is not None and all(holds(f2, g, v) for g, v in ds): l.xforms[phi] = f2
                else: l.xforms[phi] = fit_phi(ds, self.key_order(l.kind))
        # integers without a closed form keep a lower bound; a heap object keeps its size in terms of one of them
        self.free = {}; self.hsize = {}
        for h, sm in self.heaps.items():
            l = self.loops[h]
            if l.kind not in ('AB', 'CD') or 'heap' not in l.wset: continue
            if any(sz is None for sz, _ in sm): raise Unsupported('several heap objects')
            for i, phi in enumerate(l.phis):
                if l.forms.get(phi) is not None or not all(type(v[i]) is int for _, v in sm): continue
                lo = min(v[i] for _, v in sm)
                s = solve([[v[i], 1] for _, v in sm], [sz for sz, _ in sm])
                if s is not None and all(x.denominator == 1 for x in s):
                    self.free[(h, phi)] = lo; self.hsize[h] = (phi, int(s[0]), int(s[1])); break
                if s is None and len({v[i] for _, v in sm}) == 1: continue
    ORD = {'AB': ['ab', 'R', 'BP'], 'CD': ['cd', 'Rcd', 'bq', 'R', 'RcQ'], 'SLOT': ['s', 'cds', 'Rcds', 'bqCs', 'Cs'], 'BPRIM': ['t', 'BPt'],
           'KVEC': ['Lv', 'bqLv', 'o', 'Rcdo', 'cdo', 'Co', 'Co1', 'v'], 'PVEC': ['v', 'Lv', 'bqLv', 'o', 'Rcdo', 'cdo', 'Co', 'Co1']}
    def key_order(self, kind):
        o = list(self.ORD[kind])
        for k in {'AB': [], 'CD': ['AB'], 'SLOT': ['CD', 'AB'], 'BPRIM': ['CD', 'AB'], 'KVEC': ['BPRIM', 'CD', 'AB'], 'PVEC': ['CD', 'AB']}[kind]: o += self.ORD[k]
        if kind in ('SLOT', 'BPRIM', 'KVEC', 'PVEC'): o += ['nsb', 'E', 'bqE', 'C1', 'Rcdn', 'cdn']
        if kind != 'AB': o += ['na']
        return o + ['cP', 'cQ', 'N']
def holds(form, g, v):
    role, cs, c = form
    if isinstance(v, tuple):
        if v[0] != role: return False
        v = v[1]
    elif role is not None: return False
    s = c
    for n, k in cs:
        x = g.get(n)
        if x is None: return False
        s += k * x
    return s == v

def solve(rows, rhs):
    """rational solution of a small linear system, or None"""
    n = len(rows[0]); M = [[Fraction(x) for x in r] + [Fraction(y)] for r, y in zip(rows, rhs)]
    r = 0; piv = []
    for c in range(n):
        p = next((i for i in range(r, len(M)) if M[i][c]), None)
        if p is None: return None
        M[r], M[p] = M[p], M[r]
        iv = M[r][c]; M[r] = [x / iv for x in M[r]]
        for i in range(len(M)):
            if i != r and M[i][c]:
                f = M[i][c]; M[i] = [x - f * y for x, y in zip(M[i], M[r])]
        piv.append(c); r += 1
    if any(m[-1] for m in M[r:]): return None
    return [M[i][-1] for i in range(n)]

def fit_phi(samples, order):
    """smallest integer combination of ghosts that explains all samples: (role, ((ghost, coefficient),...), constant)"""
    if not samples: return None
    vals = [v for _, v in samples]
    if all(isinstance(v, tuple) and v[0] == vals[0][0] for v in vals): role = vals[0][0]; ys = [v[1] for v in vals]
    elif all(type(v) is int for v in vals): role = None; ys = vals
    else: return None
    if all(y == ys[0] for y in ys): 
        return (role, (), ys[0])
    av = [n for n in order if all(g.get(n) is not None for g, _ in samples)]
    cols = {}
    for n in av:
        c = [g[n] for g, _ in samples]
        if any(x != c[0] for x in c): cols[n] = c
    av = [n for n in av if n in cols]
    # representative samples
    step = max(1, len(ys) // 12); idx = list(range(0, len(ys), step))[:14]
    for c in cols.values():
        i = next(i for i, x in enumerate(c) if x != c[0])
        j = next(j for j in range(len(c) - 1, -1, -1) if c[j] != c[i])
        idx += [i, j]
    idx = sorted(set(idx))
    for k in (1, 2, 3):
        for sup in itertools.combinations(av, k):
            s = solve([[cols[n][i] for n in sup] + [1] for i in idx], [ys[i] for i in idx])
            if s is None or any(x.denominator != 1 for x in s): continue
            s = [int(x) for x in s]
            if all(sum(a * cols[n][i] for a, n in zip(s, sup)) + s[-1] == ys[i] for i in range(len(ys))):
                return (role, tuple((n, a) for n, a in zip(sup, s) if a), s[-1])
    return None

# ------------------------------------------------------------------ symbolic integers under facts
_memo = {}; _fkeys = {}
class Z:
    """linear integer arithmetic under the facts of the current path (decided by z3)"""
    def __init__(self, k):
        self.k = k; self.zv = {}; self.solver_s = 0.0; self.queries = 0; self.hits = 0
        self.reset()
    def reset(self):
        self.facts = []; self.fk = []; self.subst = {}; self.range = {}; self.quot = {}; self.C = {}; self.s = None; self.fkey = 0
        self.lim = set()
    def var(self, n):
        v = self.zv.get(n)
        if v is None: v = self.zv[n] = z3.Int(n)
        return v
    def sym(self, n): return SInt(((n, 1),), 0)
    def norm(self, x):
        if not isinstance(x, SInt) or not self.subst: return x
        for _ in range(4):
            hit = [(n, c) for n, c in x.t if n in self.subst]
            if not hit: return x
            r = mkint(tuple((n, c) for n, c in x.t if n not in self.subst), x.c)
            for n, c in hit:
                y = self.subst[n] * c
                r = y + r if isinstance(y, SInt) else (r + y)
            x = r
            if not isinstance(x, SInt): return x
        return x
    def z(self, x):
        x = self.norm(x)
        if isinstance(x, int): return z3.IntVal(x)
        return z3.Sum([self.var(n) * c for n, c in x.t] + [z3.IntVal(x.c)])
    def fact(self, e, key):
        if key in self.lim: return
        self.lim.add(key)
        self.facts.append(e); self.fkey = _fkeys.setdefault((self.fkey, key), len(_fkeys) + 1)
        self.range = {}
        if self.s is not None: self.s.add(e)
    def ge(self, a, b=0):
        d = self.norm(a - b)
        if isinstance(d, int):
            if d < 0: raise Infeasible()
            return
        self.fact(self.z(d) >= 0, ('ge', d.key()))
    def eq(self, a, b):
        d = self.norm(a - b)
        if isinstance(d, int):
            if d: raise Infeasible()
            return
        self.fact(self.z(d) == 0, ('eq', d.key()))
    def check(self, e, key):
        """is the conjunction of the facts and e satisfiable?  (True / False)"""
        k = (self.fkey, key); r = _memo.get(k)
        if r is not None: self.hits += 1; return r
        import time
        t = time.time(); self.queries += 1
        if self.s is None:
            self.s = z3.Solver(); self.s.set('timeout', 20000)
            self.s.add(*self.facts)
        self.s.push(); self.s.add(e)
        c = self.s.check()
        self.s.pop()
        self.solver_s += time.time() - t
        if c == z3.unknown: raise Unsupported('the integer solver gave up')
        r = _memo[k] = c == z3.sat
        return r
    def model(self, e):
        s = z3.Optimize(); s.set('timeout', 10000); s.add(*self.facts); s.add(e)
        for n in self.zv:
            if n in ('cP', 'cQ', 'E', 'na', 'b', 'ab', 'v', 'nsb') or n.startswith('C['): s.add_soft(self.zv[n] <= 6); s.add_soft(self.zv[n] <= 40)
        if s.check() != z3.sat: return None
        m = s.model()
        return {str(d): m[d].as_long() for d in m.decls() if z3.is_int_value(m[d])}
    CMP = {'eq': lambda d: d == 0, 'ne': lambda d: d != 0, 'slt': lambda d: d < 0, 'sle': lambda d: d <= 0, 'sgt': lambda d: d > 0, 'sge': lambda d: d >= 0}
    NG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}
    def holds(self, op, a, b):
        d = self.norm(a - b)
        if isinstance(d, int): return self.CMP[op](d)
        n = self.NG[op]
        return not self.check(self.CMP[n](self.z(d)), (n, d.key()))
    def prove(self, op, a, b, kind, msg, where=''):
        self.k.nobl[kind] = self.k.nobl.get(kind, 0) + 1
        if self.holds(op, a, b): return
        d = self.norm(a - b)
        e = z3.BoolVal(True) if isinstance(d, int) else self.CMP[self.NG[op]](self.z(d))
        raise UFail(kind, '%s (%s %s %s)' % (msg, a, op, b), where, self.model(e))
    def assume(self, op, a, b):
        d = self.norm(a - b)
        if isinstance(d, int):
            if not self.CMP[op](d): raise Infeasible()
            return
        self.fact(self.CMP[op](self.z(d)), (op, d.key()))
        if op == 'eq':
            # keep one normal form: a symbol with coefficient +-1 (largest name first)
            for n, c in sorted(d.t, reverse=True):
                if c in (1, -1) and (n.startswith('C[') or n.startswith('q[')):
                    r = mkint(tuple((x, -y * c) for x, y in d.t if x != n), -d.c * c)
                    self.subst[n] = r; break
    # -------- executor interface
    def decide(self, ex, b):
        op, a, c = b.op, b.a, b.b
        if self.holds(op, a, c): return True
        if self.holds(self.NG[op], a, c): return False
        if ex.choose(2, 'int') == 0: self.assume(op, a, c); return True
        self.assume(self.NG[op], a, c); return False
    def compare(self, ex, c, n, a, b):
        if c[0] == 'u':
            for x in (a, b):
                if isinstance(x, SInt): self.require_nonneg(ex, x)
                elif x < 0: raise Unsupported('unsigned comparison with a negative constant')
            c = 's' + c[1:]
        d = self.norm(a - b)
        if isinstance(d, int): return self.CMP[c](d)
        return SBool(c, d, 0)
    def select(self, ex, cv, x, y): return x if self.decide(ex, cv) else y
    def arith(self, ex, op, n, nsw, a, b):
        a = self.norm(a); b = self.norm(b)
        if op == 'add': r = a + b
        elif op == 'sub': r = a - b
        elif op == 'mul':
            if isinstance(a, int): a, b = b, a
            if isinstance(b, SInt):
                r = self.product(a, b)
            else: r = a * b
        elif op == 'shl' and isinstance(b, int): r = a * (1 << b)
        elif op in ('sdiv', 'udiv') and isinstance(b, int) and b > 0: self.nonneg(a, 'division'); return self.div(a, b)
        elif op in ('srem', 'urem') and isinstance(b, int) and b > 0: self.nonneg(a, 'remainder'); return self.norm(a - self.div(a, b) * b)
        elif op in ('ashr', 'lshr') and isinstance(b, int): self.nonneg(a, 'shift'); return self.div(a, 1 << b)
        elif op == 'and' and isinstance(b, int):
            if b < 0 and (-b) & (-b - 1) == 0: self.nonneg(a, 'mask'); return self.norm(self.div(a, -b) * -b)
            if b >= 0 and b & (b + 1) == 0: self.nonneg(a, 'mask'); return self.norm(a - self.div(a, b + 1) * (b + 1))
            raise Unsupported('bit mask %d' % b)
        else: raise Unsupported('%s of %r, %r' % (op, a, b))
        r = self.norm(r)
        if isinstance(r, SInt) and n < 64: self.require_range(ex, r, n)
        return r
    def nonneg(self, a, what):
        if isinstance(a, int): return
        if not self.holds('sge', a, 0): raise Unsupported('%s of a possibly negative integer' % what)
    def product(self, a, b):
        ks = {repr(self.norm(a)), repr(self.norm(b))}
        for x, y, p in self.k.products:
            if {repr(self.norm(x)), repr(self.norm(y))} == ks: return p
        # constant factors
        if isinstance(a, SInt) and isinstance(b, SInt):
            ca = a.t[0][1] if len(a.t) == 1 and a.c == 0 else 1
            cb = b.t[0][1] if len(b.t) == 1 and b.c == 0 else 1
            if ca * cb != 1: return self.product(SInt(((a.t[0][0], 1),), 0) if ca != 1 else a, SInt(((b.t[0][0], 1),), 0) if cb != 1 else b) * (ca * cb)
        raise Unsupported('product %r * %r' % (a, b))
    def div(self, a, m):
        """floor(a/m) for a >= 0"""
        if isinstance(a, int): return a // m
        if m == 1: return a
        lo = mkint(tuple((n, c // m) for n, c in a.t if c % m == 0), 0)
        rest = mkint(tuple((n, c) for n, c in a.t if c % m), a.c)
        if isinstance(rest, int): return lo + rest // m
        # a = m*lo + rest
        key = (rest.key(), m)
        q = self.quot.get(key)
        if q is None:
            q = self.quot[key] = self.sym('q[%r/%d]' % (rest, m))
            self.ge(rest - q * m); self.ge(q * m + (m - 1) - rest)
        return lo + q
    def require_nonneg(self, ex, v):
        self.prove('sge', v, 0, 'range', 'a negative value is reinterpreted', ex.where())
    def require_range(self, ex, v, n):
        key = ('rr', v.t, n)
        r = self.range.get(key)
        if r is not None and r[0] <= v.c <= r[1]: self.k.nobl['overflow'] = self.k.nobl.get('overflow', 0) + 1; return
        self.prove('sle', v, (1 << (n - 1)) - 1, 'overflow', 'signed overflow', ex.where())
        self.prove('sge', v, -(1 << (n - 1)), 'overflow', 'signed overflow', ex.where())
        self.range[key] = (min(v.c, r[0]), max(v.c, r[1])) if r else (v.c, v.c)
    def require(self, ex, sp, what, o):
        off, sz, size = sp
        off = self.norm(off)
        t, c = (off.t, off.c) if isinstance(off, SInt) else ((), off)
        key = ('b', t, o.id); r = self.range.get(key)
        self.k.nobl['bounds'] = self.k.nobl.get('bounds', 0) + 1
        if r is not None and r[0] <= c and c + sz <= r[1]: return
        if not self.holds('sge', off, 0): self.prove('sge', off, 0, 'bounds', '%s before %s' % (what, o.name), ex.where())
        if not self.holds('sle', off + sz, size): self.prove('sle', off + sz, size, 'bounds', '%s beyond %s' % (what, o.name), ex.where())
        self.range[key] = (min(c, r[0]), max(c + sz, r[1])) if r else (c, c + sz)
    def require_div(self, ex, off, al, o):
        off = self.norm(off)
        self.k.nobl['alignment'] = self.k.nobl.get('alignment', 0) + 1
        if o.align % al: raise UFail('alignment', 'access of %s needs alignment %d' % (o.name, al), ex.where())
        rest = mkint(tuple((n, c) for n, c in off.t if c % al), off.c % al) if isinstance(off, SInt) else off % al
        if isinstance(rest, int):
            if rest: raise UFail('alignment', 'access of %s+%s needs alignment %d' % (o.name, off, al), ex.where(), self.model(z3.BoolVal(True)))
            return
        q = self.div(rest, al)
        self.prove('eq', rest, q * al, 'alignment', 'access of %s+%s needs alignment %d' % (o.name, off, al), ex.where())
    def tofp(self, ex, v): raise Unsupported('conversion of a symbolic integer to a real')
    # -------- memory at symbolic offsets
    def load_sym(self, ex, o, off, t, sz): return self.k.load_sym(ex, o, off, t, sz)
    def store_sym(self, ex, o, off, t, v, sz, nl): return self.k.store_sym(ex, o, off, t, v, sz, nl)
    def memset_sym(self, ex, p, byte, n):
        n = self.norm(n); k = self.k
        if byte != 0 or p.obj is not k.out or p.off != 0 or k.act: raise Unsupported('memset of symbolic size')
        self.require(ex, (0, n, p.obj.size), 'memset', p.obj)
        if self.norm(n - p.obj.size) != 0: raise Unsupported('partial clearing of the output')
        k.zeroed = True
    def memcpy_sym(self, ex, d, s, n): raise Unsupported('memcpy of symbolic size or offset')

# ------------------------------------------------------------------ the inductive proof
class SExec(LibExec):
    def memset(self, p, byte, n):
        k = self.solver.k
        if isinstance(p, Ptr) and p.obj is not None:
            k.written(p.obj)
            if not isinstance(n, SInt) and (p.obj is k.out or p.obj is k.work and (k.bdone or k.phase)): raise Unsupported('memset of results')
        return LibExec.memset(self, p, byte, n)
    def memcpy(self, d, s, n):
        k = self.solver.k
        if isinstance(d, Ptr) and d.obj is not None:
            k.written(d.obj)
            if not isinstance(k, Wrapper) and (d.obj is k.out or d.obj is k.work and (k.bdone or k.phase)): raise Unsupported('memcpy of results')
            if d.obj is k.out and isinstance(d.off, int): raise Unsupported('write of the output at a constant offset')
        return LibExec.memcpy(self, d, s, n)

class Active:
    __slots__ = ('l', 'mode', 'g')
    def __init__(self, l, mode, g): self.l = l; self.mode = mode; self.g = g

def _prove(self, maxpaths=4000, tmax=600, tol=False):
    """explores all paths between loop cuts; raises UFail / Unsupported, returns normally when everything is proved"""
    import time
    self.tolsym = tol; self.rsolver_s = 0.0; self.norows = set()
    self.nobl = {}; self.fmap = {}; self.fstride = {}; self.outloops = set(); self.live = set(); self.returned = 0; self.npaths = 0
    self.table = {}; self.tabused = {}; self.rowst = None
    T.reset(); T.EPOCH[0] += 1
    L = self.L
    z = self.z = Z(self)
    self.S = z.sym
    _memo.clear(); _fkeys.clear()
    lay = self.lay; am = self.am
    hasder = 'alpha2' in lay['simint_multi_shellpair'][0]
    mk = lambda tag, n, a, b: eri.Pair(tag, n, len(n), a, b, lay, der=hasder, screen=tol)
    self.ctxK = {}
    for m in range(L, 0, -1):
        # (the vector of the case "m valid lanes" sits at its own position, so that its terms are apart)
        c = eri.Ctx(mk('P', [1], am[0], am[1]), mk('Q', [L * L], am[2], am[3]), lay); c.vends = {L * (L - m): m}; self.ctxK[m] = c
    self.ctxS = eri.Ctx(mk('P', [1], am[0], am[1]), mk('Q', [1], am[2], am[3]), lay)
    ex = SExec(self.variant, {}, limit=10**12); self.ex = ex
    ex.load_rel('simint/simint_init.c'); ex.load_rel('simint/simint_eri.c')
    ex.solver = z
    ex.contracts['@boys_F_split'] = self.boys
    self.tau = T.ZERO
    if tol:
        from . import screen
        ex.sel_hook = screen.pick_max; tau = self.tau = T.var('tau')
        def force(e, fb):
            for a, b, sg in ((fb.a, fb.b, 1), (fb.b, fb.a, -1)):
                if a is tau and b is T.ZERO: return {'ogt': sg > 0, 'oge': sg > 0, 'olt': sg < 0, 'ole': sg < 0, 'oeq': False, 'une': True}[fb.op]
            return None
        ex.force_real = force
    ex.store_hook = self.store_hook
    name = self.kf.name
    f = ex.resolve(name)
    ls = {l.header: l for l in self.loops.values() if l.kind != 'const'}
    ex.hooks = {(name, b): self.sexit(f, b) for l in ls.values() for b in l.exits}
    ex.hooks.update({(name, h): self.shook(l) for h, l in ls.items()})
    t0 = time.time()
    ex.oracle = []
    while True:
        self.npaths += 1
        if self.npaths > maxpaths or time.time() - t0 > tmax: raise Unsupported('too many paths')
        self.path(ex, f)
        while ex.oracle and ex.oracle[-1][0] + 1 >= ex.oracle[-1][1]: ex.oracle.pop()
        if not ex.oracle: break
        ex.oracle[-1][0] += 1
    for l in ls.values():
        for m in 'AB':
            if (l.header, m) not in self.live: raise Unsupported('loop %s never reached in mode %s' % (l.header, m))
        if (l.header, 'again') not in self.live: raise Unsupported('no iteration of loop %s ends' % l.header)
    if not self.returned: raise Unsupported('no path returns')
    if self.norows & self.outloops: raise UFail('output', 'the row of a quartet is written on some paths only')
    if not self.fmap: raise Unsupported('nothing is accumulated on any path')
    self.obl = {}
    for c in list(self.ctxK.values()) + [self.ctxS]:
        for kk, v in c.proved.items(): self.obl[kk] = self.obl.get(kk, 0) + v

def _path(self, ex, f):
    z = self.z; z.reset(); S = self.S; L = self.L; am = self.am; lay = self.lay
    ex.opos = 0; ex.pc = []; ex.fdec = {}; ex.heap = []; ex.stack = []
    self.act = []; self.aroles = {}; self.g = {}; self.products = []; self.zeroed = False; self.ov = {}; self.phase = None
    self.built = False; self.slots = None; self.kdone = self.cddone = self.abdone = False
    self.zeros = None; self.bdone = False; self.odone = False; self.ctx = None
    cP, cQ, N, mP, mQ = S('cP'), S('cQ'), S('N'), S('mP'), S('mQv') * L if L > 1 else S('mQ')
    self.products.append((cP, cQ, N))
    g = self.g; g.update(cP=cP, cQ=cQ, N=N)
    BIG = 1 << 28
    for x in (cP, cQ, N, mP, mQ): z.ge(x, 0); z.ge(BIG, x)
    z.ge((1 << 31) - 1, N * (self.nc * self.ncomp))
    nP, nQ = S('nP'), S('nQ')
    z.ge(nP, cP); z.ge(nQ, cQ); z.ge(BIG, nP); z.ge(BIG, nQ)
    self.mem = {}
    P = self.pair('P', cP, nP, mP, am[0], am[1]); Q = self.pair('Q', cQ, nQ, mQ, am[2], am[3])
    self.work = Obj('work', 8 * self.worksize, 64); self.out = Obj('integrals', N * self.stride, 64)
    self.roles = {'work': self.work, 'out': self.out}
    try:
        r = ex.run(f, [P, Q, self.tau, Ptr(self.work, 0), Ptr(self.out, 0)])
    except StopPath: return
    except Infeasible: return
    except (AttributeError, TypeError, KeyError, IndexError) as e:
        raise Unsupported('%s: %s' % (type(e).__name__, e))
    while self.act: self.spop()
    z.prove('eq', r, N, 'return', 'the number of shell quartets is not returned')
    if not self.abdone: raise UFail('output', 'returns without visiting the bra shell pairs')
    self.returned += 1
    for o in ex.heap:
        if not o.freed: raise UFail('leak', 'heap object %s is not freed' % o.name)

def _pair(self, tag, clip, nsh, m, am1, am2):
    lay, ssz = self.lay['simint_multi_shellpair']
    o = Obj(tag, ssz, 8, ro=True)
    def put(f, sz, v):
        if f in lay: o.cells[lay[f]] = (sz, v, 1)
    put('am1', 4, UNK); put('am2', 4, UNK); put('nprim', 4, self.S('nprim' + tag)); put('nshell12', 4, nsh); put('nshell12_clip', 4, clip)
    def arr(f, n, es, rd):
        a = Obj(tag + '.' + f, n * es, 8 if f.startswith('AB_') else 64, ro=True); a.reader = rd; put(f, 8, Ptr(a, 0))
    arr('nprim12', nsh, 4, self.rd_n(tag))
    for d in range(3): arr('AB_' + 'xyz'[d], nsh, 8, self.rd_ab(tag, d))
    for f in ['x', 'y', 'z', 'PA_x', 'PA_y', 'PA_z', 'PB_x', 'PB_y', 'PB_z', 'alpha', 'prefac', 'alpha2', 'beta2', 'screen']:
        if f in lay: arr(f, m, 8, self.rd_prim(tag, f))
    put('screen_max', 8, T.var((tag, 'screen_max'))); put('memsize', 8, 0); put('ptr', 8, NULL)
    return Ptr(o, 0)

def exdiv(x, m):
    """x/m when every coefficient is divisible, else None"""
    if isinstance(x, int): return x // m if x % m == 0 else None
    if x.c % m or any(c % m for _, c in x.t): return None
    return mkint(tuple((n, c // m) for n, c in x.t), x.c // m)

def _rd_n(self, tag):
    def rd(ex, off, t, sz):
        z = self.z; g = self.g
        if t != ('i', 32): return None
        i = exdiv(z.norm(off), 4)
        if i is None: raise Unsupported('read inside an element of nprim12')
        if tag == 'P':
            if 'ab' in g and z.norm(i - g['ab']) == 0: return g['na']
            raise Unsupported('nprim12 of another bra shell pair')
        if 'cd' not in g: raise Unsupported('nprim12 of the ket outside its loop')
        e = z.norm(i - g['cd'])
        return z.norm(self.C(e + 1) - self.C(e))
    return rd

def _C(self, e):
    """ghost: number of primitives of the first e shell pairs of the batch"""
    z = self.z; e = z.norm(e)
    if e == 0: return 0
    nsb = z.norm(self.g['nsb'])
    if z.norm(e - nsb) == 0: return z.norm(self.g['E'])
    k = repr(e); r = z.C.get(k)
    if r is None:
        s = self.S('C[%s]' % k)
        old = [(0, 0), (nsb, self.g['E'])] + [(x, y) for x, y in z.C.values()]
        z.C[k] = (e, s); r = (e, s)
        for x, y in old:
            d = z.norm(x - e)
            zx, ze, zy, zs = z.z(x), z.z(e), z.z(y), z.z(s)
            if isinstance(d, int):
                if d >= 0: z.fact(zy - zs >= d, ('C', k, repr(x)))
                else: z.fact(zs - zy >= -d, ('C', k, repr(x)))
            else:
                z.fact(z3.And(z3.Implies(zx >= ze, zy - zs >= zx - ze), z3.Implies(ze >= zx, zs - zy >= ze - zx)), ('C', k, repr(x)))
    return z.norm(r[1])

def _rd_ab(self, tag, d):
    def rd(ex, off, t, sz):
        if t[0] != 'double': return None
        z = self.z; g = self.g
        i = exdiv(z.norm(off), 8)
        want = g.get('ab') if tag == 'P' else (g['cd'] + g['s'] if 's' in g and 'cd' in g else None)
        if (tag == 'P' or self.phase == 'S') and i is not None and want is not None and z.norm(i - want) == 0:
            return (self.ctxS.P if tag == 'P' else self.ctxS.Q).AB(0, d)
        return T.var((tag, 'AB?', d, repr(i)))
    return rd

def _rd_prim(self, tag, f):
    def rd(ex, off, t, sz):
        z = self.z; g = self.g
        if t[0] != 'double' and not (t[0] == 'vec' and t[1] == self.L): return None
        base = None
        if tag == 'P' and 't' in g: base = g['BP'] + g['t']
        if tag == 'Q' and 'Lv' in g: base = g['bq'] + g['Lv']
        if base is not None and self.phase == 'K':
            k = exdiv(z.norm(off - base * 8), 8)
            if isinstance(k, int):
                pr = self.ctx.P if tag == 'P' else self.ctx.Q
                if tag == 'P' and k == 0 and t[0] == 'double': return pr.atom(f, 0)
                if tag == 'Q' and 0 <= k < self.L:
                    J = self.L * (self.L - self.m)
                    if t[0] == 'double': return pr.atom(f, J + k)
                    if k == 0: return pr.vatom(f, J)
        elif base is not None and tag == 'P' and self.phase is None:
            k = exdiv(z.norm(off - base * 8), 8)
            if k == 0 and t[0] == 'double': return self.ctxK[self.L].P.atom(f, 0)
        if t[0] == 'double': return T.var((tag, f + '?', repr(z.norm(off))))
        return None
    return rd

# -------------------------------------------------------- cuts
def _spop(self):
    a = self.act.pop()
    if a.mode == 'A':
        raise UFail('loop', 'loop %s ends before its last iteration' % a.l.header, '', self.z.model(z3.BoolVal(True)))
    if a.l.kind == 'SLOT':
        if a.l.header in self.outloops: self.odone = True
    elif a.l.kind == 'BPRIM': self.bdone = True
    elif a.l.kind == 'KVEC': self.kdone = True
    elif a.l.kind == 'AB': self.abdone = True
    elif a.l.kind == 'CD': self.cddone = True; self.unset('cd', 'Rcd', 'bq', 'nsb', 'E', 'b')
    if a.l.kind == 'SLOT': self.unset('s')
    if a.l.kind == 'KVEC': self.unset('Lv', 'v', 'o')
    if a.l.kind == 'PVEC': self.phase = None; self.built = True
    if a.l.kind == 'BPRIM': self.unset('t')
def _unset(self, *ns):
    # values keep their meaning; the names are only used to recognise accesses
    pass

def _sexit(self, f, b):
    i = f.order.index(b)
    def h(ex, f, cf, R, prev):
        while self.act and i not in self.act[-1].l.body: self.spop()
    return h

def _env(self, kind, g, count0=False, cont=True):
    """ghost values at a header of the given kind"""
    z = self.z; e = dict(cP=g['cP'], cQ=g['cQ'], N=g['N'])
    for n in ('ab', 'R', 'BP', 'na', 'cd', 'bq', 'nsb', 'E', 's', 't', 'Lv', 'o'):
        if n in g: e[n] = g[n]
    if 'R' in g: e['RcQ'] = g['R'] + g['cQ']
    if 'cd' in g: e['Rcd'] = g['R'] + g['cd']
    if 'nsb' in g:
        e['bqE'] = g['bq'] + g['E']; e['C1'] = self.C(1); e['Rcdn'] = e['Rcd'] + g['nsb']; e['cdn'] = g['cd'] + g['nsb']
        if kind == 'SLOT': e['Cs'] = self.C(g['s']); e['bqCs'] = g['bq'] + e['Cs']; e['cds'] = g['cd'] + g['s']; e['Rcds'] = e['Rcd'] + g['s']
    if 't' in g and kind in ('BPRIM', 'KVEC'): e['BPt'] = g['BP'] + g['t']
    if kind in ('KVEC', 'PVEC'):
        e['v'] = g['Lv'] if self.L == 1 else z.div(z.norm(g['Lv']), self.L) if isinstance(g['Lv'], int) or g['Lv'].c % self.L == 0 else None
        e['bqLv'] = g['bq'] + g['Lv']
        if 'o' in g: e['Co'] = self.C(g['o']); e['Co1'] = self.C(g['o'] + 1); e['Rcdo'] = e['Rcd'] + g['o']; e['cdo'] = g['cd'] + g['o']
    return e

def _evalf(self, form, env):
    role, cs, c = form
    s = c
    for n, k in cs:
        if n not in env: return None
        s = env[n] * k + s
    return role, self.z.norm(s)

def _proveforms(self, l, forms, env, R, cf, what, op_extra=None):
    z = self.z
    for p, form in forms.items():
        if form is None: continue
        r = self.evalf(form, env)
        if r is None: raise Unsupported('invariant of %s uses an undefined ghost' % p)
        role, want = r; v = R[cf.reg[p]]
        if role is not None:
            if not isinstance(v, Ptr) or v.obj is None or self.obj(role, R) is not v.obj: raise UFail('invariant', '%s of loop %s (%s) points elsewhere' % (p, l.header, what))
            v = v.off
        if not isinstance(v, (int, SInt)): raise UFail('invariant', '%s of loop %s (%s) is %r' % (p, l.header, what, v))
        if op_extra is not None:
            # under an additional hypothesis
            d = z.norm(v - want); self.nobl['invariant'] = self.nobl.get('invariant', 0) + 1
            if isinstance(d, int):
                if d == 0: continue
                bad = op_extra
            else: bad = z3.And(op_extra, z.z(d) != 0)
            if z.check(bad, ('impl', what, l.header, repr(d))): raise UFail('invariant', '%s of loop %s (%s)' % (p, l.header, what), '', z.model(bad))
        else: z.prove('eq', v, want, 'invariant', '%s of loop %s (%s)' % (p, l.header, what))

def _obj(self, role, R):
    if role == 'heap':
        live = [o for o in self.ex.heap if not o.freed]
        if len(live) != 1: raise Unsupported('%d heap objects' % len(live))
        return live[0]
    if isinstance(role, str): return self.roles.get(role)
    return R[0][role[1]] if role[1] < len(R[0]) else None

def _shook(self, l):
    kind = l.kind
    def h(ex, f, cf, R, prev):
        for k, o in enumerate(R[0]): self.aroles[o.id] = ('a', k)
        while self.act and l.idx not in self.act[-1].l.body: self.spop()
        if self.act and self.act[-1].l is l and prev in l.body:
            if self.act[-1].mode == 'B': raise UFail('loop', 'loop %s makes more iterations than there are elements' % l.header, '', self.z.model(z3.BoolVal(True)))
            self.again(l, R, cf)
            raise StopPath()
        self.first(l, R, cf, ex)
    return h

def _first(self, l, R, cf, ex):
    z = self.z; g = self.g; S = self.S; L = self.L; NS = self.NS; k = l.kind
    want = NEED[k]; have = [a.l.kind for a in self.act]
    if have != want or any(a.mode != 'A' for a in self.act): raise Unsupported('loop %s is reached in an unexpected context' % l.header)
    # ---- establishment
    g0 = dict(g)
    if k == 'AB': g0.update(ab=0, R=0, BP=0); more = (z.z(g['cP']) > 0); none = (z.z(g['cP']) <= 0); g0n = dict(g0); g0n.pop('BP')
    elif k == 'CD':
        # the first batch: its ghosts are introduced by the invariant of an arbitrary batch
        g0.update(cd=0, bq=0, b=0); more = (z.z(g['cQ']) > 0); none = (z.z(g['cQ']) <= 0); g0n = dict(g0)
    elif k == 'SLOT': g0.update(s=0); more = z.z(g['nsb']) > 0; none = z3.Not(more); g0n = g0
    elif k == 'BPRIM': g0.update(t=0); more = z.z(g['na']) > 0; none = z3.Not(more); g0n = g0
    else: g0.update(Lv=0, o=0); more = z.z(g['E']) > 0; none = z3.Not(more); g0n = g0
    self.heapinv(l, R, cf, 'on entry')
    self.proveforms(l, l.forms, self.env(k, g0), R, cf, 'on entry', more)
    if k in ('AB', 'CD'): self.proveforms(l, l.xforms, self.env(k, g0n), R, cf, 'on entry, no iterations', none)
    elif z.check(none, ('none', l.header, repr(z.norm(g['nsb' if k == 'SLOT' else 'na' if k == 'BPRIM' else 'E'])))): raise Unsupported('loop %s may be empty' % l.header)
    if k == 'BPRIM':
        self.zeros = {off for off, c in self.work.cells.items() if c[1] is T.ZERO or (isinstance(c[1], int) and c[1] == 0)}
        self.zeros |= {off + 8 * j for off, c in self.work.cells.items() if c[2] > 1 and c[1] is T.ZERO for j in range(c[2])}
    # ---- arbitrary iteration (A) or exit (B)
    mode = 'AB'[ex.choose(2, l.header)]
    if k == 'AB':
        if mode == 'A':
            ab, Rr, BP, na = S('ab'), S('R'), S('BP'), S('na')
            for x in (ab, Rr, BP): z.ge(x, 0)
            z.ge(g['cP'], ab + 1); z.ge(g['N'], Rr + g['cQ']); z.ge(na, 1); z.ge(S('mP'), BP + na)
            z.ge(Rr, 0)
            g.update(ab=ab, R=Rr, BP=BP, na=na)
        else: g.update(ab=g['cP'], R=g['N'])
    elif k == 'CD':
        b = S('b'); cd = b * NS; z.ge(b, 0)
        if mode == 'A':
            bq = S('bqv') * L
            z.ge(S('bqv'), 0); g.update(b=b, cd=cd, bq=bq)
            self.batch = ex.choose(2, 'batch')
            if self.batch == 0: z.ge(g['cQ'], cd + NS); nsb = NS
            else:
                nsb = S('nsb'); z.ge(nsb, 1); z.ge(NS - 1, nsb)
                z.eq(S('cQ'), cd + nsb); z.subst['cQ'] = cd + nsb
            E = S('E'); g.update(nsb=nsb, E=E)
            z.ge(E, nsb); z.ge(S('mQv') * L if L > 1 else S('mQ'), bq + E)
            z.ge(S('nQ'), cd + nsb)
        else:
            z.ge(cd, g['cQ']); z.ge(g['cQ'] + (NS - 1), cd); g.update(cd=cd)
    elif k == 'SLOT':
        if mode == 'A': s = S('s'); z.ge(s, 0); z.ge(g['nsb'], s + 1); g['s'] = s; self.C(s)
        else: g['s'] = g['nsb']
    elif k == 'PVEC':
        v = S('v' if mode == 'A' else 'vx'); z.ge(v, 0); Lv = v * L; g['Lv'] = Lv; self.slots = None
        if mode == 'A':
            self.owner(Lv, v)
            c = ex.choose(2, 'last'); self.more = c == 0
            if c == 0: z.ge(g['E'], Lv + L + 1); self.m = L
            else:
                self.m = ex.choose(L, 'lanes') + 1 if L > 1 else 1
                z.eq(S('E'), Lv + self.m); z.subst['E'] = Lv + self.m
            self.phase = 'V'; self.ov = {}
        else: z.ge(Lv, g['E']); z.ge(g['E'] + (L - 1), Lv); g.pop('o', None)
    elif k == 'BPRIM':
        if mode == 'A': t = S('t'); z.ge(t, 0); z.ge(g['na'], t + 1); g['t'] = t
        else: g['t'] = g['na']
    else:
        v = S('v' if mode == 'A' else 'vy'); z.ge(v, 0); Lv = v * L; g['Lv'] = Lv
        if mode == 'A':
            c = ex.choose(L + 1, 'lanes') if L > 1 else ex.choose(2, 'lanes')
            if c == 0: z.ge(g['E'], Lv + L + 1); m = L; self.more = True
            else:
                m = L + 1 - c if L > 1 else 1
                z.eq(S('E'), Lv + m); z.subst['E'] = Lv + m; self.more = False
            self.m = m
            self.owner(Lv, v); self.slots = None
            self.ctx = self.ctxK[m]; ctx = self.ctx; T.lane_hook[0] = lambda n, kk: eri.lane_of(n, kk, ctx)
            self.phase = 'K'; self.ov = {}
        else:
            z.ge(Lv, g['E']); z.ge(g['E'] + (L - 1), Lv)
            g.pop('o', None)
    if k == 'SLOT' and mode == 'A':
        self.phase = 'S'; ctx = self.ctx = self.ctxS; T.lane_hook[0] = lambda n, kk: eri.lane_of(n, kk, ctx); self.ov = {}
    hv = self.heaphavoc(l, R, cf)
    env = self.env(k, g)
    forms = l.forms if mode == 'A' else l.xforms
    for p in l.phis:
        if hv is not None and p == hv[0]: R[cf.reg[p]] = hv[1]; continue
        form = forms.get(p)
        r = self.evalf(form, env) if form is not None else None
        if r is None: R[cf.reg[p]] = UNK; continue
        role, v = r
        R[cf.reg[p]] = v if role is None else Ptr(self.obj(role, R), v)
    for role in l.wset:
        if role == '?': continue
        o = self.obj(role, R)
        if o is None or o is self.out: continue
        o.cells.clear(); o.fill = UNK
    self.act.append(Active(l, mode, None))
    if not z.check(z3.BoolVal(True), ('feasible',)): raise Infeasible()
    self.live.add((l.header, mode))

def _owner(self, Lv, v):
    """ghost o: the shell pair (within the batch) of the primitive before the vector"""
    z = self.z; g = self.g
    o = self.S('o'); z.ge(o, 0); z.ge(g['nsb'], o + 1); g['o'] = o
    Co, Co1 = self.C(o), self.C(o + 1)
    zo, zL = z.z(o), z.z(Lv)
    z.fact(z3.And(z.z(Co1) >= zL, z3.Implies(z.z(v) > 0, z.z(Co) < zL), z3.Implies(z.z(v) == 0, zo == 0), z.z(Co) <= zL), ('owner',))

def _owners(self):
    """shell pairs of the valid lanes (relative to o), decided from the ghost counts"""
    if self.slots is not None: return self.slots
    z = self.z; g = self.g; Lv, o = g['Lv'], g['o']; slots = []; a = 0
    for k in range(self.m):
        e = Lv + k
        while True:
            # C(o+a) <= e is known; is e < C(o+a+1)?
            if z.norm(o + a + 1 - g['nsb']) == 0: break
            if self.decide2('eq', o + a + 1, g['nsb']): break
            if self.decide2('slt', e, self.C(o + a + 1)): break
            a += 1
            if a > self.L + 1: raise Unsupported('owner')
        slots.append(a)
    self.slots = slots
    return slots

def _heapinv(self, l, R, cf, what):
    hs = self.hsize.get(l.header)
    if hs is None:
        if 'heap' in l.wset and l.kind in ('AB', 'CD'): raise Unsupported('heap object without a size invariant')
        return
    z = self.z; phi, a, c = hs; o = self.obj('heap', R); v = R[cf.reg[phi]]
    z.prove('sge', v, self.free[(l.header, phi)], 'invariant', 'lower bound of %s (%s)' % (phi, what))
    z.prove('sle', v, 1 << 29, 'invariant', 'upper bound of %s (%s)' % (phi, what))
    z.prove('eq', o.size, v * a + c, 'invariant', 'size of the heap object of loop %s (%s)' % (l.header, what))

def _heaphavoc(self, l, R, cf):
    hs = self.hsize.get(l.header)
    if hs is None: return
    z = self.z; phi, a, c = hs; old = self.obj('heap', R); s = self.S('free:%s' % phi)
    z.ge(s, self.free[(l.header, phi)]); z.ge(1 << 29, s)
    o = Obj('heap', s * a + c, old.align); o.heap = True; o.fill = UNK
    self.ex.heap[:] = [x for x in self.ex.heap if x is not old] + [o]
    return phi, s

def _pvec_done(self, n):
    """the row of offsets written for one vector, as a function of the shell pairs of its lanes"""
    z = self.z; g = self.g; sl = tuple(self.owners()); row = {}
    for (oname, t), cells in self.ov.items():
        st = dict(t).get('v', 0)
        if oname != 'heap' or st <= 0 or z.norm(SInt(t, 0) - self.S('v') * st) != 0: raise Unsupported('offset table')
        if self.rowst not in (None, st): raise Unsupported('offset table')
        self.rowst = st
        for c, v in cells.items():
            if not 0 <= c < st: raise UFail('frame', 'an entry of another vector is written', '', z.model(z3.BoolVal(True)))
            if not isinstance(v, int): raise Unsupported('offset table')
            row[c] = v
    key = (self.m, self.more, sl, self.batch)
    old = self.table.get(key)
    if old is not None:
        if any(old[c] != v for c, v in row.items() if c in old): raise Unsupported('the offsets of a vector are not a function of its lanes')
        row = {c: v for c, v in row.items() if c in old}       # (entries that are set in every case)
        if any(c not in row for c in self.tabused.get(key, ())): raise Unsupported('offset table')
    self.table[key] = row
    self.nobl['offsets'] = self.nobl.get('offsets', 0) + len(row)
    n['Lv'] = g['Lv'] + self.L
    if self.more: n['o'] = g['o'] + sl[-1]
    else: n.pop('o', None)

def _screened(self, lanes):
    """the primitive combinations left out here are below the tolerance: all those of this bra primitive, or the given lanes of this vector"""
    z = self.z; what = 'a bra primitive is skipped' if lanes is None else 'a vector of ket primitives is skipped'
    if not self.tolsym: raise UFail('sum', what, '', z.model(z3.BoolVal(True)))
    import time
    from . import screen
    t = time.time(); Z3 = screen.Z(); S = z3.Solver(); S.set('timeout', 20000)
    for x in self.ex.pc: S.add(Z3.cmp(*x[1:]))
    pr = (self.ctx if lanes is not None else self.ctxK[self.L])
    a = pr.P.atom('screen', 0); Qm = T.var(('Q', 'screen_max')); Pm = T.var(('P', 'screen_max'))
    J = self.L * (self.L - self.m) if lanes is not None else 0
    bs = [T.var(('Q', 'screen', 'any'))] if lanes is None else [pr.Q.atom('screen', J + k) for k in lanes]
    aQ, PQ = Z3.term(T.mul(a, Qm)), Z3.term(T.mul(Pm, Qm)); tau = Z3.term(self.tau); S.add(tau > 0, aQ <= PQ, aQ >= 0); neg = []
    for b in bs:
        ab, Pb = Z3.term(T.mul(a, b)), Z3.term(T.mul(Pm, b))
        S.add(ab >= 0, ab <= aQ, ab <= Pb, Pb <= PQ); neg.append(ab >= tau)
        self.nobl['screened'] = self.nobl.get('screened', 0) + 1
    S.add(z3.Or(neg)); r = S.check(); self.rsolver_s += time.time() - t
    if r == z3.unknown: raise Unsupported('the real solver gave up')
    if r == z3.sat: raise UFail('screening', what + ' although its estimate may reach the tolerance', '', z.model(z3.BoolVal(True)))

def _again(self, l, R, cf):
    """the end of an arbitrary iteration: the invariants hold again"""
    z = self.z; g = self.g; L = self.L; NS = self.NS; k = l.kind
    n = dict(g)
    if k == 'KVEC': self.kvec_done(n); cont = self.more
    if k == 'PVEC': self.pvec_done(n); cont = self.more
    if k == 'SLOT': self.slot_done(l)
    if k == 'CD' and not (self.bdone and (self.odone or self.accout)): raise UFail('output', 'a batch of shell quartets is left without all its integrals', '', z.model(z3.BoolVal(True)))
    if k == 'AB':
        if not self.cddone: raise UFail('output', 'a bra shell pair is left without its integrals', '', z.model(z3.BoolVal(True)))
        n['ab'] = g['ab'] + 1; n['R'] = g['R'] + g['cQ']
        ex = self.ex
        end = g['BP'] + g['na']
        q = z.div(z.norm(g['ab'] + 1), NS)
        if self.decide2('eq', g['ab'] + 1, q * NS): n['BP'] = z.div(z.norm(end + (L - 1)), L) * L
        else: n['BP'] = end
        n.pop('na', None)
        cont = self.decide2('slt', n['ab'], g['cP'])
        if not cont: n['R'] = g['N']; n.pop('BP')
    elif k == 'CD':
        n['cd'] = g['cd'] + NS; n['bq'] = z.div(z.norm(g['bq'] + g['E'] + (L - 1)), L) * L
        for x in ('nsb', 'E'): n.pop(x)
        cont = self.decide2('slt', n['cd'], g['cQ'])
        if not cont: n.pop('bq')
    elif k == 'SLOT': n['s'] = g['s'] + 1; cont = self.decide2('slt', n['s'], g['nsb'])
    elif k == 'BPRIM':
        if not self.kdone: self.screened(None)
        n['t'] = g['t'] + 1; cont = self.decide2('slt', n['t'], g['na'])
    if k == 'AB' and not cont:
        # by definition of the ghosts: R = ab*cQ and ab = cP
        z.eq(g['R'] + g['cQ'], g['N'])
    self.heapinv(l, R, cf, 'preserved')
    self.proveforms(l, l.forms if cont else l.xforms, self.env(k, n), R, cf, 'preserved' if cont else 'on exit')
    self.live.add((l.header, 'again'))
def _decide2(self, op, a, b):
    z = self.z
    d = z.norm(a - b)
    if isinstance(d, int): return z.CMP[op](d)
    return z.decide(self.ex, SBool(op, d, 0))

# -------------------------------------------------------- memory at symbolic offsets
def _written(self, o):
    """a write while loops are active: the object must be among those havocked at their headers"""
    if not self.act: return
    if o is self.work: r = 'work'
    elif o is self.out: r = 'out'
    elif o.heap: r = 'heap'
    else:
        r = self.aroles.get(o.id)
        if r is None:
            if o.name in ('alloca', 'vla') or o.name.startswith('byval:'): return      # frame of a callee: does not outlive the iteration
            raise Unsupported('write of %s inside a loop' % o.name)
    for a in self.act:
        if a.mode == 'A' and r not in a.l.wset: raise Unsupported('loop %s writes an object it did not write in the traces' % a.l.header)
def _store_hook(self, ex, o, off, v, nl):
    if self.act: self.written(o)
    if o is self.out and isinstance(off, int): raise Unsupported('write of the output at a constant offset')
    if o.heap and isinstance(off, int): raise Unsupported('write of the heap at a constant offset')
    if o is self.work and isinstance(off, int) and (self.phase == 'S' or self.bdone):
        for j in range(nl):
            if off + 8 * j in self.accset: raise Unsupported('an accumulator is overwritten')
    if v.__class__ is not T.Node: return v
    if self.phase == 'K':
        ctx = self.ctx
        if v.op in 'cv': return v
        lv = ctx.leaves(v)
        if not lv or not isinstance(off, int): return v
        best = max(lv, key=eri._am)
        kd = best.args[0]; r = None
        if v.op == 'vec': return v
        if kd == 'F': r = ctx.abs_base(v, best)
        elif kd == 'Th' and (nl > 1 or self.L == 1): r = ctx.abs_os(v, best)
        return v if r is None else r
    if self.phase == 'S': return self.ctxS.abstract(ex, o, off, v, nl)
    return v
def _boys(self, ex, args):
    if self.phase != 'K': raise Unsupported('Boys function outside the loop over ket vectors')
    return eri.boys_contract(self.ctx)(ex, args)

def _load_sym(self, ex, o, off, t, sz):
    z = self.z
    if t[0] == 'vec':
        es = sz // t[1]
        if t[2][0] != 'double': raise Unsupported('integer vector at a symbolic offset')
        return T.vec([self.load1(ex, o, z.norm(off + es * j)) for j in range(t[1])])
    if t == ('i', 32) and o.heap: return self.load_row(o, z.norm(off))
    if t[0] != 'double': raise Unsupported('read of %s at a symbolic offset' % o.name)
    return self.load1(ex, o, z.norm(off))
def _load_row(self, o, off):
    z = self.z
    if self.phase == 'V':
        d = self.ov.get(('heap', off.t))
        if d is None or off.c not in d: raise UFail('uninitialised', 'an offset is read before it is set', '', z.model(z3.BoolVal(True)))
        return d[off.c]
    if self.phase != 'K' or not self.built or self.rowst is None: raise Unsupported('offset table read elsewhere')
    c = z.norm(off - self.S('v') * self.rowst)
    if not isinstance(c, int): raise Unsupported('offset table of another vector')
    key = (self.m, self.more, tuple(self.owners()), self.batch); row = self.table.get(key)
    self.tabused.setdefault(key, set()).add(c)
    if row is None: raise Unsupported('offset table: unknown pattern')
    if c not in row: raise UFail('uninitialised', 'an offset that was not set is read', '', z.model(z3.BoolVal(True)))
    return row[c]
def _load1(self, ex, o, off):
    if o.reader is not None:
        v = o.reader(ex, off, ('double',), 8)
        if v is not None: return v
    if o is not self.work and o is not self.out: raise Unsupported('read of %s at a symbolic offset' % o.name)
    if isinstance(off, int): raise Unsupported('concrete access of an accumulator')
    d = self.ov.setdefault((o.name, off.t), {})
    if off.c in d: return d[off.c]
    if self.phase == 'K':
        if self.zeros is None: raise Unsupported('accumulators before the loop over bra primitives')
        return T.var(('acc', o.name, off.t, off.c))
    if self.phase == 'S' and self.bdone:
        s = self.g['s']
        for st in self.fstride.get(o.name, ()):
            # work: c0 + stride*s ; out: c0 + stride*(R+cd+s)
            base = (s if o is self.work else self.g['R'] + self.g['cd'] + s) * st
            c0 = self.z.norm(off - base)
            if isinstance(c0, int) and (o.name, st, c0) in self.fmap:
                w, q = self.fmap[(o.name, st, c0)]
                return self.ctxS.om(w, 0, 0, q)
    raise Unsupported('read of %s+%r' % (o.name, off))
def _store_sym(self, ex, o, off, t, v, sz, nl):
    z = self.z
    if o.heap:
        of = z.norm(off); self.written(o)
        if self.phase != 'V' or t != ('i', 32) or not isinstance(of, SInt) or of.c % 4: raise Unsupported('write of the offset table')
        self.ov.setdefault(('heap', of.t), {})[of.c] = v
        return
    if o is not self.work and o is not self.out: raise Unsupported('write of %s at a symbolic offset' % o.name)
    if self.phase not in ('K', 'S') or (self.phase == 'S' and o is self.work) or not isinstance(v, T.Node) or (t[0] != 'double' and t[0] != 'vec'): raise Unsupported('write at a symbolic offset')
    for j in range(nl):
        of = z.norm(off + 8 * j)
        x = T.lane(v, j) if nl > 1 else v
        if isinstance(of, int) or of.c % 8: raise Unsupported('write at an odd offset')
        self.ov.setdefault((o.name, of.t), {})[of.c] = x

def _kvec_done(self, n):
    """one (bra primitive, ket vector) step: every valid lane adds its weighted primitive quartet to the slots of its own shell pair"""
    z = self.z; g = self.g; L = self.L; m = self.m; ctx = self.ctx
    Lv, o = g['Lv'], g['o']; J = L * (L - m)
    slots = self.owners()
    if self.tolsym and not any(v is not T.var(('acc', on, t, c)) for (on, t), cells in self.ov.items() for c, v in cells.items()):
        self.screened(list(range(m))); n['Lv'] = Lv + L
        if self.more: n['o'] = o + slots[-1]
        else: n.pop('o', None)
        return
    own = {}
    for k, a in enumerate(slots): own.setdefault(a, []).append(k)
    got = set()
    for (oname, t), cells in self.ov.items():
        co = dict(t).get('o', 0)
        if co <= 0: raise Unsupported('accumulators are not indexed by the shell pair')
        st = co
        obj = self.work if oname == 'work' else self.out
        base = (o if oname == 'work' else g['R'] + g['cd'] + o) * st
        if z.norm(SInt(t, 0) - base) != 0:
            d = z.norm(SInt(t, 0) - base)
            if not isinstance(d, int): raise Unsupported('accumulators in %s have an unexpected offset' % oname)
            shift = d
        else: shift = 0
        self.fstride.setdefault(oname, set()).add(st)
        for c, v in sorted(cells.items()):
            acc = T.var(('acc', oname, t, c))
            if v is acc: continue
            lv = [x for x in ctx.leaves(v) if x.args[0] in ('S', 'Th')]
            if not lv: raise UFail('sum', 'cell %s+%d of the accumulators does not receive a primitive quartet: %s' % (oname, c, T.show(v, 4)), '', z.model(z3.BoolVal(True)))
            k0 = min(x.args[2] - J for x in lv)
            if not 0 <= k0 < m: raise UFail('sum', 'a lane without primitive contributes', '', z.model(z3.BoolVal(True)))
            a = slots[k0]; c0 = c + shift - st * a
            lanes = own[a]
            f = self.fmap.get((oname, st, c0))
            cands = [f] if f else [(w, q) for q in dict.fromkeys(x.args[3:] if x.args[0] == 'S' else x.args[4:] for x in lv if x.args[0] == 'S' or x.args[3] == 0) for w in ('1abcd' if ctx.P.der else '1')]
            hit = None
            for w, q in cands:
                want = acc
                for k in lanes: want = T.add(want, T.mul(ctx.w(w, 0, J + k), ctx.S(0, J + k, *q)))
                if want.fp == v.fp and T.equal(v, want): hit = (w, q); break
            self.nobl['sum'] = self.nobl.get('sum', 0) + 1
            if hit is None:
                raise UFail('sum', 'cell %s+%d (slot %d) does not receive exactly the primitive quartets of its shell pair' % (oname, c, a), '', z.model(z3.BoolVal(True)))
            if f is None: self.fmap[(oname, st, c0)] = hit
            got.add((oname, st, c0, a))
            z.prove('slt', o + a, g['nsb'], 'frame', 'accumulation outside the batch')
    if not self.fmap: raise UFail('sum', 'nothing is accumulated', '', z.model(z3.BoolVal(True)))
    for (oname, st, c0) in self.fmap:
        for a in own:
            if (oname, st, c0, a) not in got: raise UFail('sum', 'slot %d of %s+%d misses its contribution' % (a, oname, c0), '', z.model(z3.BoolVal(True)))
    # the accumulators of the batch are apart from each other and from what the iteration writes otherwise, and start from zero
    acc = set()
    for (oname, st, c0) in self.fmap:
        if oname == 'work':
            for a in range(self.NS):
                x = c0 + st * a
                if x in acc: raise UFail('frame', 'accumulators overlap at work+%d' % x, '', z.model(z3.BoolVal(True)))
                acc.add(x)
                if x not in self.zeros: raise UFail('sum', 'the accumulator work+%d is not cleared before the batch' % x, '', z.model(z3.BoolVal(True)))
                self.nobl['frame'] = self.nobl.get('frame', 0) + 1
        else:
            if not self.zeroed: raise UFail('sum', 'the output is not cleared', '', z.model(z3.BoolVal(True)))
            if st != self.stride or not 0 <= c0 < st: raise UFail('frame', 'accumulation outside the rows of the batch', '', z.model(z3.BoolVal(True)))
    self.accset = acc
    for off, c in self.work.cells.items():
        for j in range(0, max(c[0], 8), 8):
            if off + j in acc: raise UFail('frame', 'an accumulator is overwritten at work+%d' % off, '', z.model(z3.BoolVal(True)))
    # accumulating directly into the output: the fields are the components in order
    outs = {c0: wq for (on, st, c0), wq in self.fmap.items() if on == 'integrals'}
    self.accout = False
    if outs:
        C = [eri.carts(x) for x in self.am]; i = 0
        if self.der: raise Unsupported('derivatives accumulated in the output')
        for a in C[0]:
            for b in C[1]:
                for c in C[2]:
                    for d in C[3]:
                        if outs.get(8 * i) != ('1', (a, b, c, d)): raise UFail('integral', 'component %d of the output is not the integral (%s %s|%s %s)' % (i, a, b, c, d), '', z.model(z3.BoolVal(True)))
                        i += 1; self.nobl['out'] = self.nobl.get('out', 0) + 1
        if len(outs) != i: raise UFail('integral', 'extra components')
        self.accout = True
    if self.more:
        n['Lv'] = Lv + L; n['o'] = o + slots[-1]
    else: n['Lv'] = Lv + L; n.pop('o', None)

def _slot_done(self, l):
    z = self.z; g = self.g
    rows = {k: d for k, d in self.ov.items() if k[0] == 'integrals' and d}
    if not rows: self.norows.add(l.header); return
    base = (g['R'] + g['cd'] + g['s']) * self.stride
    if len(rows) != 1: raise Unsupported('several output rows in one step')
    (_, t), d = next(iter(rows.items()))
    sh = z.norm(SInt(t, 0) - base)
    if not isinstance(sh, int): raise UFail('output', 'a shell quartet is written to the row of another', '', z.model(z3.BoolVal(True)))
    cells = {c + sh: v for c, v in d.items()}
    if any(c < 0 or c >= self.stride for c in cells): raise UFail('frame', 'output outside the row of the quartet', '', z.model(z3.BoolVal(True)))
    ctx = self.ctxS; C = [eri.carts(x) for x in self.am]; off = 0
    for a in C[0]:
        for b in C[1]:
            for c in C[2]:
                for dd in C[3]:
                    q = (a, b, c, dd)
                    if not self.der:
                        v = cells.get(off); off += 8
                        ok = v is not None and eri.ok_plain(ctx, (8, v), 0, 0, q)
                    else:
                        cs = [(8, cells[off + 8 * j]) if off + 8 * j in cells else None for j in range(12)]; off += 96
                        ok = eri.ok_deriv(ctx, cs, 0, 0, q) is None
                    if not ok: raise UFail('derivative' if self.der else 'integral', 'component %s of a quartet is wrong or missing: %s' % (q, '' if self.der else v and T.show(v, 4)), '', z.model(z3.BoolVal(True)))
                    self.nobl['out'] = self.nobl.get('out', 0) + 1
    self.outloops.add(l.header)

for _n, _f in list(globals().items()):
    if _n.startswith('_') and callable(_f) and not _n.startswith('__') and getattr(_f, '__module__', None) == __name__: setattr(Kernel, _n[1:], _f)
Kernel.accset = frozenset(); Kernel.accout = False; Kernel.more = False

# ------------------------------------------------------------------ permuted classes
class Wrapper(Kernel):
    """The function of a permuted class, against the contract of the kernel it calls.

    The kernel's contract (established by Kernel.prove for the permuted quantum numbers): given two shell pairs it leaves in
    row r of the output the integrals of quartet r of these pairs and returns the number of quartets; it reads the clipped
    separations and the primitive data only.  Here the pairs are the ones the wrapper builds: every field is compared with the
    field of the exchanged pair, the negated separations are a loop effect proved for an arbitrary index, and the reordering
    of the output is proved for an arbitrary row."""
    def trace(self):
        T.reset(); T.EPOCH[0] += 1; T.lane_hook[0] = None
        self.samples = {}; L = self.L
        ex = TExec(self.variant, {}); self.tex = ex
        ex.load_rel('simint/simint_init.c'); ex.load_rel('simint/simint_eri.c')
        ex.call('@simint_init', [])
        self.worksize = ex.call('@simint_eri_worksize', [self.der, max(self.am)])
        self.kf = self.callee = None
        orig = ex.run
        def spy(f, args):
            if f.name.startswith('@ostei_') and len(f.params) == 5 and f.params[0][2] is not None:
                if self.kf is None:
                    self.kf = f; self.loops = loops(f)
                    ex.hooks = {(f.name, b): self.exit_hook(b) for l in self.loops.values() for b in l.exits}
                    ex.hooks.update({(f.name, h): self.hook_for(l) for h, l in self.loops.items()})
                elif f is not self.kf:
                    if self.callee not in (None, f.name): raise Unsupported('several kernels')
                    self.callee = f.name
                    return self.nsh[1] * self.nsh[3]
            return orig(f, args)
        ex.run = spy
        self.shapes = [([1] * a, c, [1] * b, d) for a, c, b, d in ((2, 1, 3, 3), (5, 4, 2, 1), (1, 1, 6, 2), (7, 3, 7, 5))]
        for si, sh in enumerate(self.shapes):
            self.nsh = sh
            self.run_shape(ex, sh, si)
            if self.callee is None: raise Unsupported('not a permuted class')
        T_ = lambda sh: dict(nP=len(sh[0]), nQ=len(sh[2]), cP=sh[1], cQ=sh[3], N=sh[1] * sh[3])
        for l in self.loops.values():
            if not l.trips: l.kind = 'const'; continue
            if len({c for _, _, c in l.trips}) == 1: l.kind = 'const'; continue
            l.kind = next((k for k in ('nP', 'nQ', 'N', 'cP', 'cQ') if all(T_(self.shapes[si])[k] == c for si, _, c in l.trips)), None)
            if l.kind is None or any(p is not l and p.body >= l.body and len({c for _, _, c in p.trips}) > 1 for p in self.loops.values()): raise Unsupported('loop %s: iterations not recognised' % l.header)
            if not l.exit_ok: raise Unsupported('loop %s leaves from its body' % l.header)
            sm = [(dict(T_(self.shapes[si]), k=dict(act)[l.header]), v) for si, act, v in self.samples[l.header]]
            for i, phi in enumerate(l.phis): l.forms[phi] = fit_phi([(g, v[i]) for g, v in sm], ['k', 'nP', 'nQ', 'N', 'cP', 'cQ'])
    def pair(self, tag, clip, nsh, m, a, b):
        r = Kernel.pair(self, tag, clip, nsh, m, a, b)
        self.orig[tag] = {off: c[1] for off, c in r.obj.cells.items()}
        return r

    def prove(self, maxpaths=2000, tmax=100):
        import time
        self.nobl = {}; self.npaths = 0; self.obl = {}; self.fmap = {}
        T.reset(); T.EPOCH[0] += 1; T.lane_hook[0] = None
        z = self.z = Z(self); self.S = z.sym; _memo.clear(); _fkeys.clear()
        ex = SExec(self.variant, {}, limit=10**10); self.ex = ex
        ex.load_rel('simint/simint_init.c'); ex.load_rel('simint/simint_eri.c')
        ex.solver = z; ex.store_hook = self.store_hook
        f = ex.resolve(self.kf.name); name = f.name
        ex.contracts[self.callee] = self.kernel
        ls = {l.header: l for l in self.loops.values() if l.kind != 'const'}
        ex.hooks = {(name, b): self.sexit(f, b) for l in ls.values() for b in l.exits}
        ex.hooks.update({(name, h): self.shook(l) for h, l in ls.items()})
        self.fx = {}; self.live = set(); self.sig = None; self.done = 0
        t0 = time.time(); ex.oracle = []
        while True:
            self.npaths += 1
            if self.npaths > maxpaths or time.time() - t0 > tmax: raise Unsupported('too many paths')
            self.wpath(ex, f)
            while ex.oracle and ex.oracle[-1][0] + 1 >= ex.oracle[-1][1]: ex.oracle.pop()
            if not ex.oracle: break
            ex.oracle[-1][0] += 1
        for l in ls.values():
            for m in 'AB':
                if (l.header, m) not in self.live: raise Unsupported('loop %s never reached in mode %s' % (l.header, m))
        if not self.done: raise Unsupported('no path returns')
    def wpath(self, ex, f):
        z = self.z; z.reset(); S = self.S; lay = self.lay
        ex.opos = 0; ex.pc = []; ex.fdec = {}; ex.heap = []; ex.stack = []
        self.act = []; self.aroles = {}; self.g = {}; self.products = []; self.ov = {}; self.facts = {}; self.rows = None; self.orig = {}
        cP, cQ, N, nP, nQ = S('cP'), S('cQ'), S('N'), S('nP'), S('nQ')
        self.products.append((cP, cQ, N))
        BIG = 1 << 28
        for x in (cP, cQ, N): z.ge(x, 0); z.ge(BIG, x)
        z.ge((1 << 31) - 1, N * (self.nc * self.ncomp)); z.ge(nP, cP); z.ge(nQ, cQ); z.ge(BIG, nP); z.ge(BIG, nQ)
        self.g.update(cP=cP, cQ=cQ, N=N, nP=nP, nQ=nQ)
        P = self.pair('P', cP, nP, S('mP'), 0, 0); Q = self.pair('Q', cQ, nQ, S('mQ'), 0, 0)
        self.work = Obj('work', 8 * self.worksize, 64); self.out = Obj('integrals', N * self.stride, 64)
        self.roles = {'work': self.work, 'out': self.out}; self.tol = T.var('tol')
        try: r = ex.run(f, [P, Q, self.tol, Ptr(self.work, 0), Ptr(self.out, 0)])
        except StopPath: return
        except Infeasible: return
        except (AttributeError, TypeError, KeyError, IndexError) as e: raise Unsupported('%s: %s' % (type(e).__name__, e))
        while self.act: self.spop()
        z.prove('eq', r, N, 'return', 'the number of shell quartets is not returned')
        if self.rows is None: raise UFail('output', 'the kernel is not called')
        want = self.final()
        for off, v in want.items():
            self.nobl['out'] = self.nobl.get('out', 0) + 1
            if self.rows.get(off) is not v: raise UFail('derivative' if self.der else 'integral', 'component at %d of a row of the output is %s instead of %s' % (off, self.rows.get(off), v))
        for o in ex.heap:
            if not o.freed: raise UFail('leak', 'heap object %s is not freed' % o.name)
        self.done += 1
    def rowmap(self, perm):
        """contents of a row as written by a kernel whose quantum number i is this class's number perm[i]"""
        am = [self.am[p] for p in perm]; d = {}; off = 0
        for q in itertools.product(*[eri.carts(l) for l in am]):
            mine = [None] * 4
            for i, p in enumerate(perm): mine[p] = q[i]
            for comp in range(self.ncomp):
                c = comp if not self.der else 3 * perm[comp // 3] + comp % 3
                d[off] = T.var(('I', tuple(mine), c)); off += 8
        return d
    def final(self): return self.rowmap((0, 1, 2, 3))
    # -- the call
    def kernel(self, ex, args):
        z = self.z
        if self.act: raise Unsupported('kernel called in a loop')
        if self.rows is not None: raise Unsupported('two kernel calls')
        P, Q, tol, w, o = args
        sw = []
        for a, tag in ((P, 'P'), (Q, 'Q')): sw.append(self.pairarg(a, tag))
        nb = self.nobl
        if tol is not self.tol: raise UFail('screening', 'the kernel gets another screening tolerance')
        if not (isinstance(w, Ptr) and w.obj is self.work and w.off == 0): raise UFail('bounds', 'the kernel gets another work space')
        if not (isinstance(o, Ptr) and o.obj is self.out and o.off == 0): raise UFail('bounds', 'the kernel gets another output array')
        nb['call'] = nb.get('call', 0) + 3
        perm = ((1, 0) if sw[0] else (0, 1)) + ((3, 2) if sw[1] else (2, 3))
        self.calleeam = tuple(self.am[p] for p in perm)
        self.rows = self.rowmap(perm)
        self.work.cells.clear(); self.work.fill = UNK
        return self.g['N']
    def pairarg(self, a, tag):
        z = self.z; lay, ssz = self.lay['simint_multi_shellpair']; org = self.orig[tag]
        if not isinstance(a, Ptr) or a.obj is None or a.off != 0: raise Unsupported('shell pair argument')
        def get(f):
            c = a.obj.cells.get(lay[f])
            if c is None: raise UFail('call', 'field %s of the %s shell pair is not set' % (f, tag))
            return c[1]
        def same(f, g): 
            x, y = get(f), org[lay[g]]
            self.nobl['call'] = self.nobl.get('call', 0) + 1
            if isinstance(y, Ptr): return isinstance(x, Ptr) and x.obj is y.obj and x.off == y.off
            if isinstance(y, T.Node): return x is y
            return isinstance(x, (int, SInt)) and z.holds('eq', x, y)
        for f in ('nshell12', 'nshell12_clip', 'nprim12', 'x', 'y', 'z', 'alpha', 'prefac', 'screen', 'screen_max'):
            if not same(f, f): raise UFail('call', 'field %s of the %s shell pair is not passed on' % (f, tag))
        swap = same('PA_x', 'PB_x')
        pairs = [('PA_' + d, 'PB_' + d) for d in 'xyz'] + ([('alpha2', 'beta2')] if self.der else [])
        for x, y in pairs:
            for f, g in ((x, y), (y, x)):
                if not same(f, g if swap else f): raise UFail('call', 'field %s of the %s shell pair is not the one of the exchanged pair' % (f, tag))
        for d in range(3):
            f = 'AB_' + 'xyz'[d]
            if not swap:
                if not same(f, f): raise UFail('call', 'field %s of the %s shell pair is changed' % (f, tag))
                continue
            p = get(f); n = self.g['n' + tag]
            if not isinstance(p, Ptr) or p.obj is None: raise UFail('call', 'field %s of the %s shell pair is not a valid array' % (f, tag))
            fx = self.facts.get(p.obj.id)
            if fx is None: raise UFail('call', 'the separations %s of the exchanged %s pair are not set' % (f, tag))
            ok = False; k = self.S('k')
            z.prove('sle', p.off + n * 8, p.obj.size, 'bounds', 'the array of separations %s is too short' % f)
            for trip, off, v in fx:
                if z.norm(off - p.off - k * 8) == 0 and z.holds('sge', trip, self.g['c' + tag]):
                    ok = v is T.neg(T.var(('AB', tag, d))) or isinstance(v, T.Node) and T.equal(v, T.neg(T.var(('AB', tag, d))))
                    if ok: break
            self.nobl['call'] = self.nobl.get('call', 0) + 1
            if not ok: raise UFail('call', 'the separations %s of the exchanged %s pair are not the negated ones' % (f, tag))
        return swap
    # -- loops
    def rd_ab(self, tag, d):
        def rd(ex, off, t, sz):
            if t[0] != 'double': return None
            i = exdiv(self.z.norm(off), 8)
            if self.act and i is not None and self.z.norm(i - self.S('k')) == 0 and self.act[-1].mode == 'A': return T.var(('AB', tag, d))
            return T.var(('AB?', tag, d, repr(i)))
        return rd
    def rd_n(self, tag):
        def rd(ex, off, t, sz): raise Unsupported('the wrapper reads primitive counts')
        return rd
    def rd_prim(self, tag, f):
        def rd(ex, off, t, sz): raise Unsupported('the wrapper reads primitive data')
        return rd
    def spop(self):
        a = self.act.pop()
        if a.mode == 'A': raise UFail('loop', 'loop %s ends before its last iteration' % a.l.header, '', self.z.model(z3.BoolVal(True)))
    def shook(self, l):
        def h(ex, f, cf, R, prev):
            for k, o in enumerate(R[0]): self.aroles[o.id] = ('a', k)
            while self.act and l.idx not in self.act[-1].l.body: self.spop()
            if self.act and self.act[-1].l is l and prev in l.body:
                if self.act[-1].mode == 'B': raise UFail('loop', 'loop %s makes more iterations than there are elements' % l.header, '', self.z.model(z3.BoolVal(True)))
                self.wagain(l, R, cf); raise StopPath()
            self.wfirst(l, R, cf, ex)
        return h
    def wenv(self, k): return dict(self.g, k=k)
    def wfirst(self, l, R, cf, ex):
        z = self.z; trip = self.g[l.kind]; k = self.S('k')
        if self.act: raise Unsupported('nested loops')
        self.proveforms(l, l.forms, self.wenv(0), R, cf, 'on entry')
        for role in l.wset:
            o = self.obj(role, R) if role != '?' else None
            if o is None: continue
            if o is self.out:
                if self.rows is None or l.kind != 'N': raise Unsupported('output written outside a loop over rows')
            elif o.id in self.facts: raise Unsupported('an array written by two loops')
        mode = 'AB'[ex.choose(2, l.header)]
        if mode == 'A': z.ge(k, 0); z.ge(trip, k + 1)
        env = self.wenv(k if mode == 'A' else trip)
        for p in l.phis:
            r = self.evalf(l.forms[p], env) if l.forms.get(p) is not None else None
            if r is None: R[cf.reg[p]] = UNK; continue
            role, v = r; R[cf.reg[p]] = v if role is None else Ptr(self.obj(role, R), v)
        for role in l.wset:
            o = self.obj(role, R) if role != '?' else None
            if o is None or o is self.out: continue
            o.cells.clear(); o.fill = UNK
        if mode == 'A': self.ov = {}; self.objs = {}
        else:
            fx = self.fx.get(l.header)
            if fx is None: raise Unsupported('no effect of loop %s' % l.header)
            arr, rows = fx
            for role, ws in arr.items():
                self.facts[self.obj(role, R).id] = [(trip, self.z.norm(off), v) for off, v in ws]
            if rows is not None:
                if self.rows != self.rows_in.get(l.header): raise Unsupported('rows')
                self.rows = rows
        self.act.append(Active(l, mode, None))
        if not z.check(z3.BoolVal(True), ('feasible',)): raise Infeasible()
        self.live.add((l.header, mode))
    rows_in = {}
    def wagain(self, l, R, cf):
        z = self.z; k = self.S('k')
        self.proveforms(l, l.forms, self.wenv(k + 1), R, cf, 'preserved')
        arr = {}; rows = None
        for (oid, t), cells in self.ov.items():
            o = self.objs[oid]
            if o is self.out:
                if z.norm(SInt(t, 0) - k * self.stride) != 0: raise UFail('frame', 'a row of the output is written by another row\'s iteration', '', z.model(z3.BoolVal(True)))
                if any(c < 0 or c >= self.stride for c in cells): raise UFail('frame', 'output outside the row', '', z.model(z3.BoolVal(True)))
                rows = dict(self.rows); rows.update(cells)
            else:
                ro = self.aroles.get(o.id)
                if ro is None: raise Unsupported('effect on %s' % o.name)
                for c, v in cells.items(): arr.setdefault(ro, []).append((SInt(t, c), v))
        # iterations do not overwrite each other
        k2 = self.S('k2'); trip = self.g[l.kind]
        for ro, ws in arr.items():
            for off, _ in ws:
                for off2, _ in ws:
                    o2 = mkint(tuple(sorted(('k2' if n == 'k' else n, c) for n, c in off2.t)), off2.c) if isinstance(off2, SInt) else off2
                    d = z.norm(off - o2); self.nobl['frame'] = self.nobl.get('frame', 0) + 1
                    bad = z3.And(z.z(k) != z.z(k2), z.z(k2) >= 0, z.z(k2) < z.z(trip), z.z(d) < 8, z.z(d) > -8)
                    if z.check(bad, ('overlap', l.header, repr(d))): raise Unsupported('iterations of loop %s write the same cells' % l.header)
        if rows is not None: self.rows_in = dict(self.rows_in); self.rows_in[l.header] = self.rows
        if rows is not None or l.header not in self.fx or self.fx[l.header] == (arr, None): pass
        else: raise Unsupported('the effect of loop %s depends on the path' % l.header)
        old = self.fx.get(l.header)
        if old is not None and (old[0] != arr or (old[1] is None) != (rows is None) or rows is not None and any(old[1].get(c) is not v for c, v in rows.items())): raise Unsupported('the effect of loop %s depends on the path' % l.header)
        self.fx[l.header] = (arr, rows)
    # -- memory
    def store_hook(self, ex, o, off, v, nl):
        if self.act: self.written(o)
        if o is self.out and isinstance(off, int): raise Unsupported('write of the output at a constant offset')
        if o.id in self.facts: raise Unsupported('an array with a known content is overwritten')
        return v
    def load_sym(self, ex, o, off, t, sz):
        if t[0] == 'vec':
            es = sz // t[1]
            if t[2][0] != 'double': raise Unsupported('integer vector at a symbolic offset')
            return T.vec([self.load1(ex, o, self.z.norm(off + es * j)) for j in range(t[1])])
        if t[0] != 'double': raise Unsupported('read of %s at a symbolic offset' % o.name)
        return self.load1(ex, o, self.z.norm(off))
    def load1(self, ex, o, off):
        z = self.z
        if o.reader is not None:
            v = o.reader(ex, off, ('double',), 8)
            if v is not None: return v
        if not isinstance(off, SInt): raise Unsupported('read of %s+%r' % (o.name, off))
        d = self.ov.get((o.id, off.t))
        if d is not None and off.c in d: return d[off.c]
        if o is self.out and self.act and self.act[-1].mode == 'A' and self.rows is not None:
            c = z.norm(off - self.S('k') * self.stride)
            if isinstance(c, int) and c in self.rows: return self.rows[c]
        raise Unsupported('read of %s+%r' % (o.name, off))
    def store_sym(self, ex, o, off, t, v, sz, nl):
        z = self.z
        if not self.act or self.act[-1].mode != 'A' or not isinstance(v, T.Node) or t[0] not in ('double', 'vec') or o.ro: raise Unsupported('write of %s at a symbolic offset' % o.name)
        self.written(o)
        if o.id in self.facts: raise Unsupported('an array with a known content is overwritten')
        for j in range(nl):
            of = z.norm(off + 8 * j)
            if not isinstance(of, SInt) or of.c % 8: raise Unsupported('write at an odd offset')
            self.objs[o.id] = o
            self.ov.setdefault((o.id, of.t), {})[of.c] = T.lane(v, j) if nl > 1 else v

def _memcpy_sym(z, ex, d, s, n):
    """copies of doubles from or to a row"""
    k = z.k
    if not isinstance(n, int) or n % 8 or n > 1 << 16 or not isinstance(k, Wrapper): raise Unsupported('memcpy of symbolic size or offset')
    vals = [ex.load(Ptr(s.obj, s.off + 8 * j), ('double',), 8, 8) for j in range(n // 8)]
    for j, v in enumerate(vals): ex.store(Ptr(d.obj, d.off + 8 * j), ('double',), v, 8, 8)
Z.memcpy_sym = _memcpy_sym

def model_shape(model, L):
    """shell pair counts (bra, clip, ket, clip) of the counterexample of a failed obligation, cut down to a size that can be run"""
    NS = 2 * L; m = model or {}
    cP = max(1, m.get('cP', 1)); cQ = max(1, m.get('cQ', 1)); ab = min(max(0, m.get('ab', 0)), cP - 1)
    na = min(max(1, m.get('na', 2)), 400)
    if cP > 3 * NS:                     # keep the position relative to the batch and to the end
        d = min(cP - 1 - ab, NS + 1); ab = ab % NS + (NS if ab >= NS else 0); cP = ab + 1 + d
    bra = [1 + (k * 3 + 1) % 3 for k in range(cP)]; bra[ab] = na
    b = max(0, m.get('b', 0)); last = b * NS + NS >= cQ
    if b > 2: cQ -= (b - 2) * NS; b = 2
    if cQ > (b + 2) * NS: cQ = (b + 1) * NS + 1
    ket = [1 + (5 * k * k + 2 * k) % (L + 2) for k in range(cQ)]
    cd = b * NS; n = min(NS, cQ - cd)
    if n > 0:
        import re
        known = {0: 0}; E = m.get('E')
        for k, v in m.items():
            r = re.fullmatch(r'C\[(\d+)\]', k)
            if r: known[int(r.group(1))] = v
            elif k.startswith('C['):
                e = k[2:-1]; val = 0
                for c, nm in re.findall(r'(-?\d*)\*?([a-zA-Z]\w*)|$^', e): val += m.get(nm, 0)
                r = re.search(r'([+-]\s*\d+)$', e)
                if r: val += int(r.group(1).replace(' ', ''))
                known.setdefault(val, v)
        if E is not None: known[n] = E
        prev = 0; pv = 0
        for i in range(1, n + 1):
            v = known.get(i)
            if v is None:
                nx = min((j for j in known if j > i), default=None)
                v = pv + (max(1, (known[nx] - pv) // (nx - i + 1)) if nx is not None and known[nx] > pv else 1)
            if v <= pv or v - pv > 1500: v = pv + 1
            ket[cd + i - 1] = v - pv; pv = v
    return (bra, cP, ket, cQ)
