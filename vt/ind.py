"""Induction over accumulating loops: functions whose result is a sum over arrays of symbolic length.

Loops whose number of iterations depends on a symbolic integer are cut at their header.  Their summary is found by the
executor itself and then proved: every integer or pointer that changes has a constant stride, every real that changes is
either increased by a term that does not depend on what the loop changed before (so that the loop adds the sum of that term
over its index) or is rewritten before it is read in each iteration.  One iteration from an arbitrary state of that shape,
for an arbitrary index, is executed and must end in a state of that shape with the same increments, on every path; every
memory access, alignment and overflow obligation of it is proved for the symbolic index and lengths.  The function's
results are then sums over the index ranges, compared with the specified summand.

Anything outside this scheme raises Unsupported (the function is then covered by the runs of bounded shape only).
"""
import sys, time
import z3
from . import terms as T, layout, unb, scen
from .execu import *
from .execu import UNDEF, UNDEFI
from .lib import LibExec
from .sint import SInt, SBool, mkint
from .unb import UFail, Z, loops, exdiv

class Restart(Exception): pass

class IZ(Z):
    def model(self, e):
        s = z3.Optimize(); s.set('timeout', 10000); s.add(*self.facts); s.add(e)
        for n in self.zv:
            if not n.startswith('q['): s.add_soft(self.zv[n] <= 6); s.add_soft(self.zv[n] <= 40); s.add_soft(self.zv[n] >= 1)
        sz = [self.zv[n] for n in self.k.small if n in self.zv]
        if sz: s.minimize(z3.Sum(sz))
        if s.check() != z3.sat: return None
        m = s.model()
        return {str(d): m[d].as_long() for d in m.decls() if z3.is_int_value(m[d])}
    def assume(self, op, a, b):
        d = self.norm(a - b)
        if isinstance(d, int):
            if not self.CMP[op](d): raise Infeasible()
            return
        self.fact(self.CMP[op](self.z(d)), (op, d.key()))
    def decide(self, ex, b):
        k = self.k; op, a, c = b.op, b.a, b.b
        if self.holds(op, a, c): return True
        if self.holds(self.NG[op], a, c): return False
        at = place()
        for x in reversed(k.act):
            if x.ent is NOENT and at is not None and x.key[0] == at[0] and at[1] in x.l.exits_from: k.cut.add(x.key[:2]); raise Restart()
        r = ex.choose(2, 'int') == 0
        if not r: op = self.NG[op]
        self.assume(op, a, c)
        k.decided(op, self.norm(a - c))
        return r
    def memset_sym(self, ex, p, byte, n): raise Unsupported('memset of symbolic size')

def place():
    """function and block the executor is in"""
    fr = sys._getframe(2)
    while fr is not None:
        if fr.f_code.co_name == 'run' and 'bname' in fr.f_locals: return fr.f_locals['f'].name, fr.f_locals['bname']
        fr = fr.f_back
    return None

class IExec(LibExec):
    def run(self, f, args):
        k = self.solver.k
        if f.name not in k.seen:
            k.seen.add(f.name); k.install(f)
        n = len(k.act); d = len(self.stack)
        r = LibExec.run(self, f, args)
        while k.act and k.act[-1].depth > d:
            if k.act.pop().ent is not NOENT: raise Unsupported('returns from inside a loop')
        return r
    def memset(self, p, byte, n):
        k = self.solver.k
        if isinstance(n, int) and isinstance(p, Ptr) and p.obj is not None and isinstance(p.off, int):
            for a in range(p.off, p.off + n, 4): k.wrote(p.obj, a)
        LibExec.memset(self, p, byte, n)

class Act: __slots__ = ('key', 'ent', 'R', 'l', 'depth', 'k', 'cells', 'phis', 'wr', 'objs', 'forks', 'entry', 'pre')
class Ent:
    __slots__ = ('stage', 'kname', 'strides', 'E', 'W', 'acc', 'models', 'rounds')
    def __init__(self, kname): self.stage = 0; self.kname = kname; self.strides = {}; self.E = None; self.W = {}; self.acc = {}; self.models = []; self.rounds = 0

def mentions(t, ids, memo):
    """does the term contain one of the atoms?"""
    r = memo.get(t.id)
    if r is None:
        if t.op == 'c': r = False
        elif t.op == 'v': r = t.id in ids
        else: r = any(mentions(x, ids, memo) for x in t.args if isinstance(x, T.Node))
        memo[t.id] = r
    return r
def replace(t, m, memo):
    r = memo.get(t.id)
    if r is None:
        if t.op == 'c': r = t
        elif t.op == 'v': r = m.get(t.id, t)
        else:
            a = [replace(x, m, memo) if isinstance(x, T.Node) else x for x in t.args]
            if all(x is y for x, y in zip(a, t.args)): r = t
            elif t.op == '+': r = T.add(*a)
            elif t.op == '*': r = T.mul(*a)
            elif t.op == '/': r = T.div(*a)
            elif t.op == 'f': r = T.func(*a)
            elif t.op == 'vec': r = T.vec(a)
            else: raise Unsupported('substitution in ' + t.op)
        memo[t.id] = r
    return r

class Ind:
    """proof of one function; subclasses say how it is called and what it must compute"""
    ZC = IZ
    small = ('n1', 'n2', 'nc')     # lengths a counterexample should keep small
    def __init__(self, variant):
        self.variant = variant; self.cut = set(); self.tab = {}; self.seen = set(); self.nobl = {}; self.npaths = 0; self.slot = {}
        self.sums = {}; self.sumtab = {}; self.products = []; self.ended = 0; self.nk = 0; self.nsum = 0; self.infos = {}
    # ---------------------------------------------------------------- driver
    def prove(self, tmax=60, maxpaths=3000):
        T.reset(); T.EPOCH[0] += 1; T.lane_hook[0] = None
        unb._memo.clear(); unb._fkeys.clear()
        self.z = self.ZC(self); self.setup()
        ex = self.ex = IExec(self.variant, {}, limit=10**10); ex.solver = self.z; ex.possplit = True
        self.load(ex); f = ex.resolve(self.fn)
        if f is None: raise Unsupported('no function ' + self.fn)
        t0 = time.time(); rounds = 0
        while True:
            rounds += 1
            if rounds > 60: raise Unsupported('no summary found')
            ex.oracle = []; self.fails = []; self.ended = 0; self.nobl = {}; self.nsum = 0
            try:
                while True:
                    self.npaths += 1
                    if self.npaths > maxpaths or time.time() - t0 > tmax: raise Unsupported('too many paths')
                    self.path(ex, f)
                    while ex.oracle and ex.oracle[-1][0] + 1 >= ex.oracle[-1][1]: ex.oracle.pop()
                    if not ex.oracle: break
                    ex.oracle[-1][0] += 1
            except Restart: continue
            break
        if self.fails: raise self.fails[0]
        if any(e.stage < 2 for e in self.tab.values()): raise Unsupported('a loop has no summary')
        if not self.ended: raise Unsupported('no path ends')
    def path(self, ex, f):
        z = self.z; z.reset(); ex.opos = 0; ex.pc = []; ex.fdec = {}; ex.heap = []; ex.stack = []; ex.gobj = ex.gobj
        self.act = []; self.visits = {}; self.base = Obj._n; self.reg = {}; self.early = False; self.soft = None
        ex.hooks.clear()
        for nm in self.seen: self.install(ex.resolve(nm) or self.infos[nm][1])
        ex.store_hook = self.store_hook
        try:
            args = self.args(ex)
            r = ex.run(f, args)
            if self.early: return
            self.finish(ex, r); self.ended += 1
            for o in ex.heap:
                if not o.freed: raise UFail('leak', 'heap object %s is not freed' % o.name)
        except (StopPath, Infeasible): return
        except Violation as e:
            if self.early or any(a.ent.stage < 2 for a in self.act): self.soft = e; return
            if not isinstance(e, UFail): e = UFail(e.kind, e.msg, e.where, z.model(z3.BoolVal(True)))
            self.fails.append(e)
        except (AttributeError, TypeError, KeyError, IndexError, AssertionError) as e:
            raise Unsupported('%s: %s' % (type(e).__name__, e))
    # ---------------------------------------------------------------- hooks
    def install(self, f):
        ls = self.infos.get(f.name)
        if ls is None: ls = self.infos[f.name] = (loops(f), f)
        ls = ls[0]; hk = {}
        for l in ls.values():
            hk.setdefault(l.header, []).append(l)
        exits = set()
        succ = {}
        for bn in f.order:
            for dst, op, data, txt in f.blocks[bn]:
                if op == 'br': succ[bn] = [data[1], data[2]]
                elif op == 'jmp': succ[bn] = [data[0]]
                elif op == 'switch': succ[bn] = [data[2]] + [x for _, x in data[3]]
        bi = {bn: i for i, bn in enumerate(f.order)}
        for l in ls.values():
            l.exits_from = set()
            for bn in f.order:
                if bi[bn] in l.body:
                    for s in succ.get(bn, ()):
                        if s in bi and bi[s] not in l.body: exits.add(s); l.exits_from.add(bn)
        for bn in exits | set(hk):
            self.ex.hooks[(f.name, bn)] = self.mkhook(f, bn, bi[bn], hk.get(bn, [None])[0])
    def mkhook(self, f, bn, i, l):
        def h(ex, f, cf, R, prev):
            while self.act and self.act[-1].R is R and i not in self.act[-1].l.body: self.leave(self.act.pop(), prev, R, cf)
            if l is None: return
            a = self.act[-1] if self.act else None
            if a is not None and a.R is R and a.l is l and prev in l.body: self.again(a, R, cf); return
            self.enter(l, f, R, cf, ex)
        return h
    def enter(self, l, f, R, cf, ex):
        vk = (f.name, l.header) + tuple(a.key for a in self.act)
        if (f.name, l.header) not in self.cut:
            a = Act(); a.key = (f.name, l.header, '-'); a.ent = NOENT; a.R = R; a.l = l; a.depth = len(ex.stack); a.wr = None; a.k = None
            self.act.append(a); return
        n = self.visits.get(vk, 0); self.visits[vk] = n + 1
        key = vk + (n,)
        e = self.tab.get(key)
        if e is None: e = self.tab[key] = Ent('k%d' % self.nk); self.nk += 1
        a = Act(); a.key = key; a.ent = e; a.R = R; a.l = l; a.depth = len(ex.stack); a.wr = {}; a.k = None; a.cells = {}; a.phis = {}; a.objs = Obj._n
        a.entry = {p: R[cf.reg[p]] for p in l.phis}
        self.act.append(a)
        if e.stage == 0: return
        if e.stage < 2: self.early = True
        z = self.z; k = a.k = z.sym(e.kname); z.ge(k, 0)
        if e.E is not None:
            z.prove('sge', e.E, 0, 'loop', 'the loop may run past its end'); z.ge(e.E, k)
        for p in l.phis:
            v = a.entry[p]; s = e.strides.get(p, 0); sl = cf.reg[p]
            if isinstance(v, (int, SInt)) and not isinstance(v, bool): R[sl] = v + k * s if s else v
            elif isinstance(v, Ptr):
                if s: R[sl] = Ptr(v.obj, v.off + k * s)
            elif isinstance(v, T.Node):
                if s: R[sl] = a.phis[p] = T.var(('H', key, p))
            elif s: raise Unsupported('loop-carried %r' % (v,))
        objs = {o.id: o for o in R[0]}; objs.update({o.id: o for o in ex.heap}); objs.update(self.reg)
        for (lab, name), offs in e.W.items():
            o = objs.get(lab + self.base)
            if o is None or o.name != name or o.freed: raise Unsupported('objects differ between paths')
            for off in sorted(offs):
                c = o.cells.get(off); w = offs[off]
                if w[0] == 'r':
                    old = c[1] if c is not None and c[0] == 8 and c[2] == 1 else None
                    h = T.var(('H', key, lab, off)); self.put(o, off, 8, h, 1); a.cells[lab, name, off] = (o, h, old)
                elif w[0] == 'v':
                    n = w[1]; h = T.vec([T.var(('H', key, lab, off, j)) for j in range(n)]); self.put(o, off, 8 * n, h, n); a.cells[lab, name, off] = (o, h, None)
                else:
                    self.put(o, off, w[1], z.sym('j%s_%d_%d' % (e.kname, lab, off)), 1); a.cells[lab, name, off] = (o, None, None)
    def put(self, o, off, sz, v, nl):
        c = o.cells.get(off)
        if c is None or c[0] != sz: self.ex.kill(o, off, sz)
        o.cells[off] = (sz, v, nl); self.wrote(o, off)
    def decided(self, op, d):
        """the outcome of an open comparison with the header's index bounds the number of iterations"""
        for a in reversed(self.act):
            e = a.ent
            if e is NOENT: continue
            if e.stage == 1 and e.E is None and isinstance(d, SInt):
                s = dict(d.t).get(e.kname)
                if s:
                    d2 = exdiv(d, abs(s))
                    if d2 is None: break
                    s = 1 if s > 0 else -1; r = d2 - self.z.sym(e.kname) * s
                    if s == 1: E = {'slt': -r, 'sle': -r + 1, 'ne': -r, 'sge': -r, 'sgt': -r + 1, 'eq': -r}.get(op)
                    else: E = {'sgt': r, 'sge': r + 1, 'ne': r, 'sle': r, 'slt': r + 1, 'eq': r}.get(op)
                    e.E = E; raise Restart()
            break
    def wrote(self, o, off, v=None, nl=1):
        self.reg.setdefault(o.id, o)
        for a in self.act:
            if a.wr is not None and o.id <= a.objs: a.wr.setdefault(o.id, {})[off] = 1
    def store_hook(self, ex, o, off, v, nl):
        v = self.value(ex, o, off, v, nl)
        if isinstance(off, int): self.wrote(o, off, v, nl)
        return v
    def value(self, ex, o, off, v, nl): return v
    def changed(self, a):
        """cells written since the header that still exist: {(label, name): {off: kind}}"""
        out = {}
        for oid, offs in a.wr.items():
            o = self.reg[oid]
            if o.freed or o.heap and not any(x is o for x in self.ex.heap): continue
            for off in offs:
                c = o.cells.get(off)
                if c is None: continue
                k = ('v', c[2]) if c[2] > 1 else ('r',) if isinstance(c[1], T.Node) or c[0] == 8 and c[1] == 0 else ('i', c[0])
                if isinstance(c[1], (Ptr, FnPtr)): raise Unsupported('loop-carried pointer in memory')
                out.setdefault((oid - self.base, o.name), {})[off] = k
        return out
    def again(self, a, R, cf):
        z = self.z; e = a.ent; ex = self.ex
        if e is NOENT:
            return
        if e.stage == 0:
            for p in a.l.phis:
                v0 = a.entry[p]; v1 = R[cf.reg[p]]
                if isinstance(v0, (int, SInt)) and isinstance(v1, (int, SInt)): d = z.norm(v1 - v0)
                elif isinstance(v0, Ptr) and isinstance(v1, Ptr) and v0.obj is v1.obj: d = z.norm(v1.off - v0.off)
                elif isinstance(v0, T.Node): d = 0 if v0 is v1 else 1
                else: d = 0 if v0 is v1 else None
                if not isinstance(d, int): raise Unsupported('loop-carried value without a constant stride')
                e.strides[p] = d
            self.mergeW(a, e)
            for kk in list(self.tab):
                if a.key in kk: del self.tab[kk]
            self.slot = {}
            e.stage = 1; raise Restart()
        # the end of an arbitrary iteration
        k1 = a.k + 1
        if e.E is None: raise Unsupported('no bound on the number of iterations')
        z.prove('sge', e.E, k1, 'loop', 'the loop may run past its end', ex.where())
        for p in a.l.phis:
            v0 = a.entry[p]; v1 = R[cf.reg[p]]; s = e.strides.get(p, 0)
            if isinstance(v0, (int, SInt)):
                if not isinstance(v1, (int, SInt)): raise Unsupported('loop-carried value changes its kind')
                if z.norm(v0 + k1 * s - v1) != 0 and not z.holds('eq', v0 + k1 * s, v1): raise Unsupported('loop-carried value without a constant stride')
            elif isinstance(v0, Ptr):
                if v1.obj is not v0.obj or z.norm(v0.off + k1 * s - v1.off) != 0: raise Unsupported('loop-carried pointer without a constant stride')
            elif isinstance(v0, T.Node):
                if not s and v0 is not v1: e.strides[p] = 1; raise Restart()
            elif v0 is not v1: raise Unsupported('loop-carried %r' % (v0,))
        if self.mergeW(a, e):
            e.stage = 1; raise Restart()
        ids = {h.id for _, h, _ in a.cells.values() if h is not None and h.op == 'v'} | {h.id for h in a.phis.values()}
        for _, h, _ in a.cells.values():
            if h is not None and h.op == 'vec': ids |= {x.id for x in h.args}
        memo = {}; acc = {}
        todo = [(c, h, o.cells.get(c[2])) for c, (o, h, old) in a.cells.items() if h is not None and h.op == 'v'] + [(p, h, (8, R[cf.reg[p]], 1)) for p, h in a.phis.items()]
        for c, h, cell in todo:
            v = cell[1] if cell is not None and cell[2] == 1 else None
            if v is None: acc[c] = None; continue
            if v == 0 and isinstance(v, int): v = T.ZERO
            if not isinstance(v, T.Node): acc[c] = None; continue
            if v is h: acc[c] = T.ZERO; continue
            if not mentions(v, ids, memo): acc[c] = None; continue
            t = replace(v, {h.id: T.ZERO}, {})
            if mentions(t, ids, memo): raise Unsupported('a value that depends on earlier iterations')
            if not T.equal(v, T.add(h, t)): raise Unsupported('a value that is not increased')
            acc[c] = t
        if e.stage == 1:
            e.acc = acc; e.stage = 2; e.models = [z.model(z3.BoolVal(True))]; raise Restart()
        for c, t in acc.items():
            self.nobl['sum'] = self.nobl.get('sum', 0) + 1; t0 = e.acc.get(c)
            if (t is None) != (t0 is None) or t is not None and t is not t0 and not T.equal(t, t0):
                u = UFail('sum', 'iterations of one loop add different things', ex.where(), z.model(z3.BoolVal(True))); u.models = e.models
                raise u
        raise StopPath()
    def mergeW(self, a, e):
        ch = False
        for lab, offs in self.changed(a).items():
            w = e.W.setdefault(lab, {})
            for off, k in offs.items():
                if w.get(off) is None:
                    # overlapping cells of another kind
                    w[off] = k; ch = True
                elif w[off] != k and not (k[0] == 'i' or w[off][0] == 'i'):
                    w[off] = k; ch = True
        if ch:
            e.rounds += 1
            if e.rounds > 6: raise Unsupported('the written memory keeps growing')
        return ch
    def leave(self, a, prev, R, cf):
        e = a.ent
        if e is NOENT: return
        if e.stage == 0: self.early = True; raise StopPath()
        z = self.z
        if e.stage == 1: raise StopPath()
        if prev != a.l.idx: raise Unsupported('leaves a loop from its middle')
        self.nobl['loop'] = self.nobl.get('loop', 0) + 1
        if not z.holds('sge', a.k, e.E): raise UFail('loop', 'a loop ends early', self.ex.where(), z.model(z.z(a.k) < z.z(e.E)))
        z.eq(a.k, e.E); z.subst[e.kname] = e.E
        m = {}
        for c, (o, h, old) in a.cells.items():
            if h is None or h.op != 'v': continue
            t = e.acc.get(c)
            if t is None: continue
            cell = o.cells.get(c[2])
            if t is T.ZERO: new = old
            else:
                if old is None or not isinstance(old, (T.Node, int)): continue
                new = T.add(old if isinstance(old, T.Node) else T.ZERO, self.sum(e.kname, e.E, t)) if old is not UNDEF else UNDEF
            if new is None: continue
            if cell is not None and cell[1] is h: self.put(o, c[2], 8, new, 1)
            if isinstance(new, T.Node): m[h.id] = new
        for p, h in a.phis.items():
            t = e.acc.get(p)
            if t is None: continue
            m[h.id] = T.add(a.entry[p], self.sum(e.kname, e.E, t))
        if a.phis:
            memo = {}
            for j, v in enumerate(R):
                if isinstance(v, T.Node) and v.op != 'vec': R[j] = replace(v, m, memo)
    # ---------------------------------------------------------------- sums
    def sum(self, k, E, t):
        """the sum of t over 0 <= k < E, as a combination of atoms"""
        t0 = t; ids = {i for i in self.sums}
        memo = {}
        if t is T.ZERO: return T.ZERO
        if not mentions(t, ids, memo): return self.sumatom(frozenset([(k, repr(self.z.norm(E)))]), t)
        used = [i for i in ids if mentions(t, {i}, {})]
        zero = {i: T.ZERO for i in used}
        rest = replace(t, zero, {}); r = T.ZERO; back = rest
        for i in used:
            d = dict(zero); d[i] = T.ONE
            c = T.sub(replace(t, d, {}), rest); b, s, at = self.sums[i]
            back = T.add(back, T.mul(c, at))
            if any(n == k for n, _ in b): raise Unsupported('nested sums over one index')
            r = T.add(r, self.sumatom(b | {(k, repr(self.z.norm(E)))}, T.mul(c, s)))
        if not T.equal(back, t): raise Unsupported('a product of sums')
        if not T.equal(rest, T.ZERO): r = T.add(r, self.sumatom(frozenset([(k, repr(self.z.norm(E)))]), rest))
        return r
    def sumatom(self, b, s):
        if s is T.ZERO or T.equal(s, T.ZERO): return T.ZERO
        for s2, at in self.sumtab.get(b, ()):
            if T.equal(s, s2) or scen.approx_equal(s, s2): return at
        at = T.var(('SUM', len(self.sums), tuple(sorted(b)))); self.sums[at.id] = (b, s, at); self.sumtab.setdefault(b, []).append((s, at))
        return at
    # ---------------------------------------------------------------- symbolic memory
    def index(self, off, es): return exdiv(self.z.norm(off), es)
    def probing(self): return any(a.ent is not NOENT and a.ent.stage == 0 for a in self.act)
    def load_sym(self, ex, o, off, t, sz): raise Unsupported('read of %s at a symbolic offset' % o.name)
    def store_sym(self, ex, o, off, t, v, sz, nl): raise Unsupported('write of %s at a symbolic offset' % o.name)

class _No:
    stage = 9; kname = ''
NOENT = _No()

# ------------------------------------------------------------------ one-electron integrals
class OneE(Ind):
    """overlap, kinetic energy or attraction integrals of two shells: any numbers of primitives (and charges)"""
    def __init__(self, variant, kind, fn, oei, extra=()):
        Ind.__init__(self, variant); self.kind = kind; self.fn = '@' + fn; self.mk = oei; self.extra = extra
    def setup(self):
        self.oei = self.mk(); self.A = self.oei.A; self.B = self.oei.B; self.L = layout.get(self.variant)['L']; self.lay = layout.get(self.variant)
    def load(self, ex):
        for r in self.extra: ex.load_rel(r)
        if self.kind == 'V': ex.contracts['@boys_F_split'] = lambda ex, args: self.oei.boys(ex, args, self.L)
    def value(self, ex, o, off, v, nl): return self.oei.hook(ex, o, off, v, nl)
    def arr(self, tag, f, n, atom):
        a = Obj(tag + '.' + f, n * 8, 16, ro=True)
        def rd(ex, off, t, sz):
            if t[0] != 'double': return None
            i = self.index(off, 8)
            if i is None: raise Unsupported('read inside an element')
            if isinstance(i, int):
                if i == 0 and (self.probing() or tag not in self.slot): return atom
                return T.var((f + '@', tag, i))
            k = repr(i)
            if tag not in self.slot and len(i.t) == 1 and i.c == 0 and i.t[0][1] == 1 and k.startswith('k'): self.slot[tag] = k
            return atom if self.slot.get(tag) == k else T.var((f + '@', tag, k))
        a.reader = rd
        return Ptr(a, 0)
    def shell(self, tag, S, n):
        lay, size = self.lay['simint_shell']; o = Obj(tag, size, 8, ro=True)
        def put(f, sz, v): o.cells[lay[f]] = (sz, v, 1)
        put('am', 4, S.am); put('nprim', 4, n)
        for d in range(3): put('xyz'[d], 8, S.X(d))
        put('alpha', 8, self.arr(tag, 'alpha', n, S.al(0))); put('coef', 8, self.arr(tag, 'coef', n, S.co(0)))
        return Ptr(o, 0)
    def args(self, ex):
        z = self.z; n1, n2 = z.sym('n1'), z.sym('n2')
        for n in (n1, n2): z.ge(n, 1); z.ge(1 << 24, n)
        self.bound = {'A': n1, 'B': n2}
        a = []
        if self.kind == 'V':
            nc = z.sym('nc'); z.ge(nc, 0); z.ge(1 << 24, nc); self.bound['C'] = nc; Z_, X = self.oei.centers[0]
            a = [nc, self.arr('C', 'Z', nc, Z_)] + [self.arr('C', 'xyz'[d], nc, X[d]) for d in range(3)]
        ca, cb = (self.A.am + 1) * (self.A.am + 2) // 2, (self.B.am + 1) * (self.B.am + 2) // 2
        self.out = Obj('out', 8 * ca * cb, 16); self.reg[self.out.id] = self.out
        return a + [self.shell('A', self.A, n1), self.shell('B', self.B, n2), Ptr(self.out, 0)]
    def finish(self, ex, r):
        from .oei import carts
        k = 0
        b = frozenset((self.slot.get(t, '?'), repr(self.z.norm(n))) for t, n in self.bound.items())
        for a in carts(self.A.am):
            for c in carts(self.B.am):
                w = self.sumatom(b, self.oei.terms(a, c, 0)[0]); cell = self.out.cells.get(8 * k)
                self.nobl['out'] = self.nobl.get('out', 0) + 1
                v = cell[1] if cell is not None else None
                if isinstance(v, int) and v == 0: v = T.ZERO
                if not isinstance(v, T.Node) or not T.equal(v, w): raise UFail('output', 'integral %d is %s, not the sum over all primitives' % (k, T.show(v, 3) if isinstance(v, T.Node) else v), '', self.z.model(z3.BoolVal(True)))
                k += 1
