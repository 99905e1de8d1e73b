"""Contracts of the allocating functions for all sizes: whatever block the object holds, afterwards it holds one that is
large enough, its fields lie inside it without overlap, `memsize` says how large it is, and a replaced block was freed."""
import z3
from . import layout, unb, terms as T
from .unb import *
from .ind import Ind, IZ
from .execu import *

class AZ(IZ):
    def memcpy_sym(self, ex, d, s, n):
        k = self.k
        for p, w in ((s, 'read'), (d, 'write')): ex.ck(p.obj, p.off, n, w)
        if d.obj.ro: raise Violation('frame', 'memcpy to read-only object ' + d.obj.name, ex.where())
        if d.obj is s.obj: raise Violation('alias', 'memcpy inside one object', ex.where())
        k.copies.append((d.obj, d.off, s.obj, s.off, n))

class Alloc(Ind):
    ZC = AZ
    def __init__(self, variant, fn):
        Ind.__init__(self, variant); self.fn = fn
    def setup(self): self.lay = layout.get(self.variant); self.L = self.lay['L']
    def load(self, ex):
        ex.load_rel('simint/shell/shell.c')
        r = ex.resolve
        mod = next((m for m in ex.modules if self.fn in m.funcs), None)
        if mod is None: raise Unsupported('there is no function ' + self.fn[1:])
        ex.resolve = lambda n: mod.funcs[n] if n == self.fn else r(n)
    def struct(self, ex, st, tag, size_sym, blk=True):
        """an object in any state that earlier calls can leave it in: nothing allocated, or a block of some size"""
        lay, size = self.lay[st]; o = Obj(tag, size, 8)
        o.cells[lay['memsize']] = (8, 0, 1); o.cells[lay['ptr']] = (8, NULL, 1)
        if blk and ex.choose(2, 'state') == 1:
            b = Obj(tag + ' block', size_sym, 64); b.heap = True; ex.heap.append(b)
            o.cells[lay['memsize']] = (8, size_sym, 1); o.cells[lay['ptr']] = (8, Ptr(b, 0), 1)
        self.reg[o.id] = o
        return o
    def field(self, o, st, f):
        c = o.cells.get(self.lay[st][0][f])
        return c[1] if c is not None else None
    def need(self, kind, ok, msg):
        self.nobl[kind] = self.nobl.get(kind, 0) + 1
        if not ok: raise UFail(kind, msg, '', self.z.model(z3.BoolVal(True)))
    def must(self, kind, e, msg):
        """a linear fact about the sizes"""
        self.nobl[kind] = self.nobl.get(kind, 0) + 1
        s = z3.Solver(); s.set('timeout', 20000); s.add(*self.z.facts); s.add(z3.Not(e)); r = s.check()
        if r == z3.unknown: raise Unsupported('the integer solver gave up')
        if r == z3.sat: raise UFail(kind, msg, '', self.z.model(z3.Not(e)))
    def block(self, ex, o, st):
        p = self.field(o, st, 'ptr')
        self.need('block', isinstance(p, Ptr) and p.obj is not None and p.obj.heap and not p.obj.freed and p.off == 0, 'ptr is not a live block')
        self.must('memsize', self.z.z(self.field(o, st, 'memsize')) == self.z.z(p.obj.size), 'memsize is not the size of the block')
        p.obj.freed = True          # still held by the object
        return p.obj
    def inside(self, o, st, b, fs):
        z = self.z; iv = []
        for f, n in fs:
            p = self.field(o, st, f)
            self.need('field', isinstance(p, Ptr) and p.obj is b, '%s does not point into the block' % f)
            lo, hi = z.z(p.off), z.z(p.off + n)
            self.must('field', z3.And(lo >= 0, hi <= z.z(b.size)), '%s is not inside the block' % f)
            for g, l2, h2 in iv: self.must('separate', z3.Or(hi <= l2, h2 <= lo), '%s and %s overlap' % (g, f))
            iv.append((f, lo, hi))
        return iv

class PairAlloc(Alloc):
    """simint_allocate_multi_shellpair_base(npair, nprim, P, screen_method)"""
    small = ('npair', 'npair0', 'q', 'q0')
    def __init__(self, variant, screen): Alloc.__init__(self, variant, '@simint_allocate_multi_shellpair_base'); self.screen = screen
    def args(self, ex):
        z = self.z; L, NS, d = self.L, self.lay['NS'], self.lay['SIMINT_OSTEI_MAXDER']
        npair, q, np0, q0, k = (z.sym(n) for n in ('npair', 'q', 'npair0', 'q0', 'narr0'))
        for n, t in ((npair, q), (np0, q0)):
            z.ge(n, 1); z.ge(1 << 24, n); z.ge(t, 1); z.ge((1 << 27) // L, t); z.ge(t * NS, n)
        self.copies = []
        self.n, self.p = npair, q * L
        s0 = ex.choose(2, 'screened before')
        size0 = q0 * (L * 8 * (11 + s0 + 2 * (d > 0))) + np0 * 28
        self.P = self.struct(ex, 'simint_multi_shellpair', 'P', size0)
        return [npair, self.p, Ptr(self.P, 0), self.screen]
    def finish(self, ex, r):
        st = 'simint_multi_shellpair'; z = self.z; b = self.block(ex, self.P, st)
        prim = ['x', 'y', 'z', 'PA_x', 'PA_y', 'PA_z', 'PB_x', 'PB_y', 'PB_z', 'alpha', 'prefac'] + (['screen'] if self.screen else []) + (['alpha2', 'beta2'] if self.lay['SIMINT_OSTEI_MAXDER'] > 0 else [])
        iv = self.inside(self.P, st, b, [(f, self.p * 8) for f in prim] + [(f, self.n * 8) for f in ('AB_x', 'AB_y', 'AB_z')] + [('nprim12', self.n * 4)])
        for f, lo, hi in iv:
            a = 8 * self.L if f in prim else 8 if f != 'nprim12' else 4
            self.must('alignment', lo % a == 0, '%s is not aligned to %d bytes' % (f, a))
        al = b.align if isinstance(b.align, int) else 1
        self.need('alignment', al % (8 * self.L) == 0 or al >= 8 * self.L, 'the block is not aligned for the vector unit')
        if not self.screen:
            p = self.field(self.P, st, 'screen'); self.need('screen', isinstance(p, Ptr) and p.obj is None, 'screen is not NULL')

class ShellAlloc(Alloc):
    """simint_allocate_shell, simint_create_shell and simint_copy_shell for any number of primitives"""
    small = ('n', 'n0')
    def __init__(self, variant, what): Alloc.__init__(self, variant, '@simint_%s_shell' % what); self.what = what
    def args(self, ex):
        z = self.z; n, n0 = z.sym('n'), z.sym('n0'); self.n = n; self.copies = []
        for t in (n, n0): z.ge(t, 1); z.ge(1 << 24, t)
        G = self.G = self.struct(ex, 'simint_shell', 'G', n0 * 16)
        if self.what == 'allocate': return [n, Ptr(G, 0)]
        self.xyz = [T.var(('X', 's', d)) for d in range(3)]; self.am = z.sym('am'); z.ge(self.am, 0); z.ge(30, self.am)
        self.src = Obj('alpha', n * 8, 8, ro=True), Obj('coef', n * 8, 8, ro=True)
        if self.what == 'create': return [n, self.am] + self.xyz + [Ptr(o, 0) for o in self.src] + [Ptr(G, 0)]
        lay, size = self.lay['simint_shell']; S = Obj('S', size, 8, ro=True)
        for f, sz, v in (('am', 4, self.am), ('nprim', 4, n), ('alpha', 8, Ptr(self.src[0], 0)), ('coef', 8, Ptr(self.src[1], 0))): S.cells[lay[f]] = (sz, v, 1)
        for d in range(3): S.cells[lay['xyz'[d]]] = (8, self.xyz[d], 1)
        return [Ptr(S, 0), Ptr(G, 0)]
    def finish(self, ex, r):
        st = 'simint_shell'; z = self.z; G = self.G; b = self.block(ex, G, st)
        self.inside(G, st, b, [('alpha', self.n * 8), ('coef', self.n * 8)])
        if self.what == 'allocate': self.need('frame', not self.copies, 'something is copied'); return
        for f, v in (('nprim', self.n), ('am', self.am)):
            x = self.field(G, st, f); self.need('value', isinstance(x, (int, SInt)) and z.norm(x - v) == 0, f + ' is not that of the source')
        for d in range(3): self.need('value', self.field(G, st, 'xyz'[d]) is self.xyz[d], 'a coordinate is not that of the source')
        self.need('frame', len(self.copies) == 2, 'not exactly the two arrays are copied')
        for f, src in zip(('alpha', 'coef'), self.src):
            p = self.field(G, st, f)
            ok = [c for c in self.copies if c[0] is b and z.norm(c[1] - p.off) == 0 and c[2] is src and z.norm(c[3]) == 0 and z.norm(c[4] - self.n * 8) == 0]
            self.need('value', len(ok) == 1, '%s is not copied whole' % f)
