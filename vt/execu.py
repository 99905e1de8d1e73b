"""Symbolic executor for LLVM IR (the verification-condition generator).

Every memory access, integer overflow (nsw), alignment and lifetime is an obligation that is
checked where it arises; values of doubles are terms over the symbolic inputs.
"""
from fractions import Fraction
import re
from . import terms as T
from .irparse import body, BIN, FBIN, CAST
from .sint import SInt, SBool, sadd, smul, mkint

class Violation(Exception):
    """an obligation generated from the code failed"""
    def __init__(self, kind, msg, where=''):
        super().__init__(kind + ': ' + msg + (' @ ' + where if where else ''))
        self.kind = kind; self.msg = msg; self.where = where
class Unsupported(Exception): pass
class Infeasible(Exception): pass
class StopPath(Exception): pass

class Obj:
    __slots__ = ('name','size','cells','ro','align','freed','heap','reader','sym','writer','id','fill','meta')
    _n = 0
    def __init__(self, name, size, align=16, ro=False, reader=None):
        self.name = name; self.size = size; self.cells = {}; self.ro = ro; self.align = align
        self.freed = False; self.heap = False; self.reader = reader; self.sym = None; self.writer = None
        Obj._n += 1; self.id = Obj._n; self.fill = None; self.meta = None
    def __repr__(self): return 'Obj(%s)' % self.name

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off=0): self.obj = obj; self.off = off
    def __repr__(self): return 'Ptr(%s+%s)' % (self.obj.name if self.obj else None, self.off)
NULL = Ptr(None, 0)
class FnPtr:
    __slots__ = ('name',)
    def __init__(self, n): self.name = n
    def __repr__(self): return 'Fn(%s)' % self.name

class FBool:
    """truth value of a comparison of real terms"""
    __slots__ = ('op', 'a', 'b', 'pos')
    def __init__(self, op, a, b, pos=True): self.op = op; self.a = a; self.b = b; self.pos = pos
    def key(self): return (self.op, self.a.id, self.b.id)
    def __repr__(self): return '%s(%s %s %s)' % ('' if self.pos else 'not ', T.show(self.a, 3), self.op, T.show(self.b, 3))

UNDEF = T.var('undef')
STACK_LIMIT = 7 << 20
class Undef:
    def __repr__(self): return 'undef'
UNDEFI = Undef()

def undef_for(t):
    if t[0] == 'double' or t[0] == 'float': return T.var('undef')
    if t[0] == 'vec':
        if t[2][0] in ('double',): return T.vec([T.var('undef')] * t[1])
        return tuple([UNDEFI] * t[1])
    return UNDEFI

def wrap(v, n):
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v

class Exec:
    def __init__(self, modules, contracts=None, limit=50_000_000):
        self.modules = modules
        self.syms = {}
        for m in modules:
            for f in m.funcs.values():
                if not f.declared and not f.internal: self.syms[f.name] = f
        self.gobj = {}
        self.contracts = contracts or {}
        self.pc = []            # path condition: list of (kind, data)
        self.fdec = {}          # decided real comparisons on this path
        self.oracle = []; self.opos = 0
        self.count = 0; self.limit = limit
        self.stack = []
        self.hooks = {}
        self.store_hook = None
        self.checks = 0         # memory/overflow obligations discharged
        self.solver = None      # integer solver (sint.Ctx) when symbolic integers are in play
        self.fresh = 0
        self.heap = []
        self.force_real = None  # hook(FBool) -> True/False/None

    # ------------------------------------------------------------ decisions
    def choose(self, n, label=''):
        """nondeterministic choice explored exhaustively by run_all"""
        if self.opos < len(self.oracle):
            c = self.oracle[self.opos][0]
        else:
            self.oracle.append([0, n]); c = 0
        self.opos += 1
        return c

    def truth(self, v):
        if v is True or v is False: return v
        if isinstance(v, int): return v != 0
        if isinstance(v, FBool): return self.decide_real(v)
        if isinstance(v, SBool):
            return self.solver.decide(self, v)
        if v is UNDEFI: raise Violation('uninitialised', 'branch on an undefined value', self.where())
        raise Unsupported('truth of %r' % (v,))

    def decide_real(self, fb):
        a, b = fb.a, fb.b
        if 'undef' in (a.args, b.args) : raise Violation('uninitialised', 'branch on undefined real', self.where())
        if a.op == 'c' and b.op == 'c':
            r = fcmp_const(fb.op, a.args, b.args)
        else:
            r = None
            if self.force_real: r = self.force_real(self, fb)
            if r is None:
                k = fb.key()
                r = self.fdec.get(k)
                if r is None:
                    # complementary form
                    comp = {'olt': 'oge', 'oge': 'olt', 'ogt': 'ole', 'ole': 'ogt', 'oeq': 'une', 'une': 'oeq', 'ult':'uge','uge':'ult'}.get(fb.op)
                    swp = {'olt': 'ogt', 'ogt': 'olt', 'ole': 'oge', 'oge': 'ole', 'oeq': 'oeq', 'une': 'une'}.get(fb.op)
                    r = self.fdec.get((swp, b.id, a.id)) if swp else None
                    if r is None and comp:
                        r2 = self.fdec.get((comp, a.id, b.id))
                        if r2 is None:
                            swc = {'olt': 'ogt', 'ogt': 'olt', 'ole': 'oge', 'oge': 'ole', 'oeq': 'oeq', 'une': 'une'}.get(comp)
                            r2 = self.fdec.get((swc, b.id, a.id))
                        if r2 is not None: r = not r2
                if r is None:
                    r = self.choose(2, 'real') == 0
                    self.fdec[k] = r
                    self.pc.append(('real', fb.op, a, b, r))
        return r if fb.pos else not r

    # ------------------------------------------------------------ memory
    def alloc(self, name, size, align=16, **kw):
        return Obj(name, size, align, **kw)

    def where(self):
        if not self.stack: return ''
        f, t = self.stack[-1]
        return f + ': ' + t[0] if t[0] else f

    def ck(self, o, off, sz, what, p=None):
        self.checks += 1
        if o is None: raise Violation('null', what + ' through a null pointer', self.where())
        if o.freed: raise Violation('lifetime', what + ' of freed object ' + o.name, self.where())
        if isinstance(off, int) and isinstance(o.size, int):
            if off < 0 or off + sz > o.size:
                raise Violation('bounds', '%s at [%d,%d) outside %s[0,%d)' % (what, off, off + sz, o.name, o.size), self.where())
        else:
            self.solver.require(self, (off, sz, o.size), what, o)

    def load(self, p, t, sz, al):
        if not isinstance(p, Ptr): raise Violation('pointer', 'load through %r' % (p,), self.where())
        o = p.obj; off = p.off
        self.ck(o, off, sz, 'read')
        if al > 8 or sz > 8:
            if isinstance(off, int):
                if off % al or o.align % al: raise Violation('alignment', 'read of %s+%d needs alignment %d' % (o.name, off, al), self.where())
            else: self.solver.require_div(self, off, al, o)
        if not isinstance(off, int): return self.load_sym(o, off, t, sz)
        c = o.cells.get(off)
        if c is not None and c[0] == sz and (t[0] != 'vec') == (c[2] == 1):
            v = c[1]
            if v is not None: return self.retype(v, t)
        return self.load_slow(o, off, t, sz)

    def retype(self, v, t):
        k = t[0]
        if k == 'double':
            if isinstance(v, T.Node): return v
            if v == 0 and isinstance(v, int): return T.ZERO
            if v is UNDEFI: return UNDEF
        elif k == 'i':
            if isinstance(v, (int, SInt)): return v
            if v is T.ZERO: return 0
            if v is UNDEFI: return v
            if v is NULL: return 0
        elif k == 'ptr':
            if isinstance(v, (Ptr, FnPtr)): return v
            if isinstance(v, int) and v == 0: return NULL
            if v is UNDEFI: return v
        elif k == 'vec': return v
        if isinstance(v, T.Node) and v is UNDEF: return UNDEFI
        raise Unsupported('reinterpretation of %r as %r' % (v, t))

    def load_slow(self, o, off, t, sz):
        k = t[0]
        if k == 'vec':
            es = sz // t[1]; et = t[2]
            if o.reader is not None and not o.cells:
                v = o.reader(self, off, t, sz)
                if v is not None: return v
            cs = [self.load_slow(o, off + i * es, et, es) for i in range(t[1])]
            if et[0] == 'double': return T.vec(cs)
            return tuple(cs)
        c = o.cells.get(off)
        if c is not None:
            if c[0] == sz and c[2] == 1: return self.retype(c[1], t)
            if c[2] > 1 and c[0] // c[2] == sz:
                return T.lane(c[1], 0) if isinstance(c[1], T.Node) else c[1][0]
            if c[2] == 1 and c[0] > sz and (c[1] is T.ZERO or c[1] == 0 or c[1] is NULL): return self.retype(0, t)
            if c[2] == 1 and c[0] < sz:
                # assemble from zero pieces
                o2 = off; ok = True
                while o2 < off + sz:
                    c2 = o.cells.get(o2)
                    if c2 is None or not (c2[1] is T.ZERO or (isinstance(c2[1], int) and c2[1] == 0) or c2[1] is NULL): ok = False; break
                    o2 += c2[0]
                if ok: return self.retype(0, t)
                if t[0] == 'double' and all(self._undef_at(o, off + q) for q in range(0, sz, 4)): return UNDEF
                # two i32 as i64
                if t == ('i', 64):
                    lo = o.cells.get(off); hi = o.cells.get(off + 4)
                    if lo and hi and lo[0] == 4 and hi[0] == 4 and isinstance(lo[1], int) and isinstance(hi[1], int):
                        return wrap((lo[1] & 0xffffffff) | (hi[1] << 32), 64)
        else:
            # inside a vector cell?
            for back in range(8, self.maxcell, 8):
                c = o.cells.get(off - back)
                if c is not None:
                    if c[0] > back and c[2] > 1:
                        es = c[0] // c[2]
                        if back % es == 0 and es == sz:
                            return T.lane(c[1], back // es) if isinstance(c[1], T.Node) else c[1][back // es]
                        if isinstance(c[1], T.Node) and c[1] is T.ZERO: return self.retype(0, t)
                    break
            if off % 8 == 4:
                c = o.cells.get(off - 4)
                if c is not None and c[0] == 8:
                    if c[1] is T.ZERO or (isinstance(c[1], int) and c[1] == 0): return self.retype(0, t)
                    if isinstance(c[1], int) and sz == 4: return wrap(c[1] >> 32, 32)
            if o.reader is not None:
                v = o.reader(self, off, t, sz)
                if v is not None: return v
            if o.fill is not None: return self.retype(o.fill, t)
            return undef_for(t)
        if o.reader is not None:
            v = o.reader(self, off, t, sz)
            if v is not None: return v
        raise Unsupported('mixed-size read at %s+%d size %d of %r' % (o.name, off, sz, c))
    def _undef_at(self, o, off): return o.cells.get(off) is None

    def kill(self, o, off, sz):
        """remove cells overlapping [off,off+sz), splitting vector cells"""
        cells = o.cells
        for a in range(off - self.maxcell + 8, off, 4):
            c = cells.get(a)
            if c is not None and a + c[0] > off:
                if c[2] > 1:
                    es = c[0] // c[2]
                    del cells[a]
                    for i in range(c[2]):
                        b = a + i * es
                        if b + es <= off or b >= off + sz:
                            cells[b] = (es, T.lane(c[1], i) if isinstance(c[1], T.Node) else c[1][i], 1)
                elif (c[1] is T.ZERO or (isinstance(c[1], int) and c[1] == 0)):
                    del cells[a]
                    for b in range(a, a + c[0], 4):
                        if b + 4 <= off or b >= off + sz: cells[b] = (4, 0, 1)
                else:
                    # the bytes that stay are part of a value that no longer exists
                    del cells[a]
                    for b in range(a, a + c[0], 4):
                        if b + 4 <= off or b >= off + sz: cells[b] = (4, UNDEFI, 1)
        for a in range(off, off + sz, 4):
            c = cells.get(a)
            if c is not None:
                if a + c[0] > off + sz:
                    if c[2] > 1:
                        es = c[0] // c[2]
                        del cells[a]
                        for i in range(c[2]):
                            b = a + i * es
                            if b >= off + sz: cells[b] = (es, T.lane(c[1], i) if isinstance(c[1], T.Node) else c[1][i], 1)
                    elif (c[1] is T.ZERO or (isinstance(c[1], int) and c[1] == 0)):
                        del cells[a]
                        for b in range(a, a + c[0], 4):
                            if b >= off + sz: cells[b] = (4, 0, 1)
                    else:
                        del cells[a]
                        for b in range(a, a + c[0], 4):
                            if b >= off + sz: cells[b] = (4, UNDEFI, 1)
                else: del cells[a]

    def store(self, p, t, v, sz, al):
        if not isinstance(p, Ptr): raise Violation('pointer', 'store through %r' % (p,), self.where())
        o = p.obj; off = p.off
        self.ck(o, off, sz, 'write')
        if o.ro: raise Violation('frame', 'write to read-only object %s+%s' % (o.name, off), self.where())
        if al > 8 or sz > 8:
            if isinstance(off, int):
                if off % al or o.align % al: raise Violation('alignment', 'write of %s+%d needs alignment %d' % (o.name, off, al), self.where())
            else: self.solver.require_div(self, off, al, o)
        nl = t[1] if t[0] == 'vec' else 1
        if self.store_hook is not None:
            v = self.store_hook(self, o, off, v, nl)
        if not isinstance(off, int): return self.store_sym(o, off, t, v, sz, nl)
        cells = o.cells
        c = cells.get(off)
        if c is None or c[0] != sz:
            self.kill(o, off, sz)
        cells[off] = (sz, v, nl)

    def load_sym(self, o, off, t, sz):
        if o.reader is not None:
            v = o.reader(self, off, t, sz)
            if v is not None: return v
        return self.solver.load_sym(self, o, off, t, sz)
    def store_sym(self, o, off, t, v, sz, nl):
        return self.solver.store_sym(self, o, off, t, v, sz, nl)

    def memset(self, p, byte, n):
        if isinstance(n, SInt): return self.solver.memset_sym(self, p, byte, n)
        if n == 0: return
        if n < 0: raise Violation('bounds', 'memset with negative size', self.where())
        o = p.obj; off = p.off
        self.ck(o, off, n, 'write')
        if o.ro: raise Violation('frame', 'memset of read-only object ' + o.name, self.where())
        if byte != 0: raise Unsupported('memset nonzero')
        if not isinstance(off, int): return self.solver.memset_sym(self, p, byte, n)
        cells = o.cells
        a = off
        self.kill_range(o, off, n)
        while a < off + n:
            if a % 8 == 0 and a + 8 <= off + n: cells[a] = (8, T.ZERO, 1); a += 8
            else: cells[a] = (4, 0, 1); a += 4
    def kill_range(self, o, off, n):
        cells = o.cells
        if n <= 256:
            self.kill(o, off, n); return
        self.kill(o, off, 64)
        self.kill(o, off + n - 64, 64)
        for a in [a for a in cells if off <= a < off + n]: del cells[a]

    def memcpy(self, d, s, n):
        if isinstance(n, SInt): return self.solver.memcpy_sym(self, d, s, n)
        if n == 0: return
        if n < 0: raise Violation('bounds', 'memcpy with negative size %d' % n, self.where())
        self.ck(s.obj, s.off, n, 'read'); self.ck(d.obj, d.off, n, 'write')
        if d.obj.ro: raise Violation('frame', 'memcpy to read-only object ' + d.obj.name, self.where())
        if not (isinstance(s.off, int) and isinstance(d.off, int)): return self.solver.memcpy_sym(self, d, s, n)
        items = []
        so = s.obj
        a = s.off; end = s.off + n
        while a < end:
            c = so.cells.get(a)
            if c is not None and a + c[0] <= end:
                items.append((a - s.off, c)); a += c[0]
            elif c is None and so.reader is not None and a + 8 <= end:
                v = so.reader(self, a, ('double',), 8)
                if v is None: a += 4; continue
                items.append((a - s.off, (8, v, 1))); a += 8
            elif c is None: a += 4
            else: raise Unsupported('memcpy splits a cell')
        self.kill_range(d.obj, d.off, n)
        for a, c in items:
            v = c[1]
            if self.store_hook is not None: v = self.store_hook(self, d.obj, d.off + a, v, c[2])
            d.obj.cells[d.off + a] = (c[0], v, c[2])

    # ------------------------------------------------------------ globals
    def gptr(self, mod, name):
        # function?
        if name in mod.funcs or name in self.syms:
            if name not in mod.globals: return FnPtr(name)
        key = (id(mod), name)
        L = mod.globals.get(name)
        if L is None: raise Unsupported('unknown global ' + name)
        if re.search(r'=\s.*\bexternal\b', L[:200]):
            for m in self.modules:
                L2 = m.globals.get(name)
                if L2 is not None and not re.search(r'=\s.*\bexternal\b', L2[:200]): return self.gptr(m, name)
            if not re.search(r'\b(internal|private)\b', L[:80]): key = name
        if not re.search(r'\b(internal|private)\b', L[:120]): key = name
        o = self.gobj.get(key)
        if o is None:
            o = self.make_global(mod, name, L); self.gobj[key] = o
        return Ptr(o, 0)

    def make_global(self, mod, name, L):
        from .irparse import P, lex
        m = re.match(r'^(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\s*=\s*(.*)$', L)
        rest = m.group(2)
        m2 = re.match(r'(?:(?:private|internal|external|common|dso_local|unnamed_addr|local_unnamed_addr|weak|linkonce_odr|hidden|thread_local|addrspace\(\d+\))\s+)*(constant|global)\s+', rest)
        const = m2.group(1) == 'constant'
        p = P(lex(rest[m2.end():]), mod)
        t = p.type()
        ext = 'external' in rest[:m2.end()]
        val = None if ext else p.value(t)
        al = 1
        mm = re.search(r'align (\d+)', rest)
        if mm: al = int(mm.group(1))
        sz = mod.types.size(t)
        o = Obj(name, sz, al, ro=False)
        if val is not None: self.init_cells(mod, o, 0, t, val)
        o.ro = const
        return o

    def init_cells(self, mod, o, off, t, v):
        ty = mod.types; k = t[0]
        if v[0] == 'zero':
            if k in ('i', 'double', 'ptr'):
                o.cells[off] = (ty.size(t), 0 if k == 'i' else T.ZERO if k == 'double' else NULL, 1); return
            n = ty.size(t)
            if k == 'arr':
                if n > 4096: o.fill = 0; return
                es = ty.size(t[2])
                for i in range(t[1]): self.init_cells(mod, o, off + i * es, t[2], v)
                return
            if k == 'vec': o.cells[off] = (n, T.ZERO, t[1]); return
            offs, _, _ = ty.layout(t); fs, _ = ty.fields(t)
            for f, fo in zip(fs, offs): self.init_cells(mod, o, off + fo, f, v)
            return
        if v[0] == 'undef': return
        if v[0] == 'agg':
            if k == 'arr':
                es = ty.size(t[2])
                for i, (et, ev) in enumerate(v[1]): self.init_cells(mod, o, off + i * es, et, ev)
            else:
                offs, _, _ = ty.layout(t)
                for fo, (et, ev) in zip(offs, v[1]): self.init_cells(mod, o, off + fo, et, ev)
            return
        if v[0] == 'str':
            import ast as _a
            s = v[1][2:-1]; b = []; i = 0
            while i < len(s):
                if s[i] == '\\': b.append(int(s[i+1:i+3], 16)); i += 3
                else: b.append(ord(s[i])); i += 1
            for i, x in enumerate(b): o.cells[off + i] = (1, x, 1)
            return
        val = self.cval(mod, v, t)
        o.cells[off] = (ty.size(t), val, t[1] if k == 'vec' else 1)

    def cval(self, mod, v, t):
        k = v[0]
        if k == 'c':
            if t[0] in ('double', 'float'): return T.const(v[1])
            if t == ('i', 1): return bool(v[1])
            return int(v[1])
        if k == 'special': return T.var('special:%r' % v[1])
        if k == 'null': return NULL
        if k == 'undef': return undef_for(t)
        if k == 'zero':
            if t[0] == 'vec': return T.ZERO if t[2][0] == 'double' else tuple([0] * t[1])
            if t[0] == 'double': return T.ZERO
            return ('zeroagg', t)
        if k == 'vec':
            cs = [self.cval(mod, x, t[2]) for x in v[1]]
            return T.vec(cs) if t[2][0] == 'double' else tuple(cs)
        if k == 'g': return self.gptr(mod, v[1])
        if k == 'gep':
            base = self.cval(mod, v[2], ('ptr',))
            off = self.gep_off(mod, v[1], [x[1] for x in v[3]])
            return Ptr(base.obj, base.off + off)
        if k == 'cast':
            x = self.cval(mod, v[3], v[2])
            return x
        raise Unsupported('constant %r' % (v,))

    def gep_off(self, mod, bt, idx):
        ty = mod.types
        off = idx[0] * ty.size(bt); t = bt
        for i in idx[1:]:
            if t[0] in ('arr', 'vec'): t = t[2]; off += i * ty.size(t)
            else:
                offs, _, _ = ty.layout(t); fs, _ = ty.fields(t)
                off += offs[i]; t = fs[i]
        return off

    # ------------------------------------------------------------ calls
    def lookup(self, mod, name):
        f = mod.funcs.get(name)
        if f is not None and not f.declared: return f
        return self.syms.get(name)

    def call(self, name, args, mod=None, instr=None):
        h = self.contracts.get(name)
        if h is not None: return h(self, args)
        f = self.lookup(mod, name) if mod else self.syms.get(name)
        if f is not None: return self.run(f, args)
        h = BUILTINS.get(name)
        if h is not None: return h(self, args)
        if name.startswith('@llvm.'): return intrinsic(self, name, args)
        raise Unsupported('call to unknown function ' + name)

    def run(self, f, args):
        cf = f.compiled
        if cf is None: cf = f.compiled = Compiled(self, f)
        if len(self.stack) > 200: raise Unsupported('recursion too deep in ' + f.name)
        cur = [None]
        self.stack.append((f.name, cur))
        R = cf.template(self)
        for i, a in enumerate(args[:len(f.params)]):
            by = f.params[i][2]
            if by is not None:
                n = f.mod.types.size(by)
                o = Obj('byval:' + (f.params[i][1] or str(i)), n, 16)
                self.memcpy(Ptr(o, 0), a, n); a = Ptr(o, 0)
            R[cf.pidx[i]] = a
        allocas = []
        R[0] = allocas
        b = cf.entry; prev = None
        blocks = cf.blocks; hooks = self.hooks
        try:
            while True:
                phis, ops, term, bname = blocks[b]
                if phis:
                    mv = phis[prev]
                    if len(mv) == 1: R[mv[0][0]] = R[mv[0][1]]
                    else:
                        vals = [R[s] for _, s in mv]
                        for (d, _), v in zip(mv, vals): R[d] = v
                if hooks:
                    h = hooks.get((f.name, bname))
                    if h is not None: h(self, f, cf, R, prev)
                self.count += len(ops) + 1
                if self.count > self.limit: raise Unsupported('instruction budget exhausted in ' + f.name)
                for op, txt in ops:
                    cur[0] = txt
                    op(R)
                r = term(R)
                if type(r) is int: prev = b; b = r
                else:
                    for o in allocas: o.freed = True
                    return r[0]
        finally:
            self.stack.pop()

def fcmp_const(op, a, b):
    return {'olt': a < b, 'ult': a < b, 'ole': a <= b, 'ule': a <= b, 'ogt': a > b, 'ugt': a > b, 'oge': a >= b, 'uge': a >= b,
            'oeq': a == b, 'ueq': a == b, 'one': a != b, 'une': a != b, 'ord': True, 'uno': False}[op]

class Compiled:
    """a function decoded to closures over a register file; slot 0 holds the alloca list"""
    def __init__(self, ex, f):
        body(f)
        self.f = f; self.ex = ex
        self.reg = {}; self.consts = []   # (slot, val, type)
        self.n = 1
        self.pidx = []
        u = 0
        for t, n, b in f.params:
            if n is None: n = '%%%d' % u
            if re.fullmatch(r'%\d+', n): u = int(n[1:]) + 1
            self.reg[n] = self.n; self.pidx.append(self.n); self.n += 1
        if f.order and f.order[0] == '%0':
            # unnamed entry block label number is after unnamed params
            pass
        for bn in f.order:
            for dst, op, data, txt in f.blocks[bn]:
                if dst: self.reg[dst] = self.n; self.n += 1
        self.bidx = {bn: i for i, bn in enumerate(f.order)}
        self.entry = 0
        # entry label in phis for unnamed entry
        self.cslots = {}
        self.blocks = []
        self.rtconst = []
        for bn in f.order: self.blocks.append(self.block(bn))
        self._tmpl = None
        self._tmplex = None

    def template(self, ex):
        if self._tmplex is not ex or self._tmpl is None:
            R = [None] * self.n
            for slot, v, t in self.rtconst: R[slot] = ex.cval(self.f.mod, v, t)
            self._tmpl = R; self._tmplex = ex; 
        # closures use self.exbox
        self.exbox[0] = ex
        return list(self._tmpl)

    exbox = None
    def slot(self, v, t):
        if v[0] == 'r': return self.reg[v[1]]
        key = repr((v, t))
        s = self.cslots.get(key)
        if s is None:
            s = self.n; self.n += 1; self.cslots[key] = s
            self.rtconst.append((s, v, t))
        return s

    def block(self, bn):
        if self.exbox is None: self.exbox = [self.ex]
        f = self.f; ty = f.mod.types
        phis = {}; ops = []; term = None
        for dst, op, data, txt in f.blocks[bn]:
            d = self.reg[dst] if dst else None
            if op == 'phi':
                t, inc = data
                for lab, v in inc.items():
                    lb = lab if lab in self.bidx else None
                    if lb is None:
                        lb = f.order[0]
                    phis.setdefault(self.bidx[lb], []).append((d, self.slot(v, t)))
                continue
            r = self.ins(d, op, data, txt)
            if op in ('jmp', 'br', 'ret', 'switch', 'unreachable'): term = r
            elif r is not None: ops.append((r, txt))
        return (phis, ops, term, bn)

    def ins(self, d, op, data, txt):
        X = self.exbox; slot = self.slot; mod = self.f.mod; ty = mod.types
        add, mul, subn, divn = T.add, T.mul, T.sub, T.div
        if op in FBIN:
            t, a, b, fl = data; a = slot(a, t); b = slot(b, t)
            if op == 'fadd':
                def g(R): R[d] = add(R[a], R[b])
            elif op == 'fsub':
                def g(R): R[d] = subn(R[a], R[b])
            elif op == 'fmul':
                def g(R): R[d] = mul(R[a], R[b])
            elif op == 'fdiv':
                def g(R):
                    try: R[d] = divn(R[a], R[b])
                    except ZeroDivisionError as e: raise Violation('division', str(e), X[0].where())
            else: raise Unsupported(op)
            return g
        if op == 'fneg':
            t, a = data; a = slot(a, t)
            def g(R): R[d] = T.neg(R[a])
            return g
        if op in BIN:
            t, a, b, fl = data; a = slot(a, t); b = slot(b, t)
            if t[0] == 'vec':
                n = t[2][1]; h = intop(op, n, 'nsw' in fl, X)
                def g(R): R[d] = tuple(h(x, y) for x, y in zip(R[a], R[b]))
                return g
            h = intop(op, t[1], 'nsw' in fl, X)
            def g(R): R[d] = h(R[a], R[b])
            return g
        if op == 'icmp':
            c, t, a, b = data; a = slot(a, t); b = slot(b, t)
            n = t[1] if t[0] == 'i' else 64
            if t[0] == 'vec':
                h = icmp(c, t[2][1] if t[2][0] == 'i' else 64, X)
                def g(R): R[d] = tuple(h(x, y) for x, y in zip(R[a], R[b]))
                return g
            h = icmp(c, n, X)
            def g(R): R[d] = h(R[a], R[b])
            return g
        if op == 'fcmp':
            c, t, a, b = data; a = slot(a, t); b = slot(b, t)
            if t[0] == 'vec':
                nl = t[1]
                def g(R): R[d] = tuple(fcmp(c, T.lane(R[a], k), T.lane(R[b], k)) for k in range(nl))
            else:
                def g(R): R[d] = fcmp(c, R[a], R[b])
            return g
        if op in CAST:
            t, a, t2 = data; a = slot(a, t)
            h = cast(op, t, t2, X)
            def g(R): R[d] = h(R[a])
            return g
        if op == 'load':
            t, a, al = data; a = slot(a, ('ptr',)); sz = ty.size(t)
            if t[0] in ('st', 'lit', 'arr'): raise Unsupported('aggregate load')
            isd = t[0] == 'double'
            def g(R):
                p = R[a]; 
                try:
                    o = p.obj; off = p.off
                    if isd and type(off) is int and not o.freed and 0 <= off and off + 8 <= o.size:
                        c = o.cells.get(off)
                        if c is not None and c[0] == 8 and c[2] == 1 and type(c[1]) is T.Node:
                            X[0].checks += 1
                            R[d] = c[1]; return
                except (AttributeError, TypeError): pass
                R[d] = X[0].load(p, t, sz, al)
            return g
        if op == 'store':
            t, v, a, al = data; v = slot(v, t); a = slot(a, ('ptr',)); sz = ty.size(t)
            def g(R): X[0].store(R[a], t, R[v], sz, al)
            return g
        if op == 'getelementptr':
            bt, base, idx = data; base = slot(base, ('ptr',))
            const = 0; var = []
            t = bt; first = True
            for it, v in idx:
                if first: es = ty.size(bt); first = False
                elif t[0] in ('arr', 'vec'): t = t[2]; es = ty.size(t)
                else:
                    i = v[1]; offs, _, _ = ty.layout(t); fs, _ = ty.fields(t)
                    const += offs[i]; t = fs[i]; continue
                if v[0] == 'c': const += v[1] * es
                else: var.append((slot(v, it), es))
            if not var:
                def g(R):
                    p = R[base]
                    if p.__class__ is not Ptr: raise Violation('pointer', 'arithmetic on %r' % (p,), X[0].where())
                    if p.obj is None and const: raise Violation('null', 'arithmetic on null', X[0].where())
                    R[d] = Ptr(p.obj, p.off + const)
            elif len(var) == 1:
                i0, es0 = var[0]
                def g(R):
                    p = R[base]; i = R[i0]
                    if p.__class__ is not Ptr or i is UNDEFI: raise Violation('pointer', 'arithmetic on %r + %r' % (p, i), X[0].where())
                    R[d] = Ptr(p.obj, p.off + (i * es0 + const))
            else:
                def g(R):
                    p = R[base]
                    if p.__class__ is not Ptr: raise Violation('pointer', 'arithmetic on %r' % (p,), X[0].where())
                    off = p.off + const
                    for s, e in var: off = off + R[s] * e
                    R[d] = Ptr(p.obj, off)
            return g
        if op == 'alloca':
            t, n, al = data; sz = ty.size(t)
            if n is None:
                def g(R):
                    o = Obj('alloca', sz, al); R[0].append(o); R[d] = Ptr(o, 0)
            else:
                ns = slot(n[1], n[0])
                def g(R):
                    k = R[ns]
                    X[0].checks += 1
                    if isinstance(k, int) and k < 0: raise Violation('bounds', 'negative VLA size', X[0].where())
                    if isinstance(k, int) and k * sz > STACK_LIMIT: raise Violation('stack', 'a variable-length array of %d bytes does not fit an 8 MB stack' % (k * sz), X[0].where())
                    o = Obj('vla', k * sz, max(al, 16)); R[0].append(o); R[d] = Ptr(o, 0)
            return g
        if op == 'select':
            ct, c, t, a, b = data; c = slot(c, ct); a = slot(a, t); b = slot(b, t)
            if ct[0] == 'vec':
                def g(R):
                    cc = R[c]; x = R[a]; y = R[b]; ex = X[0]
                    if isinstance(x, T.Node): R[d] = T.vec([T.lane(x, k) if ex.truth(q) else T.lane(y, k) for k, q in enumerate(cc)])
                    else: R[d] = tuple(x[k] if ex.truth(q) else y[k] for k, q in enumerate(cc))
            else:
                def g(R):
                    x, y = R[a], R[b]
                    if x is y: R[d] = x; return
                    cv = R[c]
                    if isinstance(cv, FBool) and isinstance(x, T.Node) and X[0].sel_hook is not None:
                        r = X[0].sel_hook(X[0], cv, x, y)
                        if r is not None: R[d] = r; return
                    if isinstance(cv, SBool) and isinstance(x, (int, SInt)) and isinstance(y, (int, SInt)):
                        r = X[0].solver.select(X[0], cv, x, y)
                        if r is not None: R[d] = r; return
                    R[d] = x if X[0].truth(cv) else y
            return g
        if op == 'freeze':
            t, a = data; a = slot(a, t)
            def g(R): R[d] = R[a]
            return g
        if op == 'extractelement':
            t, v, i = data; v = slot(v, t); i = slot(i, ('i', 64))
            def g(R):
                x = R[v]
                R[d] = T.lane(x, R[i]) if isinstance(x, T.Node) else x[R[i]]
            return g
        if op == 'insertelement':
            t, v, e, i = data; v = slot(v, t); e = slot(e, t[2]); i = slot(i, ('i', 64)); nl = t[1]
            if t[2][0] == 'double':
                def g(R):
                    x = R[v]; k = R[i]; q = R[e]
                    R[d] = T.vec([q if j == k else T.lane(x, j) for j in range(nl)])
            else:
                def g(R):
                    x = list(R[v]); x[R[i]] = R[e]; R[d] = tuple(x)
            return g
        if op == 'shufflevector':
            t, a, b, mt, m = data; a = slot(a, t); b = slot(b, t); n = t[1]
            if m[0] == 'zero': mask = [0] * mt[1]
            elif m[0] == 'undef': mask = [None] * mt[1]
            else: mask = [x[1] if x[0] == 'c' else None for x in m[1]]
            isd = t[2][0] == 'double'
            def g(R):
                x, y = R[a], R[b]
                if isd:
                    if mask == list(range(n)): R[d] = x; return
                    R[d] = T.vec([UNDEF if k is None else T.lane(x, k) if k < n else T.lane(y, k - n) for k in mask])
                else: R[d] = tuple(UNDEFI if k is None else x[k] if k < n else y[k - n] for k in mask)
            return g
        if op == 'extractvalue':
            t, v, e, idx = data; v = slot(v, t)
            def g(R):
                x = R[v]
                for k in idx: x = x[k]
                R[d] = x
            return g
        if op == 'insertvalue':
            raise Unsupported('insertvalue')
        if op == 'call':
            rt, callee, args = data
            name = callee[1] if callee[0] == 'g' else None
            if name and (name.startswith('@llvm.dbg') or name.startswith('@llvm.lifetime') or name.startswith('@llvm.assume') or name.startswith('@llvm.experimental.noalias')): return None
            asl = [slot(v, t) if v is not None else None for t, v, b in args]
            if name is not None:
                mo = mod
                if name.startswith('@llvm.memset'):
                    def g(R): X[0].memset(R[asl[0]], R[asl[1]], R[asl[2]])
                elif name.startswith('@llvm.memcpy') or name.startswith('@llvm.memmove'):
                    def g(R): X[0].memcpy(R[asl[0]], R[asl[1]], R[asl[2]])
                elif name.startswith('@llvm.fmuladd') or name.startswith('@llvm.fma.'):
                    x, y, z = asl
                    def g(R): R[d] = add(mul(R[x], R[y]), R[z])
                elif name.startswith('@llvm.sqrt'):
                    x = asl[0]
                    def g(R): R[d] = sqrtr(X[0], R[x])
                else:
                    def g(R):
                        r = X[0].call(name, [R[s] for s in asl], mo)
                        X[0].fixbox(self)
                        if d is not None: R[d] = r
            else:
                fs = slot(callee, ('ptr',)); mo = mod
                def g(R):
                    fp = R[fs]
                    if fp is UNDEFI: raise Violation('uninitialised', 'call through an uninitialised pointer', X[0].where())
                    if not isinstance(fp, FnPtr): raise Violation('dispatch', 'call through %r' % (fp,), X[0].where())
                    r = X[0].call(fp.name, [R[s] for s in asl], mo)
                    X[0].fixbox(self)
                    if d is not None: R[d] = r
            return g
        if op == 'jmp':
            k = self.bidx.get(data[0], 0)
            return lambda R: k
        if op == 'br':
            c, a, b = data; c = slot(c, ('i', 1)); a = self.bidx[a]; b = self.bidx[b]
            def g(R):
                v = R[c]
                if v is True: return a
                if v is False: return b
                return a if X[0].truth(v) else b
            return g
        if op == 'switch':
            t, v, dflt, cases = data; v = slot(v, t); dm = self.bidx[dflt]; cs = [(k, self.bidx[l]) for k, l in cases]
            def g(R):
                x = R[v]
                if isinstance(x, int):
                    for k, l in cs:
                        if k == x: return l
                    return dm
                for k, l in cs:
                    if X[0].truth(icmp('eq', t[1], X)(x, k)): return l
                return dm
            return g
        if op == 'ret':
            t, v = data
            if v is None: return lambda R: (None,)
            s = slot(v, t)
            return lambda R: (R[s],)
        if op == 'unreachable':
            def g(R): raise Violation('unreachable', 'unreachable instruction executed', X[0].where())
            return g
        if op == 'fence': return None
        raise Unsupported('instr ' + op)

Exec.sel_hook = None
def _fixbox(self, cf): cf.exbox[0] = self
Exec.fixbox = _fixbox

def fcmp(c, a, b):
    if a.op == 'c' and b.op == 'c': return fcmp_const(c, a.args, b.args)
    if a is b and a is not UNDEF:
        if c in ('oeq', 'ole', 'oge', 'ueq', 'ule', 'uge'): return True
        if c in ('olt', 'ogt', 'one', 'une', 'ult', 'ugt'): return False
    m = {'ult': 'olt', 'ugt': 'ogt', 'ule': 'ole', 'uge': 'oge', 'ueq': 'oeq', 'one': 'une'}
    if c in ('uno',): return False      # reals: never NaN
    if c in ('ord',): return True
    return FBool(m.get(c, c), a, b)

def intop(op, n, nsw, X):
    lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
    mask = (1 << n) - 1
    def ov(r, a, b):
        raise Violation('overflow', 'signed overflow in %s i%d (%s, %s)' % (op, n, a, b), X[0].where())
    def chk(a, b):
        if a is UNDEFI or b is UNDEFI: return UNDEFI
        return None
    def gen(fn):
        def h(a, b):
            if type(a) is int and type(b) is int:
                r = fn(a, b)
                if r < lo or r > hi:
                    if nsw: ov(r, a, b)
                    r = wrap(r, n)
                return r
            if a is UNDEFI or b is UNDEFI: return UNDEFI
            if isinstance(a, bool): a = int(a)
            if isinstance(b, bool): b = int(b)
            if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)):
                return X[0].solver.arith(X[0], op, n, nsw, a, b)
            raise Unsupported('%s on %r %r' % (op, a, b))
        return h
    if op == 'add': return gen(lambda a, b: a + b)
    if op == 'sub': return gen(lambda a, b: a - b)
    if op == 'mul': return gen(lambda a, b: a * b)
    if op in ('sdiv', 'srem'):
        def dv(a, b):
            if b == 0: raise Violation('division', 'integer division by zero', X[0].where())
            q = abs(a) // abs(b); q = q if (a >= 0) == (b >= 0) else -q
            return q if op == 'sdiv' else a - q * b
        return gen(dv)
    if op in ('udiv', 'urem'):
        def dv(a, b):
            a &= mask; b &= mask
            if b == 0: raise Violation('division', 'integer division by zero', X[0].where())
            return a // b if op == 'udiv' else a % b
        return gen(dv)
    if op == 'shl':
        return gen(lambda a, b: a << b)
    if op == 'lshr': return gen(lambda a, b: (a & mask) >> b)
    if op == 'ashr': return gen(lambda a, b: a >> b)
    if op in ('and', 'or', 'xor'):
        def bw(a, b):
            return a & b if op == 'and' else a | b if op == 'or' else a ^ b
        g = gen(bw)
        if n == 1:
            def h(a, b):
                if isinstance(a, bool) and isinstance(b, bool): return bool(bw(a, b))
                if isinstance(a, bool) or isinstance(b, bool):
                    if isinstance(b, bool): a, b = b, a
                    if op == 'and': return b if a else False
                    if op == 'or': return True if a else b
                    return negate(b) if a else b
                ex = X[0]
                return bool(bw(ex.truth(a), ex.truth(b)))
            return h
        return g
    raise Unsupported(op)

def negate(b):
    if isinstance(b, bool): return not b
    if isinstance(b, FBool): return FBool(b.op, b.a, b.b, not b.pos)
    if isinstance(b, SBool): return b.negate()
    raise Unsupported('negate')

def icmp(c, n, X):
    mask = (1 << n) - 1
    import operator as o
    cmpf = {'eq': o.eq, 'ne': o.ne, 'slt': o.lt, 'sle': o.le, 'sgt': o.gt, 'sge': o.ge, 'ult': o.lt, 'ule': o.le, 'ugt': o.gt, 'uge': o.ge}[c]
    uns = c[0] == 'u'
    def h(a, b):
        if type(a) is int and type(b) is int:
            if uns: return cmpf(a & mask, b & mask)
            return cmpf(a, b)
        if isinstance(a, bool) and isinstance(b, (bool, int)): return cmpf(int(a), int(b))
        if isinstance(a, (FBool, SBool)) and isinstance(b, (bool, int)):
            if c == 'ne': return negate(a) if b else a
            if c == 'eq': return a if b else negate(a)
        if a is UNDEFI or b is UNDEFI: return UNDEFI
        if isinstance(a, (Ptr, FnPtr)) and isinstance(b, (Ptr, FnPtr)):
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                eq = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
                return eq if c == 'eq' else not eq
            if a.obj is b.obj:
                return icmp(c, 64, X)(a.off, b.off)
            if c == 'eq': return False
            if c == 'ne': return True
            raise Violation('pointer', 'ordering of unrelated pointers', X[0].where())
        if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)):
            return X[0].solver.compare(X[0], c, n, a, b)
        raise Unsupported('icmp %s %r %r' % (c, a, b))
    return h

def cast(op, t, t2, X):
    if op in ('sext', 'zext'):
        n = t[1] if t[0] == 'i' else None
        if t[0] == 'vec':
            h = cast(op, t[2], t2[2], X)
            return lambda v: tuple(h(x) for x in v)
        def h(v):
            if type(v) is int:
                return v if op == 'sext' else v & ((1 << n) - 1)
            if isinstance(v, bool): return (-1 if v else 0) if (op == 'sext') else int(v)
            if isinstance(v, (FBool, SBool)):
                b = X[0].truth(v); return (-1 if b else 0) if op == 'sext' else int(b)
            if isinstance(v, SInt):
                if op == 'zext': X[0].solver.require_nonneg(X[0], v)
                return v
            if v is UNDEFI: return v
            raise Unsupported('ext %r' % (v,))
        return h
    if op == 'trunc':
        n = t2[1] if t2[0] == 'i' else None
        def h(v):
            if type(v) is int:
                r = wrap(v, n)
                return bool(r & 1) if n == 1 else r
            if v is UNDEFI: return v
            if isinstance(v, SInt):
                X[0].solver.require_range(X[0], v, n); return v
            raise Unsupported('trunc %r' % (v,))
        return h
    if op in ('sitofp', 'uitofp'):
        def h(v):
            if isinstance(v, (int, bool)): return T.const(int(v))
            if isinstance(v, SInt): return X[0].solver.tofp(X[0], v)
            if v is UNDEFI: return UNDEF
            raise Unsupported('sitofp %r' % (v,))
        if t[0] == 'vec': return lambda v: T.vec([h(x) for x in v])
        return h
    if op in ('fptosi', 'fptoui'):
        def h(v):
            if v.op == 'c':
                q = v.args; return int(q)
            return X[0].fptosi(v)
        return h
    if op in ('fpext', 'fptrunc'): return lambda v: v
    if op == 'bitcast':
        if t[0] == 'vec' and t2[0] == 'vec' and t[1] == t2[1]: return lambda v: v
        if t == t2: return lambda v: v
        def h(v):
            if v is T.ZERO: return tuple([0] * t2[1]) if t2[0] == 'vec' else 0
            if isinstance(v, Mask): return v
            raise Unsupported('bitcast %r' % (v,))
        return h
    if op in ('ptrtoint', 'inttoptr'):
        def h(v):
            if isinstance(v, Ptr) and v.obj is None: return 0
            if isinstance(v, Ptr):
                return X[0].ptrint(v)
            return v
        return h
    raise Unsupported(op)

class Mask: pass

class PInt(int): pass

def _fptosi(self, v): raise Unsupported('fptosi of a symbolic real')
Exec.fptosi = _fptosi
def _ptrint(self, p):
    # the address of an object is an unknown multiple of its alignment: only its residue is known
    o = p.obj
    base = o.id * (1 << 24)
    return base + p.off
Exec.ptrint = _ptrint

def intrinsic(ex, name, args):
    n = name[6:]
    if n.startswith('fabs'): return absr(args[0])
    if n.startswith('fmuladd') or n.startswith('fma.'): return T.add(T.mul(args[0], args[1]), args[2])
    if n.startswith('sqrt'): return sqrtr(ex, args[0])
    if n.startswith('pow.'): return powr(ex, args)
    if n.startswith('exp.'): return b_exp(ex, args)
    if n.startswith('x86.sse3.hadd.pd'):
        a, b = args; L = T.lane
        return T.vec([T.add(L(a, 0), L(a, 1)), T.add(L(b, 0), L(b, 1))])
    if n.startswith('x86.avx.hadd.pd.256'):
        a, b = args; L = T.lane
        return T.vec([T.add(L(a, 0), L(a, 1)), T.add(L(b, 0), L(b, 1)), T.add(L(a, 2), L(a, 3)), T.add(L(b, 2), L(b, 3))])
    if n.startswith('vector.reduce.fadd'):
        acc = args[0]; v = args[1]
        m = re.search(r'v(\d+)f64', n)
        for k in range(int(m.group(1))): acc = T.add(acc, T.lane(v, k))
        return acc
    if n.startswith('vector.reduce.fmax') or n.startswith('vector.reduce.fmin'):
        v = args[0]; m = re.search(r'v(\d+)f64', n)
        acc = T.lane(v, 0)
        for k in range(1, int(m.group(1))): acc = T.func('max' if 'fmax' in n else 'min', acc, T.lane(v, k))
        return acc
    if n.startswith('stacksave'): return NULL
    if n.startswith('stackrestore'): return None
    if n.startswith('smax') or n.startswith('smin') or n.startswith('umax') or n.startswith('umin'):
        a, b = args
        if isinstance(a, int) and isinstance(b, int): return max(a, b) if 'max' in n[:4] else min(a, b)
        c = ex.truth(icmp('sgt', 64, [ex])(a, b))
        return (a if c else b) if n[1:4] == 'max' else (b if c else a)
    if n.startswith('abs.'):
        return abs(args[0])
    if n.startswith('maxnum') or n.startswith('minnum'):
        return T.func('max' if n[1] == 'a' else 'min', *args)
    if n.startswith('prefetch') or n.startswith('trap') : return None
    if n.startswith('masked.load'):
        p, al, m, pt = args
        out = []
        for k, q in enumerate(m):
            if ex.truth(q): out.append(ex.load(Ptr(p.obj, p.off + 8 * k), ('double',), 8, 8))
            else: out.append(T.lane(pt, k))
        return T.vec(out)
    raise Unsupported('intrinsic ' + name)

def absr(a):
    if a.op == 'c': return T.const(abs(a.args))
    return T.func('fabs', a)
def b_exp(ex, args):
    a = args[0]
    if a.op == 'c' and a.args == 0: return T.ONE
    return T.func('exp', a)
def signed(x):
    """may the term be negative?  Coefficients, charges, positions and differences may"""
    if x.op == 'c': return x.args < 0
    if x.op == 'v':
        n = x.args[0] if isinstance(x.args, tuple) and len(x.args) == 1 else x.args
        return (n[0] if isinstance(n, tuple) else n) in ('c', 'Z', 'X')
    if x.op == 'f': return x.args[0] not in ('sqrt', 'exp', 'fabs', 'pow')
    if x.op == '*' and x.args[0] is x.args[1]: return False
    if x.op in '+*/': return signed(x.args[0]) or signed(x.args[1])
    return True
def sqrtr(ex, a):
    """square root; with ex.possplit (exponents and everything made of them are positive) it is distributed over the
    products and quotients of factors that cannot be negative"""
    if ex.possplit and a.op in '*/' and not any(signed(x) for x in a.args):
        if a.op == '*' and not any(x.op == 'c' and x.args < 0 for x in a.args): return T.mul(sqrtr(ex, a.args[0]), sqrtr(ex, a.args[1]))
        if a.op == '/': return T.div(sqrtr(ex, a.args[0]), sqrtr(ex, a.args[1]))
    return T.func('sqrt', a)
def powr(ex, args):
    a, b = args
    if b.op == 'c' and b.args.denominator in (1, 2, 4) and abs(b.args) <= 64:
        den = b.args.denominator; n = b.args.numerator; r = T.ONE; x = a
        while den > 1: x = sqrtr(ex, x); den //= 2
        for _ in range(abs(n)): r = T.mul(r, x)
        return r if n >= 0 else T.div(T.ONE, r)
    return T.func('pow', a, b)
Exec.possplit = False
Exec.maxcell = 64      # widest vector store, in bytes

def b_malloc(ex, args, name='malloc', align=16):
    n = args[0]
    o = Obj('%s#%d' % (name, len(ex.heap)), n, align); o.heap = True; ex.heap.append(o)
    return Ptr(o, 0)
def b_calloc(ex, args):
    p = b_malloc(ex, [args[0] * args[1]], 'calloc'); p.obj.fill = 0
    return p
def b_free(ex, args):
    p = args[0]
    if isinstance(p, Ptr) and p.obj is None: return None
    if not isinstance(p, Ptr): raise Violation('lifetime', 'free of %r' % (p,), ex.where())
    o = p.obj
    ex.checks += 1
    if not o.heap: raise Violation('lifetime', 'free of non-heap object ' + o.name, ex.where())
    if o.freed: raise Violation('lifetime', 'double free of ' + o.name, ex.where())
    if p.off != 0: raise Violation('lifetime', 'free of interior pointer', ex.where())
    o.freed = True
    return None
def b_posix_memalign(ex, args):
    pp, al, n = args
    p = b_malloc(ex, [n], 'memalign', al)
    ex.store(pp, ('ptr',), p, 8, 8)
    return 0
def b_aligned(ex, args): return b_malloc(ex, [args[1]], 'aligned', args[0])
def b_memset(ex, a): ex.memset(a[0], a[1], a[2]); return a[0]
def b_memcpy(ex, a): ex.memcpy(a[0], a[1], a[2]); return a[0]
def b_abort(ex, a): raise Violation('assert', 'assertion failed / abort called', ex.where())
BUILTINS = {
    '@malloc': b_malloc, '@calloc': b_calloc, '@free': b_free, '@posix_memalign': b_posix_memalign,
    '@aligned_alloc': b_aligned, '@_mm_malloc': lambda ex, a: b_malloc(ex, [a[0]], 'mm', a[1]), '@_mm_free': b_free,
    '@memset': b_memset, '@memcpy': b_memcpy, '@memmove': b_memcpy,
    '@exp': b_exp, '@sqrt': lambda ex, a: sqrtr(ex, a[0]), '@pow': powr, '@fabs': lambda ex, a: absr(a[0]),
    '@log': lambda ex, a: T.func('log', a[0]), '@erf': lambda ex, a: T.func('erf', a[0]), '@log10': lambda ex, a: T.func('log10', a[0]),
    '@abort': b_abort, '@__assert_fail': b_abort, '@exit': b_abort,
    '@printf': lambda ex, a: 0, '@fprintf': lambda ex, a: 0, '@puts': lambda ex, a: 0, '@fflush': lambda ex, a: 0,
}

def explore(make, limit=4096):
    """run make(oracle) for every path; make must build a fresh Exec with .oracle=oracle and
    return it after running.  Yields the Exec objects."""
    oracle = []
    n = 0
    while True:
        n += 1
        if n > limit: raise Unsupported('too many paths')
        ex = make(oracle)
        yield ex
        o = ex.oracle[:ex.opos]
        while o and o[-1][0] + 1 >= o[-1][1]: o.pop()
        if not o: return
        o[-1] = [o[-1][0] + 1, o[-1][1]]
        oracle = [list(x) for x in o]
