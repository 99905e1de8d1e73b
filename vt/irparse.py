"""Parser for the subset of textual LLVM IR that clang-18 emits for simint."""
import re, struct
from fractions import Fraction

TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*") |
  (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) |
  (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) |
  (?P<meta>!(?:[-a-zA-Z$._0-9]*)) |
  (?P<attr>\#\d+) |
  (?P<hex>0x[0-9A-Fa-f]+) |
  (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+) |
  (?P<word>[a-zA-Z_][-a-zA-Z_0-9.]*) |
  (?P<dots>\.\.\.) |
  (?P<p>[()\[\]{}<>,=*:]) )''', re.X)

def lex(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' : break
            if s[i:].lstrip().startswith(';'): break
            raise ValueError('lex: ' + s[i:i+60])
        i = m.end()
        out.append((m.lastgroup, m.group(m.lastgroup)))
    return out

# types: ('i',n) ('double',) ('float',) ('ptr',) ('void',) ('vec',n,t) ('arr',n,t) ('st',name) ('lit',[t..],packed) ('label',) ('meta',)
class Types:
    def __init__(self): self.structs = {}; self.cache = {}
    def fields(self, t):
        if t[0] == 'st': t = self.structs[t[1]]
        return t[1], t[2]
    def size(self, t):
        k = t[0]
        if k == 'i': return max(1, t[1] // 8)
        if k == 'double' or k == 'ptr': return 8
        if k == 'float': return 4
        if k == 'x86_fp80': return 16
        if k == 'vec': return t[1] * self.size(t[2]) if t[2] != ('i', 1) else max(1, t[1] // 8)
        if k == 'arr': return t[1] * self.size(t[2])
        return self.layout(t)[1]
    def align(self, t):
        k = t[0]
        if k == 'vec': return self.size(t)
        if k == 'arr': return self.align(t[2])
        if k in ('st', 'lit'): return self.layout(t)[2]
        return self.size(t)
    def layout(self, t):
        key = t[1] if t[0] == 'st' else repr(t)
        r = self.cache.get(key)
        if r: return r
        fs, packed = self.fields(t)
        off = 0; offs = []; al = 1
        for f in fs:
            a = 1 if packed else self.align(f)
            off = (off + a - 1) // a * a
            offs.append(off); off += self.size(f); al = max(al, a)
        off = (off + al - 1) // al * al
        r = (offs, off, al); self.cache[key] = r
        return r

class P:
    """token cursor"""
    def __init__(self, toks, mod): self.t = toks; self.i = 0; self.mod = mod
    def peek(self): return self.t[self.i][1] if self.i < len(self.t) else None
    def kind(self): return self.t[self.i][0] if self.i < len(self.t) else None
    def next(self):
        v = self.t[self.i][1]; self.i += 1; return v
    def accept(self, v):
        if self.peek() == v: self.i += 1; return True
        return False
    def expect(self, v):
        x = self.next()
        if x != v: raise ValueError('expected %r got %r near %s' % (v, x, ' '.join(a for _, a in self.t[max(0,self.i-8):self.i+8])))
    def type(self):
        v = self.next(); k = self.t[self.i-1][0]
        if v == 'void': t = ('void',)
        elif v == 'ptr': t = ('ptr',)
        elif v in ('double', 'float', 'label', 'metadata', 'x86_fp80', 'token'): t = (v,)
        elif re.fullmatch(r'i\d+', v): t = ('i', int(v[1:]))
        elif v == '<':
            if self.peek() == '{':
                self.next(); fs = self._fields('}'); self.expect('>'); t = ('lit', fs, True)
            else:
                n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>'); t = ('vec', n, e)
        elif v == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']'); t = ('arr', n, e)
        elif v == '{': t = ('lit', self._fields('}'), False)
        elif k == 'loc': t = ('st', v)
        elif v == 'opaque': t = ('lit', [], False)
        else: raise ValueError('type? ' + v)
        # function type  T (args)
        if self.peek() == '(' and False: pass
        return t
    def _fields(self, end):
        fs = []
        if self.accept(end): return fs
        while True:
            fs.append(self.type())
            if self.accept(end): return fs
            self.expect(',')
    ATTRS = {'noundef','nonnull','noalias','nocapture','readonly','writeonly','readnone','signext','zeroext','returned','immarg','inreg','swiftself','nofree','nest','noalias','allocptr','allocalign','dead_on_unwind','writable','mustprogress'}
    def attrs(self):
        """skip parameter attributes; returns byval type if present"""
        by = None
        while True:
            v = self.peek()
            if v in self.ATTRS: self.next()
            elif v == 'align':
                self.next()
                if self.accept('('): self.next(); self.expect(')')
                else: self.next()
            elif v in ('byval', 'sret', 'elementtype', 'byref', 'inalloca'):
                self.next(); self.expect('('); t = self.type(); self.expect(')')
                if v == 'byval': by = t
            elif v in ('dereferenceable', 'dereferenceable_or_null', 'captures', 'range', 'initializes', 'allocsize', 'memory'):
                self.next(); self.expect('(')
                d = 1
                while d:
                    x = self.next()
                    if x == '(': d += 1
                    elif x == ')': d -= 1
            else: return by
    def value(self, t):
        k = self.kind(); v = self.next()
        if k == 'loc': return ('r', v)
        if k == 'glob': return ('g', v)
        if k == 'num':
            if t[0] == 'i': return ('c', int(v))
            return ('c', Fraction(*struct_float(v)))
        if k == 'hex':
            return ('c', hexfloat(v))
        if v == 'true': return ('c', True)
        if v == 'false': return ('c', False)
        if v == 'null': return ('null',)
        if v in ('undef', 'poison'): return ('undef',)
        if v == 'zeroinitializer': return ('zero',)
        if v == 'none': return ('undef',)
        if k == 'str': return ('str', v)
        if v == '<' and self.peek() != '{':
            es = []
            while True:
                et = self.type(); es.append(self.value(et))
                if self.accept('>'): break
                self.expect(',')
            return ('vec', es)
        if v == '[':
            es = []
            if self.accept(']'): return ('agg', es)
            while True:
                et = self.type(); es.append((et, self.value(et)))
                if self.accept(']'): break
                self.expect(',')
            return ('agg', es)
        if v == '{' or v == '<':
            if v == '<': self.expect('{')
            es = []
            if self.accept('}'):
                if v == '<': self.expect('>')
                return ('agg', es)
            while True:
                et = self.type(); es.append((et, self.value(et)))
                if self.accept('}'): break
                self.expect(',')
            if v == '<': self.expect('>')
            return ('agg', es)
        if v == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw'): self.next()
            self.expect('('); bt = self.type(); self.expect(',')
            pt = self.type(); base = self.value(pt); idx = []
            while self.accept(','):
                it = self.type(); idx.append(self.value(it))
            self.expect(')')
            return ('gep', bt, base, idx)
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'trunc', 'sext', 'zext'):
            self.expect('('); ft = self.type(); x = self.value(ft); self.expect('to'); tt = self.type(); self.expect(')')
            return ('cast', v, ft, x, tt)
        if v in ('sub', 'add', 'mul'):
            while self.peek() in ('nsw', 'nuw'): self.next()
            self.expect('('); t1 = self.type(); a = self.value(t1); self.expect(','); t2 = self.type(); b = self.value(t2); self.expect(')')
            return ('cbin', v, a, b)
        raise ValueError('value? %r %s' % (v, t))

def struct_float(s):
    f = Fraction(s)   # decimal literals in IR denote exactly representable doubles
    f = Fraction(float(s))
    return f.numerator, f.denominator
def hexfloat(v):
    if v[2] in 'KLMHR': raise ValueError('fp80')
    d = struct.unpack('<d', int(v, 16).to_bytes(8, 'little'))[0]
    if d != d or d in (float('inf'), float('-inf')): return ('special', d)
    return Fraction(d)

class Func:
    __slots__ = ('name','ret','params','blocks','order','mod','internal','declared','text','compiled','attrs','varargs','preds')
class Module: pass

DEFRE = re.compile(r'^(define|declare)\b')

class ModuleParser:
    def __init__(self, text, name=''):
        m = self.m = Module(); m.types = Types(); m.funcs = {}; m.globals = {}; m.name = name
        m.aliases = {}
        lines = text.split('\n'); i = 0; n = len(lines)
        while i < n:
            L = lines[i]
            if L.startswith('%') and ' = type ' in L:
                p = P(lex(L), m); nm = p.next(); p.expect('='); p.expect('type')
                if p.peek() == 'opaque': m.types.structs[nm] = ('lit', [], False)
                else: m.types.structs[nm] = p.type()
            elif L.startswith('@'):
                nm = re.match(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)', L).group(0)
                m.globals[nm] = L
            elif L.startswith('define'):
                j = i
                while lines[j] != '}': j += 1
                self.func(lines[i:j]); i = j
            elif L.startswith('declare'):
                self.proto(L, True)
            i += 1
    def proto(self, L, declared):
        m = self.m
        p = P(lex(L.rstrip('{ ')), m); p.next()
        f = Func(); f.mod = m; f.declared = declared; f.internal = False; f.compiled = None; f.varargs = False
        while p.peek() in ('dso_local','internal','private','external','weak','linkonce_odr','available_externally','hidden','local_unnamed_addr','extern_weak','noundef','nonnull','noalias','zeroext','signext','linkonce','fastcc','tailcc','ccc','weak_odr','align'):
            v = p.next()
            if v in ('internal', 'private'): f.internal = True
            if v == 'align': p.next()
        while p.peek() in ('dereferenceable', 'dereferenceable_or_null', 'range'): p.attrs()
        f.ret = p.type(); f.name = p.next(); p.expect('(')
        f.params = []
        if not p.accept(')'):
            while True:
                if p.peek() == '...': p.next(); f.varargs = True
                else:
                    t = p.type(); by = p.attrs()
                    nm = None
                    if p.kind() == 'loc': nm = p.next()
                    f.params.append((t, nm, by))
                if p.accept(')'): break
                p.expect(',')
        f.blocks = {}; f.order = []
        m.funcs[f.name] = f
        return f
    def func(self, lines):
        f = self.proto(lines[0], False)
        f.text = lines
    def done(self): return self.m

LABEL = re.compile(r'^(?:"([^"]*)"|([-a-zA-Z$._0-9]+)):')

def body(f):
    """parse the body of f lazily: blocks[name] = list of (dst, op, data, text)"""
    if f.order or f.declared: return f
    cur = None
    # default entry label
    nparams_unnamed = sum(1 for t, n, b in f.params if n is None)
    lines = f.text[1:]
    k = 0
    while k < len(lines):
        L = lines[k]; k += 1
        s = L.strip()
        if not s or s.startswith(';'): continue
        mlab = LABEL.match(L)
        if mlab and not L.startswith(' '):
            nm = '%' + (mlab.group(1) or mlab.group(2))
            cur = []; f.blocks[nm] = cur; f.order.append(nm); continue
        if cur is None:
            cur = []; f.blocks['%0'] = cur; f.order.append('%0')
        if s.startswith('switch') and not s.endswith(']'):
            while True:
                s2 = lines[k].strip(); k += 1; s += ' ' + s2
                if s2.startswith(']'): break
        cur.append(instr(s, f.mod))
    return f

BIN = {'add','sub','mul','sdiv','udiv','srem','urem','shl','lshr','ashr','and','or','xor'}
FBIN = {'fadd','fsub','fmul','fdiv','frem'}
CAST = {'sext','zext','trunc','sitofp','uitofp','fptosi','fptoui','fpext','fptrunc','ptrtoint','inttoptr','bitcast'}
FAST = {'fast','nnan','ninf','nsz','arcp','contract','afn','reassoc'}

def instr(s, mod):
    i = s.find(', !')
    if i >= 0: s2 = s[:i]
    else: s2 = s
    p = P(lex(s2), mod)
    dst = None
    if p.kind() == 'loc' and len(p.t) > 1 and p.t[1][1] == '=':
        dst = p.next(); p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'): op = p.next()
    if op in BIN:
        fl = set()
        while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint'): fl.add(p.next())
        t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return (dst, op, (t, a, b, fl), s)
    if op in FBIN:
        fl = set()
        while p.peek() in FAST: fl.add(p.next())
        t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return (dst, op, (t, a, b, fl), s)
    if op == 'fneg':
        while p.peek() in FAST: p.next()
        t = p.type(); return (dst, op, (t, p.value(t)), s)
    if op == 'icmp' or op == 'fcmp':
        while p.peek() in FAST or p.peek() == 'samesign': p.next()
        c = p.next(); t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return (dst, op, (c, t, a, b), s)
    if op in CAST:
        while p.peek() in ('nneg', 'nuw', 'nsw'): p.next()
        t = p.type(); a = p.value(t); p.expect('to'); t2 = p.type()
        return (dst, op, (t, a, t2), s)
    if op == 'load':
        if p.peek() in ('volatile', 'atomic'): p.next()
        t = p.type(); p.expect(','); p.type(); a = p.value(('ptr',)); al = 1
        if p.accept(','): p.expect('align'); al = int(p.next())
        return (dst, op, (t, a, al), s)
    if op == 'store':
        if p.peek() in ('volatile', 'atomic'): p.next()
        t = p.type(); v = p.value(t); p.expect(','); p.type(); a = p.value(('ptr',)); al = 1
        if p.accept(','): p.expect('align'); al = int(p.next())
        return (dst, op, (t, v, a, al), s)
    if op == 'getelementptr':
        fl = set()
        while p.peek() in ('inbounds', 'nuw', 'nusw'): fl.add(p.next())
        bt = p.type(); p.expect(','); pt = p.type(); base = p.value(pt); idx = []
        while p.accept(','):
            it = p.type(); idx.append((it, p.value(it)))
        return (dst, op, (bt, base, idx), s)
    if op == 'alloca':
        t = p.type(); n = None; al = 1
        while p.accept(','):
            if p.accept('align'): al = int(p.next())
            else:
                nt = p.type(); n = (nt, p.value(nt))
        return (dst, op, (t, n, al), s)
    if op == 'phi':
        while p.peek() in FAST: p.next()
        t = p.type(); inc = {}
        while True:
            p.expect('['); v = p.value(t); p.expect(','); lab = p.next(); p.expect(']')
            inc[lab] = v
            if not p.accept(','): break
        return (dst, op, (t, inc), s)
    if op == 'br':
        if p.peek() == 'label':
            p.next(); return (dst, 'jmp', (p.next(),), s)
        t = p.type(); c = p.value(t); p.expect(','); p.expect('label'); a = p.next(); p.expect(','); p.expect('label'); b = p.next()
        return (dst, 'br', (c, a, b), s)
    if op == 'switch':
        t = p.type(); v = p.value(t); p.expect(','); p.expect('label'); d = p.next(); p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type(); cv = p.value(ct); p.expect(','); p.expect('label'); cases.append((cv[1], p.next()))
        return (dst, op, (t, v, d, cases), s)
    if op == 'ret':
        t = p.type()
        return (dst, op, (t, p.value(t) if t[0] != 'void' else None), s)
    if op == 'unreachable': return (dst, op, (), s)
    if op == 'select':
        while p.peek() in FAST: p.next()
        ct = p.type(); c = p.value(ct); p.expect(','); t = p.type(); a = p.value(t); p.expect(','); t2 = p.type(); b = p.value(t2)
        return (dst, op, (ct, c, t, a, b), s)
    if op == 'freeze':
        t = p.type(); return (dst, op, (t, p.value(t)), s)
    if op == 'extractelement':
        t = p.type(); v = p.value(t); p.expect(','); it = p.type(); i = p.value(it)
        return (dst, op, (t, v, i), s)
    if op == 'insertelement':
        t = p.type(); v = p.value(t); p.expect(','); et = p.type(); e = p.value(et); p.expect(','); it = p.type(); i = p.value(it)
        return (dst, op, (t, v, e, i), s)
    if op == 'shufflevector':
        t = p.type(); a = p.value(t); p.expect(','); t2 = p.type(); b = p.value(t2); p.expect(','); mt = p.type(); m = p.value(mt)
        return (dst, op, (t, a, b, mt, m), s)
    if op in ('extractvalue', 'insertvalue'):
        t = p.type(); v = p.value(t); e = None
        if op == 'insertvalue': p.expect(','); et = p.type(); e = (et, p.value(et))
        idx = []
        while p.accept(','): idx.append(int(p.next()))
        return (dst, op, (t, v, e, idx), s)
    if op == 'call':
        while p.peek() in FAST or p.peek() in ('fastcc','ccc','tailcc'): p.next()
        p.attrs()
        rt = p.type()
        if p.peek() == '(':   # function type for varargs
            d = 0
            while True:
                x = p.next()
                if x == '(': d += 1
                elif x == ')':
                    d -= 1
                    if d == 0: break
        callee = p.value(('ptr',)); p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                t = p.type(); by = p.attrs()
                if t[0] == 'metadata':
                    # skip metadata operand
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        x = p.next()
                        if x == '(': d += 1
                        elif x == ')': d -= 1
                    args.append((t, None, None))
                else: args.append((t, p.value(t), by))
                if p.accept(')'): break
                p.expect(',')
        return (dst, op, (rt, callee, args), s)
    if op == 'fence': return (dst, op, (), s)
    raise ValueError('instr? ' + s)

def parse(text, name=''): return ModuleParser(text, name).done()
