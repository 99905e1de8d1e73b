"""symbolic integers (linear forms) -- see loops.py for the solver context"""
class SInt:
    __slots__ = ('t', 'c')
    def __init__(self, t, c): self.t = t; self.c = c
    def __add__(self, o):
        if isinstance(o, int): return SInt(self.t, self.c + o)
        if isinstance(o, SInt):
            d = dict(self.t)
            for k, v in o.t:
                x = d.get(k, 0) + v
                if x: d[k] = x
                else: d.pop(k, None)
            return mkint(tuple(sorted(d.items())), self.c + o.c)
        return NotImplemented
    __radd__ = __add__
    def __neg__(self): return SInt(tuple((k, -v) for k, v in self.t), -self.c)
    def __sub__(self, o): return self + (-o)
    def __rsub__(self, o): return (-self) + o
    def __mul__(self, o):
        if isinstance(o, int):
            if o == 0: return 0
            return SInt(tuple((k, v * o) for k, v in self.t), self.c * o)
        return NotImplemented
    __rmul__ = __mul__
    def __repr__(self): return '+'.join('%d*%s' % (v, k) if v != 1 else str(k) for k, v in self.t) + ('+%d' % self.c if self.c else '')
    def key(self): return (self.t, self.c)
def mkint(t, c): return SInt(t, c) if t else c
def sadd(a, b): return a + b
def smul(a, b): return a * b
class SBool:
    __slots__ = ('op', 'a', 'b')
    NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}
    def __init__(self, op, a, b): self.op = op; self.a = a; self.b = b
    def negate(self): return SBool(self.NEG[self.op], self.a, self.b)
    def __repr__(self): return '(%s %s %s)' % (self.a, self.op, self.b)
