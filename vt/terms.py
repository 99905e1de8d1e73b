"""Real-valued terms (hash-consed DAG), identity fingerprints and an exact ring normaliser.

Floating point is treated as the mathematical reals (recorded as an assumption in every
evidence file).  Two terms are *equal* only when `equal()` says so: it normalises the
difference to a polynomial over atoms with rational coefficients (negative exponents for
monomial denominators, `inv` atoms for other denominators, cleared exactly) and asks whether
it is the zero polynomial.  The fingerprint of a term is its image under a ring homomorphism
into GF(2^61-1); it is only ever used to *guess* which lemma to try, never to discharge one.
"""
import hashlib, sys
from fractions import Fraction
sys.setrecursionlimit(200000)

MP = (1 << 61) - 1
_seed = 0x5eed

def hash_fp(*parts):
    h = hashlib.blake2b(repr((_seed,) + parts).encode(), digest_size=16).digest()
    return int.from_bytes(h, 'little') % (MP - 2) + 1

class Node:
    __slots__ = ('op', 'args', 'fp', 'id', 'poly', 'atomp', 'lane', 'info', 'ep')
    def __repr__(self): return show(self)

_tab = {}
_nodes = []

def reset():
    _tab.clear(); _nodes.clear(); _invtab.clear(); _inv_by_id.clear()
    global ZERO, ONE
    ZERO = const(0); ONE = const(1)

def _mk(op, args, key, fp):
    n = _tab.get(key)
    if n is not None: return n
    n = Node(); n.op = op; n.args = args; n.fp = fp; n.id = len(_nodes)
    n.poly = None; n.atomp = None; n.lane = None; n.info = None; n.ep = 0
    _tab[key] = n; _nodes.append(n)
    return n

def const(v):
    if not isinstance(v, Fraction): v = Fraction(v)
    key = ('c', v)
    n = _tab.get(key)
    if n is not None: return n
    d = v.denominator % MP
    fp = (v.numerator * pow(d, MP - 2, MP)) % MP if d != 1 else v.numerator % MP
    return _mk('c', v, key, fp)

def var(name, fp=None):
    """An atom.  fp: image of the atom (given when the atom has relations to others)."""
    key = ('v', name)
    n = _tab.get(key)
    if n is not None: return n
    return _mk('v', name, key, hash_fp('v', name) if fp is None else fp % MP)

def add(a, b):
    if a.op == 'c':
        if b.op == 'c': return const(a.args + b.args)
        if a.args == 0: return b
    elif b.op == 'c' and b.args == 0: return a
    if a.id > b.id: a, b = b, a
    return _mk('+', (a, b), ('+', a.id, b.id), (a.fp + b.fp) % MP)

def mul(a, b):
    if a.op == 'c':
        if b.op == 'c': return const(a.args * b.args)
        if a.args == 0: return ZERO
        if a.args == 1: return b
    elif b.op == 'c':
        if b.args == 0: return ZERO
        if b.args == 1: return a
    if a.id > b.id: a, b = b, a
    return _mk('*', (a, b), ('*', a.id, b.id), (a.fp * b.fp) % MP)

_m1 = None
def neg(a):
    if a.op == 'c': return const(-a.args)
    return mul(const(-1), a)

def sub(a, b):
    if a is b: return ZERO
    return add(a, neg(b))

def div(a, b):
    if b.op == 'c':
        if b.args == 0: raise ZeroDivisionError('division by the constant zero')
        if a.op == 'c': return const(a.args / b.args)
        if b.args == 1: return a
        return mul(a, const(1 / b.args))
    if a.op == 'c' and a.args == 0: return ZERO
    f = (a.fp * pow(b.fp, MP - 2, MP)) % MP
    return _mk('/', (a, b), ('/', a.id, b.id), f)

def func(name, *args):
    """Uninterpreted function of real arguments (congruence is by exact normal form)."""
    if name == 'sqrt' and args[0].op == 'c':
        v = args[0].args
        if v >= 0:
            from math import isqrt
            a, b = isqrt(v.numerator), isqrt(v.denominator)
            if a * a == v.numerator and b * b == v.denominator: return const(Fraction(a, b))
    if name == 'exp' and args[0].fp == 0:
        if args[0] is ZERO or not poly(args[0]): return ONE
    key = ('f', name) + tuple(a.id for a in args)
    n = _tab.get(key)
    if n is not None: return n
    return _mk('f', (name,) + tuple(args), key, hash_fp('f', name, *[a.fp for a in args]))

def vec(comps):
    """Lane vector leaf.  A vector all of whose lanes are the same term is that term."""
    c0 = comps[0]
    if all(c is c0 for c in comps): return c0
    key = ('vec',) + tuple(c.id for c in comps)
    n = _tab.get(key)
    if n is not None: return n
    n = _mk('vec', tuple(comps), key, hash_fp('vec', *[c.fp for c in comps]))
    return n

lane_hook = [None]   # spec hook: (atom, k) -> Node or None

def lane(a, k):
    """lane k of a vector-valued term"""
    op = a.op
    if op == 'c': return a
    c = a.lane
    if c is not None and k in c: return c[k]
    if op == 'vec': r = a.args[k]
    elif op == 'v':
        r = lane_hook[0](a, k) if lane_hook[0] else None
        if r is None: r = a
    elif op == '+': r = add(lane(a.args[0], k), lane(a.args[1], k))
    elif op == '*': r = mul(lane(a.args[0], k), lane(a.args[1], k))
    elif op == '/': r = div(lane(a.args[0], k), lane(a.args[1], k))
    elif op == 'f': r = func(a.args[0], *[lane(x, k) for x in a.args[1:]])
    else: raise AssertionError(op)
    if c is None: a.lane = {k: r}
    else: c[k] = r
    return r

# ---------------------------------------------------------------- exact normal form
# monomial: tuple of (atom_id, exp) sorted; polynomial: dict monomial -> Fraction
_invtab = {}      # canonical poly -> atom id (negative ids)
_inv_by_id = {}   # atom id -> ('inv'|'sqrt'|'f', data)

class TooBig(Exception): pass
LIMIT = [20000]

def pm(a, b):
    if len(a) > len(b): a, b = b, a
    if not a: return {}
    if len(a) * len(b) > LIMIT[0] * 10: raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mm(m1, m2)
            c = r.get(m)
            if c is None: r[m] = c1 * c2
            else:
                c = c + c1 * c2
                if c == 0: del r[m]
                else: r[m] = c
    if len(r) > LIMIT[0]: raise TooBig()
    return r

def mm(m1, m2):
    if not m1: return m2
    if not m2: return m1
    d = dict(m1)
    for k, e in m2:
        e2 = d.get(k, 0) + e
        if e2: d[k] = e2
        else: d.pop(k, None)
    return tuple(sorted(d.items()))

def pa(a, b, s=1):
    if len(a) < len(b) and s == 1: a, b = b, a
    r = dict(a)
    for m, c in b.items():
        c2 = r.get(m, 0) + s * c
        if c2 == 0: r.pop(m, None)
        else: r[m] = c2
    return r

def _freeze(p): return tuple(sorted(p.items()))

def _special(kind, data):
    key = (kind, data)
    i = _invtab.get(key)
    if i is None:
        i = -1 - len(_inv_by_id)
        _invtab[key] = i; _inv_by_id[i] = (kind, data)
    return i

def pinv(p):
    """1/p as a polynomial over atoms"""
    if not p: raise ZeroDivisionError('division by a term that is identically zero')
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple((k, -e) for k, e in m): 1 / c}
    # monic: divide by leading coefficient and by common monomial content is not needed
    items = sorted(p.items())
    lc = items[0][1]
    data = tuple((m, c / lc) for m, c in items)
    return {((_special('inv', data), 1),): 1 / lc}

EPOCH = [0]
rewrite_hook = [None]   # node -> Node (an atom known, by an earlier proof, to be equal) or None

def poly(n, top=True):
    """top=False: a sub-term may first be replaced by an atom it has been proved equal to"""
    if n.ep != EPOCH[0]:
        n.ep = EPOCH[0]; n.poly = None
        if n.atomp is False: n.atomp = None
    if not top and rewrite_hook[0] is not None and n.op not in 'cv':
        a = n.atomp
        if a is None:
            a = rewrite_hook[0](n)
            n.atomp = a if a is not None else False
        if a:
            return poly(a)
    if n.poly is not None: return n.poly
    op = n.op
    if op == 'c': r = {(): n.args} if n.args != 0 else {}
    elif op == 'v' or op == 'vec': r = {((n.id, 1),): Fraction(1)}
    elif op == '+': r = pa(poly(n.args[0], False), poly(n.args[1], False))
    elif op == '*': r = pm(poly(n.args[0], False), poly(n.args[1], False))
    elif op == '/': r = pm(poly(n.args[0], False), pinv(poly(n.args[1], False)))
    elif op == 'f':
        data = (n.args[0],) + tuple(_freeze(poly(x, False)) for x in n.args[1:])
        i = _special('f', data)
        r = {((i, 1),): Fraction(1)}
    else: raise AssertionError(op)
    n.poly = r
    return r

def _reduce_sqrt(p):
    changed = True
    while changed:
        changed = False
        out = {}
        for m, c in p.items():
            hit = None
            for k, e in m:
                if k < 0 and (e >= 2 or e <= -1):
                    kind, data = _inv_by_id[k]
                    if kind == 'f' and data[0] == 'sqrt': hit = (k, e, data); break
            if hit is None:
                out = pa(out, {m: c}); continue
            changed = True
            k, e, data = hit
            q, r = divmod(e, 2)
            rest = tuple((kk, ee) for kk, ee in m if kk != k)
            if r: rest = tuple(sorted(rest + ((k, 1),)))
            arg = dict(data[1])
            t = {rest: c}
            b = arg if q > 0 else pinv(arg)
            for _ in range(abs(q)): t = pm(t, b)
            out = pa(out, t)
        p = out
    return p

def is_zero(p):
    """exact zero test modulo inv(B)*B = 1 and sqrt(X)^2 = X"""
    for _ in range(60):
        if not p: return True
        p = _reduce_sqrt(p)
        if not p: return True
        # choose an inv atom not nested in another present one: largest |id| is outermost
        ids = set()
        for m in p:
            for k, e in m:
                if k < 0 and _inv_by_id[k][0] == 'inv': ids.add(k)
        if not ids: return False
        k0 = min(ids)
        B = {m: c for m, c in _inv_by_id[k0][1]}
        lo = min((dict(m).get(k0, 0) for m in p))
        hi = max((dict(m).get(k0, 0) for m in p))
        powB = {0: {(): Fraction(1)}}
        out = {}
        for m, c in p.items():
            e = dict(m).get(k0, 0)
            rest = tuple((kk, ee) for kk, ee in m if kk != k0)
            t = {rest: c}
            n = hi - e
            if n not in powB:
                q = powB[0]
                for _i in range(n): q = pm(q, B)
                powB[n] = q
            out = pa(out, pm(t, powB[n]))
        p = out
    return False

stats = {'ring': 0, 'ring_fail': 0}

def equal(a, b):
    """exact: is a == b for all values of the atoms (where both are defined)?"""
    if a is b: return True
    if a.fp != b.fp: return False      # different images under a ring homomorphism: not identical
    stats['ring'] += 1
    try:
        r = is_zero(pa(poly(a), poly(b), -1))
    except TooBig:
        r = False
    if not r: stats['ring_fail'] += 1
    return r

def show(n, depth=4):
    op = n.op
    if op == 'c': return str(n.args) if n.args.denominator == 1 else str(float(n.args))
    if op == 'v': return str(n.args)
    if depth == 0: return '..'
    if op == 'vec': return '<' + ','.join(show(x, depth - 1) for x in n.args) + '>'
    if op == 'f': return n.args[0] + '(' + ','.join(show(x, depth - 1) for x in n.args[1:]) + ')'
    return '(' + show(n.args[0], depth - 1) + op + show(n.args[1], depth - 1) + ')'

FUN = {'max': max, 'min': min, 'fabs': abs}
def evalf(n, env, memo=None):
    """numeric value (python floats) given env: atom name -> float"""
    import math
    if memo is None: memo = {}
    def ev(x):
        if x.id in memo: return memo[x.id]
        op = x.op
        if op == 'c': r = float(x.args)
        elif op == 'v': r = env(x.args) if callable(env) else env[x.args]
        elif op == '+': r = ev(x.args[0]) + ev(x.args[1])
        elif op == '*': r = ev(x.args[0]) * ev(x.args[1])
        elif op == '/': r = ev(x.args[0]) / ev(x.args[1])
        elif op == 'f': r = FUN.get(x.args[0]) or getattr(math, x.args[0]); r = r(*[ev(y) for y in x.args[1:]])
        else: raise AssertionError(op)
        memo[x.id] = r
        return r
    return ev(n)

reset()
