"""specification of shells and shell pairs (properties C08-C12, C18)"""
import itertools, random, time
from fractions import Fraction
from vt import terms as T, scen, layout, build, framework
from vt.scen import Scen, Sym, Ref, Env
from vt.execu import Violation, Unsupported

V = T.var
def C(x): return T.const(x)
SQRT_TWO_PI_52 = Fraction(5.91496717279561287782347843505365022963403204272156069835237)   # sqrt(2) pi^(5/4)
SQRT2_PI_52 = Fraction(24.739429451193148050228357586821944304008810699990039583)          # sqrt(2) pi^(5/2)
XYZ = 'xyz'
SHELL_TRUST = [
 'double arithmetic treated as exact real arithmetic; literals agree with the specified constants to 2^-46',
 'exp is uninterpreted; square roots of positive quantities distribute over products',
 'memory allocation succeeds',
 'clang-18 -O0 + opt-18 preserve the meaning of the C source; gcc agrees with clang on it',
 'terms are compared by exact polynomial normalisation (vt/terms.py)']

class Shell:
    """a shell with symbolic contents; tag identifies its atoms"""
    def __init__(self, tag, am, nprim): self.tag = tag; self.am = am; self.n = nprim
    def al(self, i): return V(('al', self.tag, i))
    def co(self, i): return V(('c', self.tag, i))
    def X(self, d): return V(('X', self.tag, d))
    def make(self, s, obj, idx=0, init=True):
        a = '%s_al' % self.tag; c = '%s_co' % self.tag
        if a not in s.kinds:
            s.reals(a, [self.al(i) for i in range(self.n)]); s.reals(c, [self.co(i) for i in range(self.n)])
        if init: s.call('simint_initialize_shell', Ref(obj, idx))
        s.call('simint_create_shell', self.n, self.am, self.X(0), self.X(1), self.X(2), Ref(a), Ref(c), Ref(obj, idx))

def sub(a, b): return T.sub(a, b)

def pair_ab(A, B): return [sub(A.X(d), B.X(d)) for d in range(3)]

_pc = {}
def combo(A, B, i, j, same):
    """specified data of one primitive combination"""
    key = (getattr(A, 'ckey', A.tag), getattr(B, 'ckey', B.tag), i, j, same, T.ZERO.id, id(T.ZERO))
    r = _pc.get(key)
    if r is not None: return r
    ai, aj = A.al(i), B.al(j)
    p = T.add(ai, aj); ab = pair_ab(A, B)
    r2 = T.ZERO
    for v in ab: r2 = T.add(r2, T.mul(v, v))
    e = T.ONE if same else T.func('exp', T.neg(T.div(T.mul(r2, T.mul(ai, aj)), p)))
    pre = T.div(T.mul(T.mul(T.mul(A.co(i), B.co(j)), e), C(SQRT_TWO_PI_52)), p)
    x = [T.div(T.add(T.mul(ai, A.X(d)), T.mul(aj, B.X(d))), p) for d in range(3)]
    r = dict(alpha=p, prefac=pre)
    for d in range(3):
        r[XYZ[d]] = x[d]; r['PA_' + XYZ[d]] = sub(x[d], A.X(d)); r['PB_' + XYZ[d]] = sub(x[d], B.X(d))
    r['alpha2'] = T.mul(C(2), ai); r['beta2'] = T.mul(C(2), aj)
    if same and i != j:
        # both orders of the combination: the weight is doubled, the exponents are averaged over the two orders
        r['prefac'] = T.mul(C(2), pre); r['alpha2'] = p; r['beta2'] = p
    _pc[key] = r
    return r
FIELDS = ['alpha', 'prefac', 'x', 'y', 'z', 'PA_x', 'PA_y', 'PA_z', 'PB_x', 'PB_y', 'PB_z']

def combos(A, B):
    same = A is B
    return [(i, j) for i in range(A.n) for j in range((i + 1) if same else B.n)]

class Batch:
    """list of (A,B) shell pairs, with the layout the constructor must establish"""
    def __init__(self, pairs, L, NS):
        self.pairs = pairs; self.L = L; self.NS = NS
        self.start = []; self.n = []; pos = 0; self.pad = []
        for s, (A, B) in enumerate(pairs):
            k = len(combos(A, B)); self.start.append(pos); self.n.append(k); pos += k
            if (s + 1) % NS == 0 or s + 1 == len(pairs):
                while pos % L: self.pad.append(pos); pos += 1
        self.size = pos

def expect_batch(s, name, b, lay, screen, idx=0, order=False, fast=True):
    """checks that pair object `name` holds batch b"""
    der = 'alpha2' in lay['simint_multi_shellpair'][0]
    ck = s.check
    if b.pairs:
        ck('am', (name, idx, 'am1'), b.pairs[0][0].am, 'int'); ck('am', (name, idx, 'am2'), b.pairs[0][1].am, 'int')
    ck('nprim', (name, idx, 'nprim'), sum(b.n), 'int')
    ck('nshell12', (name, idx, 'nshell12'), len(b.pairs), 'int'); ck('nshell12_clip', (name, idx, 'nshell12_clip'), len(b.pairs), 'int')
    for k, (A, B) in enumerate(b.pairs):
        ck('nprim12', (name, idx, 'nprim12', k), b.n[k], 'int')
        ab = pair_ab(A, B)
        for d in range(3): ck('AB', (name, idx, 'AB_' + XYZ[d], k), ab[d])
    fs = FIELDS + (['alpha2', 'beta2'] if der else [])
    def content(sym):
        out = []
        for k, (A, B) in enumerate(b.pairs):
            cs = combos(A, B); todo = set(cs)
            for q in range(b.n[k]):
                pos = b.start[k] + q
                try:
                    got = {f: sym.read((name, idx, f, pos)) for f in fs}
                    if screen: got['screen'] = sym.read((name, idx, 'screen', pos))
                except Violation as e: out.append(('content', str(e))); return out
                sym.obl += len(got)
                hit = None
                for c in ([cs[q]] if cs[q] in todo else []) + [c for c in cs if c in todo and c != cs[q]]:
                    w = combo(A, B, c[0], c[1], A is B)
                    if isinstance(got['alpha'], T.Node) and isinstance(got['prefac'], T.Node) and scen.approx_equal(got['alpha'], w['alpha']) and scen.approx_equal(got['prefac'], w['prefac']): hit = c; break
                if hit is None:
                    w = combo(A, B, cs[q][0], cs[q][1], A is B)
                    f = 'alpha' if not (isinstance(got['alpha'], T.Node) and any(scen.approx_equal(got['alpha'], combo(A, B, c[0], c[1], A is B)['alpha']) for c in cs)) else 'prefac'
                    out.append(('content', '%s[%d] of pair %d is %s: no primitive combination of that pair has this value' % (f, pos, k, scen.show(got[f])))); return out
                todo.discard(hit)
                w = combo(A, B, hit[0], hit[1], A is B)
                for f in fs:
                    if not (isinstance(got[f], T.Node) and scen.approx_equal(got[f], w[f])):
                        out.append(('content', '%s[%d] of pair %d (primitives %d,%d) is %s, not %s' % (f, pos, k, hit[0], hit[1], scen.show(got[f]), scen.show(w[f])))); return out
                if screen and not screen(sym, got['screen'], A, B, hit[0], hit[1]):
                    out.append(('screen', 'screen[%d] of pair %d is %s, not the estimate of primitives %d,%d' % (pos, k, scen.show(got['screen']), hit[0], hit[1]))); return out
            if todo: out.append(('content', 'pair %d lacks combinations %s' % (k, sorted(todo)))); return out
        return out
    # native side of the content check: sorted comparison per pair
    nat = []
    for k in range(len(b.pairs)):
        for q in range(b.n[k]):
            for f in fs + (['screen'] if screen else []): nat.append(((name, idx, f, b.start[k] + q), '%s/%d/%d/%s' % (name, k, q, f)))
    content.native = nat
    def judge(H, env):
        for k, (A, B) in enumerate(b.pairs):
            cs = combos(A, B)
            want = [{f: T.evalf(t, env) for f, t in combo(A, B, i, j, A is B).items()} for i, j in cs]
            if screen:
                for w, (i, j) in zip(want, cs):
                    sv = getattr(screen, 'spec', None) if env is not None else None
                    if sv: w['screen'] = T.evalf(sv(A, B, i, j), env)
            got = []
            for q in range(b.n[k]):
                g = {f: H.get('%s/%d/%d/%s' % (name, k, q, f)) for f in fs + (['screen'] if screen else [])}
                if any(v is None for v in g.values()): return None
                got.append(g)
            key = lambda r: (round(r['alpha'], 9), round(r['prefac'], 9))
            for q, (g, w) in enumerate(zip(sorted(got, key=key), sorted(want, key=key))):
                for f in w:
                    if f not in g: continue
                    if abs(g[f] - w[f]) > 1e-9 * max(1, abs(w[f])): return 'pair %d: %s = %.15g, specified %.15g' % (k, f, g[f], w[f])
        return None
    content.judge = judge
    s.hook(content)
    for pos in b.pad:
        ck('padding', (name, idx, 'prefac', pos), 0)
        for f in fs + (['screen'] if screen else []):
            if f == 'prefac': continue
            ck('padding', (name, idx, f, pos), finite(f))

def finite(f):
    """padding must be defined, finite data that keeps the arithmetic of the kernels finite"""
    def t(sym, got):
        if got.op != 'c': return False
        if f in ('alpha',): return got.args > 0
        if f == 'screen': return got.args == 0
        return True
    def nat(v):
        if v != v or v in (float('inf'), float('-inf')) or v.hex() == UNSET: return 'padding is not finite, defined data'
        if f == 'alpha' and not v > 0: return 'padding exponent is not positive'
        if f == 'screen' and v != 0: return 'padding estimate is not zero'
        return None
    t.nat = nat
    return t
import struct
UNSET = struct.unpack('<d', b'\xbe' * 8)[0].hex()       # how the address sanitizer fills fresh memory

def fast_spec(A, B, i, j):
    """(ss|ss) of one primitive combination with itself, unnormalised angular part dropped"""
    a, b = A.al(i), B.al(j); p = T.add(a, b); r2 = T.ZERO
    for v in pair_ab(A, B): r2 = T.add(r2, T.mul(v, v))
    e = T.ONE if A is B else T.func('exp', T.neg(T.div(T.mul(C(2), T.mul(r2, T.mul(a, b))), p)))
    sq = T.func('sqrt', p)
    return T.mul(T.mul(T.mul(C(SQRT2_PI_52), T.div(T.ONE, T.mul(T.mul(p, p), sq))), e), T.mul(T.mul(A.co(i), A.co(i)), T.mul(B.co(j), B.co(j))))
def fast_screen(sym, got, A, B, i, j): return isinstance(got, T.Node) and scen.approx_equal(got, fast_spec(A, B, i, j))
fast_screen.spec = fast_spec

def run_scen(make, name, variant, fn, contracts=None, env=None, extra=(), natenv=None, pick_max=None, full=False):
    """make() -> Scen (called after the term table is reset); returns a task result"""
    t0 = time.process_time()
    T.reset(); T.EPOCH[0] += 1; T.lane_hook[0] = None; _pc.clear()
    s = make()
    out = dict(name=name, fn='@' + fn, obl={}, mem=0, instr=0, bad=[])
    try: sym = Sym(s, variant, contracts(variant) if contracts else None, env=env, extra=extra, pick_max=pick_max).run()
    except Unsupported as e:
        rep, det = scen.native(s, variant, natenv(1) if natenv else env or Env(1), full=full)
        out['bounded'] = '%s (bounded stand-in: one random input on the compiled code)' % str(e)[:200]
        if rep: out['bad'].append(('value', 'bounded stand-in: ' + det)); out['replay'] = dict(reproduced=True, detail=det)
        return out
    out['obl'] = {'out': sym.obl}; out['mem'] = sym.ex.checks; out['instr'] = sym.ex.count
    for label, kind, msg in sym.fail: out['bad'].append((label if kind == 'value' else kind, msg))
    if out['bad'] and framework.REPLAY[0]:
        rep = (False, ''); t1 = time.time()
        for seed in range(1, 10):
            if time.time() - t1 > 40 and seed > 3: break
            if natenv: rep = scen.native(s, variant, natenv(seed), full=full)
            else: rep = scen.native(s, variant, env if env is not None and seed == 1 else Env(seed, getattr(env, 'fixed', None) if env else None), full=full)
            if rep[0]: break
        out['replay'] = dict(reproduced=rep[0], detail=rep[1])
    out['cpu'] = time.process_time() - t0
    return out
