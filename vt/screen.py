"""Screening contract of the integral routines (property C04).

On every explored path the primitives that are missing from the result are read off the output
polynomials; that the path condition implies  P.screen[i] * Q.screen[j] < tol^2  for each of them
is discharged by z3 (linear real arithmetic over the monomials, with instances of the
monotonicity of multiplication for non-negative factors).
"""
import time
import z3
from . import terms as T, eri, layout
from .execu import *
from .eri import Pair, Ctx, setup_exec, ncart, boys_contract, cname

class Z:
    """translation of terms to z3, one Real per monomial"""
    def __init__(self): self.mon = {}; self.spec = {}
    def monomial(self, m):
        if not m: return z3.RealVal(1)
        r = self.mon.get(m)
        if r is None: r = self.mon[m] = z3.Real('m%d' % len(self.mon))
        return r
    def poly(self, p):
        # products with min/max atoms are not expanded: they must stand alone
        acc = []
        for m, c in p.items():
            sp = [k for k, e in m if k < 0]
            if sp:
                if len(m) != 1 or m[0][1] != 1: raise Unsupported('nonlinear use of max')
                kind, data = T._inv_by_id[sp[0]]
                if kind != 'f' or data[0] not in ('max', 'min', 'fabs'): raise Unsupported('screening term uses ' + str(data[0]))
                args = [self.poly(dict(a)) for a in data[1:]]
                if data[0] == 'fabs': x = z3.If(args[0] >= 0, args[0], -args[0])
                elif data[0] == 'max': x = z3.If(args[0] >= args[1], args[0], args[1])
                else: x = z3.If(args[0] <= args[1], args[0], args[1])
            else: x = self.monomial(m)
            acc.append(x * z3.RealVal(str(c)))
        return z3.Sum(acc) if acc else z3.RealVal(0)
    def term(self, t): return self.poly(T.poly(t))
    def cmp(self, op, a, b, r):
        x, y = self.term(a), self.term(b)
        f = {'olt': x < y, 'ole': x <= y, 'ogt': x > y, 'oge': x >= y, 'oeq': x == y, 'une': x != y}[op]
        return f if r else z3.Not(f)

def pick_max(ex, cv, x, y):
    """select(a > b, a, b) as max(a, b)"""
    op, a, b = cv.op, cv.a, cv.b
    if not cv.pos: x, y = y, x
    if op in ('ogt', 'oge') and x is a and y is b: return T.func('max', a, b)
    if op in ('ogt', 'oge') and x is b and y is a: return T.func('min', a, b)
    if op in ('olt', 'ole') and x is a and y is b: return T.func('min', a, b)
    if op in ('olt', 'ole') and x is b and y is a: return T.func('max', a, b)
    return None

class Case:
    def __init__(self): self.obl = {'screened': 0, 'kept': 0, 'untouched': 0, 'os': 0}; self.bad = []; self.fn = None; self.paths = 0; self.solver = 0.0; self.instr = 0

def run_path(variant, der, am, conf, oracle, case, tolmode):
    """one path.  tolmode 'sym': tolerance symbolic and positive; 'zero': tolerance 0 and no screening data at all"""
    T.reset(); T.EPOCH[0] += 1
    lay = layout.get(variant)
    bra, bc, ket, kc = conf
    hasder = 'alpha2' in lay['simint_multi_shellpair'][0]
    P = Pair('P', bra, bc, am[0], am[1], lay, screen=tolmode == 'sym', der=hasder)
    Q = Pair('Q', ket, kc, am[2], am[3], lay, screen=tolmode == 'sym', der=hasder)
    ctx = Ctx(P, Q, lay); ctx.nosum = True
    ex = setup_exec(variant, {})
    ex.contracts['@boys_F_split'] = boys_contract(ctx)
    wsz = ex.call('@simint_eri_worksize', [der, max(am)])
    work = Obj('work', 8 * wsz, 64)
    nc = 1
    for l in am: nc *= ncart(l)
    ncomp = 12 if der else 1
    out = Obj('integrals', 8 * nc * ncomp * bc * kc, 64)
    pp, qq = P.objects(ex), Q.objects(ex)
    ex.store_hook = ctx.abstract
    ex.sel_hook = pick_max
    ex.oracle = oracle; ex.opos = 0
    orig = ex.run
    def spy(f, args):
        if f.name.startswith('@ostei_') and case.fn is None: case.fn = f.name
        return orig(f, args)
    ex.run = spy
    if tolmode == 'sym':
        tol = T.var('tol'); t2 = T.mul(tol, tol)
        def force(e, fb):
            # tol > 0 is the assumption of this run (and so is tol^2 > 0)
            for a, b, s in ((fb.a, fb.b, 1), (fb.b, fb.a, -1)):
                if (a is tol or a is t2) and b is T.ZERO:
                    return {'ogt': s > 0, 'oge': s > 0, 'olt': s < 0, 'ole': s < 0, 'oeq': False, 'une': True}[fb.op]
            return None
        ex.force_real = force
    else:
        tol = T.ZERO
        # the largest estimates are not negative, hence neither is their product; whether they are zero stays open
        pm, qm = (T.var((t, 'screen_max')) for t in 'PQ'); nonneg = (pm, qm, T.mul(pm, qm))
        def force(e, fb):
            for a, b, op in ((fb.a, fb.b, fb.op), (fb.b, fb.a, {'olt': 'ogt', 'ogt': 'olt', 'ole': 'oge', 'oge': 'ole'}.get(fb.op))):
                if b is T.ZERO and any(a is x for x in nonneg): return {'olt': False, 'oge': True}.get(op)
            return None
        ex.force_real = force
    args = [pp, qq, tol, Ptr(work, 0), Ptr(out, 0)]
    bad = case.bad; nb = len(bad)
    def viol(kind, msg): bad.append(Violation(kind, msg, case.fn or ''))
    try:
        ret = ex.call('@simint_compute_eri_deriv', [der] + args) if der else ex.call('@simint_compute_eri', args)
    except Violation as e:
        bad.append(e); return ex
    case.instr += ex.count
    z = Z(); S = z3.Solver(); S.set('timeout', 20000)
    facts = []
    if tolmode == 'sym':
        for op, a, b, r in [x[1:] for x in ex.pc]: facts.append(z.cmp(op, a, b, r))
    def prims(pr): return [p for p in range(pr.size) if pr.valid(p)]
    scr = {('P', i): P.atom('screen', i) for i in prims(P)}; scr.update({('Q', j): Q.atom('screen', j) for j in prims(Q)})
    Pm, Qm = T.var(('P', 'screen_max')), T.var(('Q', 'screen_max'))
    def implied(i, p):
        """path condition and monotonicity imply that primitive combination (i,p) is below the tolerance"""
        a, b = scr[('P', i)], scr[('Q', p)]
        ab, aQ, Pb, PQ = (z.term(T.mul(x, y)) for x, y in ((a, b), (a, Qm), (Pm, b), (Pm, Qm)))
        t0 = time.time()
        S.push()
        S.add(facts)
        for x in (ab, aQ, Pb, PQ): S.add(x >= 0)
        S.add(ab <= aQ, ab <= Pb, aQ <= PQ, Pb <= PQ)
        # the value of a lane without a primitive is zero
        S.add(z.term(t2) > 0)
        S.add(z3.Not(ab < z.term(t2)))
        r = S.check()
        S.pop(); case.solver += time.time() - t0
        return r == z3.unsat
    def feasible():
        t0 = time.time(); S.push(); S.add(facts)
        for i in prims(P):
            aQ = z.term(T.mul(scr[('P', i)], Qm)); PQ = z.term(T.mul(Pm, Qm)); S.add(aQ >= 0, aQ <= PQ)
            for p in prims(Q):
                ab = z.term(T.mul(scr[('P', i)], scr[('Q', p)])); S.add(ab >= 0, ab <= aQ)
        S.add(z.term(t2) > 0)
        r = S.check(); S.pop(); case.solver += time.time() - t0
        return r != z3.unsat
    if tolmode == 'sym' and not feasible(): return ex
    case.paths += 1
    if ret == -1:
        if tolmode != 'sym': viol('screening', 'returns -1 with tolerance zero'); return ex
        if out.cells: viol('screening', 'returns -1 after writing integrals')
        else: case.obl['untouched'] += 1
        for i in prims(P):
            for p in prims(Q):
                if not implied(i, p):
                    viol('screening', 'returns -1 although primitive combination (%d,%d) may reach the tolerance' % (i, p)); return ex
                case.obl['screened'] += 1
        return ex
    if ret != bc * kc: viol('return', 'returns %r instead of %d' % (ret, bc * kc)); return ex
    # which primitive combinations are in the result?
    kept = set()
    n = nc * ncomp * bc * kc
    memo = {}; final = {}
    for o in range(n):
        try: v = ex.load(Ptr(out, 8 * o), ('double',), 8, 8)
        except Violation as e: bad.append(e); return ex
        v = ctx.canonical(v, memo)
        final[8 * o] = (8, v, 1)
        try: po = T.poly(v)
        except ZeroDivisionError: viol('screening', 'division by zero in output'); return ex
        for m in po:
            for k, e in m:
                if k >= 0:
                    a = T._nodes[k].args
                    if isinstance(a, tuple) and a[0] == 'S': kept.add((a[1], a[2]))
                    elif isinstance(a, tuple) and a[0] == 'Th': kept.add((a[1], a[2]))
    out.cells = final
    for ab in range(bc):
        for cd in range(kc):
            for i in range(P.start[ab], P.start[ab] + P.nprims[ab]):
                for p in range(Q.start[cd], Q.start[cd] + Q.nprims[cd]):
                    if (i, p) in kept: continue
                    ctx.dropped_lanes.add((i, p))
                    if tolmode != 'sym':
                        viol('screening', 'primitive combination (%d,%d) of quartet (%d,%d) is missing although the tolerance is zero' % (i, p, ab, cd)); return ex
                    if not implied(i, p):
                        viol('screening', 'primitive combination (bra %d, ket %d) of quartet (%d,%d) is left out although its estimate may reach the tolerance' % (i, p, ab, cd)); return ex
                    case.obl['screened'] += 1
    ctx.omf.clear()
    res = eri.Result()
    eri.check_output(ctx, res, out, der, am, bc, kc, ex)
    for b in res.bad: b.msg += ' (on a path where screening leaves out %d primitive combinations)' % len(ctx.dropped_lanes)
    bad += res.bad
    case.obl['kept'] += ctx.proved['out']; case.obl['os'] += ctx.proved['os'] + ctx.proved['base']
    for o in ex.heap:
        if not o.freed: viol('leak', 'heap object %s is not freed' % o.name)
    return ex

def run_class(variant, der, am, conf, limit, flips=True):
    case = Case()
    oracle = []
    for k in range(16):                                      # every outcome of what the estimates decide without a tolerance
        ex = run_path(variant, der, am, conf, oracle, case, 'zero')
        if case.bad: return case
        o = ex.oracle[:ex.opos]
        while o and o[-1][0] + 1 >= o[-1][1]: o.pop()
        if not o: break
        o[-1] = [o[-1][0] + 1, o[-1][1]]
        oracle = [list(x) for x in o]
    # exhaustive exploration of the decisions, up to the limit; afterwards single decisions reversed
    oracle = []; n = 0
    while n < limit:
        ex = run_path(variant, der, am, conf, oracle, case, 'sym'); n += 1
        if case.bad: case.path = [o[0] for o in ex.oracle[:ex.opos]]; return case
        o = ex.oracle[:ex.opos]
        while o and o[-1][0] + 1 >= o[-1][1]: o.pop()
        if not o: case.complete = True; return case
        o[-1] = [o[-1][0] + 1, o[-1][1]]
        oracle = [list(x) for x in o]
    case.complete = False
    # decision k reversed from the path where nothing is dropped, then everything kept
    base = None
    for want in (1,):
        ex = run_path(variant, der, am, conf, [[want, 2]] * 4000, case, 'sym')
        if case.bad: return case
        nd = ex.opos
        for k in range(nd):
            orc = [[want, 2] for _ in range(4000)]; orc[k] = [1 - want, 2]
            run_path(variant, der, am, conf, orc, case, 'sym'); n += 1
            if case.bad: case.path = k; return case
            if n > 3 * limit: return case
    return case

CONF = {  # small shapes whose vectors straddle shell pairs
  'one': {1: ([2], 1, [1, 2], 2), 2: ([2], 1, [1, 2], 2), 4: ([2], 1, [2, 3, 1], 3), 8: ([2], 1, [3, 4, 2], 3)},
  'two': {1: ([1, 2], 2, [1, 1, 1], 3), 2: ([1, 1], 2, [1, 2, 1], 3), 4: ([1, 1], 2, [1, 2, 1, 2], 4), 8: ([1, 1], 2, [3, 3, 1, 3], 4)},
  'hvy': {1: ([1], 1, [1, 1], 2), 2: ([1], 1, [1, 2], 2), 4: ([1], 1, [3, 2], 2), 8: ([1], 1, [5, 4], 2)},
}
