"""shared driver of the two-electron integral checks"""
import itertools, time
from vt import build, layout, eri, replay, framework, terms as T
from vt.execu import Violation, Unsupported

TRUST = [
 'double arithmetic treated as exact real arithmetic (no rounding, overflow or NaN)',
 'Obara-Saika recurrences, base case, horizontal recurrence and derivative rule taken as the definition of the integrals (vt/eri.py)',
 'contract of boys_F_split: F[m] = F_m(x) lane-wise for m<=n (property C13)',
 'shell pair layout and data as established by the shell pair constructor (property C08)',
 'clang-18 -O0 + opt-18 (inline,sroa,early-cse,simplifycfg) preserve the meaning of the C source; gcc agrees with clang on it',
 'sub-term replacement by an equal-fingerprint candidate is always re-proved by exact polynomial normalisation (vt/terms.py)',
]

def classes(variant):
    v = build.VARIANTS[variant]
    r = range(v['l'] + 1)
    return list(itertools.product(r, r, r, r))

def weight(der, am):
    n = 1
    for l in am: n *= (l + 1) * (l + 2) // 2
    s = sum(am)
    return n * (14 if der else 1) * (s + 1)

def conf_name(der, am, tier):
    s = sum(am) + 2 * der
    if s <= 1 or sum(am) == 0: return 'light'
    if s <= (6 if tier == 'thorough' else 4): return 'mid'
    return 'heavy'

def task(variant, der, am, cn, conf=None, kinds=None):
    lay = layout.get(variant)
    name = '%s/%s%s' % (variant, 'd' if der else '', eri.cname(am))
    if conf is None: conf = eri.CONF[cn][lay['L']]
    else: name += '/' + cn
    t = time.process_time()
    r0 = T.stats['ring']
    try:
        r = eri.run_class(variant, der, am, conf)
    except Unsupported as e:
        # outside the verifier's reach: bounded stand-in on the real compiled code
        return fallback(name, variant, der, am, conf, str(e))
    out = dict(name=name, fn=r.fn, obl=r.obl, mem=r.mem, instr=r.instr, bad=[], cpu=time.process_time() - t, conf=cn)
    for b in r.bad:
        out['bad'].append((b.kind, str(b)))
    if kinds is not None: out['bad'] = [b for b in out['bad'] if b[0] in kinds]
    if out['bad'] and framework.REPLAY[0]:
        rep = replay.eri_replay(variant, der, am, conf, r.fn or '', r.loaded, worksize=getattr(r, 'worksize', None)) if r.fn else dict(reproduced=False, detail='no function was reached')
        out['replay'] = rep
    return out

def unb_task(variant, der, am, tmax=250, kinds=None, tol=False):
    """unbounded proof of the function of one class (vt/unb.py): every shape of the shell pairs.

    A permuted class is proved against the contract of the kernel it calls.  A failed obligation is replayed at the shape of
    the solver's model, symbolically and on the compiled code; it counts as a violation when one of these confirms it,
    otherwise the class is recorded as not proved for all shapes (loop invariants are found automatically, and a rewritten
    loop may be beyond them)."""
    from vt import unb
    name = '%s/%s%s/all shapes' % (variant, 'd' if der else '', eri.cname(am))
    t = time.process_time(); out = dict(name=name, fn=fname(der, am), obl={}, mem=0, instr=0, bad=[], unb='unproved', key=(variant, der, am))
    k = unb.Kernel(variant, der, am)
    try:
        try: k.trace()
        except Unsupported as e:
            if str(e) != 'permuted class': raise
            k = unb.Wrapper(variant, der, am); k.trace()
            k.prove(tmax=tmax); out['needs'] = (variant, der, k.calleeam, k.callee)
        else: k.prove(maxpaths=20000, tmax=tmax, tol=tol)
        out.update(fn=k.kf.name, unb='proved', obl=k.obl, nobl=k.nobl, z3=k.z.solver_s + getattr(k, 'rsolver_s', 0), paths=k.npaths)
    except unb.UFail as e:
        out['why'] = '%s: %s' % (e.kind, e)
        L = layout.get(variant)['L']; conf = unb.model_shape(e.model, L)
        small = sum(conf[0]) * sum(conf[2]) < 3000
        r = confirm(variant, der, am, conf if small else None, kinds, tol)
        if r:
            r['name'] = name; r['bad'] = [(b[0], b[1] + ' [all shapes: %s]' % out['why'][:300]) for b in r['bad']]; r['unb'] = 'failed'; r['cpu'] = time.process_time() - t
            return r
        if not small and not tol:
            fn = fname(der, am)
            try: rep = replay.eri_replay(variant, der, am, conf, fn, deps(variant, fn), seed=1, worksize=None)
            except Exception: rep = dict(reproduced=False)
            if rep.get('reproduced'):
                out.update(bad=[(e.kind if kinds is None or e.kind in kinds else 'bounds', out['why'])], replay=rep, unb='failed')
    except Violation as e:
        out['why'] = '%s: %s' % (e.kind, e)     # (concrete runs: the bounded runs report it)
    except Unsupported as e: out['why'] = str(e)[:200]
    out['cpu'] = time.process_time() - t
    return out

def unb_tasks(tier, caps, ders=(0, 1), kinds=None, tol=False):
    """unbounded proofs of the classes whose weight is at most the cap of their variant (thorough: all of them)"""
    ts = []; f = {'external': 1, 'general': 3, 'inline': 8, 'noder': 8, 'wide': 100}
    for v in build.VARIANTS:
        for der in ders:
            if der > build.VARIANTS[v].get('d', 1): continue
            for am in classes(v):
                w = weight(der, am)
                if tier != 'thorough' and w > caps.get(v, 0): continue
                ts.append((unb_task, (v, der, am, 3000 if tier == 'thorough' else 250, kinds, tol), (w + 30) * f[v] * (2 if tol else 1)))
    return ts

def confirm(variant, der, am, conf, kinds, tol):
    """bounded runs at the shape of a counterexample (and at the standard shapes): a result with violations, or None"""
    from . import c03
    from vt import screen
    L = layout.get(variant)['L']
    confs = ([conf] if conf else []) + [s[1:] for s in c03.shapes(L, 0, None)[:4]]
    if not tol:
        for cf in confs:
            r = task(variant, der, am, 'shape of the failed obligation', cf, kinds)
            if r.get('bad'): return r
        return None
    rep = screen_replay(variant, der, am, confs[0], fname(der, am))
    if rep['reproduced']: return dict(name='', fn=fname(der, am), obl={}, mem=0, instr=0, bad=[('screening', rep['detail'])], replay=rep)
    for cf in ('hvy', 'one'):
        c = screen.run_class(variant, der, am, screen.CONF[cf][L], 40)
        if c.bad: return dict(name='', fn=fname(der, am), obl={}, mem=0, instr=0, bad=[(b.kind, str(b)) for b in c.bad], replay=rep)
    return None

def ind_run(p, name, fn, variant, confirm, shapes, tmax=120):
    """induction over the loops of one function (vt/ind.py); a failed obligation counts when a bounded run confirms it"""
    from vt import ind, unb
    t = time.process_time(); out = dict(name=name, fn=fn, obl={}, mem=0, instr=0, bad=[], unb='unproved', key=(variant, name))
    try:
        p.prove(tmax=tmax)
        out.update(unb='proved', obl=dict(getattr(p, 'obl', {})), nobl=p.nobl, z3=p.z.solver_s, paths=p.npaths)
    except unb.UFail as e:
        out['why'] = '%s: %s' % (e.kind, e); seen = set()
        for m in [m for m in [e.model] + getattr(e, 'models', []) if m] + shapes:
            r = confirm(m)
            if r.get('bad'):
                r['name'] = name; r['bad'] = [(b[0], b[1] + ' [any length: %s]' % out['why'][:300]) for b in r['bad']]; r['unb'] = 'failed'; r['cpu'] = time.process_time() - t
                return r
    except Violation as e: out['why'] = '%s: %s' % (e.kind, e)
    except Unsupported as e: out['why'] = str(e)[:200]
    out['cpu'] = time.process_time() - t
    return out

def ind_collect(ck, res):
    ok = [r for r in res if r.get('unb') == 'proved']
    for r in ok: ck.count(sum(r['nobl'].values()), 'induction over the loops, linear integer arithmetic over symbolic lengths (z3 4.8)')
    ck.extra['proved_for_all_lengths'] = sorted(r['name'] for r in ok)
    ck.extra['not_proved_for_all_lengths'] = ['%s: %s' % (r['name'], r.get('why', '')) for r in res if r.get('unb') == 'unproved']

def unb_collect(ck, res):
    """fold the unbounded proofs into the evidence"""
    ok = {(r['key'], r['fn']): r for r in res if r.get('unb') == 'proved'}
    full = []; rel = []; z = 0.0
    for r in ok.values():
        nm = r['name'].rsplit('/', 1)[0]
        ck.count(sum(r['nobl'].values()), 'linear integer arithmetic over symbolic shapes (z3 4.8)'); z += r['z3']
        nd = r.get('needs')
        if nd is None or (nd[:3], nd[3]) in ok: full.append(nm)
        else: rel.append('%s (given the contract of %s)' % (nm, nd[3]))
    ck.extra['classes_proved_for_all_shapes'] = len(full)
    ck.extra['proved_for_all_shapes'] = sorted(full)
    ck.extra['proved_for_all_shapes_relative_to_a_kernel'] = sorted(rel)
    ck.extra['not_proved_for_all_shapes'] = ['%s: %s' % (r['name'].rsplit('/', 1)[0], r.get('why', '')) for r in res if r.get('unb') == 'unproved']
    ck.extra['unbounded_paths'] = sum(r.get('paths', 0) for r in res)
    ck.extra['z3_integer_s'] = round(z, 1)

def tall(tier):
    """trees with classes of high angular momentum, generated class by class"""
    return ['tallg', 'talle', 'tallm', 'tallk'] + (['tallx'] if tier == 'thorough' else [])

def tall_tasks(tier, der, kinds=None):
    ts = []
    for v in tall(tier):
        if der > build.VARIANTS[v].get('d', 1): continue
        for am in build.VARIANTS[v]['only1' if der else 'only']: ts.append((task, (v, der, am, 'heavy', None, kinds), weight(der, am)))
    return ts

def fallback(name, variant, der, am, conf, why, tol=False):
    fn = fname(der, am)
    rels = deps(variant, fn)
    bad = []; n = 0
    if tol:
        rep = screen_replay(variant, der, am, conf, fn)
        if rep['reproduced']: return dict(name=name, fn='@' + fn, bad=[('screening', 'bounded stand-in: ' + rep['detail'])], replay=rep, obl={}, mem=0, instr=0, bounded=why)
    for seed in (1, 2):
        rep = replay.eri_replay(variant, der, am, conf, fn, rels, seed=seed, worksize=None)
        n += 1
        if rep['reproduced']: return dict(name=name, fn='@' + fn, bad=[('integral', 'bounded stand-in: ' + rep['detail'])], replay=rep, obl={}, mem=0, instr=0, bounded=why)
    return dict(name=name, fn='@' + fn, bad=[], obl={}, mem=0, instr=0, bounded='%s (bounded stand-in: %d random inputs of one configuration)' % (why[:200], n))

def screen_replay(variant, der, am, conf, fn):
    fn = fn.lstrip('@')
    rels = deps(variant, fn); rep = dict(reproduced=False, detail='')
    L = layout.get(variant)['L']
    wide = ([2, 1, 2], 3, [(5 * k * k + 3 * k) % (L + 2) + 1 for k in range(2 * L + 2)], 2 * L + 2)
    # negligible primitives (nothing else may change) first, then borderline ones
    for seed, tol2, tiny, cf in ((1, 0.1, .5, conf), (5, 0.1, .6, wide), (6, 0.1, .75, wide), (7, 0.1, .85, wide), (2, 1.0, 0.0, conf), (3, 1.5, 0.0, wide)):
        rep = replay.eri_replay(variant, der, am, cf, fn, rels, seed=seed, tol=tol2, worksize=None, tiny=tiny)
        if rep['reproduced']: break
    return rep

def fname(der, am): return 'ostei_' + ('deriv1_' if der else '') + '_'.join(eri.AMC[l] for l in am)

def deps(variant, fn):
    """files needed to link fn: transitive closure over names mentioned in generated sources"""
    import re, os
    d = build.defs(variant); src = build.source(variant) + '/src/'
    todo = [fn]; files = []
    while todo:
        f = todo.pop()
        rel = d.get(f)
        if rel is None or rel in files: continue
        files.append(rel)
        with open(src + rel) as fh: s = fh.read()
        for m in re.finditer(r'\b((?:ostei|HRR|VRR)_\w+)\s*\(', s):
            if m.group(1) in d and d[m.group(1)] not in files: todo.append(m.group(1))
    return files

def collect(ck, results, obl_kinds=None, kinds=None):
    """fold task results into the check; kinds: which violation kinds belong to this property"""
    framework.add_replays([r for r in results if any(kinds is None or b[0] in kinds for b in r.get('bad', ()))])
    for r in results:
        if 'error' in r:
            ck.undecided.append('%s: %s' % (r['name'], r['error'][:600])); continue
        if r.get('bounded'): ck.bounded.append('%s: %s' % (r['name'], r['bounded']))
        n = sum(v for k, v in r['obl'].items() if obl_kinds is None or k in obl_kinds)
        if kinds is None or 'mem' in kinds: n += r['mem']; ck.count(r['mem'], 'interval/bounds checker (vt.execu)')
        ck.count(sum(v for k, v in r['obl'].items() if obl_kinds is None or k in obl_kinds), 'exact ring normaliser (vt.terms)')
        if r.get('fn'): ck.functions[r['name'].split('/')[0] + ':' + r['fn'].lstrip('@')] = 1
        bad = [b for b in r['bad'] if kinds is None or b[0] in kinds]
        if bad:
            ck.count(len(bad), 'failed', 0)
            rep = r.get('replay') or {}
            ck.violation('%s:%s' % (bad[0][0], r['name']), bad[0][1], rep.get('detail'), rep.get('reproduced', False), dict(all=[b[1] for b in bad], task=r['name']))
        if len(ck.samples) < 12 and not r['bad']:
            ck.samples.append(dict(function=r.get('fn'), task=r['name'], obligations=r['obl'], memory_obligations=r['mem'], instructions=r['instr']))
