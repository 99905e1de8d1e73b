"""Check driver: runs proof tasks in parallel, applies known findings, writes evidence and replays."""
import os, sys, json, time, traceback, multiprocessing as mp, re, signal
from . import build

VERIF = build.VERIF
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NPROC = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 2)

class TaskResult(dict): pass

def _run(a):
    fn, args = a
    t = time.time()
    try:
        r = fn(*args)
    except build.BuildError as e:
        r = dict(name=str(args), error='build: ' + str(e)[-1500:])
    except Exception as e:
        r = dict(name=str(args), error='%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
    r.setdefault('wall', time.time() - t)
    if r.get('bad') and 'replay' not in r: r['_task'] = (fn, args)
    return r

REPLAY = [False]
def add_replays(results, limit=6, secs=120):
    """run the replay of failed tasks on the real compiled code until one reproduces the failure"""
    todo = [r for r in results if r.get('bad') and '_task' in r]
    todo.sort(key=lambda r: r.get('cpu', 0)); t0 = time.time()
    for r in todo[:limit]:
        REPLAY[0] = True
        try: r['replay'] = _run(r['_task']).get('replay') or {}
        finally: REPLAY[0] = False
        if r['replay'].get('reproduced') or time.time() - t0 > secs: break

def run_tasks(tasks, budget=None):
    """tasks: list of (fn, args, weight).  Heaviest first.  Returns results in completion order."""
    tasks = sorted(tasks, key=lambda t: -t[2])
    if NPROC == 1 or len(tasks) == 1: return [_run((f, a)) for f, a, w in tasks]
    ctx = mp.get_context('fork')
    out = []
    with ctx.Pool(NPROC, maxtasksperchild=40) as pool:
        for r in pool.imap_unordered(_run, [(f, a) for f, a, w in tasks], chunksize=1): out.append(r)
    return out

class Check:
    def __init__(self, prop, level='proof'):
        self.prop = prop; self.t0 = time.time(); self.level = level
        self.obl = 0; self.dis = 0; self.backend = {}; self.functions = {}; self.notes = []
        self.violations = []   # dict(key, msg, replay)
        self.trusted = []; self.bounded = []; self.undecided = []
        self.samples = []; self.extra = {}; self.solver_s = 0.0

    def count(self, n, backend, discharged=None):
        """n obligations, of which `discharged` (default all) were discharged by backend"""
        d = n if discharged is None else discharged
        self.obl += n; self.dis += d
        self.backend[backend] = self.backend.get(backend, 0) + d

    def violation(self, key, msg, detail=None, reproduced=False, data=None):
        self.violations.append(dict(key=key, msg=msg, detail=detail, reproduced=reproduced, data=data or {}))

    def known(self):
        p = os.path.join(VERIF, 'known-findings.json')
        try:
            with open(p) as f: return [k for k in json.load(f)['findings'] if k.get('property') == self.prop]
        except (OSError, ValueError): return []

    def finish(self):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        known = self.known(); new = []; hit = {}
        for v in self.violations:
            k = next((k for k in known if re.fullmatch(k['match'], v['key'])), None)
            if k is not None: hit.setdefault(k['id'], (k, []))[1].append(v)
            else: new.append(v)
        rc = 0
        for kid, (k, vs) in hit.items(): print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        for k in known:
            if k['id'] not in hit: self.notes.append('known finding %s was not observed in this run' % k['id'])
        if new:
            rc = 1
            # reproduced ones first
            new.sort(key=lambda v: not v['reproduced'])
            path = os.path.join('replays', '%s.json' % self.prop)
            with open(os.path.join(VERIF, path), 'w') as f: json.dump(dict(property=self.prop, violations=new[:20]), f, indent=1, default=str)
            for v in new[:10]: print('  failed obligation %s: %s%s' % (v['key'], v['msg'], ('\n     replay: ' + str(v['detail'])[:600]) if v['detail'] else ''))
            tail = '' if new[0]['reproduced'] else ' no-failing-input-found'
            print('VIOLATION property=%s replay=%s%s' % (self.prop, path, tail))
        cov = dict(obligations=self.obl, discharged=self.dis, checker_cmd='python3-vt check.py %s' % self.prop,
                   trusted_base=self.trusted, backends=self.backend, functions_under_contract=len(self.functions),
                   functions=sorted(self.functions) if len(self.functions) < 400 else sorted(self.functions)[:400],
                   bounded=self.bounded, undecided=self.undecided, solver_s=round(self.solver_s, 2), samples=self.samples[:12],
                   known_findings_seen=sorted(hit), notes=self.notes)
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=self.level, coverage=cov,
                  wall_s=round(time.time() - self.t0, 2), violations=len(new))
        tmp = os.path.join(VERIF, 'evidence', '.%s.%d' % (self.prop, os.getpid()))
        with open(tmp, 'w') as f: json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(VERIF, 'evidence', self.prop + '.json'))
        print('%s: %d obligations, %d discharged, %d functions, %d undecided, %d bounded, %.1f s' % (self.prop, self.obl, self.dis, len(self.functions), len(self.undecided), len(self.bounded), ev['wall_s']))
        return rc
