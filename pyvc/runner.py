"""Runs one property's check: proof tasks (deciding), bounded tasks (replay / stand-in), evidence and verdict."""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
if ROOT not in sys.path:
    sys.path.insert(0, ROOT)
if '/repo' not in sys.path:
    sys.path.insert(0, '/repo')


class Failure(Exception):
    """A failing input on the real code."""

    def __init__(self, what, **data):
        super().__init__(what)
        self.what, self.data = what, data


def _task_main(conn, fn, kind, seed, tier):
    import random
    import resource
    out = dict(kind=kind, results=[], functions={}, failures=[], evaluations=0, distinct=0, samples=[], note=None, error=None,
               solver_s=0.0)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        sys.setrecursionlimit(20000)
        random.seed(seed)
        fn(TaskCtx(out, seed, tier))
    except Failure as f:
        out['failures'].append((f.what, f.data))
    except BaseException as e:      # engine signals are BaseException
        from pyvc.sym import EngineError
        tb = traceback.extract_tb(e.__traceback__)
        where = f'{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}' if tb else ''
        own = [f.filename for f in tb if f.filename.startswith('/repo/') or f.filename.startswith(ROOT)]
        if kind == 'bounded' and isinstance(e, Exception) and own and own[-1].startswith('/repo/'):
            out['failures'].append((f'the code raises {type(e).__name__}: {str(e)[:300]} ({where})', {'traceback': traceback.format_exc()[-3000:]}))
        else:
            out['error'] = (type(e).__name__, str(e)[:500], where, isinstance(e, EngineError), traceback.format_exc()[-3000:])
    try:
        conn.send(out)
    except Exception as e:
        out['failures'] = [(w, {'data': repr(d)[:2000]}) for w, d in out['failures']]
        out['samples'] = [repr(s)[:500] for s in out['samples']]
        conn.send(out)
    conn.close()


class TaskCtx:
    def __init__(self, out, seed, tier):
        self.out, self.seed, self.tier = out, seed, tier
        self.thorough = tier == 'thorough'
        import random
        self.rng = random.Random(seed)

    def prover(self, name, timeout_ms=20000):
        from pyvc.prove import Prover
        p = Prover(name, timeout_ms)
        p.results = self.out['results']
        return p

    def functions(self, engine):
        for k, v in engine.functions.items():
            self.out['functions'][k] = self.out['functions'].get(k, 0) + v

    def obligation(self, name, ok, detail=None, secs=0.0):
        """An obligation decided without a solver query (structural identity or exhaustive finite case)."""
        self.out['results'].append((name, 'proved' if ok else 'refuted', secs, detail))

    def unknown(self, name, detail=None):
        self.out['results'].append((name, 'unknown', 0.0, detail))

    def eval(self, n=1, distinct=None):
        self.out['evaluations'] += n
        self.out['distinct'] += n if distinct is None else distinct

    def sample(self, s):
        if len(self.out['samples']) < 3:
            self.out['samples'].append(s)

    def fail(self, what, **data):
        self.out['failures'].append((what, data))

    def require(self, cond, what, **data):
        if not cond:
            raise Failure(what, **data)


class Task:
    def __init__(self, name, fn, kind='proof', timeout=240):
        self.name, self.fn, self.kind, self.timeout = name, fn, kind, timeout


def run_tasks(tasks, seed, tier, jobs=None, deadline=None):
    jobs = jobs or min(8, os.cpu_count() or 4)
    ctx = mp.get_context('fork')
    pending = list(tasks)
    running = []
    done = {}
    while pending or running:
        while pending and len(running) < jobs:
            t = pending.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_task_main, args=(w, t.fn, t.kind, seed, tier))
            p.start()
            w.close()
            running.append((t, p, r, time.time()))
        from multiprocessing.connection import wait
        wait([r for _, _, r, _ in running], timeout=0.2)
        still = []
        for t, p, r, start in running:
            if r.poll():
                try:
                    out = r.recv()
                except EOFError:
                    out = None
                p.join()
                if out is None:
                    out = dict(kind=t.kind, results=[], functions={}, failures=[], evaluations=0, distinct=0, samples=[],
                               error=('Died', 'task process ended', '', True, ''), solver_s=0.0)
                out['wall'] = time.time() - start
                done[t.name] = out
            elif time.time() - start > t.timeout or (deadline and time.time() > deadline):
                p.kill()
                p.join()
                done[t.name] = dict(kind=t.kind, results=[], functions={}, failures=[], evaluations=0, distinct=0, samples=[],
                                    error=('Timeout', f'{t.timeout} s', '', True, ''), wall=time.time() - start, solver_s=0.0)
            else:
                still.append((t, p, r, start))
        running = still
    return done


def dependencies(mod):
    """The tasks of other checks that establish contracts this check relies on (checks/depends.py)."""
    import re
    out = []
    for pid, pattern in importlib.import_module('checks.depends').DEPENDS.get(mod.__name__.split('.')[-1].upper(), []):
        other = importlib.import_module(f'checks.{pid.lower()}')
        for t in other.tasks('quick'):
            if re.search(pattern, t.name):
                out.append(Task(f'{pid}: {t.name}', t.fn, t.kind, t.timeout))
    return out


TRUSTED = [
    'pyvc (this framework): the AST interpreter of the stated Python subset, its loop/family rule and clause-schema extraction',
    'z3 5.3.2 (SMT solver, back end of every discharged obligation)',
    'CPython 3.12 semantics of builtins, enum, dataclasses, namedtuple and numpy object arrays used natively on concrete values',
]


def known_findings():
    path = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)['findings']


def jsonable(o, depth=0):
    if isinstance(o, (str, int, float, bool, type(None))):
        return o
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in o]
    return repr(o)[:2000]


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', argv[1] if len(argv) > 1 else 'quick')
    if len(argv) > 1:
        tier = argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    evidence_dir = os.path.join(ROOT, 'evidence')
    os.makedirs(evidence_dir, exist_ok=True)
    mod = importlib.import_module(f'checks.{pid.lower()}')
    try:
        tasks = mod.tasks(tier)
    except Exception as e:   # the code under test cannot even be imported
        tasks = [Task('import', lambda c: c.fail('the code cannot be loaded', error=traceback.format_exc()), 'bounded')]
    deps = []
    try:
        deps = dependencies(mod)
    except Exception:
        traceback.print_exc()
    done = run_tasks(tasks + deps, seed, tier)
    dep_names = {t.name for t in deps}
    tasks = tasks + deps

    failures, refuted, undecided = [], [], []
    obligations = discharged = evaluations = distinct = 0
    solver_s = 0.0
    functions, samples, notes = {}, [], []
    bounded_tasks = []
    for t in tasks:
        o = done[t.name]
        for name, status, secs, detail in o['results']:
            obligations += 1
            solver_s += secs
            if status == 'proved':
                discharged += 1
            elif status == 'refuted':
                refuted.append((t.name, name, detail))
            else:
                undecided.append((t.name, name, detail or 'solver gave up'))
        for what, data in o['failures']:
            failures.append((t.name, what, data))
        if o['error']:
            undecided.append((t.name, 'task', ' '.join(o['error'][:3])))
            if os.environ.get('VERIF_DEBUG'):
                print(o['error'][4], file=sys.stderr)
        evaluations += o['evaluations']
        distinct += o['distinct']
        samples += o['samples']
        for k, v in o['functions'].items():
            functions[k] = functions.get(k, 0) + v
        if o['kind'] == 'bounded':
            bounded_tasks.append((t.name, o['evaluations'], o['error'][:2] if o['error'] else None))

    # a bounded stand-in that could not run at all decides nothing; report it as undecided, not as a violation
    findings = [f for f in known_findings() if f.get('property') == pid and f.get('status') == 'known']
    real, known = [], []
    for f in failures:
        hit = next((k for k in findings if k['match'] in f[1]), None)
        (known if hit else real).append(f)
        if hit:
            print(f"KNOWN-FINDING: property={pid} {hit['what']}")

    # directed replay of refuted obligations
    dt = []
    for i, r in enumerate(refuted[:6] + [r for r in refuted[6:] if r[0] in dep_names][:6]):
        owner, plain = mod, r
        if r[0] in dep_names:
            owner = importlib.import_module(f'checks.{r[0].split(":")[0].lower()}')
            plain = (r[0].split(': ', 1)[1], *r[1:])
        if hasattr(owner, 'directed'):
            dt.append(Task(f'directed {i}', (lambda c, r=plain, owner=owner: owner.directed(c, r)), 'bounded', 120))
    if dt and not real:
        for n, o in run_tasks(dt, seed, tier).items():
            for what, data in o['failures']:
                real.append((n, what, data))
    if not real:
        # without a failing input, a dependency's refuted obligation is reported by its own check only
        undecided += [r for r in refuted if r[0] in dep_names]
        refuted = [r for r in refuted if r[0] not in dep_names]

    replay = os.path.join(evidence_dir, f'{pid}.replay.json')
    rc = 0
    violation = None
    if real:
        rc = 1
        with open(replay, 'w') as f:
            json.dump(jsonable(dict(property=pid, kind='failing input on the real code', failures=[dict(task=a, what=b, data=c) for a, b, c in real[:10]],
                                    refuted_obligations=[dict(task=a, obligation=b, model=c) for a, b, c in refuted[:10]])), f, indent=1)
        violation = f'VIOLATION property={pid} replay={replay}'
    elif refuted:
        rc = 1
        with open(replay, 'w') as f:
            json.dump(jsonable(dict(property=pid, kind='failed proof obligation', failed_obligations=[dict(task=a, obligation=b, verifier_output=c) for a, b, c in refuted[:20]])), f, indent=1)
        violation = f'VIOLATION property={pid} replay={replay} no-failing-input-found'

    level = getattr(mod, 'LEVEL', 'proof')
    cov = dict(
        obligations=obligations, discharged=discharged,
        checker_cmd=f'python run_check.py {pid} {tier}',
        trusted_base=TRUSTED + list(getattr(mod, 'TRUSTED', [])),
        backend='z3 5.3.2', solver_time_s=round(solver_s, 2),
        functions_under_contract=sorted(functions), functions_interpreted=len(functions),
        undecided=[dict(task=a, obligation=b, why=c) for a, b, c in undecided][:40],
        bounded_stand_ins=[dict(task=a, evaluations=b, problem=c) for a, b, c in bounded_tasks],
        tasks_of_relied_on_checks=sorted(dep_names),
        evaluations=evaluations, distinct_nontrivial=distinct, samples=jsonable(samples[:6]),
        rule=getattr(mod, 'RULE', 'bounded tasks run the real code on concrete instances and compare with the same specification'),
        bound=getattr(mod, 'BOUND', ''),
    )
    if level == 'other':
        cov['explanation'] = getattr(mod, 'EXPLANATION', '')
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=jsonable(cov),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(time.time() - t0, 2), violations=len(real) or len(refuted))
    with open(os.path.join(evidence_dir, f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    print(f'{pid}: {discharged}/{obligations} obligations discharged, {len(undecided)} undecided, '
          f'{evaluations} bounded evaluations, {len(functions)} functions interpreted, {time.time() - t0:.1f} s')
    for a, b, c in undecided[:8]:
        print(f'  undecided: {a}: {b}: {c}'[:300])
    if os.environ.get('VERIF_DEBUG'):
        for t in tasks:
            print(f"  task {t.name}: {done[t.name]['wall']:.1f} s, {len(done[t.name]['results'])} obligations, {done[t.name]['evaluations']} evaluations")
    if violation:
        for a, b, c in (real or refuted)[:5]:
            print(f'  {a}: {b}'[:400])
        print(violation)
    # vacuity guard: a run that generated nothing decides nothing
    if rc == 0 and obligations == 0 and evaluations == 0:
        print(f'{pid}: nothing was checked')
        return 2
    return rc
