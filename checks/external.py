"""Contracts of ipasir.IPASIRSolver, executed with a recording library for clauses and variables of any number."""
import inspect

from .common import *
from .solving import flatten, same_items, untouched


class Pointer:
    """What ipasir_init returned."""

    def __repr__(self):
        return 'solver pointer'


def engine():
    from pyvc.ghost import Recorder, SymSet
    from pyvc.interp import Engine
    from pyvc.sym import Fam, SInt, iterm, z3
    E = Engine(timeout_ms=3000)
    E.trace = []
    E.ghost_sets = True
    I = z3.IntSort()
    val, failed = z3.Function('val', I, I), z3.Function('failed', I, I)
    R = z3.Int('result')
    P = Pointer()
    lib = Recorder(E, 'lib', ipasir_init=lambda r: P, ipasir_val=lambda r, p, v: SInt(val(iterm(v))), ipasir_solve=lambda r, p: SInt(R), ipasir_failed=lambda r, p, v: SInt(failed(iterm(v))))
    return E, lib, P, val, failed, R


def state(E, lib, P):
    """A solver after any history: the variables are any set of positive numbers."""
    from factorio_sat.ipasir import IPASIRSolver
    from pyvc.ghost import SymSet
    from pyvc.sym import Fam, SInt, z3
    s = object.__new__(IPASIRSolver)
    S, N, k = z3.Function('S', z3.IntSort(), z3.IntSort()), z3.Int('N'), E.fresh_bvar('k')
    i = z3.Int('i')
    object.__setattr__(s, 'lib', lib)
    object.__setattr__(s, 'solver_p', P)
    for name in ('_learn_callback', '_terminate_callback'):
        object.__setattr__(s, name, None)
    object.__setattr__(s, 'variables', SymSet(E, [Fam([k], z3.And(0 <= k, k < N), [(z3.BoolVal(True), [SInt(S(k))])], z3.IntVal(0), N)], distinct=True))
    return s, S, N, [N >= 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < N), S(i) > 0))]


def forget(s):
    """The ghost object must not run its own __del__ on the recorder."""
    object.__setattr__(s, 'solver_p', None)


def run_method(E, lib, P, name, args, released=False):
    from pyvc.interp import ghostly
    from pyvc.sym import Unsupported
    out = {}

    def run():
        s, S, N, hyp = state(E, lib, None if released else P)
        for h in hyp:
            E.assume(h)
        from factorio_sat.ipasir import IPASIRSolver
        a = [x(E) if callable(x) and getattr(x, 'make', False) else x for x in args]
        try:
            try:
                r, err = E.call(getattr(IPASIRSolver, name), (s, *a)), None
            except Exception as e:
                if ghostly(e):
                    raise Unsupported(str(e))
                r, err = None, e
            return dict(r=r, err=err, p=s.solver_p, variables=list(s.variables.content), trace=list(E.trace), self=s, args=a, S=S, N=N, hyp=hyp)
        finally:
            pass
    paths = E.explore(run)
    for q in paths:
        if q.outcome == 'normal':
            forget(q.value['self'])
    return paths


def symbolic_clause(E):
    from pyvc.sym import Fam, SInt, z3
    q, n = E.fresh_bvar('q'), z3.Int('n')
    lit = z3.Function('lit', z3.IntSort(), z3.IntSort())
    return [Fam([q], z3.And(0 <= q, q < n), [(z3.BoolVal(True), [SInt(lit(q))])], z3.IntVal(0), n)]


def symbolic_clauses(E):
    from pyvc.sym import Fam, SInt, z3
    I = z3.IntSort()
    c, q, n, size = E.fresh_bvar('c'), E.fresh_bvar('q'), z3.Int('m'), z3.Function('size', I, I)
    lit = z3.Function('literal', I, I, I)
    clause = [Fam([q], z3.And(0 <= q, q < size(c)), [(z3.BoolVal(True), [SInt(lit(c, q))])], z3.IntVal(0), size(c))]
    return [Fam([c], z3.And(0 <= c, c < n), [(z3.BoolVal(True), [clause])], z3.IntVal(0), n)]


symbolic_clause.make = symbolic_clauses.make = True


def events(arg, P, nested):
    """The library calls that add these clauses."""
    from pyvc.sym import Fam

    def clause(c):
        out = []
        for i in c:
            if isinstance(i, Fam):
                out.append(Fam(i.vars, i.guard, [(g, [('lib', 'ipasir_add', (P, l), {}) for l in its]) for g, its in i.alts], i.lo, i.hi))
            else:
                out.append(('lib', 'ipasir_add', (P, i), {}))
        return out + [('lib', 'ipasir_add', (P, 0), {})]
    if not nested:
        return clause(arg)
    return [Fam(i.vars, i.guard, [(g, [e for c in its for e in clause(c)]) for g, its in i.alts], i.lo, i.hi) if isinstance(i, Fam) else e for i in arg for e in (clause(i) if not isinstance(i, Fam) else [None])]


def add_task(name, arg, nested):
    def fn(ctx):
        from pyvc.sym import Fam, iterm, z3
        E, lib, P, val, failed, R = engine()
        paths = run_method(E, lib, P, name, [arg])
        ctx.functions(E)
        p = ctx.prover(name)
        hy = []
        for k, path in enumerate(paths):
            v = path.value
            ok = path.outcome == 'normal' and v['err'] is None
            ctx.obligation(f'{name}: path {k}: does not fail', ok, repr(v)[:400])
            if not ok:
                continue
            hy.append(path.cond)
            ctx.obligation(f'{name}: path {k}: exactly the literals of every clause, each clause ended by 0', same_items(v['trace'], events(v['args'][0], P, nested)), repr(v['trace'])[:800])
            ctx.obligation(f'{name}: path {k}: the solver stays usable and its argument unchanged', v['p'] is P and untouched(path, *[a for a in v['args']]))
            lits = [(g, vs, i) for g, vs, i in flatten(x for c in v['args'][0] for x in ([c] if not nested else [c]))] if not nested else \
                [(z3.And(g, g2), tuple(vs) + tuple(vs2), l) for g, vs, c in flatten(v['args'][0]) for g2, vs2, l in flatten(c)]
            K = z3.Int('K')
            old = lambda t: z3.Exists([K], z3.And(0 <= K, K < v['N'], v['S'](K) == t))
            have, cover = [], []
            start = state_items(v)
            for g, vs, i in flatten(v['variables']):
                t = iterm(i)
                if t.decl().eq(v['S']):
                    have.append('old')
                    continue
                hit = [q for q in lits if len(q[1]) == len(vs)]
                gs = [z3.And(z3.substitute(q[0], *zip(q[1], vs)), t == z3.If(z3.substitute(iterm(q[2]), *zip(q[1], vs)) >= 0, z3.substitute(iterm(q[2]), *zip(q[1], vs)), -z3.substitute(iterm(q[2]), *zip(q[1], vs)))) for q in hit]
                p.goal(p.solver(path.conds + [g]), f'path {k}: only variables of the clauses are added', z3.Or(gs) if gs else z3.BoolVal(False))
                cover.append((g, vs))
            ctx.obligation(f'{name}: path {k}: known variables stay known', 'old' in have)
            for g, vs, l in lits:
                # every literal has its variable recorded (same indices)
                cs = [z3.substitute(g2, *zip(vs2, vs)) for g2, vs2 in cover if len(vs2) == len(vs)]
                p.goal(p.solver(path.conds + [g]), f'path {k}: every variable is recorded', z3.Or(cs) if cs else z3.BoolVal(False))
        p.goal(p.solver([]), 'paths cover', z3.Or(hy) if hy else z3.BoolVal(False))
    return Task(f'proof {name}', fn, 'proof', 60)


def state_items(v):
    return v['variables']


def model_task():
    def fn(ctx):
        from pyvc.sym import iterm, z3
        E, lib, P, val, failed, R = engine()
        paths = run_method(E, lib, P, 'get_model', [])
        ctx.functions(E)
        p = ctx.prover('get_model')
        for k, path in enumerate(paths):
            v = path.value
            ok = path.outcome == 'normal' and v['err'] is None and isinstance(v['r'], list)
            ctx.obligation(f'get_model: path {k}: a list', ok, repr(v)[:400])
            if not ok:
                continue
            K = z3.Int('K')
            S, N = v['S'], v['N']
            want = z3.If(val(S(K)) == 0, S(K), val(S(K)))
            pairs = [(g, vs, iterm(i)) for g, vs, i in flatten(v['r'])]
            cover = []
            for g, vs, t in pairs:
                ctx.obligation(f'get_model: path {k}: one literal per variable', len(vs) == 1)
                q = [(vs[0], K)]
                g, t = z3.substitute(g, *q), z3.substitute(t, *q)
                p.goal(p.solver(v['hyp'] + path.conds + [g]), f'path {k}: the value the library gives (the variable itself where it gives none)', z3.And(0 <= K, K < N, t == want))
                cover.append(g)
            s = p.solver(v['hyp'] + path.conds + [0 <= K, K < N])
            p.goal(s, f'path {k}: every variable', z3.Or(cover) if cover else z3.BoolVal(False))
            for a in range(len(cover)):
                for b in range(a):
                    p.goal(s, f'path {k}: no variable twice', z3.Not(z3.And(cover[a], cover[b])))
            asked = list(flatten(v['trace']))
            ctx.obligation(f'get_model: path {k}: only asks for values of this solver', all(e[:2] == ('lib', 'ipasir_val') and e[2][0] is P for _, _, e in asked), repr(asked)[:400])
            ctx.obligation(f'get_model: path {k}: the state is kept', v['p'] is P and untouched(path, v['self']))
    return Task('proof get_model', fn, 'proof', 60)


def answer_task():
    def fn(ctx):
        from pyvc.sym import SInt, z3
        E, lib, P, val, failed, R = engine()
        paths = run_method(E, lib, P, 'solve', [])
        p = ctx.prover('ipasir solve')
        p.goal(p.solver([]), 'paths cover', z3.Or([q.cond for q in paths]))
        for k, path in enumerate(paths):
            v = path.value
            ctx.obligation(f'ipasir solve: path {k}: asks the library once', v['trace'] == [('lib', 'ipasir_solve', (P,), {})], repr(v['trace']))
            s = p.solver(path.conds)
            if v['err'] is not None:
                p.goal(s, f'path {k}: only unknown results are an error', z3.And(R != 0, R != 10, R != 20))
            elif v['r'] is None:
                p.goal(s, f'path {k}: 0 is no answer', R == 0)
            else:
                ctx.obligation(f'ipasir solve: path {k}: a truth value', v['r'] is True or v['r'] is False, repr(v['r']))
                p.goal(s, f'path {k}: {v["r"]}', R == (10 if v['r'] is True else 20))
        L = SInt(z3.Int('literal'))
        for k, path in enumerate(run_method(E, lib, P, 'assume', [L])):
            v = path.value
            ctx.obligation(f'assume: path {k}: passes the literal on', v['err'] is None and same_items(v['trace'], [('lib', 'ipasir_assume', (P, L), {})]), repr(v['trace']))
        for k, path in enumerate(run_method(E, lib, P, 'unsat_used_assumption', [L])):
            v = path.value
            from pyvc.sym import bterm
            ctx.obligation(f'unsat_used_assumption: path {k}: asks the library', v['err'] is None and same_items(v['trace'], [('lib', 'ipasir_failed', (P, L), {})]), repr(v['trace']))
            p.goal(p.solver(path.conds), f'unsat_used_assumption: path {k}', bterm(v['r']) == (failed(L.t) != 0))
        ctx.functions(E)
    return Task('proof ipasir solve', fn, 'proof', 60)


def release_task():
    """A released solver is never used or released again, whatever is called; leaving the with block and deletion release once."""
    def fn(ctx):
        from factorio_sat.ipasir import IPASIRSolver
        from pyvc.sym import SInt, z3
        E, lib, P, val, failed, R = engine()
        given = dict(add_clause=[symbolic_clause], add_clauses=[symbolic_clauses], assume=[1], unsat_used_assumption=[1], set_learn=[print], set_terminate=[print], __exit__=[None, None, None])
        for name, f in sorted(vars(IPASIRSolver).items()):
            if not inspect.isfunction(f) or name in ('__init__', 'check_closed'):
                continue
            args = given.get(name)
            if args is None:
                args = [1] * sum(q.default is q.empty and q.kind == q.POSITIONAL_OR_KEYWORD for q in list(inspect.signature(f).parameters.values())[1:])
            for k, path in enumerate(run_method(E, lib, P, name, args, released=True)):
                v = path.value
                if not isinstance(v, dict):
                    ctx.obligation(f'{name} after release: path {k}: checked', False, f'{path.outcome} {v!r}')
                    continue
                ctx.obligation(f'{name} after release: path {k}: the library is not called', v['trace'] == [], repr(v['trace'])[:400])
                ctx.obligation(f'{name} after release: path {k}: stays released', v['p'] is None)
                public = not name.startswith('_') or name in ('__enter__', '__exit__')
                if public and getattr(IPASIRSolver, name).__code__.co_names and name not in HARMLESS:
                    ctx.obligation(f'{name} after release: path {k}: is an error', v['err'] is not None, repr(v['r'])[:200])
        for name, args in (('__exit__', [None, None, None]), ('__exit__', [KeyError, KeyError('x'), None]), ('__del__', [])):
            for k, path in enumerate(run_method(E, lib, P, name, args)):
                v = path.value
                ctx.obligation(f'{name}: path {k}: releases the solver once', v['err'] is None and v['trace'] == [('lib', 'ipasir_release', (P,), {})] and not v['r'], repr(v['trace'])[:400])
                if name == '__exit__':
                    ctx.obligation(f'{name}: path {k}: the solver counts as released', v['p'] is None)
        for k, path in enumerate(run_method(E, lib, P, '__enter__', [])):
            v = path.value
            ctx.obligation(f'__enter__: path {k}: gives the solver itself', v['err'] is None and v['r'] is v['self'] and v['trace'] == [] and v['p'] is P)

        def create():
            s = object.__new__(IPASIRSolver)
            E.call(IPASIRSolver.__init__, (s, lib))
            return s, s.solver_p, s.lib, list(E.trace), list(s.variables.content)
        for k, path in enumerate(E.explore(create)):
            s, sp, l, trace, content = path.value
            ctx.obligation(f'create: path {k}: a new solver of the library without variables', sp is P and l is lib and trace == [('lib', 'ipasir_init', (), {})] and content == [])
            object.__setattr__(s, 'solver_p', None)
        ctx.functions(E)
    return Task('proof release', fn, 'proof', 60)


HARMLESS = ()


def library_tasks():
    return [add_task('add_clause', symbolic_clause, False), add_task('add_clauses', symbolic_clauses, True), model_task(), answer_task(), release_task()]
