"""Shared pieces of the grid checks."""
import sys
if '/repo' not in sys.path:
    sys.path.insert(0, '/repo')
from pyvc.runner import Task, Failure
from pyvc import gridbound as B
from specs import grid as G

WRAPS = [(False, False), (True, True), (True, False), (False, True)]


def mode_of(wrap):
    from factorio_sat.template import EdgeMode
    m = {True: EdgeMode.WRAP, False: EdgeMode.NO_WRAP}
    return (m[wrap[0]], m[wrap[1]])


def sym_grid(E, W, H, mode, pool, colours='sym', **kw):
    """Grid of symbolic size; colours: None, int or 'sym' (any positive number)."""
    from pyvc.gridproof import grid_of
    from pyvc.sym import SInt, z3
    if colours == 'sym':
        C = z3.Int('C')
        E.assume(C >= 1)
        colours = SInt(C)
    return grid_of(E, W, H, mode, pool, colours=colours, **kw)


def colour_term(colours):
    from pyvc.sym import z3
    return z3.Int('C') if colours == 'sym' else colours


def rule_task(name, wrap, call, spec, colours=None, setup=None, R=1, base=True, params=(), contracts=None, mk_grid=None,
              timeout=300, on_base=False, slow_ms=20000, merge=False):
    """Proof task: the clauses `call(E, grid)` adds to a grid of any size are equivalent to `spec`.

    on_base=True checks the clauses the constructor itself emits."""
    def fn(ctx):
        from pyvc.gridproof import GridRun, RuleProof, same_prefix, accessor_obligations
        from pyvc.prove import schemas
        from pyvc.sym import z3
        hy = [z3.Int('C') >= 1] if colours == 'sym' else []
        hy += list(params)

        def build(E, W, H, mode, pool, run):
            for h in params:
                E.assume(h)
            g = (mk_grid or sym_grid)(E, W, H, mode, pool, colours=colours)
            if setup:
                setup(E, g)
            before = list(g.clauses)
            if call is not None:
                call(E, g)
            return g, before
        run = GridRun(wrap, build, contracts=contracts, merge=merge)
        ctx.functions(run.E)
        p = ctx.prover(f'{name} wrap={wrap}', slow_ms)
        s0 = p.solver(run.hyp + hy)
        p.goal(s0, 'paths cover', z3.Or([q.cond for q in run.paths]) if run.paths else z3.BoolVal(False))
        for k, path in enumerate(run.paths):
            lab = f'path {k}: ' if len(run.paths) > 1 else ''
            hyps = run.hyp + hy + path.conds
            if path.outcome != 'normal':
                p.goal(p.solver(hyps), f'{lab}raises {type(path.value).__name__}: {path.value}', z3.BoolVal(False))
                continue
            g, before = path.value
            v = G.SymView(run.E, g, wrap)
            cbase = (lambda v, x, y: G.base(v, x, y, colour_term(colours))) if base is True else base
            if on_base:
                items = g.clauses
                cbase = None
            else:
                ctx.obligation(f'{name} wrap={wrap}:{lab}existing clauses kept', same_prefix(g.clauses, before, len(before)))
                items = g.clauses[len(before):]
            rp = RuleProof(p, v, schemas(items), spec, cbase, hyps, R=R)
            rp.sound(lab)
            rp.complete(lab)
    return Task(f'proof {name} wrap={wrap}', fn, 'proof', timeout)


def accessor_task():
    def fn(ctx):
        from pyvc.gridproof import accessor_obligations
        accessor_obligations(ctx.prover('accessors'), ctx)
    return Task('proof accessors', fn, 'proof', 120)


def bound_task(name, cases, timeout=300):
    """cases: iterable of callables(ctx)."""
    def fn(ctx):
        for c in cases:
            if len(ctx.out['failures']) >= 3:
                break
            c(ctx)
    return Task(f'bounded {name}', fn, 'bounded', timeout)


def conc_grid(w, h, wrap, colours=None, **kw):
    from factorio_sat.solver import Grid
    return Grid(w, h, colours, edge_mode=mode_of(wrap), **kw)


def model_params(detail, names=('W', 'H', 'L', 'C')):
    """Integer parameters of a counter-model printed by z3."""
    import re
    out = {}
    for n in names:
        m = re.search(r'\b%s = (-?\d+)' % n, detail or '')
        if m:
            out[n] = int(m.group(1))
    return out
