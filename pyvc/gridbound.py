"""Bounded companion: the real code, run natively on concrete grids, compared with the same specification."""
import sys

if '/repo' not in sys.path:
    sys.path.insert(0, '/repo')
from .sym import z3
from specs import grid as G


def clause_formula(c):
    lits = [z3.Bool(f'v{l}') if l > 0 else z3.Not(z3.Bool(f'v{-l}')) for l in c]
    return z3.Or(*lits) if lits else z3.BoolVal(False)


def spec_all(view, spec):
    return [(f'({x},{y}) {n}', f) for x, y in view.cells() for n, f in spec(view, x, y)]


def describe(view, model):
    out = {}
    for x, y in view.cells():
        inst = view.grid.tiles[y, x]
        d = {}
        for name in inst._fields:
            v = getattr(inst, name)

            def val(l):
                return bool(z3.is_true(model.eval(z3.Bool(f'v{abs(l)}'), model_completion=True))) == (l > 0)
            try:
                d[name] = [int(val(l)) for l in v] if isinstance(v, list) else int(val(v))
            except Exception:
                pass
        out[f'{x},{y}'] = {k: v for k, v in d.items() if k not in ('type', 'all_direction')}
    return out


def equivalence(ctx, view, clauses, spec, base=None, hyps=(), label='', params=None, sound=True, complete=True, aux=False, timeout=60000):
    """Every model of clauses satisfies spec, and every assignment satisfying spec satisfies clauses (given base)."""
    code = [clause_formula(c) for c in clauses]
    sp = spec if isinstance(spec, list) else spec_all(view, spec)
    bs = [] if base is None else (base if isinstance(base, list) else [f for _, f in spec_all(view, base)])
    ctx.eval(1)
    params = dict(params or {}, width=view.W, height=view.H, wrap=list(view.wrap), rule=label)
    ctx.sample(params)
    if sound:
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(*bs, *code, *hyps)
        s.add(z3.Not(z3.And([f for _, f in sp])))
        r = s.check()
        if r == z3.sat:
            m = s.model()
            bad = [n for n, f in sp if not z3.is_true(m.eval(f, model_completion=True))]
            ctx.fail(f'{label}: a model breaks the rule: {bad[:3]}', kind='model violates the specification', params=params,
                     violated=bad[:10], model=describe(view, m))
            return False
    if complete:
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(*bs, *[f for _, f in sp], *hyps)
        if aux:
            vs = aux if isinstance(aux, list) else []
            if code:
                s.add(z3.ForAll([z3.Bool(f'v{a}') for a in vs], z3.Not(z3.And(code))) if vs else z3.Not(z3.And(code)))
            else:
                s.add(z3.BoolVal(False))
        else:
            s.add(z3.Not(z3.And(code)) if code else z3.BoolVal(False))
        r = s.check()
        if r == z3.sat:
            m = s.model()
            bad = [i for i, f in enumerate(code) if not z3.is_true(m.eval(f, model_completion=True))]
            ctx.fail(f'{label}: an allowed layout is excluded', kind='allowed assignment excluded', params=params,
                     excluding_clauses=[clauses[i] for i in bad[:5]], model=describe(view, m))
            return False
    return True


SIZES_QUICK = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3), (3, 2), (2, 3), (3, 3)]
SIZES_THOROUGH = SIZES_QUICK + [(4, 1), (1, 5), (4, 3), (3, 4), (5, 2), (4, 4), (6, 3), (5, 5)]


def sizes(tier):
    return SIZES_THOROUGH if tier == 'thorough' else SIZES_QUICK
