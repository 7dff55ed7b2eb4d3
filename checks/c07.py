import itertools
from .common import *

RULE = 'concrete grids (sizes x edge modes x edge selections): z3 decides equivalence of the real clauses with the specification'
BOUND = 'bounded companion: width, height <= 3 (quick) / 6 (thorough), all selections'
ASSUMPTIONS = ['IDPool._next returns a new variable on every call (pysat)']

# every accepted form of the argument, with the four edges (left, top, right, bottom) it selects
FORMS = [((), (True,) * 4), ((True,), (True,) * 4), ((False,), (False,) * 4)]
FORMS += [(((h, v),), (h, v, h, v)) for h in (True, False) for v in (True, False)]
FORMS += [((e,), e) for e in itertools.product((True, False), repeat=4)]
RULES = [('block_belts_through_edges', G.belts_blocked), ('block_underground_through_edges', G.undergrounds_blocked)]


def base(v, x, y):
    return G.base(v, x, y)


def conc(ctx, w, h, wrap, name, spec, args, edges):
    g = conc_grid(w, h, wrap)
    n = len(g.clauses)
    getattr(g, name)(*args)
    B.equivalence(ctx, G.ConcView(g, wrap), g.clauses[n:], lambda v, x, y: spec(v, x, y, edges), base=base, label=name, params=dict(edges=repr(args)))


def tasks(tier):
    ts = [accessor_task()]
    for name, spec in RULES:
        for wrap in WRAPS[:2] if tier == 'quick' else WRAPS:
            for args, edges in FORMS:
                ts.append(rule_task(f'{name}{args}', wrap, lambda E, g, name=name, args=args: E.call(getattr(g, name), args),
                                    lambda v, x, y, spec=spec, edges=edges: spec(v, x, y, edges)))
            cs = [lambda ctx, w=w, h=h, wrap=wrap, name=name, spec=spec, a=a, e=e: conc(ctx, w, h, wrap, name, spec, a, e)
                  for w, h in ([(1, 1), (2, 1), (1, 3), (3, 3)] if tier == 'quick' else B.sizes(tier)) for a, e in FORMS]
            ts.append(bound_task(f'{name} {wrap}', cs))
    return ts


def directed(ctx, r):
    p = model_params(r[2])
    for name, spec in RULES:
        for a, e in FORMS:
            conc(ctx, min(p.get('W', 3), 5), min(p.get('H', 3), 5), (False, False), name, spec, a, e)
