from .common import *

RULE = 'concrete grids (sizes x edge modes): z3 decides equivalence of the real clauses with the specification'
BOUND = 'bounded companion: width, height <= 3 (quick) / 6 (thorough)'
ASSUMPTIONS = ['IDPool._next returns a new variable on every call (pysat)']


def conc(ctx, w, h, wrap):
    g = conc_grid(w, h, wrap)
    n = len(g.clauses)
    g.prevent_intersection()
    B.equivalence(ctx, G.ConcView(g, wrap), g.clauses[n:], G.intersection, base=lambda v, x, y: G.base(v, x, y), label='prevent_intersection')


def tasks(tier):
    ts = [accessor_task()]
    for wrap in WRAPS:
        ts.append(rule_task('prevent_intersection', wrap, lambda E, g: E.call(g.prevent_intersection), G.intersection))
        ts.append(bound_task(f'prevent_intersection {wrap}', [lambda ctx, w=w, h=h, wrap=wrap: conc(ctx, w, h, wrap) for w, h in B.sizes(tier)]))
    return ts


def directed(ctx, r):
    p = model_params(r[2])
    for wrap in WRAPS:
        conc(ctx, min(p.get('W', 3), 9), min(p.get('H', 3), 9), wrap)
