from .common import *

RULE = 'concrete grids (sizes x edge modes x colour counts): z3 decides equivalence of the real clauses with the specification'
BOUND = 'bounded companion: width, height <= 3 (quick) / 6 (thorough), colours <= 6'
ASSUMPTIONS = ['IDPool._next returns a new variable on every call (pysat)', 'literal signs act as Boolean negation']


def spec(colours):
    return lambda v, x, y: G.base(v, x, y, colour_term(colours))


def tasks(tier):
    ts = [accessor_task()]
    for wrap in WRAPS:
        for colours in ('sym', None):
            ts.append(rule_task(f'construction colours={colours}', wrap, None, spec(colours), colours=colours, on_base=True))

    def case(w, h, wrap, colours):
        def run(ctx):
            g = conc_grid(w, h, wrap, colours)
            v = G.ConcView(g, wrap)
            B.equivalence(ctx, v, g.clauses, lambda v, x, y: G.base(v, x, y, colours), label='construction', params=dict(colours=colours))
        return run
    for wrap in WRAPS:
        cs = [case(w, h, wrap, None) for w, h in B.sizes(tier)]
        cs += [case(2, 2, wrap, c) for c in (1, 2, 3, 4, 5, 6)] if wrap == (False, False) else [case(2, 1, wrap, 3)]
        ts.append(bound_task(f'construction {wrap}', cs))
    return ts


def directed(ctx, r):
    p = model_params(r[2])
    w, h = min(p.get('W', 3), 9), min(p.get('H', 3), 9)
    for wrap in WRAPS:
        c = p.get('C')
        g = conc_grid(w, h, wrap, c if c and c <= 40 else None)
        B.equivalence(ctx, G.ConcView(g, wrap), g.clauses, lambda v, x, y: G.base(v, x, y, g.colours), label='construction', params=dict(colours=g.colours))
