from .common import *

RULE = 'concrete grids (sizes x edge modes x colour counts): z3 decides equivalence of the real clauses with the specification'
BOUND = 'bounded companion: width, height <= 3 (quick) / 5 (thorough), up to 3 bits per quantity'
ASSUMPTIONS = ['IDPool._next returns a new variable on every call (pysat)']


def fam_eq(a, b):
    from pyvc.sym import z3, Fam
    if len(a) == len(b) == 1 and isinstance(a[0], Fam):
        k = z3.Int('eqk')
        return z3.And(a[0].hi == b[0].hi, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < a[0].hi), a[0].at(k).t == b[0].at(k).t)))
    return G.And([p.t == q.t for p, q in zip(a, b)]) if len(a) == len(b) else z3.BoolVal(False)


def conc_eq(view):
    def eq(a, b):
        a, b = flat(a), flat(b)
        return G.And([view.conv(p) == view.conv(q) for p, q in zip(a, b)]) if len(a) == len(b) else z3b(False)
    return eq


def z3b(v):
    from pyvc.sym import z3
    return z3.BoolVal(v)


def flat(a):
    return [y for x in a for y in flat(x)] if isinstance(a, list) else [a]


def colour_spec(eq):
    return lambda v, x, y: G.transport(v, x, y, lambda t: t.raw('colour'), lambda t: t.raw('colour_ux'), lambda t: t.raw('colour_uy'), eq)


def base(v, x, y):
    return G.base(v, x, y)


def conc(ctx, w, h, wrap, colours):
    g = conc_grid(w, h, wrap, colours)
    n = len(g.clauses)
    g.prevent_bad_colouring()
    v = G.ConcView(g, wrap)
    spec = colour_spec(conc_eq(v)) if colours not in (None, 1) else (lambda v, x, y: [])
    B.equivalence(ctx, v, g.clauses[n:], spec, base=lambda v, x, y: G.base(v, x, y, colours), label='prevent_bad_colouring', params=dict(colours=colours))


def conc_flow(ctx, w, h, wrap, shape):
    from factorio_sat.template import ArrayTemplate, NumberTemplate, BoolTemplate
    ex = {f: ArrayTemplate(NumberTemplate(shape[1]), (shape[0],)) for f in ('flow', 'flow_ux', 'flow_uy')}
    g = conc_grid(w, h, wrap, None, extras=ex)
    n = len(g.clauses)
    g.transport_quantity(lambda t: t.flow, lambda t: t.flow_ux, lambda t: t.flow_uy)
    v = G.ConcView(g, wrap)
    spec = lambda v, x, y: G.transport(v, x, y, lambda t: t.raw('flow'), lambda t: t.raw('flow_ux'), lambda t: t.raw('flow_uy'), conc_eq(v))
    B.equivalence(ctx, v, g.clauses[n:], spec, base=base, label='transport_quantity', params=dict(shape=shape))


def prevent_spec(colour):
    """A colour is forbidden: colour 0 means 'no colour' and only matters where something moves."""
    def spec(v, x, y):
        t = v.tile(x, y)
        moving = G.Or(t.inp + t.out)
        if isinstance(colour, int) and colour == 0:
            return [('colour not used on belts', G.Implies(moving, t.num('colour') != 0))]
        return [(f'{f} not used', t.num(f) != colour) for f in ('colour', 'colour_ux', 'colour_uy')]
    return spec


def conc_prevent(ctx, w, h, colours, c):
    g = conc_grid(w, h, (False, False), colours)
    n = len(g.clauses)
    g.prevent_colour(c)
    B.equivalence(ctx, G.ConcView(g, (False, False)), g.clauses[n:], prevent_spec(c), base=lambda v, x, y: G.base(v, x, y, colours),
                  label='prevent_colour', params=dict(colours=colours, colour=c))


def set_spec(cx, cy, colour):
    def spec(v, x, y):
        t = v.tile(x, y)
        return [('cell has the colour', G.Implies(G.And(x == cx, y == cy) if v.symbolic else z3b(x == cx and y == cy), t.num('colour') == colour))]
    return spec


def conc_set(ctx, w, h, colours, x, y, c):
    g = conc_grid(w, h, (False, False), colours)
    n = len(g.clauses)
    g.set_colour(x, y, c)
    B.equivalence(ctx, G.ConcView(g, (False, False)), g.clauses[n:], set_spec(x, y, c), base=lambda v, x, y: G.base(v, x, y, colours),
                  label='set_colour', params=dict(colours=colours, colour=c, x=x, y=y))


def tasks(tier):
    from pyvc.sym import z3, SInt
    C, K, CX, CY = z3.Ints('C K CX CY')
    ts = [accessor_task()]
    for wrap in WRAPS:
        ts.append(rule_task('prevent_bad_colouring', wrap, lambda E, g: E.call(g.prevent_bad_colouring), colour_spec(fam_eq), colours='sym', params=[C >= 2]))
        ts.append(rule_task('prevent_bad_colouring one colour', wrap, lambda E, g: E.call(g.prevent_bad_colouring), lambda v, x, y: [], colours='sym', params=[C == 1]))
        ts.append(rule_task('prevent_bad_colouring no colours', wrap, lambda E, g: E.call(g.prevent_bad_colouring), lambda v, x, y: [], colours=None))
        cs = [lambda ctx, w=w, h=h, wrap=wrap, c=c: conc(ctx, w, h, wrap, c) for w, h in B.sizes(tier) if w * h <= 20 for c in (1, 2, 4)]
        cs += [lambda ctx, w=w, h=h, wrap=wrap: conc_flow(ctx, w, h, wrap, (2, 2)) for w, h in ((3, 2), (2, 3))]
        ts.append(bound_task(f'colouring {wrap}', cs))
    wrap = (False, False)
    inrange = [0 <= K, K < C]
    ts.append(rule_task('prevent_colour', wrap, lambda E, g: E.call(g.prevent_colour, (SInt(K),)), prevent_spec(K), colours='sym', params=[1 <= K, K < C]))
    ts.append(rule_task('prevent_colour 0', wrap, lambda E, g: E.call(g.prevent_colour, (0,)), prevent_spec(0), colours='sym'))

    def call_set(E, g):
        E.assume(z3.And(0 <= CX, CX < z3.Int('W'), 0 <= CY, CY < z3.Int('H')))
        E.call(g.set_colour, (SInt(CX), SInt(CY), SInt(K)))
    W, H = z3.Ints('W H')
    ts.append(rule_task('set_colour', wrap, call_set, set_spec(CX, CY, K), colours='sym', params=inrange + [0 <= CX, CX < W, 0 <= CY, CY < H]))
    cs = [lambda ctx, n=n, c=c: conc_prevent(ctx, 2, 2, n, c) for n in (1, 2, 3, 5) for c in range(n)]
    cs += [lambda ctx, x=x, y=y, c=c: conc_set(ctx, 2, 3, 3, x, y, c) for x in range(2) for y in range(3) for c in range(3)]
    ts.append(bound_task('single colours', cs))
    return ts


def directed(ctx, r):
    p = model_params(r[2])
    w, h = min(p.get('W', 3), 5), min(p.get('H', 3), 5)
    for wrap in WRAPS:
        for c in (min(max(p.get('C', 2), 1), 9), None):
            conc(ctx, w, h, wrap, c)
