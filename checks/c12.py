from .common import *
from specs import patterns as PT

LEVEL = 'proof'
RULE = 'concrete grids (sizes x edge modes x underground lengths x areas): z3 decides equivalence of the real clauses with the pattern, over legal layouts'
BOUND = ('maximum underground lengths 0..8 and unlimited for the three length-dependent rules (grid size unbounded); '
         'bounded companion: width, height <= 4, lines up to 8 (quick)')
ASSUMPTIONS = ['IDPool._next returns a new variable on every call (pysat)']


def opt(name):
    def get():
        from factorio_sat import optimisations
        return getattr(optimisations, name)
    return get


def other(mod, name):
    def get():
        import importlib
        return getattr(importlib.import_module('factorio_sat.' + mod), name)
    return get


# name, function, pattern, minimum width
SIMPLE = [
    ('small loops', opt('prevent_small_loops'), PT.small_loops),
    ('glue splitters', opt('glue_splitters'), PT.glue_splitters),
    ('shrink underground', opt('shrink_underground'), PT.shrink_underground),
    ('belt hooks', opt('prevent_belt_hooks'), PT.belt_hooks),
    ('semicircles', opt('prevent_semicircles'), PT.semicircles),
    ('underground hook', opt('prevent_underground_hook'), PT.underground_hook),
    ('zigzags', opt('prevent_zigzags'), PT.zigzags),
    ('spirals', opt('prevent_spirals'), PT.spirals),
    ('belt parallel splitter', opt('prevent_belt_parallel_splitter'), PT.belt_parallel_splitter),
    ('glue partial splitters', opt('glue_partial_splitters'), PT.glue_partial_splitters),
    ('double edge belts', other('belt_balancer', 'prevent_double_edge_belts'), PT.double_edge_belts),
    ('awkward entry', other('interchange', 'prevent_awkward_underground_entry'), PT.awkward_entry),
    ('parallel undergrounds', other('make_block', 'prevent_parallel'), PT.parallel_undergrounds),
    ('passing', other('interchange', 'prevent_passing'), lambda v, x, y: PT.passing(v, x, y, lambda t: t.colour[0])),
]
INF = float('inf')


def legal(v, x, y):
    return G.base(v, x, y) + G.intersection(v, x, y) + G.undergrounds(v, x, y)


def base(v, x, y):
    return G.base(v, x, y) + G.intersection(v, x, y)


def area_of(v, a):
    if a is None:
        return PT.inside(v)
    x0, y0, x1, y1 = a
    if v.symbolic:
        return PT.box(v, x0, y0, x1, y1)
    return lambda x, y: PT.z3.BoolVal(x0 <= x <= x1 and y0 <= y <= y1)


def length_spec(which, L, area=None):
    if which == 'expand':
        if L == INF:
            return lambda v, x, y: PT.expand_unlimited(v, x, y, area_of(v, area))
        return lambda v, x, y: PT.expand(v, x, y, area_of(v, area), L)
    if which == 'mergeable':
        return lambda v, x, y: PT.mergeable(v, x, y, L)
    return lambda v, x, y: PT.empty_along_underground(v, x, y, L)


LENGTH = [('expand', opt('expand_underground')), ('mergeable', opt('prevent_mergeable_underground')), ('empty', opt('prevent_empty_along_underground'))]


def conc(ctx, w, h, wrap, name, get, spec, L=4, args=(), kw=None, **params):
    g = conc_grid(w, h, wrap, 2 if name == 'passing' else None, underground_length=L)
    if name == 'double edge belts' and w < 2:
        return
    before = [list(c) for c in g.clauses]
    get()(g, *args, **(kw or {}))
    ctx.require(g.clauses[:len(before)] == before, f'{name}: existing clauses changed', width=w, height=h)
    B.equivalence(ctx, G.ConcView(g, wrap), g.clauses[len(before):], spec, base=legal, label=name, params=params)


def conc_len(ctx, w, h, wrap, name, get, L, area=None):
    kw = {} if area is None else dict(min_x=area[0], min_y=area[1], max_x=area[2], max_y=area[3])
    n = max(w, h) if L == INF and name != 'expand' else L
    if name == 'expand' and L != INF and wrap != (False, False):
        n = L
    conc(ctx, w, h, wrap, name, get, length_spec(name, n, area), L=L, kw=kw, length=L, area=area)


def tasks(tier):
    from pyvc.sym import z3, SInt
    ts = []
    thorough = tier == 'thorough'
    for name, get, spec in SIMPLE:
        for wrap in WRAPS if thorough else WRAPS[:2]:
            par = [z3.Int('W') >= 2] if name == 'double edge belts' else []
            ts.append(rule_task(name, wrap, lambda E, g, get=get: E.call(get(), (g,)), spec, base=base, params=par,
                                colours=2 if name == 'passing' else None, R=2 if name in ('spirals', 'semicircles', 'awkward entry') else 1, merge=True))
    X0, Y0, X1, Y1, W, H = z3.Ints('X0 Y0 X1 Y1 W H')
    box = [0 <= X0, 0 <= Y0, X1 < W, Y1 < H]
    M = z3.If(W > H, W, H)
    for which, get in LENGTH:
        for L in (0, 1, 2, 3, 4, 5, 6, 8) if thorough else (2, 5):
            for area in ((None, (X0, Y0, X1, Y1)) if which == 'expand' else (None,)):
                for wrap in WRAPS[:2] if which != 'expand' or thorough or L <= 3 else WRAPS[:1]:
                    def call(E, g, L=L, get=get, area=area):
                        g.underground_length = L
                        E.call(get(), (g,), {} if area is None else dict(zip(('min_x', 'min_y', 'max_x', 'max_y'), map(SInt, area))))
                    name = f'{which} length {L}{"" if area is None else " in an area"}'
                    if which == 'expand':
                        ts.append(rule_task(name, wrap, call, length_spec(which, L, area), base=base, params=box if area else [], R=0, merge=True))
                        continue
                    # the length is capped by the grid: one run per capped value, and one for all larger grids
                    ts.append(rule_task(name + ' large grid', wrap, call, length_spec(which, L), base=base, params=[M >= L + 2], R=0, merge=True))
                    for m in range(3, L + 2) if thorough else [k for k in (3, L + 1) if k < L + 2]:
                        ts.append(rule_task(f'{name} grid {m}', wrap, call, length_spec(which, L), base=base, params=[M == m], R=0, merge=True))
    for area in (None, (X0, Y0, X1, Y1)):
        for wrap in WRAPS[:2]:
            def call(E, g, area=area):
                g.underground_length = INF
                E.call(opt('expand_underground')(), (g,), {} if area is None else dict(zip(('min_x', 'min_y', 'max_x', 'max_y'), map(SInt, area))))
            ts.append(rule_task(f'expand unlimited{"" if area is None else " in an area"}', wrap, call, length_spec('expand', INF, area), base=base, params=box if area else [], R=0, merge=True))
    # bounded companion on concrete grids
    size = [(1, 1), (2, 2), (3, 2), (2, 3), (3, 3), (4, 3), (3, 4)] + ([(4, 4), (5, 4), (2, 6)] if thorough else [])
    for name, get, spec in SIMPLE:
        cs = [lambda ctx, w=w, h=h, wrap=wrap, name=name, get=get, spec=spec: conc(ctx, w, h, wrap, name, get, spec)
              for wrap in (WRAPS if thorough else WRAPS[:2]) for w, h in size]
        ts.append(bound_task(name, cs))
    lines = [(2, 2), (7, 1), (1, 7), (6, 2), (3, 3)] + ([(8, 2), (2, 9)] if thorough else [])
    for which, get in LENGTH:
        for wrap in WRAPS if thorough else WRAPS[:2]:
            cs = []
            for w, h in lines:
                for L in (0, 1, 2, 3, 4, 5, 6, INF):
                    cs.append(lambda ctx, w=w, h=h, wrap=wrap, L=L, which=which, get=get: conc_len(ctx, w, h, wrap, which, get, L))
                    if which == 'expand':
                        for area in ((1, 0, w - 2, h - 1), (0, 1, w - 1, h - 1)):
                            cs.append(lambda ctx, w=w, h=h, wrap=wrap, L=L, which=which, get=get, area=area: conc_len(ctx, w, h, wrap, which, get, L, area))
            ts.append(bound_task(f'{which} {wrap}', cs))
    return ts


def directed(ctx, r):
    p = model_params(r[2])
    w, h = min(max(p.get('W', 3), 1), 7), min(max(p.get('H', 3), 1), 7)
    for name, get, spec in SIMPLE:
        if name in r[0]:
            for wrap in WRAPS:
                conc(ctx, w, h, wrap, name, get, spec)
                conc(ctx, 4, 4, wrap, name, get, spec)
    for which, get in LENGTH:
        if which in r[0]:
            for wrap in WRAPS:
                for L in (1, 2, 4, 5, INF):
                    conc_len(ctx, w, h, wrap, which, get, L)
