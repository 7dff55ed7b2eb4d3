import contextlib
import io
import itertools
import os

from .common import *
from .c15 import fake_library, limit, scratch

LEVEL = 'proof'
TECHNIQUE = ('deductive: solve, check, itersolve, parse_solution and Grid.itersolve executed with a recording solver for clause lists, models, grids and sets of important variables of any size (the enumeration loop once, for an arbitrary iteration); '
             'proved: exact clauses handed over, one decoded model per answer, and a blocking clause of exactly the important literals the model makes false; discharged by z3')
NOTE = ('That the solver answers correctly and that the decoding of a cell (template parse, C27) is right are contracts of other parts; '
        'models are taken to mention each variable at most once. An enumeration abandoned half way (generator closed by its user) is covered by the bounded companion only.')
ASSUMPTIONS = ['pysat.solvers.Solver: solve, get_model, add_clause are correct', 'a model mentions every variable at most once', 'numpy frompyfunc applies the function to every element']
RULE = 'random clause lists over at most 7 variables and small belt grids: results of solve / itersolve compared with brute-force enumeration of the models'
BOUND = 'bounded companion: at most 7 variables for the brute force; belt grids 1x1 and 2x1'


def template(rng, kind):
    from factorio_sat.template import ArrayTemplate, BoolTemplate, CompositeTemplate, ManyHotTemplate, NumberTemplate
    return [BoolTemplate(), NumberTemplate(2), ManyHotTemplate(2), ArrayTemplate(BoolTemplate(), (1, 2)),
            CompositeTemplate(dict(a=BoolTemplate(), n=NumberTemplate(1), x=lambda a: -a))][kind]


def decode(t, inst, m):
    """Values of a cell under a model, independent of the code's parsing."""
    from factorio_sat.template import ArrayTemplate, BoolTemplate, CompositeTemplate, ManyHotTemplate, NumberTemplate
    if isinstance(t, BoolTemplate):
        return m[inst]
    if isinstance(t, NumberTemplate):
        return sum(1 << i for i, v in enumerate(inst) if m[v])
    if isinstance(t, ManyHotTemplate):
        return [i for i, v in enumerate(inst) if m[v]]
    if isinstance(t, ArrayTemplate):
        return [[m[v] for v in row] for row in inst]
    return dict(a=m[inst.a], n=int(m[inst.n[0]]))


def models(clauses, nv):
    for bits in itertools.product([False, True], repeat=nv):
        m = dict(enumerate(bits, 1))
        if all(any(m[abs(l)] == (l > 0) for l in c) for c in clauses):
            yield m


def generic(ctx, count, seed):
    import random
    from factorio_sat.template import BaseGrid
    rng = random.Random(ctx.seed * 1000 + seed)
    with scratch() as d:
        path, lib = fake_library(d)
        for k in range(count):
            t = template(rng, rng.randrange(5))
            w, h = rng.choice([(1, 1), (2, 1), (1, 2), (3, 1), (2, 2)][:5 if t.variable_count == 1 else 3])
            g = BaseGrid(t, w, h)
            nv = g.total_variables
            if nv > 7:
                continue
            extra = rng.randint(0, 7 - nv)
            for _ in range(extra):
                g.allocate_variable()
            nv += extra
            density = rng.choice([0, 1, 2, 4, 8])
            g.clauses += [[rng.choice([-1, 1]) * rng.randint(1, nv) for _ in range(rng.randint(1, 4))] for _ in range(density)]
            before = [list(c) for c in g.clauses]
            ms = list(models(before, nv))
            cells = [tuple(map(repr, (decode(t, g.tiles[y, x], m) for y in range(h) for x in range(w)))) for m in ms]
            important = set(rng.sample(range(1, nv + 1), rng.randint(0, nv)))
            lib.fake_reset()
            solver = rng.choice(['g3', 'g3', 'cd', 'm22', 'g4', 'lib:' + path, 'lib:' + path])
            info = dict(template=repr(t), size=(w, h), clauses=before, important=sorted(important), solver=solver.split(':')[0])
            with limit(ctx, 30, f'enumeration {info}'):
                s = g.solve(solver)
                ctx.require((s is None) == (not ms), f'solve gives {"nothing" if s is None else "a solution"} for {len(ms)} models', **info)
                flat = lambda a: tuple(repr(a[y, x]) for y in range(h) for x in range(w))
                if s is not None:
                    ctx.require(s.shape == (h, w) and flat(s) in cells, 'solve decodes to no model', got=flat(s), **info)
                ctx.require(g.check(solver) is bool(ms), 'check', **info)
                kind = rng.randrange(3)
                imp = important if kind == 0 else sorted(important) if kind == 1 else frozenset(important)
                out = []
                for r in g.itersolve(imp, solver):
                    out.append(flat(r))
                    ctx.require(len(out) <= len(ms) + 1, 'more solutions than models', **info)
            ctx.eval()
            ctx.require(imp == important if kind != 1 else imp == sorted(important), 'the set of important variables was changed', **info)
            ctx.require(g.clauses == before, 'the clauses were changed', after=g.clauses, **info)
            want = len({tuple(m[v] for v in sorted(important)) for m in ms}) if important else min(1, len(ms))
            ctx.require(len(out) == want, f'{len(out)} solutions for {want} combinations of important values', got=out, **info)
            ctx.require(all(o in cells for o in out), 'a solution decodes to no model', got=out, **info)
            # distinct important values: a matching of the decoded solutions with value combinations exists exactly then
            shown = {v for y in range(h) for x in range(w) for v in variables(t, g.tiles[y, x])}
            groups = [{tuple(m[v] for v in sorted(important & shown)) for m, c in zip(ms, cells) if c == o} for o in out]
            if important and important <= shown:
                ctx.require(all(len(x) == 1 for x in groups) and len({next(iter(x)) for x in groups}) == len(out), 'two solutions agree on all important variables', got=out, **info)
            # a second enumeration is unaffected by the first
            if k % 5 == 0 and important:
                ctx.require(len(list(g.itersolve(important, solver))) == want, 'a second enumeration differs from the first', **info)
        ctx.sample(info)


def variables(t, inst):
    from factorio_sat.template import ArrayTemplate, BoolTemplate, CompositeTemplate
    if isinstance(t, BoolTemplate):
        return [inst]
    if isinstance(t, ArrayTemplate):
        return [v for r in inst for v in r]
    if isinstance(t, CompositeTemplate):
        return [inst.a, *inst.n]
    return list(inst)


def layout(cell, colour):
    """The layout part of a decoded cell."""
    keys = ['input_direction', 'output_direction', 'is_splitter'] + (['colour', 'colour_ux', 'colour_uy'] if colour else [])
    return tuple(repr(cell[k]) for k in keys)


def true_count(grid, variables):
    from pysat.solvers import Solver
    s = Solver('g3', bootstrap_with=grid.clauses)
    n = 0
    while s.solve():
        m = {abs(l): l > 0 for l in s.get_model()}
        s.add_clause([-v if m.get(v, False) else v for v in variables])
        n += 1
    s.delete()
    return n


def belts(ctx, w, h, colours, ignore, wrap, pins, solver='g3'):
    from factorio_sat.template import flatten
    g = conc_grid(w, h, wrap, colours)
    for f in pins:
        getattr(g, f)()
    before = [list(c) for c in g.clauses]
    own = []
    for x in range(w):
        for y in range(h):
            t = g.get_tile_instance(x, y)
            own += [*t.input_direction, *t.output_direction, t.is_splitter]
            if not ignore and colours is not None:
                own += [*t.colour, *t.colour_ux, *t.colour_uy]
    own = sorted({abs(l) for l in own if isinstance(l, int)})
    want = true_count(g, own)
    with limit(ctx, 200, 'enumeration'):
        out = [tuple(layout(r[y, x], colours is not None and not ignore) for y in range(h) for x in range(w)) for r in g.itersolve(solver=solver, ignore_colour=ignore)]
    info = dict(size=(w, h), colours=colours, ignore_colour=ignore, wrap=wrap, rules=pins)
    ctx.eval(1, len(out))
    ctx.require(g.clauses == before, 'enumerating changes the clauses', **info)
    ctx.require(len(set(out)) == len(out), 'the same layout is produced twice', **info)
    ctx.require(len(out) == want, f'{len(out)} layouts enumerated, there are {want}', **info)


def own_important(ctx):
    """Important variables given by the caller are added to the layout's."""
    g = conc_grid(1, 1, (False, False), None)
    extra = [g.allocate_variable() for _ in range(2)]
    n = len(list(g.itersolve()))
    given = set(extra)
    m = len(list(g.itersolve(given)))
    ctx.eval()
    ctx.require(m == 4 * n, f'{m} solutions with two additional free important variables, {n} without')
    ctx.require(given == set(extra), 'the set of important variables passed in was changed')
    ctx.require(len(list(g.itersolve())) == n, 'an enumeration is affected by an earlier one with more important variables')
    for early in (0, 1, 3):
        it = g.itersolve()
        for _ in range(early):
            next(it)
        it.close()
    ctx.require(len(list(g.itersolve())) == n, 'an enumeration is affected by an abandoned one')


class Watched:
    """A solver that remembers the clauses added to it, and answers as the real one."""
    log = []

    def __init__(self, *a, **k):
        from pysat.solvers import Solver
        Watched.log.append(self)
        self.s, self.added, self.asked = Solver(*a, **k), [], False

    def solve(self, *a, **k):
        self.asked = True
        return self.s.solve(*a, **k)

    def __getattr__(self, name):
        return getattr(self.s, name)

    def add_clause(self, c, *a):
        if self.asked:
            self.added.append(list(c))
        return self.s.add_clause(c, *a)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.s.delete()


def large(ctx):
    """Many important variables, few of them free: the number of solutions and the blocking clauses."""
    import random
    import factorio_sat.template as T
    from unittest import mock
    rng = random.Random(ctx.seed)
    for n in [1, 2, 20, 200, 1500, 6000, 20000]:
        g = T.BaseGrid(T.BoolTemplate(), n, 1)
        vs = [g.tiles[0, x] for x in range(n)]
        free = rng.sample(vs, min(2, n))
        if n > 2:
            free = [vs[-1], rng.choice(vs[:-1])]
        fixed = {v: rng.random() < 0.5 for v in vs if v not in free}
        g.clauses += [[v if b else -v] for v, b in fixed.items()]
        before = len(g.clauses)
        Watched.log.clear()
        with mock.patch.object(T, 'Solver', Watched), limit(ctx, 100, f'enumeration with {n} important variables'):
            out = []
            for s in g.itersolve(set(vs)):
                out.append([bool(s[0, x]) for x in range(n)])
                ctx.require(len(out) <= 2 ** len(free), 'more solutions than there are', variables=n)
        ctx.eval(1, len(out))
        ctx.require(len(out) == 2 ** len(free) and len({tuple(o) for o in out}) == len(out), f'{len(out)} solutions enumerated over {n} important variables of which {len(free)} are free', variables=n, free=free)
        ctx.require(all(o[x] == fixed[v] for o in out for x, v in enumerate(vs) if v in fixed), 'a solution does not obey the clauses', variables=n)
        ctx.require(len(g.clauses) == before, 'the clauses were changed', variables=n)
        for w in Watched.log:
            for o, c in zip(out, w.added):
                ctx.require(sorted(c, key=abs) == sorted((-v if b else v for v, b in zip(vs, o)), key=abs), f'the blocking clause of a solution over {n} important variables is not made of all its values negated', variables=n, length=len(c), solution=o[:20], clause=c[:20])
    for w, h in ((30, 2), (2, 45), (70, 1), (12, 12)):
        g = conc_grid(w, h, (False, False), 2)
        Watched.log.clear()
        want = set()
        for t in g.tiles.flatten():
            want |= {*t.input_direction, *t.output_direction, t.is_splitter, *t.colour, *t.colour_ux, *t.colour_uy}
        with mock.patch.object(T, 'Solver', Watched), limit(ctx, 100, f'enumeration of {w}x{h}'):
            it = g.itersolve()
            next(it), next(it)
            it.close()
        ctx.eval()
        for s in Watched.log:
            for c in s.added:
                ctx.require({abs(l) for l in c} == {abs(l) for l in want}, f'layouts {w}x{h} are told apart by other variables than directions, splitters and colours', missing=len({abs(l) for l in want} - {abs(l) for l in c}), more=len({abs(l) for l in c} - {abs(l) for l in want}))


def tasks(tier):
    from . import solving as SV
    n = 150 if tier == 'quick' else 1500
    ts = [bound_task(f'clause lists {i}', [lambda c, i=i: generic(c, n, i)]) for i in range(4)]
    NO, X, XY = (False, False), (True, False), (True, True)
    cases = [(1, 1, None, False, NO, []), (1, 1, 2, False, NO, []), (1, 1, 2, True, NO, []), (1, 1, 3, False, XY, ['prevent_intersection']),
             (2, 1, None, True, NO, ['prevent_intersection']), (1, 2, None, False, X, ['prevent_intersection', 'prevent_bad_undergrounding']),
             (2, 1, 2, False, NO, ['prevent_intersection', 'prevent_bad_undergrounding', 'block_belts_through_edges', 'prevent_bad_colouring']),
             (2, 2, None, False, NO, ['prevent_intersection', 'prevent_bad_undergrounding', 'block_belts_through_edges', 'block_underground_through_edges'])]
    for c in cases:
        ts.append(bound_task(f'belts {c[0]}x{c[1]} colours={c[2]} {c[3]} {c[5][:1]}', [lambda ctx, c=c: belts(ctx, *c)]))
    ts.append(bound_task('important variables', [own_important]))
    ts += [bound_task('large', [large]), SV.decode_task()]
    ts += [SV.solve_task(k, c) for k in SV.KINDS for c in (False, True)] + [SV.itersolve_task(k, g) for k in SV.KINDS for g in ('set', 'list')]
    ts += [SV.layout_task(NO, c, i) for c, i in ((None, False), (2, False), (2, True), (5, False))] + [SV.layout_task(XY, 3, False)]
    return ts
