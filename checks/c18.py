import json

from .common import *
from specs import layout as LY

LEVEL = 'proof'
TECHNIQUE = 'deductive: write/read of every tile class composed to the identity for every tile, read_tile of a symbolic decoded cell compared with its tile entry (any grid size and position), direction arithmetic for every direction and any integer turn; obligations from the source discharged by z3'
NOTE = 'Tile fields and directions are finite and covered by case split; rotation amounts, grid size, position and colours are symbolic. Strings through json.dumps/loads are native.'
RULE = 'every tile and random grids through the real JSON text, with and without explicit tile entries'
BOUND = 'bounded companion: every tile; random solved grids up to 4x4'
ASSUMPTIONS = ['json.loads(json.dumps(x)) == x for the values written (checked per tile on the real strings)', 'parse_cell decodes the model (C08)']
ROT = {0: (1, 0), 1: (0, -1), 2: (-1, 0), 3: (0, 1)}


def every_tile():
    out = LY.all_tiles(filler=True)
    out += [{'type': 'inserter', 'direction': d, 'insert_type': t} for d in range(4) for t in (0, 1)]
    out += [{'type': 'assembling_machine', 'x': x, 'y': y} for x in range(3) for y in range(3)]
    return out


def sym_tile(E, kind):
    """A tile of the given class with arbitrary field values (case split by the engine)."""
    from factorio_sat import tile as T
    from factorio_sat.direction import Direction
    from pyvc.sym import SInt, z3

    def pick(name, values):
        v = z3.Int(name)
        E.assume(z3.Or([v == i for i in range(len(values))]))
        for i, x in enumerate(values):
            if E.decide(v == i):
                return x
    D = list(Direction)
    if kind == 'Belt':
        i, o = pick('i', D), pick('o', D)
        if (int(i) - int(o)) % 4 == 2:
            return None
        return T.Belt(i, o)
    if kind in ('UndergroundBelt', 'Splitter'):
        return getattr(T, kind)(pick('d', D), pick('b', [True, False]))
    if kind == 'Inserter':
        return T.Inserter(pick('d', D), pick('t', [0, 1]))
    if kind == 'AssemblingMachine':
        return T.AssemblingMachine(pick('x', range(3)), pick('y', range(3)))
    return getattr(T, kind)()


KINDS = ['EmptyTile', 'FillerTile', 'Belt', 'UndergroundBelt', 'Splitter', 'Inserter', 'AssemblingMachine']


def json_of(t):
    n = type(t).__name__
    if n == 'Belt':
        return LY.belt(int(t.input_direction), int(t.output_direction))
    if n == 'UndergroundBelt':
        return LY.ug(int(t.direction), t.is_input)
    if n == 'Splitter':
        return LY.splitter(int(t.direction), t.is_head)
    if n == 'Inserter':
        return {'type': 'inserter', 'direction': int(t.direction), 'insert_type': t.type}
    if n == 'AssemblingMachine':
        return {'type': 'assembling_machine', 'x': t.x, 'y': t.y}
    return {'type': 'filler' if n == 'FillerTile' else 'empty'}


def tile_task():
    def fn(ctx):
        from pyvc.interp import Engine
        from factorio_sat import blueprint, tile as T
        for kind in KINDS:
            E = Engine()

            def run():
                t = sym_tile(E, kind)
                if t is None:
                    return None
                w = E.call(t.write)
                r = E.call(T.BaseTile.read, (json.loads(json.dumps(w)),))
                cell = E.call(blueprint.write_tile, (t,))
                return t, w, r, cell, E.call(blueprint.read_tile, (json.loads(json.dumps(cell)),))
            for path in E.explore(run):
                if path.outcome != 'normal':
                    ctx.obligation(f'{kind} {path.cond}: writing and reading does not raise', False, repr(path.value))
                    continue
                if path.value is None:
                    continue
                t, w, r, cell, r2 = path.value
                ctx.obligation(f'{t}: read back equal', type(r) is type(t) and r == t, f'{w} read as {r}')
                ctx.obligation(f'{t}: cell read back equal', type(r2) is type(t) and r2 == t, f'{cell} read as {r2}')
                ctx.obligation(f'{t}: cell holds the written tile', cell.get('tile') == w, str(cell))
            ctx.functions(E)
    return Task('proof tile write/read', fn, 'proof', 200)


def direction_task():
    def fn(ctx):
        from pyvc.interp import Engine
        from pyvc.sym import SInt, z3
        from factorio_sat.direction import Axis, Direction
        E = Engine()
        p = ctx.prover('direction')
        r = z3.Int('r')
        for d in Direction:
            for path in E.explore(lambda: E.call(Direction.add, (d, SInt(r)))):
                if path.outcome != 'normal':
                    ctx.obligation(f'{d.name}.add(r) never raises', False, f'{path.cond}: {path.value!r}')
                    continue
                p.goal(p.solver(path.conds), f'{d.name}.add(r) is {path.value.name} only for matching r', (d.value + r - path.value.value) % 4 == 0)
            paths = E.explore(lambda: E.call(Direction.add, (d, SInt(r))))
            p.goal(p.solver([]), f'{d.name}.add(r) covers every r', z3.Or([q.cond for q in paths]))

            prop = lambda name, o=d: E.call(getattr(type(o), name).fget, (o,))
            dx, dy = ROT[d.value]
            ctx.obligation(f'{d.name}: movement vector', tuple(d.vec) == (dx, dy) == (prop('dx'), prop('dy')), str(d.vec))
            ctx.obligation(f'{d.name}: next is a quarter turn', tuple(prop('next').vec) == (dy, -dx), str(prop('next')))
            ctx.obligation(f'{d.name}: prev undoes next', prop('prev', prop('next')) is d)
            ctx.obligation(f'{d.name}: reverse is the opposite movement', tuple(prop('reverse').vec) == (-dx, -dy), str(prop('reverse')))
            ctx.obligation(f'{d.name}: axis', prop('axis') is (Axis.HORIZONTAL if dy == 0 else Axis.VERTICAL))
            ctx.obligation(f'{d.name}: index', E.call(Direction.__index__, (d,)) == d.value and Direction(d.value) is d)
            ctx.obligation(f'{d.name}: game code', prop('factorio_direction') == {1: 0, 0: 2, 3: 4, 2: 6}[d.value], str(prop('factorio_direction')))
            ctx.obligation(f'{d.name}: game code back', E.call(Direction.from_factorio, (prop('factorio_direction'),)) is d)
        for a in Axis:
            ds = E.call(Axis.directions.fget, (a,))
            ctx.obligation(f'{a.name}: its directions', sorted(x.value for x in ds) == [v for v in range(4) if (ROT[v][1] == 0) == (a is Axis.HORIZONTAL)], str(ds))
        ctx.functions(E)
    return Task('proof directions', fn, 'proof', 60)


def cell_task(colours):
    """read_tile of a decoded cell with the tile entry removed gives that tile."""
    def fn(ctx):
        from pyvc.gridproof import GridRun
        from pyvc.sym import z3, SInt, SBool, mkbool
        from factorio_sat import blueprint
        from .c08 import SymMap, read_number_contract
        X, Y, W, H = z3.Ints('X Y W H')

        def build(E, W, H, mode, pool, run):
            g = sym_grid(E, W, H, mode, pool, colours=colours)
            E.assume(z3.And(0 <= X, X < W, 0 <= Y, Y < H))
            v = G.SymView(E, g, (False, False))
            for _, f in G.base(v, X, Y):
                E.assume(f)
            cell = E.call(g.parse_cell, (SymMap(), g.tiles.at(SInt(Y), SInt(X))))
            with_tile = E.call(blueprint.read_tile, (cell,))
            bare = {k: v for k, v in cell.items() if k != 'tile'}
            return cell['tile'], with_tile, E.call(blueprint.read_tile, (bare,))
        run = GridRun((False, False), build, contracts={'util.read_number': read_number_contract})
        ctx.functions(run.E)
        p = ctx.prover(f'cell colours={colours}')
        for n, path in enumerate(run.paths):
            hy = run.hyp + [0 <= X, X < W, 0 <= Y, Y < H] + path.conds
            if path.outcome != 'normal':
                ctx.obligation(f'path {n}: reading a decoded cell does not raise', False, f'{path.value!r} when {path.cond}')
                continue
            t, a, b = path.value
            same = type(a) is type(b)
            diff = []
            if same:
                for f in getattr(a, '__dataclass_fields__', {}):
                    x, y = getattr(a, f), getattr(b, f)
                    if isinstance(x, (SInt, SBool)) or isinstance(y, (SInt, SBool)):
                        diff.append(mkbool((x == y).t) if not isinstance(x == y, bool) else (x == y))
                    else:
                        diff.append(x == y)
            terms = [z3.BoolVal(same)] + [z3.BoolVal(d) if isinstance(d, bool) else d.t for d in diff]
            p.goal(p.solver(hy), f'path {n}: {t} read without the entry', z3.And(*terms))
    return Task(f'proof read_tile of decoded cells colours={colours}', fn, 'proof', 300)


def bounded(ctx):
    import numpy as np
    from pysat.solvers import Solver
    from factorio_sat import blueprint
    from factorio_sat.tile import BaseTile
    for js in every_tile():
        t = LY.make(js)
        text = json.dumps(t.write())
        r = BaseTile.read(json.loads(text))
        ctx.eval()
        ctx.require(r == t and type(r) is type(t), f'{t} written as {text} is read as {r}', tile=js)
        r = blueprint.read_tile(json.loads(json.dumps(blueprint.write_tile(t))))
        ctx.require(r == t and type(r) is type(t), f'{t} written as a cell is read as {r}', tile=js)
    for n in range(60 if ctx.thorough else 25):
        w, h = ctx.rng.randint(1, 4), ctx.rng.randint(1, 4)
        rows = [[ctx.rng.choice(every_tile()) for _ in range(w)] for _ in range(h)]
        cells = np.vectorize(blueprint.write_tile)(LY.to_tiles(rows)).tolist()
        got = blueprint.convert_to_tiles(json.dumps(cells))
        want = LY.to_tiles(rows)
        ctx.eval()
        ctx.require(got.shape == want.shape and (got == want).all(), 'a grid written to JSON is read back differently', rows=rows, got=str(got))
    for n in range(30 if ctx.thorough else 12):
        w, h = ctx.rng.randint(1, 4), ctx.rng.randint(1, 4)
        g = conc_grid(w, h, ctx.rng.choice(WRAPS), ctx.rng.choice((None, 1, 3)))
        with Solver('g3', bootstrap_with=g.clauses) as s:
            s.set_phases([ctx.rng.choice((1, -1)) * v for v in range(1, g.pool.top + 1)])
            for _ in range(6):
                pick = ctx.rng.sample(range(1, g.pool.top + 1), min(6, g.pool.top))
                if not s.solve(assumptions=[v for v in pick]) and not s.solve(assumptions=pick[:1]):
                    continue
                cells = json.loads(json.dumps(g.parse_solution(s.get_model()).tolist()))
                for row in cells:
                    for cell in row:
                        bare = {k: v for k, v in cell.items() if k != 'tile'}
                        a, b = blueprint.read_tile(cell), blueprint.read_tile(bare)
                        ctx.eval()
                        ctx.require(a == b and type(a) is type(b), f'cell read as {a} with its tile entry and as {b} without', cell=cell)
    ctx.sample(dict(tiles=len(every_tile())))


def directions(ctx):
    from factorio_sat.direction import Axis, Direction
    for d in Direction:
        dx, dy = ROT[d.value]
        ctx.eval(6)
        ctx.require(tuple(d.vec) == (dx, dy) == (d.dx, d.dy), f'{d} moves by {d.vec}')
        ctx.require(tuple(d.next.vec) == (dy, -dx) and d.next.prev is d and d.prev.next is d, f'{d}: next {d.next}, prev {d.prev}')
        ctx.require(tuple(d.reverse.vec) == (-dx, -dy) and d.reverse.reverse is d, f'{d}: reverse {d.reverse}')
        ctx.require(d.axis is (Axis.HORIZONTAL if dy == 0 else Axis.VERTICAL), f'{d}: axis {d.axis}')
        ctx.require(Direction.from_factorio(d.factorio_direction) is d and d.factorio_direction == {1: 0, 0: 2, 3: 4, 2: 6}[d.value], f'{d}: game code {d.factorio_direction}')
        for k in range(-9, 10):
            ctx.eval()
            ctx.require(d.add(k).value == (d.value + k) % 4, f'{d} turned by {k} gives {d.add(k)}')
    for c in (0, 2, 4, 6):
        ctx.require(Direction.from_factorio(c).factorio_direction == c, f'game code {c}')
    for a in Axis:
        ctx.require(sorted(x.value for x in a.directions) == [v for v in range(4) if (ROT[v][1] == 0) == (a is Axis.HORIZONTAL)], f'{a}: {a.directions}')


def tasks(tier):
    return [tile_task(), direction_task(), cell_task(None), cell_task('sym'), bound_task('tiles and cells', [bounded]), bound_task('directions', [directions])]
