import json

from .common import *
from specs import layout as LY
from .c18 import KINDS, every_tile, json_of, sym_tile

LEVEL = 'proof'
TECHNIQUE = 'deductive: each Operation\'s grid map proved to be its plane isometry for arrays of every size, each tile transformation proved to act on the tile\'s directions, splitter half and machine offset by the same isometry, and the group laws; obligations from the source discharged by z3 (tile fields by case split)'
NOTE = 'numpy rot90/flip/slicing are trusted index maps. That an isometry applied to positions and directions alike keeps every connection is a lemma over movement vectors discharged for every tile pair; the command-line program and legality are also exercised on random legal layouts (bounded).'
RULE = 'random legal layouts through the real operations and the real program: result compared cell by cell with the isometry, checked legal by an independent reader'
BOUND = 'bounded companion: random legal layouts up to 5x5'
ASSUMPTIONS = ['np.rot90 / slicing with step -1: documented index maps']
# linear part (a, b, c, d): (x, y) -> (a x + b y, c x + d y)
LINEAR = {'NO_OP': (1, 0, 0, 1), 'ROT_90': (0, 1, -1, 0), 'ROT_180': (-1, 0, 0, -1), 'ROT_270': (0, -1, 1, 0), 'FLIP_X': (-1, 0, 0, 1), 'FLIP_Y': (1, 0, 0, -1)}


def lin(m, v):
    a, b, c, d = m
    return a * v[0] + b * v[1], c * v[0] + d * v[1]


def dir_map(m, d):
    return LY.VEC.index(lin(m, LY.VEC[d]))


def position(m, w, h, x, y):
    """Where the cell (x, y) of a w x h grid goes: the isometry, moved to the origin."""
    px, py = lin(m, (x, y))
    cx = [lin(m, p)[0] for p in ((0, 0), (1, 0), (0, 1), (1, 1))]
    return px + (0 if min(cx) == 0 else (w if m[0] else h) - 1), py + (0 if min(lin(m, p)[1] for p in ((0, 0), (1, 0), (0, 1), (1, 1))) == 0 else (h if m[3] else w) - 1)


def tile_map(m, t):
    k = t['type']
    t = dict(t)
    if k == 'belt':
        return LY.belt(dir_map(m, t['input_direction']), dir_map(m, t['output_direction']))
    if k in ('underground_belt', 'inserter', 'splitter'):
        d = t['direction']
        t['direction'] = nd = dir_map(m, d)
        if k == 'splitter':
            # the other half lies one quarter turn ahead of a head's direction, one behind a tail's
            side = dir_map(m, (d + (1 if t['is_head'] else -1)) % 4)
            t['is_head'] = side == (nd + 1) % 4
        return t
    if k == 'assembling_machine':
        x, y = lin(m, (t['x'] - 1, t['y'] - 1))
        return {'type': k, 'x': x + 1, 'y': y + 1}
    return t


def grid_map(m, rows):
    h, w = len(rows), len(rows[0])
    nw, nh = (w, h) if m[0] else (h, w)
    out = [[None] * nw for _ in range(nh)]
    for y in range(h):
        for x in range(w):
            nx, ny = position(m, w, h, x, y)
            out[ny][nx] = tile_map(m, rows[y][x])
    return out


def op_names():
    from factorio_sat.rotate import Operation
    return [o for o in LINEAR if o in Operation.__members__]


def grid_task():
    def fn(ctx):
        from pyvc.interp import Engine
        from pyvc.symarr import SymGrid
        from pyvc.sym import z3
        from factorio_sat.rotate import Operation
        W, H, x, y = z3.Ints('W H x y')
        dom = [W >= 1, H >= 1, 0 <= x, x < W, 0 <= y, y < H]
        p = ctx.prover('grid map')
        E = Engine()

        def apply(names):
            g = SymGrid(H, W, lambda a, b: (a, b))
            for n in names:
                g = E.call(Operation[n].grid, (g,))
            return g
        for n in op_names():
            m = LINEAR[n]
            g = apply([n])
            s = p.solver(dom)
            nw, nh = (W, H) if m[0] else (H, W)
            p.goal(s, f'{n}: size', z3.And(g.h == nh, g.w == nw))
            px, py = position(m, W, H, x, y)
            sy, sx = g.at(py, px)
            p.goal(s, f'{n}: the cell (x, y) arrives at its image', z3.And(0 <= px, px < nw, 0 <= py, py < nh, sy == y, sx == x))
        laws = {'four quarter turns': (['ROT_90'] * 4, ['NO_OP']), 'two half turns': (['ROT_180'] * 2, ['NO_OP']), 'two reflections x': (['FLIP_X'] * 2, ['NO_OP']),
                'two reflections y': (['FLIP_Y'] * 2, ['NO_OP']), '180 is twice 90': (['ROT_90'] * 2, ['ROT_180']), '270 is three times 90': (['ROT_90'] * 3, ['ROT_270']),
                'vertical from horizontal': (['ROT_90', 'FLIP_X', 'ROT_270'], ['FLIP_Y'])}
        for label, (a, b) in laws.items():
            ga, gb = apply(a), apply(b)
            s = p.solver([W >= 1, H >= 1, 0 <= x, x < gb.w, 0 <= y, y < gb.h])
            p.goal(s, f'{label}: size', z3.And(ga.h == gb.h, ga.w == gb.w))
            (ay, ax), (by, bx) = ga.at(y, x), gb.at(y, x)
            p.goal(s, f'{label}: cells', z3.And(ay == by, ax == bx))
        ctx.functions(E)
    return Task('proof grid maps', fn, 'proof', 120)


def tile_task():
    def fn(ctx):
        from pyvc.interp import Engine
        from factorio_sat.rotate import Operation
        from factorio_sat.tile import TransformableTile
        for kind in KINDS[2:]:
            for n in op_names():
                E = Engine()

                def run():
                    t = sym_tile(E, kind)
                    return None if t is None else (t, E.call(Operation[n].tile, (t,)))
                for path in E.explore(run):
                    if path.outcome != 'normal':
                        ctx.obligation(f'{kind} {n} {path.cond}: does not raise', False, repr(path.value))
                        continue
                    if path.value is None:
                        continue
                    t, r = path.value
                    want = LY.make(tile_map(LINEAR[n], json_of(t)))
                    ctx.obligation(f'{n} of {t}', type(r) is type(t) and r == want, f'gives {r}, the isometry gives {want}')
                ctx.functions(E)
    return Task('proof tile maps', fn, 'proof', 200)


def lemma_task():
    """An isometry applied to positions and directions keeps every relation legality is made of."""
    def fn(ctx):
        for n, m in LINEAR.items():
            for d in range(4):
                nd = dir_map(m, d)
                ctx.obligation(f'{n}: a step in direction {d} becomes a step in its image', LY.VEC[nd] == lin(m, LY.VEC[d]))
                ctx.obligation(f'{n}: reversal of {d} commutes', dir_map(m, LY.rev(d)) == LY.rev(nd))
            for t in every_tile():
                q = tile_map(m, t)
                for side in (LY.inputs, LY.outputs):
                    a, b = side(t), side(q)
                    ctx.obligation(f'{n}: {side.__name__} of {t}', b == (None if a is None else dir_map(m, a)))
                if t['type'] == 'splitter':
                    off = LY.VEC[(t['direction'] + (1 if t['is_head'] else -1)) % 4]
                    ctx.obligation(f'{n}: other half of {t}', LY.VEC[(q['direction'] + (1 if q['is_head'] else -1)) % 4] == lin(m, off))
    return Task('proof connection lemma', fn, 'proof', 60)


def bounded(ctx):
    import builtins, contextlib, io, sys
    import numpy as np
    from factorio_sat import rotate
    from factorio_sat.rotate import Operation
    from factorio_sat.tile import BaseTile, TransformableTile
    grids = [[[t]] for t in every_tile()]
    for _ in range(40 if ctx.thorough else 16):
        w, h = ctx.rng.randint(1, 5), ctx.rng.randint(1, 5)
        rows = LY.random_legal(ctx.rng, w, h, edge_undergrounds=ctx.rng.random() < 0.5)
        if rows:
            assert not LY.Layout(rows).problems()
            grids.append(rows)
    for w, h in ((3, 2), (2, 4), (1, 3)):
        grids.append([[ctx.rng.choice(every_tile()) for _ in range(w)] for _ in range(h)])
    for rows in grids:
        legal = not LY.Layout(rows).problems()
        for n in op_names():
            m = LINEAR[n]
            want = grid_map(m, rows)
            out = run_program(n.lower(), [json.dumps([[{'tile': t} for t in r] for r in rows])] * 2)
            ctx.eval()
            ctx.require(len(out) == 2, f'{n}: the program answered {len(out)} of 2 grids', rows=rows)
            got = [[LY_read(c['tile']) for c in r] for r in json.loads(out[0])]
            ctx.require(json.loads(out[1]) == json.loads(out[0]), f'{n}: the same grid gives two results', rows=rows)
            ctx.require(got == want, f'{n} of a {len(rows[0])}x{len(rows)} grid is not its image', rows=rows, got=got, want=want)
            if legal:
                bad = LY.Layout(got).problems()
                ctx.require(not bad, f'{n} makes a legal layout illegal: {bad[:3]}', rows=rows, got=got)
        for t in [t for r in rows for t in r]:
            tile = LY.make(t)
            if isinstance(tile, TransformableTile):
                ctx.eval()
                ctx.require(tile.rotate_90().rotate_90().rotate_90().rotate_90() == tile and tile.flip_x().flip_x() == tile and tile.flip_y().flip_y() == tile
                            and tile.rotate_180() == tile.rotate_90().rotate_90() and tile.rotate_270() == tile.rotate_180().rotate_90(), f'group laws fail for {tile}')
    ctx.sample(grids[-4])


def LY_read(t):
    return json.loads(json.dumps(t))


def run_program(op, lines):
    from factorio_sat import rotate
    return run_main(rotate, [op], lines)


def run_main(mod, args, lines, keep_blank=False):
    """Runs a program's main() on the given input lines, ending the input after the last; returns what it printed."""
    import builtins, contextlib, io, sys
    it = iter(lines)

    def fake_input(*a):
        try:
            return next(it)
        except StopIteration:
            raise EOFError
    buf = io.StringIO()
    old, argv, stdin = builtins.input, sys.argv, sys.stdin
    builtins.input, sys.argv, sys.stdin = fake_input, [mod.__name__] + args, io.StringIO('\n'.join(lines) + '\n')
    try:
        with contextlib.redirect_stdout(buf):
            try:
                mod.main()
            except EOFError:
                pass
    finally:
        builtins.input, sys.argv, sys.stdin = old, argv, stdin
    return [l for l in buf.getvalue().splitlines() if keep_blank or l.strip()]


def tasks(tier):
    return [grid_task(), tile_task(), lemma_task(), bound_task('grids and program', [bounded])]
