from .common import *

LEVEL = 'proof'
TECHNIQUE = 'deductive: contracts on set_tile (per finite tile kind, grid of any size, any position) and on cell parsing/read_tile (any assignment of a legal cell), obligations from the source discharged by z3'
NOTE = 'Proved: set_tile <=> "the cell shows that tile"; parse_cell of every legal cell assignment gives the matching tile and field values, never an error. Bounded: parse_solution with unmentioned variables, end-to-end decode of solver models.'
RULE = 'every tile kind on small grids: solver models decoded and compared; models with variables dropped'
BOUND = 'bounded companion: grids up to 3x3'
ASSUMPTIONS = ['IDPool._next returns a new variable on every call (pysat)', 'collections.defaultdict and dict semantics (CPython)']


def all_tiles():
    from factorio_sat.direction import Direction
    from factorio_sat.tile import Belt, EmptyTile, FillerTile, Splitter, UndergroundBelt
    out = [EmptyTile(), FillerTile()]
    for a in Direction:
        for b in Direction:
            if a.reverse != b:
                out.append(Belt(a, b))
        for f in (True, False):
            out.append(UndergroundBelt(a, f))
            out.append(Splitter(a, f))
    return out


def others():
    from factorio_sat.direction import Direction
    from factorio_sat.tile import AssemblingMachine, Inserter, BaseTile
    return [Inserter(Direction.RIGHT, 0), AssemblingMachine(1, 1), BaseTile()]


def shows(t, tile):
    """Formula: the cell's variables describe this tile."""
    k = type(tile).__name__
    if k in ('EmptyTile', 'FillerTile'):
        return t.is_empty
    if k == 'Belt':
        return G.And(t.is_belt, t.inp[int(tile.input_direction)], t.out[int(tile.output_direction)])
    if k == 'UndergroundBelt':
        d = int(tile.direction)
        return t.ug_in(d) if tile.is_input else t.ug_out(d)
    if k == 'Splitter':
        return G.And(t.facing(int(tile.direction)), t.is_splitter_head if tile.is_head else G.Not(t.is_splitter_head))
    raise ValueError(k)


def pin_task(wrap, tiles, n):
    from pyvc.sym import z3, SInt
    px, py = z3.Ints('px py')
    W, H = z3.Ints('W H')

    def one(tile):
        def spec(v, x, y):
            return [(f'shows {tile}', G.Implies(G.And(x == px, y == py), shows(v.tile(x, y), tile)))]
        return rule_task(f'set_tile {tile}', wrap, lambda E, g: E.call(g.set_tile, (SInt(px), SInt(py), tile)), spec, params=[0 <= px, px < W, 0 <= py, py < H]).fn

    def fn(ctx):
        for t in tiles:
            one(t)(ctx)
    return Task(f'proof set_tile wrap={wrap} group {n}', fn, 'proof', 300)


def refuse_task():
    """Unsupported tiles raise and add nothing."""
    def fn(ctx):
        from pyvc.gridproof import GridRun
        from pyvc.sym import z3, SInt
        for tile in others():
            def build(E, W, H, mode, pool, run):
                g = sym_grid(E, W, H, mode, pool, colours=None)
                px, py = z3.Ints('px py')
                E.assume(z3.And(0 <= px, px < W, 0 <= py, py < H))
                return E.call(g.set_tile, (SInt(px), SInt(py), tile))
            run = GridRun((False, False), build)
            ctx.functions(run.E)
            ctx.obligation(f'set_tile refuses {type(tile).__name__}', all(p.outcome == 'raise' for p in run.paths) and bool(run.paths))
    return Task('proof set_tile refuses', fn, 'proof', 120)


class SymMap:
    """A model: gives the truth value of a variable."""

    def __getitem__(self, lit):
        from pyvc.sym import SBool
        return SBool(lit.t)

    def __pyvc_subst__(self, pairs):
        return self


def read_number_contract(E, f, args, kw):
    """Unsigned read_number: the value of the bits (contract discharged in C01)."""
    from pyvc.sym import SInt, Lit, Fam, Unsupported, z3
    bits = args[0]
    signed = (list(args[1:]) + [kw.get('signed', False)])[0]
    if signed is not False or not isinstance(bits, list):
        raise Unsupported('read_number')
    conv = []
    for b in bits:
        if isinstance(b, Fam):
            conv.append(Fam(b.vars, b.guard, [(c, [Lit(i.t) for i in its]) for c, its in b.alts], b.lo, b.hi))
        else:
            conv.append(Lit(b.t if not isinstance(b, bool) else z3.BoolVal(b)))
    return SInt(G.numval(conv)) if conv else 0


def decode_task(colours):
    def fn(ctx):
        from pyvc.gridproof import GridRun
        from pyvc.sym import z3, SInt, SBool, bterm, iterm
        X, Y = z3.Ints('X Y')

        def build(E, W, H, mode, pool, run):
            g = sym_grid(E, W, H, mode, pool, colours=colours)
            E.assume(z3.And(0 <= X, X < W, 0 <= Y, Y < H))
            v = G.SymView(E, g, (False, False))
            for _, f in G.base(v, X, Y):
                E.assume(f)
            tile = g.tiles.at(SInt(Y), SInt(X))
            return v, E.call(g.parse_cell, (SymMap(), tile))
        run = GridRun((False, False), build, contracts={'util.read_number': read_number_contract})
        ctx.functions(run.E)
        p = ctx.prover(f'decode colours={colours}')
        W, H = z3.Ints('W H')
        for n, path in enumerate(run.paths):
            hy0 = run.hyp + [0 <= X, X < W, 0 <= Y, Y < H]
            if path.outcome != 'normal':
                p.results.append((f'decode: a legal cell raises {type(path.value).__name__}: {path.value}', 'refuted', 0.0, str(path.cond)))
                continue
            v, cell = path.value
            t = v.tile(X, Y)
            hy = hy0 + path.conds + [f for _, f in G.base(v, X, Y)]
            s = p.solver(hy)
            p.goal(s, f'path {n}: tile {cell["tile"]}', tile_formula(t, cell['tile']))
            for f in ('is_belt', 'is_empty', 'is_splitter', 'is_underground_in', 'is_underground_out', 'is_splitter_head', 'is_input', 'is_output'):
                p.goal(s, f'path {n}: field {f}', (bterm(cell[f]) if not isinstance(cell[f], bool) else z3.BoolVal(cell[f])) == getattr(t, f))
            for f, side in (('input_direction', t.inp), ('output_direction', t.out)):
                p.goal(s, f'path {n}: field {f}', side[int(cell[f])] if cell[f] is not None else G.Not(G.Or(side)))
            for f in ('colour', 'colour_ux', 'colour_uy') if colours is not None else ():
                p.goal(s, f'path {n}: field {f}', iterm(cell[f]) == t.num(f))
            for d in range(4):
                u = cell['underground'][d]
                p.goal(s, f'path {n}: field underground {d}', (bterm(u) if not isinstance(u, bool) else z3.BoolVal(u)) == t.ug[d])
        p.goal(p.solver(run.hyp + [0 <= X, X < W, 0 <= Y, Y < H] + ([f for _, f in G.base(v, X, Y)] if run.paths else [])), 'paths cover', z3.Or([q.cond for q in run.paths]))
    return Task(f'proof decode colours={colours}', fn, 'proof', 300)


def tile_formula(t, js):
    from pyvc.sym import z3
    k = js.get('type')
    if k == 'empty':
        return t.is_empty
    if k == 'belt':
        return G.And(t.is_belt, t.inp[js['input_direction']], t.out[js['output_direction']])
    if k == 'underground_belt':
        return t.ug_in(js['direction']) if js['is_input'] is True else t.ug_out(js['direction'])
    if k == 'splitter':
        from pyvc.sym import SBool
        h = js['is_head']
        h = h.t if isinstance(h, SBool) else z3.BoolVal(h)
        return G.And(t.facing(js['direction']), t.is_splitter_head == h)
    return z3.BoolVal(False)


def as_json(tile):
    from factorio_sat.tile import EmptyTile, FillerTile
    n = type(tile).__name__
    if n in ('EmptyTile', 'FillerTile'):
        return {'type': 'empty'}
    if n == 'Belt':
        return {'type': 'belt', 'input_direction': int(tile.input_direction), 'output_direction': int(tile.output_direction)}
    if n == 'UndergroundBelt':
        return {'type': 'underground_belt', 'direction': int(tile.direction), 'is_input': tile.is_input}
    return {'type': 'splitter', 'direction': int(tile.direction), 'is_head': tile.is_head}


def truth(g, inst, model):
    """The tile a model describes at a cell, from the cell's variables alone."""
    on = lambda l: l in model
    i = [d for d in range(4) if on(inst.input_direction[d])]
    o = [d for d in range(4) if on(inst.output_direction[d])]
    if on(inst.is_splitter):
        return {'type': 'splitter', 'direction': (i + o)[0], 'is_head': on(inst.is_splitter_head)}
    if on(inst.is_empty):
        return {'type': 'empty'}
    if on(inst.is_underground_in):
        return {'type': 'underground_belt', 'direction': i[0], 'is_input': True}
    if on(inst.is_underground_out):
        return {'type': 'underground_belt', 'direction': o[0], 'is_input': False}
    return {'type': 'belt', 'input_direction': i[0], 'output_direction': o[0]}


def pins(ctx):
    from pysat.solvers import Solver
    for w, h in ((1, 1), (2, 1), (1, 2), (3, 2), (2, 3)) + (((3, 3),) if ctx.thorough else ()):
        for wrap in WRAPS:
            for tile in all_tiles():
                x, y = ctx.rng.randrange(w), ctx.rng.randrange(h)
                g = conc_grid(w, h, wrap, ctx.rng.choice((None, 1, 3)))
                inst = g.get_tile_instance(x, y)
                v = G.ConcView(g, wrap)
                legal = Solver('g3', bootstrap_with=g.clauses)
                want = [l for l in pin_lits(inst, tile)]
                possible = any(legal.solve(assumptions=a) for a in want)
                # legal layouts showing the tile: none may be excluded
                keep = []
                for a in want:
                    for k in range(4):
                        extra = [ctx.rng.choice((1, -1)) * l for l in ctx.rng.sample([*inst.input_direction, *inst.output_direction, *inst.underground], k)]
                        if legal.solve(assumptions=a + extra):
                            keep.append(legal.get_model())
                n = len(g.clauses)
                g.set_tile(x, y, tile)
                s = Solver('g3', bootstrap_with=g.clauses)
                ctx.eval()
                ctx.require(s.solve() == possible, f'set_tile {tile} at {(x, y)} of {w}x{h}: satisfiable is {not possible}', wrap=wrap)
                for m in keep:
                    ctx.require(s.solve(assumptions=m), f'set_tile {tile} at {(x, y)} of {w}x{h} excludes a legal layout showing that tile', wrap=wrap, model=m)
                    ctx.eval()
                for k in range(3):
                    if not s.solve(assumptions=[ctx.rng.choice((1, -1)) * l for l in ctx.rng.sample(range(1, g.pool.top + 1), 0)]):
                        break
                    m = s.get_model()
                    sol = g.parse_solution(m)
                    ctx.require(sol[y, x]['tile'] == as_json(tile), f'pinned {tile}, decoded {sol[y, x]["tile"]}', wrap=wrap, size=(w, h), at=(x, y))
                    ms = set(m)
                    for yy in range(h):
                        for xx in range(w):
                            ctx.require(sol[yy, xx]['tile'] == truth(g, g.tiles[yy, xx], ms), f'cell {(xx, yy)} decoded as {sol[yy, xx]["tile"]}', expected=truth(g, g.tiles[yy, xx], ms))
                    s.add_clause([-l for l in m])
                    # unmentioned (false) variables
                    part = [l for l in m if l > 0 or ctx.rng.random() < 0.5]
                    ctx.rng.shuffle(part)
                    again = g.parse_solution(part)
                    ctx.require(again.tolist() == sol.tolist(), 'dropping false variables changes the decoded layout', wrap=wrap, size=(w, h))
                    ctx.eval()
                s.delete()
                legal.delete()
    ctx.sample(dict(sizes='up to 3x2', tiles=len(all_tiles())))
    for tile in others():
        g = conc_grid(2, 2, (False, False))
        n = len(g.clauses)
        try:
            g.set_tile(0, 0, tile)
            ok = False
        except Exception:
            ok = True
        ctx.require(ok, f'unsupported tile {type(tile).__name__} accepted')
        ctx.eval()


def pin_lits(inst, tile):
    """Alternative assumption lists saying that the cell shows the tile."""
    n = type(tile).__name__
    if n in ('EmptyTile', 'FillerTile'):
        return [[inst.is_empty]]
    if n == 'Belt':
        return [[inst.is_belt, inst.input_direction[tile.input_direction], inst.output_direction[tile.output_direction]]]
    if n == 'UndergroundBelt':
        return [[inst.is_underground_in, inst.input_direction[tile.direction]] if tile.is_input else [inst.is_underground_out, inst.output_direction[tile.direction]]]
    hd = inst.is_splitter_head if tile.is_head else -inst.is_splitter_head
    return [[inst.is_splitter, hd, inst.input_direction[tile.direction]], [inst.is_splitter, hd, inst.output_direction[tile.direction]]]


def tasks(tier):
    ts = all_tiles()
    t = [pin_task((False, False), ts[k::6], k) for k in range(6)] + [pin_task((True, True), ts[::5], 6)]
    t += [refuse_task(), decode_task(None), decode_task(3), decode_task('sym'), bound_task('pins and decoding', [pins])]
    return t
