"""Contracts of the blueprint functions, for layouts of any size and entities in any order and place."""
import base64
import itertools
import json
import zlib

from .common import *
from specs import bp as BP, layout as LY

POSSIBLE = LY.all_tiles(True) + [{'type': 'inserter', 'direction': d, 'insert_type': t} for d in range(4) for t in (0, 1)]


def engine(timeout_ms=4000):
    from pyvc import half
    from pyvc.interp import Engine
    E = Engine(timeout_ms=timeout_ms)
    half.install(E)
    return E


def normal(ctx, p, lab, paths, hyps=()):
    from .networks import normal as f
    return f(ctx, p, lab, paths, hyps)


class Layout:
    """A layout of any size: cell k in [0, n) is at (y(k), x(k)) and holds tile number kind(k) of `kinds`."""

    def __init__(self, kinds):
        from factorio_sat.tile import BaseTile
        from pyvc.sym import z3
        I = z3.IntSort()
        self.n, self.kind = z3.Int('n'), z3.Function('kind', I, I)
        self.y, self.x = z3.Function('y', I, I), z3.Function('x', I, I)
        self.H, self.W = z3.Ints('H W')
        self.kinds, self.tiles = kinds, [LY.to_tiles([[t]])[0, 0] for t in kinds]
        k = z3.Int('k?')
        self.facts = [self.n >= 0, z3.ForAll([k], z3.And(0 <= self.kind(k), self.kind(k) < len(kinds)), patterns=[self.kind(k)]),
                      z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < self.n), z3.And(0 <= self.y(k), self.y(k) < self.H, 0 <= self.x(k), self.x(k) < self.W)), patterns=[self.y(k)])]

    def cells(self, E):
        from pyvc.sym import Fam, SInt, z3
        k = E.fresh_bvar('cell')
        return [Fam([k], z3.And(0 <= k, k < self.n), [(self.kind(k) == m, [((SInt(self.y(k)), SInt(self.x(k))), t)]) for m, t in enumerate(self.tiles)], z3.IntVal(0), self.n)]

    def __pyvc_items__(self, E):
        from pyvc.sym import Unsupported
        raise Unsupported('rows of a layout')

    @property
    def shape(self):
        from pyvc.sym import SInt
        return SInt(self.H), SInt(self.W)


def export_task(level):
    """make_blueprint: for every cell the entity it stands for, in order, numbered from 1; nothing else."""
    def fn(ctx):
        import copy
        import numpy as np
        from factorio_sat import blueprint as B
        from pyvc.half import Half
        from pyvc.sym import Fam, SInt, iterm, z3
        lay = Layout(POSSIBLE)
        want = []
        for t in POSSIBLE:
            es = BP.entities([[t]], level)
            want.append(es[0] if es else None)
        coded = [m for m, e in enumerate(want) if e is not None]
        has = lambda t: z3.Or([lay.kind(t) == m for m in coded])
        p = ctx.prover(f'export {level.lower()}')
        E = engine()
        E.intercepts[np.ndenumerate] = lambda E, a: a.cells(E)
        for label in (None, 'a label'):
            template = copy.deepcopy(B.BLUEPRINT_TEMPLATE)

            def run():
                for f in lay.facts:
                    E.assume(f)
                return E.call(B.make_blueprint, (lay, label, B.TransportBeltLevel[level]))
            lab = f'{label}: '
            for n, path in normal(ctx, p, lab, E.explore(run), lay.facts):
                data = path.value
                ctx.obligation(lab + 'the shared template is unchanged', B.BLUEPRINT_TEMPLATE == template)
                bp = data.get('blueprint') if isinstance(data, dict) else None
                ctx.obligation(lab + 'a blueprint', isinstance(bp, dict) and bp is not B.BLUEPRINT_TEMPLATE['blueprint'] and bp.get('item') == 'blueprint' and bp.get('label') == label and bool(bp.get('version')), repr(data)[:200])
                ents = bp['entities']
                if isinstance(ents, (list, tuple)) and not ents:
                    continue
                ok = len(ents) == 1 and isinstance(ents[0], Fam) and len(ents[0].vars) == 1
                ctx.obligation(lab + 'one entity at most for each cell, in order', ok and all(len(its) == 1 and isinstance(its[0], dict) for _, its in ents[0].alts))
                if not ok:
                    continue
                f = ents[0]
                K = z3.Int('K')
                sub = [(f.vars[0], K)]
                hyps = lay.facts + list(path.assumed) + list(path.conds)
                for total, lo, step in E.sums:
                    hyps += [total(lo) == 0, total(K + 1) == total(K) + step(K)]
                s = p.solver(hyps)
                g = z3.substitute(f.guard, *sub)
                conds = [z3.And(g, z3.substitute(c, *sub)) for c, _ in f.alts]
                p.goal(s, lab + 'an entity for every belt, underground, inserter and splitter head, and for nothing else', z3.And(0 <= K, K < lay.n, has(K)) == z3.Or(conds))
                goals = []
                # numbers: the first is 1, and the number goes up by one exactly from one entity to the next
                numbers = [iterm(its[0].get('entity_number', 0)) for _, its in f.alts]
                ctx.obligation(lab + 'one numbering', all(t.eq(numbers[0]) for t in numbers), repr(numbers)[:300])
                N = lambda t: z3.substitute(numbers[0], (f.vars[0], t))
                p.goal(s, lab + 'numbers start at 1', N(z3.IntVal(0)) == 1)
                p.goal(s, lab + 'numbers count the entities', z3.Implies(z3.And(0 <= K, K < lay.n), N(K + 1) == N(K) + z3.If(has(K), 1, 0)))
                for a, (c, (_, its)) in enumerate(zip(conds, f.alts)):
                    e = its[0]
                    for m in coded:
                        name, x2, y2, code, kind = want[m]
                        here = z3.And(c, lay.kind(K) == m)
                        same = e.get('name') == name and e.get('direction', 0) == code and e.get('type') == kind
                        pos = e.get('position', {})
                        tx, ty = Half.term(pos.get('x')), Half.term(pos.get('y'))
                        known = tx is not None and ty is not None and set(e) <= {'name', 'direction', 'type', 'entity_number', 'position'} and set(pos) == {'x', 'y'}
                        goals.append((f'{lab}case {a}: the entity of {POSSIBLE[m]}', z3.Implies(here, z3.And(z3.substitute(tx, *sub) == 2 * lay.x(K) + x2, z3.substitute(ty, *sub) == 2 * lay.y(K) + y2) if same and known else z3.BoolVal(False))))
                p.goals(s, goals, 64)
        ctx.functions(E)
    return Task(f'proof export {level.lower()}', fn, 'proof', 240)


class Cells:
    """A dictionary keyed by cells; later entries for a cell would replace earlier ones, so proofs show that no cell comes twice."""

    def __init__(self, E, items=()):
        self.E, self.content = E, E.new(list(items))

    def __pyvc_setitem__(self, E, key, value):
        E.list_extend(self.content, [(key, value)])

    def _map(self, f):
        from pyvc.sym import Fam

        def go(items):
            return [Fam(i.vars, i.guard, [(c, go(its)) for c, its in i.alts], i.lo, i.hi) if isinstance(i, Fam) else f(i) for i in items]
        return go(self.content)

    def __pyvc_items__(self, E):
        return self._map(lambda i: i[0])

    def items(self):
        return self._map(lambda i: i)

    def keys(self):
        return self._map(lambda i: i[0])

    def values(self):
        return self._map(lambda i: i[1])

    def copy(self):
        return self.E.new(Cells(self.E, self.content))

    def clear(self):
        old = list(self.content)

        def undo():
            self.content[:] = old
        self.E.mutate(self, undo)
        self.content[:] = []

    for f in (items, keys, values, copy, clear):
        f.__pyvc_native__ = True
    del f

    def __getattr__(self, name):
        from pyvc.sym import Unsupported
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'dictionary.{name}')


class Canvas:
    """A new array of tiles that all start as `fill`."""

    def __init__(self, E, shape, fill):
        self.E, self.shape, self.fill, self.content = E, shape, fill, E.new([])

    def __pyvc_setitem__(self, E, key, value):
        E.list_extend(self.content, [(key, value)])

    def __pyvc_getitem__(self, E, key):
        from pyvc.sym import Unsupported
        raise Unsupported('reading an array being filled')


def entity_kinds():
    """(name, direction, type, head at (0, 0)) -> the cells it stands for."""
    out = []
    for pre in BP.LEVELS.values():
        for d in range(4):
            out.append((pre + 'transport-belt', d, None, [(0, 0, LY.belt(d, d))]))
            for t in ('input', 'output'):
                out.append((pre + 'underground-belt', d, t, [(0, 0, LY.ug(d, t == 'input'))]))
            dx, dy = LY.VEC[(d + 1) % 4]
            out.append((pre + 'splitter', d, None, [(0, 0, LY.splitter(d, True)), (dx, dy, LY.splitter(d, False))]))
    for d in range(4):
        for name in ('burner-inserter', 'inserter', 'fast-inserter', 'filter-inserter', 'stack-inserter', 'stack-filter-inserter', 'long-handed-inserter'):
            out.append((name, d, None, [(0, 0, {'type': 'inserter', 'direction': LY.rev(d), 'insert_type': int(name.startswith('long'))})]))
    for k in '123':
        out.append((f'assembling-machine-{k}', 1, None, [(a - 1, b - 1, {'type': 'assembling_machine', 'x': a, 'y': b}) for a in range(3) for b in range(3)]))
    out.append(('wooden-chest', 1, None, [(0, 0, {'type': 'filler'})]))
    return out


def import_task():
    """import_blueprint: every entity fills its cells, moved so that the layout starts at the origin; nothing else; then belts are bent."""
    def fn(ctx):
        import numpy as np
        from factorio_sat import blueprint as B
        from factorio_sat.tile import EmptyTile
        from pyvc.half import Half
        from pyvc.ghost import leaves
        from pyvc.sym import Fam, SInt, iterm, subst, z3
        I = z3.IntSort()
        kinds = entity_kinds()
        kinds.append(kinds.pop(0))
        assert BP.CODE[kinds[-1][1]]
        n = z3.Int('n')
        kind, X, Y = (z3.Function(f, I, I) for f in ('kind', 'X', 'Y'))
        shown = z3.Function('direction 0 written', I, z3.BoolSort())
        k = z3.Int('k?')
        facts = [n >= 0, z3.ForAll([k], z3.And(0 <= kind(k), kind(k) < len(kinds)), patterns=[kind(k)])]
        p = ctx.prover('import')
        E = engine()
        E.ghost_dicts = Cells
        E.trace = []

        def full(E, shape, fill, **kw):
            c = Canvas(E, tuple(shape), fill)
            return E.new(c)
        E.intercepts[np.full] = full

        def bend(E, f, args, kw):
            tiles = args[0] if args else kw['tiles']
            E.list_extend(E.trace, [('bend', tiles, list(tiles.content) if isinstance(tiles, Canvas) else None)])
        E.contracts['blueprint.resolve_belt_input_directions'] = bend

        def entity(m, j, written):
            name, d, type_, cells = kinds[m]
            pos = [Half(2 * X(j) + 1), Half(2 * Y(j) + 1)]
            if len(cells) == 2:
                pos = [q + (c / 2) for q, c in zip(pos, cells[1])]
            e = {'entity_number': SInt(j + 1), 'name': name, 'position': {'x': pos[0], 'y': pos[1]}}
            if BP.CODE[d] or written:
                e['direction'] = BP.CODE[d]
            if type_ is not None:
                e['type'] = type_
            return e

        def run():
            E.assume(n >= 0)
            j = E.fresh_bvar('entity')
            alts = []
            for m, (name, d, type_, cells) in enumerate(kinds):
                here = kind(j) == m if m + 1 < len(kinds) else z3.Not(z3.And(0 <= kind(j), kind(j) < m))
                if BP.CODE[d]:
                    alts.append((here, [entity(m, j, False)]))
                else:
                    alts += [(z3.And(here, shown(j) == w), [entity(m, j, w)]) for w in (True, False)]
            ents = E.new([Fam([j], z3.And(0 <= j, j < n), alts, z3.IntVal(0), n)])
            return E.call(B.import_blueprint, ({'blueprint': {'item': 'blueprint', 'entities': ents}},))
        seen = set()
        for num, path in normal(ctx, p, '', E.explore(run), facts):
            hyps = facts + list(path.assumed) + list(path.conds)
            r = path.value
            lab = f'path {num}: '
            empty = isinstance(r, Canvas) and not r.content
            seen.add(empty)
            if empty:
                p.goal(p.solver(hyps), lab + 'an empty layout only for no entities', n == 0)
                ctx.obligation(lab + 'nothing in it', all(isinstance(v, int) and v == 0 for v in r.shape), repr(r.shape))
                continue
            J, J2 = z3.Ints('J J2')
            ok = isinstance(r, Canvas) and isinstance(r.fill, EmptyTile) and len(r.shape) == 2
            ctx.obligation(lab + 'a layout of empty tiles to start with', ok, repr(r))
            if not ok:
                continue
            bends = [e for e in path.trace if e[0] == 'bend']
            ctx.obligation(lab + 'belts are bent once everything is in place', len(bends) == 1 and bends[0][1] is r and len(bends[0][2]) == len(r.content))
            H, W = (iterm(t) for t in r.shape)
            flat = list(leaves(r.content))
            at = lambda vs, t, j: subst(t, [(v, j) for v in vs]) if vs else t
            extremes = [e[1:] for e in path.trace if e[0] == 'extreme']
            for m, ismin, items in extremes:
                for vs, g, i in items:
                    t = iterm(at(vs, i, J))
                    hyps.append(z3.Implies(at(vs, g, J), m <= t if ismin else m >= t))
            hyps.append(z3.And(0 <= kind(J), kind(J) < len(kinds)))
            s = p.solver([h for h in hyps if not z3.is_quantifier(h)])
            shift = None
            is_kind = [kind(J) == m for m in range(len(kinds))]
            rel = {}
            goals = []
            for a, (vs, g, (key, value)) in enumerate(flat):
                if len(vs) != 1 or not isinstance(key, tuple) or len(key) != 2:
                    ctx.obligation(lab + f'write {a} belongs to an entity', False)
                    continue
                sub = [(vs[0], J)]
                g = z3.substitute(g, *sub)
                ky, kx = (z3.simplify(z3.substitute(iterm(t), *sub)) for t in key)
                here = {c.get_id() for c in conjuncts(g)}
                m = next((m for m, t in enumerate(is_kind) if t.get_id() in here), len(kinds) - 1)
                got = LY.from_tiles(np.array([[value]], dtype=object))[0][0]
                cells = kinds[m][3]
                hits = [c for c in cells if c[2] == got]
                ctx.obligation(lab + f'write {a} is a tile of its entity', len(hits) == 1, f'{kinds[m][:3]}: {got}')
                if len(hits) != 1:
                    continue
                dx, dy, _ = hits[0]
                if shift is None:
                    shift = z3.simplify(ky - Y(J) - dy), z3.simplify(kx - X(J) - dx)
                rel.setdefault((m, dx, dy), []).append(g)
                goals.append((lab + f'write {a}: place', z3.Implies(g, z3.And(kind(J) == m, ky == Y(J) + dy + shift[0], kx == X(J) + dx + shift[1], 0 <= ky, ky < H, 0 <= kx, kx < W))))
            moved = shift is not None and 'J' not in {str(t) for t in consts(shift[0]) | consts(shift[1])}
            ctx.obligation(lab + 'everything is moved alike', moved, repr(shift))
            p.goals(s, goals, 64)
            goals = []
            for m, (name, d, type_, cells) in enumerate(kinds):
                for dx, dy, t in cells:
                    gs = rel.get((m, dx, dy), [])
                    goals.append((lab + f'{name} {d} {type_ or ""}: cell {dx},{dy}', z3.Implies(z3.And(0 <= J, J < n, kind(J) == m), z3.Or(gs))))
            p.goals(s, goals, 64)
            if moved:
                # the layout touches all four borders
                # some cell has the extreme coordinate, and the tile written for it is on the border
                for what, f in (('top', lambda ky, kx: ky == 0), ('left', lambda ky, kx: kx == 0), ('bottom', lambda ky, kx: ky == H - 1), ('right', lambda ky, kx: kx == W - 1)):
                    ways = []
                    for x, (m, ismin, items) in enumerate(extremes):
                        j = z3.Int(f'J{x}~')
                        there = z3.Or([z3.And(at(vs, g, j), f(iterm(at(vs, key[0], j)), iterm(at(vs, key[1], j)))) for vs, g, (key, _) in flat])
                        ways.append(z3.Implies(z3.Or([z3.And(at(vs, g, j), m == iterm(at(vs, i, j))) for vs, g, i in items]), there))
                    p.goal(s, lab + f'{what} row or column in use', z3.Or(ways))
        ctx.obligation('layouts with and without entities', seen == {True, False}, repr(seen))
        ctx.functions(E)
    return Task('proof import', fn, 'proof', 300)


def conjuncts(g):
    from pyvc.sym import z3
    return [d for c in g.children() for d in conjuncts(c)] if z3.is_and(g) else [g]


def consts(t):
    from pyvc.sym import z3
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x)
        todo += x.children()
    return out


class Side:
    """The direction in which a tile of the layout puts items out: absent or one of four."""

    def __init__(self, t):
        self.t = t          # -1 or the number of the direction

    def _is(self, o):
        from factorio_sat.direction import Direction
        from pyvc.sym import mkbool
        if isinstance(o, Side):
            return mkbool(self.t == o.t)
        if o is None or isinstance(o, Direction):
            return mkbool(self.t == (-1 if o is None else o.value))
        return False

    def __eq__(self, o):
        return self._is(o)

    def __ne__(self, o):
        from pyvc.sym import SBool, mkbool, z3
        r = self._is(o)
        return mkbool(z3.Not(r.t)) if isinstance(r, SBool) else not r
    __hash__ = None

    def __pyvc_is__(self, E, o):
        return self._is(o)

    def known(self):
        """The direction, case by case."""
        from factorio_sat.direction import Direction
        E = sym_engine()
        for d in [None, *Direction]:
            if E.decide(self.t == (-1 if d is None else d.value)):
                return d

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.known(), name)

    def __pyvc_subst__(self, pairs):
        from pyvc.sym import z3
        return Side(z3.substitute(self.t, *pairs))

    def __pyvc_same__(self, o):
        return isinstance(o, Side) and self.t.eq(o.t)


def sym_engine():
    from pyvc import sym
    return sym.ENGINE


class Spot:
    """The tile at a place of the array: what class it has and where it puts items out."""

    def __init__(self, cls, out):
        self.cls, self.out = cls, out

    KINDS = ('EmptyTile', 'FillerTile', 'Belt', 'UndergroundBelt', 'Splitter', 'Inserter', 'AssemblingMachine')

    def __pyvc_isinstance__(self, E, c):
        from factorio_sat import tile as T
        from pyvc.sym import mkbool, z3
        cs = c if isinstance(c, tuple) else (c,)
        return E.decide(z3.Or([self.cls == m for m, k in enumerate(self.KINDS) if issubclass(getattr(T, k), cs)] + [z3.BoolVal(False)]))

    @property
    def output_direction(self):
        from factorio_sat.direction import Direction
        return self.out if isinstance(self.out, Direction) else Side(self.out)

    @property
    def direction(self):
        # of undergrounds and splitters; only an underground entrance puts nothing out
        from pyvc.sym import Unsupported
        raise Unsupported('direction')

    @property
    def input_direction(self):
        from pyvc.sym import Unsupported
        raise Unsupported('the input direction of a tile that may have been replaced')

    def __pyvc_subst__(self, pairs):
        from pyvc.sym import z3
        return Spot(*(z3.substitute(t, *pairs) if z3.is_expr(t) else t for t in (self.cls, self.out)))

    def __pyvc_same__(self, o):
        return isinstance(o, Spot) and self.cls.eq(o.cls) and (self.out is o.out or (hasattr(self.out, 'eq') and hasattr(o.out, 'eq') and self.out.eq(o.out)))


class Field:
    """An array of tiles of any size.  Tiles may be replaced by belts with the same output (shown of every replacement), so the
    class and the output of a tile do not depend on when it is looked at."""

    def __init__(self, E, cls, out, H, W):
        from pyvc.sym import SInt
        self.E, self.cls, self.out, self.H, self.W = E, cls, out, H, W
        self.shape, self.ndim = (SInt(H), SInt(W)), 2
        self.content = E.new([])

    def spot(self, y, x):
        return Spot(self.cls(y, x), self.out(y, x))

    def inside(self, y, x):
        from pyvc.sym import z3
        return z3.And(0 <= y, y < self.H, 0 <= x, x < self.W)

    def cells(self, E):
        from pyvc.sym import Fam, SInt, z3
        y, x = E.fresh_bvar('y'), E.fresh_bvar('x')
        belt = self.cls(y, x) == Spot.KINDS.index('Belt')
        at = lambda s: [((SInt(y), SInt(x)), s)]
        return [Fam([y, x], self.inside(y, x), [(z3.Not(belt), at(self.spot(y, x)))] + [
            (z3.And(belt, self.out(y, x) == d.value), at(Spot(z3.IntVal(Spot.KINDS.index('Belt')), d))) for d in self.only])]

    def _place(self, key):
        from pyvc.sym import Unsupported, iterm
        if not isinstance(key, tuple) or len(key) != 2:
            raise Unsupported('index')
        return [iterm(k) for k in key]

    def __pyvc_getitem__(self, E, key):
        from pyvc.sym import Unsupported
        y, x = self._place(key)
        if not E.decide(self.inside(y, x)):
            raise Unsupported('tile outside the array')
        return self.spot(y, x)

    def __pyvc_setitem__(self, E, key, value):
        E.list_extend(self.content, [(tuple(self._place(key)), value)])


def bend_task(*dirs):
    """resolve_belt_input_directions on belts going d: a belt bends exactly when its only feeding neighbour is at its side."""
    def fn(ctx):
        import numpy as np
        from factorio_sat import blueprint as B
        from factorio_sat.direction import Direction
        from factorio_sat.tile import Belt
        from pyvc.ghost import leaves
        from pyvc.sym import SInt, iterm, z3
        I = z3.IntSort()
        cls, out = z3.Function('class', I, I, I), z3.Function('out', I, I, I)
        H, W = z3.Ints('H W')
        y, x = z3.Ints('y? x?')
        k = Spot.KINDS.index
        sound = lambda y, x: z3.And(0 <= cls(y, x), cls(y, x) < len(Spot.KINDS), -1 <= out(y, x), out(y, x) < 4,
                                    z3.Implies(cls(y, x) == k('Belt'), out(y, x) >= 0), z3.Implies(cls(y, x) == k('Splitter'), out(y, x) >= 0))
        p = ctx.prover(f'bends {dirs}')
        E = engine()
        E.max_paths = 20000
        E.intercepts[np.ndenumerate] = lambda E, a: a.cells(E)
        E.intercepts[np.ndindex] = lambda E, *a: ndindex(E, a)
        hyp = [H >= 0, W >= 0]
        Y, X = z3.Ints('Y X')

        def run():
            for h in hyp:
                E.assume(h)
            # belts that go elsewhere are the subject of the other three tasks; they are neighbours here
            f = E.new(Field(E, cls, out, H, W))
            f.only = [Direction(q) for q in dirs]
            r = E.call(B.resolve_belt_input_directions, (f,))
            return f, r
        feeds = lambda q, y, x: z3.And(0 <= y - LY.VEC[q][1], y - LY.VEC[q][1] < H, 0 <= x - LY.VEC[q][0], x - LY.VEC[q][0] < W,
                                       z3.Or([cls(y - LY.VEC[q][1], x - LY.VEC[q][0]) == k(c) for c in ('Belt', 'UndergroundBelt', 'Splitter')]),
                                       out(y - LY.VEC[q][1], x - LY.VEC[q][0]) == q)
        def wanted(d, q):
            """Belts at (Y, X) going d are entered moving in direction q."""
            sides = [q for q in range(4) if q != LY.rev(d)]
            fs = {r: feeds(r, Y, X) for r in sides}
            only = {r: z3.And(fs[r], z3.And([z3.Not(fs[o]) for o in sides if o != r])) for r in sides}
            if q == LY.rev(d):
                return z3.BoolVal(False)
            return only[q] if q != d else z3.Not(z3.Or([only[r] for r in sides if r != d]))
        for num, path in normal(ctx, p, '', E.explore(run), hyp):
            f, r = path.value
            lab = f'path {num}: '
            ctx.obligation(lab + 'works in place', r is None or r is f)
            s = p.solver(hyp + list(path.assumed) + list(path.conds) + [sound(Y, X)] + [sound(Y - LY.VEC[q][1], X - LY.VEC[q][0]) for q in range(4)])
            flat = list(leaves(f.content))
            goals, here = [], []
            for a, (vs, g, ((ky, kx), value)) in enumerate(flat):
                ok = isinstance(value, Belt) and not isinstance(value, Spot)
                if not ok or len(vs) != 2:
                    ctx.obligation(lab + f'write {a} is a belt', False, repr(value)[:200])
                    continue
                tie = z3.And(g, ky == Y, kx == X)
                sub = [(v, w) for v, w in zip(vs, z3.Ints('V0 V1'))]
                tie = z3.substitute(tie, *sub)
                i, o = value.input_direction.value, value.output_direction
                same = out(Y, X) == (o.t if isinstance(o, Side) else o.value)
                goals.append((lab + f'write {a}: a belt going on as before', z3.Implies(tie, z3.And(cls(Y, X) == k('Belt'), same, f.inside(Y, X)))))
                goals.append((lab + f'write {a}: entered from the only feeding side', z3.Implies(tie, z3.Or([z3.And(out(Y, X) == d, wanted(d, i)) for d in dirs]))))
                here.append(z3.substitute(z3.And(g, ky == Y, kx == X), *zip(vs, (Y, X))))
            p.goals(s, goals, 64)
            p.goal(s, lab + 'every belt is looked at', z3.Implies(z3.And(f.inside(Y, X), cls(Y, X) == k('Belt'), z3.Or([out(Y, X) == d for d in dirs])), z3.Or(here)))
        ctx.functions(E)
    return Task(f'proof bends {" ".join(map(str, dirs))}', fn, 'proof', 240)


def ndindex(E, a):
    from pyvc.sym import Fam, SInt, iterm, z3
    h, w = a[0] if len(a) == 1 else a
    y, x = E.fresh_bvar('y'), E.fresh_bvar('x')
    return [Fam([y, x], z3.And(0 <= y, y < iterm(h), 0 <= x, x < iterm(w)), [(z3.BoolVal(True), [(SInt(y), SInt(x))])])]


def roundtrip_task():
    """Composition: what the contract of exporting says of a tile, read by the contract of importing, is that tile in that place."""
    def fn(ctx):
        from pyvc.sym import z3
        p = ctx.prover('round trip')
        kinds = {e[:3]: e[3] for e in entity_kinds()}
        at = lambda x, y, t: (x, y, LY.belt(t['output_direction'], t['output_direction']) if t['type'] == 'belt' else t)
        for level in BP.LEVELS:
            for t in POSSIBLE:
                if t['type'] in ('empty', 'filler'):
                    ctx.obligation(f'{level}: no entity for {t}', BP.entities([[t]], level) == [])
                    continue
                head, (hx, hy) = t, (0, 0)
                if t['type'] == 'splitter' and not t['is_head']:
                    ctx.obligation(f'{level}: no entity of its own for {t}', BP.entities([[t]], level) == [])
                    dx, dy = LY.VEC[(t['direction'] + 1) % 4]
                    head, (hx, hy) = LY.splitter(t['direction'], True), (-dx, -dy)
                (name, x2, y2, code, type_), = BP.entities([[head]], level)
                cells = kinds.get((name, BP.BACK[code], type_))
                ctx.obligation(f'{level}: {t} is imported again', cells is not None)
                # an entity of this kind with its head at (0, 0) is in the middle of its cells
                mx, my = sum(c[0] for c in cells) * 2 // len(cells) + 1, sum(c[1] for c in cells) * 2 // len(cells) + 1
                ctx.obligation(f'{level}: {t} in its place', (mx, my) == (x2, y2) and at(-hx, -hy, t) in [(x, y, u) for x, y, u in cells] and len(cells) == (2 if t['type'] == 'splitter' else 1), repr((name, x2, y2, cells)))
        # in a legal layout whatever puts items out towards a belt does so in the direction in which the belt takes them in
        for d in range(4):
            into = z3.Int('in')
            fs = [z3.Bool(f'feeds{q}') for q in range(4)]
            legal = [z3.Implies(fs[q], into == q) for q in range(4)] + [into != LY.rev(d), 0 <= into, into < 4]
            sides = [q for q in range(4) if q != LY.rev(d)]
            only = {r: z3.And(fs[r], z3.And([z3.Not(fs[o]) for o in sides if o != r])) for r in sides}
            s = p.solver(legal)
            for q in sides:
                w = only[q] if q != d else z3.Not(z3.Or([only[r] for r in sides if r != d]))
                p.goal(s, f'a belt going {d} fed inside the layout: entered in direction {q} exactly if it was', z3.Implies(z3.Or(fs), w == (into == q)))
            p.goal(s, f'a belt going {d} fed from outside comes back straight', z3.Implies(z3.Not(z3.Or(fs)), z3.Not(z3.Or([only[r] for r in sides if r != d]))))
    return Task('proof round trip', fn, 'proof', 120)


class Mark:
    """Something a library function made: only that function's inverse can take it apart."""

    def __init__(self, *what):
        self.what = what

    def __eq__(self, o):
        return isinstance(o, Mark) and all(a is b or (isinstance(a, (str, Mark)) and a == b) for a, b in zip(self.what, o.what)) and len(self.what) == len(o.what)
    __hash__ = None

    def _codec(self, a, k):
        from pyvc.sym import Unsupported
        names = [str(v).lower().replace('-', '').replace('_', '') for v in (*a, *k.values())]
        if names not in ([], ['utf8'], ['ascii'] * (self.what[0] in ('b64', 'bytes b64'))):
            raise Unsupported(f'codec {names}')

    def encode(self, *a, **k):
        self._codec(a, k)
        return Mark('bytes ' + self.what[0], *self.what[1:])

    def decode(self, *a, **k):
        from pyvc.sym import Unsupported
        self._codec(a, k)
        if not self.what[0].startswith('bytes '):
            raise Unsupported('decoding text')
        return Mark(self.what[0][6:], *self.what[1:])

    def __radd__(self, o):
        return Line(o, self)

    for f in (encode, decode):
        f.__pyvc_native__ = True
    del f


class Line:
    """A string of known first character (or an unknown one) and a rest."""

    def __init__(self, first, rest):
        self.first, self.rest = first, rest

    def __pyvc_getitem__(self, E, key):
        from pyvc.sym import Unsupported
        if isinstance(key, int) and key == 0:
            return self.first
        if isinstance(key, slice) and key == slice(1, None):
            return self.rest
        if isinstance(key, slice) and key == slice(None, 1):
            return self.first
        raise Unsupported(f'part {key} of a string')

    def startswith(self, c):
        from pyvc.sym import Unsupported
        if not isinstance(c, str) or len(c) != 1:
            raise Unsupported('prefix')
        return self.first == c

    startswith.__pyvc_native__ = True


class Char:
    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        from pyvc.sym import Unsupported, mkbool
        if not isinstance(o, str):
            raise Unsupported('character')
        return mkbool(self.t == ord(o)) if len(o) == 1 else False

    def __ne__(self, o):
        from pyvc.sym import SBool, mkbool, z3
        r = self == o
        return mkbool(z3.Not(r.t)) if isinstance(r, SBool) else not r
    __hash__ = None


class Packed:
    """Bytes, as numbers 0..255."""

    def __init__(self, items):
        self.items = items


def library(E):
    """Assumed of the libraries: json, zlib and base64 take apart what they made."""
    import struct
    from pyvc.sym import SInt, Unsupported, iterm, z3

    def makes(tag, wants, keep=()):
        def f(E, x, *a, **k):
            if a or set(k) - set(keep) or (wants is not None and not (isinstance(x, Mark) and x.what[0] in wants)):
                raise Unsupported(f'{tag} of {x}')
            return Mark(tag, x)
        return f

    def takes(tag, *tags):
        def f(E, x, *a, **k):
            if a or k or not isinstance(x, Mark) or x.what[0] not in (tag, *tags):
                raise Unsupported(f'taking apart {x.what[0] if isinstance(x, Mark) else x}, not {tag}')
            return x.what[1]
        return f
    E.intercepts[json.dumps] = makes('json', None, ('separators', 'sort_keys', 'ensure_ascii'))
    E.intercepts[json.loads] = takes('json', 'bytes json')
    E.intercepts[zlib.compress] = makes('zlib', ('bytes json',), ('level',))
    E.intercepts[zlib.decompress] = takes('zlib')
    E.intercepts[base64.b64encode] = lambda E, x, *a, **k: Mark('bytes b64', makes('b64', ('zlib',))(E, x, *a, **k).what[1])
    E.intercepts[base64.b64decode] = takes('b64', 'bytes b64')
    sizes = {'B': 1, 'H': 2, 'I': 4, 'Q': 8}

    def codes(fmt):
        if fmt[0] != '<' or set(fmt[1:]) - set(sizes):
            raise Unsupported(f'format {fmt}')
        return [sizes[c] for c in fmt[1:]]

    def pack(E, fmt, *values):
        out = []
        cs = codes(fmt)
        if len(cs) != len(values):
            raise struct.error('number of values')
        for n, v in zip(cs, values):
            t = iterm(v)
            if not E.decide(z3.And(0 <= t, t < 256 ** n)):
                raise struct.error('out of range')
            bs = [z3.Int(E.fresh_name('byte')) for _ in range(n)]
            for b in bs:
                E.assume(z3.And(0 <= b, b < 256))
            E.assume(t == z3.Sum([b * 256 ** i for i, b in enumerate(bs)]))
            out += bs
        return Packed(out)

    def unpack(E, fmt, data):
        cs = codes(fmt)
        if not isinstance(data, Packed) or sum(cs) != len(data.items):
            raise Unsupported('unpacking')
        it = iter(data.items)
        return tuple(SInt(z3.Sum([next(it) * 256 ** i for i in range(n)])) for n in cs)
    E.intercepts[struct.pack], E.intercepts[struct.unpack] = pack, unpack


def strings_task():
    """Blueprint strings and version numbers: taken apart they give back what was put in; other versions of strings are refused."""
    def fn(ctx):
        from factorio_sat import blueprint as B
        from pyvc.interp import Unsupported
        from pyvc.sym import SInt, iterm, z3
        p = ctx.prover('strings')
        E = engine()
        library(E)
        data = object()
        for n, path in normal(ctx, p, 'encode: ', E.explore(lambda: E.call(B.encode_blueprint, (data,)))):
            r = path.value
            ctx.obligation('encode: version 0 and the data, once each, compressed', isinstance(r, Line) and r.first == '0' and r.rest == Mark('b64', Mark('zlib', Mark('bytes json', data))), repr(r))

        def run():
            return E.call(B.decode_blueprint, (E.call(B.encode_blueprint, (data,)),))
        for n, path in normal(ctx, p, 'decode of encode: ', E.explore(run)):
            ctx.obligation('decode of encode: the same data', path.value is data)
        c = z3.Int('first character')
        line = lambda: Line(Char(c), Mark('b64', Mark('zlib', Mark('bytes json', data))))
        seen = set()
        for n, path in enumerate(E.explore(lambda: E.call(B.decode_blueprint, (line(),)))):
            s = p.solver(list(path.assumed) + list(path.conds))
            seen.add(path.outcome)
            if path.outcome == 'raise':
                p.goal(s, f'decode path {n}: only other versions are refused', c != ord('0'))
            else:
                p.goal(s, f'decode path {n}: only version 0 is accepted', c == ord('0'))
                ctx.obligation(f'decode path {n}: the data', path.value is data)
        ctx.obligation('both ways', seen == {'raise', 'return'} or seen == {'raise', 'normal'}, repr(seen))
        vs = z3.Ints('major minor patch developer')
        ranges = [z3.And(0 <= v, v < 65536) for v in vs]

        def versions():
            for r in ranges:
                E.assume(r)
            n = E.call(B.encode_factorio_version, tuple(SInt(v) for v in vs))
            return n, E.call(B.decode_factorio_version, (n,))
        for n, path in normal(ctx, p, 'version: ', E.explore(versions), ranges):
            number, back = path.value
            s = p.solver(ranges + list(path.assumed) + list(path.conds))
            p.goal(s, f'version path {n}: 16 bits each, the major version lowest', iterm(number) == z3.Sum([v * 65536 ** i for i, v in enumerate(vs)]))
            ctx.obligation(f'version path {n}: four numbers', isinstance(back, tuple) and len(back) == 4)
            p.goal(s, f'version path {n}: the same version back', z3.And([iterm(b) == v for b, v in zip(back, vs)]))
        ctx.functions(E)
    return Task('proof strings', fn, 'proof', 120)


def blueprint_tasks():
    return [export_task(l) for l in BP.LEVELS] + [import_task(), bend_task(*range(4)), roundtrip_task(), strings_task()]
