import itertools

from .common import *

LEVEL = 'proof'
TECHNIQUE = 'deductive: contracts on the position lookups and on the cell/line/block iterators (any grid size, position, offset and bounds; directions and block shapes enumerated), and on variable allocation per cell, obligations from the source discharged by z3'
NOTE = 'Line lengths 1-3 and block shapes up to 3x2 are enumerated, everything else is unbounded. Arbitrary nested templates and their parsing: bounded (random templates, exhaustive small grids).'
RULE = 'random templates and all small grids: variables compared for distinctness, cells, lines, blocks and parsed values compared with an independent enumeration'
BOUND = 'bounded companion: grids up to 3x4, random templates of depth <= 3'
ASSUMPTIONS = ['IDPool._next returns a new variable on every call (pysat)', 'numpy frompyfunc/ogrid/reshape semantics']
VECS = [(1, 0), (0, -1), (-1, 0), (0, 1)]


def entries(items, vars=(), guard=()):
    """Elements of a generated sequence as (bound variables, guard, value)."""
    from pyvc.sym import Fam, z3
    out = []
    for it in items:
        if isinstance(it, Fam):
            for c, its in it.alts:
                out += entries(its, tuple(vars) + tuple(it.vars), tuple(guard) + (it.guard, c))
        else:
            out.append((list(vars), z3.And(*guard) if guard else z3.BoolVal(True), it))
    return out


def mk(E, W, H, mode, pool):
    from factorio_sat.template import BaseGrid, BoolTemplate, CompositeTemplate
    from pyvc.sym import SInt
    return E.call(BaseGrid, (E.call(CompositeTemplate, ({'a': BoolTemplate(), 'b': BoolTemplate()},)), SInt(W), SInt(H)), dict(pool=pool, edge_mode=mode))


def pos_of(tile):
    t = tile.a.t
    return t.arg(1), t.arg(0)


def same_cell(v, tile, x, y):
    from pyvc.gridproof import lit_terms
    from pyvc.sym import z3
    a, b = lit_terms(tile), lit_terms(v.tile(x, y).inst)
    if len(a) != len(b) or any(not i.decl().eq(j.decl()) for i, j in zip(a, b)):
        return z3.BoolVal(False)
    return z3.And([i.arg(k) == j.arg(k) for i, j in zip(a, b) for k in range(2)])


def check_seq(ctx, p, label, run, call, offsets, bounds=()):
    """offsets: array index -> (dx, dy); bounds: (axis, 'min'/'max', constant)."""
    from pyvc.sym import z3
    W, H, X, Y = z3.Ints('W H X Y')
    for k, path in enumerate(run.paths):
        hy = run.hyp + path.conds
        if path.outcome != 'normal':
            p.goal(p.solver(hy), f'{label}: does not raise {type(path.value).__name__}: {path.value}', z3.BoolVal(False))
            continue
        g, seq = path.value
        v = G.SymView(run.E, g, run.wrap)
        es = entries(seq)
        ex = [dx for dx, dy in offsets.values()], [dy for dx, dy in offsets.values()]

        def inside(x, y):
            conj = [v.in_range(x, y)]
            for axis, kind, b in bounds:
                c = (x, y)[axis]
                for d in (min(ex[axis]), max(ex[axis])):
                    conj.append(c + d >= b if kind == 'min' else c + d <= b)
            return z3.And(*conj)
        ps = []
        for n, (vs, guard, val) in enumerate(es):
            at = {(): val} if not hasattr(val, 'shape') else {ix: val[ix] for ix in itertools.product(*map(range, val.shape))}
            if set(at) != set(offsets):
                ctx.obligation(f'{label}: shape', False, str(val))
                return
            first = at[min(offsets, key=lambda ix: (abs(offsets[ix][0]) + abs(offsets[ix][1]), ix))]
            if first is None:
                p.goal(p.solver(hy + [guard]), f'{label}: entry {n} has a first cell', z3.BoolVal(False))
                continue
            x, y = pos_of(first)
            ps.append((vs, guard, x, y))
            s = p.solver(hy + [guard])
            p.goal(s, f'{label}: entry {n} inside the bounds', inside(x, y))
            conj = []
            for ix, (dx, dy) in offsets.items():
                e, x2, y2 = v.pos(x, y, dx, dy)
                conj.append(z3.Not(e) if at[ix] is None else z3.And(e, same_cell(v, at[ix], x2, y2)))
            p.goal(s, f'{label}: entry {n} holds the right cells', z3.And(*conj))
        cover = []
        for vs, guard, x, y in ps:
            sub = [(a, b) for a, b in ((x, X), (y, Y)) if any(a.eq(w) for w in vs)]
            rest = [w for w in vs if not any(w.eq(a) for a, _ in sub)]
            f = z3.And(z3.substitute(guard, *sub), z3.substitute(x, *sub) == X, z3.substitute(y, *sub) == Y)
            cover.append(z3.Exists(rest, f) if rest else f)
        p.goal(p.solver(hy + [inside(X, Y)]), f'{label}: every position in the bounds is visited', z3.Or(cover) if cover else z3.BoolVal(False))
        for a, (vs, guard, x, y) in enumerate(ps):
            for b, (vs2, guard2, x2, y2) in enumerate(ps[:a + 1]):
                ren = [(w, z3.Int(f'{w}~2')) for w in vs2]
                q = lambda t: z3.substitute(t, *ren) if ren else t
                differ = z3.BoolVal(True) if a != b else z3.Or([w != n for w, n in ren] or [z3.BoolVal(False)])
                p.goal(p.solver(hy + [guard, q(guard2), x == q(x2), y == q(y2)]), f'{label}: entries {a} and {b} never coincide', z3.Not(differ))


def iter_task(wrap):
    def fn(ctx):
        from pyvc.gridproof import GridRun
        p = ctx.prover(f'iterators wrap={wrap}')

        def go(label, call, offsets, bounds=()):
            run = GridRun(wrap, lambda E, W, H, mode, pool, r: (lambda g: (g, call(E, g)))(mk(E, W, H, mode, pool)))
            ctx.functions(run.E)
            check_seq(ctx, p, label, run, call, offsets, bounds)
        go('iterate_tiles', lambda E, g: E.call(g.iterate_tiles, ()), {(): (0, 0)})
        for d in VECS:
            for n in (1, 2, 3):
                go(f'iterate_tile_lines {d} {n}', lambda E, g: E.call(g.iterate_tile_lines, (d, n)), {(i,): (d[0] * i, d[1] * i) for i in range(n)})
    return Task(f'proof iterators wrap={wrap}', fn, 'proof', 240)


def block_task(wrap, c, r, ncols, nrows):
    def fn(ctx):
        from pyvc.gridproof import GridRun
        from pyvc.sym import z3, SInt
        p = ctx.prover(f'blocks wrap={wrap}')
        off = {(i, j): (r[0] * i + c[0] * j, r[1] * i + c[1] * j) for i in range(nrows) for j in range(ncols)}
        for names in ((), ('min_x',), ('min_y',), ('max_x',), ('max_y',), ('min_x', 'min_y', 'max_x', 'max_y')):
            bounds = [(0 if nm[-1] == 'x' else 1, nm[:3], z3.Int('b' + nm)) for nm in names]
            kw = {nm: SInt(z3.Int('b' + nm)) for nm in names}
            run = GridRun(wrap, lambda E, W, H, mode, pool, rr: (lambda g: (g, E.call(g.iterate_tile_blocks, (c, ncols, r, nrows), dict(kw))))(mk(E, W, H, mode, pool)))
            ctx.functions(run.E)
            check_seq(ctx, p, f'blocks {c}x{ncols} {r}x{nrows} {names}', run, None, off, bounds)
    return Task(f'proof blocks wrap={wrap} {c}x{ncols} {r}x{nrows}', fn, 'proof', 240)


def alloc_task():
    """Every literal of a cell comes from its own allocation, made for that cell alone."""
    def fn(ctx):
        from pyvc.gridproof import GridRun
        from pyvc.sym import Fam, Lit, z3, SInt
        from factorio_sat.template import ArrayTemplate, BoolTemplate, NumberTemplate, OneHotTemplate
        n = z3.Int('n')
        extras = {'flow': ArrayTemplate(NumberTemplate(2), (2, 2)), 'many': OneHotTemplate(SInt(n)), 'both': lambda flow, many: [flow[0][0], many]}
        for colours, ex in ((None, {}), (1, {}), (5, {}), ('sym', {}), (2, extras)):
            def build(E, W, H, mode, pool, run):
                E.assume(n >= 0)
                g = sym_grid(E, W, H, mode, pool, colours=colours, extras=ex)
                later = [E.call(g.allocate_variable, ()) for _ in range(2)]
                return g, later
            run = GridRun((False, False), build)
            ctx.functions(run.E)
            for k, path in enumerate(run.paths):
                if path.outcome != 'normal':
                    ctx.obligation(f'allocation colours={colours}: raises {path.value}', False)
                    continue
                g, later = path.value
                arr = g.tiles
                seen, problems = set(), []

                def walk(o, bound):
                    if isinstance(o, Lit):
                        t = o.t
                        if z3.is_not(t) or t.decl().kind() != z3.Z3_OP_UNINTERPRETED or not t.decl().name().startswith('v@'):
                            problems.append(f'not a fresh variable: {t}')
                            return
                        if t.decl().name() in seen:
                            problems.append(f'{t.decl().name()} used for two fields')
                        seen.add(t.decl().name())
                        have = [t.arg(i) for i in range(t.num_args())]
                        for b in bound:
                            if not any(b.eq(a) for a in have):
                                problems.append(f'{t} does not depend on {b}')
                        if len(have) != len(bound):
                            problems.append(f'{t} depends on more than {bound}')
                    elif isinstance(o, Fam):
                        for c, its in o.alts:
                            for i in its:
                                walk(i, bound + list(o.vars))
                    elif isinstance(o, (list, tuple)):
                        for i in o:
                            walk(i, bound)
                    else:
                        problems.append(f'unexpected value {o!r}')
                fields = arr.elem._asdict()
                for name, val in fields.items():
                    if name in ('type', 'all_direction', 'both'):
                        continue
                    walk(val, [arr.iv, arr.jv])
                cells = set(seen)
                for l in later:
                    walk(l, [])
                ctx.obligation(f'allocation colours={colours} extras={bool(ex)}: every field and later variable has its own variable', not problems, '; '.join(problems[:5]))
                want = {'is_belt', 'is_empty', 'is_splitter', 'is_underground_in', 'is_underground_out', 'is_splitter_head', 'is_input', 'is_output', 'input_direction', 'output_direction', 'underground'}
                ctx.obligation(f'allocation colours={colours}: fields present', want <= set(fields))
                ok = fields['type'] == [fields[k] for k in ('is_belt', 'is_empty', 'is_splitter', 'is_underground_in', 'is_underground_out')] or all(
                    a.t.eq(b.t) for a, b in zip(fields['type'], [fields[k] for k in ('is_belt', 'is_empty', 'is_splitter', 'is_underground_in', 'is_underground_out')]))
                ctx.obligation(f'allocation colours={colours}: aliases reuse the fields', ok)
    return Task('proof allocation', fn, 'proof', 120)


# ------------------------------------------------------------------------------------------------------------ bounded
def rand_template(rng, depth=0):
    from factorio_sat.template import ArrayTemplate, BoolTemplate, CompositeTemplate, NumberTemplate, OneHotTemplate, ManyHotTemplate
    k = rng.randrange(7 if depth < 2 else 5)
    if k == 0:
        return BoolTemplate()
    if k == 1:
        return OneHotTemplate(rng.randrange(0, 5))
    if k == 2:
        return NumberTemplate(rng.randrange(0, 5))
    if k == 3:
        return NumberTemplate(rng.randrange(2, 5), is_signed=True)
    if k == 4:
        return ManyHotTemplate(rng.randrange(0, 4))
    if k == 5:
        return ArrayTemplate(rand_template(rng, depth + 1), tuple(rng.randrange(1, 4) for _ in range(rng.randrange(1, 3))))
    return CompositeTemplate({f'f{i}': rand_template(rng, depth + 1) for i in range(rng.randrange(1, 4))})


def oracle(t, inst, true):
    """Independent reading of an instance under a model (set of true variables)."""
    n = type(t).__name__
    if n == 'BoolTemplate':
        return inst in true
    if n == 'OneHotTemplate':
        on = [i for i, l in enumerate(inst) if l in true]
        return on[0] if on else None
    if n == 'ManyHotTemplate':
        return [i for i, l in enumerate(inst) if l in true]
    if n == 'NumberTemplate':
        bits = [l in true for l in inst]
        v = sum(1 << i for i, b in enumerate(bits) if b)
        return v - (1 << len(bits)) if t.is_signed and bits[-1] else v
    if n == 'ArrayTemplate':
        def rec(x, shape):
            if not shape:
                return oracle(t.component, x, true)
            assert isinstance(x, list) and len(x) == shape[0], 'array shape'
            return [rec(y, shape[1:]) for y in x]
        return rec(inst, t.shape)
    return {k: oracle(s, getattr(inst, k), true) for k, s in t._atomics.items()}


def atoms(t, inst):
    n = type(t).__name__
    if n == 'BoolTemplate':
        return [inst]
    if n in ('OneHotTemplate', 'ManyHotTemplate', 'NumberTemplate'):
        return list(inst)
    if n == 'ArrayTemplate':
        def rec(x, shape):
            return atoms(t.component, x) if not shape else [a for y in x for a in rec(y, shape[1:])]
        return rec(inst, t.shape)
    return [a for k, s in t._atomics.items() for a in atoms(s, getattr(inst, k))]


def templates(ctx):
    from factorio_sat.template import BaseGrid
    for k in range(300 if not ctx.thorough else 3000):
        t = rand_template(ctx.rng)
        w, h = ctx.rng.randrange(1, 4), ctx.rng.randrange(1, 4)
        g = BaseGrid(t, w, h)
        vs = [a for y in range(h) for x in range(w) for a in atoms(t, g.get_tile_instance(x, y))]
        later = [g.allocate_variable() for _ in range(4)]
        ctx.require(len(set(vs + later)) == len(vs) + 4, 'two fields share a variable', template=str(t), size=(w, h))
        ctx.require(all(isinstance(v, int) and v > 0 for v in vs), 'a field is not a variable', template=str(t))
        ctx.require(len(vs) == g.total_variables and t.variable_count * w * h == len(vs), 'variable count', template=str(t), size=(w, h))
        model = [v if ctx.rng.random() < 0.5 else -v for v in vs + later]
        true = {v for v in model if v > 0}
        sol = g.parse_solution(model)
        for y in range(h):
            for x in range(w):
                want = oracle(t, g.get_tile_instance(x, y), true)
                ctx.require(sol[y, x] == want, f'cell {(x, y)} parsed as {sol[y, x]}, expected {want}', template=str(t))
                ctx.eval()
        ctx.sample(dict(template=str(t)[:200], size=(w, h)))


def walks(ctx):
    from factorio_sat.template import BaseGrid, BoolTemplate
    for w, h in itertools.product(range(1, 4), range(1, 5)):
        for wrap in WRAPS:
            g = BaseGrid(BoolTemplate(), w, h, edge_mode=mode_of(wrap))
            cell = lambda x, y: g.tiles[y, x]

            def at(x, y):
                if not wrap[0] and not 0 <= x < w or not wrap[1] and not 0 <= y < h:
                    return None
                return cell(x % w, y % h)
            ctx.require(sorted(g.iterate_tiles()) == sorted(cell(x, y) for x in range(w) for y in range(h)), 'iterate_tiles', size=(w, h))
            for x, y in itertools.product(range(w), range(h)):
                for dx, dy in itertools.product(range(-5, 6), repeat=2):
                    ctx.require(g.get_tile_instance_offset(x, y, dx, dy) == at(x + dx, y + dy), f'neighbour of {(x, y)} at {(dx, dy)}', size=(w, h), wrap=wrap)
            for x, y in ((-1, 0), (0, -1), (w, 0), (0, h)):
                try:
                    g.get_tile_instance(x, y)
                    bad = True
                except AssertionError:
                    bad = False
                ctx.require(not bad, f'get_tile_instance{(x, y)} outside the grid', size=(w, h))
            key = lambda s: [-1 if v is None else v for v in s]
            for d in VECS:
                for n in range(1, 6):
                    got = sorted(key(s) for s in g.iterate_tile_lines(d, n))
                    want = sorted(key([at(x + d[0] * i, y + d[1] * i) for i in range(n)]) for x in range(w) for y in range(h))
                    ctx.require(got == want, f'lines {d} {n}', size=(w, h), wrap=wrap)
                    ctx.eval()
            for c, r in itertools.product(VECS, VECS):
                if c[0] * r[0] + c[1] * r[1]:
                    continue
                for nc, nr in ((1, 1), (2, 2), (3, 2), (1, 3)):
                    b = {k: ctx.rng.randrange(-1, 5) for k in ('min_x', 'min_y', 'max_x', 'max_y') if ctx.rng.random() < 0.5}
                    want = []
                    for x in range(w):
                        for y in range(h):
                            pts = [(x + r[0] * i + c[0] * j, y + r[1] * i + c[1] * j) for i in range(nr) for j in range(nc)]
                            if all(p[0] >= b.get('min_x', -99) and p[0] <= b.get('max_x', 99) and p[1] >= b.get('min_y', -99) and p[1] <= b.get('max_y', 99) for p in pts):
                                want.append([at(*p) for p in pts])
                    got = [list(m.reshape(-1)) for m in g.iterate_tile_blocks(c, nc, r, nr, **b)]
                    ctx.require(sorted(map(key, got)) == sorted(map(key, want)), f'blocks {c}x{nc} {r}x{nr} {b}', size=(w, h), wrap=wrap)
                    ctx.eval()


def tasks(tier):
    t = [accessor_task(), alloc_task()] + [iter_task(w) for w in WRAPS]
    shapes = [((1, 0), (0, 1), 2, 2), ((0, 1), (1, 0), 2, 2), ((-1, 0), (0, 1), 2, 1), ((0, -1), (1, 0), 1, 2)]
    shapes += [(c, r, 3, 2) for c in VECS for r in VECS if not (c[0] * r[0] + c[1] * r[1])]
    for k, (c, r, nc, nr) in enumerate(shapes):
        for w in (WRAPS if tier == 'thorough' else [WRAPS[0], WRAPS[1 + k % 3]]):
            t.append(block_task(w, c, r, nc, nr))
    t += [bound_task('templates', [templates]), bound_task('walks', [walks])]
    return t
