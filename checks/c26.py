import itertools
import json

from .common import *
from .c25 import program
from specs import layout as LY

LEVEL = 'proof'
TECHNIQUE = ('deductive: require_correct_transport_through_edges, create_edge and flow_counts executed for grids of every size and proved to count exactly the net belts carried over every border with the forced number; '
             'conservation lemmas (cell equation, row and column sums by induction) prove these numbers forced; main() proved to set up every promised rule for every size and option; routing lemmas over those contracts; discharged by z3')
NOTE = ('All grid sizes and underground lengths. The counting encodings themselves (pysat CardEnc) are by contract (bounded evidence in C02 and here); '
        'that a belt which always goes on, never joins another and cannot revisit a cell must leave (finiteness of the grid) is the one step outside the solver.')
RULE = 'valid interchanges found without the transport requirements, judged by tracing their belts, stay satisfiable with them; printed interchanges are traced'
BOUND = 'bounded companion: interchanges up to 12x8; flow counts up to size 60'
ASSUMPTIONS = ['library_equals / library_atleast count correctly (pysat.card.CardEnc; bounded evidence in C02)', 'IDPool._next returns a new variable on every call (pysat)', 'numpy arange/full/stack and elementwise integer arithmetic', 'argparse: run for real on concrete arguments']


def forced(s, k):
    """Net belts of each colour crossing between rows 2k+1 and 2k+2 of an interchange of 2s rows: what enters above minus what leaves above."""
    rows = 2 * k + 2
    return min(rows, s) - rows // 2


def traced(rows):
    """Output row of every input row, or an error."""
    L = LY.Layout(rows)
    bad = L.problems(edge_undergrounds=False)
    if bad:
        return str(bad[:3])
    w, h = L.w, L.h
    for x, y in L.cells():
        t = rows[y][x]
        if t['type'] not in ('belt', 'underground_belt', 'empty'):
            return f'{t["type"]} at {(x, y)}'
        for d, s in ((LY.outputs(t), 1), (LY.inputs(t), -1)):
            if d is not None and L.pos(x, y, d, s) is None and (d, x) not in ((0, 0), (0, w - 1)):
                return f'{(x, y)} crosses the border'
    nxt = {a: b for a, b, k in L.graph()}
    out = {}
    for y in range(h):
        if LY.inputs(rows[y][0]) != 0 or LY.outputs(rows[y][w - 1]) != 0:
            return f'row {y} has no input or output'
        c, n = (0, y), 0
        while c in nxt:
            c = nxt[c]
            n += 1
            if n > w * h:
                return 'loop'
        if c[0] != w - 1 or LY.outputs(rows[c[1]][c[0]]) != 0:
            return f'input {y} ends at {c}'
        out[y] = c[1]
    return out


def valid(rows, alternating=False):
    m = traced(rows)
    if isinstance(m, str):
        return m
    h = len(rows)
    col = {b: int(a >= h // 2) for a, b in m.items()}
    for y in range(0, h, 2):
        if sorted((col.get(y, 9), col.get(y + 1, 9))) != [0, 1] or (alternating and col[y] != 0):
            return f'outputs {y}, {y + 1} carry {col.get(y)}, {col.get(y + 1)}'
    return None


def net(rows):
    """Net flows over every row boundary (colour -> downward) and column boundary, from the traced belts."""
    L = LY.Layout(rows)
    nxt = {a: (b, k) for a, b, k in L.graph()}
    h = L.h
    down = [[0, 0] for _ in range(h - 1)]
    right = [0] * (L.w - 1)
    for y in range(h):
        c, colour = (0, y), int(y >= h // 2)
        while c in nxt:
            n, k = nxt[c]
            for q in range(min(c[1], n[1]), max(c[1], n[1])):
                down[q][colour] += 1 if n[1] > c[1] else -1
            for q in range(min(c[0], n[0]), max(c[0], n[0])):
                right[q] += 1 if n[0] > c[0] else -1
            c = n
    return down, right


def setup(w, h, u, requirement):
    import factorio_sat.interchange as I
    from factorio_sat.solver import Grid
    g = Grid(w, h, 2, u)
    for t in g.iterate_tiles():
        g.clauses.append([-t.is_splitter])
    for y in range(h):
        g.clauses.append([g.get_tile_instance(0, y).input_direction[0]])
        g.clauses.append([g.get_tile_instance(w - 1, y).output_direction[0]])
        g.set_colour(0, y, int(y >= h // 2))
    for y in range(0, h, 2):
        a, b = (g.get_tile_instance(w - 1, y + k).colour[0] for k in (0, 1))
        g.clauses += [[a, b], [-a, -b]]
    g.block_underground_through_edges()
    g.block_belts_through_edges((False, True))
    g.prevent_bad_undergrounding()
    g.prevent_bad_colouring()
    g.prevent_intersection()
    g.enforce_maximum_underground_length()
    if requirement:
        I.require_correct_transport_through_edges(g)
    return g


def layouts(rng, w, h, u, n):
    """Random valid interchanges found without the transport requirement."""
    from pysat.solvers import Solver
    g = setup(w, h, u, False)
    vs = [l for t in g.iterate_tiles() for l in t.input_direction + t.output_direction]
    with Solver('g3', bootstrap_with=g.clauses) as s:
        for _ in range(n):
            s.set_phases([v if rng.random() < 0.3 else -v for v in range(1, g.pool.top + 1)])
            a, cells = [], [(x, y) for x in range(1, w - 1) for y in range(h)]
            rng.shuffle(cells)
            for x, y in cells[:rng.randint(0, 8)]:
                t = g.get_tile_instance(x, y)
                p = rng.choice([t.is_empty, t.is_underground_in, t.is_underground_out, t.is_belt, t.output_direction[rng.randrange(4)]])
                if s.solve(assumptions=a + [p]):
                    a.append(p)
            if not s.solve(assumptions=a):
                return
            m = set(s.get_model())
            s.add_clause([-v if v in m else v for v in vs])
            yield LY.decode(g, m)


CASES = [(3, 2, 4), (6, 4, 4), (7, 4, 8), (9, 4, 3), (9, 6, 4), (8, 6, 8), (12, 8, 6), (4, 2, 1)]


def kept(part, parts, sizes=None):
    def fn(ctx):
        import random
        from pysat.solvers import Solver
        rng = random.Random(ctx.seed * 17 + part)
        for w, h, u in (sizes or CASES)[part::parts]:
            k = 0
            for rows in layouts(rng, w, h, u, 40 if ctx.thorough else 14):
                why = valid(rows)
                if why:
                    continue
                k += 1
                down, right = net(rows)
                s = h // 2
                for q in range(s - 1):
                    ctx.require(down[2 * q + 1] == [forced(s, q), -forced(s, q)], 'a valid interchange does not carry the forced counts (oracle)', rows=rows, counts=down)
                ctx.require(right == [h] * (w - 1), 'rightward count (oracle)', rows=rows, counts=right)
                g = setup(w, h, u, True)
                for y, r in enumerate(rows):
                    for x, t in enumerate(r):
                        g.set_tile(x, y, LY.make(t))
                with Solver('g3', bootstrap_with=g.clauses) as sv:
                    ok = sv.solve()
                ctx.eval()
                ctx.require(ok, f'a valid interchange {w}x{h} is excluded by the transport requirements', rows=rows, size=[w, h])
            ctx.sample(dict(size=[w, h], length=u, interchanges=k))
    return fn


def colour_net(L, colours):
    down, right = [[0, 0] for _ in range(L.h - 1)], [0] * (L.w - 1)
    for a, b, k in L.graph():
        for q in range(min(a[1], b[1]), max(a[1], b[1])):
            down[q][colours[a[1]][a[0]]] += 1 if b[1] > a[1] else -1
        for q in range(min(a[0], b[0]), max(a[0], b[0])):
            right[q] += 1 if b[0] > a[0] else -1
    return down, right


def short(L, colours):
    """Why the layout does not carry the required counts, or None."""
    down, right = colour_net(L, colours)
    s = L.h // 2
    for q in range(s - 1):
        if down[2 * q + 1][0] != forced(s, q) or -down[2 * q + 1][1] < forced(s, q):
            return f'rows {2 * q + 1}/{2 * q + 2}: {down[2 * q + 1]} instead of {forced(s, q)}'
    for q in range(L.w - 1):
        if right[q] != L.h:
            return f'columns {q}/{q + 1}: {right[q]} instead of {L.h}'


def carried(part, parts, sizes=None):
    """Any layouts, not only interchanges: the requirement holds exactly for those that carry the required counts."""
    def fn(ctx):
        import random
        import factorio_sat.interchange as I
        from factorio_sat.solver import Grid
        from pysat.solvers import Solver
        rng = random.Random(ctx.seed * 31 + part)

        def build(w, h, u, requirement, ends):
            g = Grid(w, h, 2, u)
            g.clauses += [[-t.is_splitter] for t in g.iterate_tiles()]
            if ends:
                for y in range(h):
                    g.clauses.append([g.get_tile_instance(0, y).input_direction[0]])
                    g.clauses.append([g.get_tile_instance(w - 1, y).output_direction[0]])
            g.block_underground_through_edges()
            g.prevent_bad_undergrounding()
            g.prevent_bad_colouring()
            g.prevent_intersection()
            g.enforce_maximum_underground_length()
            if requirement:
                I.require_correct_transport_through_edges(g)
            return g
        for w, h, u in (sizes or [(2, 4, 2), (4, 4, 3), (5, 2, 3), (5, 6, 4), (6, 8, 4), (3, 6, 4), (6, 4, 5), (2, 10, 3)])[part::parts]:
            n = [0, 0, 0]
            for requirement in (True, False):
                for ends in (True, False):
                    g = build(w, h, u, requirement, ends)
                    with Solver('g3', bootstrap_with=g.clauses) as s:
                        for _ in range(30 if ctx.thorough else 10):
                            s.set_phases([v if rng.random() < 0.4 else -v for v in range(1, g.pool.top + 1)])
                            a = []
                            for _ in range(rng.randint(0, 8)):
                                t = g.get_tile_instance(rng.randrange(w), rng.randrange(h))
                                p = rng.choice([t.is_empty, t.is_underground_in, t.is_underground_out, t.is_belt, t.output_direction[rng.randrange(4)], t.colour[0], -t.colour[0]])
                                if s.solve(assumptions=a + [p]):
                                    a.append(p)
                            if not s.solve(assumptions=a):
                                break
                            m = set(s.get_model())
                            rows = LY.decode(g, m)
                            colours = [[int(g.get_tile_instance(x, y).colour[0] in m) for x in range(w)] for y in range(h)]
                            L = LY.Layout(rows)
                            why = short(L, colours)
                            ctx.eval()
                            if requirement:
                                n[0] += 1
                                ctx.require(why is None, f'a layout {w}x{h} that meets the transport requirements does not carry the required counts: {why}', rows=rows, colours=colours)
                                continue
                            g2 = build(w, h, u, True, ends)
                            for y in range(h):
                                for x in range(w):
                                    g2.set_tile(x, y, LY.make(rows[y][x]))
                                    c = g2.get_tile_instance(x, y).colour[0]
                                    g2.clauses.append([c if colours[y][x] else -c])
                            with Solver('g3', bootstrap_with=g2.clauses) as s2:
                                ok = s2.solve()
                            n[1 + (why is None)] += 1
                            ctx.require(ok == (why is None), f'layout {w}x{h}: counts {why or "as required"}, but the transport requirements {"accept" if ok else "exclude"} it', rows=rows, colours=colours)
            ctx.sample(dict(size=[w, h], length=u, with_requirement=n[0], short=n[1], full=n[2]))
    return fn


def counts(ctx):
    import factorio_sat.interchange as I
    for s in range(1, 61):
        got = [int(c) for c in I.flow_counts(s)]
        ctx.eval()
        want = [forced(s, k) for k in range(s - 1)]
        ctx.require(got[:s - 1] == want, f'flow counts of size {s}: {got} instead of {want}', size=s)


def printed(ctx):
    """Interchanges printed by the program."""
    import factorio_sat.interchange as I
    for w, h, extra in ((6, 4, []), (6, 4, ['--alternating']), (12, 6, ['--rot-symmetry']), (5, 2, ['--rot-symmetry']), (10, 6, []), (3, 2, []), (12, 8, ['--underground-length', '6']), (9, 4, ['--underground-length', '3']), (10, 6, ['--alternating'])):
        n = 0
        for sol in program(I, [w, h, '--all'] + extra, 10):
            rows = [[c['tile'] for c in r] for r in sol]
            ctx.eval()
            n += 1
            why = valid(rows, '--alternating' in extra)
            ctx.require(why is None, f'interchange {w}x{h} {extra}: {why}', rows=rows)
            u = int(extra[1]) if '--underground-length' in extra else 4
            ctx.require(not LY.Layout(rows).problems(max_length=u, edge_undergrounds=False), f'interchange {w}x{h} {extra}: undergrounds too long', rows=rows)
        ctx.sample(dict(size=[w, h], options=extra, printed=n))


# ------------------------------------------------------------------------------------------------ proofs
def rules(v, x, y, blocked=False):
    """The grid rules an interchange is built on (contracts of C03-C07) at one cell, without splitters."""
    fs = G.base(v, x, y, 2) + G.intersection(v, x, y) + G.undergrounds(v, x, y)
    fs += G.transport(v, x, y, lambda t: t.num('colour'), lambda t: t.num('colour_ux'), lambda t: t.num('colour_uy'), lambda a, b: a == b)
    if blocked:
        fs += G.undergrounds_blocked(v, x, y, [True] * 4) + G.belts_blocked(v, x, y, [False, True, False, True])
    fs.append(('no splitter', G.Not(v.tile(x, y).is_splitter)))
    return [G.Implies(v.in_range(x, y), f) for _, f in fs]


def one_if(*c):
    from pyvc.sym import z3
    return z3.If(G.And(*c), z3.IntVal(1), z3.IntVal(0))


def crossing(v, x, y, d, colour=None):
    """Belts carried from cell (x, y) one step in direction d, on the ground or below it, of a colour or of any."""
    dx, dy = G.VEC[d]
    t, o = v.tile(x, y), v.tile(x + dx, y + dy)
    f = 'colour_ux' if d % 2 == 0 else 'colour_uy'
    col = lambda q, f: z3_true() if colour is None else q.num(f) == colour
    return one_if(t.out[d], col(t, 'colour')) + one_if(G.Or(G.And(t.ug[d], col(t, f)), G.And(o.ug[d], col(o, f))))


def z3_true():
    from pyvc.sym import z3
    return z3.BoolVal(True)


def net_flow(v, x, y, d, colour=None):
    """Net number carried over the border between (x, y) and its neighbour in direction d."""
    dx, dy = G.VEC[d]
    return crossing(v, x, y, d, colour) - crossing(v, x + dx, y + dy, G.rev(d), colour)


def forced_term(H, y):
    """Belts of each colour that have to change sides between rows y and y + 1 (y odd): entering above minus leaving above."""
    from pyvc.sym import z3
    rows = y + 1
    return z3.If(rows <= H / 2, rows, H / 2) - rows / 2


def transport_proof():
    def fn(ctx):
        import factorio_sat.interchange as I
        from pyvc import symvec
        from pyvc.gridproof import GridRun, cell_decls, positions
        from pyvc.prove import schemas
        from pyvc.sym import Fam, Lit, SInt, Unsupported, iterm, z3
        cards, serial = {}, itertools.count()

        def card(kind):
            def c(E, f, args, kw):
                t = E.fresh_bool(f'{kind}{next(serial)}_')        # branches of a loop body reuse names: one name per call
                cards[t.decl().name()] = (kind, list(E.bound), list(args[0]), args[1])
                return E.new([[Lit(t)]])
            return c

        def build(E, W, H, mode, pool, run):
            symvec.install(E)
            E.assume(H % 2 == 0)
            cards.clear()
            g = sym_grid(E, W, H, mode, pool, colours=2)
            before = list(g.clauses)
            E.call(I.require_correct_transport_through_edges, (g,))
            return g, before, dict(cards)
        run = GridRun((False, False), build, contracts={f'cardinality.library_{k}': card(k) for k in ('atleast', 'equals', 'atmost')})
        ctx.functions(run.E)
        p = ctx.prover('transport requirements')
        W, H = run.W, run.H
        hy0 = run.hyp + [H % 2 == 0]
        p.goal(p.solver(hy0), 'paths cover', z3.Or([q.cond for q in run.paths]) if run.paths else z3.BoolVal(False))
        for k, path in enumerate(run.paths):
            lab = f'path {k}: '
            hyps = hy0 + path.conds
            if path.outcome != 'normal':
                p.goal(p.solver(hyps), f'{lab}raises {type(path.value).__name__}: {path.value}', z3.BoolVal(False))
                continue
            g, before, card_of = path.value
            ctx.obligation(f'transport requirements:{lab}existing clauses kept', all(a is b for a, b in zip(g.clauses, before)) and len(g.clauses) >= len(before))
            v = G.SymView(run.E, g, (False, False))
            decls = cell_decls(g.tiles)
            groups = {}
            for s in schemas(g.clauses[len(before):]):
                if not 1 <= len(s.vars) <= 2:
                    raise Unsupported('clause structure')
                groups.setdefault(s.vars[0].get_id(), []).append(s)
            found = {'rows 1': [], 'rows 0': [], 'columns': []}
            Q, V = z3.Ints('Q V')
            for group in groups.values():
                inst, ranges, counts = [], [], []
                for s in group:
                    pairs = list(zip(s.vars, (Q, V)))
                    f = z3.substitute(s.body(), *pairs)
                    if len(s.vars) == 1:
                        l = s.lits[0] if len(s.lits) == 1 and not isinstance(s.lits[0], tuple) else None
                        if l is None or not z3.is_app(l) or l.decl().name() not in card_of:
                            raise Unsupported('clause structure')
                        counts.append((z3.substitute(s.guard, *pairs), z3.substitute(l, *pairs)))
                    else:
                        inst.append(f)
                # the two lines of cells this group speaks about
                pts = [q for f in inst for q in positions(f, decls)]
                free = lambda t: 'V' not in {str(c) for c in consts(t)}
                rowwise = [y for x, y in pts if free(y) and not free(x)]
                colwise = [x for x, y in pts if free(x) and not free(y)]
                if bool(rowwise) == bool(colwise) or not counts:
                    raise Unsupported('cells of a requirement')
                line = min((rowwise or colwise), key=lambda t: sum(z3.simplify(u - t).as_long() if z3.is_int_value(z3.simplify(u - t)) else 99 for u in (rowwise or colwise)) * -1)
                diffs = {str(z3.simplify(u - line)) for u in (rowwise or colwise)}
                if not diffs <= {'0', '1'}:
                    raise Unsupported('cells of a requirement')
                rows = bool(rowwise)
                d = G.DOWN if rows else G.RIGHT
                n = W if rows else H
                cell = (V, line) if rows else (line, V)
                other = (V, line + 1) if rows else (line + 1, V)
                local = rules(v, *cell) + rules(v, *other) + [0 <= V, V < n]
                # auxiliary literals of this position
                aux = {}
                for f in inst:
                    for a in apps(f):
                        nm = a.decl().name()
                        if nm in decls or a.num_args() == 0:
                            continue
                        if nm.startswith('num$') or not z3.is_bool(a):
                            continue
                        if a.num_args() != 2 or not a.arg(0).eq(Q) or not a.arg(1).eq(V):
                            raise Unsupported('auxiliary literal shared between positions')
                        aux[a.get_id()] = a
                aux = list(aux.values())
                names = [z3.Bool(f'aux{m}') for m in range(len(aux))]
                closed = [z3.substitute(f, *zip(aux, names)) for f in inst]
                gname = f'{lab}{"row" if rows else "column"} border '
                guards = [c[0] for c in counts]
                for m, (guard, atom) in enumerate(counts):
                    kind, bound, xs, cnt = card_of[atom.decl().name()]
                    pairs = [(b, atom.arg(i)) for i, b in enumerate(bound)]
                    total, neg, length = z3.IntVal(0), 0, None
                    for x in xs:
                        if not isinstance(x, Fam) or x.width is None:
                            raise Unsupported('literals counted')
                        p.goal(p.solver(hyps + [guard]), f'{gname}{m}: every cell of the line is counted', z3.And(z3.substitute(x.lo, *pairs) == 0, z3.substitute(x.hi, *pairs) == n))
                        for i in x.alts[0][1]:
                            t = z3.substitute(i.t, *pairs, (x.vars[0], V))
                            neg += z3.is_not(t)
                            total = total + z3.If(t, z3.IntVal(1), z3.IntVal(0))
                    count = z3.substitute(iterm(cnt), *pairs)
                    s = p.solver(hyps + [guard] + inst + local)
                    p.reachable(hyps + [guard] + inst + local, f'{gname}{m}')
                    kinds = [('rows 1', 'atleast', -net_flow(v, *cell, d, 1), forced_term(H, line)), ('rows 0', 'equals', net_flow(v, *cell, d, 0), forced_term(H, line))] if rows else \
                        [('columns', 'equals', net_flow(v, *cell, d), H)]
                    # which of the promised counts is it?  (the literals decide; then all of it is an obligation)
                    for what, want, net, need in kinds:
                        s.push()
                        s.add(total != net + neg)
                        r = s.check()
                        s.pop()
                        if r == z3.unsat or what == kinds[-1][0]:
                            break
                    p.goal(s, f'{gname}{m}: counts the net number of belts carried ({what})', total == net + neg)
                    ctx.obligation(f'transport requirements:{gname}{m}: {want} for {what}', kind == want)
                    p.goal(p.solver(hyps + [guard]), f'{gname}{m}: the number forced by the arrangement ({what})', count == need + neg * n)
                    found[what].append((guard, line))
                # nothing else: the auxiliary literals can always be chosen
                s = p.solver(hyps + guards[:1] + local)
                p.goal(s, f'{gname}: auxiliary literals can always be chosen', z3.Exists(names, z3.And(closed)) if names else z3.And(closed))
            q = z3.Int('border')
            for what, inside in (('rows 1', z3.And(q % 2 == 1, 1 <= q, q + 2 < H)), ('rows 0', z3.And(q % 2 == 1, 1 <= q, q + 2 < H)), ('columns', z3.And(0 <= q, q + 1 < W))):
                got = [z3.Exists([Q], z3.And(guard, line == q)) for guard, line in found[what]]
                p.goal(p.solver(hyps + [inside]), f'{lab}{what}: every border', z3.Or(got) if got else z3.BoolVal(False))
                for guard, line in found[what]:
                    p.goal(p.solver(hyps + [guard]), f'{lab}{what}: only the promised borders', z3.substitute(inside, (q, line)))
    return Task('proof transport requirements', fn, 'proof', 300)


def consts(t):
    from pyvc.gridproof import _consts
    return _consts(t)


def apps(f):
    from pyvc.sym import z3
    out, stack, seen = [], [f], set()
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args():
            out.append(e)
        stack.extend(e.children())
    return out


def conservation():
    """The counts are forced: in every layout obeying the rules and the arrangement of inputs and outputs."""
    def fn(ctx):
        from pyvc.gridproof import GridRun
        from pyvc.sym import z3
        run = GridRun((False, False), lambda E, W, H, mode, pool, run: sym_grid(E, W, H, mode, pool, colours=2))
        v = G.SymView(run.E, run.paths[0].value, (False, False))
        p = ctx.prover('conservation')
        W, H = run.W, run.H
        X, Y = z3.Ints('X Y')

        def around(x, y):
            out = []
            for dx, dy in ((0, 0), (1, 0), (-1, 0), (0, 1), (0, -1)):
                out += rules(v, z3.simplify(x + dx), z3.simplify(y + dy), True)
            return out

        def right(x, y, c):
            """Net belts of colour c over the right side of cell (x, y); x = -1 is the left border of the grid."""
            first, last = v.tile(z3.IntVal(0), y), v.tile(W - 1, y)
            return z3.If(x == -1, one_if(first.inp[G.RIGHT], first.num('colour') == c), z3.If(x == W - 1, one_if(last.out[G.RIGHT], last.num('colour') == c), net_flow(v, x, y, G.RIGHT, c)))

        def down(x, y, c):
            return z3.If(z3.Or(y == -1, y == H - 1), z3.IntVal(0), net_flow(v, x, y, G.DOWN, c))
        ends = [G.Implies(X == 0, v.tile(X, Y).inp[G.RIGHT]), G.Implies(X == W - 1, v.tile(X, Y).out[G.RIGHT])]
        hy = run.hyp + [v.in_range(X, Y)] + around(X, Y) + ends
        p.reachable(hy, 'cell')
        for c in (0, 1):
            p.goal(p.solver(hy), f'what enters a cell leaves it, colour {c}', right(z3.simplify(X - 1), Y, c) + down(X, z3.simplify(Y - 1), c) == right(X, Y, c) + down(X, Y, c))
        # sums along a row, and over the rows (abstract flows satisfying the equation above)
        I = z3.IntSort()
        r, dn, P = z3.Function('r', I, I, I), z3.Function('d', I, I, I), z3.Function('P', I, I, I)
        x, y, k = z3.Ints('x y k')
        cell = r(x - 1, y) + dn(x, y - 1) == r(x, y) + dn(x, y)
        claim = lambda x: P(x, y) - P(x, y - 1) == r(-1, y) - r(x - 1, y)
        p.goal(p.solver([P(0, y) == 0, P(0, y - 1) == 0]), 'row sum: base', claim(z3.IntVal(0)))
        p.goal(p.solver([cell, claim(x), P(x + 1, y) == P(x, y) + dn(x, y), P(x + 1, y - 1) == P(x, y - 1) + dn(x, y - 1)]), 'row sum: step', claim(x + 1))
        D, inp, out = z3.Function('D', I, I), z3.Function('inp', I, I), z3.Function('out', I, I)
        for c in (0, 1):
            want = lambda y: (1 if c == 0 else -1) * forced_term(H, y)
            arrangement = lambda y: [inp(y) == z3.If((y < H / 2) == (c == 0), 1, 0)]
            pair = [out(y) + out(y + 1) == 1]
            step = [D(y) == D(y - 1) + inp(y) - out(y), D(y + 1) == D(y) + inp(y + 1) - out(y + 1)]
            h = [H >= 2, H % 2 == 0, y % 2 == 0, 0 <= y, y + 1 < H] + arrangement(y) + arrangement(y + 1) + pair + step
            p.goal(p.solver(h + [y == 0, D(y - 1) == 0]), f'forced count: base, colour {c}', D(y + 1) == want(y + 1))
            p.goal(p.solver(h + [y >= 2, D(y - 1) == want(y - 1)]), f'forced count: step, colour {c}', D(y + 1) == want(y + 1))
        # over columns: column sums, for both colours together
        claimc = lambda y: P(x, y) - P(x - 1, y) == dn(x, -1) - dn(x, y - 1)
        p.goal(p.solver([P(x, 0) == 0, P(x - 1, 0) == 0]), 'column sum: base', claimc(z3.IntVal(0)))
        p.goal(p.solver([cell, claimc(y), P(x, y + 1) == P(x, y) + r(x, y), P(x - 1, y + 1) == P(x - 1, y) + r(x - 1, y)]), 'column sum: step', claimc(y + 1))
        R = z3.Function('R', I, I)
        p.goal(p.solver([R(-1) == H, R(x) - R(x - 1) == dn(x, -1) - dn(x, H - 1), dn(x, -1) == 0, dn(x, H - 1) == 0, R(x - 1) == H]), 'every column border is crossed by all belts: step', R(x) == H)
        s = p.solver(run.hyp + [v.in_range(X, Y)] + around(X, Y) + [X + 1 < W])
        p.goal(s, 'the two colours together are all belts', net_flow(v, X, Y, G.RIGHT, 0) + net_flow(v, X, Y, G.RIGHT, 1) == net_flow(v, X, Y, G.RIGHT))
    return Task('proof conservation', fn, 'proof', 300)


def routing():
    """Every belt goes on, keeping its colour, until it leaves on the right; no two belts join (so it cannot circle)."""
    def fn(ctx):
        from pyvc.gridproof import GridRun
        from pyvc.sym import z3
        run = GridRun((False, False), lambda E, W, H, mode, pool, run: sym_grid(E, W, H, mode, pool, colours=2))
        v = G.SymView(run.E, run.paths[0].value, (False, False))
        p = ctx.prover('routing')
        W, H = run.W, run.H
        X, Y = z3.Ints('X Y')
        And, Or, Not, Implies = G.And, G.Or, G.Not, G.Implies
        t = v.tile(X, Y)

        def here(x, y):
            q = v.tile(x, y)
            return rules(v, x, y, True) + [Implies(And(v.in_range(x, y), x == 0), q.inp[G.RIGHT]), Implies(And(v.in_range(x, y), x == W - 1), q.out[G.RIGHT])]
        inr = run.hyp + [v.in_range(X, Y)] + here(X, Y)
        s = p.solver(inr)
        p.goal(s, 'a cell that takes a belt passes it on or under, and the other way round', And(Implies(Or(t.inp), Or(Or(t.out), t.is_underground_in)), Implies(Or(t.out), Or(Or(t.inp), t.is_underground_out))))
        p.goal(s, 'one belt per cell', And(G.amo(t.inp), G.amo(t.out)))
        for d in range(4):
            dx, dy = G.VEC[d]
            ax, ay = z3.simplify(X + dx), z3.simplify(Y + dy)
            e, a = v.nb(X, Y, dx, dy)
            s = p.solver(inr + here(ax, ay))
            p.goal(s, f'leaves only on the right ({G.DN[d]})', Implies(And(t.out[d], Not(e)), z3.BoolVal(d == G.RIGHT) if d != G.RIGHT else X == W - 1))
            p.goal(s, f'enters only on the left ({G.DN[d]})', Implies(And(t.inp[d], Not(v.nb(X, Y, -dx, -dy)[0])), z3.BoolVal(False) if d != G.RIGHT else X == 0))
            p.goal(s, f'goes on with its colour ({G.DN[d]})', Implies(And(t.out[d], e), And(a.inp[d], a.num('colour') == t.num('colour'))))
            u = 'colour_ux' if d % 2 == 0 else 'colour_uy'
            p.goal(s, f'goes under with its colour ({G.DN[d]})', Implies(And(t.is_underground_in, t.inp[d]), And(e, a.ug[d], a.num(u) == t.num('colour'))))
            p.goal(s, f'passes below with its colour ({G.DN[d]})', Implies(t.ug[d], And(e, Or(And(a.ug[d], a.num(u) == t.num(u)), And(a.ug_out(d), a.num('colour') == t.num(u))))))
            e, b = v.nb(X, Y, -dx, -dy)
            bx, by = z3.simplify(X - dx), z3.simplify(Y - dy)
            s = p.solver(inr + here(bx, by))
            p.goal(s, f'one place it came from ({G.DN[d]})', And(Implies(And(t.inp[d], e), b.out[d]), Implies(t.is_underground_out, Implies(t.out[d], And(e, b.ug[d]))), Implies(t.ug[d], And(e, Or(b.ug[d], b.ug_in(d)), Not(And(b.ug[d], b.ug_in(d)))))))
        # a path that goes on and never joins another cannot return to a cell it visited: its first cell has no predecessor inside
        I = z3.IntSort()
        c, pr = z3.Function('c', I, I), z3.Function('pr', I, I)
        i, j = z3.Ints('i j')
        s = p.solver([i >= 0, j > i, Implies(i >= 1, pr(c(i)) == c(i - 1)), pr(c(j)) == c(j - 1), Implies(i == 0, pr(c(i)) == -1), c(j - 1) != -1, Implies(i >= 1, c(i - 1) != c(j - 1))])
        p.goal(s, 'no cell is visited twice: step', c(i) != c(j))
    return Task('proof routing', fn, 'proof', 300)


def main_proof(alternating, rot):
    def fn(ctx):
        import factorio_sat.interchange as IC
        from factorio_sat.template import EdgeMode
        from pyvc.gridproof import RuleProof
        from pyvc.prove import schemas
        from pyvc.sym import z3, SInt, Unsupported
        from .c09 import sym_is
        from .programs import Programs, MARKS
        hn = Programs()
        L = z3.Int('L')
        marks = dict(zip(MARKS, (SInt(hn.W), SInt(hn.H), SInt(L))))
        named = lambda label: lambda E, f, args, kw: hn.add(E, args[0], label)
        argv = [MARKS[0], MARKS[1], '--underground-length', MARKS[2]] + ['--alternating'] * alternating + ['--rot-symmetry'] * rot
        name = f'program{" alternating" * alternating}{" rot-symmetry" * rot}'
        run = hn.run_program(IC.main, argv, marks, [], {
            'interchange.prevent_passing': named('passing'), 'interchange.prevent_awkward_underground_entry': named('entry'),
            'interchange.require_rotational_symmetry': named('symmetric'), 'interchange.require_correct_transport_through_edges': named('transport')})
        ctx.functions(run.E)
        p = ctx.prover(name)
        p.goal(p.solver(run.hyp), 'paths cover', z3.Or([q.cond for q in run.paths]) if run.paths else z3.BoolVal(False))
        solved = 0
        for k, path in enumerate(run.paths):
            lab = f'path {k}: '
            if path.outcome != 'normal' or path.value[0] is None:
                if path.outcome != 'normal':
                    p.goal(p.solver(run.hyp + path.conds), f'{lab}only odd heights and negative lengths are refused ({type(path.value).__name__})', z3.Or(hn.H % 2 == 1, L < 0))
                continue         # nothing is printed
            solved += 1
            sol, made = path.value
            if len(made) != 1 or made[0][0] is not sol.grid:
                raise Unsupported('grid')
            g, clauses = sol.grid, sol.clauses[made[0][1]:]
            hyps = run.hyp + path.conds
            ctx.obligation(f'{name}: {lab}size', sym_is(g.width, hn.W) and sym_is(g.height, hn.H) and g.colours == 2)
            ctx.obligation(f'{name}: {lab}edges', tuple(g.edge_mode) == (EdgeMode.NO_WRAP, EdgeMode.NO_WRAP))
            p.goal(p.solver(hyps), f'{lab}underground length', g.underground_length.t == L if isinstance(g.underground_length, SInt) else L == g.underground_length)
            need = ['intersection', 'undergrounds pair up', 'colours are carried', 'maximum length'] + [f'block_underground_through_edges {q}' for q in range(4)] + [f'block_belts_through_edges {q}' for q in (1, 3)]
            if rot:
                need.append('symmetric')
            allowed = need + ['transport', 'passing', 'entry']
            v = G.SymView(run.E, g, (False, False))

            def spec(v, x, y):
                t = v.tile(x, y)
                out = [(n, hn.B(n)) for n in need]
                out += [('no splitter', G.Not(t.is_splitter)), ('input on the left', G.Implies(x == 0, t.inp[G.RIGHT])), ('output on the right', G.Implies(x == v.W - 1, t.out[G.RIGHT])),
                        ('upper inputs', G.Implies(x == 0, (t.num('colour') == 0) == (y < v.H / 2)))]
                if alternating:
                    out.append(('alternating outputs', G.Implies(x == v.W - 1, t.num('colour') == y % 2)))
                else:
                    o = v.tile(x, z3.simplify(y + 1))
                    out.append(('one of each per pair of outputs', G.Implies(G.And(x == v.W - 1, y % 2 == 0), t.num('colour') != o.num('colour'))))
                return out

            def full(v, x, y):
                out = spec(v, x, y)
                out += [(n, hn.B(n)) for n in allowed]
                if not alternating:
                    b = v.tile(x, z3.simplify(y - 1))
                    out.append(('pair', G.Implies(G.And(x == v.W - 1, y % 2 == 1), v.tile(x, y).num('colour') != b.num('colour'))))
                return out
            base = lambda v, x, y: G.base(v, x, y, 2)
            even = hyps + [hn.H % 2 == 0]
            sc = schemas(clauses)
            Y = z3.Int('Y')
            halves = [q.inst([(q.vars[0], t)]) for q in sc if len(q.vars) == 1 for t in (Y / 2, (Y - 1) / 2)]      # rows taken in pairs
            RuleProof(p, v, sc, spec, base, even + halves, R=1).sound(lab)
            RuleProof(p, v, sc, full, base, even + [hn.B(n) for n in allowed], R=1).complete(lab)
        ctx.obligation(f'{name}: interchanges are solved for', solved > 0)
    return Task(f'proof program{" alternating" * alternating}{" rot-symmetry" * rot}', fn, 'proof', 300)


def tasks(tier):
    ts = [transport_proof(), conservation(), routing()] + [main_proof(a, r) for a in (False, True) for r in (False, True)]
    ts += [Task(f'bounded kept {k}', kept(k, 4), 'bounded', 600) for k in range(4)]
    ts += [Task(f'bounded carried {k}', carried(k, 4), 'bounded', 600) for k in range(4)]
    ts += [Task('bounded counts', counts, 'bounded', 60), Task('bounded printed', printed, 'bounded', 600)]
    return ts


def directed(ctx, r):
    """Grids of the size at which an obligation fails."""
    p = model_params(r[2])
    w, h = min(max(p.get('W', 5), 2), 40), min(max(p.get('H', 4), 2) // 2 * 2, 16)
    sizes = [(w, h, 4), (w, 2, 4), (3, h, 4)]
    carried(0, 1, sizes)(ctx)
    kept(0, 1, sizes[:2])(ctx)
