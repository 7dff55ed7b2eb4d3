import collections
import io
import itertools
import json

from .common import *
from .balancers import Harness, pairing_goals
from .c15 import scratch
from .c19 import run_main
from specs import layout as LY, nets as NT

LEVEL = 'proof'
TECHNIQUE = ('deductive: contract on create_balancer for grids of any size, per representative network: its clauses are equivalent to the per-cell '
             'node specification, callees by their contracts (grid rules C03-C08, exactly-n counting as named atoms), discharged by z3')
NOTE = ('Proved for a fixed family of networks covering every shape of node (missing input or output on either side, equal and different colours, repeated '
        'nodes, unused colours) and every grid size. Bounded: random networks and layouts end to end through the real solver, oracle is an independent search '
        'for an assignment of splitters to nodes; the exactly-n encodings (pysat) are only exercised here and in C02.')
RULE = 'pinned layouts: the balancer of a network is satisfiable exactly when an independent search can map the layout\'s splitters and belts to the network; solved balancers are checked the same way'
BOUND = 'networks are a fixed family in the proofs; layouts up to 7x7 and networks of up to 6 nodes in the bounded part'
ASSUMPTIONS = ['library_equals counts exactly (pysat.card.CardEnc; bounded evidence in C02)', 'IDPool._next returns a new variable on every call (pysat)',
               'counting step: as every splitter covers one odd and one even cell (local facts proved), the number of odd splitter cells is the number of heads',
               'the networks of the proofs are a fixed family; node handling is uniform in the node (bounded evidence on random networks)']

NETWORKS = {
    'split': [((0, 0), (1, 1))],
    'two colours': [((0, 0), (1, 2)), ((1, 2), (3, 3))],
    'one input first': [((None, 0), (1, 1))],
    'one input second': [((0, None), (1, 2)), ((1, 2), (3, 3))],
    'one output first': [((0, 0), (None, 1))],
    'one output second': [((0, 1), (2, None)), ((2, 0), (1, 3))],
    'repeated': [((0, 0), (1, 1)), ((0, 0), (1, 1)), ((1, 1), (2, 2)), ((1, 1), (2, 2))],
    'unused colours': [((1, 1), (3, 4)), ((3, 4), (6, 6))],
}


def counter(net):
    return collections.Counter(net)


def node_spec(nodes, ends, atoms):
    (ci, _), (co, _) = ends

    def spec(v, x, y):
        t = v.tile(x, y)
        node = t.node
        out = [('one node per splitter', G.one([G.Not(t.is_splitter_head)] + node)),
               ('input colour', G.Implies(t.is_input, t.num('colour') == ci)), ('output colour', G.Implies(t.is_output, t.num('colour') == co))]
        for i, (ins, outs) in enumerate(nodes):
            for d in range(4):
                a, b = G.VEC[d], G.VEC[G.nxt(d)]
                e10, t10 = v.nb(x, y, *a)
                e01, t01 = v.nb(x, y, *b)
                e11, t11 = v.nb(x, y, a[0] + b[0], a[1] + b[1])
                here = G.And(node[i], t.facing(d))
                if not v.symbolic and not all(str(e) == 'True' for e in (e10, e01, e11)):
                    out.append((f'node {i} {G.DN[d]} inside', G.Not(here)))
                    continue

                def side(cols, c0, c1, n0, n1):
                    cols = [c for c in cols if c is not None]
                    if len(cols) == 2:
                        p, q = cols
                        return G.And(c0, c1, G.Or(G.And(n0 == p, n1 == q), G.And(n0 == q, n1 == p)))
                    return G.And(c0 != c1, G.Implies(c0, n0 == cols[0]), G.Implies(c1, n1 == cols[0]))
                out.append((f'node {i} {G.DN[d]} inside', G.Implies(here, G.And(e10, e01, e11))))
                out.append((f'node {i} {G.DN[d]} inputs', G.Implies(here, G.And(e01, side(ins, t.inp[d], t01.inp[d], t.num('colour'), t01.num('colour'))))))
                out.append((f'node {i} {G.DN[d]} outputs', G.Implies(here, G.And(e01, e10, e11, side(outs, t.out[d], t01.out[d], t10.num('colour'), t11.num('colour'))))))
        return out + [(f'{a}', f) for a, f in atoms]
    return spec


def proof(name, net):
    def fn(ctx):
        import factorio_sat.belt_balancer as BB
        from pyvc.gridproof import RuleProof
        from pyvc.prove import schemas
        from pyvc.sym import z3, SInt
        U = z3.Int('L')
        nw = counter(net)
        nodes = list(nw)
        hn = Harness()
        W, H, B_ = hn.W, hn.H, hn.B
        hy = [U >= 0]
        run = hn.run(lambda E: E.call(BB.create_balancer, (nw, SInt(W), SInt(H), SInt(U))), hy)
        ctx.functions(run.E)
        p = ctx.prover(f'create_balancer {name}')
        p.goal(p.solver(run.hyp + hy), 'paths cover', z3.Or([q.cond for q in run.paths]) if run.paths else z3.BoolVal(False))
        su = NT.surplus(net)
        ends = [[(c, abs(k)) for c, k in su.items() if k * s > 0][0] for s in (1, -1)]
        used = {c for n in net for s in n for c in s if c is not None}
        total = len(net)
        counts = [('number of each node', z3.And([B_(f'node[{i}] = {nw[n]}') for i, n in enumerate(nodes)])),
                  ('number of inputs', B_(f'is_input = {ends[0][1]}')), ('number of outputs', B_(f'is_output = {ends[1][1]}'))]
        lemma = [z3.Implies(counts[0][1], z3.And(B_(f'is_splitter odd = {total}'), B_(f'is_splitter even = {total}'), B_(f'is_splitter = {2 * total}'),
                                                 B_(f'is_splitter_head = {total}')))]
        for n, path in enumerate(run.paths):
            hyps = run.hyp + hy + path.conds
            if path.outcome != 'normal':
                p.goal(p.solver(hyps), f'path {n}: raises {type(path.value).__name__}: {path.value}', z3.BoolVal(False))
                continue
            g, clauses = hn.grid_of(path)
            ctx.obligation(f'create_balancer {name}: path {n}: size and underground length as requested',
                           sym_is(g.width, W) and sym_is(g.height, H) and sym_is(g.underground_length, U))
            ctx.obligation(f'create_balancer {name}: path {n}: room for every colour', isinstance(g.colours, int) and g.colours > max(used))
            rules = [(r, B_(r)) for r in ['no passage through any edge', 'undergrounds pair up', 'colours are carried']] + \
                [(f'no colour {c}', B_(f'no colour {c}')) for c in range(g.colours) if c not in used]
            v = G.SymView(run.E, g, (False, False))
            ss, spec, bs = schemas(clauses), node_spec(nodes, ends, counts + rules), lambda v, x, y: G.base(v, x, y, g.colours)
            RuleProof(p, v, ss, spec, bs, hyps, R=1).sound(f'path {n}: ')
            RuleProof(p, v, ss, spec, bs, hyps + lemma + [f for _, f in counts + rules], R=1).complete(f'path {n}: ')
            pairing_goals(p, v, hyps, f'path {n}: ')
    return Task(f'proof create_balancer {name}', fn, 'proof', 600)


def sym_is(value, term):
    return getattr(value, 't', None) is not None and value.t.eq(term)


# ------------------------------------------------------------------------------------------------ independent oracle
def implements(rows, net, limit=200000):
    """Can the layout's splitters be given the network's nodes and its belts colours, as the network requires?"""
    L = LY.Layout(rows)
    su = NT.surplus(net)
    cin = [c for c, k in su.items() if k > 0]
    cout = [c for c, k in su.items() if k < 0]
    assert len(cin) == 1 and len(cout) == 1
    cin, cout = cin[0], cout[0]
    par = {}

    def find(a):
        while par.setdefault(a, a) != a:
            a = par[a]
        return a
    kind = lambda c: L.rows[c[1]][c[0]]['type']
    for a, b, k in L.graph():
        if k == 'splitter':
            continue
        x = ('out', a) if kind(a) == 'splitter' else ('cell', a)
        y = ('in', b) if kind(b) == 'splitter' else ('cell', b)
        par[find(x)] = find(y)
    fixed = {}
    n_in = n_out = 0
    heads = []
    for x, y in L.cells():
        t = L.rows[y][x]
        i, o = LY.inputs(t), LY.outputs(t)
        if t['type'] == 'splitter':
            if t['is_head']:
                heads.append((x, y))
            d = t['direction']
            if L.pos(x, y, d) is None:
                return False            # a splitter's outputs stay inside
            if L.pos(x, y, d, -1) is None:
                raise ValueError('splitter fed from outside: connection not determined by the tiles')
            continue
        if i is not None and L.pos(x, y, i, -1) is None:
            n_in += 1
            if fixed.setdefault(find(('cell', (x, y))), cin) != cin:
                return False
        if o is not None and L.pos(x, y, o) is None:
            n_out += 1
            if fixed.setdefault(find(('cell', (x, y))), cout) != cout:
                return False
    if n_in != su[cin] or n_out != -su[cout] or len(heads) != len(net):
        return False
    sides = []
    for h in heads:
        q = L.partner(*h)
        sides.append(([find(('in', c)) if ('in', c) in par else None for c in (h, q)], [find(('out', c)) if ('out', c) in par else None for c in (h, q)]))
    left = collections.Counter(net)
    budget = [limit]

    def go(k, col):
        if k == len(sides):
            return True
        budget[0] -= 1
        if budget[0] < 0:
            raise RuntimeError('search too large')
        for node in list(left):
            if not left[node]:
                continue
            for p in {node[0], node[0][::-1]}:
                for q in {node[1], node[1][::-1]}:
                    new, ok = {}, True
                    for seg, c in zip(sides[k][0] + sides[k][1], p + q):
                        if (seg is None) != (c is None):
                            ok = False
                        elif seg is not None:
                            if col.get(seg, new.get(seg, c)) != c:
                                ok = False
                            new[seg] = c
                        if not ok:
                            break
                    if ok:
                        left[node] -= 1
                        if go(k + 1, {**col, **new}):
                            left[node] += 1
                            return True
                        left[node] += 1
        return False
    return go(0, fixed)


def sat_pinned(net, rows, length=8):
    """Is the balancer of the network satisfiable with the layout pinned?"""
    import factorio_sat.belt_balancer as BB
    from pysat.solvers import Solver
    h, w = len(rows), len(rows[0])
    g = BB.create_balancer(counter(net), w, h, length)
    g.prevent_intersection()
    for y, r in enumerate(rows):
        for x, t in enumerate(r):
            g.set_tile(x, y, LY.make(t))
    with Solver('g3', bootstrap_with=g.clauses) as s:
        return s.solve()


def usable(rows):
    L = LY.Layout(rows)
    if L.problems(edge_undergrounds=False):
        return False
    for x, y in L.cells():
        t = L.rows[y][x]
        if t['type'] == 'splitter' and (L.pos(x, y, t['direction'], -1) is None or L.pos(x, y, t['direction']) is None):
            return False
    return any(t['type'] == 'splitter' for r in rows for t in r)


def layout_network(rows):
    """A network the layout implements: every belt segment its own colour, except the ends; None if it has none of the supported shape."""
    from .c21 import expected
    net = [tuple(tuple(s) for s in n) for n in expected(rows, False)]
    if not net or any(sum(c is None for s in n for c in s) > 1 for n in net):
        return None
    su = {c: k for c, k in NT.surplus(net).items() if k}
    if sorted((k > 0) - (k < 0) for k in su.values()) != [-1, 1]:
        return None
    return net


def perturb(rng, net):
    net = [[list(s) for s in n] for n in net]
    k = rng.randrange(4)
    if k == 0:       # swap two connections
        a, b = rng.randrange(len(net)), rng.randrange(len(net))
        s = rng.randrange(2)
        i, j = rng.randrange(2), rng.randrange(2)
        net[a][s][i], net[b][s][j] = net[b][s][j], net[a][s][i]
    elif k == 1:     # rename
        cs = sorted({c for n in net for s in n for c in s if c is not None})
        new = rng.sample(range(max(cs) + 3), len(cs))
        m = dict(zip(cs, new))
        net = [[[None if c is None else m[c] for c in s] for s in n] for n in net]
    elif k == 2:     # swap the sides of a node
        a = rng.randrange(len(net))
        s = rng.randrange(2)
        net[a][s].reverse()
    else:
        net.append([list(s) for s in rng.choice(net)])
    return [tuple(tuple(s) for s in n) for n in net]


def valid(net):
    if any(sum(c is None for s in n for c in s) > 1 for n in net):
        return False
    su = {c: k for c, k in NT.surplus(net).items() if k}
    return sorted((k > 0) - (k < 0) for k in su.values()) == [-1, 1]


def generate(rng):
    """A small layout with one or two splitters and both ends, from the real rules, made into a usable case."""
    from factorio_sat.solver import Grid
    from pysat.solvers import Solver
    w, h = rng.randint(3, 6), rng.randint(2, 5)
    if rng.random() < 0.5:
        w, h = h, w
    g = Grid(w, h, None)
    g.prevent_bad_undergrounding()
    g.enforce_maximum_underground_length()
    g.prevent_intersection()
    g.block_underground_through_edges()
    extra = []
    for x in range(w):
        for y in range(h):
            t = g.get_tile_instance(x, y)
            extra += [[-t.is_splitter, -t.is_input], [-t.is_splitter, -t.is_output]]
            for d, (dx, dy) in enumerate(LY.VEC):
                for s in (1, -1):
                    if not (0 <= x + s * dx < w and 0 <= y + s * dy < h):
                        extra += [[-t.is_splitter, -t.input_direction[d]], [-t.is_splitter, -t.output_direction[d]]]
            if rng.random() < 0.3:
                extra.append([-t.is_empty, t.is_splitter])
    with Solver('g3', bootstrap_with=g.clauses + extra) as s:
        s.set_phases([v if rng.random() < 0.5 else -v for v in range(1, g.pool.top + 1)])
        assume = []
        cells = [(x, y) for x in range(w) for y in range(h)]
        rng.shuffle(cells)
        for k, (x, y) in enumerate(cells):
            t = g.get_tile_instance(x, y)
            d = rng.randrange(4)
            if k < 5:
                pick = [t.is_splitter_head, t.input_direction[d]]
                if rng.random() < 0.8:
                    pick.append(t.output_direction[d])
            else:
                pick = [rng.choice([-t.is_splitter, -t.is_splitter, t.is_empty, t.is_belt])]
            if s.solve(assumptions=assume + pick):
                assume += pick
        if not s.solve(assumptions=assume):
            return None
        rows = LY.decode(g, set(s.get_model()))
    return rows if usable(rows) else None


def pinned(ctx, n, k):
    import random
    rng = random.Random(ctx.seed * 131 + k)
    for _ in range(n):
        rows = generate(rng)
        if rows is None:
            continue
        net = layout_network(rows)
        if net is None or not valid(net):
            continue
        one(ctx, rows, net)
        for _ in range(3):
            other = perturb(rng, net)
            if valid(other):
                one(ctx, rows, other)
                if rng.random() < 0.5:
                    net = other


def one(ctx, rows, net):
    want = implements(rows, net)
    try:
        got = sat_pinned(net, rows)
    except RuntimeError:
        return          # a count the encoder refuses
    ctx.eval()
    ctx.out.setdefault('split', collections.Counter())[want] += 1
    ctx.require(got == want, f'layout {"implements" if want else "does not implement"} the network but the balancer {"accepts" if got else "excludes"} it', rows=rows, network=net)


SOLVED = [('split', 3, 2, 2), ('two colours', 5, 2, 2), ('one input first', 3, 2, 2), ('one input second', 6, 2, 2), ('one output first', 4, 2, 4), ('repeated', 6, 4, 4),
          ('unused colours', 5, 2, 3), ('one output second', 6, 4, 4)]


def solved(ctx):
    """Solved balancers, with ends, are legal layouts that implement their network, decoded fields included."""
    import factorio_sat.belt_balancer as BB
    for name, w, h, u in SOLVED:
        net = NETWORKS[name]
        g = BB.create_balancer(counter(net), w, h, u)
        g.prevent_intersection()
        g.enforce_maximum_underground_length()
        BB.setup_balancer_ends(g, counter(net), False, False)
        n = 0
        for sol in itertools.islice(g.itersolve(solver='g3', ignore_colour=True), 12 if ctx.thorough else 5):
            rows = [[c['tile'] for c in r] for r in sol.tolist()]
            n += 1
            ctx.eval()
            ctx.require(not LY.Layout(rows).problems(max_length=u, edge_undergrounds=False), f'{name}: illegal balancer', problems=LY.Layout(rows).problems(max_length=u, edge_undergrounds=False), rows=rows)
            ctx.require(implements(rows, net), f'{name}: the solution does not implement the network', rows=rows, network=net)
            nodes = [c['node'] for r in sol.tolist() for c in r if c['is_splitter_head']]
            want = collections.Counter()
            for i, c in enumerate(counter(net).values()):
                want[i] = c
            ctx.require(collections.Counter(nodes) == want, f'{name}: node numbers {nodes}', network=net)
        ctx.sample(dict(network=name, size=[w, h], solutions=n))


def tool(ctx):
    """The command line tool prints balancers of the network in the file."""
    from factorio_sat import network as N
    import factorio_sat.belt_balancer as BB
    with scratch() as d:
        for name, w, h, extra in (('split', 4, 2, []), ('split', 5, 3, ['--fast']), ('two colours', 5, 2, ['--aligned']), ('one input first', 4, 2, ['--use-ends', '--all']),
                                  ('repeated', 6, 4, ['--fast', '--break-symmetry']), ('one output first', 4, 3, ['--underground-length', '-1']), ('split', 5, 4, ['--90']), ('split', 4, 4, ['--180'])):
            path = f'{d}/net'
            N.save_network(path, NETWORKS[name])
            for line in run_main(BB, [path, str(w), str(h)] + extra, [])[:4]:
                rows = [[c['tile'] for c in r] for r in json.loads(line)]
                ctx.eval()
                ctx.require(not LY.Layout(rows).problems(edge_undergrounds=False), f'{name} {extra}: illegal balancer printed', rows=rows)
                ctx.require(implements(rows, NETWORKS[name]), f'{name} {extra}: the printed balancer does not implement the network', rows=rows)


def concrete(names):
    """Real clauses of balancers on small grids: every model is as specified."""
    def fn(ctx):
        import factorio_sat.belt_balancer as BB
        from pyvc.sym import z3
        from .c06 import colour_spec, conc_eq, prevent_spec
        for name, w, h in names:
            net = NETWORKS[name]
            nw = counter(net)
            nodes = list(nw)
            su = NT.surplus(net)
            ends = [[(c, abs(k)) for c, k in su.items() if k * s > 0][0] for s in (1, -1)]
            used = {c for n in net for sd in n for c in sd if c is not None}
            g = BB.create_balancer(nw, w, h, 4)
            v = G.ConcView(g, (False, False))
            cells = [v.tile(x, y) for x, y in v.cells()]
            sp = B.spec_all(v, node_spec(nodes, ends, []))
            for r in (G.undergrounds, colour_spec(conc_eq(v)), lambda v, x, y: G.undergrounds_blocked(v, x, y, (True,) * 4), lambda v, x, y: G.base(v, x, y, g.colours)):
                sp += B.spec_all(v, r)
            for c in range(g.colours):
                if c not in used:
                    sp += [(f'unused colour {c}: {n}', f) for n, f in B.spec_all(v, prevent_spec(c))]
            for i, n in enumerate(nodes):
                sp.append((f'node {n} used {nw[n]} times', z3.PbEq([(t.node[i], 1) for t in cells], nw[n])))
            sp.append(('number of inputs', z3.PbEq([(t.is_input, 1) for t in cells], ends[0][1])))
            sp.append(('number of outputs', z3.PbEq([(t.is_output, 1) for t in cells], ends[1][1])))
            B.equivalence(ctx, v, g.clauses, sp, label=f'create_balancer {name}', complete=False)
    return fn


CONCRETE = [('split', 3, 2), ('split', 3, 3), ('one input first', 3, 3), ('one input second', 4, 3), ('one output first', 3, 2), ('one output second', 4, 3), ('unused colours', 4, 3),
            ('two colours', 4, 2), ('split', 2, 3), ('one output second', 3, 4), ('unused colours', 4, 2), ('repeated', 4, 4)]


def tasks(tier):
    ts = [proof(n, net) for n, net in NETWORKS.items()]
    m = 200 if tier == 'thorough' else 100
    ts += [Task(f'bounded pinned {k}', lambda ctx, k=k: pinned(ctx, m, k), 'bounded', 600) for k in range(8 if tier == 'thorough' else 4)]
    ts += [Task(f'bounded concrete {i}', concrete(CONCRETE[i::4]), 'bounded', 600) for i in range(4)]
    ts += [Task('bounded solved', solved, 'bounded', 600), Task('bounded tool', tool, 'bounded', 600)]
    return ts
