import itertools
import json
import math
from fractions import Fraction

from .common import *
from .balancers import Harness, pairing_goals
from .c09 import sym_is
from .c19 import run_main
from specs import layout as LY

LEVEL = 'proof'
TECHNIQUE = ('deductive: contracts on create_n_to_n_balancer, create_n_to_m_balancer (grids of any size) and the power-of-two create_balancer (any width), '
             'per input/output count: their clauses are equivalent to the per-cell flow specification, callees by contract (add_numbers C01, transport C06, grid rules C03-C08), discharged by z3')
NOTE = ('Proved per count (quick: 1..5 and five unequal pairs, power of two 4 and 8; thorough: up to 8 and more pairs); counting of levels is by exactly-n atoms (pysat). Bounded: solved balancers '
        'and program output followed numerically (rational steady-state flows computed from the tiles alone), and layouts of given splitter networks accepted exactly when they balance.')
RULE = 'solved balancers and pinned layouts: steady-state flows computed independently with rational arithmetic'
BOUND = 'input and output counts are enumerated (see note), grid size and underground length are not; bounded companion: layouts up to 11x8'
ASSUMPTIONS = ['add_numbers meets its contract (C01), the carry literals given to it being used for nothing else', 'library_equals counts exactly (pysat; bounded evidence in C02)',
               'IDPool._next returns a new variable on every call (pysat)', 'at most one carried belt share can have its top bit set because a belt carries at most the full flow (allowed, not required, by the code)']


def val(t, bits):
    from pyvc.sym import z3
    return z3.Sum([z3.If(t.conv(b), z3.IntVal(1 << i), z3.IntVal(0)) for i, b in enumerate(bits)] + [z3.IntVal(0)])


def value(t, get):
    """Values of the components of a flow field of a cell."""
    return [val(t, bits) for bits in get(t.inst)]


def bits(t, get):
    out = []

    def walk(o):
        for x in o:
            walk(x) if isinstance(x, list) else out.append(t.conv(x))
    walk(get(t.inst))
    return out


def square(v, x, y, d):
    """The cells in front of, beside and diagonal to a cell; the first is None when (on a concrete grid) one does not exist."""
    a, b = G.VEC[d], G.VEC[G.nxt(d)]
    e10, t10 = v.nb(x, y, *a)
    e01, t01 = v.nb(x, y, *b)
    e11, t11 = v.nb(x, y, a[0] + b[0], a[1] + b[1])
    if not v.symbolic and not all(str(e) == 'True' for e in (e10, e01, e11)):
        return None, None, None, None
    return G.And(e10, e01, e11), t10, t01, t11


def xor_any(a, b):
    return G.Or([p != q for p, q in zip(a, b)])


def ask(p, hyps, schemas_, decls, x, y, terms):
    """Values the clauses force at a cell (None if they do not force one)."""
    from pyvc.gridproof import inst_schema
    from pyvc.sym import z3
    out = []
    s = p.solver(hyps + [f for sc in schemas_ for f in inst_schema(sc, decls, [(x, y)])])
    for t in terms:
        if s.check() != z3.sat:
            return [None] * len(terms)
        k = s.model().eval(t, model_completion=True)
        s.push()
        s.add(t != k)
        out.append(k.as_long() if s.check() == z3.unsat else None)
        s.pop()
    return out


def spec_nn(n, F, O, full):
    """Equal numbers of inputs and outputs: n-1 explicit shares of full flow F, each output carrying O of every one."""
    flow = lambda i: i.flow

    def spec(v, x, y):
        t = v.tile(x, y)
        out = [('splitters fully connected', G.Implies(t.is_splitter, G.And(G.Or(t.inp), G.Or(t.out))))]
        f00 = value(t, flow)
        for i, f in enumerate(f00):
            out.append((f'share {i} at most full', f <= full))
            out.append((f'share {i} at the inputs', G.Implies(x == 0, f == z3_if(y % n == i, F, 0))))
            out.append((f'share {i} at the outputs', G.Implies(x == v.W - 1, f == O)))
        out.append(('no splitter at the ends', G.Implies(G.Or(x == 0, x == v.W - 1), G.Not(t.is_splitter))))
        for d in range(4):
            e, t10, t01, t11 = square(v, x, y, d)
            if e is None:
                continue
            here = G.And(t.is_splitter_head, t.inp[d], e)
            for i, (a, b, c, g) in enumerate(zip(f00, value(t01, flow), value(t10, flow), value(t11, flow))):
                out.append((f'share {i} split evenly {G.DN[d]}', G.Implies(here, G.And(2 * c == a + b, c == g))))
            out.append((f'inputs differ {G.DN[d]}', G.Implies(here, xor_any(bits(t, flow), bits(t01, flow)))))
        return out
    return spec


def z3_if(c, a, b):
    from pyvc.sym import z3
    return z3.If(c, z3.IntVal(a), z3.IntVal(b))


def witness_nn(v, x, y):
    """Values of the helper literals: they mark the differing bits."""
    t = v.tile(x, y)
    out = []
    for d in range(4):
        e, t10, t01, t11 = square(v, x, y, d)
        here = G.And(t.is_splitter_head, t.inp[d], e)
        out.append(('marks', G.Implies(here, G.And([m == (a != b) for m, a, b in zip(bits(t, lambda i: i.flow_diff), bits(t, lambda i: i.flow), bits(t01, lambda i: i.flow))]))))
    return out


def spec_nm(n, m, c):
    fw, bw = (lambda i: i.forward.flow), (lambda i: i.backward.flow)

    def spec(v, x, y):
        t = v.tile(x, y)
        out = [('no splitter at the ends', G.Implies(G.Or(x == 0, x == v.W - 1), G.Not(t.is_splitter)))]
        f, b = value(t, fw), value(t, bw)
        for k, s in (('forward', f), ('backward', b)):
            out += [(f'{k} share {i} at most full', q <= c['full']) for i, q in enumerate(s)]
        out += [(f'forward share {i} at the inputs', G.Implies(x == 0, q == z3_if(y % n == i, c['F'], 0))) for i, q in enumerate(f)]
        out += [(f'forward share {i} at the outputs', G.Implies(x == v.W - 1, q == c['FO'])) for i, q in enumerate(f)]
        out += [(f'backward share {i} at the outputs', G.Implies(x == v.W - 1, q == z3_if(y % m == i, c['B'], 0))) for i, q in enumerate(b)]
        out += [(f'backward share {i} at the inputs', G.Implies(x == 0, q == c['BO'])) for i, q in enumerate(b)]
        for d in range(4):
            e, t10, t01, t11 = square(v, x, y, d)
            if e is None:
                continue
            here = G.And(t.is_splitter_head, t.facing(d), e)
            i0, i1, o0, o1 = t.inp[d], t01.inp[d], t.out[d], t01.out[d]
            out.append((f'connections {G.DN[d]}', G.Implies(here, G.And(G.Or(i0, i1), G.Or(o0, o1), G.Or(G.And(i0, i1), G.And(o0, o1))))))
            ful = G.And(here, i0, i1, o0, o1)
            F00, F01, F10, F11 = (value(q, fw) for q in (t, t01, t10, t11))
            B00, B01, B10, B11 = (value(q, bw) for q in (t, t01, t10, t11))
            for i in range(n):
                out.append((f'forward {i} split evenly {G.DN[d]}', G.Implies(ful, G.And(2 * F10[i] == F00[i] + F01[i], F10[i] == F11[i]))))
            for i in range(m):
                out.append((f'backward {i} split evenly {G.DN[d]}', G.Implies(ful, G.And(2 * B00[i] == B10[i] + B11[i], B00[i] == B01[i]))))
            out.append((f'inputs differ {G.DN[d]}', G.Implies(ful, xor_any(bits(t, fw) + bits(t, bw), bits(t01, fw) + bits(t01, bw)))))
            for k, (ci, ui, FI, BI) in enumerate(((i0, i1, F00, B00), (i1, i0, F01, B01))):
                one_in = G.And(here, ci, G.Not(ui), o0, o1)
                out += [(f'forward {i} divided {G.DN[d]} {k}', G.Implies(one_in, G.And(2 * F10[i] == FI[i], F11[i] == F10[i]))) for i in range(n)]
                out += [(f'backward {i} joined {G.DN[d]} {k}', G.Implies(one_in, BI[i] == B10[i] + B11[i])) for i in range(m)]
            for k, (co, uo, FO, BO) in enumerate(((o0, o1, F10, B10), (o1, o0, F11, B11))):
                one_out = G.And(here, i0, i1, co, G.Not(uo))
                out += [(f'forward {i} joined {G.DN[d]} {k}', G.Implies(one_out, FO[i] == F00[i] + F01[i])) for i in range(n)]
                out += [(f'backward {i} divided {G.DN[d]} {k}', G.Implies(one_out, G.And(2 * B00[i] == BO[i], B01[i] == B00[i]))) for i in range(m)]
        return out
    return spec


def witness_nm(c):
    def witness(v, x, y):
        """Helper literals mark differing bits; a belt never carries more than the full flow."""
        t = v.tile(x, y)
        both = lambda i: [i.forward.flow, i.backward.flow]
        out = []
        from pyvc.sym import z3
        for get in (lambda i: i.forward.flow, lambda i: i.backward.flow):
            out.append(('belt capacity', z3.Sum(value(t, get)) <= c['full']))
        for d in range(4):
            e, t10, t01, t11 = square(v, x, y, d)
            ful = G.And(t.is_splitter_head, t.inp[d], t01.inp[d], t.out[d], t01.out[d], e)
            out.append(('marks', G.Implies(ful, G.And([mk == (a != b) for mk, a, b in zip(bits(t, lambda i: [i.forward.diff, i.backward.diff]), bits(t, both), bits(t01, both))]))))
        return out
    return witness


class Fixed:
    """An allocator handing out a fixed list of literals: only how many there are matters to its callers' contracts."""

    def __init__(self, n):
        self.left = n


def flow_proof(n, m):
    name = f'{n}x{m}'

    def fn(ctx):
        import factorio_sat.belt_balancer_net_free as NF
        from pyvc.gridproof import RuleProof, cell_decls
        from pyvc.numproof import add_contract
        from pyvc.prove import schemas
        from pyvc.sym import z3, SInt
        hn = Harness()
        U = z3.Int('L')
        hy = [U >= 0]
        checks = []
        add = add_contract(checks)

        def c_add(E, f, args, kw):
            al = list(args)[3] if len(args) > 3 else kw.get('allocator')
            if isinstance(al, Fixed):
                if len(args[0]) > al.left:
                    raise StopIteration
                al.left -= len(args[0])
            return add(E, f, args, kw)
        run = hn.run(lambda E: E.call(NF.create_n_to_m_balancer, (SInt(hn.W), SInt(hn.H), SInt(U), n, m)), hy, {'util.add_numbers': c_add, 'util.make_fixed_allocator': lambda E, f, args, kw: Fixed(len(args[0]))})
        ctx.functions(run.E)
        p = ctx.prover(f'balancer {name}')
        for k, (h, c) in enumerate(checks):
            p.goal(p.solver(h), f'precondition of addition {k}', c)
        p.goal(p.solver(run.hyp + hy), 'paths cover', z3.Or([q.cond for q in run.paths]) if run.paths else z3.BoolVal(False))
        names = ['flow carried along flow_ux and flow_uy'] if n == m else [f'{k}.flow carried along {k}.ux and {k}.uy' for k in ('forward', 'backward')]
        if n == m == 1:
            names = []
        rules = [(r, hn.B(r)) for r in ['no passage through any edge', 'undergrounds pair up'] + names]
        for k, path in enumerate(run.paths):
            hyps = run.hyp + hy + path.conds
            lab = f'path {k}: '
            if path.outcome != 'normal':
                p.goal(p.solver(hyps), f'{lab}raises {type(path.value).__name__}: {path.value}', z3.BoolVal(False))
                continue
            g, clauses = hn.grid_of(path)
            ctx.obligation(f'{name}: {lab}size and underground length as requested', sym_is(g.width, hn.W) and sym_is(g.height, hn.H) and sym_is(g.underground_length, U))
            v = G.SymView(run.E, g, (False, False))
            ss = schemas(clauses)
            decls = cell_decls(v.arr)
            X, Y = z3.Ints('X Y')
            first, last = hyps + [X == 0, Y == 0, hn.W == 5, hn.H == 7], hyps + [X == 4, Y == 3, hn.W == 5, hn.H == 7]
            t = v.tile(X, Y)
            if n == m:
                if n > 1:
                    F, = ask(p, first, ss, decls, X, Y, value(t, lambda i: i.flow)[:1])
                    O, = ask(p, last, ss, decls, X, Y, value(t, lambda i: i.flow)[:1])
                    ctx.obligation(f'{name}: {lab}every output gets an equal share of every input', None not in (F, O) and F >= 1 and F == n * O)
                else:
                    F = O = 1
                full, spec, wit = F or 0, spec_nn(n, F or 0, O or 0, F or 0), witness_nn
            else:
                F, = ask(p, first, ss, decls, X, Y, value(t, lambda i: i.forward.flow)[:1])
                FO, = ask(p, last, ss, decls, X, Y, value(t, lambda i: i.forward.flow)[:1])
                Bs = ask(p, hyps + [X == 4, Y == 0, hn.W == 5, hn.H == 7], ss, decls, X, Y, value(t, lambda i: i.backward.flow)[:1])[0]
                BO, = ask(p, first, ss, decls, X, Y, value(t, lambda i: i.backward.flow)[:1])
                ok = None not in (F, FO, Bs, BO)
                ctx.obligation(f'{name}: {lab}every output gets an equal share of every input', ok and F >= 1 and F == m * FO)
                ctx.obligation(f'{name}: {lab}every input takes an equal share of every output', ok and Bs >= 1 and Bs == n * BO)
                ctx.obligation(f'{name}: {lab}what enters leaves', ok and n * F == m * Bs)
                c = dict(F=F or 0, FO=FO or 0, B=Bs or 0, BO=BO or 0, full=max(F or 0, Bs or 0))
                spec, wit = spec_nm(n, m, c), witness_nm(c)
            at = rules
            full_spec = lambda v, x, y: spec(v, x, y) + at
            RuleProof(p, v, ss, full_spec, lambda v, x, y: G.base(v, x, y), hyps, R=1, decls=decls).sound(lab)
            rp = RuleProof(p, v, ss, lambda v, x, y: spec(v, x, y) + wit(v, x, y), lambda v, x, y: G.base(v, x, y), hyps + [f for _, f in at], R=1, decls=decls)
            rp.complete(lab)
    return Task(f'proof balancer {name}', fn, 'proof', 900)


def spec_p2(h, levels):
    col = lambda i: [i.colour]

    def spec(v, x, y):
        from pyvc.sym import z3
        t = v.tile(x, y)
        lv, lp, cb = list(t.level), list(t.level_primary), list(t.colour)
        out = [('splitters fully connected', G.Implies(t.is_splitter, G.And(G.Or(t.inp), G.Or(t.out)))),
               ('one level per splitter', G.Implies(t.is_splitter, G.one(lv))), ('level only on splitters', G.Implies(G.Not(t.is_splitter), G.And([G.Not(l) for l in lv]))),
               ('counted level', G.And([a == b for a, b in zip(lv, lp)]))]
        pop = z3.Sum([z3.If(b, z3.IntVal(1), z3.IntVal(0)) for b in cb] + [z3.IntVal(0)])
        for i in range(levels):
            out.append((f'level {i} mixes {2 ** i}', G.Implies(lv[i], pop == 2 ** i)))
        for d in range(4):
            e, t10, t01, t11 = square(v, x, y, d)
            here = G.And(t.is_splitter_head, t.facing(d))
            if e is None:
                out.append((f'outputs inside {G.DN[d]}', G.Not(here)))
                continue
            c01, c10, c11 = list(t01.colour), list(t10.colour), list(t11.colour)
            out.append((f'outputs inside {G.DN[d]}', G.Implies(here, e)))
            out.append((f'inputs disjoint {G.DN[d]}', G.Implies(here, G.And([G.Not(G.And(a, b)) for a, b in zip(cb, c01)]))))
            out.append((f'outputs carry the union {G.DN[d]}', G.Implies(here, G.And([G.And(o == G.Or(a, b), q == G.Or(a, b)) for a, b, o, q in zip(cb, c01, c10, c11)]))))
            out.append((f'halves on one level {G.DN[d]}', G.Implies(here, G.And([a == b for a, b in zip(lv, list(t01.level))]))))
        straight = G.And(t.is_belt, t.inp[0], t.out[0])
        out.append(('ends are belts', G.Implies(G.Or(x == 0, x == v.W - 1), straight)))
        for k in range(h // 2):
            out.append((f'input pair {k}', G.Implies(G.And(x == 0, G.Or(y == 2 * k, y == 2 * k + 1)), t.num('colour') == 2 ** k)))
        e, o = v.nb(x, y, 0, 1)
        if not v.symbolic and str(e) != 'True':
            return out
        out.append(('output pairs complementary', G.Implies(G.And(x == v.W - 1, y % 2 == 0), G.And(e, G.And([a != b for a, b in zip(cb, list(o.colour))])))))
        return out
    return spec


def p2_proof(h):
    def fn(ctx):
        import factorio_sat.belt_balancer_net_free_power_of_2 as P
        from pyvc.gridproof import RuleProof
        from pyvc.prove import schemas
        from pyvc.sym import z3, SInt
        hn = Harness(h)
        U = z3.Int('L')
        hy = [U >= 0]
        levels = h.bit_length() - 1 - 2
        run = hn.run(lambda E: E.call(P.create_balancer, (SInt(hn.W), h, SInt(U))), hy)
        ctx.functions(run.E)
        p = ctx.prover(f'power of two {h}')
        p.goal(p.solver(run.hyp + hy), 'paths cover', z3.Or([q.cond for q in run.paths]) if run.paths else z3.BoolVal(False))
        rules = [(r, hn.B(r)) for r in ['no passage through any edge', 'undergrounds pair up', 'colours are carried']] + \
            [(f'{h // 2} splitters of level {i}', z3.Or(hn.B(f'level_primary[{i}] odd = {h // 2}'), hn.B(f'level_primary[{i}] even = {h // 2}'))) for i in range(levels)]
        lemma = [hn.B(f'{f}[{i}] {o} = {h // 2}') for f in ('level', 'level_primary') for i in range(levels) for o in ('odd', 'even')]
        for k, path in enumerate(run.paths):
            hyps = run.hyp + hy + path.conds
            lab = f'path {k}: '
            if path.outcome != 'normal':
                p.goal(p.solver(hyps), f'{lab}raises {type(path.value).__name__}: {path.value}', z3.BoolVal(False))
                continue
            g, clauses = hn.grid_of(path)
            ctx.obligation(f'power of two {h}: {lab}size, colours and underground length', sym_is(g.width, hn.W) and g.height == h and sym_is(g.underground_length, U) and g.colours == 2 ** (h // 2))
            v = G.SymView(run.E, g, (False, False))
            ss = schemas(clauses)
            spec = spec_p2(h, levels)
            RuleProof(p, v, ss, lambda v, x, y: spec(v, x, y) + rules, lambda v, x, y: G.base(v, x, y, g.colours), hyps, R=1).sound(lab)
            RuleProof(p, v, ss, spec, lambda v, x, y: G.base(v, x, y, g.colours), hyps + lemma + [f for _, f in rules], R=1).complete(lab)
    return Task(f'proof power of two {h}', fn, 'proof', 900)


# ------------------------------------------------------------------------------------------------ bounded companion
def concrete(which):
    """Real clauses of small balancers: every model is as specified."""
    def fn(ctx):
        import contextlib
        import io
        from pysat.solvers import Solver
        import factorio_sat.belt_balancer_net_free as NF
        import factorio_sat.belt_balancer_net_free_power_of_2 as P
        for kind, w, h, n, m in which:
            with contextlib.redirect_stderr(io.StringIO()):
                g = P.create_balancer(w, h, 4) if kind == 'p2' else NF.create_n_to_m_balancer(w, h, 4, n, m)
            v = G.ConcView(g, (False, False))
            if kind == 'p2':
                spec = spec_p2(h, h.bit_length() - 3)
            else:
                with Solver('g3', bootstrap_with=g.clauses) as s:
                    ctx.require(s.solve(), f'{n} to {m} on {w}x{h}: a grid with no belts in it is excluded', size=[w, h], counts=[n, m])
                    mod = set(s.get_model())
                num = lambda bits: sum(1 << i for i, b in enumerate(bits) if b in mod)
                first, last, right = g.get_tile_instance(0, 0), g.get_tile_instance(w - 1, 0), g.get_tile_instance(w - 1, 0)
                if n == m:
                    F, O = (num(first.flow[0]), num(last.flow[0])) if n > 1 else (1, 1)
                    ctx.require(F >= 1 and F == n * O, f'{n} to {m}: outputs carry {O} of {F}', counts=[n, m])
                    spec = spec_nn(n, F, O, F)
                else:
                    c = dict(F=num(first.forward.flow[0]), FO=num(last.forward.flow[0]), B=num(right.backward.flow[0]), BO=num(first.backward.flow[0]))
                    ctx.require(c['F'] == m * c['FO'] and c['B'] == n * c['BO'] and n * c['F'] == m * c['B'] > 0, f'{n} to {m}: shares {c} do not add up', counts=[n, m])
                    c['full'] = max(c['F'], c['B'])
                    spec = spec_nm(n, m, c)
            B.equivalence(ctx, v, g.clauses, spec, label=f'{kind} {n} to {m}', params=dict(inputs=n, outputs=m), complete=False)
    return fn


CONCRETE = [('nf', 3, 3, 2, 2), ('nf', 4, 2, 3, 3), ('nf', 3, 4, 1, 1), ('nf', 3, 3, 1, 2), ('nf', 3, 3, 2, 1), ('nf', 3, 3, 2, 3), ('nf', 3, 3, 3, 1), ('p2', 3, 4, 0, 0), ('p2', 3, 8, 0, 0), ('nf', 3, 3, 4, 4), ('nf', 3, 3, 1, 3), ('nf', 4, 3, 2, 2), ('nf', 4, 3, 1, 2)]


def reverse_rows(rows):
    """The layout with every direction of travel turned around (inputs become outputs)."""
    out = []
    for r in rows:
        row = []
        for t in r:
            k = t['type']
            if k == 'belt':
                row.append(LY.belt(LY.rev(t['output_direction']), LY.rev(t['input_direction'])))
            elif k == 'underground_belt':
                row.append(LY.ug(LY.rev(t['direction']), not t['is_input']))
            elif k == 'splitter':
                row.append(LY.splitter(LY.rev(t['direction']), not t['is_head']))
            else:
                row.append(t)
        out.append(row)
    return out


def flows(rows, inputs):
    """Steady-state flow of every cell reachable from the inputs ({cell: share vector}), or None if there is none.
    inputs: {cell: vector entering it}."""
    L = LY.Layout(rows)
    succ, pred = {}, {}
    for a, b, k in L.graph():
        if k != 'splitter':
            succ[a], pred[b] = b, a
    halves = {}
    for x, y in L.cells():
        t = rows[y][x]
        if t['type'] == 'splitter' and t['is_head']:
            p = L.partner(x, y)
            halves[(x, y)] = halves[p] = ((x, y), p)
    reach, todo = set(), list(inputs)
    while todo:
        c = todo.pop()
        if c in reach:
            continue
        reach.add(c)
        for q in halves.get(c, (c,)):
            reach.add(q)
            if q in succ:
                todo.append(succ[q])
    n = len(next(iter(inputs.values())))
    cells = sorted(reach)
    idx = {c: i for i, c in enumerate(cells)}
    N = len(cells)
    M = []
    for c in cells:
        row = [Fraction(0)] * N + [Fraction(0)] * n
        row[idx[c]] += 1
        if c in halves:
            outs = [q for q in halves[c] if q in succ]
            ins = [pred[q] for q in halves[c] if q in pred]
            if c in outs:
                for p in ins:
                    if p in idx:
                        row[idx[p]] -= Fraction(1, len(outs))
        elif c in inputs:
            for i, v in enumerate(inputs[c]):
                row[N + i] += v
        elif pred.get(c) in idx:
            row[idx[pred[c]]] -= 1
        M.append(row)
    for i in range(N):
        p = next((r for r in range(i, N) if M[r][i] != 0), None)
        if p is None:
            return None
        M[i], M[p] = M[p], M[i]
        k = M[i][i]
        M[i] = [a / k for a in M[i]]
        for r in range(N):
            if r != i and M[r][i] != 0:
                k = M[r][i]
                M[r] = [a - k * b for a, b in zip(M[r], M[i])]
    return {c: M[idx[c]][N:] for c in cells}


def column(rows, x):
    return [y for y in range(len(rows)) if rows[y][x]['type'] != 'empty']


def unit(k, n):
    return [Fraction(int(i == k)) for i in range(n)]


def even(rows):
    """Do the inputs of the first column spread evenly over the outputs of the last?"""
    ins, outs = column(rows, 0), column(rows, len(rows[0]) - 1)
    f = flows(rows, {(0, y): unit(k, len(ins)) for k, y in enumerate(ins)})
    return f is not None and all(f.get((len(rows[0]) - 1, y)) == [Fraction(1, len(outs))] * len(ins) for y in outs)


def balancer(rows):
    w = len(rows[0])
    back = reverse_rows(rows)
    mirror = [[t if t['type'] == 'empty' else t for t in reversed(r)] for r in back]
    return even(rows), even([[flip_h(t) for t in r] for r in mirror])


def flip_h(t):
    m = lambda d: d if d % 2 else LY.rev(d)
    k = t['type']
    if k == 'belt':
        return LY.belt(m(t['input_direction']), m(t['output_direction']))
    if k == 'underground_belt':
        return LY.ug(m(t['direction']), t['is_input'])
    if k == 'splitter':
        return LY.splitter(m(t['direction']), not t['is_head'])
    return t


def checked(ctx, rows, n, m, u, what):
    ctx.eval()
    L = LY.Layout(rows)
    bad = L.problems(max_length=u, edge_undergrounds=False)
    ctx.require(not bad, f'{what}: illegal balancer', problems=bad, rows=rows)
    ctx.require(len(column(rows, 0)) == n and len(column(rows, len(rows[0]) - 1)) == m, f'{what}: wrong number of inputs or outputs', rows=rows)
    fwd, bwd = balancer(rows)
    ctx.require(fwd, f'{what}: the inputs do not spread evenly over the outputs', rows=rows)
    ctx.require(bwd, f'{what}: the outputs do not draw evenly from the inputs', rows=rows)


SOLVED = [(2, 2, 3, 2), (2, 2, 4, 3), (4, 4, 9, 4), (4, 4, 7, 5), (1, 2, 4, 2), (2, 1, 4, 2), (1, 2, 3, 3), (1, 4, 6, 4), (3, 3, 10, 4), (2, 4, 5, 4), (4, 2, 5, 4), (1, 1, 3, 1), (1, 3, 6, 4), (2, 3, 10, 4)]


def quiet(f):
    import contextlib, io, warnings
    with contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f()


def solved(cases):
    def fn(ctx):
        """Solved balancers, followed numerically."""
        import factorio_sat.belt_balancer_net_free as NF
        for n, m, w, h in cases:
            g = quiet(lambda: NF.create_n_to_m_balancer(w, h, 4, n, m))
            NF.setup_balancer_ends(g, n, m, False)
            g.block_belts_through_edges((False, True))
            g.prevent_intersection()
            g.enforce_maximum_underground_length()
            k = 0
            for sol in itertools.islice(g.itersolve(solver='g3', ignore_colour=True), 30 if ctx.thorough else 8):
                rows = [[c['tile'] for c in r] for r in sol.tolist()]
                checked(ctx, rows, n, m, 4, f'{n} to {m}')
                k += 1
            ctx.sample(dict(inputs=n, outputs=m, size=[w, h], solutions=k))
    return fn


def tool(ctx):
    import factorio_sat.belt_balancer_net_free as NF
    for n, m, w, h, extra in ((2, 2, 4, 2, []), (4, 4, 9, 4, ['--aligned']), (1, 2, 4, 2, ['--all']), (2, 2, 5, 3, ['--underground-length', '-1', '--all']), (2, 1, 4, 2, [])):
        for line in quiet(lambda: run_main(NF, [str(w), str(h), str(n), str(m)] + extra, []))[:6]:
            rows = [[c['tile'] for c in r] for r in json.loads(line)]
            checked(ctx, rows, n, m, None if '-1' in extra else 4, f'program {n} {m} {extra}')
            if '--aligned' in extra:
                a, b = column(rows, 0), column(rows, w - 1)
                ctx.require(a == b, 'program --aligned: ends not aligned', rows=rows)


def p2_check(ctx, rows, h, u, what):
    ctx.eval()
    bad = LY.Layout(rows).problems(max_length=u, edge_undergrounds=False)
    ctx.require(not bad, f'{what}: illegal balancer', problems=bad, rows=rows)
    f = flows(rows, {(0, y): unit(y // 2, h // 2) for y in range(h)})
    ctx.require(f is not None, f'{what}: no steady flow', rows=rows)
    w = len(rows[0])
    # with the first and last rows of splitters added, every output carries an equal share of every input
    for y in range(0, h, 2):
        a, b = f.get((w - 1, y)), f.get((w - 1, y + 1))
        ctx.require(a is not None and b is not None and len({p + q for p, q in zip(a, b)}) == 1, f'{what}: outputs {y} and {y + 1} are not complementary', rows=rows)


def p2(ctx):
    import factorio_sat.belt_balancer_net_free_power_of_2 as P
    for w, h in ((8, 4), (10, 4), (10, 8), (11, 8)) if ctx.thorough else ((8, 4), (10, 8)):
        g = P.create_balancer(w, h, 4)
        g.block_belts_through_edges((False, True))
        g.prevent_intersection()
        g.enforce_maximum_underground_length()
        k = 0
        for sol in itertools.islice(g.itersolve(solver='g3', ignore_colour=True), 6):
            p2_check(ctx, [[c['tile'] for c in r] for r in sol.tolist()], h, 4, f'power of two {w}x{h}')
            k += 1
        ctx.sample(dict(size=[w, h], solutions=k))
    for line in run_main(P, ['10', '8'], [])[:3]:
        p2_check(ctx, [[c['tile'] for c in r] for r in json.loads(line)], 8, 4, 'program power of two')


def wanted(rows, n, full):
    """Should the n to n balancer accept this layout?  None if its flow is not determined."""
    L = LY.Layout(rows)
    ins = column(rows, 0)
    f = flows(rows, {(0, y): unit(y % n, n) for y in ins})
    if f is None or any((x, y) not in f for x, y in L.cells() if rows[y][x]['type'] != 'empty'):
        return None
    g = L.graph()
    src, dst = {a for a, b, k in g if k != 'splitter'}, {b for a, b, k in g if k != 'splitter'}
    pred = {b: a for a, b, k in g if k != 'splitter'}
    if any((q * full).denominator != 1 for v in f.values() for q in v[:n - 1]):
        return False
    for x, y in L.cells():
        if rows[y][x]['type'] == 'splitter':
            c, p = (x, y), L.partner(x, y)
            if c not in src or c not in dst or f[pred[c]][:n - 1] == f[pred[p]][:n - 1]:
                return False
    w = len(rows[0])
    return all(f[(w - 1, y)][:n - 1] == [Fraction(1, n)] * (n - 1) for y in column(rows, w - 1))


PIN_NETS = [('2x2', 3, 2), ('2x2', 5, 3), ('3x3', 10, 4), ('4x4', 7, 5), ('again', 5, 2), ('uneven', 8, 5), ('half', 6, 4), ('spread3', 6, 4)]
EXTRA = {'2x2': [((0, 0), (1, 1))], 'again': [((0, 0), (1, 1)), ((1, 1), (2, 2))], 'uneven': [((0, 0), (1, 2)), ((0, 0), (1, 2)), ((1, 2), (3, 3)), ((1, 2), (3, 3))],
         'half': [((0, 0), (1, 1)), ((0, 0), (2, 2)), ((1, 1), (3, 3)), ((2, 2), (3, 3))], 'spread3': [((0, 0), (1, 1)), ((0, 1), (2, 2)), ((1, 2), (3, 2))]}


def pinned(ctx):
    """Layouts of given splitter networks (made with the network tool), balanced or not: accepted exactly when they balance."""
    import collections
    import math
    import factorio_sat.belt_balancer as BB, factorio_sat.belt_balancer_net_free as NF
    from pysat.solvers import Solver
    nets = dict(EXTRA)
    nets['4x4'] = [((0, 0), (1, 2)), ((0, 0), (1, 2)), ((1, 1), (3, 3)), ((2, 2), (3, 3))]
    nets['3x3'] = [((0, 0), (1, 1)), ((0, 3), (2, 2)), ((2, 1), (3, 3)), ((2, 1), (3, 3))]
    split = collections.Counter()
    for name, w, h in PIN_NETS:
        net = collections.Counter(nets[name])
        try:
            g = BB.create_balancer(net, w, h, 4)
            g.prevent_intersection()
            g.enforce_maximum_underground_length()
            BB.setup_balancer_ends(g, net, False, False)
        except (AssertionError, RuntimeError):
            continue
        for sol in itertools.islice(g.itersolve(solver='g3', ignore_colour=True), 40 if ctx.thorough else 12):
            rows = [[c['tile'] for c in r] for r in sol.tolist()]
            n = len(column(rows, 0))
            if n != len(column(rows, w - 1)) or LY.Layout(rows).problems(max_length=4, edge_undergrounds=False):
                continue
            den = 1 << max(n - 1, 0).bit_length()
            full = n * (den // math.gcd(den, n))
            want = wanted(rows, n, full)
            if want is None:
                continue
            q = NF.create_n_to_n_balancer(w, h, 4, n)
            q.prevent_intersection()
            for y, r in enumerate(rows):
                for x, t in enumerate(r):
                    q.set_tile(x, y, LY.make(t))
            with Solver('g3', bootstrap_with=q.clauses) as s:
                got = s.solve()
            ctx.eval()
            split[want] += 1
            ctx.require(got == want, f'layout of {name} {"balances" if want else "does not balance"} but is {"accepted" if got else "excluded"}', rows=rows)
    ctx.sample(dict(balanced=split[True], not_balanced=split[False]))


def tasks(tier):
    pairs = [(2, 3), (3, 2), (1, 3), (5, 5), (1, 2), (2, 1), (4, 4), (3, 3), (2, 2), (1, 1)]
    ts = [flow_proof(n, m) for n, m in pairs]
    ts += [p2_proof(h) for h in (4, 8)]
    if tier == 'thorough':
        ts += [flow_proof(n, m) for n, m in ((6, 6), (3, 1), (1, 4), (4, 1), (2, 4), (3, 4), (7, 7), (8, 8))]
    ts += [Task(f'bounded concrete {i}', concrete(CONCRETE[i::5]), 'bounded', 600) for i in range(5)]
    k = 4
    ts += [Task(f'bounded solved {i}', solved(SOLVED[i::k]), 'bounded', 600) for i in range(k)]
    ts += [Task('bounded program', tool, 'bounded', 600), Task('bounded power of two', p2, 'bounded', 600), Task('bounded pinned', pinned, 'bounded', 600)]
    return ts
