"""Symmetry breaking."""
import itertools

from .common import *
from specs import layout as LY

LEVEL = 'proof'
TECHNIQUE = 'deductive: for grids of every size, the literal lists handed to break_symmetry proved to be exchanged by the mirror / reversal map (so that one of layout and image is lexicographically first, lemma discharged by z3), break_symmetry itself under contract, and the rotational rule equivalent to its specification; obligations from the source discharged by z3'
NOTE = 'Grid size, reflected range and position unbounded. The exact claim is also decided by SAT for concrete sizes (bounded) with a failing layout as replay.'
RULE = 'for each size, a SAT query for a layout rejected together with its image, confirmed on the real clauses; random legal layouts and their images'
BOUND = 'bounded companion: grids up to 4x4'
FLIP_V = {0: 0, 1: 3, 2: 2, 3: 1}      # top-bottom mirror of a direction of travel
FLIP_H = {0: 2, 1: 1, 2: 0, 3: 3}


class Lex:
    """Clause standing for the contract of break_symmetry: left is not after right in lexicographic order."""

    def __init__(self, left, right):
        self.left, self.right = left, right

    def __pyvc_subst__(self, pairs):
        from pyvc.sym import subst
        return Lex(subst(self.left, pairs), subst(self.right, pairs))


def lex_contract(E, f, args, kw):
    left, right = args[0], args[1]
    E.mark_read(left)
    E.mark_read(right)
    return E.new([Lex(list(left), list(right))])


def image_field(kind, field, k):
    """Field of the mirrored cell that holds in the image of a layout exactly when (field, k) holds in the layout."""
    if kind == 'vertical':
        if field in ('input_direction', 'output_direction', 'underground'):
            return field, FLIP_V[k]
        if field in ('is_belt', 'is_empty', 'is_splitter', 'is_underground_in', 'is_underground_out', 'colour', 'colour_ux', 'colour_uy'):
            return field, k
    else:   # mirrored left to right with the flow reversed
        swap = {'input_direction': 'output_direction', 'output_direction': 'input_direction', 'is_underground_in': 'is_underground_out', 'is_underground_out': 'is_underground_in'}
        if field in ('input_direction', 'output_direction', 'underground'):
            return swap.get(field, field), LY.rev(FLIP_H[k])
        if field in ('is_belt', 'is_empty', 'is_splitter', 'is_underground_in', 'is_underground_out', 'colour', 'colour_ux', 'colour_uy'):
            return swap.get(field, field), k
    return None


def fields_of(v):
    """Cell variable name -> (field, index)."""
    inst = v.arr.elem
    out = {}
    for f in ('is_belt', 'is_empty', 'is_splitter', 'is_underground_in', 'is_underground_out'):
        out[getattr(inst, f).t.decl().name()] = (f, 0)
    for f in ('input_direction', 'output_direction', 'underground'):
        for k, l in enumerate(getattr(inst, f)):
            out[l.t.decl().name()] = (f, k)
    return out


def lex_task(kind, wrap, ranged):
    def fn(ctx):
        from pyvc.gridproof import GridRun
        from pyvc.sym import Fam, Lit, SInt, Unsupported, same, subst, z3
        from factorio_sat import optimisations as O
        W, H, a, b = z3.Ints('W H a b')

        def build(E, W, H, mode, pool, run):
            g = sym_grid(E, W, H, mode, pool)
            n = list(g.clauses)
            if kind == 'vertical':
                E.call(O.break_vertical_symmetry, (g,))
            elif ranged:
                E.assume(z3.And(0 <= a, a <= b, b < W))
                E.call(O.break_horisontal_symmetry, (g, SInt(a), SInt(b)))
            else:
                E.call(O.break_horisontal_symmetry, (g,))
            return g, n
        run = GridRun(wrap, build, contracts={'util.break_symmetry': lex_contract})
        ctx.functions(run.E)
        p = ctx.prover(f'{kind} wrap={wrap} ranged={ranged}')
        extra = [0 <= a, a <= b, b < W] if ranged else []
        lo, hi = (a, b) if ranged else (z3.IntVal(0), W - 1)
        p.goal(p.solver(run.hyp + extra), 'paths cover', z3.Or([q.cond for q in run.paths]))
        for n, path in enumerate(run.paths):
            hy = run.hyp + extra + path.conds
            if path.outcome != 'normal':
                p.goal(p.solver(hy), f'path {n}: does not raise {type(path.value).__name__}: {path.value}', z3.BoolVal(False))
                continue
            g, before = path.value
            v = G.SymView(run.E, g, wrap)
            fields = fields_of(v)
            names = {}
            for k, fk in fields.items():
                names[fk] = k
            ctx.obligation(f'{kind}: existing clauses kept', all(x is y for x, y in zip(g.clauses, before)) and len(g.clauses) >= len(before))

            def image_pos(x, y):
                return (x, H - 1 - y) if kind == 'vertical' else (lo + hi - x, y)
            calls = []

            def collect(items, ctxs):
                for it in items:
                    if isinstance(it, Fam):
                        for c, its in it.alts:
                            collect(its, ctxs + [(it, c)])
                    elif isinstance(it, Lex):
                        calls.append((it, ctxs))
                    else:
                        raise Unsupported(f'clause outside break_symmetry: {it}')
            collect(g.clauses[len(before):], [])
            loc = {}

            def matched(left, right, hyps, label):
                """right is left under the image map, item by item."""
                if len(left) != len(right):
                    raise Unsupported('lists of different structure')
                for i, (x, y) in enumerate(zip(left, right)):
                    if isinstance(x, Fam) != isinstance(y, Fam):
                        raise Unsupported('lists of different structure')
                    if isinstance(x, Fam):
                        if len(x.vars) != len(y.vars) or len(x.alts) != len(y.alts):
                            raise Unsupported('lists of different structure')
                        pairs = list(zip(y.vars, x.vars))
                        if not z3.simplify(x.guard).eq(z3.simplify(z3.substitute(y.guard, *pairs))):
                            raise Unsupported('lists of different structure')
                        for (c, its), (c2, its2) in zip(x.alts, y.alts):
                            if not z3.simplify(c).eq(z3.simplify(z3.substitute(c2, *pairs))):
                                raise Unsupported('lists of different structure')
                            matched(its, subst(its2, pairs), hyps + [x.guard, c], f'{label}.{i}')
                    else:
                        one(x, y, hyps, f'{label}.{i}')

            def one(x, y, hyps, label):
                tx, ty = x.t, y.t
                neg = z3.is_not(tx), z3.is_not(ty)
                tx, ty = tx.arg(0) if neg[0] else tx, ty.arg(0) if neg[1] else ty
                fx, fy = fields.get(tx.decl().name()), fields.get(ty.decl().name())
                if fx is None or fy is None:
                    raise Unsupported(f'unknown variable in the lists {tx} {ty}')
                s = p.solver(hyps)
                for (t, f), (t2, f2), d in (((tx, fx), (ty, fy), ''), ((ty, fy), (tx, fx), ' back')):
                    img = image_field(kind, *f)
                    px, py = image_pos(t.arg(1), t.arg(0))
                    ok = z3.BoolVal(img == f2 and neg[0] == neg[1])
                    p.goal(s, f'{label}{d}: {f} is compared with its image', z3.And(ok, t2.arg(0) == py, t2.arg(1) == px))
            if len(calls) > 1:
                raise Unsupported('several comparisons')
            for it, ctxs in calls:
                hyps = hy + [z3.And(f.guard, c) for f, c in ctxs]
                matched(it.left, it.right, hyps, f'path {n}')
                if len(ctxs) > 1:
                    raise Unsupported('comparison in nested loops')
                for f, c in ctxs:
                    # the lists of a later iteration extend those of an earlier one
                    if not z3.is_true(c) or f.lo is None or len(f.vars) != 1:
                        raise Unsupported('conditional comparison')
                    k = f.vars[0]
                    for side, items in (('left', it.left), ('right', it.right)):
                        head = items[0] if items else None
                        grows = isinstance(head, Fam) and len(head.vars) == 1 and head.lo is not None and len(head.alts) == 1 and z3.is_true(head.alts[0][0]) \
                            and head.lo.eq(f.lo) and head.hi.eq(k) and same(subst(head.alts[0][1], [(head.vars[0], k)]), items[1:])
                        if not grows:
                            raise Unsupported('comparison lists do not grow')
                        ctx.obligation(f'path {n}: {side} list of an iteration extends the earlier ones', True)
    return Task(f'proof {kind} wrap={wrap} ranged={ranged}', fn, 'proof', 240)


def lemma_task():
    """Of two lists one is not after the other, and prefixes agree with the whole."""
    def fn(ctx):
        from pyvc.sym import z3
        from pyvc import numproof
        numproof.CONTRACTS['break_symmetry'](ctx)
        A, B = z3.Function('A', z3.IntSort(), z3.BoolSort()), z3.Function('B', z3.IntSort(), z3.BoolSort())
        i, j, k = z3.Ints('i j k')
        eqto = lambda t: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < t), A(k) == B(k)))
        p = ctx.prover('order')
        # rejected at position i of some prefix, and the image (lists exchanged) rejected at position j of some prefix
        s = p.solver([0 <= i, 0 <= j, eqto(i), A(i), z3.Not(B(i)), eqto(j), B(j), z3.Not(A(j))])
        p.goal(s, 'a layout and its image are never both rejected', z3.BoolVal(False))
    return Task('proof order lemma and break_symmetry contract', fn, 'proof', 120)


def rotation_spec(v, x, y):
    a, b = v.tile(x, y), v.tile(v.W - 1 - x, v.H - 1 - y)
    out = [(f'direction {d}', G.And(a.inp[d] == b.out[d], a.out[d] == b.inp[d], a.ug[d] == b.ug[d])) for d in range(4)]
    out += [('kind', G.And(a.is_empty == b.is_empty, a.is_belt == b.is_belt, a.is_splitter == b.is_splitter, a.is_underground_in == b.is_underground_out, a.is_underground_out == b.is_underground_in))]
    out += [('splitter half', G.Or(G.Not(a.is_splitter), a.is_splitter_head != b.is_splitter_head))]
    return out


def rotation_task(wrap):
    def fn(ctx):
        from pyvc.gridproof import GridRun, RuleProof, inst_schema, near
        from pyvc.prove import schemas
        from pyvc.sym import z3
        from factorio_sat import interchange as I

        def build(E, W, H, mode, pool, run):
            g = sym_grid(E, W, H, mode, pool)
            n = len(g.clauses)
            E.call(I.require_rotational_symmetry, (g,))
            return g, n
        run = GridRun(wrap, build)
        ctx.functions(run.E)
        W, H = run.W, run.H
        p = ctx.prover(f'rotational wrap={wrap}')
        X, Y = z3.Ints('X Y')
        for n, path in enumerate(run.paths):
            hy = run.hyp + path.conds
            if path.outcome != 'normal':
                p.goal(p.solver(hy), f'path {n}: does not raise {path.value}', z3.BoolVal(False))
                continue
            g, m = path.value
            v = G.SymView(run.E, g, wrap)
            rp = RuleProof(p, v, schemas(g.clauses[m:]), rotation_spec, G.base, hy)
            image = lambda x, y: (z3.simplify(W - 1 - x), z3.simplify(H - 1 - y))
            # every model: the cell, its image, the other half of its splitter and the image of that
            pts = near(v, [(X, Y)], 1)
            pts = pts + [image(*q) for q in pts]
            hyp = hy + [v.in_range(X, Y)]
            for s in rp.schemas:
                hyp += inst_schema(s, rp.decls, pts)
            for x, y in pts:
                hyp += rp.at('base', G.base, x, y)
            s = p.solver(hyp)
            p.reachable(hyp, f'path {n}')
            for name, goal in rotation_spec(v, X, Y):
                p.goal(s, f'path {n}: every model: {name}', goal)
            # nothing else is excluded
            for k, sc in enumerate(rp.schemas):
                from pyvc import prove
                new, pairs = prove.rename(sc, 'g')
                goal = sc.inst(pairs)
                from pyvc.gridproof import positions
                pts2 = positions(goal, rp.decls)
                pts2 = pts2 + [image(*q) for q in pts2]
                h2 = list(hy)
                for x, y in pts2:
                    h2 += rp.at('spec', rotation_spec, x, y) + rp.at('base', G.base, x, y)
                p.goal(p.solver(h2), f'path {n}: clause {k} allowed', goal)
    return Task(f'proof rotational wrap={wrap}', fn, 'proof', 240)


# ------------------------------------------------------------------------------------------------ bounded companion
def image_rows(kind, rows):
    h, w = len(rows), len(rows[0])
    out = [[None] * w for _ in range(h)]
    for y in range(h):
        for x in range(w):
            t = dict(rows[y][x])
            k = t['type']
            if kind == 'vertical':
                f = lambda d: FLIP_V[d]
            elif kind == 'horizontal':
                f = lambda d: LY.rev(FLIP_H[d])
            else:
                f = lambda d: d
            if k == 'belt':
                t = LY.belt(f(t['input_direction']), f(t['output_direction'])) if kind == 'vertical' else LY.belt(f(t['output_direction']), f(t['input_direction']))
            elif k in ('underground_belt', 'splitter'):
                t['direction'] = f(t['direction'])
                if k == 'underground_belt' and kind != 'vertical':
                    t['is_input'] = not t['is_input']
                if k == 'splitter' and kind != 'horizontal':
                    t['is_head'] = not t['is_head']
            out[h - 1 - y if kind != 'horizontal' else y][w - 1 - x if kind != 'vertical' else x] = t
    return out


def lits_of(g, rows):
    out = []
    for y, r in enumerate(rows):
        for x, t in enumerate(r):
            i = g.tiles[y, x]
            k = t['type']
            kinds = {'is_belt': k == 'belt', 'is_empty': k == 'empty', 'is_splitter': k == 'splitter', 'is_underground_in': k == 'underground_belt' and t['is_input'], 'is_underground_out': k == 'underground_belt' and not t['is_input'],
                     'is_splitter_head': k == 'splitter' and t['is_head']}
            out += [getattr(i, n) if f else -getattr(i, n) for n, f in kinds.items()]
            if k == 'splitter':
                d = t['direction']      # a half may leave a side unconnected; only its facing is fixed
                for j in range(4):
                    if j != d:
                        out += [-i.input_direction[j], -i.output_direction[j]]
            else:
                a, b = LY.inputs(t), LY.outputs(t)
                out += [l if a == j else -l for j, l in enumerate(i.input_direction)] + [l if b == j else -l for j, l in enumerate(i.output_direction)]
    return out


def full_image(kind, g, model):
    """The assignment of the image of a model, on every cell variable."""
    m = {}
    for y in range(g.height):
        for x in range(g.width):
            a = g.tiles[y, x]
            b = g.tiles[g.height - 1 - y if kind != 'horizontal' else y, g.width - 1 - x if kind != 'vertical' else x]
            for f in ('is_belt', 'is_empty', 'is_splitter'):
                m[getattr(b, f)] = getattr(a, f)
            rv = kind != 'vertical'
            m[b.is_underground_in] = a.is_underground_out if rv else a.is_underground_in
            m[b.is_underground_out] = a.is_underground_in if rv else a.is_underground_out
            for d in range(4):
                e = FLIP_V[d] if kind == 'vertical' else LY.rev(FLIP_H[d]) if kind == 'horizontal' else d
                m[b.input_direction[e]] = a.output_direction[d] if rv else a.input_direction[d]
                m[b.output_direction[e]] = a.input_direction[d] if rv else a.output_direction[d]
    return [b if a in model else -b for b, a in m.items()]


def queries(kind, sizes):
    def fn(ctx):
        from pysat.solvers import Solver
        from pyvc.sym import z3
        from factorio_sat import optimisations as O
        for w, h in sizes:
            base = conc_grid(w, h, (False, False))
            n0 = len(base.clauses)
            calls = []
            orig = O.break_symmetry
            rule = O.break_vertical_symmetry if kind == 'vertical' else O.break_horisontal_symmetry
            O.break_symmetry = lambda l, r, alloc: calls.append((list(l), list(r))) or []
            try:
                rule(base)
            finally:
                O.break_symmetry = orig
            real = conc_grid(w, h, (False, False))
            legal = list(real.clauses)
            rule(real)
            ctx.require(real.clauses[:len(legal)] == legal, f'{kind} rule changes existing clauses', size=(w, h))
            acc = Solver('g3', bootstrap_with=real.clauses)
            ok = Solver('g3', bootstrap_with=legal)
            top = max(abs(l) for c in legal for l in c)

            def confirm(model):
                lits = [l for l in model if abs(l) <= top and any(abs(l) == abs(q) for q in image)]
                return not acc.solve(assumptions=lits) and not acc.solve(assumptions=full_image(kind, real, set(model)))
            image = full_image(kind, real, set())
            cells = [abs(l) for l in image]
            # exact query when the rule is made of comparisons only
            if calls and len(base.clauses) == n0:
                V = lambda l: z3.Bool(f'v{l}') if l > 0 else z3.Not(z3.Bool(f'v{-l}'))
                # image literal map on variables
                tr = image_vars(kind, base)

                def after(A, B):
                    r = z3.BoolVal(False)
                    for x, y in reversed(list(zip(A, B))):
                        r = z3.Or(z3.And(x, z3.Not(y)), z3.And(x == y, r))
                    return r
                s = z3.Solver()
                s.set('timeout', 60000)
                for c in legal:
                    s.add(z3.Or([V(l) for l in c]))
                flat = [(list(l), list(r)) for l, r in calls]
                if all(abs(q) in tr for l, r in flat for q in l + r):
                    T = lambda l: V(tr[abs(l)] if l > 0 else -tr[abs(l)])
                    s.add(z3.Or([after([V(q) for q in l], [V(q) for q in r]) for l, r in flat]))
                    s.add(z3.Or([after([T(q) for q in l], [T(q) for q in r]) for l, r in flat]))
                    ctx.eval()
                    if s.check() == z3.sat:
                        m = s.model()
                        model = [v if z3.is_true(m.eval(z3.Bool(f'v{v}'))) else -v for v in range(1, top + 1)]
                        if confirm(model):
                            ctx.fail(f'{kind} symmetry: a {w}x{h} layout and its image are both rejected', size=(w, h), layout=str(real.parse_solution(model).tolist())[:3000])
                            return
            for _ in range(30 if ctx.thorough else 10):
                pick = [ctx.rng.choice((1, -1)) * v for v in ctx.rng.sample(cells, min(len(cells), 8))]
                while pick and not ok.solve(assumptions=pick):
                    pick.pop()
                ok.set_phases([ctx.rng.choice((1, -1)) * v for v in range(1, top + 1)])
                ok.solve(assumptions=pick)
                model = ok.get_model()
                lits = [l for l in model if abs(l) in set(cells)]
                ctx.eval()
                if not acc.solve(assumptions=lits) and not acc.solve(assumptions=full_image(kind, real, set(model))):
                    ctx.fail(f'{kind} symmetry: a {w}x{h} layout and its image are both rejected', size=(w, h), layout=str(real.parse_solution(model).tolist())[:3000])
                    return
            ctx.sample(dict(rule=kind, size=(w, h)))
            acc.delete()
            ok.delete()
    return fn


def image_vars(kind, g):
    """Variable -> variable of the layout that its image's variable equals."""
    tr = {}
    for y in range(g.height):
        for x in range(g.width):
            b = g.tiles[y, x]       # cell of the image
            a = g.tiles[g.height - 1 - y if kind != 'horizontal' else y, g.width - 1 - x if kind != 'vertical' else x]
            rv = kind != 'vertical'
            for f in ('is_belt', 'is_empty', 'is_splitter'):
                tr[getattr(b, f)] = getattr(a, f)
            tr[b.is_underground_in] = a.is_underground_out if rv else a.is_underground_in
            tr[b.is_underground_out] = a.is_underground_in if rv else a.is_underground_out
            for d in range(4):
                e = FLIP_V[d] if kind == 'vertical' else LY.rev(FLIP_H[d]) if kind == 'horizontal' else d
                tr[b.input_direction[d]] = a.output_direction[e] if rv else a.input_direction[e]
                tr[b.output_direction[d]] = a.input_direction[e] if rv else a.output_direction[e]
    return tr


def rotations(ctx):
    from factorio_sat import interchange as I
    for w, h in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (3, 3)) + (((4, 3), (4, 4)) if ctx.thorough else ()):
        for wrap in WRAPS:
            g = conc_grid(w, h, wrap)
            n = len(g.clauses)
            I.require_rotational_symmetry(g)
            v = G.ConcView(g, wrap)
            B.equivalence(ctx, v, g.clauses[n:], rotation_spec, G.base, label='rotational symmetry')


def tasks(tier):
    t = [lemma_task()]
    for wrap in WRAPS[:1] if tier == 'quick' else WRAPS:
        t += [lex_task('vertical', wrap, False), lex_task('horizontal', wrap, False), lex_task('horizontal', wrap, True)]
    t += [rotation_task(w) for w in WRAPS]
    small = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (1, 4), (4, 1), (2, 4)]
    big = [(3, 3), (4, 2), (3, 4), (2, 5), (4, 4), (5, 3)] + ([(3, 6), (5, 5), (6, 4)] if tier == 'thorough' else [])
    for kind in ('vertical', 'horizontal'):
        t += [bound_task(f'{kind} small', [queries(kind, small)]), bound_task(f'{kind} bigger', [queries(kind, big)])]
    t += [bound_task('rotational', [rotations])]
    return t
