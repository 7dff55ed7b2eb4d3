import contextlib
import io
import json

from .common import *
from .c15 import scratch
from specs import layout as LY

LEVEL = 'proof'
TECHNIQUE = ('deductive: main() executed symbolically for every size and underground length under each option combination, the grid it solves proved to carry every rule its '
             'options promise (rules by their contracts C03-C08, C12); ensure_loop_length proved to force a numbering that grows along every connection, and by lemmas over that contract one single loop; discharged by z3')
NOTE = ('The last combinatorial steps (a numbering growing by one along every connection except into the first cell makes one loop) are discharged as induction steps over cell numbers. '
        'Printing of solutions is covered by the bounded part only, which also runs the real program for enumerated options.')
RULE = 'bounded part: sizes x option combinations; every printed block (up to a cap) is read from its tiles alone'
BOUND = 'bounded companion: blocks up to 6x6'
ASSUMPTIONS = ['IDPool._next returns a new variable on every call (pysat)', 'argparse: run for real on concrete arguments',
               'a bit list of value 0 has no set bit (lemma zero/unique of C01)', 'block rules used through their contracts, proved in C04, C05, C07 and C12']


class Enough(BaseException):
    pass


class Lines(io.StringIO):
    """Standard output that stops the program after a number of lines."""

    def __init__(self, limit):
        super().__init__()
        self.limit = limit

    def write(self, s):
        n = super().write(s)
        if '\n' in s and self.getvalue().count('\n') >= self.limit:
            raise Enough
        return n


def program(mod, args, limit):
    import sys
    buf, argv = Lines(limit), sys.argv
    sys.argv = [mod.__name__] + [str(a) for a in args]
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()):
            try:
                mod.main()
            except Enough:
                pass
    finally:
        sys.argv = argv
    return [json.loads(l) for l in buf.getvalue().splitlines() if l.strip()]


def covered(L):
    """(cell, axis) pairs lying under the ground between an entrance and its exit."""
    out = set()
    for x, y in L.cells():
        t = L.rows[y][x]
        if t['type'] == 'underground_belt' and t['is_input']:
            n = L.length(x, y)
            for k in range(1, n + 1):
                out.add((L.pos(x, y, t['direction'], k), t['direction'] % 2))
    return out


def block_problems(rows, w, h, tile=False, empty=False, length=4, no_parallel=False, single=False):
    if len(rows) != h or any(len(r) != w for r in rows):
        return ['size']
    L = LY.Layout(rows, (tile, tile))
    out = L.problems(max_length=length, edge_undergrounds=False)
    if out:
        return out
    for x, y in L.cells():
        t = rows[y][x]
        if t['type'] not in ('belt', 'underground_belt', 'empty'):
            out.append(f'{t["type"]} at {(x, y)}')
        if t['type'] == 'empty' and not empty:
            out.append(f'empty cell {(x, y)}')
        if t['type'] == 'underground_belt' and length == 0:
            out.append(f'underground at {(x, y)}')
        if not tile:
            for d, s in ((LY.outputs(t), 1), (LY.inputs(t), -1)):
                if d is not None and L.pos(x, y, d, s) is None:
                    out.append(f'{(x, y)} crosses the border')
    if out:
        return out
    if no_parallel:
        c = covered(L)
        for (p, axis) in c:
            q = L.pos(*p, 1 if axis == 0 else 0)
            if q is not None and q != p and (q, axis) in c:
                out.append(f'parallel undergrounds at {p} and {q}')
    if single:
        nxt = {a: b for a, b, k in L.graph()}
        seen, c = [], (0, 0)
        while c is not None and c not in seen:
            seen.append(c)
            c = nxt.get(c)
        if c != (0, 0) or len(seen) != w * h:
            out.append(f'loop through the first cell visits {len(seen)} cells of {w * h}')
    return out


SIZES = [(3, 3), (4, 4), (5, 4), (4, 6), (6, 6), (2, 5), (6, 3), (1, 4), (4, 1), (2, 2), (3, 1), (1, 1), (7, 2)]


def options():
    for tile in (False, True):
        for empty in (False, True):
            for par in (False, True):
                for length in (0, 1, 2, 4):
                    for single in (False, True):
                        if not (empty and single):
                            yield dict(tile=tile, empty=empty, no_parallel=par, length=length, single=single)


def argv(w, h, o):
    a = [w, h, '--underground-length', o['length']]
    for k, n in (('tile', '--tile'), ('empty', '--allow-empty'), ('no_parallel', '--no-parallel'), ('single', '--single-loop')):
        if o[k]:
            a.append(n)
    return a


def blocks(part, parts):
    def fn(ctx):
        import factorio_sat.make_block as MB
        cases = [(s, o) for s in SIZES for o in options()]
        n = 0
        for (w, h), o in cases[part::parts]:
            if o['single'] and not 1 < w * h <= (24 if ctx.thorough else 20):
                continue
            for sol in program(MB, argv(w, h, o) + ['--all'], 40 if ctx.thorough else 12):
                rows = [[c['tile'] for c in r] for r in sol]
                bad = block_problems(rows, w, h, **o)
                ctx.eval()
                n += 1
                ctx.require(not bad, f'block {w}x{h} {o}: {bad[:3]}', size=[w, h], options=o, rows=rows)
        ctx.sample(dict(blocks=n))
    return fn


def output_file(ctx):
    """--output writes the blocks to the file; without --all there is one."""
    import factorio_sat.make_block as MB
    with scratch() as d:
        for w, h, o in ((4, 4, dict(tile=False, empty=False, no_parallel=False, length=2, single=False)), (3, 2, dict(tile=True, empty=True, no_parallel=True, length=1, single=False))):
            for extra in ([], ['--all']):
                program(MB, argv(w, h, o) + ['--output', f'{d}/out'] + extra, 1)
                lines = [json.loads(l) for l in open(f'{d}/out')][:200]
                ctx.eval()
                ctx.require(len(lines) == 1 or (extra and len(lines) > 1), f'{len(lines)} blocks written', size=[w, h], extra=extra)
                for sol in lines:
                    rows = [[c['tile'] for c in r] for r in sol]
                    ctx.require(not block_problems(rows, w, h, **o), f'written block {w}x{h} {o}', rows=rows, problems=block_problems(rows, w, h, **o))


def refused(ctx):
    import factorio_sat.make_block as MB
    for a in ([3, 3, '--allow-empty', '--single-loop'], [3, 3, '--underground-length', '-1']):
        try:
            got = program(MB, a, 1)
        except (Exception, SystemExit):
            ctx.eval()
            continue
        o = dict(tile=False, empty='--allow-empty' in a, no_parallel=False, length=4, single='--single-loop' in a)
        for sol in got:
            rows = [[c['tile'] for c in r] for r in sol]
            ctx.require(not block_problems(rows, 3, 3, **o), f'contradictory options {a} gave a block', rows=rows)


# ------------------------------------------------------------------------------------------------ proofs
def loop_contracts(E_unused=None):
    """Number operations on bit lists of any width (contracts proved in C01)."""
    from pyvc.sym import Lit, z3, pow2_f

    def top(bits):
        return pow2_f(bits[0].hi) - 1

    def c_inc(E, f, args, kw):
        a, b = args
        na, nb = G.numval(a), G.numval(b)
        return E.new([[Lit(z3.Or(nb == na + 1, z3.And(na == top(a), nb == 0)))]])

    def c_same(E, f, args, kw):
        return E.new([[Lit(G.numval(args[0]) == G.numval(args[1]))]])
    return {'util.increment_number': c_inc, 'util.set_numbers_equal': c_same}


def some_bit(t):
    from pyvc.sym import z3
    k = z3.Int('bitk')
    f = t.raw('colour')[0]
    return z3.Exists([k], z3.And(0 <= k, k < f.hi, f.at(k).t))


def numbering(v, x, y):
    """What the single loop rule must force: numbers grow by one along every connection, except into the first cell."""
    t = v.tile(x, y)
    first = G.And(x == 0, y == 0)
    out = [('first cell has number 0', G.Implies(first, G.Not(some_bit(t)))), ('other cells are numbered', G.Implies(G.Not(first), some_bit(t)))]
    for d in range(4):
        u = 'colour_ux' if d % 2 == 0 else 'colour_uy'
        e, x1, y1 = v.pos(x, y, *G.VEC[d])
        o = v.tile(x1, y1)
        b, p = v.nb(x, y, *G.VEC[G.rev(d)])
        out.append((f'belt {G.DN[d]}', G.Implies(G.And(e, t.out[d], G.Not(G.And(x1 == 0, y1 == 0))), G.Or(o.num('colour') == t.num('colour') + 1, o.num('colour') == 0))))
        out.append((f'into passage {G.DN[d]}', G.Implies(G.And(e, t.ug_in(d)), G.Or(o.num(u) == t.num('colour') + 1, o.num(u) == 0))))
        out.append((f'passage {G.DN[d]}', G.Implies(G.And(e, t.ug[d], o.ug[d]), o.num(u) == t.num(u))))
        out.append((f'out of passage {G.DN[d]}', G.Implies(G.And(b, t.ug_out(d)), t.num('colour') == p.num(u))))
    return out


def loop_rule(wrap):
    def fn(ctx):
        from pyvc.gridproof import GridRun, RuleProof
        from pyvc.prove import schemas
        from pyvc.sym import z3
        import factorio_sat.make_block as MB
        C = z3.Int('C')
        hy = [C >= 2]

        def build(E, W, H, mode, pool, run):
            E.assume(C >= 2)
            g = sym_grid(E, W, H, mode, pool, colours='sym')
            n = len(g.clauses)
            E.call(MB.ensure_loop_length, (g,))
            return g, n
        run = GridRun(wrap, build, contracts=loop_contracts())
        ctx.functions(run.E)
        p = ctx.prover(f'single loop wrap={wrap}')
        p.goal(p.solver(run.hyp + hy), 'paths cover', z3.Or([q.cond for q in run.paths]) if run.paths else z3.BoolVal(False))
        for k, path in enumerate(run.paths):
            hyps = run.hyp + hy + path.conds
            if path.outcome != 'normal':
                p.goal(p.solver(hyps), f'path {k}: raises {type(path.value).__name__}', z3.BoolVal(False))
                continue
            g, n = path.value
            v = G.SymView(run.E, g, wrap)
            RuleProof(p, v, schemas(g.clauses[n:]), numbering, lambda v, x, y: G.base(v, x, y, C), hyps, R=1).sound(f'path {k}: ')
    return Task(f'proof single loop rule wrap={wrap}', fn, 'proof', 300)


def loop_lemma(wrap):
    """Over the contracts: every cell but the first has exactly one cell leading to it, numbered one less."""
    def fn(ctx):
        from pyvc.gridproof import GridRun
        from pyvc.sym import z3
        C = z3.Int('C')

        def build(E, W, H, mode, pool, run):
            E.assume(C >= 2)
            return sym_grid(E, W, H, mode, pool, colours='sym')
        run = GridRun(wrap, build)
        g = run.paths[0].value
        v = G.SymView(run.E, g, wrap)
        p = ctx.prover(f'loop lemma wrap={wrap}')
        X, Y, K, i = z3.Ints('X Y K i')
        And, Or, Not, Implies = G.And, G.Or, G.Not, G.Implies

        def rules(x, y):
            fs = G.base(v, x, y, C) + G.intersection(v, x, y) + G.undergrounds(v, x, y) + numbering(v, x, y)
            if wrap == (False, False):
                fs += G.belts_blocked(v, x, y, [True] * 4) + G.undergrounds_blocked(v, x, y, [True] * 4)
            t = v.tile(x, y)
            fs += [('no splitter', Not(t.is_splitter)), ('not empty', Not(t.is_empty))]
            # a number is 0 exactly when it has no bit
            fs += [('zero', (t.num('colour') == 0) == Not(some_bit(t)))] + [('nonneg', t.num(f) >= 0) for f in ('colour', 'colour_ux', 'colour_uy')]
            return [Implies(v.in_range(x, y), f) for _, f in fs]
        t = v.tile(X, Y)
        first = And(X == 0, Y == 0)
        inr = [v.in_range(X, Y), C >= 2] + run.hyp
        from pyvc.sym import mod_f

        def back(x, d, n, w):
            """(x - d + d) mod n = x for 0 <= x < n."""
            return [mod_f(mod_f(z3.simplify(x - d), n) + d, n) == x, mod_f(mod_f(z3.simplify(x + d), n) - d, n) == x] if w and d else []
        for d in range(4):
            dx, dy = G.VEC[d]
            # a cell taking input from direction d: the cell behind feeds it, is numbered one less, and no other cell feeds it
            e, bx, by = v.pos(X, Y, -dx, -dy)
            b = v.tile(bx, by)
            wrapf = back(X, dx, v.W, wrap[0]) + back(Y, dy, v.H, wrap[1])
            s = p.solver(inr + rules(X, Y) + rules(bx, by) + wrapf + [t.inp[d]])
            p.reachable(inr + rules(X, Y) + rules(bx, by) + wrapf + [t.inp[d], Not(first)], f'fed {G.DN[d]}')
            p.goal(s, f'fed from behind {G.DN[d]}', And(e, b.out[d], And([Not(t.inp[f]) for f in range(4) if f != d]), Not(t.is_underground_out)))
            p.goal(s, f'the feeder is numbered one less {G.DN[d]}', Implies(Not(first), b.num('colour') == t.num('colour') - 1))
            # a cell sending output in direction d leads to exactly the cell ahead
            e, ax, ay = v.pos(X, Y, dx, dy)
            a = v.tile(ax, ay)
            s = p.solver(inr + rules(X, Y) + rules(ax, ay) + wrapf + [t.out[d]])
            p.goal(s, f'leads on {G.DN[d]}', And(e, a.inp[d], And([Not(t.out[f]) for f in range(4) if f != d]), Not(t.is_underground_in)))
            # an exit: along the passage back to the entrance (pairing lemma of C05) the passage number does not change
            u = 'colour_ux' if d % 2 == 0 else 'colour_uy'
            n = v.W if d % 2 == 0 else v.H
            off = lambda k: v.pos(X, Y, -dx * k if dx else 0, -dy * k if dy else 0)
            at = lambda k: v.tile(*off(k)[1:])
            pos, sgn = (X, dx) if dx else (Y, dy)
            mods = []
            if wrap[0 if dx else 1]:
                for k in (i, K - 1):
                    q = mod_f(z3.simplify(pos - sgn * (k + 1)), n)
                    mods += [mod_f(z3.simplify(q + sgn), n) == mod_f(z3.simplify(pos - sgn * k), n)]
            pts = [(X, Y), off(i)[1:], off(i + 1)[1:], off(K - 1)[1:], off(K)[1:], off(z3.IntVal(1))[1:]]
            hy = inr + [f for q in pts for f in rules(*q)] + mods + wrapf + [t.ug_out(d), K >= 2, at(K).ug_in(d), And([off(k)[0] for k in (K, K - 1)])]
            p.reachable(hy + [at(1).ug[d], at(K - 1).ug[d], at(1).num(u) == at(K - 1).num(u), Not(first)], f'exit {G.DN[d]}')
            step = hy + [1 <= i, i + 1 < K, at(i).ug[d], at(i + 1).ug[d], off(i)[0], off(i + 1)[0]]
            p.goal(p.solver(step), f'passage number constant {G.DN[d]}: step', at(i + 1).num(u) == at(i).num(u))
            end = hy + [at(1).ug[d], at(K - 1).ug[d], at(1).num(u) == at(K - 1).num(u)]
            p.goal(p.solver(end), f'the entrance is numbered one less {G.DN[d]}', Implies(Not(first), at(K).num('colour') == t.num('colour') - 1))
        p.goal(p.solver(inr + rules(X, Y)), 'every cell is fed or is an exit, and feeds or is an entrance',
               And(Or(Or(t.inp), t.is_underground_out), Or(Or(t.out), t.is_underground_in)))
        p.goal(p.solver(inr + rules(X, Y)), 'only the first cell has number 0', (t.num('colour') == 0) == first)
        # over cells abstractly: num, pred, succ
        I = z3.IntSort()
        num, pred, succ = z3.Function('cnum', I, I), z3.Function('cpred', I, I), z3.Function('csucc', I, I)
        a, b, m, o = z3.Ints('a b m o')
        local = lambda c: [Implies(c != o, And(num(pred(c)) == num(c) - 1, succ(pred(c)) == c)), (num(c) == 0) == (c == o), num(c) >= 0]
        s = p.solver(local(a) + local(b) + [num(a) == m, num(b) == m, m == 0])
        p.goal(s, 'numbers are unique: base', a == b)
        s = p.solver(local(a) + local(b) + [num(a) == m + 1, num(b) == m + 1, m >= 0, Implies(And(num(pred(a)) == m, num(pred(b)) == m), pred(a) == pred(b))])
        p.goal(s, 'numbers are unique: step', a == b)
        reach = z3.Function('creach', I, z3.BoolSort())
        s = p.solver(local(a) + [num(a) == m + 1, m >= 0, Implies(num(pred(a)) == m, reach(pred(a))), Implies(reach(pred(a)), reach(succ(pred(a))))])
        p.goal(s, 'every cell is reached from the first: step', reach(a))
    return Task(f'proof loop lemma wrap={wrap}', fn, 'proof', 300)


def main_proof(part, parts):
    combos = [(t, e, n, s) for t in (False, True) for e in (False, True) for n in (False, True) for s in (False, True) if not (e and s)]

    def fn(ctx):
        import factorio_sat.make_block as MB
        from factorio_sat.template import EdgeMode
        from pyvc.gridproof import RuleProof
        from pyvc.prove import schemas
        from pyvc.sym import z3, SInt
        from .c09 import sym_is
        from .programs import Programs, MARKS
        for tile, empty, par, single in combos[part::parts]:
            hn = Programs()
            L = z3.Int('L')
            marks = dict(zip(MARKS, (SInt(hn.W), SInt(hn.H), SInt(L))))
            o = dict(tile=tile, empty=empty, no_parallel=par, single=single, length=MARKS[2])
            name = ' '.join(k for k in ('tile', 'empty', 'no_parallel', 'single') if o[k]) or 'plain'
            named = lambda label: lambda E, f, args, kw: hn.add(E, args[0], label)
            run = hn.run_program(MB.main, argv(MARKS[0], MARKS[1], o), marks, [hn.W * hn.H >= 2] if single else [],
                                 {'make_block.prevent_parallel': named('no parallel'), 'make_block.ensure_loop_length': named('single loop')})
            ctx.functions(run.E)
            p = ctx.prover(f'program {name}')
            p.goal(p.solver(run.hyp), 'paths cover', z3.Or([q.cond for q in run.paths]) if run.paths else z3.BoolVal(False))
            for k, path in enumerate(run.paths):
                lab = f'path {k}: '
                if path.outcome != 'normal' or path.value[0] is None:
                    continue         # nothing is printed
                sol, made = path.value
                from pyvc.sym import Unsupported
                if len(made) != 1 or made[0][0] is not sol.grid:
                    raise Unsupported('grid')
                g, clauses = sol.grid, sol.clauses[made[0][1]:]
                hyps = run.hyp + path.conds
                mode = EdgeMode.WRAP if tile else EdgeMode.NO_WRAP
                ctx.obligation(f'program {name}: {lab}size', sym_is(g.width, hn.W) and sym_is(g.height, hn.H))
                ctx.obligation(f'program {name}: {lab}edges', tuple(g.edge_mode) == (mode, mode))
                p.goal(p.solver(hyps), f'{lab}underground length', g.underground_length.t == L if isinstance(g.underground_length, SInt) else L == g.underground_length)
                need = ['intersection', 'undergrounds pair up']
                if not tile:
                    need += [f'{r} {q}' for r in ('block_belts_through_edges', 'block_underground_through_edges') for q in range(4)]
                if par:
                    need.append('no parallel')
                if single:
                    need.append('single loop')
                v = G.SymView(run.E, g, (tile, tile))

                def spec(v, x, y):
                    t = v.tile(x, y)
                    out = [(n, hn.B(n)) for n in need] + [('maximum length', G.Implies(L >= 1, hn.B('maximum length')))]
                    out += [('no splitter', G.Not(t.is_splitter)), ('no undergrounds', G.Implies(L <= 0, G.And([G.Not(u) for u in t.ug])))]
                    if not empty:
                        out.append(('not empty', G.Not(t.is_empty)))
                    return out
                RuleProof(p, v, schemas(clauses), spec, lambda v, x, y: G.base(v, x, y), hyps, R=0).sound(lab)
            # with length 0 no passage flags means no undergrounds at all (unless a passage crosses the border)
    return Task(f'proof program {part}', fn, 'proof', 300)


def no_undergrounds():
    """Without covered cells there are no entrances or exits whose passage would start inside the block."""
    def fn(ctx):
        from pyvc.gridproof import GridRun
        from pyvc.sym import z3
        for wrap in ((False, False), (True, True)):
            run = GridRun(wrap, lambda E, W, H, mode, pool, run: sym_grid(E, W, H, mode, pool, colours=None))
            v = G.SymView(run.E, run.paths[0].value, wrap)
            X, Y = z3.Ints('X Y')
            p = ctx.prover(f'no undergrounds wrap={wrap}')
            t = v.tile(X, Y)
            hy = run.hyp + [v.in_range(X, Y)] + [f for _, f in G.base(v, X, Y) + G.undergrounds(v, X, Y)]
            if wrap == (False, False):
                hy += [f for _, f in G.undergrounds_blocked(v, X, Y, [True] * 4)]
            for d in range(4):
                for s in (d, G.rev(d)):
                    e, x, y = v.pos(X, Y, *G.VEC[s])
                    hy += [G.Implies(v.in_range(x, y), G.And([G.Not(u) for u in v.tile(x, y).ug]))]
                    if wrap[0]:
                        hy += [v.in_range(x, y)]
            p.goal(p.solver(hy), 'none', G.Not(G.Or(t.is_underground_in, t.is_underground_out)))
    return Task('proof no undergrounds', fn, 'proof', 60)


def tasks(tier):
    ts = [loop_rule(w) for w in WRAPS[:2]] + [loop_lemma(w) for w in WRAPS[:2]] + [main_proof(k, 4) for k in range(4)] + [no_undergrounds()]
    ts += [Task(f'bounded blocks {k}', blocks(k, 8), 'bounded', 600) for k in range(8)]
    ts += [Task('bounded output', output_file, 'bounded', 300), Task('bounded refused', refused, 'bounded', 60)]
    return ts
