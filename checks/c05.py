from .common import *

RULE = 'concrete grids (sizes x edge modes x maximum lengths): z3 decides equivalence of the real clauses with the specification'
BOUND = 'bounded companion: width, height <= 3 (quick, 6x1 lines) / 6 (thorough), maximum length <= 5'
ASSUMPTIONS = ['IDPool._next returns a new variable on every call (pysat)']


def base(v, x, y):
    return G.base(v, x, y)


def conc_ug(ctx, w, h, wrap):
    g = conc_grid(w, h, wrap)
    n = len(g.clauses)
    g.prevent_bad_undergrounding()
    B.equivalence(ctx, G.ConcView(g, wrap), g.clauses[n:], G.undergrounds, base=base, label='prevent_bad_undergrounding')


def conc_len(ctx, w, h, wrap, L):
    g = conc_grid(w, h, wrap, underground_length=L)
    n = len(g.clauses)
    g.enforce_maximum_underground_length()
    spec = (lambda v, x, y: []) if L == float('inf') else (lambda v, x, y: G.max_length(v, x, y, L))
    B.equivalence(ctx, G.ConcView(g, wrap), g.clauses[n:], spec, base=base, label='enforce_maximum_underground_length', params=dict(length=L))


def pairing_task(wrap):
    """Lemma over the two rule contracts: entrances and exits pair up within the maximum length."""
    def fn(ctx):
        from pyvc.gridproof import GridRun
        from pyvc.sym import z3
        from pyvc.prove import Prover

        def build(E, W, H, mode, pool, run):
            return sym_grid(E, W, H, mode, pool, colours=None)
        run = GridRun(wrap, build)
        g = run.paths[0].value
        v = G.SymView(run.E, g, wrap)
        p = ctx.prover(f'pairing wrap={wrap}')
        X, Y, L, K, i = z3.Ints('X Y L K i')
        And, Not, Implies = G.And, G.Not, G.Implies
        for d in range(4):
            for which in ('entrance', 'exit'):
                step = G.VEC[d] if which == 'entrance' else G.VEC[G.rev(d)]

                def off(k):
                    return v.pos(X, Y, step[0] * k if step[0] else 0, step[1] * k if step[1] else 0)

                def at(k):
                    _, x, y = off(k)
                    return v.tile(x, y)

                def inside(k):
                    return off(k)[0]
                start = v.tile(X, Y)
                begin = start.ug_in(d) if which == 'entrance' else start.ug_out(d)

                def finish(t):
                    return t.ug_out(d) if which == 'entrance' else t.ug_in(d)
                n = v.W if d in (0, 2) else v.H
                wr = wrap[0] if d in (0, 2) else wrap[1]
                tag = f'{which} {G.DN[d]}'

                def rules(x, y):
                    return [Implies(v.in_range(x, y), f) for _, f in G.undergrounds(v, x, y) + G.base(v, x, y)]
                # K: least offset >= 1 whose cell is not a passage of direction d (well-ordering)
                least = [v.in_range(X, Y), begin, K >= 1, inside(K), Not(at(K).ug[d]),
                         z3.ForAll([i], Implies(And(1 <= i, i < K), And(inside(i), at(i).ug[d])))]
                hy = run.hyp + least
                _, xk, yk = off(K)
                _, xp, yp = off(K - 1)
                from pyvc import sym
                if wr:
                    # stepping once from the previous cell reaches this one: (a mod n + s) mod n = (a + s) mod n
                    a = (X if d in (0, 2) else Y) + (step[0] or step[1]) * (K - 1)
                    s = step[0] or step[1]
                    hy += [sym.mod_f(sym.mod_f(z3.simplify(a), n) + s, n) == sym.mod_f(z3.simplify(a + s), n),
                           sym.mod_f(sym.mod_f(z3.simplify(a + s), n) - s, n) == sym.mod_f(z3.simplify(a), n)]
                hy += rules(X, Y) + rules(xk, yk) + rules(xp, yp)
                hy += [Implies(K == 1, And(xp == X, yp == Y))]
                sol = p.solver(hy)
                p.reachable(hy, tag)
                p.goal(sol, f'{tag} leads to its partner', And(K >= 2, finish(at(K))))
                # between them only passage cells, none of them an end on the same axis
                sol = p.solver(hy + [1 <= i, i < K, And(inside(i), at(i).ug[d])] + rules(*off(i)[1:]))
                p.goal(sol, f'{tag} nothing on the same axis between',
                       And([Not(Or_) for Or_ in (at(i).ug_in(d), at(i).ug_out(d), at(i).ug_in(G.rev(d)), at(i).ug_out(G.rev(d)))]))
                # covered distance: K - 1 cells; the length rule at the first (entrance) or last (exit) covered cell
                _, x1, y1 = off(1) if which == 'entrance' else off(K - 1)
                j = z3.Int('j')
                ground = least[:-1]
                run_at = lambda k: Implies(And(1 <= k, k < K), And(inside(k), at(k).ug[d]))
                # instance of the length rule with its window written as offsets from the start, its two quantifiers by witnesses j and j2
                first = (lambda m: 1 + m) if which == 'entrance' else (lambda m: K - 1 - m)
                j2 = z3.Int('j2')
                hy2 = [L >= 1] + ground + run.hyp + [run_at(first(j)), run_at(first(j2))]
                hy2.append(Implies(Implies(And(0 <= j, j <= L), And(inside(first(j)))), And(0 <= j2, j2 <= L, Not(at(first(j2)).ug[d]))))
                p.goal(p.solver(hy2), f'{tag} covered distance within the maximum', K - 1 <= L)
                # existence of K: with wrap-around the start itself stops the run; otherwise only the edge can
                if wr:
                    full = [z3.ForAll([i], Implies(And(1 <= i, i <= n), at(i).ug[d])), begin, v.in_range(X, Y)] + rules(X, Y) + run.hyp
                    pos = X if d in (0, 2) else Y
                    _, xn, yn = off(n)
                    full += [And(xn == X, yn == Y), at(n).ug[d]]
                    p.goal(p.solver(full), f'{tag} cannot run round for ever', z3.BoolVal(False))
    return Task(f'proof pairing wrap={wrap}', fn, 'proof', 240)


def tasks(tier):
    from pyvc.sym import z3, SInt
    ts = [accessor_task()]
    L = z3.Int('L')
    for wrap in WRAPS:
        ts.append(rule_task('prevent_bad_undergrounding', wrap, lambda E, g: E.call(g.prevent_bad_undergrounding), G.undergrounds))

        def call(E, g):
            g.underground_length = SInt(L)
            E.call(g.enforce_maximum_underground_length)
        ts.append(rule_task('enforce_maximum_underground_length', wrap, call, lambda v, x, y: G.max_length(v, x, y, L), R=0, params=[L >= 1]))

        def call_inf(E, g):
            g.underground_length = float('inf')
            E.call(g.enforce_maximum_underground_length)
        ts.append(rule_task('unlimited length', wrap, call_inf, lambda v, x, y: []))
        ts.append(pairing_task(wrap))
        cs = [lambda ctx, w=w, h=h, wrap=wrap: conc_ug(ctx, w, h, wrap) for w, h in B.sizes(tier)]
        for w, h in ([(6, 1), (1, 6), (3, 2), (2, 3)] + ([(8, 2), (3, 7)] if tier == 'thorough' else [])):
            for n in (1, 2, 3, 4, 5, float('inf')):
                cs.append(lambda ctx, w=w, h=h, wrap=wrap, n=n: conc_len(ctx, w, h, wrap, n))
        ts.append(bound_task(f'undergrounds {wrap}', cs))
    return ts


def directed(ctx, r):
    p = model_params(r[2])
    w, h = min(p.get('W', 3), 9), min(p.get('H', 3), 9)
    for wrap in WRAPS:
        if 'prevent_bad' in r[0]:
            conc_ug(ctx, w, h, wrap)
        else:
            conc_len(ctx, w, h, wrap, min(max(p.get('L', 2), 1), 12))
            conc_len(ctx, w, h, wrap, float('inf'))
