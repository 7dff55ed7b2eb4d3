"""Contracts of cardinality.py for lists of any length."""
from . import sym
from .numproof import Run, formula, aux_decls, bin_length_contract, within
from .numlemmas import Num
from .sym import Fam, Lit, SInt, Unsupported, iterm, pow2_f, z3

n = z3.Int('n')
A = Num('lit')


def lits(width=n):
    v = z3.Int('ix_lit')
    return [Fam([v], z3.And(0 <= v, v < width), [(sym.TRUE, [Lit(A.bit(v))])], z3.IntVal(0), width)]


_k = [0]


def pieces(xs):
    """(index constant or None, guard, formula) per piece of a literal list."""
    out = []
    for e in xs:
        _k[0] += 1
        if isinstance(e, Fam):
            if not e.uniform:
                raise Unsupported('literal list of unknown shape')
            v = z3.Int(f'pc{_k[0]}')
            out.append((v, z3.substitute(e.guard, (e.vars[0], v)), z3.substitute(e.alts[0][1][0].t, (e.vars[0], v))))
        elif isinstance(e, Lit):
            out.append((None, z3.BoolVal(True), e.t))
        else:
            raise Unsupported('literal list of unknown shape')
    return out


def amo(xs):
    """At most one literal of the list is true, as positions."""
    ps = pieces(xs)
    conj = []
    for a, (v, g, f) in enumerate(ps):
        if v is not None:
            w = z3.Int(f'{v}w')
            conj.append(z3.ForAll([v, w], z3.Implies(z3.And(g, z3.substitute(g, (v, w)), v < w), z3.Not(z3.And(f, z3.substitute(f, (v, w)))))))
        for (v2, g2, f2) in ps[:a]:
            vs = [x for x in (v, v2) if x is not None]
            body = z3.Implies(z3.And(g, g2), z3.Not(z3.And(f, f2)))
            conj.append(z3.ForAll(vs, body) if vs else body)
    return z3.And(*conj) if conj else z3.BoolVal(True)


def some(xs):
    out = []
    for v, g, f in pieces(xs):
        out.append(z3.Exists([v], z3.And(g, f)) if v is not None else f)
    return z3.Or(*out) if out else z3.BoolVal(False)


def one(xs):
    return z3.And(amo(xs), some(xs))


def decide(ctx, run, post, witness):
    """clauses <=> post, the auxiliary literals being chosen by witness in the second direction."""
    for m, h, ss in run.normal():
        F = formula(ss)
        run.p.goal(run.p.solver(h + [F]), f'path {m}: clauses give the count', post)
        G = witness(F, ss)
        run.p.goal(run.p.solver(h + [post]), f'path {m}: the count satisfies the clauses', G)


def quadratic(ctx):
    import factorio_sat.cardinality as C
    run = Run(ctx, 'quadratic_amo', lambda E, al: E.call(C.quadratic_amo, (lits(),)), [n >= 0])
    decide(ctx, run, amo(lits()), lambda F, ss: F)
    run = Run(ctx, 'quadratic_one', lambda E, al: E.call(C.quadratic_one, (lits(),)), [n >= 0])
    decide(ctx, run, one(lits()), lambda F, ss: F)


def logarithmic(ctx):
    import factorio_sat.cardinality as C
    LOC, W = z3.Int('LOC'), z3.Function('binlen', z3.IntSort(), z3.IntSort())(n)
    checks = []

    def set_number(E, f, args, kw):
        v, loc = args
        if len(loc) != 1 or not isinstance(loc[0], Fam) or not loc[0].uniform or not loc[0].alts[0][1][0].t.decl().name().startswith('aux@'):
            if not loc:
                checks.append((list(E.solver.assertions()), iterm(v) == 0))
                return E.new([])
            raise Unsupported('location literals')
        # one number shared by all literals: the value of the location literals
        checks.append((list(E.solver.assertions()), z3.And(0 <= iterm(v), iterm(v) < pow2_f(loc[0].length()))))
        return E.new([[Lit(LOC == iterm(v))]])
    for fn, post in ((C.logarithmic_amo, amo), (C.logarithmic_one, one)):
        checks.clear()
        run = Run(ctx, fn.__name__, lambda E, al: E.call(fn, (lits(), al)), [n >= 1], contracts={'util.set_number': set_number, 'util.bin_length': bin_length_contract})
        small = [z3.Implies(n == 1, W == 0), pow2_f(0) == 1, z3.Implies(n >= 2, z3.And(W >= 1, pow2_f(W) >= n))]
        for hy, c in checks:
            run.p.goal(run.p.solver(hy + small), f'{fn.__name__}: the index fits in the location literals', c)
        # the location can be any number of the width: choose the position of the true literal, or 0
        J = z3.Int('J')
        pos = [z3.Or(z3.And(0 <= J, J < n, A.bit(J)), z3.And(J == 0, z3.Not(some(lits()))))]
        for m, h, ss in run.normal():
            F = formula(ss)
            run.p.goal(run.p.solver(h + [F]), f'path {m}: clauses give the count', post(lits()))
            G = z3.substitute(F, (LOC, J))
            run.p.goal(run.p.solver(h + small + [post(lits())] + pos), f'path {m}: the count satisfies the clauses', z3.And(G, 0 <= J, J < pow2_f(W)))


def heule(ctx):
    import factorio_sat.cardinality as C
    cut = z3.Int('cutoff')
    top, calls = [], []

    def rec(E, f, args, kw):
        if not top:
            top.append(1)
            return E.run_body(f, args, kw)
        xs = args[0]
        d = dict(zip(('literals', 'allocator', 'recursive_cutoff'), args), **kw)
        c = d.get('recursive_cutoff', 3)
        k = z3.Sum([e.length() if isinstance(e, Fam) else z3.IntVal(1) for e in xs])
        calls.append((list(E.solver.assertions()), z3.And(iterm(c) >= 3, k < n)))
        return E.new([[Lit(amo(xs))]])

    def build(fn):
        def go(E, al):
            top.clear()
            return E.call(fn, (lits(), al, SInt(cut)))
        return go
    for fn, post in ((C.heule_amo, amo), (C.heule_one, one)):
        calls.clear()
        run = Run(ctx, fn.__name__, build(fn), [n >= 0, cut >= 3], contracts={'cardinality.heule_amo': rec, 'cardinality.quadratic_amo': lambda E, f, a, k: E.new([[Lit(amo(a[0]))]])})
        for hy, c in calls:
            run.p.goal(run.p.solver(hy), f'{fn.__name__}: recursion on a shorter list with a legal cutoff', c)
        for m, h, ss in run.normal():
            F = formula(ss)
            run.p.goal(run.p.solver(h + [F]), f'path {m}: clauses give the count', post(lits()))
            aux = {}
            stack = [s.body() for s in ss]
            while stack:
                e = stack.pop()
                if z3.is_quantifier(e):
                    stack.append(e.body())
                    continue
                if z3.is_const(e) and e.decl().name().startswith('aux@'):
                    aux[e.decl().name()] = e
                stack.extend(e.children())
            if len(aux) > 1:
                raise Unsupported('auxiliary literals')
            # the auxiliary says which part holds the true literal
            K = z3.Int('K')
            goals = []
            for pol in (True, False):
                B = z3.Bool('inA')
                if not aux:
                    goals.append(F)
                    break
                goals.append(z3.substitute(F, (list(aux.values())[0], z3.BoolVal(pol))))
            run.p.goal(run.p.solver(h + [post(lits())]), f'path {m}: the count satisfies the clauses', z3.Or(goals))
    run = Run(ctx, 'heule_amo cutoff', lambda E, al: (top.append(1), top.clear(), E.call(C.heule_amo, (lits(), al, SInt(cut))))[2], [n >= 0, cut < 3],
              contracts={'cardinality.heule_amo': rec})
    ctx.obligation('heule_amo refuses a cutoff below 3', all(q.outcome == 'raise' for q in run.paths))


CONTRACTS = dict(quadratic=quadratic, logarithmic=logarithmic, heule=heule)
