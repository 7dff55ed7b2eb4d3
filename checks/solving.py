"""Contracts of solving and enumerating (template.BaseGrid.solve / itersolve, solver.Grid.itersolve): the real functions are
executed with a recording solver in place of the real one, for clause lists, models and sets of important variables of any
length; the loop of the enumeration is executed once for an arbitrary iteration."""
from .common import *


def world():
    """Engine in which the solvers are recorders.  Their answers are arbitrary."""
    from pyvc.ghost import Recorder
    from pyvc.interp import Engine
    from pyvc.sym import Fam, SInt, z3
    import pysat.solvers
    import factorio_sat.template as T
    I = z3.IntSort()
    E = Engine(timeout_ms=3000)
    m = z3.Function('model', I, I)
    n = z3.Int('n')

    def model(E):
        k = E.fresh_bvar('i')
        return E.new([Fam([k], z3.And(0 <= k, k < n), [(z3.BoolVal(True), [SInt(m(k))])], z3.IntVal(0), n)])

    def answer(rec, *a, **k):
        if rec._E.decide(rec._E.fresh_bool('no_answer')):
            return None
        return rec._E.decide(rec._E.fresh_bool('satisfiable'))

    def solver(E, *a, **k):
        if a[1:] or set(k) - {'name', 'bootstrap_with'} or len(a) + ('name' in k) != 1:
            from pyvc.sym import Unsupported
            raise Unsupported('solver options')
        r = Recorder(E, 'solver', solve=answer, get_model=lambda rec: model(rec._E))
        E.list_extend(E.trace, [('made', a[0] if a else k['name'], clause_copy(k.get('bootstrap_with', [])))])
        return E.new(r)

    def library(E, filename):
        class Library:
            def create_solver(self):
                r = Recorder(E, 'solver', solve=answer, get_model=lambda rec: model(rec._E))
                E.list_extend(E.trace, [('made', 'lib:' + filename, [])])
                return E.new(r)
        return Library()

    def command(E, f, args, kw):
        a = list(args) + list(kw.values())
        E.list_extend(E.trace, [('command', a[0], clause_copy(a[1]))])
        if E.decide(E.fresh_bool('satisfiable')):
            return model(E)
        return None

    def parse(E, f, args, kw):
        return ('decoded', list(args[1]))
    E.class_hooks[pysat.solvers.Solver] = solver
    E.class_hooks[T.IPASIRLibrary] = library
    E.contracts['template.run_command_solver'] = command
    E.contracts['template.BaseGrid.parse_solution'] = parse
    i, j = z3.Ints('i j')
    hyp = [n >= 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), m(i) != 0)),
           z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n, z3.Or(m(i) == m(j), m(i) == -m(j))), i == j), patterns=[z3.MultiPattern(m(i), m(j))])]
    return E, hyp, m, n


def clause_copy(c):
    return list(c)


def grid_with_clauses(E):
    from pyvc.sym import Fam, SInt, z3
    from factorio_sat.template import BaseGrid
    g = object.__new__(BaseGrid)
    k, q = E.fresh_bvar('c'), E.fresh_bvar('l')
    N, I = z3.Int('clauses'), z3.IntSort()
    size, lit = z3.Function('size', I, I), z3.Function('clause', I, I, I)
    clause = [Fam([q], z3.And(0 <= q, q < size(k)), [(z3.BoolVal(True), [SInt(lit(k, q))])], z3.IntVal(0), size(k))]
    g.clauses = [Fam([k], z3.And(0 <= k, k < N), [(z3.BoolVal(True), [clause])], z3.IntVal(0), N)]
    return g


def important_set(E, kind):
    """The caller's important variables: symbolically many positive, distinct ones, as a set or a list."""
    from pyvc.ghost import SymSet
    from pyvc.sym import Fam, SInt, z3
    I = z3.IntSort()
    s, N = z3.Function('important', I, I), z3.Int('N')
    k = E.fresh_bvar('k')
    items = [Fam([k], z3.And(0 <= k, k < N), [(z3.BoolVal(True), [SInt(s(k))])], z3.IntVal(0), N)]
    i, j = z3.Ints('i j')
    hyp = [N >= 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < N), s(i) > 0)), z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < N, 0 <= j, j < N, s(i) == s(j)), i == j), patterns=[z3.MultiPattern(s(i), s(j))])]
    return (SymSet(E, items, distinct=True) if kind == 'set' else items), hyp, s, N


KINDS = ['g3', 'lib:solver.so', 'cmd:solver -q']


def untouched(path, *objs):
    """No recorded change of these objects on the path."""
    ids = {id(o) for o in objs}
    for kind, obj, items in path.effects:
        if kind == 'append':
            if id(obj) in ids:
                return False
        elif any(id(o) in ids for _, o in obj):
            return False
    return True


def same_items(a, b):
    from pyvc.sym import same
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def prologue(kind, ev, g):
    """The solver is the one asked for and holds exactly the clauses of the grid; rest of the events."""
    if not ev or ev[0][0] != 'made' or ev[0][1] != kind:
        return None
    from pyvc.sym import Fam
    have, n = list(ev[0][2]), 1
    ev = [Fam(e.vars, e.guard, [(c, [i[2][0] for i in its]) for c, its in e.alts], e.lo, e.hi) if isinstance(e, Fam) and all(
        i[:2] == ('solver', 'add_clause') for c, its in e.alts for i in its if not isinstance(i, Fam)) else e for e in ev]
    while n < len(ev) and isinstance(ev[n], Fam):
        have.append(ev[n])
        n += 1
    if any(isinstance(e, Fam) for e in ev[n:]):
        from pyvc.sym import Unsupported
        raise Unsupported('solver called in a loop')
    while n < len(ev) and ev[n][0] == 'solver' and ev[n][1] in ('add_clauses', 'append_formula', 'add_clause'):
        a = ev[n][2][0]
        have += [a] if ev[n][1] == 'add_clause' else list(a)
        n += 1
    if not same_items(have, list(g.clauses)):
        return None
    return ev[n:]


def solve_task(kind, check=False):
    def fn(ctx):
        from pyvc.sym import z3
        from factorio_sat.template import BaseGrid
        E, hyp, m, n = world()
        E.trace = []
        g = grid_with_clauses(E)

        def run():
            for h in hyp:
                E.assume(h)
            return E.call(BaseGrid.check if check else BaseGrid.solve, (g, kind))
        paths = E.explore(run)
        ctx.functions(E)
        p = ctx.prover(f'{"check" if check else "solve"} {kind}')
        p.reachable(hyp, 'models')
        outs = set()
        for k, path in enumerate(paths):
            lab = f'{"check" if check else "solve"} {kind}: path {k}: '
            ob = lambda what, ok: ctx.obligation(lab + what, bool(ok), f'{path.outcome} {path.value!r:.200} events {path.trace!r:.800}')
            ob('the grid is not changed', untouched(path, g, g.clauses))
            if kind.startswith('cmd:'):
                ob('asks the command once, with exactly the clauses', len(path.trace) == 1 and path.trace[0][0] == 'command' and path.trace[0][1] == kind[4:] and same_items(path.trace[0][2], g.clauses))
                sat = any(z3.is_const(c) and 'satisfiable' in str(c) for c in path.conds)
                gave = True
            else:
                rest = prologue(kind, path.trace, g)
                ob('the solver holds exactly the clauses', rest is not None)
                if rest is None:
                    continue
                calls = [e[1] for e in rest if e[0] == 'solver']
                ob('asks once', calls.count('solve') == 1 and not any(c in ('add_clause', 'add_clauses') for c in calls))
                ob('the solver is released', calls.count('enter') == calls.count('exit') == 1 or calls.count('delete') == 1)
                gave = not any(z3.is_const(c) and 'no_answer' in str(c) for c in path.conds)
                sat = any(z3.is_const(c) and 'satisfiable' in str(c) for c in path.conds)
            if not gave:
                outs.add('none')
                ob('no answer is an error', path.outcome == 'raise' and isinstance(path.value, RuntimeError))
            elif sat:
                outs.add('sat')
                ob('decodes the model', path.outcome == 'normal' and (path.value is True if check else decoded(path.value, m, n)))
            else:
                outs.add('unsat')
                ob('nothing without a model', path.outcome == 'normal' and (path.value is False if check else path.value is None))
        ctx.obligation(f'{kind}: every answer', outs == ({'sat', 'unsat'} if kind.startswith('cmd:') else {'none', 'sat', 'unsat'}))
    return Task(f'proof {"check" if check else "solve"} {kind.split(":")[0]}', fn, 'proof', 120)


def decoded(v, m, n):
    """v is the decoding of the whole model."""
    from pyvc.sym import Fam, z3
    if not isinstance(v, tuple) or v[0] != 'decoded' or len(v[1]) != 1 or not isinstance(v[1][0], Fam):
        return False
    f = v[1][0]
    return f.uniform and z3.is_true(z3.simplify(f.lo == 0)) and z3.simplify(f.hi).eq(n) and z3.simplify(f.at(z3.Int('z')).t).eq(z3.simplify(m(z3.Int('z'))))


def itersolve_task(kind, given):
    def fn(ctx):
        from pyvc.sym import Fam, SInt, iterm, z3
        from factorio_sat.template import BaseGrid
        E, hyp, m, n = world()
        E.trace = []
        E.cut_while.add('template.BaseGrid.itersolve')
        g = grid_with_clauses(E)
        imp, hyp2, S, N = important_set(E, given)
        hyps = hyp + hyp2

        def run():
            for h in hyps:
                E.assume(h)
            return E.call(BaseGrid.itersolve, (g, imp, kind))
        paths = E.explore(run)
        ctx.functions(E)
        name = f'enumerate {kind.split(":")[0]} {given}'
        p = ctx.prover(name)
        p.reachable(hyps, 'models')
        K, i = z3.Ints('K i')
        true = lambda v: z3.Exists([i], z3.And(0 <= i, i < n, m(i) == v))
        want = lambda k: z3.If(true(S(k)), -S(k), S(k))
        outs = set()
        for k, path in enumerate(paths):
            lab = f'{name}: path {k}: '
            ob = lambda what, ok: ctx.obligation(lab + what, bool(ok), f'{path.outcome} {path.value!r:.200} events {path.trace!r:.800}')
            ob('the grid and the set given are not changed', untouched(path, g, g.clauses, imp, getattr(imp, 'content', imp)))
            flags = [str(c) for c in path.conds if z3.is_const(c)]
            sat, gave = any('satisfiable' in f for f in flags), not any('no_answer' in f for f in flags)
            if kind.startswith('cmd:'):
                ob('asks the command once, with exactly the clauses', [e[0] for e in path.trace if e[0] not in ('yield',)] == ['command'] and path.trace[0][1] == kind[4:] and same_items(path.trace[0][2], g.clauses))
                ys = [e[1] for e in path.trace if e[0] == 'yield']
                outs.add(sat)
                ob('its answer, if any', path.outcome == 'normal' and (len(ys) == 1 and decoded(ys[0], m, n) if sat else ys == []))
                continue
            at = next((q for q, e in enumerate(path.trace) if isinstance(e, tuple) and e[0] == 'loop'), None)
            rest = prologue(kind, path.trace[:at] if at is not None else [], g)
            ob('the solver holds exactly the clauses at the start', rest is not None and not any(e[1] not in ('enter', 'nof_vars', 'nof_clauses') for e in rest if e[0] == 'solver'))
            if at is None or rest is None:
                continue
            ob('nothing is produced before the first answer', not any(e[0] == 'yield' for e in path.trace[:at] if isinstance(e, tuple)))
            ev = [e for e in path.trace[at + 1:] if e[0] != 'again']
            calls = [e[1] if e[0] == 'solver' else e[0] for e in ev]
            core = [c for c in calls if c in ('solve', 'yield', 'add_clause', 'add_clauses', 'append_formula')]
            released = any(c in ('exit', 'delete') for c in calls)
            if not gave:
                outs.add('none')
                ob('no answer is an error', path.outcome == 'raise' and isinstance(path.value, RuntimeError) and core == ['solve'] and released)
            elif not sat:
                outs.add('unsat')
                ob('ends exactly when there is no further model', path.outcome == 'normal' and core == ['solve'] and released)
            else:
                outs.add('sat')
                ob('goes on after a model', path.outcome == 'cut')
                ob('one answer, one solution, one blocking clause', sorted(core) == ['add_clause', 'solve', 'yield'] and core[0] == 'solve' and not released)
                ys = [e[1] for e in ev if e[0] == 'yield']
                ob('produces the decoded model', len(ys) == 1 and decoded(ys[0], m, n))
                bl = [e[2][0] for e in ev if e[0] == 'solver' and e[1] == 'add_clause']
                if len(bl) != 1:
                    continue
                ps = hyps + [c for c in path.conds if not z3.is_const(c)]
                cover = []
                for f in bl[0]:
                    if not isinstance(f, Fam) or len(f.vars) != 1:
                        from pyvc.sym import Unsupported
                        raise Unsupported('blocking clause')
                    sub = [(f.vars[0], K)]
                    guard = z3.substitute(f.guard, *sub)
                    for c, its in f.alts:
                        c = z3.substitute(c, *sub)
                        for x in its:
                            x = z3.substitute(iterm(x), *sub)
                            p.goal(p.solver(ps + [guard, c]), f'path {k}: only literals of important variables that the model makes false', z3.And(0 <= K, K < N, x == want(K)))
                            cover.append(z3.And(guard, c))        # the literal is want(K): the goal above
                p.goal(p.solver([n >= 0, N >= 0, 0 <= K, K < N] + [c for c in path.conds if not z3.is_const(c)]), f'path {k}: every important variable is in the blocking clause', z3.Or(cover))
        ctx.obligation(f'{name}: every answer', outs == ({True, False} if kind.startswith('cmd:') else {'none', 'sat', 'unsat'}))
        # what the blocking clauses achieve, for models a (produced) and b (any): b satisfies the clause of a iff they differ
        B = z3.BoolSort()
        a, b = z3.Function('a', z3.IntSort(), B), z3.Function('b', z3.IntSort(), B)
        lit = z3.If(a(S(K)), -S(K), S(K))
        holds = z3.If(lit > 0, b(lit), z3.Not(b(-lit)))
        p.goal(p.solver(hyp2 + [0 <= K, K < N]), 'a literal of the blocking clause holds exactly where a model differs from the one produced', holds == (a(S(K)) != b(S(K))))
    return Task(f'proof itersolve {kind.split(":")[0]} {given}', fn, 'proof', 120)


def layout_task(wrap, colours, ignore):
    """Grid.itersolve hands on the given important variables and those of every tile."""
    def fn(ctx):
        from pyvc.ghost import SymSet
        from pyvc.gridproof import GridRun, cell_decls
        from pyvc.sym import Fam, Lit, SInt, Unsupported, z3
        calls = []

        def below(E, f, args, kw):
            bound = dict(zip(('self', 'important_variables', 'solver'), args), **kw)
            E.list_extend(E.trace, [('below', bound)])
            return ('solutions', bound)

        def build(E, W, H, mode, pool, run):
            E.trace = []
            E.ghost_sets = True
            g = sym_grid(E, W, H, mode, pool, colours=colours)
            imp, hyp2, S, N = important_set(E, 'set')
            for h in hyp2:
                E.assume(h)
            before = list(g.clauses), list(imp.content)
            r = E.call(g.itersolve, (imp,), dict(solver='minicard', ignore_colour=ignore))
            ok = same_items(before[0], g.clauses) and same_items(before[1], imp.content)
            return g, imp, r, [e for e in E.trace if isinstance(e, tuple) and e[0] == 'below'], S, N, hyp2, ok
        run = GridRun(wrap, build, contracts={'template.BaseGrid.itersolve': below})
        ctx.functions(run.E)
        name = f'layout variables {wrap} colours={colours} ignore={ignore}'
        p = ctx.prover(name)
        p.goal(p.solver(run.hyp), 'paths cover', z3.Or([q.cond for q in run.paths]) if run.paths else z3.BoolVal(False))
        for k, path in enumerate(run.paths):
            lab = f'{name}: path {k}: '
            if path.outcome != 'normal':
                ctx.obligation(lab + 'does not fail', False, repr(path.value))
                continue
            g, imp, r, trace, S, N, hyp2, ok = path.value
            ctx.obligation(lab + 'the grid and the set given are not changed', ok)
            hand = len(trace) == 1 and trace[0][0] == 'below' and trace[0][1].get('self') is g and trace[0][1].get('solver') == 'minicard'
            ctx.obligation(lab + 'enumerates the grid itself once with the solver asked for', hand and (isinstance(r, tuple) and r[0] == 'solutions' or isinstance(r, list)))
            if not hand:
                continue
            got = trace[0][1].get('important_variables')
            content = got.content if isinstance(got, SymSet) else list(got)
            hyps = run.hyp + path.conds + hyp2
            X, Y, K = z3.Ints('X Y K')
            t = g.tiles.at(SInt(Y), SInt(X))
            want = list(t.input_direction) + list(t.output_direction) + [t.is_splitter]
            if colours is not None and not ignore:
                want += list(t.colour) + list(t.colour_ux) + list(t.colour_uy)
            inr = z3.And(0 <= X, X < run.W, 0 <= Y, Y < run.H)
            cover = {q: [] for q in range(len(want))}
            given = []
            for guard, vs, item in flatten(content):
                if isinstance(item, SInt):
                    if len(vs) != 1:
                        raise Unsupported('given variables')
                    q = [(vs[0], K)]
                    given.append(z3.And(z3.substitute(guard, *q), z3.substitute(item.t, *q) == S(K)))
                    p.goal(p.solver(hyps + [z3.substitute(guard, *q)]), f'path {k}: only the variables given', z3.And(0 <= K, K < N, z3.substitute(item.t, *q) == S(K)))
                    continue
                if not isinstance(item, Lit):
                    raise Unsupported('important variable')
                if not z3.is_app(item.t) or item.t.num_args() != 2:
                    ctx.obligation(lab + f'only variables of tiles ({item.t})', False)
                    continue
                a, b = item.t.arg(0), item.t.arg(1)
                if not (z3.is_const(a) and z3.is_const(b)):
                    raise Unsupported('important variable')
                q = [(a, Y), (b, X)]
                term, guard = z3.substitute(item.t, *q), z3.substitute(guard, *q)
                hit = [n for n, w in enumerate(want) if w.t.eq(term)]
                ctx.obligation(lab + f'only variables of the layout ({term.decl().name()})', bool(hit))
                p.goal(p.solver(hyps + [guard]), f'path {k}: only tiles of the grid ({term.decl().name()})', inr)
                for n in hit:
                    cover[n].append(guard)
            p.goal(p.solver(hyps + [0 <= K, K < N]), f'path {k}: every variable given', z3.Or(given) if given else z3.BoolVal(False))
            for n, w in enumerate(want):
                p.goal(p.solver(hyps + [inr]), f'path {k}: {w.t.decl().name()} of every tile', z3.Or(cover[n]) if cover[n] else z3.BoolVal(False))
    return Task(f'proof layout variables {wrap} {colours} {ignore}', fn, 'proof', 120)


def flatten(items, vs=(), guard=None):
    """(guard, variables, item) of every item, families expanded."""
    from pyvc.sym import Fam, z3
    guard = z3.BoolVal(True) if guard is None else guard
    for i in items:
        if isinstance(i, Fam):
            for c, its in i.alts:
                yield from flatten(its, tuple(vs) + tuple(i.vars), z3.And(guard, i.guard, c))
        else:
            yield guard, vs, i


def decode_task():
    """parse_solution decodes every cell under the assignment of the model (variables it does not mention are false)."""
    def fn(ctx):
        import collections
        from pyvc.ghost import SymMap
        from pyvc.sym import Fam, SInt, SymArray2D, Unsupported, bterm, z3
        from factorio_sat.template import BaseGrid
        E, hyp, m, n = world()
        E.trace = []
        del E.contracts['template.BaseGrid.parse_solution']
        E.contracts['template.BaseGrid.parse_cell'] = lambda E, f, args, kw: ('cell',) + tuple(args[1:]) + tuple(kw.values())

        def default(E, kind=None, items=None):
            if kind is not bool or not isinstance(items, SymMap):
                raise Unsupported('defaultdict')
            items.missing = False
            return items
        E.class_hooks[collections.defaultdict] = default
        W, H, y, x, i, k = z3.Ints('W H ty tx i k')
        tile = z3.Function('tile', z3.IntSort(), z3.IntSort(), z3.IntSort())
        g = object.__new__(BaseGrid)
        g.tiles = SymArray2D(SInt(H), SInt(W), y, x, SInt(tile(y, x)))
        hyps = hyp + [W >= 0, H >= 0]

        def run():
            for h in hyps:
                E.assume(h)
            model = E.new([Fam([k], z3.And(0 <= k, k < n), [(z3.BoolVal(True), [SInt(m(k))])], z3.IntVal(0), n)])
            r = E.call(BaseGrid.parse_solution, (g, model))
            if not isinstance(r, SymArray2D):
                raise Unsupported('result')
            Y, X, V = z3.Ints('Y X V')
            cell = r.at(SInt(Y), SInt(X))
            if not isinstance(cell, tuple) or cell[0] != 'cell':
                raise Unsupported('result')
            return r, cell, bterm(E.getitem(cell[1], SInt(V)))
        paths = E.explore(run)
        ctx.functions(E)
        p = ctx.prover('decode')
        Y, X, V = z3.Ints('Y X V')
        p.goal(p.solver(hyps), 'paths cover', z3.Or([q.cond for q in paths]) if paths else z3.BoolVal(False))
        for q, path in enumerate(paths):
            if path.outcome != 'normal':
                p.goal(p.solver(hyps + path.conds), f'path {q}: does not fail ({path.value!r})', z3.BoolVal(False))
                continue
            r, cell, value = path.value
            s = p.solver(hyps + path.conds + [V > 0])
            p.goal(s, f'path {q}: shape', z3.And(r.shape[0].t == H, r.shape[1].t == W))
            p.goal(s, f'path {q}: the cell itself', cell[2].t == tile(Y, X))
            p.goal(s, f'path {q}: variables are true exactly when the model says so', value == z3.Exists([i], z3.And(0 <= i, i < n, m(i) == V)))
    return Task('proof parse_solution', fn, 'proof', 120)
