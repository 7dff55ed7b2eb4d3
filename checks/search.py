"""Contracts of calculate_optimal: the record of results, its tidying and the two ways of choosing the next size, for records
of any number of entries, networks and sizes of any size."""
from .common import *
from .solving import same_items, untouched


def I():
    from pyvc.sym import z3
    return z3.IntSort()


class Record:
    """A dictionary from sizes (triples) to bool.  One with `entries` (count, a, b, c, value) lists its entries by number; keys
    are then pairwise distinct."""

    def __init__(self, has, val, entries=None):
        self.has, self.val, self.entries = has, val, entries

    def items(self):
        from pyvc.sym import Fam, SBool, SInt, Unsupported, z3
        if self.entries is None:
            raise Unsupported('items of a changed record')
        n, a, b, c, e = self.entries
        k = ENGINE().fresh_bvar('entry')
        return [Fam([k], z3.And(0 <= k, k < n), [(z3.BoolVal(True), [((SInt(a(k)), SInt(b(k)), SInt(c(k))), SBool(e(k)))])], z3.IntVal(0), n)]

    def __pyvc_items__(self, E):
        from pyvc.sym import Fam
        return [Fam(f.vars, f.guard, [(g, [its[0][0]]) for g, its in f.alts], f.lo, f.hi) for f in self.items()]
    items.__pyvc_native__ = True

    def keys(self):
        return self.__pyvc_items__(None)
    keys.__pyvc_native__ = True

    def copy(self):
        return ENGINE().new(Record(self.has, self.val, self.entries))
    copy.__pyvc_native__ = True

    def __getattr__(self, name):
        from pyvc.sym import Unsupported
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'record.{name}')

    def _change(self, E, has, val):
        old = self.has, self.val, self.entries

        def undo():
            self.has, self.val, self.entries = old
        E.mutate(self, undo)
        self.has, self.val, self.entries = has, val, None

    def __pyvc_delitem__(self, E, key):
        from pyvc.sym import z3
        k = terms(key)
        if not E.decide(self.has(*k)):
            raise KeyError(key)
        has = self.has
        self._change(E, lambda *z: z3.And(has(*z), z3.Not(z3.And([x == y for x, y in zip(z, k)]))), self.val)

    def __pyvc_setitem__(self, E, key, value):
        from pyvc.sym import bterm, z3
        k, v = terms(key), bterm(value)
        has, val = self.has, self.val
        at = lambda z: z3.And([x == y for x, y in zip(z, k)])
        self._change(E, lambda *z: z3.Or(has(*z), at(z)), lambda *z: z3.If(at(z), v, val(*z)))

    def __pyvc_contains__(self, E, key):
        from pyvc.sym import mkbool
        return mkbool(self.has(*terms(key)))

    def __pyvc_getitem__(self, E, key):
        from pyvc.sym import mkbool
        k = terms(key)
        if not E.decide(self.has(*k)):
            raise KeyError(key)
        return mkbool(self.val(*k))


def ENGINE():
    from pyvc import sym
    return sym.ENGINE


def terms(key):
    from pyvc.sym import Unsupported, iterm
    if not isinstance(key, tuple) or len(key) != 3:
        raise Unsupported('size')
    return [iterm(x) for x in key]


def leq3(a, b):
    from pyvc.sym import z3
    return z3.And([x <= y for x, y in zip(a, b)])


def possible(has, val):
    from pyvc.sym import z3
    p = z3.Ints('p q r')
    return lambda z: z3.Exists(p, z3.And(has(*p), val(*p), leq3(p, z)))


def impossible(has, val):
    from pyvc.sym import z3
    p = z3.Ints('p q r')
    return lambda z: z3.Exists(p, z3.And(has(*p), z3.Not(val(*p)), leq3(z, p)))


def consistent(has, val):
    """No recorded solution fits in a size recorded as impossible."""
    from pyvc.sym import z3
    p, o = z3.Ints('p1 q1 r1'), z3.Ints('p2 q2 r2')
    return z3.ForAll(p + o, z3.Not(z3.And(has(*p), val(*p), has(*o), z3.Not(val(*o)), leq3(p, o))), patterns=[z3.MultiPattern(has(*p), has(*o))])


def store(E, record, solutions=None):
    from factorio_sat.calculate_optimal import NetworkSolutionStore
    s = object.__new__(NetworkSolutionStore)
    s.network, s.network_name = Network(), 'net'
    s.exist = record
    s.solutions = solutions
    return s


class Network:
    def __pyvc_len__(self, E):
        from pyvc.sym import SInt, z3
        return SInt(z3.Int('nodes'))

    def __getattr__(self, name):
        from pyvc.sym import Unsupported
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'network.{name}')


def engine():
    from pyvc.interp import Engine
    E = Engine(timeout_ms=4000)
    E.trace = []
    return E


def size(*names):
    from pyvc.sym import SInt, z3
    return tuple(SInt(z3.Int(n)) for n in names)


def answer_task():
    """does_balancer_exist: exactly what the record implies."""
    def fn(ctx):
        from factorio_sat.calculate_optimal import NetworkSolutionStore
        from pyvc.sym import Unsupported, z3
        E = engine()
        n = z3.Int('n')
        a, b, c = (z3.Function(f'key{i}', I(), I()) for i in range(3))
        e = z3.Function('value', I(), z3.BoolSort())
        i, j = z3.Ints('i j')
        inr = lambda x: z3.And(0 <= x, x < n)
        key = lambda x: (a(x), b(x), c(x))
        S = size('U', 'W', 'H')
        T = terms(S)
        hyp = [n >= 0, z3.ForAll([i, j], z3.Implies(z3.And(inr(i), inr(j), e(i), z3.Not(e(j))), z3.Not(leq3(key(i), key(j)))), patterns=[z3.MultiPattern(a(i), a(j))])]

        def run():
            for h in hyp:
                E.assume(h)
            r = E.new(Record(None, None, (n, a, b, c, e)))
            s = store(E, r)
            v = E.call(NetworkSolutionStore.does_balancer_exist, (s, S))
            return v, s, r
        paths = E.explore(run)
        ctx.functions(E)
        p = ctx.prover('does_balancer_exist')
        p.reachable(hyp, 'records')
        poss = z3.Exists([i], z3.And(inr(i), e(i), leq3(key(i), T)))
        imp = z3.Exists([i], z3.And(inr(i), z3.Not(e(i)), leq3(T, key(i))))
        for k, path in enumerate(paths):
            s = p.solver(hyp + path.assumed + path.conds)
            if path.outcome != 'normal':
                p.goal(s, f'path {k}: does not fail ({path.value!r})', z3.BoolVal(False))
                continue
            v, st, r = path.value
            ctx.obligation(f'does_balancer_exist: path {k}: the record is not changed', untouched(path, st, r))
            from pyvc.sym import SBool
            if isinstance(v, SBool):
                p.goal(s, f'path {k}: an answer only from the record', z3.If(v.t, poss, imp))
                p.goal(s, f'path {k}: the answer of the record', z3.And(z3.Implies(poss, v.t), z3.Implies(imp, z3.Not(v.t))))
            elif v is True:
                p.goal(s, f'path {k}: possible only where a solution fits', poss)
            elif v is False:
                p.goal(s, f'path {k}: impossible only where the record says so', imp)
                p.goal(s, f'path {k}: no solution fits', z3.Not(poss))
            elif v is None:
                p.goal(s, f'path {k}: no recorded solution fits', z3.Not(poss))
                p.goal(s, f'path {k}: not recorded as impossible', z3.Not(imp))
            else:
                raise Unsupported('answer')
    return Task('proof does_balancer_exist', fn, 'proof', 120)


def clean_task():
    """clean: after any number of entries every answer is that of the record before; solutions stay."""
    def fn(ctx):
        from factorio_sat.calculate_optimal import NetworkSolutionStore
        from pyvc.sym import Unsupported, bterm, z3
        E = engine()
        q = 'calculate_optimal.NetworkSolutionStore.clean'
        E.cut_for.add(q)
        B = z3.BoolSort()
        has0, val0, has, done = (z3.Function(x, I(), I(), I(), B) for x in ('has0', 'val0', 'has', 'done'))
        n = z3.Int('n')
        a, b, c = (z3.Function(f'key{i}', I(), I()) for i in range(3))
        ev = z3.Function('value', I(), B)
        i = z3.Int('i')
        z = z3.Ints('z0 z1 z2')
        hyp0 = [n >= 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(has0(a(i), b(i), c(i)), val0(a(i), b(i), c(i)) == ev(i))), patterns=[a(i)]), consistent(has0, val0)]
        P0, M0 = possible(has0, val0), impossible(has0, val0)
        P, M = possible(has, val0), impossible(has, val0)
        # invariant: a part of the record before, with everything not yet looked at, and the same answers
        inv = [z3.ForAll(z, z3.Implies(has(*z), has0(*z)), patterns=[has(*z)]), z3.ForAll(z, z3.Implies(z3.And(has0(*z), z3.Not(done(*z))), has(*z)), patterns=[has0(*z)])]

        def answers(E, f, args, kw):
            r, t = args[0].exist, terms(args[1])
            if E.decide(possible(r.has, r.val)(t)):
                return True
            if E.decide(impossible(r.has, r.val)(t)):
                return False
            return None
        E.contracts['calculate_optimal.NetworkSolutionStore.does_balancer_exist'] = answers
        state = {}

        def invariant(E, frame, item):
            from pyvc.sym import Fam, iterm
            r = state['record']
            r._change(E, lambda *x: has(*x), lambda *x: val0(*x))
            for h in inv:
                E.assume(h)
            if item is not None:
                t = terms(item[0] if isinstance(item, tuple) and isinstance(item[0], tuple) else item)
                E.assume(z3.Not(done(*t)))
            state['base'] = len(E.trail)
            return {}
        E.invariants[q, 'for'] = invariant

        def run():
            for h in hyp0:
                E.assume(h)
            r = E.new(Record(lambda *x: has0(*x), lambda *x: val0(*x), (n, a, b, c, ev)))
            E.ghosts.add(id(r))
            state['record'] = r
            sol = ('the solutions',)
            s = store(E, r, sol)
            from pyvc.interp import CutSig
            cut = False
            try:
                E.call(NetworkSolutionStore.clean, (s,))
            except CutSig:
                cut = True
            return cut, r.has, r.val, s.exist is r, s.solutions is sol
        paths = E.explore(run)
        ctx.functions(E)
        p = ctx.prover('clean')
        p.reachable(hyp0 + inv, 'records')
        Z = z3.Ints('Z0 Z1 Z2')
        same = lambda h, v: [possible(h, v)(Z) == P(Z), impossible(h, v)(Z) == M(Z)]
        seen = set()
        for k, path in enumerate(paths):
            if path.outcome != 'normal':
                p.goal(p.solver(hyp0 + inv + path.assumed + path.conds), f'path {k}: does not fail ({path.value!r})', z3.BoolVal(False))
                continue
            cut, h, v, same_record, same_sol = path.value
            seen.add(cut)
            ctx.obligation(f'clean: path {k}: solutions and record stay the same objects', same_record and same_sol)
            s = p.solver(hyp0 + inv + path.assumed + path.conds)
            item = [z3.Function(f'key{m}', I(), I())(z3.Int('item')) for m in range(3)]
            p.goal(s, f'path {k}: nothing is added', z3.Implies(h(*Z), z3.And(has0(*Z), v(*Z) == val0(*Z))))
            if cut:
                s2 = s
                p.goal(s2, f'path {k}: only this entry may go', z3.Implies(z3.And(has0(*Z), z3.Not(done(*Z)), z3.Or([x != y for x, y in zip(Z, item)])), h(*Z)))
                p.goal(s2, f'path {k}: possible sizes stay possible', z3.Implies(P(Z), possible(h, v)(Z)))
                p.goal(s2, f'path {k}: impossible sizes stay impossible', z3.Implies(M(Z), impossible(h, v)(Z)))
                p.goal(s2, f'path {k}: no further size becomes possible', z3.Implies(possible(h, v)(Z), P(Z)))
                p.goal(s2, f'path {k}: no further size becomes impossible', z3.Implies(impossible(h, v)(Z), M(Z)))
            else:
                for what, g in zip(('possible', 'impossible'), same(h, v)):
                    p.goal(s, f'path {k}: afterwards nothing changes ({what})', g)
        ctx.obligation('clean: goes through the entries and ends', seen == {True, False}, repr(seen))
    return Task('proof clean', fn, 'proof', 240)


def search_world(area):
    from pyvc.sym import Fam, SInt, mul_f, z3
    E = engine()
    B = z3.BoolSort()
    poss, imp = (z3.Function(x, I(), I(), I(), B) for x in ('possible', 'impossible'))
    m1, m2, N = z3.Ints('inputs outputs nodes')

    def answers(E, f, args, kw):
        t = terms(args[1])
        if E.decide(poss(*t)):
            return True
        if E.decide(imp(*t)):
            return False
        return None
    E.contracts['calculate_optimal.NetworkSolutionStore.does_balancer_exist'] = answers
    E.contracts['network.get_input_output_colours'] = lambda E, f, args, kw: ((SInt(z3.Int('incolour')), SInt(m1)), (SInt(z3.Int('outcolour')), SInt(m2)))
    A, C, cnt = z3.Function('factor', I(), I(), I()), z3.Function('cofactor', I(), I(), I()), z3.Function('factors', I(), I())

    def factors(E, f, args, kw):
        v = args[0].t if hasattr(args[0], 't') else z3.IntVal(args[0])
        k, i = E.fresh_bvar('f'), z3.Int('i')
        n = cnt(v)
        E.assume(n >= 0)
        E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(A(v, i) >= 1, C(v, i) >= 1, mul_f(A(v, i), C(v, i)) == v)), patterns=[A(v, i)]))
        return E.new([Fam([k], z3.And(0 <= k, k < n), [(z3.BoolVal(True), [(SInt(A(v, k)), SInt(C(v, k)))])], z3.IntVal(0), n)])
    E.contracts['calculate_optimal.factors'] = factors
    hyp = [m1 >= 1, m2 >= 1, N >= 0]
    return E, poss, imp, z3.If(m1 >= m2, m1, m2), N, (A, C, cnt), hyp


def conjuncts(ts):
    from pyvc.sym import z3
    for t in ts:
        if z3.is_and(t):
            yield from conjuncts(t.children())
        else:
            yield t


def next_task(kind):
    def fn(ctx):
        from factorio_sat import calculate_optimal as C
        from pyvc.sym import SInt, Unsupported, iterm, mul_f, z3
        E, poss, imp, m, N, (A, B, cnt), hyp = search_world(kind == 'area')
        cls = C.LengthObjective if kind == 'length' else C.AreaObjective
        q = f'calculate_optimal.{cls.__name__}.next_size'
        E.cut_while.add(q)
        U = z3.Int('U')
        X = z3.Int('cost')            # width (length) or area at the start of the iteration
        W, H = z3.Ints('W H')
        start = {}

        def candidate(w, h):
            if kind == 'length':
                return z3.And(h == m, w >= 3, mul_f(w - 2, m) >= 2 * N)
            return z3.And(w >= 3, m <= h, h <= 2 * m, mul_f(w - 2, h) >= 2 * N)
        cost = (lambda w, h: w) if kind == 'length' else (lambda w, h: mul_f(w - 2, h))

        def invariant(E, frame):
            entry = {a: b for a, b in E.trace[-1][1].items() if isinstance(b, (int, SInt)) and not isinstance(b, bool)}
            if len(entry) != 1:
                raise Unsupported('state of the search')
            (name, v), = entry.items()
            E.list_extend(E.trace, [('start', name, iterm(v))])
            E.assume(X >= (3 if kind == 'length' else m))
            # the state may count from another number than the width does
            shift = 3 - v if kind == 'length' and isinstance(v, int) else 0
            start['shift'] = shift
            return {name: SInt(X - shift)}
        E.invariants[q, 'while'] = invariant

        def run():
            for h in hyp:
                E.assume(h)
            return E.call(cls.next_size, (object.__new__(cls), store(E, Record(None, None)), SInt(U)))
        paths = E.explore(run)
        ctx.functions(E)
        p = ctx.prover(f'next size {kind}')
        p.reachable(hyp, 'networks')
        # facts about products (of any integers): small products of positive numbers, and the factors of the area
        facts = [z3.Implies(z3.And(W - 2 >= 1, H >= 1), mul_f(W - 2, H) >= H)]
        K = z3.Int('K')
        if kind == 'area':
            V = mul_f(W - 2, H)
            facts += [z3.Implies(z3.And(W - 2 >= 1, H >= 1), z3.And(0 <= K, K < cnt(V), A(V, K) == W - 2, B(V, K) == H))]
        # everything cheaper is known to be impossible (instance for W, H)
        inv = [X >= (3 if kind == 'length' else m), z3.Implies(z3.And(candidate(W, H), cost(W, H) < X), imp(U, W, H))]
        seen = set()
        for k, path in enumerate(paths):
            s = p.solver(hyp + inv + facts + path.assumed + path.conds)
            first = [e for e in path.trace if isinstance(e, tuple) and e[0] == 'start']
            if len(first) != 1:
                raise Unsupported('state of the search')
            first = [(e[0], e[1], e[2] + start['shift']) for e in first]
            p.goal(p.solver(hyp + facts), f'path {k}: nothing is cheaper than the start', z3.And(first[0][2] >= (3 if kind == 'length' else m), z3.Not(z3.And(candidate(W, H), cost(W, H) < first[0][2]))))
            if path.outcome == 'cut':
                seen.add('cut')
                again = [e for e in path.trace if isinstance(e, tuple) and e[0] == 'again'][-1][1]
                x2 = iterm(again[first[0][1]]) + start['shift']
                p.goal(s, f'path {k}: goes on upwards', x2 > X)
                p.goal(p.solver(hyp + inv + facts + path.assumed + path.conds + [candidate(W, H), cost(W, H) < x2]), f'path {k}: goes on only when everything so far is impossible', imp(U, W, H))
            elif path.outcome != 'normal':
                p.goal(s, f'path {k}: does not fail ({path.value!r})', z3.BoolVal(False))
            elif path.value is None:
                seen.add('stop')
                hit = [c for c in conjuncts(path.conds) if z3.is_app(c) and c.decl().eq(poss)]
                ctx.obligation(f'next size {kind}: path {k}: stops only at a size that is possible', bool(hit), repr(path.conds)[:400])
                p.goal(s, f'path {k}: at the size reached', z3.Or([z3.And(poss(*c.children()), c.arg(0) == U, cost(c.arg(1), c.arg(2)) <= X,
                                                                  candidate(c.arg(1), c.arg(2)) if kind == 'area' else c.arg(2) == m) for c in hit]))
                p.goal(s, f'path {k}: stops only when every cheaper size is impossible', z3.Implies(z3.And(candidate(W, H), cost(W, H) < X), imp(U, W, H)))
            else:
                seen.add('size')
                t = terms(path.value)
                p.goal(s, f'path {k}: the underground limit', t[0] == U)
                p.goal(s, f'path {k}: large enough for the network', candidate(t[1], t[2]))
                p.goal(s, f'path {k}: still open', z3.And(z3.Not(poss(*t)), z3.Not(imp(*t))))
                p.goal(s, f'path {k}: nothing open is cheaper', z3.Implies(z3.And(candidate(W, H), cost(W, H) < cost(t[1], t[2])), imp(U, W, H)))
        ctx.obligation(f'next size {kind}: can stop, go on and give a size', seen == {'cut', 'stop', 'size'}, repr(seen))
    return Task(f'proof next size {kind}', fn, 'proof', 240)


class Root:
    """math.sqrt of a nonnegative integer; r is its integer part."""

    def __init__(self, r):
        self.r = r

    def __pyvc_int__(self, E):
        from pyvc.sym import SInt
        return SInt(self.r)


def divisors(*ts):
    from pyvc import sym
    from pyvc.sym import z3
    out, seen = [], set()

    def visit(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().name() in (sym.mod_f.name(), sym.div_f.name()) and not any(t.arg(1).eq(d) for d in out):
            out.append(t.arg(1))
        for c in t.children():
            visit(c)
    for t in ts:
        visit(t)
    return out


def factors_task():
    """factors: every pair of positive numbers with this product, once."""
    def fn(ctx):
        import math
        from factorio_sat import calculate_optimal as C
        from pyvc.ghost import leaves
        from pyvc.sym import SInt, Unsupported, iterm, z3
        from pyvc import sym
        E = engine()
        V, R = z3.Ints('value root')

        def sqrt(E, x):
            if not isinstance(x, SInt) or not x.t.eq(V):
                raise Unsupported('square root')
            return Root(R)
        E.intercepts[math.sqrt] = sqrt
        E.intercepts[math.isqrt] = lambda E, x: SInt(sqrt(E, x).r)
        E.intercepts[math.floor] = lambda E, x: SInt(x.r) if isinstance(x, Root) else x if isinstance(x, SInt) else math.floor(x)
        hyp = [V >= 1, R >= 1, R * R <= V, V < (R + 1) * (R + 1)]

        def run():
            for h in (V >= 1, R >= 1, R <= V):
                E.assume(h)
            return list(E.to_items(E.call(C.factors, (SInt(V),))))
        paths = E.explore(run)
        ctx.functions(E)
        p = ctx.prover('factors')
        W, H, Q = z3.Ints('W H Q')
        for k, path in enumerate(paths):
            if path.outcome != 'normal':
                p.goal(p.solver(hyp + path.assumed + path.conds), f'path {k}: does not fail ({path.value!r})', z3.BoolVal(False))
                continue
            ps = []
            for vs, g, it in leaves(path.value):
                if len(vs) != 1 or not isinstance(it, tuple) or len(it) != 2:
                    raise Unsupported('factors')
                x = z3.Int('x')
                sub = [(vs[0], x)]
                ps.append((x, z3.substitute(g, *sub), z3.substitute(iterm(it[0]), *sub), z3.substitute(iterm(it[1]), *sub)))
            # division: value = d * (value // d) + value % d
            law = lambda d: z3.Implies(d >= 1, z3.And(V == d * sym.div_f(V, d) + sym.mod_f(V, d), 0 <= sym.mod_f(V, d), sym.mod_f(V, d) < d))
            for n, (x, g, a, b) in enumerate(ps):
                s = p.solver(hyp + path.assumed + path.conds + [g] + [law(d) for d in divisors(g, a, b)])
                p.goal(s, f'path {k}: pair {n} is positive and has the product', z3.And(a >= 1, b >= 1, a * b == V))
            base = hyp + path.assumed + path.conds + [W >= 1, H >= 1, W * H == V]
            # every pair: the smaller number is at most the root, and divides without rest
            p.goal(p.solver(base), f'path {k}: one number of a pair is at most the root', z3.Or(W <= R, H <= R))
            for name, x, other in (('first', W, H), ('second', H, W)):
                facts = [sym.mod_f(V, x) == 0, sym.div_f(V, x) == other, 1 <= x, x <= R]
                p.goal(p.solver([W >= 1, H >= 1, W * H == V, law(x)]), f'path {k}: {name} divides the value', z3.And(sym.mod_f(V, x) == 0, sym.div_f(V, x) == other))
                cover = [z3.And(z3.substitute(g, (q, at)), z3.substitute(a, (q, at)) == W, z3.substitute(b, (q, at)) == H) for q, g, a, b in ps for at in (x, R - x, x - 1)]
                p.goal(p.solver([V >= 1, W >= 1, H >= 1, R >= 1] + facts), f'path {k}: every pair is there ({name} at most the root)', z3.Or(cover))
            # no pair twice
            Y = z3.Int('y')
            for n, (x, g, a, b) in enumerate(ps):
                for n2, (x2, g2, a2, b2) in enumerate(ps[:n + 1]):
                    g2, a2, b2 = (z3.substitute(t, (x2, Y)) for t in (g2, a2, b2))
                    h = hyp + [g, g2, a == a2, b == b2] + [law(d) for d in divisors(g, a, b, g2, a2, b2)] + ([x != Y] if n == n2 else [])
                    p.goal(p.solver(h), f'path {k}: no pair twice ({n}, {n2})', z3.BoolVal(False))
    return Task('proof factors', fn, 'proof', 120)


def record_task():
    """add_solution and best_current_solution."""
    def fn(ctx):
        from factorio_sat import calculate_optimal as C
        from pyvc.sym import Fam, SBool, SInt, Unsupported, bterm, iterm, mul_f, z3
        E = engine()
        p = ctx.prover('record')
        B = z3.BoolSort()
        has0, val0 = (z3.Function(x, I(), I(), I(), B) for x in ('has0', 'val0'))
        S = size('U', 'W', 'H')
        Z, T = z3.Ints('Z0 Z1 Z2'), terms(S)
        at = z3.And([x == y for x, y in zip(Z, T)])

        class Solutions:
            def __init__(self):
                self.log = E.new([])

            def __pyvc_setitem__(self, E, k, v):
                E.list_extend(self.log, [(k, v)])

            def __getattr__(self, name):
                if name.startswith('__'):
                    raise AttributeError(name)
                raise Unsupported(f'solutions.{name}')
        for given, sol in (('a solution', ['layout']), ('no solution', None), ('an empty solution', [])):
            def run():
                r, sols = E.new(Record(lambda *x: has0(*x), lambda *x: val0(*x))), Solutions()
                s = store(E, r, sols)
                E.call(C.NetworkSolutionStore.add_solution, (s, S, sol))
                return r.has, r.val, list(sols.log), s.exist is r and s.solutions is sols
            for k, path in enumerate(E.explore(run)):
                if path.outcome != 'normal':
                    ctx.obligation(f'add_solution {given}: path {k}: does not fail', False, repr(path.value))
                    continue
                h, v, log, same_objects = path.value
                ctx.obligation(f'add_solution {given}: path {k}: recorded in place', same_objects)
                s = p.solver(path.assumed + path.conds)
                p.goal(s, f'add_solution {given}: path {k}: exactly this size is recorded', z3.And(h(*Z) == z3.Or(has0(*Z), at), z3.Implies(h(*Z), v(*Z) == z3.If(at, z3.BoolVal(sol is not None), val0(*Z)))))
                ctx.obligation(f'add_solution {given}: path {k}: the solution itself is kept', (len(log) == 0) if sol is None else len(log) == 1 and log[0][1] is sol and same_items(list(log[0][0]), list(S)))
        # the best solution
        n, U = z3.Ints('n U')
        key = [z3.Function(f'size{m}', I(), I()) for m in range(3)]
        K = z3.Int('K')

        class Solution:
            def __init__(self, t):
                self.t = t

            def __pyvc_subst__(self, pairs):
                return Solution(z3.substitute(self.t, *pairs))

        class Kept:
            def items(self):
                k = E.fresh_bvar('k')
                return [Fam([k], z3.And(0 <= k, k < n), [(z3.BoolVal(True), [(tuple(SInt(f(k)) for f in key), Solution(k))])], z3.IntVal(0), n)]
            items.__pyvc_native__ = True

            def __getattr__(self, name):
                if name.startswith('__'):
                    raise AttributeError(name)
                raise Unsupported(f'solutions.{name}')
        inr = z3.And(0 <= K, K < n)
        fits = lambda k: z3.And(0 <= k, k < n, key[0](k) <= U)
        for kind, cls, cost in (('length', C.LengthObjective, lambda k: (key[2](k), key[1](k))), ('area', C.AreaObjective, lambda k: (mul_f(key[1](k) - 2, key[2](k)),))):
            def run():
                E.assume(n >= 0)
                s = store(E, Record(None, None), Kept())
                return E.call(C.NetworkSolutionStore.best_current_solution, (s, object.__new__(cls).loss, SInt(U)))
            outs = set()
            for k, path in enumerate(E.explore(run)):
                lab = f'best solution {kind}: path {k}: '
                s = p.solver([n >= 0] + list(path.assumed) + path.conds)
                if path.outcome != 'normal':
                    p.goal(s, lab + f'does not fail ({path.value!r})', z3.BoolVal(False))
                elif path.value is None:
                    outs.add(None)
                    p.goal(s, lab + 'nothing only when no solution respects the limit', z3.Not(fits(K)))
                elif isinstance(path.value, Solution):
                    outs.add('solution')
                    t = path.value.t
                    p.goal(s, lab + 'a recorded solution within the limit', fits(t))
                    a, b = cost(K), cost(t)
                    less = z3.BoolVal(False)
                    for x, y in reversed(list(zip(a, b))):
                        less = z3.Or(x < y, z3.And(x == y, less))
                    p.goal(s, lab + 'none within the limit is better', z3.Implies(fits(K), z3.Not(less)))
                else:
                    raise Unsupported('best solution')
            ctx.obligation(f'best solution {kind}: both answers', outs == {None, 'solution'}, repr(outs))
        # belts that reach
        reach = {'normal': 4, 'fast': 6, 'express': 8}

        def level():
            return E.call(C.get_belt_level, (SInt(U),))
        paths = E.explore(level)
        p.goal(p.solver([]), 'belt level: paths cover', z3.Or([q.cond for q in paths]))
        for k, path in enumerate(paths):
            ctx.obligation(f'belt level: path {k}: a level', path.outcome == 'normal' and path.value in reach, repr(path.value))
            if path.value in reach:
                r = reach[path.value]
                shorter = [x for x in reach.values() if x < r]
                p.goal(p.solver(path.conds), f'belt level: path {k}: {path.value} reaches, and no shorter one does', z3.And([z3.Or(U <= r, r == max(reach.values()))] + [U > x for x in shorter]))
        ctx.functions(E)
    return Task('proof record', fn, 'proof', 120)


class Text:
    """Decimal text of a number, or such texts joined by a separator."""

    def __init__(self, parts, sep=None):
        self.parts, self.sep = parts, sep

    def __pyvc_subst__(self, pairs):
        from pyvc.sym import z3
        return Text([z3.substitute(t, *pairs) for t in self.parts], self.sep)

    def __pyvc_int__(self, E):
        from pyvc.sym import SInt
        if len(self.parts) != 1:
            raise ValueError('invalid literal for int()')
        return SInt(self.parts[0])

    def split(self, sep=None, *a):
        from pyvc.sym import Unsupported
        if sep is None or sep != self.sep or a:
            raise Unsupported('splitting')
        return [Text([t]) for t in self.parts]
    split.__pyvc_native__ = True

    def __getattr__(self, name):
        from pyvc.sym import Unsupported
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'text.{name}')


class Value:
    def __init__(self, f, t):
        self.f, self.t = f, t

    def __pyvc_subst__(self, pairs):
        from pyvc.sym import z3
        return Value(self.f, z3.substitute(self.t, *pairs))


def json_task():
    """from_json reads back exactly what to_json wrote."""
    def fn(ctx):
        from factorio_sat import calculate_optimal as C
        from pyvc.ghost import Filled, leaves
        from pyvc.sym import Fam, SInt, Unsupported, iterm, z3
        E = engine()
        E.ghost_dicts = True
        E.intercepts[str] = lambda E, x='', *a: Text([iterm(x)]) if isinstance(x, SInt) else x if isinstance(x, Text) else str(x, *a)
        n = {x: z3.Int('n_' + x) for x in ('exist', 'solutions')}
        key = {x: [z3.Function(f'{x}{m}', I(), I()) for m in range(3)] for x in n}

        def join(E, f, args):
            parts = E.to_items(args[0])
            if not all(isinstance(t, Text) and len(t.parts) == 1 for t in parts) or f.__self__ in ('',) or any(ch.isdigit() or ch == '-' for ch in f.__self__):
                raise Unsupported('join')
            return Text([t.parts[0] for t in parts], f.__self__)
        for sep in (',', ';', '.', 'x', '/', ' ', ', '):
            E.intercepts[sep.join] = lambda E, *a, f=sep.join: join(E, f, a)
        E.class_hooks[dict] = lambda E, *a, **k: E.new(Filled(E, E.to_items(a[0]) if not isinstance(a[0], Filled) else a[0].items())) if a and not k else dict(*a, **k)

        def entries(x):
            k = E.fresh_bvar('k')
            return Filled(E, [Fam([k], z3.And(0 <= k, k < n[x]), [(z3.BoolVal(True), [(tuple(SInt(f(k)) for f in key[x]), Value(x, k))])], z3.IntVal(0), n[x])])

        def run():
            for x in n:
                E.assume(n[x] >= 0)
            s = store(E, entries('exist'), entries('solutions'))
            data = E.call(C.NetworkSolutionStore.to_json, (s,))
            kept = s.exist, s.solutions
            t = store(E, Filled(E, [((1, 3, 1), True)]), Filled(E, [((1, 3, 1), 'old')]))
            E.call(C.NetworkSolutionStore.from_json, (t, data))
            return list(t.exist.content), list(t.solutions.content), list(s.exist.content), s.exist is kept[0] and s.solutions is kept[1], isinstance(data, dict) and all(isinstance(a, str) for a in data)
        paths = E.explore(run)
        ctx.functions(E)
        p = ctx.prover('json')
        K = z3.Int('K')
        for k, path in enumerate(paths):
            if path.outcome != 'normal':
                ctx.obligation(f'json: path {k}: does not fail', False, repr(path.value))
                continue
            exist, solutions, before, same_objects, text_keys = path.value
            ctx.obligation(f'json: path {k}: writing changes nothing; the names are text', same_objects and text_keys)
            for x, got in (('exist', exist), ('solutions', solutions)):
                cover = []
                for vs, g, it in leaves(got):
                    if len(vs) != 1 or not isinstance(it[1], Value):
                        ctx.obligation(f'json: path {k}: only recorded {x}', False, repr(it)[:200])
                        continue
                    sub = [(vs[0], K)]
                    g = z3.substitute(g, *sub)
                    ctx.obligation(f'json: path {k}: entries of {x} stay there', it[1].f == x)
                    p.goal(p.solver(list(path.assumed) + path.conds + [g]), f'path {k}: {x} is read back as written', z3.And([0 <= K, K < n[x], z3.substitute(it[1].t, *sub) == K] +
                           [z3.substitute(iterm(a), *sub) == f(K) for a, f in zip(it[0], key[x])]))
                    cover.append(g)
                p.goal(p.solver(list(path.assumed) + path.conds + [0 <= K, K < n[x]]), f'path {k}: every entry of {x} is read back', z3.Or(cover) if cover else z3.BoolVal(False))
    return Task('proof json', fn, 'proof', 60)


def search_tasks():
    return [json_task(), factors_task(), record_task(), answer_task(), clean_task(), next_task('length'), next_task('area')]
