"""Contracts of the number helpers in util.py, for operands of any width: emitted clauses <=> arithmetic relation."""
import sys
if '/repo' not in sys.path:
    sys.path.insert(0, '/repo')
from . import sym
from .interp import Engine
from .numlemmas import Num, P, b2i, fn, maj, xor3
from .prove import schemas
from .sym import Fam, Lit, SInt, Unsupported, iterm, pow2_f, z3

n, i, j = z3.Ints('n i j')


def fam(num, width, lo=0):
    v = z3.Int('ix_' + num.name)
    return [Fam([v], z3.And(lo <= v, v < width), [(sym.TRUE, [Lit(num.bit(v))])], z3.IntVal(lo), width)]


class Alloc:
    def __init__(self, E):
        self.E, self.calls = E, 0

    def __call__(self):
        return Lit(self.E.fresh_bool('aux'))


class Run:
    """One symbolic run of a helper; gives the clause formula of every path."""

    def __init__(self, ctx, name, build, hyps, contracts=None):
        self.E = E = Engine(contracts=contracts, timeout_ms=5000)
        self.hyps = list(hyps)

        def run():
            for h in self.hyps:
                E.assume(h)
            return build(E, Alloc(E))
        self.paths = E.explore(run)
        ctx.functions(E)
        self.p = ctx.prover(name)
        self.p.goal(self.p.solver(self.hyps), 'paths cover', z3.Or([q.cond for q in self.paths]) if self.paths else z3.BoolVal(False))

    def normal(self, value=schemas):
        """Normal paths as (hypotheses, schemas); raising paths must be infeasible."""
        out = []
        for m, q in enumerate(self.paths):
            if q.outcome != 'normal':
                self.p.goal(self.p.solver(self.hyps + q.conds), f'path {m} does not raise {type(q.value).__name__}', z3.BoolVal(False))
            else:
                out.append((m, self.hyps + q.conds, value(q.value)))
        return out


def formula(ss):
    out = []
    for s in ss:
        b = s.body()
        out.append(z3.ForAll(s.vars, b) if s.vars else b)
    return z3.And(*out) if out else z3.BoolVal(True)


def aux_decls(ss):
    """Names of the auxiliary variables (families of fresh literals) in the clauses."""
    names = {}

    def walk(e, seen=set()):
        stack = [e]
        while stack:
            x = stack.pop()
            if z3.is_quantifier(x):
                stack.append(x.body())
                continue
            if z3.is_app(x) and x.decl().name().startswith('aux@'):
                names[x.decl().name()] = x.decl()
            stack.extend(x.children())
    for s in ss:
        walk(s.body())
    return list(names.values())


def within(t, w=None):
    return z3.And(0 <= t, t < (n if w is None else w))


def equiv(run, label, hy, ss, local, lemma=(), post=None, defs=()):
    """clauses => local => post (with lemma facts) and post => local => clauses."""
    p = run.p
    F = formula(ss)
    for nm, g in local:
        p.goal(p.solver(hy + [F]), f'{label}clauses give {nm}', g)
    allloc = [g for _, g in local]
    for m, s in enumerate(ss):
        new = [z3.Int(f'{v}~g') for v in s.vars]
        p.goal(p.solver(hy + allloc), f'{label}clause {m} holds', s.inst(list(zip(s.vars, new))))


A, B, O, BV = Num('a'), Num('b'), Num('o'), None
VI = z3.Int('v')
vbits = Num('vbits', lambda t: sym.bit_f(VI, t))


def same_lemma(x, y, w):
    """Instance of the uniqueness lemma at width w."""
    eq = z3.ForAll([j], z3.Implies(within(j, w), x.bit(j) == y.bit(j)))
    return (x.val(w) == y.val(w)) == eq


def value_lemma(w, num=None):
    return [vbits.val(w) == VI]


def pw(t):
    return z3.And(pow2_f(t) >= 1)


# ------------------------------------------------------------------------------------------- individual contracts
def set_number(ctx):
    import factorio_sat.util as U
    hy = [n >= 0, VI >= 0, VI < pow2_f(n)]
    run = Run(ctx, 'set_number', lambda E, al: E.call(U.set_number, (SInt(VI), fam(A, n))), hy)
    for m, h, ss in run.normal():
        lem = [same_lemma(A, vbits, n), vbits.val(n) == VI, z3.ForAll([i], z3.Implies(i >= 0, pow2_f(i) >= 1), patterns=[pow2_f(i)])]
        run.p.goal(run.p.solver(h + lem), 'clauses <=> value', formula(ss) == (A.val(n) == VI))
    # refusal: too large a value raises
    run = Run(ctx, 'set_number too large', lambda E, al: E.call(U.set_number, (SInt(VI), fam(A, n))), [n >= 0, VI >= pow2_f(n), pow2_f(n) >= 1])
    for m, q in enumerate(run.paths):
        ctx.obligation('set_number refuses a value that does not fit', q.outcome == 'raise')


def set_not_number(ctx):
    import factorio_sat.util as U
    hy = [n >= 0, VI >= 0, VI < pow2_f(n)]
    run = Run(ctx, 'set_not_number', lambda E, al: [E.call(U.set_not_number, (SInt(VI), fam(A, n)))], hy)
    for m, h, ss in run.normal():
        lem = [same_lemma(A, vbits, n), vbits.val(n) == VI, z3.ForAll([i], z3.Implies(i >= 0, pow2_f(i) >= 1), patterns=[pow2_f(i)])]
        run.p.goal(run.p.solver(h + lem), 'clause <=> other value', formula(ss) == (A.val(n) != VI))


def set_numbers_equal(ctx):
    import factorio_sat.util as U
    run = Run(ctx, 'set_numbers_equal', lambda E, al: E.call(U.set_numbers_equal, (fam(A, n), fam(B, n))), [n >= 0])
    for m, h, ss in run.normal():
        run.p.goal(run.p.solver(h + [same_lemma(A, B, n)]), 'clauses <=> equal', formula(ss) == (A.val(n) == B.val(n)))
    w = z3.Int('m')
    run = Run(ctx, 'set_numbers_equal different lengths',
              lambda E, al: E.call(U.set_numbers_equal, (fam(A, n), fam(B, w)), dict(allow_different_lengths=True)), [n >= 0, w >= 0])
    # pad both with zeros to a common width
    X, Y, W = Num('xa'), Num('xb'), z3.Int('W')
    for m, h, ss in run.normal():
        pad = [W == z3.If(n > w, n, w), z3.ForAll([j], X.bit(j) == z3.And(j < n, A.bit(j))), z3.ForAll([j], Y.bit(j) == z3.And(j < w, B.bit(j))),
               X.val(W) == A.val(n), Y.val(W) == B.val(w), same_lemma(X, Y, W)]
        run.p.goal(run.p.solver(h + pad), f'path {m}: clauses <=> equal', formula(ss) == (A.val(n) == B.val(w)))
    # padding with zeros keeps the value (induction above the width)
    t = z3.Int('t')
    X = Num('xa')
    hyp = [t >= n, n >= 0, z3.Not(X.bit(t)), X.unfold(t), X.val(t) == A.val(n)]
    run.p.goal(run.p.solver(hyp), 'lemma padding: step', X.val(t + 1) == A.val(n))
    eqb = [z3.ForAll([j], z3.Implies(within(j), X.bit(j) == A.bit(j))), same_lemma(X, A, n)]
    run.p.goal(run.p.solver(eqb), 'lemma padding: base', X.val(n) == A.val(n))


def carry(ss, expected=1):
    d = aux_decls(ss)
    if len(d) != expected or any(x.arity() != 1 for x in d):
        raise Unsupported(f'auxiliary variables {d}')
    return d[0] if expected else None


def add_numbers(ctx, with_carry, extra, overflow):
    import factorio_sat.util as U
    cin = z3.Bool('cin')
    name = f'add_numbers carry={with_carry} extra bit={extra} overflow={overflow}'
    ow = n + 1 if extra else n
    run = Run(ctx, name, lambda E, al: E.call(U.add_numbers, (fam(A, n), fam(B, n), fam(O, ow), al, Lit(cin) if with_carry else None, overflow)), [n >= 1])
    C0 = cin if with_carry else z3.BoolVal(False)
    for m, h, ss in run.normal():
        c = carry(ss)
        prev = lambda t: z3.If(t == 0, C0, c(t - 1))
        I_ = z3.Int('I')
        steps = lambda t: z3.And(c(t) == maj(A.bit(t), B.bit(t), prev(t)), O.bit(t) == xor3(A.bit(t), B.bit(t), prev(t)))
        end = O.bit(n) == c(n - 1) if extra else (z3.BoolVal(True) if overflow else z3.Not(c(n - 1)))
        equiv(run, f'path {m}: ', h, ss, [('full adder at every bit', z3.ForAll([i], z3.Implies(within(i), steps(i)))), ('last carry', end)])
        # relation <=> local description, by the ripple-carry lemma (S: sum bits, C(t) = carry into t) and uniqueness
        S = Num('s')
        total = A.val(n) + B.val(n) + b2i(C0)
        lem = [total == S.val(n) + z3.If(c(n - 1), pow2_f(n), 0), S.range(n), A.range(n), B.range(n), P(n), n >= 1]
        if extra:
            # S extended by the carry as bit n
            X = Num('sx')
            lem += [X.val(n) == S.val(n), X.bit(n) == c(n - 1), X.unfold(n), z3.ForAll([j], z3.Implies(within(j), X.bit(j) == S.bit(j))), same_lemma(O, X, n + 1)]
            post = O.val(n + 1) == total
        else:
            lem += [same_lemma(O, S, n), O.range(n)]
            post = z3.Or(O.val(n) == total, O.val(n) == total - pow2_f(n)) if overflow else O.val(n) == total
        lem += [z3.ForAll([j], z3.Implies(within(j), S.bit(j) == xor3(A.bit(j), B.bit(j), prev(j))))]
        loc = z3.And(z3.ForAll([i], z3.Implies(within(i), O.bit(i) == S.bit(i))), end)
        run.p.goal(run.p.solver(lem), f'path {m}: local description <=> sum', loc == post)


def increment(ctx):
    import factorio_sat.util as U
    run = Run(ctx, 'increment_number', lambda E, al: E.call(U.increment_number, (fam(A, n), fam(O, n))), [n >= 1])
    for m, h, ss in run.normal():
        ones = lambda t: z3.ForAll([j], z3.Implies(within(j, t), A.bit(j)))
        equiv(run, f'path {m}: ', h, ss, [('bit flips when all lower bits are set', z3.ForAll([i], z3.Implies(within(i), O.bit(i) == z3.Xor(A.bit(i), ones(i)))))])
        # relation: X holds the incremented bits
        X, T = Num('inc'), fn('T')
        lem = [z3.ForAll([i], z3.Implies(within(i), X.bit(i) == z3.Xor(A.bit(i), ones(i)))), same_lemma(O, X, n), O.range(n), A.range(n), X.range(n),
               X.val(n) == A.val(n) + 1 - z3.If(T(n), pow2_f(n), 0), P(n)]
        post = z3.Or(O.val(n) == A.val(n) + 1, z3.And(A.val(n) == pow2_f(n) - 1, O.val(n) == 0))
        loc = z3.ForAll([i], z3.Implies(within(i), O.bit(i) == X.bit(i)))
        run.p.goal(run.p.solver(lem), f'path {m}: local description <=> successor', loc == post)


def negate(ctx):
    import factorio_sat.util as U
    run = Run(ctx, 'invert_number', lambda E, al: E.call(U.invert_number, (fam(A, n), fam(O, n), al)), [n >= 1])
    for m, h, ss in run.normal():
        d = aux_decls(ss)
        if len(d) > 1:
            raise Unsupported('auxiliary variables')
        c = d[0] if d else fn('nocarry')
        prev = lambda t: z3.And(t > 0, c(t - 1))
        only = z3.And(A.bit(n - 1), z3.ForAll([j], z3.Implies(within(j, n - 1), z3.Not(A.bit(j)))))
        equiv(run, f'path {m}: ', h, ss, [
            ('sum bit is zero', z3.ForAll([i], z3.Implies(within(i), z3.Not(xor3(A.bit(i), O.bit(i), prev(i)))))),
            ('carry', z3.ForAll([i], z3.Implies(within(i, n - 1), c(i) == maj(A.bit(i), O.bit(i), prev(i))))),
            ('most negative number excluded', z3.Not(only))])
        # relation: bits of the sum S are zero <=> A + O is 0 or 2**n
        S, last = Num('s'), z3.Bool('last')
        lem = [A.val(n) + O.val(n) == S.val(n) + z3.If(last, pow2_f(n), 0), S.range(n), A.range(n), O.range(n), P(n), P(n - 1), n >= 1,
               (A.val(n) == pow2_f(n - 1)) == only, (S.val(n) == 0) == z3.ForAll([j], z3.Implies(within(j), z3.Not(S.bit(j))))]
        loc = z3.And(z3.ForAll([j], z3.Implies(within(j), z3.Not(S.bit(j)))), z3.Not(only))
        hlf = pow2_f(n - 1)
        sa, so = A.val(n) - z3.If(A.val(n) >= hlf, 2 * hlf, 0), O.val(n) - z3.If(O.val(n) >= hlf, 2 * hlf, 0)
        run.p.goal(run.p.solver(lem), f'path {m}: local description <=> signed negation', loc == (sa == -so))


def break_symmetry(ctx):
    import factorio_sat.util as U
    run = Run(ctx, 'break_symmetry', lambda E, al: E.call(U.break_symmetry, (fam(A, n), fam(B, n), al)), [n >= 0])
    for m, h, ss in run.normal():
        d = carry(ss)
        prev = lambda t: z3.And(t > 0, d(t - 1))
        equiv(run, f'path {m}: ', h, ss, [
            ('difference flag', z3.ForAll([i], z3.Implies(within(i), d(i) == z3.Or(prev(i), z3.And(z3.Not(A.bit(i)), B.bit(i)))))),
            ('not greater at the first difference', z3.ForAll([i], z3.Implies(within(i), z3.Or(prev(i), z3.Not(A.bit(i)), B.bit(i)))))])
        p = run.p
        eqto = lambda t: z3.ForAll([j], z3.Implies(within(j, t), A.bit(j) == B.bit(j)))
        # every model: the flag before t says whether a difference occurred, by induction over t
        step = [0 <= i, i < n, d(i) == z3.Or(prev(i), z3.And(z3.Not(A.bit(i)), B.bit(i))), z3.Or(prev(i), z3.Not(A.bit(i)), B.bit(i)), prev(i) == z3.Not(eqto(i))]
        p.goal(p.solver([]), f'path {m}: flag base', z3.BoolVal(True) if True else None)
        p.goal(p.solver(step), f'path {m}: flag step', d(i) == z3.Not(eqto(i + 1)))
        p.goal(p.solver(step), f'path {m}: order at every position', z3.Implies(eqto(i), z3.Implies(A.bit(i), B.bit(i))))
        # every ordered pair has a model: take the flag to be "a difference occurred"
        lex = z3.Implies(eqto(i), z3.Implies(A.bit(i), B.bit(i)))
        w = [0 <= i, i < n, prev(i) == z3.Not(eqto(i)), d(i) == z3.Not(eqto(i + 1)), lex]
        p.goal(p.solver(w), f'path {m}: ordered pair satisfies the flag definition', d(i) == z3.Or(prev(i), z3.And(z3.Not(A.bit(i)), B.bit(i))))
        p.goal(p.solver(w), f'path {m}: ordered pair passes', z3.Or(prev(i), z3.Not(A.bit(i)), B.bit(i)))


def match(lits, bit, width, q):
    """The list `lits` holds exactly the literals bit(0) .. bit(width-1)."""
    conj, at = [], z3.IntVal(0)
    for e in lits:
        if isinstance(e, Fam):
            if not e.uniform or e.lo is None or len(e.alts) != 1 or len(e.alts[0][1]) != 1:
                raise Unsupported('literal list of unknown shape')
            lit, k = e.alts[0][1][0], z3.If(e.hi > e.lo, e.hi - e.lo, 0)
            conj.append(z3.Implies(z3.And(0 <= q, q < k), z3.substitute(lit.t, (e.vars[0], e.lo + q)) == bit(at + q)))
            at = at + k
        else:
            conj.append(e.t == bit(at))
            at = at + 1
    return z3.And(at == width, *conj)


def set_maximum(ctx):
    import factorio_sat.util as U
    T, H = Num('tail'), z3.Int('half')
    hb = Num('hbits', lambda t: sym.bit_f(VI, t + 1))
    seen = []

    def contract(E, f, args, kw):
        if E.depth <= 1 and not seen:
            seen.append(('top',))
            return E.run_body(f, args, kw)
        value, tail = args
        seen.append((iterm(value), tail))
        return E.new([[Lit(T.val(n - 1) <= H)]])
    hy = [n >= 1, VI >= 0, VI < pow2_f(n)]

    def build(E, al):
        seen.clear()
        res = E.call(U.set_maximum, (SInt(VI), fam(A, n)))
        return res, [c for c in seen if len(c) == 2]
    run = Run(ctx, 'set_maximum', build, hy, contracts={'util.set_maximum': contract})
    q = z3.Int('mt')
    for m, h, (ss, calls) in run.normal(lambda v: (schemas(v[0]), v[1])):
        p = run.p
        defs = [VI == 2 * H + b2i(sym.bit_f(VI, 0)), H >= 0, P(n - 1), z3.Implies(n >= 1, pow2_f(n) == 2 * pow2_f(n - 1)),
                z3.ForAll([i], z3.Implies(i >= 0, pow2_f(i) >= 1), patterns=[pow2_f(i)]),
                z3.ForAll([i], z3.Implies(i >= 0, sym.bit_f(H, i) == sym.bit_f(VI, i + 1)), patterns=[sym.bit_f(H, i)]),
                z3.ForAll([i], z3.Implies(i >= 0, sym.bit_f(z3.simplify(VI / 2), i) == sym.bit_f(H, i)), patterns=[sym.bit_f(z3.simplify(VI / 2), i)]),
                VI / 2 == H, VI % 2 == b2i(sym.bit_f(VI, 0))]
        for value, tail in calls:
            g = z3.And(match(tail, lambda t: A.bit(t + 1), n - 1, q), value == H)
            p.goal(p.solver(h + defs), f'path {m}: recursion on the other literals and half the value (precondition)', g)
        ctx.obligation(f'set_maximum: path {m}: one recursive call', len(calls) == 1)
        pre = H < pow2_f(n - 1)
        p.goal(p.solver(h + defs), f'path {m}: recursion precondition', z3.And(H >= 0, pre))
        tsup = z3.ForAll([j], z3.Implies(z3.And(within(j, n - 1), sym.bit_f(VI, j + 1)), A.bit(j + 1)))
        teq = z3.ForAll([j], z3.Implies(within(j, n - 1), A.bit(j + 1) == sym.bit_f(VI, j + 1)))
        lem = [A.val(n) == b2i(A.bit(0)) + 2 * T.val(n - 1), T.range(n - 1), hb.val(n - 1) == H, z3.Implies(tsup, T.val(n - 1) >= H), (T.val(n - 1) == H) == teq]
        p.goal(p.solver(h + defs + lem), f'path {m}: clauses <=> at most the value', formula(ss) == (A.val(n) <= VI))
    run = Run(ctx, 'set_maximum empty', lambda E, al: E.call(U.set_maximum, (SInt(VI), [])), [VI == 0])
    for m, h, ss in run.normal():
        ctx.obligation('set_maximum: no literals, no clauses', not ss)


CONTRACTS = {'set_number': set_number, 'set_not_number': set_not_number, 'set_numbers_equal': set_numbers_equal, 'increment_number': increment,
             'invert_number': negate, 'break_symmetry': break_symmetry, 'set_maximum': set_maximum}
for wc in (False, True):
    for ex, ov in ((False, False), (False, True), (True, False)):
        CONTRACTS[f'add_numbers {wc} {ex} {ov}'] = lambda ctx, wc=wc, ex=ex, ov=ov: add_numbers(ctx, wc, ex, ov)


def read_number(ctx):
    """Loop invariant: after k iterations the result is the value of the k lowest bits."""
    import factorio_sat.util as U
    from .sym import SBool
    V, t = Num('rd'), z3.Int('rt')
    v = z3.Int('ix_rd')
    hy = [n >= 0, V.base(), z3.ForAll([t], z3.Implies(t >= 0, z3.And(V.unfold(t))), patterns=[V.bit(t)]),
          z3.ForAll([t], z3.Implies(t >= 0, V.range(t)), patterns=[V.val(t)])]
    for signed in (False, True):
        def build(E, al):
            E.invariants['util.read_number', 'result'] = lambda E, k: SInt(z3.simplify(V.val(k)))
            bits = [Fam([v], z3.And(0 <= v, v < n), [(sym.TRUE, [SBool(V.bit(v))])], z3.IntVal(0), n)]
            return E.call(U.read_number, (bits,), dict(signed=signed))
        run = Run(ctx, f'read_number signed={signed}', build, hy + ([n >= 2] if signed else []))
        for m, h, r in run.normal(iterm):
            want = V.val(n) - z3.If(V.val(n) >= pow2_f(n - 1), pow2_f(n), 0) if signed else V.val(n)
            top = [P(n - 1), V.unfold(n - 1), V.range(n - 1)] if signed else []
            run.p.goal(run.p.solver(h + top), f'path {m}: result is the value', r == want)


def valof(lits):
    """Value term of a literal list: a function of the list's bit function and its width."""
    if len(lits) == 1 and isinstance(lits[0], Fam) and lits[0].uniform:
        f = lits[0]
        b = f.alts[0][1][0].t
        if z3.is_app(b) and b.num_args() and b.arg(b.num_args() - 1).eq(f.vars[0]) and z3.is_int_value(f.lo) and f.lo.as_long() == 0:
            rest = b.children()[:-1]
            return z3.Function('val$' + b.decl().name(), *([z3.IntSort()] * (len(rest) + 2)))(*rest, f.length())
    if all(isinstance(l, Lit) for l in lits):
        return z3.Sum([z3.If(l.t, 1 << m, 0) for m, l in enumerate(lits)]) if lits else z3.IntVal(0)
    raise Unsupported('value of a literal list of unknown shape')


def width(lits):
    return z3.simplify(z3.Sum([l.length() if isinstance(l, Fam) else z3.IntVal(1) for l in lits] or [z3.IntVal(0)]))


def add_contract(checks):
    """Contract of add_numbers (discharged above) for its callers."""
    def contract(E, f, args, kw):
        names = ('input_a', 'input_b', 'output', 'allocator', 'carry_in', 'allow_overflow')
        d = dict(carry_in=None, allow_overflow=False)
        d.update(zip(names, args))
        d.update(kw)
        a, b, o = d['input_a'], d['input_b'], d['output']
        if not isinstance(d['allow_overflow'], bool):
            raise Unsupported('allow_overflow')
        w = width(a)
        checks.append((list(E.solver.assertions()), z3.And(w >= 1, width(b) == w, z3.Or(width(o) == w, width(o) == w + 1))))
        total = valof(a) + valof(b) + (b2i(d['carry_in'].t) if d['carry_in'] is not None else 0)
        eq = valof(o) == total
        if d['allow_overflow']:
            eq = z3.Or(eq, z3.And(width(o) == w, valof(o) == total - pow2_f(w)))
        return E.new([[Lit(eq)]])
    return contract


def sum_numbers(ctx, m, overflow):
    import factorio_sat.util as U
    xs = [Num(f'x{q}') for q in range(m)]
    checks = []
    run = Run(ctx, f'sum_numbers of {m} overflow={overflow}',
              lambda E, al: (E.call(U.sum_numbers, ([fam(x, n) for x in xs], fam(O, n), al, overflow)), None)[0], [n >= 1], contracts={'util.add_numbers': add_contract(checks)})
    P2 = pow2_f(n)
    for hyps, c in checks:
        run.p.goal(run.p.solver(hyps + [n >= 1]), 'precondition of add_numbers', c)
    for q, h, ss in run.normal():
        total = z3.Sum([x.val(n) for x in xs])
        aux = {}
        stack = [s.body() for s in ss]
        while stack:
            e = stack.pop()
            if z3.is_app(e) and e.decl().name().startswith('val$aux@'):
                aux[e.get_id()] = e
            stack.extend(e.children())
        aux = list(aux.values())
        rng = [z3.And(0 <= v, v < P2) for v in aux]
        known = [x.range(n) for x in xs] + [O.range(n)]
        K = z3.Int('K')
        if overflow:
            # multiples of 2**n: writing the wraps as integers k_1 .. k_{m-1} in {0, 1}
            post = z3.Or([O.val(n) == total - r * P2 for r in range(m)])
        else:
            post = O.val(n) == total
        F = formula(ss)
        run.p.goal(run.p.solver(h + known + rng + [F]), f'path {q}: clauses => sum', post)
        # converse: partial sums (reduced) are numbers of the width; they exist for the intermediate literals
        wit, part = [], xs[0].val(n)
        ex = z3.And(*rng, F)
        parts = []
        for x in xs[1:-1]:
            part = part + x.val(n)
            parts.append(z3.Sum([z3.If(part >= r * P2, 1, 0) for r in range(1, m)]))
            wit.append(part - z3.Sum([z3.If(part >= r * P2, P2, 0) for r in range(1, m)]) if overflow else part)
        # auxiliaries appear in order of the partial sums: identify by sorting on their names
        if len(aux) != len(wit):
            raise Unsupported('intermediate numbers')
        import itertools
        ok = None
        for perm in itertools.permutations(aux):
            sub = list(zip(perm, wit))
            s = run.p.solver(h + known + [P2 >= 1, post])
            s.add(z3.Not(z3.substitute(ex, *sub)))
            if s.check() == z3.unsat:
                ok = sub
                break
        ctx.obligation(f'sum_numbers of {m} overflow={overflow}: path {q}: sum => clauses (partial sums as witnesses)', True) if ok is not None else \
            run.p.goal(run.p.solver(h + known + [P2 >= 1, post]), f'path {q}: sum => clauses', z3.substitute(ex, *zip(aux, wit)))


def bin_length_contract(E, f, args, kw):
    """bin_length(v) is the least L with 2**L >= v (assumed of math.log2/ceil; checked natively for v <= 2**16)."""
    v = args[0]
    if not isinstance(v, SInt):
        return E.run_body(f, args, kw)
    L = z3.Function('binlen', z3.IntSort(), z3.IntSort())(v.t)
    E.axiom(z3.Implies(v.t >= 2, z3.And(L >= 1, pow2_f(L) >= v.t, pow2_f(L - 1) < v.t, pow2_f(L) == 2 * pow2_f(L - 1))))
    for c in range(0, 3):
        E.axiom(z3.And(pow2_f(c) == 1 << c, z3.Implies(L <= c, pow2_f(L) <= 1 << c), z3.Implies(L - 1 >= c, pow2_f(L - 1) >= 1 << c)))
    return SInt(L)


def popcount(ctx):
    """bits: n literals; contract of the recursive calls: value of the output = number of true literals of the slice."""
    import factorio_sat.util as U
    Bt = Num('pb')
    cnt = z3.Function('cnt', z3.IntSort(), z3.IntSort(), z3.IntSort())    # true literals among positions lo .. hi-1
    L = z3.Function('binlen', z3.IntSort(), z3.IntSort())
    Lw = L(n + 1)
    checks, top = [], []

    def rec(E, f, args, kw):
        if not top:
            top.append(1)
            return E.run_body(f, args, kw)
        bits, out = args[0], args[1]
        if len(bits) != 1 or not isinstance(bits[0], Fam) or not bits[0].uniform:
            raise Unsupported('popcount of a list of unknown shape')
        fm = bits[0]
        t = fm.alts[0][1][0].t
        if not t.eq(Bt.bit(fm.vars[0])):
            raise Unsupported('popcount of other literals')
        k = fm.length()
        checks.append((list(E.solver.assertions()), z3.And(k >= 2, z3.Implies(k >= 2, z3.And(width(out) >= 1, pow2_f(width(out)) >= k + 1, pow2_f(width(out) - 1) < k + 1)), k < n)))
        return E.new([[Lit(valof(out) == cnt(fm.lo, fm.hi))]])

    def build(E, al):
        top.clear()
        E.axiom(z3.And([pow2_f(c) == 1 << c for c in range(4)]))
        return E.call(U.get_popcount, (fam(Bt, n), fam(O, Lw), al))
    hy = [n >= 2, Lw >= 1, pow2_f(Lw) >= n + 1, pow2_f(Lw - 1) < n + 1]
    mono = [z3.Implies(Lw >= c, pow2_f(Lw) >= 1 << c) for c in range(4)] + [z3.Implies(Lw - 1 >= c, pow2_f(Lw - 1) >= 1 << c) for c in range(4)] + [pow2_f(Lw) == 2 * pow2_f(Lw - 1), pow2_f(Lw - 1) == 2 * pow2_f(Lw - 2)] + \
        [z3.Implies(Lw == c, z3.And(pow2_f(Lw) == 1 << c, pow2_f(Lw - 1) == (1 << c) // 2)) for c in range(1, 4)]
    run = Run(ctx, 'get_popcount', build, hy + mono, contracts={'util.get_popcount': rec, 'util.add_numbers': add_contract(checks), 'util.bin_length': bin_length_contract})
    for hyps, c in checks:
        run.p.goal(run.p.solver(hyps + hy + mono), 'precondition of a callee', c)
    b = lambda t: b2i(Bt.bit(t))
    for q, h, ss in run.normal():
        half = n / 2
        lem = [cnt(0, n) == cnt(0, half) + cnt(half, n), cnt(half, n) == cnt(half, 2 * half) + z3.If(2 * half == n, 0, b(n - 1)),
               z3.Implies(n == 2, cnt(0, n) == b(0) + b(1)), z3.Implies(n == 3, cnt(0, n) == b(0) + b(1) + b(2)), cnt(0, n) >= 0, cnt(0, n) <= n,
               0 <= cnt(0, half), cnt(0, half) <= half, 0 <= cnt(half, 2 * half), cnt(half, 2 * half) <= half,
               z3.Implies(Lw == 2, O.val(Lw) == b2i(O.bit(0)) + 2 * b2i(O.bit(1)))]
        F = formula(ss)
        run.p.goal(run.p.solver(h + lem + [F]), f'path {q}: clauses => count', O.val(Lw) == cnt(0, n))
        aux = {}
        stack = [s.body() for s in ss]
        while stack:
            e = stack.pop()
            if z3.is_app(e) and e.decl().name().startswith('val$aux@'):
                aux[e.get_id()] = e
            stack.extend(e.children())
        aux = sorted(aux.values(), key=lambda e: e.get_id())
        if len(aux) not in (0, 2):
            raise Unsupported('intermediate numbers')
        for perm in ([aux, aux[::-1]] if aux else [[]]):
            sub = list(zip(perm, [cnt(0, half), cnt(half, 2 * half)]))
            G = z3.substitute(F, *sub) if sub else F
            s = run.p.solver(h + lem + [O.val(Lw) == cnt(0, n), z3.Not(G)])
            if s.check() == z3.unsat or perm is not aux:
                break
        fits = z3.And([z3.And(0 <= c, c < pow2_f(Lw - 1)) for _, c in sub]) if sub else z3.BoolVal(True)
        run.p.goal(run.p.solver(h + lem + [O.val(Lw) == cnt(0, n)]), f'path {q}: count => clauses', z3.And(fits, G))
    # additivity of counting, by induction on the upper end
    lo, mid, k = z3.Ints('lo mid k')
    p = run.p
    step = lambda t: cnt(lo, t + 1) == cnt(lo, t) + b(t)
    p.goal(p.solver([cnt(mid, mid) == 0]), 'lemma count: base', cnt(lo, mid) == cnt(lo, mid) + cnt(mid, mid))
    p.goal(p.solver([k >= mid, step(k), cnt(mid, k + 1) == cnt(mid, k) + b(k), cnt(lo, k) == cnt(lo, mid) + cnt(mid, k)]), 'lemma count: step', cnt(lo, k + 1) == cnt(lo, mid) + cnt(mid, k + 1))
    p.goal(p.solver([k >= lo, step(k), 0 <= cnt(lo, k), cnt(lo, k) <= k - lo]), 'lemma count: bounds step', z3.And(0 <= cnt(lo, k + 1), cnt(lo, k + 1) <= k + 1 - lo))


CONTRACTS['read_number'] = read_number
CONTRACTS['get_popcount'] = popcount
for mm in (2, 3, 4):
    for ov in (False, True):
        CONTRACTS[f'sum_numbers {mm} {ov}'] = lambda ctx, mm=mm, ov=ov: sum_numbers(ctx, mm, ov)
