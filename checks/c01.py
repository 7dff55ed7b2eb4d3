import itertools

from pyvc.runner import Task

LEVEL = 'proof'
TECHNIQUE = 'deductive: contracts on the number helpers for operands of any width (emitted clauses <=> arithmetic relation; loop invariants, recursion contracts, induction lemmas), discharged by z3'
NOTE = 'sum_numbers: 2 to 4 operands of any width; set_numbers and the list helpers: bounded (all values and assignments of widths <= 4).'
RULE = 'all widths up to the bound, all values, all assignments of the named literals (randomly signed): a SAT solver decides whether the real clauses can be completed'
BOUND = 'bounded companion: widths <= 4 (quick) / 5 (thorough), popcount of <= 7 / 9 literals'
ASSUMPTIONS = ['math.ceil(math.log2(v)) is the least L with 2**L >= v (bin_length; compared exactly for v <= 70000 natively)',
               'the allocator returns a new literal on every call (IDPool._next)']


def lemmas(ctx):
    from pyvc import numlemmas
    numlemmas.prove_all(ctx.prover('binary numbers'))


def contract(name):
    def run(ctx):
        from pyvc import numproof
        numproof.CONTRACTS[name](ctx)
    return run


class Vars:
    def __init__(self, rng):
        self.n, self.rng = 0, rng

    def new(self):
        self.n += 1
        return self.n

    def lits(self, k):
        return [self.new() * self.rng.choice((1, -1)) for _ in range(k)]


def value(bits):
    return sum(1 << i for i, b in enumerate(bits) if b)


def table(ctx, what, clauses, groups, rel, **data):
    """For every assignment of the literal groups: clauses satisfiable iff rel(values as bit tuples)."""
    from pysat.solvers import Solver
    with Solver('minisat22', bootstrap_with=[list(c) for c in clauses]) as s:
        for bits in itertools.product(*[list(itertools.product((False, True), repeat=len(g))) for g in groups]):
            assume = [l if b else -l for g, bs in zip(groups, bits) for l, b in zip(g, bs)]
            got, want = s.solve(assumptions=assume), rel(*bits)
            ctx.eval()
            ctx.require(got == want, f'{what}: {"accepts" if got else "rejects"} {[list(b) for b in bits]}', assignment=[list(b) for b in bits],
                        expected=want, literals=groups, clauses=clauses[:200], **data)
    ctx.sample(dict(what=what, literals=groups, clauses=len(clauses), **data))


def raises(fn, *a, **k):
    try:
        fn(*a, **k)
    except AssertionError:
        return True
    return False


def b_constants(ctx):
    import factorio_sat.util as U
    for w in range(0, 5 if not ctx.thorough else 7):
        for v in range(1 << w):
            V = Vars(ctx.rng)
            a = V.lits(w)
            table(ctx, f'set_number({v})', U.set_number(v, a), [a], lambda x: value(x) == v, value=v)
            table(ctx, f'set_not_number({v})', [U.set_not_number(v, a)], [a], lambda x: value(x) != v, value=v)
            table(ctx, f'set_maximum({v})', U.set_maximum(v, a), [a], lambda x: value(x) <= v, value=v)
            ctx.require(list(U.get_bits(v, w)) == [bool(v >> i & 1) for i in range(w)], 'get_bits', value=v, width=w)
        V = Vars(ctx.rng)
        a = V.lits(w)
        for v in (1 << w, (1 << w) + 1):
            ctx.require(raises(U.set_number, v, a), f'set_number accepts {v} for {w} literals')
            ctx.eval()
        table(ctx, 'set_all_false', U.set_all_false(a), [a], lambda x: not any(x))
        table(ctx, 'set_all_true', U.set_all_true(a), [a], lambda x: all(x))
        if w:
            b = V.lits(1)
            table(ctx, 'literals_same', U.literals_same(a[0], b[0]), [a[:1], b], lambda x, y: x == y)
            table(ctx, 'literals_different', U.literals_different(a[0], b[0]), [a[:1], b], lambda x, y: x != y)
            c = [[l] for l in V.lits(2)] + [V.lits(2)]
            flat = [l for k in c for l in k]
            ev = lambda y, fl=flat, c=c: all(any(dict(zip(fl, y))[l] for l in k) for k in c)
            table(ctx, 'implies', U.implies(a, c), [a, flat], lambda x, y: not all(x) or ev(y))


def b_pairs(ctx):
    import factorio_sat.util as U
    for w in range(0, 4 if not ctx.thorough else 5):
        for va in range(1 << w):
            for vb in range(1 << w):
                V = Vars(ctx.rng)
                a, b = V.lits(w), V.lits(w)
                table(ctx, f'set_numbers({va}, {vb})', U.set_numbers(va, vb, a, b), [a, b],
                      lambda x, y: (value(x), value(y)) in ((va, vb), (vb, va)), values=(va, vb))
    for wa in range(0, 6 if not ctx.thorough else 7):
        for wb in range(0, 5 if not ctx.thorough else 7):
            V = Vars(ctx.rng)
            a, b = V.lits(wa), V.lits(wb)
            table(ctx, 'set_numbers_equal(allow_different_lengths)', U.set_numbers_equal(a, b, allow_different_lengths=True), [a, b], lambda x, y: value(x) == value(y))
            if wa == wb:
                table(ctx, 'set_numbers_equal', U.set_numbers_equal(a, b), [a, b], lambda x, y: x == y)
            else:
                ctx.require(raises(U.set_numbers_equal, a, b), 'set_numbers_equal accepts different lengths')
        V = Vars(ctx.rng)
        a, b = V.lits(wa), V.lits(wa)
        table(ctx, 'break_symmetry', U.break_symmetry(a, b, V.new), [a, b], lambda x, y: x <= y)


def b_arith(ctx):
    import factorio_sat.util as U
    for w in range(1, 5):
        m = 1 << w
        for carry in (False, True):
            for extra, over in ((0, False), (0, True), (1, False), (1, True)):
                V = Vars(ctx.rng)
                a, b, o, c = V.lits(w), V.lits(w), V.lits(w + extra), V.lits(1 if carry else 0)
                cl = U.add_numbers(a, b, o, V.new, c[0] if carry else None, over)
                table(ctx, 'add_numbers', cl, [a, b, o, c], lambda x, y, z, k: (value(z) - value(x) - value(y) - value(k)) % (m if over and not extra else 10 ** 9) == 0,
                      width=w, carry=carry, extra=extra, overflow=over)
    for w in range(1, 6 if not ctx.thorough else 8):
        m = 1 << w
        V = Vars(ctx.rng)
        a, o = V.lits(w), V.lits(w)
        table(ctx, 'increment_number', U.increment_number(a, o), [a, o], lambda x, y: (value(x) + 1) % m == value(y), width=w)
        V = Vars(ctx.rng)
        a, o = V.lits(w), V.lits(w)
        sg = lambda x: value(x) - (m if x[-1] else 0)
        table(ctx, 'invert_number', U.invert_number(a, o, V.new), [a, o], lambda x, y: sg(x) == -sg(y), width=w)
    for w, count in ((1, 2), (1, 3), (1, 4), (1, 5), (2, 2), (2, 3), (2, 4), (3, 2), (3, 3)):
        for over in (False, True):
            V = Vars(ctx.rng)
            xs, o = [V.lits(w) for _ in range(count)], V.lits(w)
            table(ctx, 'sum_numbers', U.sum_numbers(xs, o, V.new, allow_overflow=over), xs + [o],
                  lambda *v: (sum(map(value, v[:-1])) - value(v[-1])) % ((1 << w) if over else 10 ** 9) == 0, width=w, count=count, overflow=over)


def b_count(ctx):
    import factorio_sat.util as U
    import math
    for k in range(2, 8 if not ctx.thorough else 10):
        w = (k).bit_length()
        V = Vars(ctx.rng)
        a, o = V.lits(k), V.lits(w)
        table(ctx, 'get_popcount', U.get_popcount(a, o, V.new), [a, o], lambda x, y: sum(x) == value(y), bits=k)
    for v in range(1, 70000):
        ctx.require(U.bin_length(v) == (v - 1).bit_length(), f'bin_length({v})', value=v)
    ctx.eval(70000, 1)
    for w in range(0, 9):
        for x in itertools.product((False, True), repeat=w):
            ctx.require(U.read_number(x) == value(x), 'read_number', bits=x)
            if w > 1:
                ctx.require(U.read_number(x, signed=True) == value(x) - ((1 << w) if x[-1] else 0), 'read_number signed', bits=x)
            ctx.eval()


def tasks(tier):
    from pyvc import numproof
    t = [Task('lemmas', lemmas)]
    t += [Task(f'contract {k}', contract(k), timeout=120) for k in numproof.CONTRACTS]
    t += [Task('bounded constants', b_constants, 'bounded'), Task('bounded pairs', b_pairs, 'bounded'), Task('bounded arithmetic', b_arith, 'bounded'),
          Task('bounded counting', b_count, 'bounded')]
    return t


def directed(ctx, refuted):
    """Search a failing input for a refuted obligation at larger widths."""
    ctx.thorough = True
    for f in (b_arith, b_pairs, b_constants, b_count):
        f(ctx)
