from pyvc.runner import Task
from .c01 import Vars, table

LEVEL = 'proof'
TECHNIQUE = 'deductive: contracts on the at-most-one / exactly-one encodings for lists of any length (recursion contract for the split encoding, set_number contract for the binary one), discharged by z3'
NOTE = 'The "exactly/at most/at least n" wrappers delegate to pysat.card.CardEnc, which is outside the verifier: bounded (all lists of up to 5 / 6 literals, all n, all assignments).'
RULE = 'all list lengths and cut-offs up to the bound, all assignments of the randomly signed literals: a SAT solver decides whether the real clauses can be completed'
BOUND = 'bounded companion: lists of up to 9 (quick) / 12 (thorough) literals'
ASSUMPTIONS = ['the allocator returns a new literal on every call (IDPool._next)', 'pysat.card.CardEnc (only bounded evidence)',
               'math.ceil(math.log2(v)) is the least L with 2**L >= v (see C01)', 'lists of at least one literal for the binary encoding']


def contract(name):
    def run(ctx):
        from pyvc import cardproof
        cardproof.CONTRACTS[name](ctx)
    return run


def b_encodings(ctx):
    import factorio_sat.cardinality as C
    top = 13 if ctx.thorough else 10
    for k in range(0, top):
        for name, low, extra in (('quadratic', 0, [{}]), ('logarithmic', 1, [{}]), ('heule', 0, [dict(recursive_cutoff=c) for c in (3, 4, 5, 7)])):
            if k < low:
                continue
            for kw in extra:
                V = Vars(ctx.rng)
                a = V.lits(k)
                table(ctx, f'{name}_amo', getattr(C, f'{name}_amo')(a, V.new, **kw), [a], lambda x: sum(x) <= 1, count=k, **kw)
                V = Vars(ctx.rng)
                a = V.lits(k)
                table(ctx, f'{name}_one', getattr(C, f'{name}_one')(a, V.new, **kw), [a], lambda x: sum(x) == 1, count=k, **kw)
                V = Vars(ctx.rng)
                a = V.lits(k)
                keep = list(a)
                getattr(C, f'{name}_one')(a, V.new, **kw)
                ctx.require(a == keep, f'{name}_one changes its argument')


def b_library(ctx):
    import factorio_sat.cardinality as C
    from pysat.formula import IDPool
    for k in range(1, 7 if ctx.thorough else 6):
        for m in range(0, k + 2):
            for name, rel in (('equals', lambda x: sum(x) == m), ('atmost', lambda x: sum(x) <= m), ('atleast', lambda x: sum(x) >= m)):
                pool = IDPool()
                a = [pool._next() * ctx.rng.choice((1, -1)) for _ in range(k)]
                try:
                    cl = getattr(C, f'library_{name}')(a, m, pool)
                except Exception:
                    ctx.eval()
                    continue
                table(ctx, f'library_{name}', cl, [a], rel, count=k, n=m)


def b_library_works(ctx):
    """Counts that exclude something and are possible must not raise."""
    import factorio_sat.cardinality as C
    from pysat.formula import IDPool
    for k in range(2, 6):
        for m in range(1, k):
            for name in ('equals', 'atmost', 'atleast'):
                pool = IDPool()
                a = [pool._next() for _ in range(k)]
                ctx.require(len(getattr(C, f'library_{name}')(a, m, pool)) > 0, f'library_{name} gives no clauses', count=k, n=m)
                ctx.eval()


def tasks(tier):
    return [Task(f'contract {k}', contract(k)) for k in ('quadratic', 'logarithmic', 'heule')] + \
        [Task('bounded encodings', b_encodings, 'bounded'), Task('bounded library', b_library, 'bounded'), Task('bounded library works', b_library_works, 'bounded')]
