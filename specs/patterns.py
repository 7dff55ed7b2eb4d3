"""Tile patterns that the optimisation rules exclude, each stated once in a canonical orientation.

A pattern is described from an anchor cell with a forward direction F and a side direction S; cell (i, j) lies i steps
forward and j steps to the side.  B and R are the opposites of F and S.  `ORI8` covers every rotation and reflection,
`ORI4` every rotation (S is the counter-clockwise neighbour of F).
"""
from .grid import And, Or, Not, Implies, VEC, DN, nxt, prv, rev, z3, RIGHT, UP

ORI4 = [(f, nxt(f)) for f in range(4)]
ORI8 = ORI4 + [(f, prv(f)) for f in range(4)]


class At:
    """Access to cells relative to an anchor."""

    def __init__(self, v, x, y, f, s):
        self.v, self.x, self.y, self.F, self.S, self.B, self.R = v, x, y, f, s, rev(f), rev(s)
        self.exists = []
        self.cells = []

    def off(self, i, j):
        return (VEC[self.F][0] * i + VEC[self.S][0] * j, VEC[self.F][1] * i + VEC[self.S][1] * j)

    def __call__(self, i, j=0):
        dx, dy = self.off(i, j)
        e, t = self.v.nb(self.x, self.y, dx, dy)
        self.exists.append(e)
        self.cells.append((dx, dy))
        return t


def excluded(v, x, y, oris, pattern, area=None):
    """No occurrence of pattern(at) -> list of conditions at any orientation; area(x', y') restricts every cell used
    (in coordinates before wrapping)."""
    out = []
    for f, s in oris:
        at = At(v, x, y, f, s)
        for n, conds in enumerate(pattern(at)):
            pre = And(at.exists + ([] if area is None else [area(x + dx, y + dy) for dx, dy in at.cells]))
            out.append((f'{DN[f]}/{DN[s]} {n}', Implies(pre, Not(And(conds)))))
    return out


def straight(t, d):
    return And(t.inp[d], t.out[d])


def nothing(t):
    return Not(Or(t.inp + t.out))


def inside(v):
    if v.symbolic:
        return lambda x, y: v.in_range(x, y)
    return lambda x, y: z3.BoolVal(0 <= x < v.W and 0 <= y < v.H)


def box(v, x0, y0, x1, y1):
    return lambda x, y: And(x0 <= x, x <= x1, y0 <= y, y <= y1)


# ------------------------------------------------------------------------------------------ rules
def small_loops(v, x, y):
    """Four belts round a 2 x 2 block, never across a wrapped edge."""
    def pat(at):
        a, b, c, d = at(0), at(1), at(1, 1), at(0, 1)
        yield [a.inp[at.R], a.out[at.F], b.inp[at.F], b.out[at.S], c.inp[at.S], c.out[at.B], d.inp[at.B], d.out[at.R]]
    # one rotation of each turning sense per block
    return excluded(v, x, y, [(0, 3), (3, 0)], pat, area=inside(v))


def glue_splitters(v, x, y):
    """A splitter fed by two straight belts, except right-facing ones next to the ends."""
    out = []
    for f, s in ORI4:
        at = At(v, x, y, f, s)
        h, a, b = at(0), at(-1), at(-1, 1)
        skip = Or(x == 1, x == v.W - 2) if f == RIGHT else z3.BoolVal(False)
        out.append((DN[f], Implies(And(at.exists + [Not(skip)]), Not(And(
            h.is_splitter_head, h.inp[f], a.is_belt, straight(a, f), b.is_belt, straight(b, f))))))
    return out


def shrink_underground(v, x, y):
    def first(at):
        a, b = at(0), at(1)
        yield [Not(a.ug[at.F]), b.ug[at.F], b.is_empty]
        yield [a.ug[at.F], Not(b.ug[at.F]), a.is_empty]
    return excluded(v, x, y, ORI4, first)


def expand_unlimited(v, x, y, area):
    def pat(at):
        a, b = at(0), at(1)
        yield [a.is_belt, straight(a, at.F), b.ug_in(at.F)]
        yield [a.is_underground_out, b.is_belt, straight(b, at.F)]
    return excluded(v, x, y, ORI4, pat, area=area)


def expand(v, x, y, area, length):
    def pat(n):
        def p(at):
            ts = [at(i) for i in range(n + 2)]
            d = at.F
            yield [ts[0].is_belt, straight(ts[0], d), Not(ts[1].ug[d])] + [t.ug[d] for t in ts[2:-1]] + [Not(ts[-1].ug[d])]
            yield [ts[-1].is_belt, straight(ts[-1], d), Not(ts[-2].ug[d])] + [t.ug[d] for t in ts[1:-2]] + [Not(ts[0].ug[d])]
        return p
    return [(f'{n} {a}', f) for n in range(2, length + 1) for a, f in excluded(v, x, y, ORI4, pat(n), area=area)]


def belt_hooks(v, x, y):
    def pat(at):
        a, b, c, d = at(0), at(1), at(1, 1), at(0, 1)
        yield [a.is_belt, Or(a.inp[at.F], a.inp[at.S]), a.out[at.F], b.out[at.S], c.out[at.B], d.is_belt, Or(d.out[at.S], d.out[at.B])]
    return excluded(v, x, y, ORI8, pat)


def mergeable(v, x, y, length):
    """Two passages end to end whose cells, ends included, a single one could cover."""
    def pat(n, o):
        def p(at):
            want = [0] + [1] * o + [0, 0] + [1] * (n - o - 2) + [0]
            yield [(at(i).ug[at.F] if w else Not(at(i).ug[at.F])) for i, w in enumerate(want)]
        return p
    out = []
    for n in range(4, length + 1):
        for o in range(1, n - 2):
            fits = Or(n + 2 <= v.W, n + 2 <= v.H) if v.symbolic else z3.BoolVal(n + 2 <= max(v.W, v.H))
            out += [(f'{n},{o} {a}', Implies(fits, f)) for a, f in excluded(v, x, y, ORI4, pat(n, o))]
    return out


def semicircles(v, x, y):
    def pat(at):
        t = [[at(i, j) for i in range(3)] for j in range(2)]
        F, S, R = at.F, at.S, at.R
        start = Or(t[0][0].inp[F], And(t[0][0].inp[S], Not(t[0][0].is_splitter)))
        end = And(t[0][2].inp[R], Or(t[0][2].out[F], And(t[0][2].out[R], Not(t[0][2].is_splitter))))
        yield [start, end, nothing(t[0][1]), t[1][0].inp[S], t[1][1].inp[F], Not(t[1][1].is_splitter), t[1][2].inp[F]]
    return excluded(v, x, y, ORI8, pat)


def underground_hook(v, x, y):
    """A belt turning back round an underground end beside an empty covered cell."""
    def pat(at):
        end, gap, a, b, c = at(0), at(1), at(-1), at(-1, -1), at(0, -1)
        F, S, B, R = at.F, at.S, at.B, at.R
        free = [nothing(gap), Not(c.is_splitter)]
        yield free + [gap.ug[F], Not(end.ug[F]), a.inp[S], b.inp[B], Or(c.inp[B], c.inp[S])]
        yield free + [gap.ug[B], Not(end.ug[B]), a.out[R], b.out[F], Or(c.out[F], c.out[R])]
    return excluded(v, x, y, ORI8, pat)


def zigzags(v, x, y):
    def pat(at):
        a, b, c, d = at(0), at(1), at(0, 1), at(1, 1)
        yield [a.inp[at.F], a.out[at.S], nothing(b), c.out[at.F], d.out[at.S]]
    return excluded(v, x, y, ORI8, pat)


def spirals(v, x, y):
    """F is the block's row direction; the side direction runs across."""
    def pat(at):
        t = lambda row, col: at(row, col)
        D, A, ID, IA = at.F, at.S, at.B, at.R
        t10, t20, t21, t22, t12, t02, t01, t11 = t(1, 0), t(2, 0), t(2, 1), t(2, 2), t(1, 2), t(0, 2), t(0, 1), t(1, 1)
        yield [Or(t10.inp[A], t10.inp[D]), t10.out[D], t20.out[A], t21.out[A], t21.is_belt, t22.out[ID], t12.out[ID], t02.out[IA], t01.out[D]]
        yield [Or(t10.out[IA], t10.out[ID]), t10.inp[ID], t20.inp[IA], t21.inp[IA], t21.is_belt, t22.inp[D], t12.inp[D], t02.inp[A], t01.inp[ID]]
    return excluded(v, x, y, ORI8, pat)


def belt_parallel_splitter(v, x, y):
    """A belt that runs beside a splitter half's outer side and turns into the cell in front of it."""
    out = []
    for f, s in ORI8:
        head = s == nxt(f)
        at = At(v, x, y, f, s)
        a, b, c, _ = at(0), at(0, 1), at(1, 1), at(1, 0)
        half = And(c.is_splitter, c.is_splitter_head if head else Not(c.is_splitter_head))
        out.append((f'{DN[f]}/{DN[s]}', Implies(And(at.exists), Not(And(
            Or(And(a.inp[f], Not(a.is_splitter)), a.inp[s]), a.out[f], b.out[s], half)))))
    return out


def glue_partial_splitters(v, x, y):
    """A splitter with one input whose two outputs are straight belts, not in the last column."""
    area = lambda x, y: x <= v.W - 2 if v.symbolic else z3.BoolVal(x <= v.W - 2)

    def pat(at):
        h, t, a, b = at(0), at(0, 1), at(1), at(1, 1)
        belts = [a.is_belt, straight(a, at.F), b.is_belt, straight(b, at.F)]
        yield [h.is_splitter_head, h.inp[at.F], Not(t.inp[at.F])] + belts
        yield [t.is_splitter, Not(t.is_splitter_head), t.inp[at.F], Not(h.inp[at.F])] + belts
    return excluded(v, x, y, ORI4, pat, area=area)


def empty_along_underground(v, x, y, length):
    """An underground pair over empty cells only (any distance up to the maximum)."""
    def pat(n):
        def p(at):
            ts = [at(i) for i in range(n + 2)]
            yield [ts[0].ug_in(at.F)] + [t.is_empty for t in ts[1:-1]] + [ts[-1].ug_out(at.F)]
        return p
    out = []
    for n in range(1, length + 1):
        fits = Or(n + 2 <= v.W, n + 2 <= v.H) if v.symbolic else z3.BoolVal(n + 2 <= max(v.W, v.H))
        out += [(f'{n} {a}', Implies(fits, f)) for a, f in excluded(v, x, y, ORI4, pat(n))]
    return out


def double_edge_belts(v, x, y):
    """Two straight belts, one above the other, next to the first or last column."""
    col = Or(x == 1, And(v.W >= 3, x == v.W - 2)) if v.symbolic else z3.BoolVal(x == 1 or (v.W >= 3 and x == v.W - 2))
    t = v.tile(x, y)
    down = y + 1 <= v.H - 1 if v.symbolic else z3.BoolVal(y + 1 <= v.H - 1)
    if not v.symbolic and y + 1 >= v.H:
        return []
    o = v.tile(x, y + 1)
    return [('pair', Implies(And(col, down), Not(And(straight(t, RIGHT), Not(t.is_splitter), straight(o, RIGHT), Not(o.is_splitter)))))]


def passing(v, x, y, colour):
    """Two belts of one colour running past each other; colour(t) is a Boolean."""
    def pat(at):
        a, b, c, d = at(0), at(1), at(0, 1), at(1, 1)
        same = Or(And([colour(t) for t in (a, b, c, d)]), And([Not(colour(t)) for t in (a, b, c, d)]))
        yield [same, straight(a, at.F), straight(b, at.F), straight(c, at.B), straight(d, at.B)]
    return excluded(v, x, y, ORI4, pat)


def awkward_entry(v, x, y):
    """Block rows run along F, columns across; all nine cells must exist."""
    def pat(at):
        t = [[at(r, c) for c in range(3)] for r in range(3)]
        F, S, B = at.F, at.S, at.B
        yield [t[0][0].is_empty, t[0][0].ug[F], Not(t[1][0].ug[F]), t[1][1].is_empty, t[2][0].out[S], t[2][1].out[S], t[2][2].out[B], t[1][2].out[B]]
    return excluded(v, x, y, ORI4, pat)


def parallel_undergrounds(v, x, y):
    def pat(at):
        a, b = at(0), at(0, 1)
        yield [Or(a.ug[at.F], a.ug[at.B]), Or(b.ug[at.F], b.ug[at.B])]
    return excluded(v, x, y, [(0, 1), (1, 2)], pat)
