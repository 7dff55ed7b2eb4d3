"""Declarative specifications of the grid rules, written over a View of the grid's cells.

A View is either symbolic (any width, height and position: used for the proofs) or concrete (a real grid: used to replay
and to search for failing inputs).  Every spec function gives, for one cell, named formulas about the cell's tile and
its neighbours; the rule's meaning is their conjunction over all cells.  Nothing here looks at how /repo builds clauses.
"""
from pyvc.sym import z3, Lit, SInt, Fam, subst

RIGHT, UP, LEFT, DOWN = range(4)
VEC = [(1, 0), (0, -1), (-1, 0), (0, 1)]
DN = ['right', 'up', 'left', 'down']


def rev(d):
    return (d + 2) % 4


def nxt(d):
    return (d + 1) % 4


def prv(d):
    return (d - 1) % 4


def And(*a):
    a = [x for x in (list(a[0]) if len(a) == 1 and isinstance(a[0], (list, tuple)) else a)]
    return z3.And(*a) if a else z3.BoolVal(True)


def Or(*a):
    a = [x for x in (list(a[0]) if len(a) == 1 and isinstance(a[0], (list, tuple)) else a)]
    return z3.Or(*a) if a else z3.BoolVal(False)


Not, Implies = z3.Not, z3.Implies


def amo(xs):
    xs = list(xs)
    return And([Not(And(xs[i], xs[j])) for i in range(len(xs)) for j in range(i)])


def one(xs):
    xs = list(xs)
    return And(amo(xs), Or(xs))


class TileV:
    """A cell's variables as z3 Booleans."""

    def __init__(self, inst, conv, numconv):
        self.inst, self.conv, self.numconv = inst, conv, numconv

    def __getattr__(self, name):
        v = getattr(self.inst, name)
        if isinstance(v, list):
            r = [self.conv(x) if not isinstance(x, list) else [self.conv(y) for y in x] for x in v]
        else:
            r = self.conv(v)
        self.__dict__[name] = r
        return r

    def raw(self, name):
        return getattr(self.inst, name)

    # derived notions
    @property
    def inp(self):
        return self.input_direction

    @property
    def out(self):
        return self.output_direction

    @property
    def ug(self):
        return self.underground

    def num(self, name):
        """Integer value of a number field."""
        return self.numconv(getattr(self.inst, name))

    def ug_in(self, d):
        return And(self.is_underground_in, self.inp[d])

    def ug_out(self, d):
        return And(self.is_underground_out, self.out[d])

    def facing(self, d):
        """A splitter half of direction d."""
        return And(self.is_splitter, Or(self.inp[d], self.out[d]))


class View:
    W = H = None
    wrap = (False, False)
    symbolic = False

    def tile(self, x, y):
        raise NotImplementedError

    def in_range(self, x, y):
        raise NotImplementedError

    def at_min_x(self, x):
        return x == 0

    def cells(self):
        raise NotImplementedError


class SymView(View):
    symbolic = True

    def __init__(self, engine, grid, wrap):
        self.E = engine
        from pyvc.sym import iterm
        self.W, self.H = iterm(grid.width), iterm(grid.height)
        self.wrap = wrap
        self.grid = grid
        self.arr = grid.tiles

    def mk(self, inst):
        return TileV(inst, lambda l: l.t, numval)

    def tile(self, x, y):
        return self.mk(self.arr.at(SInt(y), SInt(x)))

    def in_range(self, x, y):
        return And(0 <= x, x < self.W, 0 <= y, y < self.H)

    def pos(self, x, y, dx, dy):
        """(exists, x', y') of the cell at an offset."""
        from pyvc.sym import mod_f
        ex = []
        def ax(v, d, n, wrap):
            if isinstance(d, int) and d == 0:
                return v
            t = z3.simplify(v + d)
            if wrap:
                return mod_f(t, n)
            ex.append(And(t >= 0, t < n))
            return t
        x2, y2 = ax(x, dx, self.W, self.wrap[0]), ax(y, dy, self.H, self.wrap[1])
        return And(ex), x2, y2

    def nb(self, x, y, dx, dy):
        e, x2, y2 = self.pos(x, y, dx, dy)
        return e, self.tile(x2, y2)


class ConcView(View):
    """A real grid object; variable numbers become z3 Booleans."""

    def __init__(self, grid, wrap):
        self.W, self.H, self.wrap, self.grid = grid.width, grid.height, wrap, grid
        self.cache = {}

    def conv(self, l):
        return z3.Bool(f'v{l}') if l > 0 else z3.Not(z3.Bool(f'v{-l}'))

    def tile(self, x, y):
        k = x, y
        if k not in self.cache:
            self.cache[k] = TileV(self.grid.tiles[y, x], self.conv, self.numval)
        return self.cache[k]

    def numval(self, bits):
        return z3.Sum([z3.If(self.conv(b), 1 << i, 0) for i, b in enumerate(bits)]) if bits else z3.IntVal(0)

    def in_range(self, x, y):
        return z3.BoolVal(0 <= x < self.W and 0 <= y < self.H)

    def pos(self, x, y, dx, dy):
        p = []
        for v, d, n, w in ((x, dx, self.W, self.wrap[0]), (y, dy, self.H, self.wrap[1])):
            t = v + d
            if not 0 <= t < n:
                if not w:
                    return z3.BoolVal(False), None, None
                t %= n
            p.append(t)
        return z3.BoolVal(True), p[0], p[1]

    def nb(self, x, y, dx, dy):
        e, x2, y2 = self.pos(x, y, dx, dy)
        if x2 is None:
            return e, Nowhere()
        return e, self.tile(x2, y2)

    def cells(self):
        return [(x, y) for x in range(self.W) for y in range(self.H)]


class Nowhere:
    """Tile beyond the edge: every variable is an arbitrary (fresh) Boolean; always used under its false existence."""
    n = 0

    def __getattr__(self, name):
        if name in ('colour', 'type', 'input_direction', 'output_direction', 'underground', 'all_direction', 'inp', 'out', 'ug'):
            return [z3.BoolVal(False)] * 8
        return z3.BoolVal(False)

    def num(self, name):
        return z3.IntVal(0)

    def raw(self, name):
        return []

    def ug_in(self, d):
        return z3.BoolVal(False)

    ug_out = facing = ug_in


def numval(bits):
    """Integer value of a list of literals; a symbolic-width number gets an uninterpreted value of its bit family."""
    if any(isinstance(b, Fam) for b in bits):
        if len(bits) != 1 or not bits[0].uniform:
            from pyvc.sym import Unsupported
            raise Unsupported('number value of a composite list')
        f = bits[0]
        t = f.alts[0][1][0].t
        neg = z3.is_not(t)
        if neg:
            from pyvc.sym import Unsupported
            raise Unsupported('negated number')
        d = t.decl()
        args = [t.arg(i) for i in range(t.num_args()) if not t.arg(i).eq(f.vars[0])]
        if len(args) != t.num_args() - 1:
            from pyvc.sym import Unsupported
            raise Unsupported('number bits')
        return z3.Function('num$' + d.name(), *([z3.IntSort()] * len(args)), z3.IntSort())(*args)
    return z3.Sum([z3.If(b.t, z3.IntVal(1 << i), z3.IntVal(0)) for i, b in enumerate(bits)]) if bits else z3.IntVal(0)


# ---------------------------------------------------------------------------------------------------- C03
def base(v, x, y, colours=None):
    """Well-formed cell of the base grid."""
    t = v.tile(x, y)
    r = []
    kinds = [t.is_belt, t.is_empty, t.is_splitter, t.is_underground_in, t.is_underground_out]
    r.append(('one kind', one(kinds)))
    r.append(('at most one input side', amo(t.inp)))
    r.append(('at most one output side', amo(t.out)))
    has_in, has_out = Or(t.inp), Or(t.out)
    r.append(('empty unconnected', Implies(t.is_empty, And(Not(has_in), Not(has_out)))))
    r.append(('belt connected', Implies(t.is_belt, And(has_in, has_out))))
    r.append(('entrance', Implies(t.is_underground_in, And(has_in, Not(has_out)))))
    r.append(('exit', Implies(t.is_underground_out, And(Not(has_in), has_out))))
    r.append(('splitter connected', Implies(t.is_splitter, Or(has_in, has_out))))
    for d in range(4):
        r.append((f'no u-turn {DN[d]}', Not(And(t.inp[d], t.out[rev(d)]))))
        r.append((f'splitter straight {DN[d]}', Implies(And(t.is_splitter, t.inp[d]), And([Not(t.out[e]) for e in range(4) if e != d]))))
    r.append(('one horizontal passage', Not(And(t.ug[RIGHT], t.ug[LEFT]))))
    r.append(('one vertical passage', Not(And(t.ug[UP], t.ug[DOWN]))))
    r.append(('head is a splitter', Implies(t.is_splitter_head, t.is_splitter)))
    for d in range(4):
        e, o = v.nb(x, y, *VEC[nxt(d)])
        r.append((f'head has tail {DN[d]}', Implies(And(t.facing(d), t.is_splitter_head), And(e, o.facing(d), Not(o.is_splitter_head)))))
        e, o = v.nb(x, y, *VEC[prv(d)])
        r.append((f'tail has head {DN[d]}', Implies(And(t.facing(d), Not(t.is_splitter_head)), And(e, o.facing(d), o.is_splitter_head))))
    ins = Or(And(t.inp[RIGHT], x == 0), And(t.inp[LEFT], x == v.W - 1), And(t.inp[DOWN], y == 0), And(t.inp[UP], y == v.H - 1))
    outs = Or(And(t.out[LEFT], x == 0), And(t.out[RIGHT], x == v.W - 1), And(t.out[UP], y == 0), And(t.out[DOWN], y == v.H - 1))
    r.append(('input flag', t.is_input == ins))
    r.append(('output flag', t.is_output == outs))
    if colours is not None:
        for f in ('colour', 'colour_ux', 'colour_uy'):
            r.append((f'{f} range', t.num(f) <= colours - 1))
    return r


# ---------------------------------------------------------------------------------------------------- C04
def intersection(v, x, y):
    t = v.tile(x, y)
    r = []
    for d in range(4):
        e, o = v.nb(x, y, *VEC[d])
        r.append((f'output meets input {DN[d]}', Implies(e, t.out[d] == o.inp[d])))
        # splitter half of direction d receiving input: the cell ahead, if not a splitter, must not be something the
        # game would connect it to unless it really is fed: a sideways belt or turn, or a turn running away
        bad = [(i, q) for i in range(4) for q in range(4) if i != d and q != rev(d) and i != rev(q)
               and (i, q) != (d, d)]
        r.append((f'splitter output {DN[d]}', Implies(And(e, t.is_splitter, t.inp[d], Not(o.is_splitter)),
                                                      And([Not(And(o.inp[i], o.out[q])) for i, q in bad]))))
    return r


# ---------------------------------------------------------------------------------------------------- C05
def undergrounds(v, x, y):
    t = v.tile(x, y)
    r = []
    for d in range(4):
        e, o = v.nb(x, y, *VEC[d])
        b, p = v.nb(x, y, *VEC[rev(d)])
        r.append((f'end not covered {DN[d]}', Implies(Or(t.ug_in(d), t.ug_out(d)), And(Not(t.ug[d]), Not(t.ug[rev(d)])))))
        r.append((f'entrance starts a passage {DN[d]}', Implies(And(t.ug_in(d), e), o.ug[d])))
        r.append((f'exit ends a passage {DN[d]}', Implies(And(t.ug_out(d), b), p.ug[d])))
        r.append((f'passage goes on {DN[d]}', Implies(And(t.ug[d], e), Or(o.ug[d], o.ug_out(d)))))
        r.append((f'passage came from {DN[d]}', Implies(And(t.ug[d], b), Or(p.ug[d], p.ug_in(d)))))
    return r


def max_length(v, x, y, length):
    """No length + 1 consecutive passage cells."""
    r = []
    for d in range(4):
        dx, dy = VEC[d]
        if v.symbolic and not isinstance(length, int):
            i, k = z3.Ints('len_i len_k')
            ex, _, _ = v.pos(x, y, dx * i if dx else 0, dy * i if dy else 0)
            _, x2, y2 = v.pos(x, y, dx * k if dx else 0, dy * k if dy else 0)
            t = v.tile(x2, y2)
            inside = z3.ForAll([i], Implies(And(0 <= i, i <= length), ex))
            r.append((f'length {DN[d]}', Implies(inside, z3.Exists([k], And(0 <= k, k <= length, Not(t.ug[d]))))))
        else:
            es = [v.nb(x, y, dx * i, dy * i) for i in range(length + 1)]
            r.append((f'length {DN[d]}', Implies(And([e for e, _ in es]), Or([Not(t.ug[d]) for _, t in es]))))
    return r


# ---------------------------------------------------------------------------------------------------- C06
def transport(v, x, y, q, qx, qy, eq):
    """Quantities (selected by q, qx, qy from a raw tile) carried along belts and passages; eq compares two of them."""
    t = v.tile(x, y)
    r = []
    for d in range(4):
        u = qx if d in (RIGHT, LEFT) else qy
        e, o = v.nb(x, y, *VEC[d])
        b, p = v.nb(x, y, *VEC[rev(d)])
        if not (z3.is_false(e)):
            r.append((f'belt {DN[d]}', Implies(And(e, t.out[d], Not(t.is_splitter)), eq(q(t), q(o)))))
            r.append((f'passage {DN[d]}', Implies(And(e, t.ug[d]), eq(u(t), u(o)))))
            r.append((f'into passage {DN[d]}', Implies(And(e, t.inp[d], Not(t.is_splitter), Not(Or(t.out))), eq(q(t), u(o)))))
        if not (z3.is_false(b)):
            r.append((f'out of passage {DN[d]}', Implies(And(b, t.out[d], Not(t.is_splitter), Not(Or(t.inp))), eq(u(p), q(t)))))
    return r


# ---------------------------------------------------------------------------------------------------- C07
EDGES = ['left', 'top', 'right', 'bottom']          # order of the four-tuple: min x, min y, max x, max y
TOWARDS = [LEFT, UP, RIGHT, DOWN]


def edge_cells(v, x, y):
    return [x == 0, y == 0, x == v.W - 1, y == v.H - 1]


def belts_blocked(v, x, y, edges):
    t = v.tile(x, y)
    r = []
    for k, on in enumerate(edge_cells(v, x, y)):
        if not edges[k]:
            continue
        d = TOWARDS[k]
        r.append((f'{EDGES[k]} not crossed', Implies(on, And(Not(t.out[d]), Not(t.inp[rev(d)])))))
        r.append((f'{EDGES[k]} moving towards goes on', Implies(And(on, t.inp[d]), Or(t.out))))
        r.append((f'{EDGES[k]} moving away came from', Implies(And(on, t.out[rev(d)]), Or(t.inp))))
    return r


def undergrounds_blocked(v, x, y, edges):
    t = v.tile(x, y)
    r = []
    for k, on in enumerate(edge_cells(v, x, y)):
        if not edges[k]:
            continue
        d = TOWARDS[k]
        r.append((f'{EDGES[k]} no passage', Implies(on, And(Not(t.ug[d]), Not(t.ug[rev(d)])))))
        r.append((f'{EDGES[k]} no entrance', Implies(on, Not(t.ug_in(d)))))
        r.append((f'{EDGES[k]} no exit', Implies(on, Not(t.ug_out(rev(d))))))
    return r
