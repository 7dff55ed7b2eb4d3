"""Proof harness for rules over grids of arbitrary size: emitted clause schemas <=> declarative spec."""
import itertools
import sys
import time

sys.dont_write_bytecode = True
if '/repo' not in sys.path:
    sys.path.insert(0, '/repo')

from . import prove, sym
from .interp import Engine, IFunc
from .prove import Prover, Schema, schemas
from .sym import Fam, Lit, SBool, SInt, Unsupported, iterm, mkint, z3
from specs import grid as G


class Pool:
    """Stand-in for the id pool: every call gives a new literal (a new function of the enclosing iteration)."""

    def __init__(self, E):
        self.E = E

    def _next(self):
        return Lit(self.E.fresh_bool('v'))

    def __pyvc_subst__(self, pairs):
        return self


def modes():
    from factorio_sat.template import EdgeMode
    return {(False, False): EdgeMode.NO_WRAP, (True, True): EdgeMode.WRAP,
            (True, False): (EdgeMode.WRAP, EdgeMode.NO_WRAP), (False, True): (EdgeMode.NO_WRAP, EdgeMode.WRAP)}


# -------------------------------------------------------------------------------- contracts for numbers of symbolic width
def _symwidth(bits):
    return isinstance(bits, list) and any(isinstance(b, Fam) for b in bits)


def number_contracts():
    """set_maximum / set_number / set_not_number on bit lists of symbolic width (their contracts are proved in C01)."""
    from .sym import iterm

    def c_max(E, f, args, kw):
        value, lits = args
        if not _symwidth(lits):
            return E.run_body(f, args, kw)
        return E.new([[Lit(G.numval(lits) <= iterm(value))]])

    def c_set(E, f, args, kw):
        value, lits = args
        if not _symwidth(lits):
            return E.run_body(f, args, kw)
        return E.new([[Lit(G.numval(lits) == iterm(value))]])

    def c_not(E, f, args, kw):
        value, lits = args
        if not _symwidth(lits):
            return E.run_body(f, args, kw)
        return E.new([Lit(G.numval(lits) != iterm(value))])
    return {'util.set_maximum': c_max, 'util.set_number': c_set, 'util.set_not_number': c_not}


def offset_contract(E, f, args, kw):
    """Contract of the neighbour lookup (its body is verified against this by accessor_obligations): for a cell inside
    the grid, the cell at the offset, wrapped along wrapping axes, or None if outside along another axis."""
    from factorio_sat.template import EdgeMode
    if kw or len(args) != 5:
        return E.run_body(f, args, kw)
    self, x, y, dx, dy = args
    if not isinstance(self.tiles, sym.SymArray2D) or not all(isinstance(v, (int, SInt)) for v in (x, y, dx, dy)):
        return E.run_body(f, args, kw)
    W, H = iterm(self.width), iterm(self.height)
    if E.feasible(z3.Not(z3.And(0 <= iterm(x), iterm(x) < W, 0 <= iterm(y), iterm(y) < H))):
        return E.run_body(f, args, kw)
    pos, inside = [], []
    for v, d, n, mode in ((x, dx, W, self.edge_mode[0]), (y, dy, H, self.edge_mode[1])):
        if isinstance(d, int) and d == 0:
            pos.append(v)
            continue
        t = z3.simplify(iterm(v) + iterm(d))
        if mode == EdgeMode.WRAP:
            E.axiom(z3.And(0 <= sym.mod_f(t, n), sym.mod_f(t, n) < n))
            pos.append(SInt(z3.simplify(sym.mod_f(t, n))))
        elif mode == EdgeMode.NO_WRAP:
            inside.append(z3.And(0 <= t, t < n))
            pos.append(mkint(t))
        else:
            return E.run_body(f, args, kw)
    if inside and not E.decide(z3.And(*inside)):
        return None
    return self.tiles.at(pos[1], pos[0])


def accessor_obligations(prover, ctx=None):
    """The bodies of the position lookups meet their contracts, for every grid size, position, offset and edge mode."""
    for wrap in modes():
        def build(E, W, H, mode, pool, run):
            from factorio_sat.template import BaseGrid, BoolTemplate, CompositeTemplate
            g = E.call(BaseGrid, (E.call(CompositeTemplate, ({'a': BoolTemplate(), 'b': BoolTemplate()},)), SInt(W), SInt(H)), dict(pool=pool, edge_mode=mode))
            x, y, dx, dy = z3.Ints('x y dx dy')
            E.assume(z3.And(0 <= x, x < W, 0 <= y, y < H))
            return g, E.call(g.get_tile_instance_offset, tuple(map(SInt, (x, y, dx, dy))))
        run = GridRun(wrap, build, contracts={'template.BaseGrid.get_tile_instance_offset': None})
        if ctx is not None:
            ctx.functions(run.E)
        W, H, x, y, dx, dy = z3.Ints('W H x y dx dy')
        base = [W >= 1, H >= 1, 0 <= x, x < W, 0 <= y, y < H]
        tag = f'lookup wrap={wrap}'
        prover.goal(prover.solver(base), f'{tag}: paths cover', z3.Or([p.cond for p in run.paths]) if run.paths else z3.BoolVal(False))
        for n, p in enumerate(run.paths):
            s = prover.solver(base + p.conds)
            if p.outcome != 'normal':
                prover.goal(s, f'{tag}: path {n} raises {type(p.value).__name__}', z3.BoolVal(False))
                continue
            g, res = p.value
            tx, ty = z3.simplify(x + dx), z3.simplify(y + dy)
            ex = z3.And([z3.And(0 <= t, t < m) for t, m, w in ((tx, W, wrap[0]), (ty, H, wrap[1])) if not w] or [z3.BoolVal(True)])
            if res is None:
                prover.goal(s, f'{tag}: path {n} nothing only outside', z3.Not(ex))
                continue
            prover.goal(s, f'{tag}: path {n} cell only inside', ex)
            want = g.tiles.at(SInt(sym.mod_f(ty, H) if wrap[1] else ty), SInt(sym.mod_f(tx, W) if wrap[0] else tx))
            a, b = lit_terms(res), lit_terms(want)
            ok = len(a) == len(b) and all(i.decl().eq(j.decl()) for i, j in zip(a, b))
            args = []
            if ok:
                for i, j in zip(a, b):
                    args += [i.arg(k) == j.arg(k) for k in range(i.num_args())]
            args = list({t.get_id(): t for t in args}.values())
            prover.goal(s, f'{tag}: path {n} right cell', z3.And(args) if ok else z3.BoolVal(False))


def lit_terms(o):
    if isinstance(o, Lit):
        return [o.t]
    if isinstance(o, (list, tuple)):
        return [t for x in o for t in lit_terms(x)]
    return []


class GridRun:
    """One symbolic execution of grid-building code."""

    def __init__(self, wrap, build, assume=None, contracts=None, timeout_ms=3000, merge=False):
        """build(E, W, H, mode) -> (grid, marks) where marks are positions in grid.clauses."""
        self.wrap = wrap
        if merge:
            try:
                self._run(wrap, build, contracts, timeout_ms, True)
                return
            except sym.EngineError as e:
                import os, traceback
                if os.environ.get('VERIF_DEBUG') == '2':
                    traceback.print_exc()
        self._run(wrap, build, contracts, timeout_ms, False)

    def _run(self, wrap, build, contracts, timeout_ms, merge):
        self.E = E = Engine(contracts={**number_contracts(), 'template.BaseGrid.get_tile_instance_offset': offset_contract, **(contracts or {})}, timeout_ms=timeout_ms)
        E.merge_concrete = merge
        W, H = z3.Ints('W H')
        self.W, self.H = W, H
        mode = modes()[wrap]
        self.hyp = [W >= 1, H >= 1]

        def run():
            for h in self.hyp:
                E.assume(h)
            out = build(E, W, H, mode, Pool(E), self)
            return out
        self.paths = E.explore(run)


def grid_of(E, W, H, mode, pool, colours=None, cls=None, **kw):
    from factorio_sat.solver import Grid
    return E.call(cls or Grid, (SInt(W), SInt(H), colours), dict(pool=pool, edge_mode=mode, **kw))


def axes_of(schema, decls):
    """Which schema variables are used as row (first) / column (second) index of cell functions."""
    if schema._axes is not None and schema._axes[0] is decls:
        return schema._axes[1]
    kinds = {}
    exprs = []
    for l in schema.lits:
        exprs.append(l[2] if isinstance(l, tuple) else l)
    seen = set()
    stack = exprs
    names = {v.get_id(): v for v in schema.vars}
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().name() in decls and e.num_args() >= 2:
            for pos, kind in ((0, 'y'), (1, 'x')):
                for v in _consts(e.arg(pos)):
                    if v.get_id() in names:
                        kinds.setdefault(v.get_id(), set()).add(kind)
        stack.extend(e.children())
    schema._axes = (decls, kinds)
    return kinds


def _consts(e):
    out, stack, seen = [], [e], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        stack.extend(x.children())
    return out


def cell_decls(arr):
    """Names of the function symbols of the cell variables."""
    names = set()

    def walk(o):
        if isinstance(o, Lit):
            t = o.t.arg(0) if z3.is_not(o.t) else o.t
            names.add(t.decl().name())
        elif isinstance(o, Fam):
            for c, its in o.alts:
                walk(its)
            try:
                names.add('num$' + o.alts[0][1][0].t.decl().name())
            except Exception:
                pass
        elif isinstance(o, (list, tuple)):
            for x in o:
                walk(x)
    walk(arr.elem)
    return names


def positions(expr, decls):
    """Ground (y, x) argument pairs of cell functions in expr."""
    out, stack, seen = {}, [expr], set()
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            stack.append(e.body())
            continue
        if z3.is_app(e) and e.decl().name() in decls and e.num_args() >= 2:
            y, x = z3.simplify(e.arg(0)), z3.simplify(e.arg(1))
            if not prove.has_var(y) and not prove.has_var(x):
                out[(y.get_id(), x.get_id())] = (x, y)
        stack.extend(e.children())
    return list(out.values())


def near(view, pts, R):
    """The points plus all points within R steps along each axis (wrapping as the grid does)."""
    out = {}
    for x, y in pts:
        for dx in range(-R, R + 1):
            for dy in range(-R, R + 1):
                _, x2, y2 = view.pos(x, y, dx, dy)
                x2, y2 = z3.simplify(x2), z3.simplify(y2)
                out[(x2.get_id(), y2.get_id())] = (x2, y2)
    return list(out.values())


def cross(view, pts, R):
    out = {}
    for x, y in pts:
        for k in range(-R, R + 1):
            for dx, dy in ((k, 0), (0, k)):
                _, x2, y2 = view.pos(x, y, dx, dy)
                x2, y2 = z3.simplify(x2), z3.simplify(y2)
                out[(x2.get_id(), y2.get_id())] = (x2, y2)
    return list(out.values())


def inst_schema(s, decls, pts, others=None):
    """Ground instances of schema s at the candidate points."""
    kinds = axes_of(s, decls)
    xv = [v for v in s.vars if kinds.get(v.get_id()) == {'x'}]
    yv = [v for v in s.vars if kinds.get(v.get_id()) == {'y'}]
    rest = [v for v in s.vars if v.get_id() not in kinds or len(kinds[v.get_id()]) != 1]
    out, seen = [], set()
    if len(xv) <= 1 and len(yv) <= 1:
        combos = []
        for x, y in pts:
            combos.append([(v, x) for v in xv] + [(v, y) for v in yv])
    else:
        xs = list({x.get_id(): x for x, y in pts}.values())
        ys = list({y.get_id(): y for x, y in pts}.values())
        combos = [list(zip(xv, a)) + list(zip(yv, b)) for a in itertools.product(xs, repeat=len(xv))
                  for b in itertools.product(ys, repeat=len(yv))]
    for c in combos:
        key = tuple((v.get_id(), t.get_id()) for v, t in c)
        if key in seen:
            continue
        seen.add(key)
        f = s.inst(c)
        if rest:
            if others:
                for o in itertools.product(*(others(v) for v in rest)):
                    out.append(z3.substitute(f, *zip(rest, o)))
            else:
                out.append(z3.ForAll(rest, f))
        else:
            out.append(f)
    return out


class RuleProof:
    """Equivalence of a rule's clauses with its spec, relative to the well-formed base grid, for every grid size."""

    def __init__(self, prover, view, rule_schemas, spec, base_spec=None, hyps=(), R=1, decls=None):
        self.p, self.view, self.schemas, self.spec, self.base = prover, view, rule_schemas, spec, base_spec
        self.hyps = list(hyps)
        self.R = R
        self.decls = decls or cell_decls(view.arr)
        self._generic = {}

    def sound(self, label=''):
        """clauses |= spec(X, Y) for an arbitrary cell."""
        v = self.view
        X, Y = z3.Ints('X Y')
        goals = self.spec(v, X, Y)
        pts = near(v, [(X, Y)], self.R)
        hyp = self.hyps + [v.in_range(X, Y)]
        for s in self.schemas:
            hyp += inst_schema(s, self.decls, pts)
        if self.base is not None:
            for x, y in near(v, [(X, Y)], 1):
                hyp += self.at('base', self.base, x, y)
        s = self.p.solver(hyp)
        self.p.reachable(hyp, f'{label}sound')
        self.p.goals(s, [(f'{label}every model: {name}', g) for name, g in goals], 8)

    def complete(self, label=''):
        """spec |= every emitted clause (nothing else is excluded)."""
        v = self.view
        groups = {}
        for n, s in enumerate(self.schemas):
            groups.setdefault(tuple(w.get_id() for w in s.vars), []).append((n, s))
        for group in groups.values():
            goals, pts = [], {}
            for n, s in group:
                new, pairs = prove.rename(s, 'g')
                goal = s.inst(pairs)
                goals.append((n, goal))
                kinds = axes_of(s, self.decls)
                for x, y in positions(goal, self.decls):
                    pts[(x.get_id(), y.get_id())] = (x, y)
                xs = [b for a, b in pairs if kinds.get(a.get_id()) == {'x'}]
                ys = [b for a, b in pairs if kinds.get(a.get_id()) == {'y'}]
                for x in xs:
                    for y in ys:
                        pts[(x.get_id(), y.get_id())] = (x, y)
            at = cross(v, list(pts.values()), 1)
            hyp = list(self.hyps)
            for x, y in at:
                hyp += self.at('spec', self.spec, x, y)
                if self.base is not None:
                    hyp += self.at('base', self.base, x, y)
            sol = self.p.solver(hyp)
            self.p.goals(sol, [(f'{label}clause {n} allowed by spec', goal) for n, goal in goals])

    def at(self, key, spec, x, y):
        """Conjuncts of a spec at a cell, guarded by the cell being in range (instantiated from one generic copy)."""
        if key not in self._generic:
            gx, gy = z3.Ints('gx gy')
            self._generic[key] = [z3.Implies(self.view.in_range(gx, gy), f) for _, f in spec(self.view, gx, gy)]
        gx, gy = z3.Ints('gx gy')
        return [z3.substitute(f, (gx, x), (gy, y)) for f in self._generic[key]]


def same_prefix(a, b, n):
    return len(a) >= n and all(x is y for x, y in zip(a[:n], b[:n]))
