"""Proof harness of the balancer constructors: the grid rules they switch on (contracts of C03-C08) and the exactly-n encodings
become named atoms, so that the caller is verified against its callees' contracts."""
from .common import *


class Harness:
    def __init__(self, height=None):
        from pyvc.sym import z3, Lit
        self.z3, self.Lit = z3, Lit
        self.W, self.H = z3.Ints('W H')
        self.height = self.H if height is None else z3.IntVal(height)
        self.made = []

    def atom(self, s):
        return self.Lit(self.z3.Bool(f'atom {s}'))

    def B(self, s):
        return self.z3.Bool(f'atom {s}')

    def add(self, E, grid, label):
        E.call(grid.clauses.append, (E.new([self.atom(label)]),))

    def contracts(self):
        from pyvc.sym import Unsupported

        def c_init(E, f, args, kw):
            r = E.run_body(f, args, kw)
            self.made.append((args[0], len(args[0].clauses)))
            return r

        def rule(label):
            def c(E, f, args, kw):
                if len(args) > 1 or kw:
                    raise Unsupported('rule arguments')
                self.add(E, args[0], label)
            return c

        def c_block(E, f, args, kw):
            e = list(args[1:]) + list(kw.values())
            flat = lambda v: all(flat(i) for i in v) if isinstance(v, (list, tuple)) else v is True
            self.add(E, args[0], 'no passage through any edge' if all(flat(v) for v in e) else f'passages {e!r}')

        def c_equals(E, f, args, kw):
            xs, n = args[0], args[1]
            if not isinstance(n, int):
                raise Unsupported('count')
            if all(isinstance(x, self.Lit) for x in xs):
                # a concrete list: exactly n of its literals
                z3 = self.z3
                return E.new([[self.Lit(z3.Sum([z3.If(x.t, z3.IntVal(1), z3.IntVal(0)) for x in xs] + [z3.IntVal(0)]) == n)]])
            return E.new([[self.atom(f'{self.family(self.made[-1][0], xs)} = {n}')]])

        def c_transport(E, f, args, kw):
            g = args[0]
            fs = list(args[1:]) + [kw[k] for k in ('quantity', 'quantity_ux', 'quantity_uy')[len(args) - 1:]]
            names = [self.field_of(g, lambda t, q=q: E.call(q, (t,))) for q in fs]
            if names[0] is None:
                return
            self.add(E, g, f'{names[0]} carried along {names[1]} and {names[2]}')
        return {'solver.Grid.__init__': c_init, 'solver.Grid.block_underground_through_edges': c_block,
                'solver.Grid.prevent_bad_undergrounding': rule('undergrounds pair up'), 'solver.Grid.prevent_bad_colouring': rule('colours are carried'),
                'solver.Grid.prevent_colour': lambda E, f, args, kw: self.add(E, args[0], f'no colour {args[1]}'),
                'solver.Grid.transport_quantity': c_transport, 'cardinality.library_equals': c_equals}

    def paths_of(self, tile, prefix=''):
        """field path -> literal terms of a cell."""
        out = {}
        for k in tile._fields:
            v = getattr(tile, k)
            if prefix == '' and k in ('type', 'all_direction'):
                continue
            if hasattr(v, '_fields'):
                out.update(self.paths_of(v, f'{prefix}{k}.'))
            else:
                out[prefix + k] = v
        return out

    def generic(self, g):
        from pyvc.sym import SInt
        y, x = self.z3.Ints('ty tx')
        return g.tiles.at(SInt(y), SInt(x))

    def field_of(self, g, fn):
        from pyvc.gridproof import lit_terms
        from pyvc.sym import Unsupported
        t = self.generic(g)
        got = [a.get_id() for a in lit_terms(fn(t))]
        if not got:
            return None
        for k, v in self.paths_of(t).items():
            if [a.get_id() for a in lit_terms(v)] == got:
                return k
        raise Unsupported('quantity')

    def family(self, g, xs):
        """Name of the set of literals counted: a field over all cells, or over the odd or even ones."""
        from pyvc.prove import lit_list
        from pyvc.sym import SInt, Unsupported
        z3 = self.z3
        ts = lit_list(xs)
        fields, cells = set(), []
        for e in ts:
            if not isinstance(e, tuple):
                raise Unsupported('literals counted')
            vs, guard, t = e
            if t.num_args() != 2:
                raise Unsupported('literals counted')
            y, x = t.arg(0), t.arg(1)
            for k, v in self.paths_of(g.tiles.at(SInt(y), SInt(x))).items():
                for m, l in enumerate(v if isinstance(v, list) else [v]):
                    if isinstance(l, self.Lit) and l.t.eq(t):
                        fields.add(f'{k}[{m}]' if isinstance(v, list) else k)
            cells.append((vs, guard, y, x))
        if len(fields) != 1:
            raise Unsupported('literals counted')
        # every cell of the set exactly once: the pieces are disjoint, injective and cover it
        field = fields.pop()
        cx, cy = z3.Ints('cellx celly')
        hit = []
        for vs, guard, y, x in cells:
            s = z3.Solver()
            s.set('timeout', 3000)
            s.add(self.W >= 1, self.H >= 1)
            ren = [(v, z3.Int(f'{v}~2')) for v in vs]
            s.add(guard, z3.substitute(guard, *ren), x == z3.substitute(x, *ren), y == z3.substitute(y, *ren), z3.Or([a != b for a, b in ren]))
            if s.check() != z3.unsat:
                raise Unsupported('cells counted')
            hit.append(z3.Exists(vs, z3.And(guard, x == cx, y == cy)))
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(self.W >= 1, self.H >= 1)
        for i in range(len(hit)):
            for j in range(i):
                s.push()
                s.add(hit[i], hit[j])
                if s.check() != z3.unsat:
                    raise Unsupported('cells counted')
                s.pop()
        inr = z3.And(0 <= cx, cx < self.W, 0 <= cy, cy < self.height)
        for label, extra in (('', z3.BoolVal(True)), (' odd', (cx + cy) % 2 == 1), (' even', (cx + cy) % 2 == 0)):
            s.push()
            s.add(z3.Or(hit) != z3.And(inr, extra))
            r = s.check()
            s.pop()
            if r == z3.unsat:
                return field + label
        raise Unsupported('cells counted')

    def run(self, call, hy=(), contracts=None):
        """Symbolic execution of the constructor; call(E) -> grid."""
        from pysat.formula import IDPool
        from pyvc.gridproof import GridRun, Pool

        def build(E, W, H, mode, pool, run):
            E.class_hooks[IDPool] = lambda E, *a, **k: Pool(E)
            for h in hy:
                E.assume(h)
            self.made.clear()
            g = call(E)
            return g, list(self.made)
        return GridRun((False, False), build, contracts={**self.contracts(), **(contracts or {})})

    def grid_of(self, path):
        from pyvc.sym import Unsupported
        g, mk = path.value
        if len(mk) != 1 or mk[0][0] is not g:
            raise Unsupported('grid')
        return g, g.clauses[mk[0][1]:]


def pairing_goals(p, v, hyps, label):
    """The two halves of a splitter pair up (behind counting splitters by their odd cells)."""
    from pyvc.sym import z3
    X, Y = z3.Ints('X Y')
    base = [z3.Implies(v.in_range(x, y), f) for dx in (-1, 0, 1) for dy in (-1, 0, 1) for x, y in [(X + dx, Y + dy)] for _, f in G.base(v, x, y)] + [v.in_range(X, Y)]
    s = p.solver(hyps + base)
    t = v.tile(X, Y)
    for d in range(4):
        for head, step in ((True, G.nxt(d)), (False, G.prv(d))):
            e, o = v.nb(X, Y, *G.VEC[step])
            hd = t.is_splitter_head if head else G.Not(t.is_splitter_head)
            oh = G.Not(o.is_splitter_head) if head else o.is_splitter_head
            p.goal(s, f'{label}the two halves of a splitter {G.DN[d]} pair up ({head})', G.Implies(G.And(t.facing(d), hd), G.And(e, o.facing(d), oh)))
