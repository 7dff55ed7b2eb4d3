"""Proof harness of the command line programs: main() is executed symbolically with the real argument parser (sizes symbolic,
options concrete), its callees replaced by their contracts, up to the call that solves the grid."""
from .balancers import Harness


class Solved(Exception):
    """The program reached itersolve."""

    def __init__(self, grid, clauses, args):
        super().__init__('solved')
        self.grid, self.clauses, self.args_ = grid, clauses, args


MARKS = [9973, 9967, 9949, 9941, 9931]


def parser_hook(argv, marks):
    """argparse.ArgumentParser: the real one, run on concrete arguments; numbers given as marks become symbolic."""
    import argparse
    real = argparse.ArgumentParser

    def hook(E, *a, **k):
        p = real(*[x for x in a], **k)

        class Parser:
            def add_argument(self, *a, **k):
                return p.add_argument(*a, **k)

            def parse_args(self, *a):
                ns = p.parse_args([str(x) for x in argv])
                for key, v in list(vars(ns).items()):
                    if isinstance(v, int) and not isinstance(v, bool) and v in marks:
                        setattr(ns, key, marks[v])
                return ns

            def __getattr__(self, name):
                return getattr(p, name)
        return Parser()
    return hook


class Programs(Harness):
    """Adds the rules the programs switch on."""

    def contracts(self):
        c = super().contracts()
        h = self

        def rule(label):
            def f(E, fn, args, kw):
                h.add(E, args[0], label)
            return f

        def edges(E, f, args, kw):
            e = list(args[1:]) + list(kw.values())
            flat = lambda v: [b for i in v for b in flat(i)] if isinstance(v, (list, tuple)) else [v]
            e = e[0] if e else True
            if isinstance(e, bool):
                e = [e] * 4
            elif len(e) == 2:
                e = [e[0], e[1], e[0], e[1]]
            for k, on in enumerate(e):
                if on is True:
                    h.add(E, args[0], f'{f.__name__} {k}')
        c['solver.Grid.prevent_intersection'] = rule('intersection')
        c['solver.Grid.enforce_maximum_underground_length'] = rule('maximum length')
        c['solver.Grid.block_belts_through_edges'] = edges
        c['solver.Grid.block_underground_through_edges'] = edges
        c['solver.Grid.itersolve'] = c['template.BaseGrid.itersolve'] = self.c_solve
        for n in self.optimisations():
            c[f'optimisations.{n}'] = lambda E, f, args, kw: None      # only ever add restrictions (C12)
        return c

    def optimisations(self):
        import factorio_sat.optimisations as O
        import types
        return [n for n, f in vars(O).items() if isinstance(f, types.FunctionType) and f.__module__ == O.__name__]

    def c_solve(self, E, f, args, kw):
        g = args[0]
        raise Solved(g, list(g.clauses), kw)

    def run_program(self, main, argv, marks, hy=(), contracts=None):
        import argparse
        from pysat.formula import IDPool
        from pyvc.gridproof import GridRun, Pool

        def build(E, W, H, mode, pool, run):
            E.class_hooks[IDPool] = lambda E, *a, **k: Pool(E)
            E.class_hooks[argparse.ArgumentParser] = parser_hook(argv, marks)
            for x in hy:
                E.assume(x)
            self.made.clear()
            try:
                E.call(main, ())
            except Solved as s:
                return s, list(self.made)
            return None, list(self.made)
        return GridRun((False, False), build, contracts={**self.contracts(), **(contracts or {})})
