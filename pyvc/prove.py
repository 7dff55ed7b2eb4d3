"""Clause schemas, instantiation and proof obligations."""
import itertools
import time

from . import sym
from .sym import Fam, Lit, SInt, Unsupported, iterm, z3

I = z3.IntSort()


class Schema:
    """for all vars: guard -> (some literal of lits is true); lits are z3 Bools or (vars, guard, Bool) existentials."""
    __slots__ = ('vars', 'guard', 'lits', 'src', '_body', '_axes')

    def __init__(self, vars, guard, lits, src=None):
        self.vars, self.guard, self.lits, self.src = vars, guard, lits, src
        self._body = self._axes = None

    def body(self):
        if self._body is not None:
            return self._body
        out = []
        for l in self.lits:
            if isinstance(l, tuple):
                out.append(z3.Exists(l[0], z3.And(l[1], l[2])))
            else:
                out.append(l)
        self._body = z3.Implies(self.guard, z3.Or(*out) if out else z3.BoolVal(False))
        return self._body

    def inst(self, pairs):
        return z3.substitute(self.body(), *pairs) if pairs else self.body()

    def __repr__(self):
        return f'Schema({self.vars}: {self.guard} -> {self.lits})'


def lit_list(clause, vars=(), guard=None):
    out = []
    for l in clause:
        if isinstance(l, Lit):
            out.append(l.t)
        elif isinstance(l, Fam):
            for c, items in l.alts:
                for t in lit_list(items):
                    if isinstance(t, tuple):
                        out.append((list(l.vars) + list(t[0]), z3.And(l.guard, c, t[1]), t[2]))
                    elif l.vars:
                        out.append((list(l.vars), z3.And(l.guard, c), t))
                    else:
                        out.append(z3.And(l.guard, c, t))
        else:
            raise Unsupported(f'clause element {l!r}')
    return out


def schemas(clauses, vars=(), guard=()):
    out = []
    for c in clauses:
        if isinstance(c, Fam):
            for cond, items in c.alts:
                out += schemas(items, tuple(vars) + tuple(c.vars), tuple(guard) + (c.guard, cond))
        elif isinstance(c, (list, tuple)):
            g = z3.simplify(z3.And(*guard)) if guard else sym.TRUE
            out.append(Schema(list(vars), g, lit_list(c)))
        else:
            raise Unsupported(f'not a clause: {c!r}')
    return out


def rename(s, tag):
    """Schema with fresh constants for its variables (for use as a goal)."""
    new = [z3.Int(f'{v}~{tag}') for v in s.vars]
    pairs = list(zip(s.vars, new))
    return new, pairs


_scan_memo = {}


def scan(e):
    """(contains a quantifier, applications of the arithmetic function symbols) of a formula; each node is visited once per process."""
    memo = _scan_memo
    got = memo.get(e.get_id())
    if got is not None:
        return got[1], got[2]
    if len(memo) > 3000000:
        memo.clear()
    special = {d.name() for d in (sym.mod_f, sym.div_f, sym.pow2_f, sym.bitlen_f)}
    stack = [(e, None)]
    while stack:
        x, kids = stack.pop()
        i = x.get_id()
        if i in memo:
            continue
        if kids is None:
            if z3.is_quantifier(x):
                kids = [x.body()]
            else:
                kids = x.children()
            if not kids:
                memo[i] = (x, False, ())
                continue
            stack.append((x, kids))
            for k in kids:
                if k.get_id() not in memo:
                    stack.append((k, None))
            continue
        q, apps = z3.is_quantifier(x), ()
        for k in kids:
            m = memo[k.get_id()]
            q = q or m[1]
            if m[2]:
                apps = apps + tuple(a for a in m[2] if not any(a is b for b in apps)) if apps else m[2]
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in special:
            apps = apps + (x,)
        memo[i] = (x, q, apps)
    got = memo[e.get_id()]
    return got[1], got[2]


def has_var(e):
    stack, seen = [e], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x):
            return True
        stack.extend(x.children())
    return False


def ground_axioms(exprs):
    """Facts about the arithmetic function symbols for every ground application in exprs."""
    out, seen, quantified = [], set(), False
    for x in exprs:
        for e in scan(x)[1]:
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            d = e.decl()
            if has_var(e):
                quantified = quantified or d.eq(sym.mod_f)
                continue
            if d.eq(sym.mod_f):
                a, b = e.arg(0), e.arg(1)
                out += [z3.Implies(b > 0, z3.And(e >= 0, e < b)), z3.Implies(z3.And(0 <= a, a < b), e == a),
                        z3.Implies(z3.And(b <= a, a < 2 * b), e == a - b), z3.Implies(z3.And(-b <= a, a < 0), e == a + b)]
            elif d.eq(sym.div_f):
                a, b = e.arg(0), e.arg(1)
                out += [z3.Implies(z3.And(0 <= a, a < b), e == 0), z3.Implies(z3.And(b <= a, a < 2 * b), e == 1),
                        z3.Implies(z3.And(-b <= a, a < 0), e == -1)]
            elif d.eq(sym.pow2_f):
                a = e.arg(0)
                out += [e >= 1, z3.Implies(a == 0, e == 1), z3.Implies(a >= 1, e >= 2)]
            elif d.eq(sym.bitlen_f):
                a = e.arg(0)
                out += [e >= 0, (a == 0) == (e == 0)]
    if quantified:
        a, b = z3.Ints('qa qb')
        e = sym.mod_f(a, b)
        out.append(z3.ForAll([a, b], z3.And(
            z3.Implies(b > 0, z3.And(e >= 0, e < b)), z3.Implies(z3.And(0 <= a, a < b), e == a),
            z3.Implies(z3.And(b <= a, a < 2 * b), e == a - b), z3.Implies(z3.And(-b <= a, a < 0), e == a + b)),
            patterns=[e]))
    return out


class Prover:
    """One proof session: hypotheses plus goals; counts obligations."""

    def __init__(self, name, timeout_ms=20000):
        self.name = name
        self.timeout = timeout_ms
        self.results = []      # (goal name, status, seconds, detail)
        self.time = 0.0

    def solver(self, hyps):
        s = z3.Solver()
        s.set('timeout', self.timeout)
        for h in hyps:
            s.add(h)
        for a in ground_axioms(hyps):
            s.add(a)
        return s

    def goal(self, s, name, goal, extra=()):
        """Prove goal from the solver's hypotheses plus extra."""
        t = time.time()
        s.push()
        for e in extra:
            s.add(e)
        ng = z3.Not(goal)
        s.add(ng)
        for a in ground_axioms(list(extra) + [ng]):
            s.add(a)
        r = s.check()
        detail = None
        if r == z3.sat:
            detail = s.model()
        s.pop()
        dt = time.time() - t
        self.time += dt
        status = 'proved' if r == z3.unsat else ('refuted' if r == z3.sat else 'unknown')
        self.results.append((f'{self.name}:{name}', status, dt, None if detail is None else str(detail)[:4000]))
        return status

    def goals(self, s, items, chunk=24):
        """Prove (name, goal) pairs, several in one query where they all hold."""
        items = list(items)
        for k in range(0, len(items), chunk):
            part = items[k:k + chunk]
            t = time.time()
            s.push()
            ng = z3.Not(z3.And([g for _, g in part]))
            s.add(ng)
            for a in ground_axioms([ng]):
                s.add(a)
            r = s.check() if len(part) > 1 else z3.unknown
            s.pop()
            dt = time.time() - t
            self.time += dt
            if r == z3.unsat:
                for name, _ in part:
                    self.results.append((f'{self.name}:{name}', 'proved', dt / len(part), None))
            else:
                for name, g in part:
                    self.goal(s, name, g)

    def reachable(self, hyps, name):
        """Vacuity guard: the (quantifier-free) hypotheses are satisfiable."""
        t = time.time()
        ground = [h for h in hyps if not has_quant(h)]
        s = z3.Solver()
        s.set('timeout', self.timeout)
        s.add(*ground)
        s.add(*ground_axioms(ground))
        r = s.check()
        self.time += time.time() - t
        status = 'proved' if r == z3.sat else ('refuted' if r == z3.unsat else 'unknown')
        self.results.append((f'{self.name}:reachable:{name}', status, time.time() - t, None))
        return status


def has_quant(e):
    return scan(e)[0]


def instantiate(schema_list, candidates):
    """All ground instances of the schemas; `candidates(var) -> list of terms` per schema variable (by bound)."""
    out = []
    for s in schema_list:
        cands = candidates(s)
        for pairs in cands:
            out.append(s.inst(pairs))
    return out
