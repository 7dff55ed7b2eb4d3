"""Sets and maps with symbolically many elements, and recorders for the outside world (solvers, libraries, files).

A recorder appends events to the engine's trace; inside a loop over symbolically many items the events become families, so
that a proof can speak about all of them."""
import ast

from . import sym
from .sym import Fam, Lit, SBool, SInt, Unsupported, bterm, iterm, mkbool, mkint, subst, z3


def exists(items, pred, bound=()):
    """Term: some item (families expanded) satisfies pred."""
    ts = []
    for i in items:
        if isinstance(i, Fam):
            for c, its in i.alts:
                ts.append(z3.Exists(list(i.vars), z3.And(i.guard, c, exists(its, pred))) if i.vars else z3.And(i.guard, c, exists(its, pred)))
        else:
            p = pred(i)
            ts.append(p if z3.is_expr(p) else z3.BoolVal(bool(p)))
    return z3.simplify(z3.Or(ts)) if ts else z3.BoolVal(False)


def equal_term(E, a, b):
    r = E.compare(ast.Eq(), a, b)
    if isinstance(r, SBool):
        return r.t
    return z3.BoolVal(bool(r))


def leaves(items, vs=(), guard=None):
    guard = z3.BoolVal(True) if guard is None else guard
    for i in items:
        if isinstance(i, Fam):
            for c, its in i.alts:
                yield from leaves(its, tuple(vs) + tuple(i.vars), z3.And(guard, i.guard, c))
        else:
            yield list(vs), guard, i


def lexless(a, b):
    a, b = (a if isinstance(a, tuple) else (a,)), (b if isinstance(b, tuple) else (b,))
    if len(a) != len(b):
        raise Unsupported('comparison')
    r = z3.BoolVal(False)
    for x, y in reversed(list(zip(a, b))):
        r = z3.Or(iterm(x) < iterm(y), z3.And(iterm(x) == iterm(y), r))
    return r


def least(E, items, key, *default):
    """min over symbolically many items: some item no other one is less than."""
    all_ = []
    for vs, guard, item in leaves(items):
        mark = len(E.ctxs[-1].vector), E.ctxs[-1].pos
        k = E.call(key, (item,)) if key is not None else item
        if (len(E.ctxs[-1].vector), E.ctxs[-1].pos) != mark:
            raise Unsupported('cases in a key')
        all_.append((vs, guard, item, k))
    some = [z3.Exists(vs, guard) if vs else guard for vs, guard, _, _ in all_]
    if not E.decide(z3.Or(some)):
        if not default:
            raise ValueError('min() arg is an empty sequence')
        return default[0]
    for n, (vs, guard, item, k) in enumerate(all_):
        if n + 1 < len(all_) and not E.decide(E.fresh_bool('least')):
            continue
        pairs = [(v, z3.Int(E.fresh_name('least'))) for v in vs]
        E.assume(z3.substitute(guard, *pairs) if pairs else guard)
        mine = subst(k, pairs) if pairs else k
        for vs2, guard2, _, k2 in all_:
            q = [(v, E.fresh_bvar('o')) for v in vs2]
            less = z3.Implies(z3.substitute(guard2, *q) if q else guard2, z3.Not(lexless(subst(k2, q) if q else k2, mine)))
            E.assume(z3.ForAll([v for _, v in q], less) if q else less)
        return subst(item, pairs) if pairs else item


def there(E, item):
    """Term: the item (or one of the items of the family) exists."""
    if not isinstance(item, Fam):
        return z3.BoolVal(True)
    if item.vars and len(item.vars) == 1 and item.lo is not None and all(any(not isinstance(i, Fam) for i in its) for _, its in item.alts):
        E.solver.push()
        E.solver.add(item.lo <= item.vars[0], item.vars[0] < item.hi, z3.Not(z3.And(item.guard, z3.Or([c for c, _ in item.alts]))))
        r = E.solver.check()
        E.solver.pop()
        if r == z3.unsat:
            return item.hi > item.lo
    return z3.Or([z3.Exists(vs, g) if vs else g for vs, g, _ in leaves([item])])


def extreme(E, items, ismin):
    """min or max of symbolically many numbers."""
    flat = list(leaves(items))
    some = [there(E, i) for i in items]
    if not E.decide(z3.Or(some)):
        raise ValueError('min() or max() of an empty sequence')
    m = z3.Int(E.fresh_name('extreme'))
    hit, facts = [], []
    for vs, g, i in flat:
        t = iterm(i)
        b = z3.Implies(g, m <= t if ismin else m >= t)
        facts.append(z3.ForAll(vs, b) if vs else b)
        h = z3.And(g, m == t)
        hit.append(z3.Exists(vs, h) if vs else h)
    # stays out of the way of the interpreter's own questions
    E.background[f'extreme {m} of {len(E.background)}'] = z3.Implies(z3.Or(some), z3.And(z3.Or(hit), *facts))
    if E.trace is not None:
        E.list_extend(E.trace, [('extreme', m, ismin, flat)])
    return SInt(m)


class SymSet:
    """A set given by items that may repeat.  Only one created `distinct` can be iterated over."""

    def __init__(self, E, items, distinct=False):
        self.E, self.content, self.distinct = E, E.new(list(items)), distinct

    def _algebra(self):
        """The same set as a union of regions the proof knows about."""
        if self.E.algebra is None:
            raise Unsupported('operation on a set')
        return self.E.algebra(self)

    def __pyvc_items__(self, E):
        if not self.distinct and E.algebra is not None:
            return self._algebra().__pyvc_items__(E)
        if not self.distinct and len(self.content) > 0 and not (len(self.content) == 1 and not isinstance(self.content[0], Fam)):
            raise Unsupported('iteration over a set with possible repetitions')
        return list(self.content)

    def __pyvc_contains__(self, E, x):
        return mkbool(exists(self.content, lambda i: equal_term(E, i, x)))

    def __pyvc_subst__(self, pairs):
        return SymSet(self.E, subst(self.content, pairs), self.distinct)

    def _extend(self, items):
        self.E.list_extend(self.content, items)
        self.distinct = False

    def add(self, x):
        self._extend([x])

    def update(self, *its):
        for i in its:
            self._extend(self._of(i))

    def _of(self, other):
        return list(other.content) if isinstance(other, SymSet) else self.E.to_items(other)

    def augmented(self, E, op, val):
        if isinstance(op, ast.BitOr):
            self.update(val)
            return self
        return E.binop(op, self, val)

    def union(self, *its):
        r = self.copy()
        for i in its:
            r.update(i)
        return r

    def __or__(self, other):
        return self._algebra() | other if self.E.algebra is not None else self.union(other)

    __ror__ = union

    def copy(self):
        r = SymSet(self.E, self.content, self.distinct)
        return self.E.new(r)

    def discard(self, x):
        if x is not None:
            raise Unsupported('set.discard')

        def known(items):
            return [Fam(i.vars, i.guard, [(c, known(its)) for c, its in i.alts], i.lo, i.hi) if isinstance(i, Fam) else i for i in items if i is not None]

        def undo():
            list.__setitem__(self.content, slice(None), old)
        old = list(self.content)
        new = known(old)
        self.E.mutate(self, undo)
        self.content[:] = new

    def remove(self, x):
        raise Unsupported('set.remove')

    pop = clear = __len__ = remove

    def __pyvc_len__(self, E):
        return self._algebra().__pyvc_len__(E)

    def __bool__(self):
        return bool(self._algebra())

    def __sub__(self, other):
        return self._algebra() - other

    def __and__(self, other):
        return self._algebra() & other

    def __xor__(self, other):
        return self._algebra() ^ other

    def __rsub__(self, other):
        return self.E.algebra_of(other) - self

    def difference(self, *its):
        r = self._algebra()
        for i in its:
            r = r - i
        return r

    def intersection(self, *its):
        r = self._algebra()
        for i in its:
            r = r & i
        return r

    def symmetric_difference(self, other):
        return self ^ other

    def __eq__(self, other):
        if self is other:
            return True
        if self.E.algebra is not None:
            return self._algebra() == other
        raise Unsupported('comparison of sets')

    __hash__ = None


class SymMap:
    """A dictionary built from symbolically many (key, value) pairs in which equal keys have equal values."""

    def __init__(self, E, items):
        self.E, self.content = E, list(items)
        flat = []
        for i in items:
            if isinstance(i, Fam):
                for c, its in i.alts:
                    for it in its:
                        if isinstance(it, Fam):
                            raise Unsupported('dictionary over nested ranges')
                        flat.append((i.vars, z3.And(i.guard, c), it))
            else:
                flat.append(([], z3.BoolVal(True), i))
        for n, (va, ga, a) in enumerate(flat):
            for vb, gb, b in flat[n:]:
                pairs = [(v, E.fresh_bvar('q')) for v in vb]
                gb, b = (z3.substitute(gb, *pairs), subst(b, pairs)) if pairs else (gb, b)
                E.solver.push()
                E.solver.add(ga, gb, equal_term(E, a[0], b[0]), z3.Not(equal_term(E, a[1], b[1])))
                r = E.solver.check()
                E.solver.pop()
                if r != z3.unsat:
                    raise Unsupported('dictionary with repeated keys')

    def __pyvc_contains__(self, E, x):
        return mkbool(exists(self.content, lambda i: equal_term(E, i[0], x)))

    def get(self, key, default=None):
        E = self.E
        there = exists(self.content, lambda i: equal_term(E, i[0], key))
        if isinstance(default, (bool, SBool)):
            hit = exists(self.content, lambda i: z3.And(equal_term(E, i[0], key), bterm(i[1])))
            if default is False:
                return mkbool(hit)
            return mkbool(z3.If(there, hit, bterm(default)))
        if not E.decide(there):
            return default
        return self.__pyvc_getitem__(E, key)

    missing = None

    def __pyvc_getitem__(self, E, key):
        if self.missing is False:
            return self.get(key, False)
        if not E.decide(exists(self.content, lambda i: equal_term(E, i[0], key))):
            raise KeyError(key)
        try:
            return mkbool(exists(self.content, lambda i: z3.And(equal_term(E, i[0], key), bterm(i[1]))))
        except (TypeError, AttributeError):
            raise Unsupported('values of a symbolic dictionary')

    def items(self):
        return list(self.content)

    def __pyvc_subst__(self, pairs):
        r = SymMap.__new__(SymMap)
        r.E, r.content, r.missing = self.E, subst(self.content, pairs), self.missing
        return r


class Recorder:
    """An object of the outside world: every method call is an event."""

    def __init__(self, E, name, **results):
        self._E, self._name, self._results = E, name, results

    def _record(self, *event):
        self._E.list_extend(self._E.trace, [(self._name,) + event])

    def __getattr__(self, attr):
        if attr.startswith('__') or attr.startswith('_pyvc'):
            raise AttributeError(attr)

        def method(*a, **k):
            self._record(attr, a, k)
            r = self._results.get(attr)
            return r(self, *a, **k) if callable(r) else r
        method.__pyvc_native__ = True
        return method

    def __enter__(self):
        self._record('enter', (), {})
        return self

    def __exit__(self, *a):
        self._record('exit', (), {})
        return None


class Filled:
    """A dictionary filled key by key; its reader shows that no key comes twice."""

    def __init__(self, E, items=()):
        self.content = E.new(list(items))

    def __pyvc_setitem__(self, E, key, value):
        E.list_extend(self.content, [(key, value)])

    def items(self):
        return list(self.content)
    items.__pyvc_native__ = True

    def repeats(self, E):
        """Can two of the items have the same key?"""
        flat = list(leaves(self.content))
        for n, (va, ga, a) in enumerate(flat):
            for m, (vb, gb, b) in enumerate(flat[n:]):
                pairs = [(v, E.fresh_bvar('q')) for v in vb]
                gb, b = (z3.substitute(gb, *pairs), subst(b, pairs)) if pairs else (gb, b)
                if m == 0 and not pairs:
                    continue
                E.solver.push()
                for t in E.background.values():
                    E.solver.add(t)
                E.solver.add(ga, gb, equal_term(E, a[0], b[0]))
                if m == 0:
                    E.solver.add(z3.Or([v != w for v, w in pairs]))
                r = E.solver.check()
                E.solver.pop()
                if r != z3.unsat:
                    return True
        return False

    def __pyvc_len__(self, E):
        if self.repeats(E):
            raise Unsupported('size of a dictionary with repeated keys')
        return E.seq_len(self.content)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'dictionary.{name}')
