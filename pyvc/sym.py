"""Symbolic values of the pyvc verifier.

Concrete values stay native Python objects.  Symbolic integers / booleans are thin wrappers round z3 terms,
a `Lit` is a SAT literal represented by its truth value under an arbitrary assignment, and a `Fam` is a family
of list items spliced into an ordinary Python list (the exact effect of a loop or comprehension over a range of
symbolic length).
"""
import dataclasses
import sys
if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3
import numpy as np

TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


class EngineError(BaseException):
    """Base of everything the engine itself signals (never caught by interpreted `except` clauses)."""


class Unsupported(EngineError):
    pass


ENGINE = None   # set by interp


def decide(term):
    return ENGINE.decide(term)


def mkint(term):
    term = z3.simplify(term)
    if z3.is_int_value(term):
        return term.as_long()
    return SInt(term)


def mkbool(term):
    term = z3.simplify(term)
    if z3.is_true(term):
        return True
    if z3.is_false(term):
        return False
    return SBool(term)


def iterm(v):
    if isinstance(v, SInt):
        return v.t
    if isinstance(v, SBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, (int, np.integer)):
        return z3.IntVal(int(v))
    if hasattr(v, '__index__') and not isinstance(v, Lit):
        return z3.IntVal(v.__index__())
    raise Unsupported(f'not an integer: {v!r}')


def bterm(v):
    if isinstance(v, SBool):
        return v.t
    if isinstance(v, (bool, np.bool_)):
        return z3.BoolVal(bool(v))
    raise Unsupported(f'not a boolean: {v!r}')


pow2_f = z3.Function('pow2', z3.IntSort(), z3.IntSort())
bit_f = z3.Function('bitof', z3.IntSort(), z3.IntSort(), z3.BoolSort())
mod_f = z3.Function('pymod', z3.IntSort(), z3.IntSort(), z3.IntSort())
div_f = z3.Function('pydiv', z3.IntSort(), z3.IntSort(), z3.IntSort())
mul_f = z3.Function('pymul', z3.IntSort(), z3.IntSort(), z3.IntSort())
bitlen_f = z3.Function('bitlen', z3.IntSort(), z3.IntSort())


def pymod(a, b):
    """a mod b (Python sign rules) for a symbolic positive b; facts are attached as axioms of the application."""
    r = mod_f(a, b)
    ENGINE.axiom(z3.Implies(b > 0, z3.And(r >= 0, r < b)))
    ENGINE.axiom(z3.Implies(z3.And(0 <= a, a < b), r == a))
    ENGINE.axiom(z3.Implies(z3.And(b <= a, a < 2 * b), r == a - b))
    ENGINE.axiom(z3.Implies(z3.And(-b <= a, a < 0), r == a + b))
    return r


def pydiv(a, b):
    r = div_f(a, b)
    ENGINE.axiom(z3.Implies(z3.And(0 <= a, a < b), r == 0))
    ENGINE.axiom(z3.Implies(z3.And(b <= a, a < 2 * b), r == 1))
    ENGINE.axiom(z3.Implies(z3.And(-b <= a, a < 0), r == -1))
    return r


class SInt:
    __slots__ = ('t', 'pow')

    def __init__(self, t, pow=None):
        self.t = t
        self.pow = pow   # exponent when the value is a power of two 1 << pow

    def __repr__(self):
        return f'SInt({self.t})'

    def _bin(self, other, f):
        try:
            o = iterm(other)
        except Unsupported:
            return NotImplemented
        return mkint(f(self.t, o))

    def _halves(self, o):
        # fractions: whole numbers are multiples of one half
        from .half import Half
        return Half(2 * self.t) if isinstance(o, float) else None

    def __add__(self, o): return self._halves(o) + o if isinstance(o, float) else self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return o + self._halves(o) if isinstance(o, float) else self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._halves(o) - o if isinstance(o, float) else self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return o - self._halves(o) if isinstance(o, float) else self._bin(o, lambda a, b: b - a)

    def __truediv__(self, o):
        if isinstance(o, int) and o in (1, 2):
            from .half import Half
            return Half(2 * self.t) if o == 1 else Half(self.t)
        raise Unsupported('division')

    def __mul__(self, o):
        if isinstance(o, float):
            from .half import Half
            return Half(self.t * Half.term(o))
        if isinstance(o, (list, tuple, str)):
            return NotImplemented
        if isinstance(o, SInt):
            r = mul_f(self.t, o.t)
            return mkint(r)
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self.__mul__(o)

    def __neg__(self): return mkint(-self.t)
    def __pos__(self): return self
    def __abs__(self): return mkint(z3.If(self.t >= 0, self.t, -self.t))

    def __mod__(self, o):
        b = iterm(o)
        if z3.is_int_value(z3.simplify(b)):
            bv = z3.simplify(b).as_long()
            if bv > 0:
                return mkint(self.t % bv)
            raise Unsupported('mod by non-positive')
        if ENGINE.decide(b == 0):
            raise ZeroDivisionError('integer modulo by zero')
        return mkint(pymod(self.t, b))

    def __rmod__(self, o):
        return SInt(iterm(o)).__mod__(self)

    def __floordiv__(self, o):
        b = iterm(o)
        if z3.is_int_value(z3.simplify(b)):
            bv = z3.simplify(b).as_long()
            if bv > 0:
                return mkint(self.t / bv)
            raise Unsupported('div by non-positive')
        if ENGINE.decide(b == 0):
            raise ZeroDivisionError('integer division by zero')
        return mkint(pydiv(self.t, b))

    def __rfloordiv__(self, o):
        return SInt(iterm(o)).__floordiv__(self)

    def __lshift__(self, o):
        k = iterm(o)
        if z3.is_int_value(z3.simplify(k)):
            return mkint(self.t * (1 << z3.simplify(k).as_long()))
        raise Unsupported('symbolic shift of a symbolic value')

    def __rlshift__(self, o):
        if isinstance(o, int) and o == 1:
            if ENGINE.decide(self.t < 0):
                raise ValueError('negative shift count')
            r = pow2_f(self.t)
            ENGINE.axiom(r >= 1)
            ENGINE.axiom(z3.Implies(self.t == 0, r == 1))
            return SInt(r, pow=self.t)
        raise Unsupported('symbolic shift')

    def __rshift__(self, o):
        if isinstance(o, int):
            return mkint(self.t / (1 << o))
        raise Unsupported('symbolic shift')

    def __or__(self, o):
        if isinstance(o, SInt) and o.pow is not None and ENGINE.decide(z3.And(0 <= self.t, self.t < o.t)):
            return mkint(self.t + o.t)      # the bit is above every set bit
        raise Unsupported('bitwise or')

    def __ror__(self, o):
        return SInt(iterm(o)).__or__(self)

    def __and__(self, o):
        if isinstance(o, SInt) and o.pow is not None:
            return mkint(z3.If(bit_f(self.t, o.pow), o.t, 0))
        if isinstance(o, int) and o == 1:
            return mkint(self.t % 2)
        raise Unsupported('symbolic &')

    def __rand__(self, o):
        if self.pow is not None:
            return mkint(z3.If(bit_f(iterm(o), self.pow), self.t, 0))
        return self.__and__(o)

    def bit_length(self):
        r = bitlen_f(self.t)
        ENGINE.axiom(r >= 0)
        ENGINE.axiom((self.t == 0) == (r == 0))
        return mkint(r)

    def _cmp(self, o, f):
        if isinstance(o, float):
            if o == float('inf'):
                return f(0, 1)
            if o == float('-inf'):
                return f(1, 0)
            raise Unsupported('float comparison')
        try:
            t = iterm(o)
        except Unsupported:
            return NotImplemented
        return mkbool(f(self.t, t))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, list, tuple)):
            return False
        if isinstance(o, float) and o in (float('inf'), float('-inf')):
            return False
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        if o is None or isinstance(o, (str, list, tuple)):
            return True
        if isinstance(o, float) and o in (float('inf'), float('-inf')):
            return True
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __hash__(self):
        return hash(self.t)

    def __bool__(self):
        return ENGINE.decide(self.t != 0)

    def __index__(self):
        v = ENGINE.concrete_int(self.t)
        if v is None:
            raise Unsupported(f'symbolic integer used as a concrete index: {self.t}')
        return v

    __int__ = __index__


class SBool:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'SBool({self.t})'

    def __bool__(self):
        return ENGINE.decide(self.t)

    def __and__(self, o): return mkbool(z3.And(self.t, bterm(o)))
    __rand__ = __and__
    def __or__(self, o): return mkbool(z3.Or(self.t, bterm(o)))
    __ror__ = __or__
    def __invert__(self): raise Unsupported('~ on symbolic bool')
    def __add__(self, o): return SInt(iterm(self)) + o
    def __radd__(self, o): return SInt(iterm(self)) + o
    def __sub__(self, o): return SInt(iterm(self)) - o
    def __rsub__(self, o): return -(SInt(iterm(self)) - o)

    def __eq__(self, o):
        if isinstance(o, (SBool, bool)):
            return mkbool(self.t == bterm(o))
        return False

    def __ne__(self, o):
        if isinstance(o, (SBool, bool)):
            return mkbool(self.t != bterm(o))
        return True

    def __hash__(self):
        return hash(self.t)


class Lit:
    """A SAT literal; `t` is its truth value under the (arbitrary) assignment considered."""
    __slots__ = ('t', 'neg')

    def __init__(self, t, neg=False):
        self.t = t
        self.neg = neg

    def __repr__(self):
        return f'Lit({self.t})'

    def __neg__(self):
        if z3.is_not(self.t):
            return Lit(self.t.arg(0))
        return Lit(z3.Not(self.t))

    def __pos__(self):
        return self

    def __eq__(self, o):
        if isinstance(o, Lit):
            return self.t.eq(o.t)
        return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.t)

    def __bool__(self):
        return True   # a variable number is never 0

    def __abs__(self):
        return Lit(self.t.arg(0)) if z3.is_not(self.t) else self


class Fam:
    """Items spliced into a list: for every value of `vars` satisfying `guard` (in increasing order), the items of
    the alternative whose condition holds."""
    __slots__ = ('vars', 'guard', 'alts', 'lo', 'hi')

    def __init__(self, vars, guard, alts, lo=None, hi=None):
        self.vars = vars
        self.guard = guard
        self.alts = alts
        self.lo = lo
        self.hi = hi

    def __repr__(self):
        return f'Fam({self.vars}, {self.guard}, {self.alts})'

    @property
    def uniform(self):
        return (self.lo is not None and len(self.vars) == 1 and len(self.alts) == 1
                and z3.is_true(self.alts[0][0]) and len(self.alts[0][1]) == 1
                and not isinstance(self.alts[0][1][0], Fam))

    @property
    def width(self):
        """Number of items per index, where it is the same for every index."""
        if (self.lo is not None and len(self.vars) == 1 and len(self.alts) == 1 and z3.is_true(self.alts[0][0])
                and not any(isinstance(i, Fam) for i in self.alts[0][1])):
            return len(self.alts[0][1])
        return None

    def length(self):
        k = self.width
        if k is None:
            raise Unsupported(f'length of a non-uniform family {self}')
        n = z3.simplify(self.hi - self.lo)
        return z3.simplify(z3.If(n >= 0, n, 0) * k)

    def at(self, k):
        """Element number k (0-based z3 term) of a uniform family."""
        if not self.uniform:
            raise Unsupported('element of a non-uniform family')
        return subst(self.alts[0][1][0], [(self.vars[0], z3.simplify(self.lo + k))])


class SymArray2D:
    """Object array of symbolic shape; every element is `elem` with the index variables replaced."""

    def __init__(self, height, width, iv, jv, elem):
        self.shape = (height, width)
        self.iv, self.jv, self.elem = iv, jv, elem

    def at(self, y, x):
        return subst(self.elem, [(self.iv, iterm(y)), (self.jv, iterm(x))])

    def __getitem__(self, key):
        y, x = key
        if isinstance(y, slice) or isinstance(x, slice):
            r = self
            for axis, s in enumerate((y, x)):
                if not isinstance(s, slice) or s.start is not None or s.stop is not None or s.step not in (None, 1, -1):
                    raise Unsupported('slice of a symbolic array')
                if s.step == -1:
                    r = r.flipped(axis)
            return r
        return self.at(y, x)

    def flipped(self, axis):
        n, v = iterm(self.shape[axis]), (self.iv, self.jv)[axis]
        return SymArray2D(*self.shape, self.iv, self.jv, subst(self.elem, [(v, n - 1 - v)]))

    def flatten(self, order='C'):
        if order != 'C':
            raise Unsupported('flatten order')
        y, x = ENGINE.fresh_bvar('fy'), ENGINE.fresh_bvar('fx')
        h, w = (iterm(v) for v in self.shape)
        return ENGINE.new([Fam([y, x], z3.And(0 <= y, y < h, 0 <= x, x < w), [(TRUE, [self.at(SInt(y), SInt(x))])])])

    ravel = flatten

    @property
    def flat(self):
        return self.flatten()

    def __array_function__(self, func, types, args, kwargs):
        m, rest = args[0], args[1:]
        if func is np.rot90:
            k = rest[0] if rest else kwargs.get('k', 1)
            if k % 4 == 2 and 'axes' not in kwargs and len(rest) < 2:
                return m.flipped(0).flipped(1)
        if func is np.flip:
            axis = rest[0] if rest else kwargs.get('axis')
            return m.flipped(0).flipped(1) if axis is None else m.flipped(axis % 2)
        if func in (np.flipud, np.fliplr):
            return m.flipped(0 if func is np.flipud else 1)
        if func is np.ravel:
            return m.flatten()
        raise Unsupported(f'numpy function {func.__name__} on an array of symbolic size')


class SymAxis:
    def __init__(self, start, stop, axis):
        self.start, self.stop, self.axis = start, stop, axis


_plain = (int, str, float, bytes, type(None), bool, type)


def subst(obj, pairs):
    if isinstance(obj, _plain):
        return obj
    if isinstance(obj, Lit):
        return Lit(z3.substitute(obj.t, *pairs))
    if isinstance(obj, SInt):
        t = mkint(z3.substitute(obj.t, *pairs))
        if isinstance(t, SInt) and obj.pow is not None:
            t.pow = z3.substitute(obj.pow, *pairs)
        return t
    if isinstance(obj, SBool):
        return mkbool(z3.substitute(obj.t, *pairs))
    if isinstance(obj, Fam):
        # family variables are globally unique, so capture cannot happen
        return Fam(obj.vars, z3.substitute(obj.guard, *pairs),
                   [(z3.substitute(c, *pairs), subst(items, pairs)) for c, items in obj.alts],
                   None if obj.lo is None else z3.substitute(obj.lo, *pairs),
                   None if obj.hi is None else z3.substitute(obj.hi, *pairs))
    if type(obj) is list:
        return [subst(o, pairs) for o in obj]
    if isinstance(obj, tuple):
        if hasattr(obj, '__pyvc_subst__'):
            return obj.__pyvc_subst__(pairs)
        if hasattr(obj, '_fields'):
            return type(obj)(*[subst(o, pairs) for o in obj])
        return tuple(subst(o, pairs) for o in obj)
    if isinstance(obj, dict):
        return type(obj)((k, subst(v, pairs)) for k, v in obj.items()) if type(obj) is dict else obj
    if isinstance(obj, set):
        return {subst(o, pairs) for o in obj}
    if isinstance(obj, np.ndarray) and obj.dtype == object:
        r = np.empty(obj.shape, dtype=object)
        for idx in np.ndindex(*obj.shape):
            r[idx] = subst(obj[idx], pairs)
        return r
    if isinstance(obj, z3.ExprRef):
        return z3.substitute(obj, *pairs)
    if hasattr(obj, '__pyvc_subst__'):
        return obj.__pyvc_subst__(pairs)
    if dataclasses.is_dataclass(obj) and not isinstance(obj, type):
        d = getattr(obj, '__dict__', None)
        if d and any(has_sym(v) for v in d.values()):
            r = object.__new__(type(obj))
            for k, v in d.items():
                object.__setattr__(r, k, subst(v, pairs))
            return r
    return obj


def has_sym(obj, depth=4):
    if isinstance(obj, (SInt, SBool, Lit, Fam, SymArray2D)):
        return True
    if depth and isinstance(obj, (list, tuple, set)):
        return any(has_sym(o, depth - 1) for o in obj)
    if depth and isinstance(obj, dict):
        return any(has_sym(o, depth - 1) for o in obj.values())
    return False


def has_fam(obj):
    return isinstance(obj, (list, tuple)) and any(isinstance(o, Fam) for o in obj)


def same(a, b):
    """Structural identity of symbolic values."""
    if a is b:
        return True
    if isinstance(a, (Lit, SInt, SBool)) or isinstance(b, (Lit, SInt, SBool)):
        if type(a) is not type(b):
            return False
        if a.t.eq(b.t):
            return True
        return z3.is_true(z3.simplify(a.t == b.t))
    if isinstance(a, Fam) and isinstance(b, Fam):
        if len(a.vars) != len(b.vars) or len(a.alts) != len(b.alts):
            return False
        pairs = list(zip(b.vars, a.vars))
        b = Fam(a.vars, z3.substitute(b.guard, *pairs), [(z3.substitute(c, *pairs), subst(i, pairs)) for c, i in b.alts])
        return z3.simplify(a.guard).eq(z3.simplify(b.guard)) and all(
            z3.simplify(c1).eq(z3.simplify(c2)) and same(i1, i2) for (c1, i1), (c2, i2) in zip(a.alts, b.alts))
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if hasattr(type(a), '__pyvc_same__'):
        return a.__pyvc_same__(b)
    try:
        return bool(a == b)
    except Exception:
        return False
