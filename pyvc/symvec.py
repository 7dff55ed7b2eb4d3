"""One-dimensional integer arrays of symbolic length (numpy arange / full / stack and elementwise arithmetic).

The intercepts below are trusted contracts on numpy: their documented elementwise meaning."""
import numpy as np

from . import sym
from .interp import SymIter
from .sym import SInt, Unsupported, iterm, mkint, z3


class Row(tuple):
    """A short numpy vector with symbolic entries."""

    def _zip(self, o, f):
        if isinstance(o, (tuple, list, np.ndarray)):
            if len(o) != len(self):
                raise ValueError('operands could not be broadcast together')
            return Row(f(a, b) for a, b in zip(self, o))
        return Row(f(a, o) for a in self)

    def __add__(self, o): return self._zip(o, lambda a, b: a + b)
    def __radd__(self, o): return self._zip(o, lambda a, b: b + a)
    def __sub__(self, o): return self._zip(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._zip(o, lambda a, b: b - a)
    def __mul__(self, o): return self._zip(o, lambda a, b: a * b)

    def __pyvc_subst__(self, pairs):
        return Row(sym.subst(x, pairs) for x in self)


class SymVec(SymIter):
    """Array of length n with element get(k)."""

    __array_priority__ = 100
    __array_ufunc__ = None

    @property
    def shape(self):
        return (mkint(self.n),)

    def _bin(self, o, f):
        if isinstance(o, SymVec):
            if not sym.ENGINE.decide(self.n == o.n):
                raise ValueError('operands could not be broadcast together')
            return SymVec(self.n, lambda k: f(self.get(k), o.get(k)))
        if isinstance(o, (int, SInt)):
            return SymVec(self.n, lambda k: f(self.get(k), o))
        return NotImplemented

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __floordiv__(self, o): return self._bin(o, lambda a, b: a // b)
    def __mod__(self, o): return self._bin(o, lambda a, b: a % b)
    def __neg__(self): return SymVec(self.n, lambda k: -self.get(k))
    def __abs__(self): return SymVec(self.n, lambda k: abs(self.get(k)))

    def __pyvc_getitem__(self, E, ix):
        if isinstance(ix, slice):
            lo, hi, step = ix.start, ix.stop, ix.step
            step = 1 if step is None else step
            if not isinstance(step, int) or step < 1:
                raise Unsupported('slice step')

            def clip(v, default):
                if v is None:
                    return default
                t = iterm(v)
                t = z3.If(t < 0, t + self.n, t)
                return z3.simplify(z3.If(t < 0, 0, z3.If(t > self.n, self.n, t)))
            a, b = clip(lo, z3.IntVal(0)), clip(hi, self.n)
            n = z3.simplify(z3.If(b > a, (b - a + step - 1) / step, 0))
            return SymVec(n, lambda k: self.get(z3.simplify(a + step * k)))
        t = iterm(ix)
        if not E.decide(z3.And(-self.n <= t, t < self.n)):
            raise IndexError('index out of bounds')
        return self.get(z3.simplify(z3.If(t < 0, t + self.n, t)))


def _nonneg(n):
    t = iterm(n)
    return z3.simplify(z3.If(t >= 0, t, 0))


def _arange(E, *a, **k):
    if not any(isinstance(v, SInt) for v in a) or k:
        return np.arange(*a, **k)
    if len(a) == 1:
        return SymVec(_nonneg(a[0]), lambda k: mkint(k))
    lo, hi, st = iterm(a[0]), iterm(a[1]), a[2] if len(a) > 2 else 1
    if not isinstance(st, int) or st < 1:
        raise Unsupported('arange step')
    n = z3.simplify((hi - lo + st - 1) / st)
    return SymVec(z3.simplify(z3.If(n >= 0, n, 0)), lambda k: mkint(lo + st * k))


def _full(E, n, v, **k):
    if isinstance(n, tuple) and len(n) == 1:
        n = n[0]
    if isinstance(n, SInt):
        if E.decide(n.t < 0):
            raise ValueError('negative dimensions are not allowed')
        return SymVec(n.t, lambda k: v)
    r = np.full(n, v, **k)
    return E.new(r)


def _stack(E, arrays, axis=0, **k):
    if not any(isinstance(a, SymVec) for a in arrays):
        return np.stack(arrays, axis=axis, **k)
    if axis not in (-1, 1) or not all(isinstance(a, SymVec) for a in arrays):
        raise Unsupported('stack')
    for a in arrays[1:]:
        if not E.decide(arrays[0].n == a.n):
            raise ValueError('all input arrays must have the same shape')
    return SymVec(arrays[0].n, lambda k: Row(a.get(k) for a in arrays))


def _column_stack(E, arrays):
    return _stack(E, arrays, axis=-1)


def _zeros(E, n, *a, **k):
    return _full(E, n, 0) if isinstance(n, SInt) else E.new(np.zeros(n, *a, **k))


def install(E):
    E.intercepts.update({np.arange: _arange, np.full: _full, np.stack: _stack, np.column_stack: _column_stack, np.zeros: _zeros,
                         np.abs: lambda E, x: abs(x), np.array: lambda E, x, *a, **k: x if isinstance(x, (SymVec, Row)) else E.new(np.array(x, *a, **k))})
