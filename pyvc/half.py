"""Symbolic multiples of one half: the coordinates of entities.  Adding, subtracting and halving them is exact in the machine's
floating point numbers as long as they stay below 2**52 (stated assumption)."""
import math

from . import sym
from .sym import SBool, SInt, Unsupported, iterm, mkbool, mkint, z3


def halved(t):
    """t div 2, the even part of a sum taken out."""
    t = z3.simplify(t)
    even, rest = [], []
    for a in (t.children() if z3.is_add(t) else [t]):
        if z3.is_int_value(a):
            even.append(z3.IntVal(a.as_long() // 2))
            if a.as_long() % 2:
                rest.append(z3.IntVal(1))
        elif z3.is_mul(a) and a.num_args() == 2 and z3.is_int_value(a.arg(0)) and a.arg(0).as_long() % 2 == 0:
            even.append(a.arg(0).as_long() // 2 * a.arg(1))
        else:
            rest.append(a)
    if not all(z3.is_int_value(r) for r in rest):
        even.append(z3.Sum(rest) / 2)
    return z3.simplify(z3.Sum(even)) if even else z3.IntVal(0)


class Half:
    """t / 2"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = z3.simplify(t)

    def __repr__(self):
        return f'Half({self.t})'

    @staticmethod
    def term(x):
        """Twice x, or None."""
        if isinstance(x, Half):
            return x.t
        if isinstance(x, bool):
            return z3.IntVal(2 * int(x))
        if isinstance(x, float):
            if not math.isfinite(x) or (2 * x) != int(2 * x):
                raise Unsupported(f'fraction {x}')
            return z3.IntVal(int(2 * x))
        if isinstance(x, (int, SInt)):
            return 2 * iterm(x)
        return None

    def _bin(self, o, f):
        t = Half.term(o)
        return NotImplemented if t is None else Half(f(self.t, t))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __neg__(self): return Half(-self.t)

    def __mul__(self, o):
        if isinstance(o, int):
            return Half(self.t * o)
        raise Unsupported('product of fractions')
    __rmul__ = __mul__

    def _whole(self, k):
        """self / k, if it is a multiple of one half for every value (k = 1)."""
        raise Unsupported('division of a fraction')

    def __truediv__(self, o):
        if o == 1:
            return self
        raise Unsupported('division of a fraction')

    def __floor__(self):
        return mkint(halved(self.t))

    def __ceil__(self):
        return mkint(-halved(-self.t))

    def __trunc__(self):
        return mkint(z3.If(self.t >= 0, halved(self.t), -halved(-self.t)))

    def __pyvc_int__(self, E):
        return self.__trunc__()

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return mkint(self.t / (2 * o))
        raise Unsupported('division of a fraction')

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return Half(self.t % (2 * o))
        raise Unsupported('remainder of a fraction')

    def __round__(self, *a):
        raise Unsupported('rounding of a fraction')

    def _cmp(self, o, f):
        t = Half.term(o)
        return NotImplemented if t is None else mkbool(f(self.t, t))

    def __eq__(self, o):
        t = Half.term(o)
        return False if t is None else mkbool(self.t == t)

    def __ne__(self, o):
        t = Half.term(o)
        return True if t is None else mkbool(self.t != t)
    __hash__ = None
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return sym.ENGINE.decide(self.t != 0)

    def __pyvc_subst__(self, pairs):
        return Half(z3.substitute(self.t, *pairs))

    def __pyvc_same__(self, o):
        return isinstance(o, Half) and self.t.eq(o.t)


def install(E):
    E.intercepts[math.floor] = lambda E, x: x.__floor__() if isinstance(x, Half) else x if isinstance(x, SInt) else math.floor(x)
    E.intercepts[math.ceil] = lambda E, x: x.__ceil__() if isinstance(x, Half) else x if isinstance(x, SInt) else math.ceil(x)
    E.intercepts[math.trunc] = lambda E, x: x.__trunc__() if isinstance(x, Half) else x if isinstance(x, SInt) else math.trunc(x)
