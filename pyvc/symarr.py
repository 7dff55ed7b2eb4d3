"""Two-dimensional arrays of symbolic size, for code that rearranges numpy arrays.

`at(y, x)` gives the element as whatever the creator put there (usually the source coordinates).  The numpy functions
below are trusted contracts on numpy (their documented index maps)."""
import numpy as np
from .sym import SInt, Unsupported, iterm, mkint, z3


class SymGrid:
    def __init__(self, h, w, at):
        self.h, self.w, self.at = h, w, at

    @property
    def shape(self):
        return (mkint(self.h), mkint(self.w))

    ndim = 2
    dtype = np.dtype(object)

    @property
    def T(self):
        return SymGrid(self.w, self.h, lambda y, x: self.at(x, y))

    def transpose(self, *a):
        if a not in ((), (1, 0), ((1, 0),)):
            raise Unsupported('transpose axes')
        return self.T

    def flipped(self, axis):
        if axis in (0, -2):
            return SymGrid(self.h, self.w, lambda y, x: self.at(self.h - 1 - y, x))
        if axis in (1, -1):
            return SymGrid(self.h, self.w, lambda y, x: self.at(y, self.w - 1 - x))
        if axis is None or set(axis) == {0, 1}:
            return self.flipped(0).flipped(1)
        raise Unsupported('flip axis')

    def copy(self):
        return self

    def __getitem__(self, ix):
        if not isinstance(ix, tuple):
            ix = (ix,)
        if any(i is Ellipsis for i in ix):
            k = ix.index(Ellipsis)
            ix = ix[:k] + (slice(None),) * (3 - len(ix)) + ix[k + 1:]
        ix = ix + (slice(None),) * (2 - len(ix))
        if len(ix) != 2:
            raise Unsupported('index')
        if not any(isinstance(i, slice) for i in ix):
            y, x = (iterm(i) for i in ix)
            from . import sym
            for v, n in ((y, self.h), (x, self.w)):
                if not sym.ENGINE.decide(z3.And(-n <= v, v < n)):
                    raise IndexError('index out of bounds')
            return self.at(z3.If(y < 0, y + self.h, y), z3.If(x < 0, x + self.w, x))
        g = self
        for axis, s in enumerate(ix):
            if not isinstance(s, slice) or s.start is not None or s.stop is not None or s.step not in (None, 1, -1):
                raise Unsupported(f'slice {s}')
            if s.step == -1:
                g = g.flipped(axis)
        return g

    def __array_function__(self, func, types, args, kwargs):
        h = _FUNCS.get(func)
        if h is None:
            raise Unsupported(f'numpy function {func.__name__} on an array of symbolic size')
        return h(*args, **kwargs)


def _rot90(m, k=1, axes=(0, 1)):
    axes = tuple(a % 2 for a in axes)
    if axes not in ((0, 1), (1, 0)) or not isinstance(k, int):
        raise Unsupported('rot90')
    k = (k if axes == (0, 1) else -k) % 4
    for _ in range(k):
        m = m.T.flipped(0)
    return m


_FUNCS = {np.rot90: _rot90, np.flip: lambda m, axis=None: m.flipped(axis), np.fliplr: lambda m: m.flipped(1),
          np.flipud: lambda m: m.flipped(0), np.transpose: lambda a, axes=None: a.transpose(*(() if axes is None else tuple(axes))),
          np.swapaxes: lambda a, i, j: a if i % 2 == j % 2 else a.T}
