"""Texts made of known pieces and of the decimal digits of symbolic integers, and files holding such texts.

The digits of an integer are an optional '-' followed by at least one digit: no white space, no '#'.  int() of exactly the digits
of a number is that number (the standard library's int(str(x)) == x)."""
from . import sym
from .sym import Fam, SInt, Unsupported, iterm, mkint, subst, z3


class Num:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class Text:
    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, Text):
                ps = p.parts
            elif isinstance(p, SInt):
                ps = [Num(p.t)]
            elif isinstance(p, (str, Num)):
                ps = [p]
            else:
                ps = [str(p)]
            for q in ps:
                if isinstance(q, str):
                    if not q:
                        continue
                    if out and isinstance(out[-1], str):
                        out[-1] += q
                        continue
                elif out and isinstance(out[-1], Num):
                    raise Unsupported('digits next to digits')
                out.append(q)
        for a, b in zip(out, out[1:]):
            c = a[-1] if isinstance(a, str) else b[0]
            if isinstance(a, str) and c in '-+_' or c.isdigit():
                raise Unsupported('digits next to digits')
        self.parts = out

    def __repr__(self):
        return 'Text(' + ''.join(p if isinstance(p, str) else f'<{p.t}>' for p in self.parts) + ')'

    def __pyvc_subst__(self, pairs):
        r = Text.__new__(Text)
        r.parts = [p if isinstance(p, str) else Num(z3.substitute(p.t, *pairs)) for p in self.parts]
        return r

    def __pyvc_same__(self, o):
        return isinstance(o, Text) and len(o.parts) == len(self.parts) and all(
            a == b if isinstance(a, str) or isinstance(b, str) else a.t.eq(b.t) for a, b in zip(self.parts, o.parts))

    def _plain(self):
        """The text where every piece is known."""
        if not self.parts:
            return ''
        if len(self.parts) == 1 and isinstance(self.parts[0], str):
            return self.parts[0]
        return None

    def __pyvc_len__(self, E):
        s = self._plain()
        if s is not None:
            return len(s)
        n = z3.Int(E.fresh_name('len'))
        E.assume(n >= sum(len(p) if isinstance(p, str) else 1 for p in self.parts))
        return SInt(n)

    def __bool__(self):
        return bool(self.parts)

    def __add__(self, o):
        return Text([self, o]) if isinstance(o, (str, Text)) else NotImplemented

    def __radd__(self, o):
        return Text([o, self]) if isinstance(o, (str, Text)) else NotImplemented

    def __eq__(self, o):
        s = self._plain()
        if isinstance(o, str):
            if s is not None:
                return s == o
            if not any(c.isdigit() for c in o):
                return False
            if len(self.parts) == 1:
                try:
                    v = int(o)
                except ValueError:
                    return False
                return sym.mkbool(self.parts[0].t == v) if str(v) == o else False
        if isinstance(o, Text) and self.__pyvc_same__(o):
            return True
        raise Unsupported('comparison of texts')

    def __ne__(self, o):
        r = self == o
        return not r if isinstance(r, bool) else sym.mkbool(z3.Not(r.t))

    __hash__ = None

    def _strip(self, left, right, chars=None):
        if chars is not None and any(c.isdigit() or c == '-' for c in chars):
            raise Unsupported('stripping digits')
        parts = list(self.parts)
        if left and parts and isinstance(parts[0], str):
            parts[0] = parts[0].lstrip(chars)
        if right and parts and isinstance(parts[-1], str):
            parts[-1] = parts[-1].rstrip(chars)
        return Text(parts)

    def strip(self, chars=None):
        return self._strip(True, True, chars)

    def lstrip(self, chars=None):
        return self._strip(True, False, chars)

    def rstrip(self, chars=None):
        return self._strip(False, True, chars)

    def isspace(self):
        s = self._plain()
        return s is not None and s.isspace()

    def startswith(self, x):
        if not isinstance(x, str):
            return any(self.startswith(y) for y in x)
        if not x:
            return True
        first = self.parts[0] if self.parts else ''
        if isinstance(first, str):
            if len(first) >= len(x) or not first.startswith(x[:len(first)]) or len(self.parts) == 1:
                return first.startswith(x)
        elif not x[0].isdigit() and x[0] != '-':
            return False
        raise Unsupported('start of a text')

    def endswith(self, x):
        last = self.parts[-1] if self.parts else ''
        if isinstance(last, str) and (len(last) >= len(x) or len(self.parts) == 1):
            return last.endswith(x)
        raise Unsupported('end of a text')

    def __pyvc_contains__(self, E, x):
        if not isinstance(x, str) or any(c.isdigit() or c == '-' for c in x):
            raise Unsupported('search in a text')
        return any(x in p for p in self.parts if isinstance(p, str))

    def __pyvc_getitem__(self, E, i):
        s = self._plain()
        if s is not None:
            return s[i]
        if isinstance(i, int):
            p = self.parts[0 if i >= 0 else -1]
            if isinstance(p, str) and (len(p) > i if i >= 0 else len(p) >= -i):
                return p[i]
        if isinstance(i, slice) and i.step is None:
            a, b = i.start or 0, i.stop
            f, l = self.parts[0], self.parts[-1]
            if isinstance(a, int) and a >= 0 and (a == 0 or isinstance(f, str) and len(f) >= a) and (
                    b is None or isinstance(b, int) and b < 0 and isinstance(l, str) and len(l) >= -b and len(self.parts) > 1):
                ps = list(self.parts)
                if b is not None:
                    ps[-1] = ps[-1][:b]
                if a:
                    ps[0] = ps[0][a:]
                return Text(ps)
        raise Unsupported('piece of a text')

    def split(self, sep=None, maxsplit=-1):
        if maxsplit != -1 or sep is not None and (not isinstance(sep, str) or any(c.isdigit() or c == '-' for c in sep)):
            raise Unsupported('split')
        words, cur = [], None

        def end():
            nonlocal cur
            if cur is not None:
                words.append(Text(cur))
            cur = None
        if sep is not None:
            cur = []
        for p in self.parts:
            if not isinstance(p, str):
                cur = (cur or []) + [p]
                continue
            if sep is not None:
                bits = p.split(sep)
                cur.append(bits[0])
                for b in bits[1:]:
                    end()
                    cur = [b]
                continue
            for w in _words(p):
                if w is None:
                    end()
                else:
                    cur = (cur or []) + [w]
        end()
        return sym.ENGINE.new(words)

    def __pyvc_int__(self, E):
        w = self._strip(True, True)
        if len(w.parts) == 1 and isinstance(w.parts[0], Num):
            return mkint(w.parts[0].t)
        s = w._plain()
        if s is not None:
            return int(s)
        if any(isinstance(p, str) and p not in ('-', '+') for p in w.parts):
            raise ValueError('invalid literal for int()')
        raise Unsupported('int of a text')

    def __str__(self):
        raise Unsupported('text of a text')

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'text.{name}')


for _f in ('strip', 'lstrip', 'rstrip', 'isspace', 'startswith', 'endswith', 'split'):
    getattr(Text, _f).__pyvc_native__ = True


def _words(s):
    """Words and gaps (None) of a known text, in order."""
    i = 0
    while i < len(s):
        j = i
        while j < len(s) and s[j].isspace() == s[i].isspace():
            j += 1
        yield None if s[i].isspace() else s[i:j]
        i = j


def install(E):
    """str(), join, f-strings and % on symbolic integers give texts."""
    def text(E, x='', *a):
        if isinstance(x, Text):
            return x
        return Text([x]) if isinstance(x, SInt) else str(x, *a)

    def join(E, f, its):
        items = E.to_items(its)
        if all(isinstance(i, str) for i in items):
            return f(items)
        out = []
        for n, i in enumerate(items):
            if not isinstance(i, (str, Text)):
                if isinstance(i, Fam):
                    raise Unsupported('join of symbolically many texts')
                raise TypeError('sequence item: expected str instance')
            out += ([f.__self__] if n else []) + [i]
        return Text(out)
    E.intercepts[str] = text
    for sep in ('', ' ', '\t', ',', ', ', ';', '\n', '  '):
        E.intercepts[sep.join] = lambda E, *a, f=sep.join: join(E, f, *a)
    E.text = Text


class File:
    """An open text file: what is read from it are its lines, what is written to it is kept in order."""

    def __init__(self, E, lines=None):
        self.E, self.lines, self.written, self.closed = E, lines, E.new([]), False

    def _open(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def readlines(self):
        self._open()
        if self.lines is None:
            raise Unsupported('reading a file opened for writing')
        return self.E.new(list(self.lines))

    def __pyvc_items__(self, E):
        return self.readlines()

    def write(self, s):
        self._open()
        if self.lines is not None:
            raise Unsupported('writing to a file opened for reading')
        self.E.list_extend(self.written, [s])

    def writelines(self, its):
        self._open()
        self.E.list_extend(self.written, self.E.to_items(its))

    def close(self):
        def undo():
            self.closed = old
        old = self.closed
        if not old:
            self.E.mutate(self, undo)
            self.closed = True

    def __enter__(self):
        self._open()
        return self

    def __exit__(self, *a):
        self.close()

    def __pyvc_same__(self, o):
        return self is o

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'file.{name}')


for _f in ('readlines', 'write', 'writelines', 'close', '__enter__', '__exit__'):
    getattr(File, _f).__pyvc_native__ = True
