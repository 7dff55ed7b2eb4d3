"""Contracts of the network functions, for networks of any number of nodes whose four sides are absent or carry any colour."""
import collections
import itertools

from .common import *

SIDES = ((0, 0), (0, 1), (1, 0), (1, 1))


def functions():
    from pyvc.sym import z3
    I, B = z3.IntSort(), z3.BoolSort()
    return I, B


class Net:
    """The network under consideration: node k in [0, n) has at side (i, j) a colour v(k) where p(k), and None elsewhere."""

    def __init__(self, name='', full=False):
        from pyvc.sym import z3
        I, B = functions()
        self.name, self.full = name, full
        self.n = z3.Int('n' + name)
        self.p = {s: (lambda k: z3.BoolVal(True)) if full else z3.Function(f'has{name}{s[0]}{s[1]}', I, B) for s in SIDES}
        self.v = {s: z3.Function(f'colour{name}{s[0]}{s[1]}', I, I) for s in SIDES}

    def fam(self, E):
        from pyvc.sym import Fam, SInt, z3
        k = E.fresh_bvar('node')
        alts = []
        for here in itertools.product((True, False) if not self.full else (True,), repeat=4):
            c = z3.simplify(z3.And([self.p[s](k) if h else z3.Not(self.p[s](k)) for s, h in zip(SIDES, here)]))
            e = [SInt(self.v[s](k)) if h else None for s, h in zip(SIDES, here)]
            alts.append((c, [((e[0], e[1]), (e[2], e[3]))]))
        return Fam([k], z3.And(0 <= k, k < self.n), alts, z3.IntVal(0), self.n)

    def list(self, E):
        return E.new([self.fam(E)])

    def inside(self, k):
        from pyvc.sym import z3
        return z3.And(0 <= k, k < self.n)

    def uses(self, k, io, x):
        """Node k has colour x at its inputs (io = 0) or outputs."""
        from pyvc.sym import z3
        return z3.Or([z3.And(self.p[io, j](k), self.v[io, j](k) == x) for j in (0, 1)])


class Colouring:
    """Any dictionary of colours, seen through `in`, get and []."""

    def __init__(self, has, f):
        self.has, self.f = has, f

    def __pyvc_contains__(self, E, x):
        from pyvc.sym import iterm, mkbool
        return False if x is None else mkbool(self.has(iterm(x)))

    def get(self, c, default=None):
        from pyvc.sym import SInt, iterm, mkint, z3
        E = sym_engine()
        if c is None:
            return default
        t = iterm(c)
        if isinstance(default, (int, SInt)):
            return mkint(z3.If(self.has(t), self.f(t), iterm(default)))
        return SInt(self.f(t)) if E.decide(self.has(t)) else default
    get.__pyvc_native__ = True

    def __pyvc_getitem__(self, E, c):
        from pyvc.sym import SInt, iterm
        if c is None or not E.decide(self.has(iterm(c))):
            raise KeyError(c)
        return SInt(self.f(iterm(c)))

    def __getattr__(self, name):
        from pyvc.sym import Unsupported
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'colour map.{name}')


def sym_engine():
    from pyvc import sym
    return sym.ENGINE


def engine():
    from pyvc.interp import Engine
    E = Engine(timeout_ms=4000)
    E.ghost_sets = True
    return E


def one_family(ctx, lab, got):
    """The list is one family: its items stand in the order of their index."""
    from pyvc.sym import Fam
    ok = isinstance(got, (list, tuple)) and len(got) == 1 and isinstance(got[0], Fam) and len(got[0].vars) == 1 and got[0].lo is not None \
        and all(len(its) == 1 and not isinstance(its[0], Fam) for _, its in got[0].alts)
    ctx.obligation(lab + 'one node for each', ok, repr(got)[:300])
    return ok


def aligned(ctx, p, lab, path, got, net, expected, hyps=(), guard=None):
    """The nodes of `got` stand in order, one for each node k of the network (with guard(k)), with colours expected(s, k) = (present, value)."""
    from pyvc.sym import Fam, iterm, z3
    hyps = list(path.assumed) + list(path.conds) + list(hyps)
    if isinstance(got, (list, tuple)) and not got:
        p.goal(p.solver(hyps), lab + 'no node is lost', net.n <= 0)
        return
    if not one_family(ctx, lab, got):
        return
    f = got[0]
    K = z3.Int('K')
    sub = [(f.vars[0], K)]
    g = z3.substitute(f.guard, *sub)
    inside = net.inside(K) if guard is None else z3.And(net.inside(K), guard(K))
    conds = [z3.And(g, z3.substitute(c, *sub)) for c, _ in f.alts]
    s = p.solver(hyps)
    p.goal(s, lab + 'exactly one node for each', z3.And(inside == z3.Or(conds), z3.And([z3.Not(z3.And(a, b)) for a, b in itertools.combinations(conds, 2)])))
    items = []
    for m, (c, (_, its)) in enumerate(zip(conds, f.alts)):
        node = its[0]
        shape = isinstance(node, tuple) and len(node) == 2 and all(isinstance(x, tuple) and len(x) == 2 for x in node)
        if not shape:
            ctx.obligation(lab + f'case {m}: a node', False, repr(node)[:200])
            continue
        for a, b in SIDES:
            present, value = expected((a, b), K)
            e = node[a][b]
            items.append((lab + f'case {m}: side {a}{b}', z3.Implies(c, z3.Not(present) if e is None else z3.And(present, z3.substitute(iterm(e), *sub) == value))))
    p.goals(s, items, 64)


def normal(ctx, p, lab, paths, hyps=()):
    """The normal paths; the others are obligations that fail."""
    from pyvc.sym import z3
    out = []
    for k, path in enumerate(paths):
        if path.outcome != 'normal':
            p.goal(p.solver(list(hyps) + list(path.assumed) + path.conds), f'{lab}path {k}: does not fail ({path.value!r:.80})', z3.BoolVal(False))
        else:
            out.append((k, path))
    if all(q.outcome == 'normal' and not q.assumed for q in paths):
        p.goal(p.solver(list(hyps)), lab + 'paths cover', z3.Or([q.cond for q in paths]))
    return out


def rename_task():
    """flip_network and remap_colours."""
    def fn(ctx):
        from factorio_sat import network as N
        from pyvc.sym import z3
        I, B = functions()
        net = Net()
        E = engine()
        p = ctx.prover('renaming')
        hyp = [net.n >= 0]

        def given(run):
            def body():
                E.assume(net.n >= 0)
                l = net.list(E)
                before = list(l)
                r = run(l)
                return r, l == before or same_list(l, before)
            return body
        for times in (1, 2):
            def flip(l):
                for _ in range(times):
                    l = E.call(N.flip_network, (l,))
                return l
            lab = f'flip {times} times: '
            for k, path in normal(ctx, p, lab, E.explore(given(flip)), hyp):
                r, kept = path.value
                ctx.obligation(lab + 'the network given is unchanged', kept)
                aligned(ctx, p, lab, path, list(r), net, lambda s, K: (net.p[(s[0] + times) % 2, s[1]](K), net.v[(s[0] + times) % 2, s[1]](K)), hyp)
        has, f = z3.Function('mapped', I, B), z3.Function('new', I, I)
        lab = 'remap: '
        for k, path in normal(ctx, p, lab, E.explore(given(lambda l: E.call(N.remap_colours, (l, Colouring(has, f))))), hyp):
            r, kept = path.value
            ctx.obligation(lab + 'the network given is unchanged', kept)
            aligned(ctx, p, lab, path, list(r), net, lambda s, K: (net.p[s](K), z3.If(has(net.v[s](K)), f(net.v[s](K)), net.v[s](K))), hyp)
        ctx.functions(E)
    return Task('proof renaming', fn, 'proof', 120)


def same_list(a, b):
    from pyvc.sym import same
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def text_engine(files):
    """`files`: name -> list of lines (as items); files opened for writing appear there as File."""
    from pyvc import text
    E = engine()
    text.install(E)
    opened = []

    def open_(E, name, mode='r', *a, **k):
        if not isinstance(name, str):
            raise TypeError('a name is expected')
        if mode in ('w', 'wt'):
            f = E.new(text.File(E))
        elif mode in ('r', 'rt') and name in files:
            f = E.new(text.File(E, files[name](E)))
        else:
            raise FileNotFoundError(name)
        E.list_extend(E.opened, [(name, mode[0], f)])
        return f
    E.intercepts[open] = open_
    return E


def texts(items):
    from pyvc.sym import Fam
    for i in items:
        if isinstance(i, Fam):
            for _, its in i.alts:
                yield from texts(its)
        else:
            yield i


def one_line(t):
    from pyvc.text import Text
    if isinstance(t, str):
        return t.endswith('\n') and t.count('\n') == 1
    known = [p for p in t.parts if isinstance(p, str)] if isinstance(t, Text) else []
    return bool(known) and isinstance(t.parts[-1], str) and t.parts[-1].endswith('\n') and sum(p.count('\n') for p in known) == 1


def save_and_open_task():
    """open_network(save_network(network)) is the network, by name and through open files."""
    def fn(ctx):
        from factorio_sat import network as N
        from pyvc import text
        from pyvc.sym import z3
        net = Net()
        K = z3.Int('K')
        E = text_engine({'net': lambda E: list(E.opened[0][2].written)})
        p = ctx.prover('files')
        k = z3.Int('k?')
        hyp = [net.n >= 0] + [z3.ForAll([k], z3.Implies(net.p[s](k), net.v[s](k) >= 0), patterns=[net.v[s](k)]) for s in SIDES]
        for named_out, named_in in ((True, True), (False, False)):
            def run():
                E.opened = E.new([])
                for h in hyp:
                    E.assume(h)
                l = net.list(E)
                before = list(l)
                if named_out:
                    E.call(N.save_network, ('net', l))
                    ok = len(E.opened) == 1 and E.opened[0][:2] == ('net', 'w') and E.opened[0][2].closed
                    f = E.opened[0][2]
                else:
                    f = E.new(text.File(E))
                    E.call(N.save_network, (f, l))
                    ok = not E.opened and not f.closed
                if named_in:
                    r = E.call(N.open_network, ('net',))
                    ok2 = len(E.opened) == 2 and E.opened[1][:2] == ('net', 'r') and E.opened[1][2].closed
                else:
                    g = E.new(text.File(E, list(f.written)))
                    r = E.call(N.open_network, (g,))
                    ok2 = not E.opened and not g.closed
                return r, same_list(l, before), ok, ok2, list(f.written)
            lab = 'by name: ' if named_out else 'open file: '
            for k_, path in normal(ctx, p, lab, E.explore(run), hyp):
                r, kept, ok, ok2, written = path.value
                ctx.obligation(lab + 'every text written is one line', all(one_line(t) for t in texts(written)), repr(written)[:300])
                ctx.obligation(lab + 'the network given is unchanged', kept)
                ctx.obligation(lab + ('saving opens and closes the file' if named_out else 'saving leaves the file open'), ok)
                ctx.obligation(lab + ('loading opens and closes the file' if named_in else 'loading leaves the file open'), ok2)
                aligned(ctx, p, lab, path, list(r), net, lambda s, K: (net.p[s](K), net.v[s](K)), hyp)
        ctx.functions(E)
    return Task('proof files', fn, 'proof', 240)


GOOD, BAD = ('numbers', 'spaced'), ('three', 'five', 'eight', 'word', 'fraction', 'tail')
SKIP = ('empty', 'blank', 'comment', 'hash', 'indented comment')


def open_task():
    """open_network on any sequence of lines of these kinds."""
    def fn(ctx):
        from factorio_sat import network as N
        from pyvc import text
        from pyvc.sym import Fam, SInt, z3
        I, B = functions()
        net = Net()
        tok = [z3.Function(f'token{m}', I, I) for m in range(4)]
        kind = z3.Function('kind', I, I)
        kinds = GOOD + BAD + SKIP

        def line(name, k):
            t = [text.Num(f(k)) for f in tok]
            return text.Text({'numbers': [t[0], ' ', t[1], ' ', t[2], ' ', t[3], '\n'], 'spaced': ['  ', t[0], '\t', t[1], '   ', t[2], ' ', t[3], ' \r\n'],
                              'three': [t[0], ' 0 1\n'], 'five': [t[0], ' 1 2 3 4\n'],
                              'eight': ['0 0 1 1 1 1 ', t[0], ' 2\n'], 'word': [t[0], ' x 1 1\n'], 'fraction': [t[0], ' 1.5 2 2\n'], 'tail': [t[0], ' 0 1 2 # note\n'],
                              'empty': ['\n'], 'blank': [' \t \n'], 'comment': ['# 1 2 3 4\n'], 'hash': ['#\n'], 'indented comment': ['  #1 1 2 2\n']}[name])

        def lines(E):
            k = E.fresh_bvar('line')
            return [Fam([k], z3.And(0 <= k, k < net.n), [(kind(k) == m, [line(name, k)]) for m, name in enumerate(kinds)], z3.IntVal(0), net.n)]
        E = text_engine({'net': lines})
        p = ctx.prover('lines')
        j = z3.Int('j?')
        hyp = [net.n >= 0, z3.ForAll([j], z3.And(0 <= kind(j), kind(j) < len(kinds)), patterns=[kind(j)])]
        good = lambda k: z3.And(kind(k) >= 0, kind(k) < len(GOOD))
        bad = lambda k: z3.And(kind(k) >= len(GOOD), kind(k) < len(GOOD) + len(BAD))
        for named in (True, False):
            def run():
                E.opened = E.new([])
                for h in hyp:
                    E.assume(h)
                g = 'net' if named else E.new(text.File(E, lines(E)))
                error = None
                try:
                    r = E.call(N.open_network, (g,))
                except ValueError as e:
                    r, error = None, e
                f = E.opened[0][2] if named and E.opened else g
                return r, error, len(E.opened) == int(named), f == 'net' or f.closed
            lab = 'by name: ' if named else 'open file: '
            outcomes = set()
            for k, path in normal(ctx, p, lab, E.explore(run), hyp):
                r, error, ok, closed = path.value
                outcomes.add(error is None)
                ctx.obligation(f'{lab}path {k}: the file is {"closed" if named else "left open"}', ok and closed == named)
                if error is not None:
                    p.goal(p.solver(hyp + list(path.assumed) + path.conds), f'{lab}path {k}: rejected only for a line that is no node', z3.Exists([j], z3.And(net.inside(j), bad(j))))
                    continue
                K = z3.Int('K')
                p.goal(p.solver(hyp + list(path.assumed) + path.conds), f'{lab}path {k}: a line that is no node is rejected', z3.Not(z3.And(net.inside(K), bad(K))))
                aligned(ctx, p, f'{lab}path {k}: ', path, list(r), net, lambda s, K: (tok[2 * s[0] + s[1]](K) != -1, tok[2 * s[0] + s[1]](K)), hyp, guard=good)
            ctx.obligation(lab + 'files are accepted and rejected', outcomes == {True, False}, repr(outcomes))
        ctx.functions(E)
    return Task('proof lines', fn, 'proof', 240)


class Palette:
    """The colours of a network as sets: those of inputs only ('i'), of inputs and outputs ('b'), of outputs only ('o')."""

    def __init__(self, E, net):
        from pyvc.sym import z3
        I, B = functions()
        self.E, self.net = E, net
        self.In = [z3.Function(f'used{net.name}{io}', I, B) for io in (0, 1)]
        self.at = [z3.Function(f'user{net.name}{io}', I, I) for io in (0, 1)]
        self.count = {r: z3.Int(f'n{net.name}_{r}') for r in 'ibo'}
        x, k = z3.Ints('x? k?')
        self.axioms = [c >= 0 for c in self.count.values()] + [net.n >= 0]
        for io in (0, 1):
            for j in (0, 1):
                self.axioms.append(z3.ForAll([k], z3.Implies(z3.And(net.inside(k), net.p[io, j](k)), self.In[io](net.v[io, j](k))), patterns=[net.v[io, j](k)]))
            w = self.at[io](x)
            self.axioms.append(z3.ForAll([x], z3.Implies(self.In[io](x), z3.And(net.inside(w), net.uses(w, io, x))), patterns=[self.In[io](x)]))
        self.basic = [c >= 0 for c in self.count.values()] + [net.n >= 0]
        E.background['palette' + net.name] = z3.And(self.axioms)
        E.algebra = self.read
        E.algebra_of = self.coerce
        self.memo = []

    def region(self, r, x):
        from pyvc.sym import z3
        a, b = self.In[0](x), self.In[1](x)
        return {'i': z3.And(a, z3.Not(b)), 'b': z3.And(a, b), 'o': z3.And(b, z3.Not(a))}[r]

    def member(self, regions, x):
        from pyvc.sym import z3
        return z3.Or([self.region(r, x) for r in regions]) if regions else z3.BoolVal(False)

    def size(self, regions):
        from pyvc.sym import z3
        return z3.Sum([self.count[r] for r in regions]) if regions else z3.IntVal(0)

    def coerce(self, s):
        from pyvc.ghost import SymSet
        from pyvc.sym import Unsupported
        if isinstance(s, Colours):
            return s
        if isinstance(s, SymSet):
            return self.read(s)
        if isinstance(s, (set, frozenset, list, tuple)) and all(x is None for x in s):
            return Colours(self, '', none=len(s) > 0)
        raise Unsupported('a set of other things')

    def read(self, s):
        """Which regions make up a set built from the colours of the network."""
        from pyvc.ghost import equal_term, exists
        from pyvc.sym import SInt, Unsupported, same, z3
        for content, c in self.memo:
            if same_list(list(s.content), content):
                return c.copy()
        x = z3.Int('x')
        m = exists(s.content, lambda i: z3.BoolVal(False) if i is None else equal_term(self.E, i, SInt(x)))
        none = z3.simplify(exists(s.content, lambda i: z3.BoolVal(i is None)))
        for rs in ('ib', 'bo', 'ibo', 'i', 'o', 'b', 'io', '') if s.content else ('',):
            q = z3.Solver()
            q.set('timeout', 3000)
            q.add(self.axioms)
            q.add(m != self.member(rs, x))
            if q.check() == z3.unsat:
                c = Colours(self, rs, none=False if z3.is_false(none) else none)
                self.memo.append((list(s.content), c))
                return c.copy()
        raise Unsupported('a set of some of the colours')


class Colours:
    """A set of whole regions (and None where `none`).  Its order of iteration is unknown; it visits every element once."""
    __pyvc_set__ = True

    def __init__(self, palette, regions, none=False, without=()):
        self.palette, self.regions, self.none, self.order = palette, frozenset(regions), none, None
        self.without = tuple(without)       # elements (terms) of the regions that are left out
        palette.E.new(self)

    def __pyvc_subst__(self, pairs):
        return self

    def __pyvc_same__(self, o):
        return self is o or isinstance(o, Colours) and not o.without and not self.without and o.regions == self.regions and o.none is False and self.none is False

    def _none(self):
        from pyvc.sym import z3
        return z3.BoolVal(self.none) if isinstance(self.none, bool) else self.none

    def _with(self, other, f):
        from pyvc.sym import SInt, Unsupported, iterm, z3
        from pyvc.ghost import SymSet
        if f == '-' and isinstance(other, (SymSet, set, frozenset)):
            points = list(other.content if isinstance(other, SymSet) else other)
            if points and all(isinstance(x, (SInt, int)) for x in points):
                return Colours(self.palette, self.regions, self.none, self.without + tuple(iterm(x) for x in points))
        o = self.palette.coerce(other)
        if self.without or o.without:
            raise Unsupported('operation on a set without some elements')
        a, b = self._none(), o._none()
        n = z3.simplify({'-': z3.And(a, z3.Not(b)), '&': z3.And(a, b), '|': z3.Or(a, b), '^': a != b}[f])
        rs = {'-': self.regions - o.regions, '&': self.regions & o.regions, '|': self.regions | o.regions, '^': self.regions ^ o.regions}[f]
        return Colours(self.palette, rs, True if z3.is_true(n) else False if z3.is_false(n) else n)

    def __sub__(self, o): return self._with(o, '-')
    def __and__(self, o): return self._with(o, '&')
    def __or__(self, o): return self._with(o, '|')
    def __xor__(self, o): return self._with(o, '^')
    def __rsub__(self, o): return self.palette.coerce(o) - self
    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__
    difference, intersection, union, symmetric_difference = __sub__, __and__, __or__, __xor__

    def copy(self):
        return Colours(self.palette, self.regions, self.none, self.without)

    def member(self, x):
        from pyvc.sym import z3
        return z3.And([self.palette.member(self.regions, x)] + [x != w for w in self.without])

    def count(self):
        """Number of elements; those left out count where they are members and not left out twice."""
        from pyvc.sym import z3
        n = self.palette.size(self.regions)
        for k, w in enumerate(self.without):
            n = n - z3.If(z3.And([self.palette.member(self.regions, w)] + [w != v for v in self.without[:k]]), 1, 0)
        return n

    def discard(self, x):
        from pyvc.sym import Unsupported
        if x is not None:
            raise Unsupported('set.discard')

        def undo():
            self.none, self.order = old
        old = self.none, self.order
        self.palette.E.mutate(self, undo)
        self.none, self.order = False, None

    def __pyvc_contains__(self, E, x):
        from pyvc.sym import iterm, mkbool
        return mkbool(self._none()) if x is None else mkbool(self.member(iterm(x)))

    def __pyvc_len__(self, E):
        from pyvc.sym import mkint, z3
        return mkint(self.count() + z3.If(self._none(), 1, 0))

    def __bool__(self):
        return self.palette.E.decide(self.__pyvc_len__(None) > 0 if isinstance(self.__pyvc_len__(None), int) else self.__pyvc_len__(None).t > 0)

    def __eq__(self, other):
        from pyvc.sym import Unsupported
        if self is other:
            return True
        o = self.palette.coerce(other)
        if self.without or o.without:
            raise Unsupported('comparison of sets')
        if o.regions == self.regions and o.none is self.none:
            return True
        d = self ^ o
        return not bool(d)

    __hash__ = None

    def enumeration(self, E, ordered=False):
        from pyvc.sym import Fam, SInt, z3
        I, B = functions()
        tag = E.fresh_name('order') + ''.join(sorted(self.regions)) + '<' * ordered + ''.join(map(str, self.without))
        col, idx = z3.Function('col' + tag, I, I), z3.Function('idx' + tag, I, I)
        n = self.count()
        j, x = z3.Ints('j? x?')
        facts = [z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(self.member(col(j)), idx(col(j)) == j)), patterns=[col(j)])]
        for f in self.palette.In:
            facts.append(z3.ForAll([x], z3.Implies(self.member(x), z3.And(0 <= idx(x), idx(x) < n, col(idx(x)) == x)), patterns=[f(x)]))
        if ordered:
            y = z3.Int('y?')
            facts.append(z3.ForAll([j, y], z3.Implies(z3.And(0 <= j, j < y, y < n), col(j) < col(y)), patterns=[z3.MultiPattern(col(j), col(y))]))
        E.background[tag] = z3.And(facts)
        v = E.fresh_bvar('j')
        return Fam([v], z3.And(0 <= v, v < n), [(z3.BoolVal(True), [SInt(col(v))])], z3.IntVal(0), z3.simplify(n))

    def __pyvc_items__(self, E):
        if self.order is None:
            if not self.regions:
                self.order = []
            else:
                self.order = [self.enumeration(E)]

            def undo():
                self.order = None
            E.mutate(self, undo)
        return ([None] if self.none is not False and E.decide(self._none()) else []) + list(self.order)

    def __pyvc_sorted__(self, E, **k):
        from pyvc.sym import Unsupported
        if k or self.none is not False:
            raise Unsupported('sorted set')
        return E.new([self.enumeration(E, True)] if self.regions else [])

    def __getattr__(self, name):
        from pyvc.sym import Unsupported
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'set.{name}')


def sets_task():
    """get_exterior_colours, calculate_network_size and calculate_total_colours."""
    def fn(ctx):
        from factorio_sat import network as N
        from pyvc.sym import iterm, z3
        net = Net()
        E = engine()
        pal = Palette(E, net)
        p = ctx.prover('sets')

        def given(f):
            def run():
                for a in pal.basic:
                    E.assume(a)
                l = net.list(E)
                before = list(l)
                r = E.call(f, (l,))
                return r, same_list(l, before)
            return run
        for lab, f in (('exterior colours: ', N.get_exterior_colours), ('network size: ', N.calculate_network_size), ('total colours: ', N.calculate_total_colours)):
            for k, path in normal(ctx, p, lab, E.explore(given(f)), pal.axioms):
                r, kept = path.value
                s = p.solver(pal.axioms + list(path.assumed) + path.conds)
                ctx.obligation(lab + 'the network given is unchanged', kept)
                if f is N.get_exterior_colours:
                    for a, want, what in zip(r, 'io', ('inputs that are no outputs', 'outputs that are no inputs')):
                        c = pal.coerce(a)
                        p.goal(s, f'{lab}path {k}: the colours of {what}', z3.And(z3.BoolVal(not c.without), z3.Not(c._none()), z3.BoolVal(c.regions == {want})))
                elif f is N.calculate_network_size:
                    ctx.obligation(lab + 'a pair', isinstance(r, tuple) and len(r) == 2)
                    p.goal(s, f'{lab}path {k}: the numbers of exterior colours', z3.And(iterm(r[0]) == pal.count['i'], iterm(r[1]) == pal.count['o']))
                else:
                    p.goal(s, f'{lab}path {k}: the number of colours', iterm(r) == pal.size('ibo'))
        ctx.functions(E)
    return Task('proof sets', fn, 'proof', 120)


class Renamed:
    """A network in which remap_colours gave every colour its entry in the map."""

    def __init__(self, network, colour_map):
        self.network, self.colour_map = network, colour_map


def fix_task():
    """fix_colours: a one-to-one renumbering 0 .. n - 1 with the input colours first and the output colours last."""
    def fn(ctx):
        from factorio_sat import network as N
        from pyvc.ghost import Filled, SymMap, leaves
        from pyvc.sym import Unsupported, iterm, subst, z3
        net = Net()
        E = engine()
        E.ghost_dicts = True
        pal = Palette(E, net)
        p = ctx.prover('renumbering')

        def remap(E, f, args, kw):
            net_, m = E.bind(f, args, kw) if hasattr(E, 'bind') else (list(args) + list(kw.values()))[:2]
            if isinstance(m, Filled):
                return Renamed(net_, list(m.content))
            if isinstance(m, SymMap):
                return Renamed(net_, list(m.content))
            if isinstance(m, dict):
                return Renamed(net_, list(m.items()))
            raise Unsupported('colour map')
        E.contracts['network.remap_colours'] = remap

        def run():
            for a in pal.basic:
                E.assume(a)
            l = net.list(E)
            before = list(l)
            r = E.call(N.fix_colours, (l,))
            return r, l, same_list(l, before)
        for k, path in normal(ctx, p, '', E.explore(run), pal.axioms):
            r, l, kept = path.value
            lab = f'path {k}: '
            if isinstance(r, list) and same_list(list(r), list(l)):
                raise Unsupported('network returned as it is')
            if not isinstance(r, Renamed):
                raise Unsupported('colours are not renamed by remap_colours')
            ctx.obligation(lab + 'the network given is unchanged', kept)
            ctx.obligation(lab + 'the network is renamed', r.network is l or same_list(list(r.network), list(l)))
            facts = list(E.background.values()) + list(path.assumed) + path.conds + pal.basic
            n, ni, no = pal.size('ibo'), pal.count['i'], pal.count['o']
            X, V = z3.Ints('X V')
            flat = list(leaves(r.colour_map))

            def inst(m, tag):
                vs, g, (key, value) = flat[m]
                pairs = [(v, z3.Int(f'{v}~{tag}')) for v in vs]
                sub = lambda t: z3.substitute(t, *pairs) if pairs else t
                return sub(g), None if key is None else sub(iterm(key)), sub(iterm(value))
            goals = []
            for m in range(len(flat)):
                g, key, value = inst(m, 'a')
                if key is None:
                    goals.append((f'{lab}entry {m}: absent sides are not renamed', z3.Not(g)))
                    continue
                goals.append((f'{lab}entry {m}: the new colour is one of 0 .. n - 1', z3.Implies(g, z3.And(0 <= value, value < n))))
                goals.append((f'{lab}entry {m}: input colours come first', z3.Implies(z3.And(g, pal.region('i', key)), value < ni)))
                goals.append((f'{lab}entry {m}: output colours come last', z3.Implies(z3.And(g, pal.region('o', key)), value >= n - no)))
                goals.append((f'{lab}entry {m}: other colours in between', z3.Implies(z3.And(g, pal.region('b', key)), z3.And(value >= ni, value < n - no))))
                goals.append((f'{lab}entry {m}: only colours of the network', z3.Implies(g, pal.member('ibo', key))))
                for q in range(m, len(flat)):
                    g2, key2, value2 = inst(q, 'b')
                    if key2 is None:
                        continue
                    goals.append((f'{lab}entries {m}, {q}: one-to-one', z3.Implies(z3.And(g, g2), (key == key2) == (value == value2))))
            goals = [(a, t) for a, t in goals]
            s = p.solver(facts)
            for a, t in goals:
                p.goal(s, a, t)
            cover = lambda f: z3.Or([z3.Exists(vs, f(g, key, value)) if vs else f(g, key, value) for vs, g, (key, value) in flat if key is not None]) if flat else z3.BoolVal(False)
            for reg in 'ibo':
                p.goal(s, f'{lab}every colour has a new one ({reg})', z3.Implies(pal.region(reg, X), cover(lambda g, key, value: z3.And(g, iterm(key) == X))))
        ctx.functions(E)
    return Task('proof renumbering', fn, 'proof', 120)


class Cell:
    def __init__(self, key, delta=0):
        self.key, self.delta = key, delta

    def __add__(self, d):
        return Cell(self.key, self.delta + d) if type(d) is int else NotImplemented
    __radd__ = __add__

    def __sub__(self, d):
        return Cell(self.key, self.delta - d) if type(d) is int else NotImplemented

    def __pyvc_subst__(self, pairs):
        from pyvc.sym import subst
        return Cell(subst(self.key, pairs), self.delta)


class Counts:
    """A dictionary of counters that are only ever added to: `log` holds what was added to which, so that counter x is the sum of
    what was added under x.  Listed, it has entry(w) for w in [0, m): every colour whose counter is not 0 and perhaps others, each once."""
    made = []

    def __init__(self, E):
        self.E, self.log, self.none = E, E.new([]), True
        Counts.made.append(self)

    def __pyvc_getitem__(self, E, key):
        return Cell(key)

    def get(self, key, default=None):
        from pyvc.sym import Unsupported
        if default != 0:
            raise Unsupported('default of a counter')
        return Cell(key)
    get.__pyvc_native__ = True

    def __pyvc_setitem__(self, E, key, value):
        from pyvc.sym import Unsupported, same
        if not isinstance(value, Cell) or not same(value.key, key):
            raise Unsupported('counter set')
        E.list_extend(self.log, [(key, value.delta)])

    def pop(self, key, *default):
        from pyvc.sym import Unsupported
        if key is not None or not default:
            raise Unsupported('counter removed')

        def undo():
            self.none = old
        old = self.none
        self.E.mutate(self, undo)
        self.none = False
    pop.__pyvc_native__ = True

    def items(self):
        from pyvc.sym import Fam, SInt, z3
        I, B = functions()
        w = self.E.fresh_bvar('entry')
        m, col, S = z3.Int('entries'), z3.Function('entry', I, I), z3.Function('surplus', I, I)
        return [Fam([w], z3.And(0 <= w, w < m), [(z3.BoolVal(True), [(SInt(col(w)), SInt(S(col(w))))])], z3.IntVal(0), m)]
    items.__pyvc_native__ = True

    def __getattr__(self, name):
        from pyvc.sym import Unsupported
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'counters.{name}')


def io_task():
    """get_input_output_colours: the only colour with more uses as input than as output, the only one with fewer, and by how much."""
    def fn(ctx):
        from factorio_sat import network as N
        from pyvc.interp import Poison
        from pyvc.sym import Fam, SInt, Unsupported, iterm, mkint, z3
        I, B = functions()
        net = Net()
        m, col, idx, S = z3.Int('entries'), z3.Function('entry', I, I), z3.Function('number', I, I), z3.Function('surplus', I, I)
        x, w, K = z3.Ints('x? w? K')
        facts = [net.n >= 0, m >= 0,
                 z3.ForAll([w], z3.Implies(z3.And(0 <= w, w < m), idx(col(w)) == w), patterns=[col(w)]),
                 z3.ForAll([x], z3.Implies(S(x) != 0, z3.And(0 <= idx(x), idx(x) < m, col(idx(x)) == x)), patterns=[S(x)])]
        q = 'network.get_input_output_colours'

        def counters(E, factory=None, *a):
            if a or factory is not None and E.call(factory, ()) != 0:
                raise Unsupported('counters that do not start at 0')
            return E.new(Counts(E))

        def attempt(signs):
            E = engine()
            E.trace = []
            E.ghost_dicts = Counts
            E.class_hooks[collections.defaultdict] = counters
            E.class_hooks[collections.Counter] = lambda E, *a: E.new(Counts(E)) if not a else counters(E, *a, 1)
            E.cut_for = {q: lambda items: len(items) == 1 and isinstance(items[0], Fam) and str(items[0].vars[0]).startswith('entry')}
            E.background['entries'] = z3.And(facts)
            goals = []

            def one(t, sign, c, v):
                """(c, v) is the only entry before t of this sign."""
                return z3.And(v == sign * S(c), v > 0, 0 <= idx(c), idx(c) < t, col(idx(c)) == c, z3.ForAll([w], z3.Implies(z3.And(0 <= w, w < t, sign * S(col(w)) > 0), col(w) == c), patterns=[col(w)]))

            def none(t, sign):
                return z3.ForAll([w], z3.Implies(z3.And(0 <= w, w < t), z3.Not(sign * S(col(w)) > 0)), patterns=[col(w)])

            def inv(E, frame, item):
                t = m if item is None else z3.Int('item')
                out = {}
                known = [n for n, v in frame.locals.items() if isinstance(v, Poison) and v.loop is None]
                pre = E.trace[-1][1]
                known = E.io_names = sorted(n for n in known if n in pre and pre[n] is None)
                for name, sign in zip(known, signs):
                    if E.decide(E.fresh_bool('seen')):
                        c = z3.Int(E.fresh_name('seen'))
                        E.assume(one(t, sign, c, sign * S(c)))
                        out[name] = (SInt(c), mkint(sign * S(c)))
                    else:
                        E.assume(none(t, sign))
                        out[name] = None
                return out
            E.invariants[q, 'for'] = inv

            def run():
                Counts.made = []
                E.assume(net.n >= 0)
                E.assume(m >= 0)
                l = net.list(E)
                before = list(l)
                try:
                    r = E.call(N.get_input_output_colours, (l,))
                except AssertionError:
                    r = 'none'
                if len(Counts.made) != 1:
                    raise Unsupported('counters')
                return r, same_list(l, before), list(Counts.made[0].log), Counts.made[0].none
            paths = E.explore(run)
            return E, paths, one, none, inv
        best = None
        for signs in ((1, -1), (-1, 1)):
            E, paths, one, none, inv = attempt(signs)
            p = ctx.prover('exterior') if best is None else None
            from pyvc.prove import Prover
            mine = Prover('input and output colour')
            log = []
            unique = [z3.ForAll([x], z3.And((S(x) > 0) == (x == z3.Int('P')), (S(x) < 0) == (x == z3.Int('Q'))), patterns=[S(x)]), S(z3.Int('P')) > 0, S(z3.Int('Q')) < 0]
            kinds = set()
            for k, path in enumerate(paths):
                lab = f'path {k}: '
                s = mine.solver(facts + list(path.assumed) + path.conds)
                loops = [e for e in path.trace if not isinstance(e, Fam) and e[0] == 'loop']
                for e in loops:
                    log.append((lab + 'nothing found before the first entry', all(v is None for v in e[1].values())))
                if path.outcome == 'cut':
                    new = [e for e in path.trace if not isinstance(e, Fam) and e[0] == 'again'][-1][1]
                    t = z3.Int('item') + 1
                    for name, sign in zip(E.io_names, signs):
                        v = new[name]
                        if v is not None and not (isinstance(v, tuple) and len(v) == 2):
                            raise Unsupported('what the loop keeps')
                        mine.goal(s, lab + f'kept: {name}', none(t, sign) if v is None else one(t, sign, iterm(v[0]), iterm(v[1])))
                elif path.outcome == 'normal':
                    r, kept, events, with_none = path.value
                    kinds.add(r == 'none' if isinstance(r, str) else False)
                    log.append((lab + 'the network given is unchanged', kept))
                    if isinstance(r, str):
                        mine.goal(mine.solver(facts + unique + list(path.assumed) + path.conds), lab + 'fails only where the colours are not unique', z3.BoolVal(False))
                    else:
                        shape = isinstance(r, tuple) and len(r) == 2 and all(isinstance(a, tuple) and len(a) == 2 for a in r)
                        log.append((lab + 'two colours with their numbers', shape))
                        if shape:
                            (a, va), (b, vb) = [[iterm(y) for y in z] for z in r]
                            X = z3.Int('X')
                            for name, c, v, sign in (('input', a, va, 1), ('output', b, vb, -1)):
                                mine.goal(s, lab + f'the {name} colour and its number', z3.And(v == sign * S(c), v > 0))
                                mine.goal(s, lab + f'the only {name} colour', z3.Implies(sign * S(X) > 0, X == c))
                    log += counted(mine, lab, path, net, events, with_none)
                else:
                    mine.goal(s, lab + f'does not fail ({path.value!r:.80})', z3.BoolVal(False))
            log.append(('both outcomes', kinds == {True, False}))
            ok = all(b for _, b in log) and all(r[1] == 'proved' for r in mine.results)
            if best is None or ok:
                best = log, mine, E
            if ok:
                break
        log, mine, E = best
        ctx.out['results'] += mine.results
        for name, good in log:
            ctx.obligation('input and output colour: ' + name, good)
        ctx.functions(E)
    return Task('proof input and output colour', fn, 'proof', 120)


def counted(p, lab, path, net, events, with_none):
    """What was added to the counters: 1 for each input side, -1 for each output side that is present."""
    from pyvc.sym import Fam, SInt, z3
    K = z3.Int('K')
    out, cover = [], []
    fams = [e for e in events if isinstance(e, Fam)]
    out.append((lab + 'only the sides of nodes are counted', len(fams) == len(events)))
    per = {s: [] for s in SIDES}
    for f in fams:
        ok = len(f.vars) == 1
        out.append((lab + 'counted node by node', ok))
        if not ok:
            continue
        sub = [(f.vars[0], K)]
        for c, its in f.alts:
            cond = z3.And(z3.substitute(f.guard, *sub), z3.substitute(c, *sub))
            for e in its:
                if isinstance(e, Fam):
                    out.append((lab + 'counted side by side', False))
                    continue
                key, d = e
                if key is None:
                    out.append((lab + 'absent sides are not counted', not with_none))
                    continue
                t = z3.simplify(z3.substitute(key.t, *sub)) if isinstance(key, SInt) else None
                side = [s for s in SIDES if t is not None and t.eq(z3.simplify(net.v[s](K)))]
                good = len(side) == 1 and d == (1 if side[0][0] == 0 else -1)
                out.append((lab + 'each side counts once with its sign', good))
                if good:
                    per[side[0]].append(cond)
    s = p.solver(list(path.assumed) + path.conds)
    for side in SIDES:
        conds = per[side]
        p.goal(s, lab + f'side {side[0]}{side[1]} is counted exactly once', z3.And(z3.And(net.inside(K), net.p[side](K)) == (z3.Or(conds) if conds else z3.BoolVal(False)),
               z3.And([z3.Not(z3.And(a, b)) for a, b in itertools.combinations(conds, 2)] or [z3.BoolVal(True)])))
    return out


def sorted_side(p, s, lab, cond, side, net, io, K, sub):
    """The side is a reordering of side io of node K, and its order depends on the colours only."""
    from pyvc.sym import iterm, z3
    here = [z3.substitute(iterm(c), *sub) for c in side if c is not None]
    a, b = [(net.p[io, j](K), net.v[io, j](K)) for j in (0, 1)]
    n = len(here)
    if n == 0:
        right = z3.Not(z3.Or(a[0], b[0]))
    elif n == 1:
        right = z3.Or(z3.And(a[0], z3.Not(b[0]), here[0] == a[1]), z3.And(b[0], z3.Not(a[0]), here[0] == b[1]))
    else:
        right = z3.And(a[0], b[0], z3.Or(z3.And(here[0] == a[1], here[1] == b[1]), z3.And(here[0] == b[1], here[1] == a[1])))
    return right, n == 2 and (here[0], here[1]), n == 1 and side[0] is None


def canonical(ctx, p, lab, path, alts, net, hyps, at, nodes):
    """Cases (condition, node) of the node made from node at(K): sides reordered, and always the same way round."""
    from pyvc.sym import z3
    K = z3.Int('K')
    s = p.solver(list(hyps) + list(path.assumed) + list(path.conds))
    ways, single, items = set(), set(), []
    for m, (c, node, sub) in enumerate(alts):
        shape = isinstance(node, tuple) and len(node) == 2 and all(isinstance(x, tuple) and len(x) == 2 for x in node)
        ctx.obligation(f'{lab}case {m}: a node', shape, repr(node)[:200])
        if not shape:
            continue
        for io in (0, 1):
            right, pair, first = sorted_side(p, s, lab, c, node[io], net, io, at, sub)
            items.append((f'{lab}case {m}: side {io} keeps its colours', z3.Implies(c, right)))
            if pair:
                items.append((f'{lab}case {m}: side {io} is in order', z3.Implies(c, pair[0] <= pair[1])))
            if sum(x is not None for x in node[io]) == 1:
                single.add(first)
    p.goals(s, items, 32)
    ctx.obligation(lab + 'an absent colour always stands on the same side', len(single) <= 1)


def duplicates_task():
    """deduplicate_network counts the nodes with each side in order, so that nodes with the same colours at each side are the same key."""
    def fn(ctx):
        from factorio_sat import network as N
        from pyvc.sym import Unsupported, z3
        net = Net()
        E = engine()
        p = ctx.prover('duplicates')

        class Bag:
            def __init__(self, items):
                self.items_ = items

        def counter(E, it=None, **k):
            if it is None or k:
                raise Unsupported('counter')
            return Bag(E.to_items(it))
        E.class_hooks[collections.Counter] = counter

        def run():
            E.assume(net.n >= 0)
            l = net.list(E)
            before = list(l)
            r = E.call(N.deduplicate_network, (l,))
            return r, same_list(l, before)
        K = z3.Int('K')
        for k, path in normal(ctx, p, '', E.explore(run), [net.n >= 0]):
            r, kept = path.value
            ctx.obligation('the network given is unchanged', kept)
            if not isinstance(r, Bag):
                raise Unsupported('not counted by Counter')
            if not one_family(ctx, '', r.items_):
                continue
            f = r.items_[0]
            sub = [(f.vars[0], K)]
            conds = [z3.And(z3.substitute(f.guard, *sub), z3.substitute(c, *sub)) for c, _ in f.alts]
            s = p.solver([net.n >= 0] + list(path.assumed) + path.conds)
            p.goal(s, 'every node is counted once', z3.And(net.inside(K) == z3.Or(conds), z3.And([z3.Not(z3.And(a, b)) for a, b in itertools.combinations(conds, 2)])))
            canonical(ctx, p, '', path, [(c, its[0], sub) for c, (_, its) in zip(conds, f.alts)], net, [net.n >= 0], K, None)
        ctx.functions(E)
    return Task('proof duplicates', fn, 'proof', 120)


class Nodes:
    """A list with one node for every index, changed in place index by index."""

    def __init__(self, E, items):
        self.E, self.content, self.sets = E, E.new(list(items)), E.new([])

    def settle(self):
        from pyvc.sym import Fam, Unsupported, z3
        if not self.sets:
            return
        f, g = self.sets[0], self.content[0]
        if len(self.sets) != 1 or not isinstance(f, Fam) or f.lo is None or any(len(its) != 1 or isinstance(its[0], Fam) for _, its in f.alts):
            raise Unsupported('nodes replaced')
        E = self.E
        q = z3.Solver()
        q.set('timeout', 3000)
        q.add([a for a in E.assumptions if not has_quant(a)])
        v = f.vars[0]
        bad = [z3.And(f.guard, c, z3.BoolVal(True) if not hasattr(its[0][0], 't') else its[0][0].t != v) for c, its in f.alts]
        inside = z3.And(g.lo <= v, v < g.hi)
        q.add(z3.Or(z3.Or(bad), inside != z3.And(f.guard, z3.Or([c for c, _ in f.alts]))))
        if q.check() != z3.unsat:
            raise Unsupported('not every node is replaced at its index')
        new = [Fam(f.vars, f.guard, [(c, [its[0][1]]) for c, its in f.alts], g.lo, g.hi)]
        oldc, olds = list(self.content), list(self.sets)

        def undo():
            list.__setitem__(self.content, slice(None), oldc)
            list.__setitem__(self.sets, slice(None), olds)
        E.mutate(self, undo)
        self.content[:] = new
        self.sets[:] = []

    def __pyvc_items__(self, E):
        self.settle()
        return list(self.content)

    def __pyvc_len__(self, E):
        return E.seq_len(list(self.content))

    def __pyvc_setitem__(self, E, i, v):
        E.list_extend(self.sets, [(i, v)])

    def sort(self, **k):
        from pyvc.interp import _permuted
        self.settle()
        old = list(self.content)
        new = _permuted(self.E, old, **k)

        def undo():
            list.__setitem__(self.content, slice(None), old)
        self.E.mutate(self, undo)
        self.content[:] = new
    sort.__pyvc_native__ = True

    def __getattr__(self, name):
        from pyvc.sym import Unsupported
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'list.{name}')


def has_quant(t):
    from pyvc.prove import scan
    return scan(t)[0]


def tidy_task():
    """tidy_network: the renumbered network with its sides in order and its nodes reordered."""
    def fn(ctx):
        from factorio_sat import network as N
        from pyvc.sym import Unsupported, z3
        E = engine()
        E.permutations = {}
        net = Net('r')          # the network that fix_colours returns
        pal = Palette(E, net)
        p = ctx.prover('tidying')
        calls = []

        def fix(E, f, args, kw):
            given = list(args) + list(kw.values())
            if len(given) != 1 or given[0] is not marker:
                raise Unsupported('renumbering of something else')
            return E.new(Nodes(E, [net.fam(E)]))
        marker = object()
        E.contracts['network.fix_colours'] = fix

        def exterior(E, f, args, kw):
            return Colours(pal, 'i'), Colours(pal, 'o')
        E.contracts['network.get_exterior_colours'] = exterior
        k_ = z3.Int('k?')
        hyp = pal.axioms + [z3.ForAll([k_], z3.Implies(net.p[s](k_), net.v[s](k_) >= 0), patterns=[net.v[s](k_)]) for s in SIDES]

        def run():
            for a in pal.basic:
                E.assume(a)
            for h in hyp[-4:]:
                E.assume(h)
            r = E.call(N.tidy_network, (marker,))
            return (list(r.__pyvc_items__(E)) if isinstance(r, Nodes) else r)
        K = z3.Int('K')
        for k, path in normal(ctx, p, '', E.explore(run), hyp):
            lab = f'path {k}: '
            r = path.value
            if not isinstance(r, list):
                raise Unsupported('the tidied network')
            if not one_family(ctx, lab, r):
                continue
            f = r[0]
            ranks = [t for t in walk([c for c, _ in f.alts] + [f.guard]) if t.num_args() == 1 and t.decl().name().startswith('rank')]
            outer = [t for t in ranks if not any(t.eq(o.arg(0)) for o in ranks)]
            at = outer[0] if outer else f.vars[0]
            if len({t.get_id() for t in outer}) > 1:
                raise Unsupported('order of nodes')
            # the node made at place j is node at(j); at is one-to-one and onto
            sub = [(f.vars[0], K)]
            node = z3.substitute(at, *sub)
            perms = list(E.permutations.values())
            s = p.solver(hyp + perms + list(path.assumed) + path.conds)
            J = z3.Int('J')
            p.goal(s, lab + 'the nodes are reordered', z3.And(z3.Implies(net.inside(K), net.inside(node)),
                   z3.Implies(z3.And(net.inside(K), net.inside(J), K != J), node != z3.substitute(at, (f.vars[0], J)))))
            conds = [z3.And(z3.substitute(f.guard, *sub), z3.substitute(c, *sub)) for c, _ in f.alts]
            p.goal(s, lab + 'no node is lost', net.inside(K) == z3.Or(conds))
            p.goal(s, lab + 'no node is doubled', z3.And([z3.Not(z3.And(a, b)) for a, b in itertools.combinations(conds, 2)]))
            canonical(ctx, p, lab, path, [(c, its[0], sub) for c, (_, its) in zip(conds, f.alts)], net, hyp + perms, node, None)
        ctx.functions(E)
    return Task('proof tidying', fn, 'proof', 240)


def walk(ts):
    from pyvc.sym import z3
    seen, stack = {}, list(ts)
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen[t.get_id()] = t
        stack += t.children()
    return [t for t in seen.values() if z3.is_app(t)]


def benes_task(kind):
    """create_benes_network: what one step makes of the network for a smaller (even) or larger (odd) size, whose contract is assumed."""
    def fn(ctx):
        from factorio_sat import network as N
        from pyvc.ghost import Filled, leaves
        from pyvc.sym import Fam, SBool, SInt, Unsupported, iterm, subst, z3
        I, B = functions()
        E = engine()
        E.ghost_dicts = True
        net = Net('r', full=True)       # the network of the recursive call
        pal = Palette(E, net)
        size, h, P, Q, F = z3.Ints('size h P Q F')
        S = z3.Function('S', I, I)
        p = ctx.prover(f'generated {kind}')
        x, k_, K, X, Y = z3.Ints('x? k? K X Y')
        # contract of the network of size h: all sides present; P is a surplus of h, Q a deficit of h, every other colour balanced
        facts = pal.axioms + [h >= 2, S(P) == h, S(Q) == -h, P != Q, z3.ForAll([x], z3.Implies(z3.And(x != P, x != Q), S(x) == 0), patterns=[S(x)]), pal.In[0](P), pal.In[1](Q)]
        quick = pal.basic + [h >= 2, P != Q, size >= 2]
        calls = E.new([])

        def inner(E, f, args, kw):
            E.list_extend(calls, [(list(args) + list(kw.values()))[0]])
            return net.list(E)
        q = 'network.create_benes_network'

        def io(E, f, args, kw):
            if not same_list(list(args[0]), net.list(E)):
                raise Unsupported('colours of another network')
            return (SInt(P), SInt(h)), (SInt(Q), SInt(h))
        new = {}

        def remap(E, f, args, kw):
            given, m = (list(args) + list(kw.values()))[:2]
            if not same_list(list(given), net.list(E)) or not isinstance(m, Filled):
                raise Unsupported('renaming of another network')
            n = len(E.renamed)
            E.list_extend(E.renamed, [(n, list(m.content))])
            g = z3.Function(f'new{n}', I, I)
            f = net.fam(E)
            return E.new([Fam(f.vars, f.guard, [(c, [tuple(tuple(SInt(g(iterm(y))) for y in side) for side in its[0])]) for c, its in f.alts], f.lo, f.hi)])
        E.contracts.update({'network.get_input_output_colours': io, 'network.remap_colours': remap, q: inner})
        # the first node that uses P as an input
        first = [0 <= F, F < net.n, net.uses(F, 0, P), z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < F), z3.Not(net.uses(k_, 0, P))), patterns=[net.v[0, 0](k_)])]
        E.invariants[q, 'replaced'] = lambda E, k: SBool(z3.And(k > F, k > 0)) if z3.is_expr(k) else k > 0

        def run():
            for t in quick:
                E.assume(t)
            if kind == 'odd':
                for t in first:
                    E.assume(t)
                E.assume(size % 2 == 1)
            else:
                E.assume(z3.And(size % 2 == 0, size > 2))
            E.renamed = E.new([])
            while calls:
                calls.pop()
            f = E.wrap(N.create_benes_network)
            r = E.run_body(f, (SInt(size),), {})
            return list(r), list(calls), list(E.renamed)
        if kind == 'small':
            E.contracts.pop(q)
            r = N.create_benes_network(2)
            ctx.obligation('the network of size 2 is one splitter from its input to its output colour', len(r) == 1 and r[0][0] == (r[0][0][0],) * 2 and r[0][1] == (r[0][1][0],) * 2 and r[0][0] != r[0][1] and None not in r[0][0] + r[0][1])

            def small():
                E.assume(size < 2)
                return E.run_body(E.wrap(N.create_benes_network), (SInt(size),), {})
            for k, path in enumerate(E.explore(small)):
                ctx.obligation(f'path {k}: smaller sizes are refused', path.outcome == 'raise' and isinstance(path.value, AssertionError), repr(path.value))
            ctx.functions(E)
            return
        for k, path in normal(ctx, p, '', E.explore(run), quick):
            r, called, renamed = path.value
            lab = f'path {k}: '
            asked = size / 2 if kind == 'even' else size + 1
            ctx.obligation(lab + 'one smaller network is used', len(called) == 1)
            s = p.solver(facts + list(E.background.values()) + list(path.assumed) + path.conds + ([h == iterm(called[0])] if called else []) + [size >= 2])
            p.goal(s, lab + 'of the right size', z3.And(h == asked, h >= 2, z3.Or(h < size, h % 2 == 0)))
            if kind == 'odd':
                ctx.obligation(lab + 'nothing is renamed', not renamed)
                if not one_family(ctx, lab, r):
                    continue
                f = r[0]
                sub = [(f.vars[0], K)]
                items = []
                conds = [z3.And(z3.substitute(f.guard, *sub), z3.substitute(c, *sub)) for c, _ in f.alts]
                p.goal(s, lab + 'every node once', z3.And(net.inside(K) == z3.Or(conds), z3.And([z3.Not(z3.And(a, b)) for a, b in itertools.combinations(conds, 2)] or [z3.BoolVal(True)])))
                for m, (c, (_, its)) in enumerate(zip(conds, f.alts)):
                    v = [[z3.substitute(iterm(y), *sub) for y in side] for side in its[0]]
                    old = [[net.v[a, b](K) for b in (0, 1)] for a in (0, 1)]
                    keep = lambda a: z3.And([v[a][b] == old[a][b] for b in (0, 1)])
                    changed = z3.Or([z3.And(old[0][b] == P, z3.Or(z3.And(v[0][0] == Q, v[0][1] == old[0][1 - b]), z3.And(v[0][1] == Q, v[0][0] == old[0][1 - b]))) for b in (0, 1)])
                    items.append((lab + f'case {m}: outputs stay', z3.Implies(c, keep(1))))
                    items.append((lab + f'case {m}: one input of one node is fed by an output', z3.Implies(c, z3.If(K == F, changed, keep(0)))))
                p.goals(s, items)
                continue
            # even: a column of size/2 splitters, and two renamed copies
            shape = len(r) == 3 and all(isinstance(f, Fam) and len(f.vars) == 1 and f.lo is not None and len(f.alts) == 1 and len(f.alts[0][1]) == 1 for f in r)
            ctx.obligation(lab + 'a column of splitters and two copies', shape and len(renamed) == 2, repr(r)[:300])
            if not shape or len(renamed) != 2:
                continue
            col = [f for f in r if all(isinstance(y, int) for side in f.alts[0][1][0] for y in side)]
            copies = [f for f in r if f not in col]
            ctx.obligation(lab + 'one column', len(col) == 1)
            if len(col) != 1:
                continue
            f = col[0]
            node = f.alts[0][1][0]
            p.goal(s, lab + 'the column has half as many splitters as inputs', f.hi - f.lo == size / 2)
            p.goal(s, lab + 'every splitter of the column', z3.Implies(z3.And(f.lo <= K, K < f.hi), z3.And(z3.substitute(f.guard, (f.vars[0], K)), z3.substitute(f.alts[0][0], (f.vars[0], K)))))
            start, (a1, b1) = node[0][0], node[1]
            ctx.obligation(lab + 'both inputs of the column are the input; its outputs differ', node[0][1] == start and len({start, a1, b1}) == 3)
            for n, g in enumerate(copies):
                g2 = z3.Function(f'new{n}', I, I)
                v = [iterm(y) for side in g.alts[0][1][0] for y in side]
                sub = [(g.vars[0], K)]
                p.goal(s, lab + f'copy {n}: every node of the smaller network renamed', z3.And(z3.Implies(net.inside(K), z3.And([z3.substitute(t, *sub) == g2(net.v[sd](K)) for t, sd in zip(v, SIDES)])),
                       net.inside(K) == z3.And(z3.substitute(g.guard, *sub), z3.substitute(g.alts[0][0], *sub))))
            used = pal.member('ibo', X)
            flats = [list(leaves(m)) for _, m in renamed]
            at = []
            for n, flat in enumerate(flats):
                g2 = z3.Function(f'new{n}', I, I)
                hits = []
                for vs, g, (key, value) in flat:
                    hits.append((vs, g, iterm(key), iterm(value)))
                cover = z3.Or([z3.Exists(vs, z3.And(g, key == X)) if vs else z3.And(g, key == X) for vs, g, key, value in hits])
                p.goal(s, lab + f'copy {n}: every colour is renamed', z3.Implies(used, cover))
                # meaning of the map: the new colour of a key is its value (a key entered twice would have to have one value)
                t = []
                for vs, g, key, value in hits:
                    t.append(z3.ForAll(vs, z3.Implies(g, g2(key) == value)) if vs else z3.Implies(g, g2(key) == value))
                for (v1, g1, k1, w1), (v2, g2_, k2, w2) in itertools.combinations_with_replacement(hits, 2):
                    pairs = [(v, z3.Int(f'{v}~b')) for v in v2]
                    sb = (lambda y: z3.substitute(y, *pairs)) if pairs else (lambda y: y)
                    p.goal(s, lab + f'copy {n}: one entry for each colour', z3.Implies(z3.And(g1, sb(g2_), k1 == sb(k2)), w1 == sb(w2)))
                at += t
            s2 = p.solver(facts + list(E.background.values()) + list(path.assumed) + path.conds + at + [h == size / 2, size % 2 == 0, size > 2])
            N0, N1 = z3.Function('new0', I, I), z3.Function('new1', I, I)
            inn = lambda t: pal.member('ibo', t)
            for n, (g, other) in enumerate(((N0, N1), (N1, N0))):
                p.goal(s2, lab + f'copy {n}: one-to-one', z3.Implies(z3.And(inn(X), inn(Y), g(X) == g(Y)), X == Y))
                p.goal(s2, lab + f'copy {n}: its input is one output of the column', z3.Or(g(P) == a1, g(P) == b1))
                p.goal(s2, lab + f'copy {n}: apart from the column', z3.Implies(z3.And(inn(X), X != P), z3.And(g(X) != start, g(X) != a1, g(X) != b1)))
            p.goal(s2, lab + 'the two copies have different inputs', N0(P) != N1(P))
            p.goal(s2, lab + 'the two copies share their output and nothing else', z3.And(N0(Q) == N1(Q), z3.Implies(z3.And(inn(X), inn(Y), N0(X) == N1(Y)), z3.And(X == Q, Y == Q))))
        ctx.functions(E)
    return Task(f'proof generated {kind}', fn, 'proof', 240)


def network_tasks():
    return [rename_task(), save_and_open_task(), open_task(), sets_task(), fix_task(), io_task(), duplicates_task(), tidy_task(),
            benes_task('small'), benes_task('even'), benes_task('odd')]
