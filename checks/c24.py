import copy
import json

from .common import *
from .c19 import run_main

LEVEL = 'proof'
TECHNIQUE = ('deductive: pack_book, unpack_book and the program executed on symbolically many blueprints that may be one another (object identity by an uninterpreted function), with copies and changes as ghost events; '
             'proved: every position holds a copy of its own carrying that position as its only change, neither the caller\'s blueprints nor the template is changed, and unpacking gives back the list; discharged by z3')
NOTE = 'copy.deepcopy is trusted to copy (objects that are one stay one within one call, not between calls); encoding is C16. Labels, nesting and iterables other than lists also run on the real code (bounded).'
ASSUMPTIONS = ['copy.deepcopy / copy.copy copy as documented', 'argparse and input() behave as documented']
RULE = 'every book length up to 12, 150 and 300, with repeated and nested blueprints: contents, order, index, arguments and template compared with independent copies'
BOUND = 'bounded companion: books of up to 12, and of 150 and 300 blueprints'


def some_blueprint(rng, n):
    return {'blueprint': {'label': f'b{n}', 'entities': [{'entity_number': i + 1, 'position': {'x': rng.random(), 'y': i}} for i in range(rng.randint(0, 3))]}, **({'index': rng.randint(0, 99)} if rng.random() < 0.4 else {})}


def bounded(ctx):
    from factorio_sat import blueprint_book as BB, blueprint
    template = copy.deepcopy(BB.BLUEPRINT_BOOK_TEMPLATE)
    for n in [*range(13), 300]:
        for rep in range(6 if n < 20 else 2):
            pool = [some_blueprint(ctx.rng, i) for i in range(max(1, n))]
            bps = pool[:n] if rep % 2 == 0 else [ctx.rng.choice(pool) for _ in range(n)]
            if n and rep == 3:
                bps[-1] = BB.pack_book([some_blueprint(ctx.rng, 7)])     # a nested book
            args = bps if rep < 4 else tuple(bps)
            before = copy.deepcopy(bps)
            label = [None, '', 'a label', 'ünï'][(n + rep) % 4]
            book = BB.pack_book(args, label) if label is not None or rep % 2 else BB.pack_book(args)
            ctx.eval()
            ctx.require(bps == before, 'packing altered the blueprints passed in', before=before, after=bps)
            ctx.require(BB.BLUEPRINT_BOOK_TEMPLATE == template, 'packing altered the shared template', template=BB.BLUEPRINT_BOOK_TEMPLATE)
            got = BB.unpack_book(book)
            ctx.require(len(got) == n, f'{n} blueprints packed, {len(got)} unpacked')
            for i, (a, b) in enumerate(zip(got, before)):
                ctx.require(a.get('index') == i, f'blueprint {i} of {n} has index {a.get("index")}', blueprints=before)
                ctx.require({**a, 'index': 0} == {**b, 'index': 0}, f'blueprint {i} of {n} changed', before=b, after=a)
            inner = book['blueprint_book']
            ctx.require(inner.get('label') == label if label is not None else 'label' not in inner, f'label {label!r} became {inner.get("label")!r}')
            ctx.require({k: v for k, v in inner.items() if k not in ('label', 'blueprints')} == template['blueprint_book'] and set(book) == {'blueprint_book'}, 'fields of the book changed', book=book)
            if isinstance(got, list):
                got[:] = []
            for x in bps:
                ctx.require(x == before[bps.index(x)], 'the book shares its blueprints with the caller')
            again = BB.pack_book(before)
            ctx.require([x['index'] for x in BB.unpack_book(again)] == list(range(n)) and 'label' not in again['blueprint_book'], 'a second book is affected by the first')
    # the program
    for n in (0, 1, 3, 5, 150):
        bps = [some_blueprint(ctx.rng, i) for i in range(n)]
        lines = [blueprint.encode_blueprint(b) for b in bps]
        if n >= 3:
            lines[2] = lines[0]
            bps[2] = bps[0]
        label = '' if n == 1 else 'L'
        out = run_main(BB, ['pack', '--label', label], lines)
        ctx.require(len(out) == 1, f'pack printed {len(out)} lines')
        data = blueprint.decode_blueprint(out[0])
        ctx.require(data['blueprint_book'].get('label') == label, f'label {label!r} lost by the program')
        out = run_main(BB, ['unpack'], out)
        ctx.eval(2)
        ctx.require([blueprint.decode_blueprint(o) for o in out] == [{**b, 'index': i} for i, b in enumerate(bps)], 'packing and unpacking with the program changes the blueprints', blueprints=bps)
    ctx.sample(dict(lengths='0..12'))


class Bp:
    """A blueprint: what it holds (the number of the one given) and which object it is."""

    def __init__(self, content, obj, changed=()):
        self.content, self.obj = content, obj

    def __pyvc_subst__(self, pairs):
        from pyvc.sym import z3
        sub = lambda t: z3.substitute(t, *pairs) if z3.is_expr(t) else t
        return Bp(sub(self.content), tuple(sub(o) for o in self.obj))

    def __pyvc_same__(self, other):
        from pyvc.sym import SInt, same
        wrap = lambda b: [SInt(t) if hasattr(t, 'sexpr') else t for t in (b.content, *b.obj)]
        return isinstance(other, Bp) and same(wrap(self), wrap(other))

    def __pyvc_setitem__(self, E, key, value):
        E.list_extend(E.trace, [('set', self, key, value)])

    def update(self, *a, **k):
        from pyvc import sym
        for key, value in (dict(*a, **k)).items():
            self.__pyvc_setitem__(sym.ENGINE, key, value)
    update.__pyvc_native__ = True

    def __getattr__(self, name):
        from pyvc.sym import Unsupported
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'blueprint.{name}')

    def __repr__(self):
        return f'<blueprint {self.content} object {self.obj}>'


def world():
    """Engine in which blueprints are copied by ghost copies: a call of its own per iteration gives an object of its own; copying
    a whole list keeps objects that are one together."""
    from pyvc.interp import Engine
    from pyvc.sym import Fam, Unsupported, subst, z3
    E = Engine(timeout_ms=3000)
    E.trace = []
    real = copy.deepcopy

    def ghosts(x):
        if isinstance(x, (Bp, Fam)):
            return True
        return any(map(ghosts, x.values() if isinstance(x, dict) else x)) if isinstance(x, (list, tuple, dict)) else False

    def copies(x, site, one):
        if isinstance(x, Bp):
            return Bp(x.content, ('copy', site, *([] if one else list(x.obj)), *E.bound))
        if isinstance(x, Fam):
            return Fam(x.vars, x.guard, [(c, [copies(i, site, False) for i in its]) for c, its in x.alts], x.lo, x.hi)
        if isinstance(x, (list, tuple)):
            return E.new(type(x)(copies(i, site, False) for i in x))
        if isinstance(x, dict):
            return E.new({k: copies(v, site, False) for k, v in x.items()})
        return real(x)

    def deepcopy(E, x, *memo):
        if memo:
            raise Unsupported('memo of a copy')
        return copies(x, E.fresh_name('site'), True) if ghosts(x) else E.new(real(x))

    def shallow(E, x):
        if isinstance(x, Bp):
            return copies(x, E.fresh_name('site'), True)
        if isinstance(x, list):
            return E.new(list(x))
        return E.new(copy.copy(x))
    E.intercepts[copy.deepcopy] = deepcopy
    E.intercepts[copy.copy] = shallow
    return E


def given(E, n, name='given'):
    """Any number of blueprints; the same object may come more than once."""
    from pyvc.sym import Fam, z3
    obj = z3.Function('object', z3.IntSort(), z3.IntSort())
    k = E.fresh_bvar('b')
    return [Fam([k], z3.And(0 <= k, k < n), [(z3.BoolVal(True), [Bp(k, (name, obj(k)))])], z3.IntVal(0), n)]


def snapshot(book):
    return {a: ({b: (c if b != 'blueprints' else list(c) if isinstance(c, list) else c) for b, c in v.items()} if isinstance(v, dict) else v) for a, v in book.items()} if isinstance(book, dict) else book


def one_family(x, hi):
    """Position k -> item of a list made of one family over 0 .. hi."""
    from pyvc.sym import Fam, Unsupported, z3
    if not isinstance(x, list) or len(x) != 1 or not isinstance(x[0], Fam) or len(x[0].vars) != 1 or not x[0].uniform:
        raise Unsupported('shape of the list of blueprints')
    return x[0]


def packing(ctx):
    from factorio_sat import blueprint_book as BB
    from pyvc.interp import ghostly
    from pyvc.sym import Unsupported, iterm, z3
    from .solving import flatten
    E = world()
    n = z3.Int('n')
    real = copy.deepcopy(BB.BLUEPRINT_BOOK_TEMPLATE)
    label = 'the label'

    def run(how):
        E.assume(n >= 0)
        T = BB.BLUEPRINT_BOOK_TEMPLATE
        bps = given(E, n)
        a, k = {'none': ((bps,), {}), 'None': ((bps, None), {}), 'given': ((bps, label), {}), 'empty': ((bps, ''), {}), 'named': ((bps,), {'label': label})}[how]
        try:
            book = E.call(BB.pack_book, a, k)
            book_, unpacked = snapshot(book), E.call(BB.unpack_book, (book,))
            same = unpacked is book['blueprint_book']['blueprints'] or list(unpacked) == list(book['blueprint_book']['blueprints'])
            shares = book is T or book['blueprint_book'] is T['blueprint_book'] or book['blueprint_book']['blueprints'] is bps
            left = T == real
            return book_, list(unpacked), same, shares, left, list(bps)
        except (TypeError, AttributeError) as e:
            if ghostly(e):
                raise Unsupported(str(e))
            raise
    p = ctx.prover('pack_book')
    I, J = z3.Ints('I J')
    for how in ('none', 'None', 'given', 'empty', 'named'):
        bps0 = given(E, n)
        paths = E.explore(lambda: run(how))
        ctx.functions(E)
        p.reachable([n >= 2], 'books')
        for q, path in enumerate(paths):
            lab = f'label {how}, path {q}: '
            s = p.solver([n >= 0] + path.assumed + path.conds)
            if path.outcome != 'normal':
                p.goal(s, f'{lab}does not fail ({path.value!r:.200})', z3.BoolVal(False))
                continue
            book, unpacked, same, shares, left, bps = path.value
            ob = lambda what, ok, why='': ctx.obligation(f'pack_book:{lab}{what}', bool(ok), f'{why}')
            inner = dict(book.get('blueprint_book', {}))
            blueprints = inner.pop('blueprints', None)
            want = dict(real['blueprint_book'])
            if how in ('given', 'named'):
                want['label'] = label
            if how == 'empty':
                want['label'] = ''
            ob('fields of the book', set(book) == {'blueprint_book'} and inner == want, f'{inner!r}')
            ob('the template is not changed or shared', left and not shares)
            ob('unpacking gives the list', same and unpacked is not None)
            ob('the list given is not changed', len(bps) == 1)
            fam = one_family(blueprints, n)
            s2 = p.solver([n >= 0, 0 <= I, I < n] + path.assumed + path.conds)
            p.goal(s2, f'{lab}one for each', z3.substitute(fam.guard, (fam.vars[0], I)))
            s3 = p.solver([n >= 0, z3.substitute(fam.guard, (fam.vars[0], I))] + path.assumed + path.conds)
            p.goal(s3, f'{lab}no more', z3.And(0 <= I, I < n))
            b = fam.alts[0][1][0].__pyvc_subst__([(fam.vars[0], I)])
            if not isinstance(b, Bp):
                raise Unsupported('packed blueprint')
            p.goal(s2, f'{lab}in order', b.content == I)
            ob('copies, not the blueprints given', b.obj[0] == 'copy', repr(b))
            # changes: exactly 'index' of each, to its position, by nobody else
            done = []
            for g, vs, e in flatten(path.trace):
                _, t, key, value = e
                ob('only the index is changed', key == 'index', f'{key!r}')
                mine = same_object(t, b, vs)
                done.append((g, vs, mine, value))
                ob('of a blueprint in the book', t.obj[0] == 'copy', repr(t))
                R = p.solver([n >= 0, 0 <= I, I < n, g, mine] + path.assumed + path.conds)
                p.goal(R, f'{lab}the index is the position', z3.BoolVal(False) if not isinstance(value, int) and not hasattr(value, 't') else iterm(value) == I)
            hit = [z3.Exists(vs, z3.And(g, m)) if vs else z3.And(g, m) for g, vs, m, _ in done]
            p.goal(s2, f'{lab}every index is set', z3.Or(hit) if hit else z3.BoolVal(False))


def same_object(a, b, vs):
    from pyvc.sym import z3
    if len(a.obj) != len(b.obj):
        return z3.BoolVal(False)
    return z3.And([x == y if z3.is_expr(x) and z3.is_expr(y) else z3.BoolVal(not z3.is_expr(x) and not z3.is_expr(y) and x == y) for x, y in zip(a.obj, b.obj)])


class Text:
    """A line of text that is the encoding of something."""

    def __init__(self, data):
        self.data = data

    def __pyvc_subst__(self, pairs):
        from pyvc.sym import subst
        return Text(subst(self.data, pairs))

    def strip(self):
        return self
    rstrip = strip
    strip.__pyvc_native__ = True

    def __getattr__(self, name):
        from pyvc.sym import Unsupported
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'text.{name}')


def programs(ctx):
    import argparse
    from factorio_sat import blueprint_book as BB
    from pyvc.interp import ghostly
    from pyvc.sym import Fam, Unsupported, subst, z3
    from .programs import parser_hook
    from .solving import flatten
    p = ctx.prover('program')
    n, m = z3.Ints('n m')
    for argv in (['unpack'], ['pack'], ['pack', '--label', 'L'], ['--label', '', 'pack']):
        E = world()
        E.class_hooks[argparse.ArgumentParser] = parser_hook(argv, {})
        q = 'blueprint_book.main'
        if 'pack' in argv:
            E.cut_while.add(q)

        def decode(E, f, args, kw):
            if not isinstance(args[0], Text):
                raise Unsupported('text')
            return args[0].data

        def read(E, *a):
            E.list_extend(E.trace, [('read',)])
            if 'pack' in argv:
                if E.decide(E.fresh_bool('end')):
                    raise EOFError
                return Text(Bp(m, ('read', m)))
            return Text({'blueprint_book': {'blueprints': given(E, n), 'label': 'x'}})

        def pack(E, f, args, kw):
            names = dict(zip(('blueprints', 'label'), args), **kw)
            return ('book', list(names['blueprints']), names.get('label'))

        def invariant(E, frame):
            lists = [a for a, b in E.trace[-1][1].items() if isinstance(b, list)]
            if len(lists) > 1:
                raise Unsupported('state of the reading loop')
            out = {}
            for a in lists:
                if list(E.trace[-1][1][a]):
                    raise Unsupported('state of the reading loop')
                out[a] = E.new(given(E, m, 'read'))
                E.ghosts.add(id(out[a]))
            return out
        E.invariants[q, 'while'] = invariant
        E.contracts['blueprint.decode_blueprint'] = decode
        E.contracts['blueprint.encode_blueprint'] = lambda E, f, args, kw: Text(args[0])
        if 'pack' in argv:
            E.contracts['blueprint_book.pack_book'] = pack
        E.intercepts[input] = read
        E.intercepts[print] = lambda E, *a, **k: E.list_extend(E.trace, [('print', a, k)])

        def run():
            E.assume(n >= 0)
            E.assume(m >= 0)
            try:
                E.call(BB.main, ())
            except (TypeError, AttributeError) as e:
                if ghostly(e):
                    raise Unsupported(str(e))
                raise
        paths = E.explore(run)
        ctx.functions(E)
        kinds = set()
        for k, path in enumerate(paths):
            lab = f'{" ".join(argv)}: path {k}: '
            ob = lambda what, ok: ctx.obligation('program:' + lab + what, bool(ok), f'{path.outcome} {path.value!r:.200} {path.trace!r:.600}')
            kinds.add(path.outcome)
            if 'unpack' in argv:
                ev = list(flatten(path.trace))
                ob('reads one line, prints, ends', path.outcome == 'normal' and [e[2][0] for e in ev] == ['read', 'print'] and not ev[0][1])
                g, vs, e = ev[1]
                ob('one blueprint a line', len(e[1]) == 1 and not e[2] and isinstance(e[1][0], Text) and isinstance(e[1][0].data, Bp))
                f = path.trace[1]
                if not isinstance(f, Fam) or len(vs) != 1 or not f.uniform:
                    raise Unsupported('output')
                I = z3.Int('I')
                at = [(vs[0], I)]
                s = p.solver([n >= 0] + path.assumed + path.conds)
                p.goal(s, f'{lab}every blueprint in order', z3.And(z3.substitute(g, *at) == z3.And(0 <= I, I < n), e[1][0].data.__pyvc_subst__(at).content == I))
                continue
            ev = [e for e in path.trace if e[0] not in ('loop',)]
            if path.outcome == 'cut':
                again = [v for e in ev if e[0] == 'again' for v in e[1].values() if isinstance(v, list)]
                ob('a line read is kept, behind the earlier ones', [e[0] for e in ev] == ['read', 'again'] and len(again) == 1 and len(again[0]) == 2
                   and isinstance(again[0][0], Fam) and isinstance(again[0][1], Bp) and again[0][1].content.eq(m))
            else:
                ob('the book of everything read is printed', path.outcome == 'normal' and [e[0] for e in ev] == ['read', 'print'] and len(ev[1][1]) == 1 and not ev[1][2] and isinstance(ev[1][1][0], Text))
                _, bps, label = ev[1][1][0].data
                ob('the label asked for', label == (argv[argv.index('--label') + 1] if '--label' in argv else None))
                f = one_family(bps, m)
                s = p.solver([m >= 0] + path.assumed + path.conds)
                v = f.vars[0]
                p.goal(s, f'{lab}all of it, in order', z3.And(f.guard == z3.And(0 <= v, v < m), f.alts[0][1][0].content == v))
        ctx.obligation(f'program:{" ".join(argv)}: both ways on', kinds == ({'normal'} if 'unpack' in argv else {'cut', 'normal'}), repr(kinds))


def tasks(tier):
    return [Task('proof pack and unpack', packing, 'proof', 60), Task('proof program', programs, 'proof', 60), bound_task('books', [bounded])]
