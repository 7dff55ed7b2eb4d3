"""Contracts of template.run_command_solver: executed with ghost files, pipes and processes for any clauses, any command and
answers of any number of lines, values per line; each of the two reading loops is executed once for an arbitrary iteration."""
from .common import *
from .solving import flatten, same_items


class Token:
    """A number in a value line, as text."""

    def __init__(self, term):
        self.t = term

    def __pyvc_int__(self, E):
        from pyvc.sym import SInt
        return SInt(self.t)

    def __pyvc_subst__(self, pairs):
        from pyvc.sym import z3
        return Token(z3.substitute(self.t, *pairs))

    def __eq__(self, other):
        from pyvc.sym import Unsupported, mkbool
        if other == '0':
            return mkbool(self.t == 0)
        raise Unsupported('text of a number')

    __hash__ = None


class Line:
    """A line of the solver's output that starts with the known text (and is the known text, when whole)."""

    def __init__(self, kind, known, whole=False, tokens=None, never=()):
        self.kind, self.known, self.whole, self.tokens, self.never = kind, known, whole, tokens, never

    def startswith(self, p):
        from pyvc.sym import Unsupported
        if isinstance(p, tuple):
            return any(self.startswith(q) for q in p)
        if self.known.startswith(p):
            return True
        if not p.startswith(self.known) or self.whole or any(p.startswith(n) for n in self.never):
            return False
        raise Unsupported(f'start {p!r} of a line {self.kind}')

    def __eq__(self, other):
        from pyvc.sym import Unsupported
        if not isinstance(other, str):
            return NotImplemented
        if self.whole or not other:
            return self.known == other and self.whole
        if not other.startswith(self.known) or any(other.startswith(n) for n in self.never):
            return False
        raise Unsupported('text of a line')

    __hash__ = None

    def __bool__(self):
        return self.kind != 'end'

    def __pyvc_len__(self, E):
        from pyvc.sym import SInt, z3
        if self.whole:
            return len(self.known)
        n = z3.Int('length')
        E.assume(n >= len(self.known) + 1)
        return SInt(n)

    def _tokens(self, sep=None):
        from pyvc.sym import Unsupported
        if sep is not None or self.tokens is None:
            raise Unsupported(f'words of a line {self.kind}')
        return list(self.tokens)
    split = _tokens

    def strip(self, *a):
        from pyvc.sym import Unsupported
        if a:
            raise Unsupported('strip')
        if self.kind in ('end', 'blank'):
            return ''
        return self
    rstrip = strip

    def __getitem__(self, i):
        from pyvc.sym import Unsupported
        n = len(self.known)
        ends = [i.start, i.stop, i.step] if isinstance(i, slice) else [i]
        if self.whole or all(e is None or isinstance(e, int) and 0 <= e < n + (e == n and isinstance(i, slice)) for e in ends) and (not isinstance(i, slice) or i.stop is not None):
            return self.known[i]
        raise Unsupported('text of a line')

    def __getattr__(self, name):
        from pyvc.sym import Unsupported
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'line.{name}')

    def __radd__(self, other):
        return other + '...'

    def __add__(self, other):
        return '...' + other

    def __repr__(self):
        return f'<{self.kind}>'

    def __format__(self, spec):
        return '...'

    startswith.__pyvc_native__ = _tokens.__pyvc_native__ = strip.__pyvc_native__ = True


def lines(E):
    """Every kind of line; values are any number of nonzero integers, ended by a 0 or not."""
    from pyvc.sym import Fam, z3
    v, n, k = z3.Function('value', z3.IntSort(), z3.IntSort()), z3.Int('values'), E.fresh_bvar('k')
    nums = Fam([k], z3.And(0 <= k, k < n), [(z3.BoolVal(True), [Token(v(k))])], z3.IntVal(0), n)
    return [lambda: Line('end', '', True, []), lambda: Line('blank', '\n', True, []), lambda: Line('comment', 'c', tokens=None), lambda: Line('sat', 's SATISFIABLE', tokens=['s', 'SATISFIABLE']), lambda: Line('unsat', 's UNSATISFIABLE', tokens=['s', 'UNSATISFIABLE']),
            lambda: Line('status', 's', tokens=['s', 'what'], never=('s SATISFIABLE', 's UNSATISFIABLE')), lambda: Line('values', 'v ', tokens=['v', nums]), lambda: Line('last values', 'v ', tokens=['v', nums, Token(z3.IntVal(0))]),
            lambda: Line('other', '', tokens=['what', Token(z3.Int('word'))], never=('s', 'c', 'v', ' ', '\n'))], v, n


def world():
    import io, shlex, subprocess, tempfile
    import pysat.formula
    import factorio_sat.template as T
    from pyvc.interp import Engine
    from pyvc.sym import Fam, SInt, Unsupported, z3
    E = Engine(timeout_ms=3000)
    E.trace = []
    event = lambda *e: E.list_extend(E.trace, [e])
    kinds, v, n = lines(E)

    class Native:
        def __getattr__(self, name):
            if name.startswith('__'):
                raise AttributeError(name)
            raise Unsupported(f'{type(self).__name__}.{name}')

    class Stream(Native):
        def __init__(self, name):
            self.name = name

        def close(self):
            event('close', self.name)

        def flush(self):
            event('flush', self.name)

        def readline(self):
            if self.name != 'stdout':
                raise Unsupported('reading')
            event('read')
            for q in kinds[:-1]:
                line = q()
                if E.decide(E.fresh_bool('line_' + line.kind.replace(' ', '_'))):
                    event('line', line.kind)
                    return line
            event('line', 'other')
            return kinds[-1]()

    class Process(Native):
        def __init__(self, args, stdin, stdout):
            self.args = args
            self.stdin, self.stdout = Stream('stdin') if stdin else None, Stream('stdout') if stdout else None

        def poll(self):
            return 0 if E.decide(E.fresh_bool('ended')) else None

        def __enter__(self):
            return self

        def __exit__(self, *a):
            event('wait')

    class File(Native):
        name = 'the file'

        def __enter__(self):
            return self

        def __exit__(self, *a):
            event('remove file')

        def flush(self):
            event('flush', self.name)

    class Formula(Native):
        def __init__(self, clauses):
            self.clauses = clauses

        def to_file(self, name):
            event('write', name, self.clauses)

        def to_fp(self, fp):
            if not isinstance(fp, Stream):
                raise Unsupported('to_fp')
            event('write', fp.name, self.clauses)

    def popen(E, args, **k):
        if set(k) - {'stdin', 'stdout'} or any(a is not subprocess.PIPE for a in k.values()) or 'stdout' not in k:
            raise Unsupported('process options')
        event('start', list(E.to_items(args)), 'stdin' in k)
        return Process(args, 'stdin' in k, 'stdout' in k)

    def wrapper(E, s, *a, **k):
        if a or k:
            raise Unsupported('text options')
        return s

    def temporary(E, *a, **k):
        if (a and a[0] != 'w') or k.get('delete', True) is not True or 'w' not in (a[0] if a else k.get('mode', '')):
            raise Unsupported('file options')
        event('create file')
        return File()

    def formula(E, *a, **k):
        if len(a) + len(k) != 1 or set(k) - {'from_clauses'}:
            raise Unsupported('formula options')
        return Formula(list(a[0] if a else k['from_clauses']))

    words = z3.Function('word', z3.IntSort(), z3.IntSort())
    count = z3.Int('words')

    def split(E, cmd):
        if cmd is not COMMAND:
            raise Unsupported('another command')
        k = E.fresh_bvar('w')
        isfile = words(k) == 0
        return E.new([Fam([k], z3.And(0 <= k, k < count), [(isfile, ['$FILE']), (z3.Not(isfile), [Word(words(k))])], z3.IntVal(0), count)])
    E.class_hooks.update({pysat.formula.CNF: formula, T.CNF: formula, subprocess.Popen: popen, io.TextIOWrapper: wrapper})
    E.intercepts[tempfile.NamedTemporaryFile] = temporary
    E.intercepts[shlex.split] = split
    E.intercepts[print] = lambda E, *a, **k: None
    return E, v, n, words, count


class Word:
    """A word of the command other than $FILE."""

    def __init__(self, t):
        self.t = t

    def __pyvc_subst__(self, pairs):
        from pyvc.sym import z3
        return Word(z3.substitute(self.t, *pairs))

    def __eq__(self, other):
        from pyvc.sym import Unsupported
        if other == '$FILE':
            return False
        raise Unsupported('word of the command')

    __hash__ = None


COMMAND = 'the command'


def symbolic_clauses(E):
    from .external import symbolic_clauses
    return symbolic_clauses(E)


def command_task():
    def fn(ctx):
        from factorio_sat.template import run_command_solver
        from pyvc.interp import ghostly
        from pyvc.sym import Fam, SInt, Unsupported, iterm, z3
        E, v, n, words, count = world()
        q = 'template.run_command_solver.<locals>.interpret_solver_answer'
        E.cut_while.add(q)
        M, m = z3.Function('before', z3.IntSort(), z3.IntSort()), z3.Int('m')
        i = z3.Int('i')

        def invariant(E, frame):
            """Second loop: the model so far is any list of nonzero numbers."""
            at_entry = E.trace[-1][1]
            lists = [a for a, b in at_entry.items() if isinstance(b, list)]
            if len(lists) > 1:
                raise Unsupported('state of the reading loop')
            k = E.fresh_bvar('k')
            out = {}
            for a in lists:
                if list(at_entry[a]) != []:
                    raise Unsupported('state of the reading loop')
                model = E.new([Fam([k], z3.And(0 <= k, k < m), [(z3.BoolVal(True), [SInt(M(k))])], z3.IntVal(0), m)])
                E.ghosts.add(id(model))
                E.list_extend(E.trace, [('model', a)])
                out[a] = model
            return out
        E.invariants[q, 'while'] = invariant
        hyp = [n >= 0, m >= 0, count >= 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), v(i) != 0)), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), M(i) != 0))]

        def run():
            for h in hyp:
                E.assume(h)
            clauses = symbolic_clauses(E)
            try:
                r, err = E.call(run_command_solver, (COMMAND, clauses)), None
            except Exception as e:
                if ghostly(e):
                    raise Unsupported(str(e))
                r, err = None, e
            return clauses, list(r) if isinstance(r, list) else r, err
        paths = E.explore(run)
        ctx.functions(E)
        p = ctx.prover('command')
        p.reachable(hyp, 'answers')
        seen = set()
        wants = {}
        for k, path in enumerate(paths):
            lab = f'command: path {k}: '
            ob = lambda what, ok: ctx.obligation(lab + what, bool(ok), f'{path.outcome} {path.value!r:.300} events {path.trace!r:.900}')
            tr = list(path.trace)
            at = next((j for j, e in enumerate(tr) if e[0] == 'loop'), None)
            ob('the answer is read', at is not None)
            if at is None:
                continue
            head = [e for e in tr[:at] if e[0] != 'flush']
            kinds = [e[0] for e in head]
            isfile = any(e[0] == 'create file' for e in head)
            start = next((e for e in head if e[0] == 'start'), None)
            write = [e for e in head if e[0] == 'write']
            ob('one process, one formula', start is not None and kinds.count('start') == 1 and len(write) == 1)
            if start is None or len(write) != 1:
                continue
            clauses = symbolic_clauses(E)
            ob('exactly the clauses are written', flat(write[0][2]) == flat(clauses))
            s = p.solver(hyp + path.conds)
            has = z3.Exists([i], z3.And(0 <= i, i < count, words(i) == 0))
            if isfile:
                ob('the file is complete before the solver starts', kinds == ['create file', 'write', 'start'] and write[0][1] == 'the file' and start[2] is False)
                p.goal(s, f'path {k}: a file only where one is asked for', has)
            else:
                ob('the pipe is written and closed before the answer is read', kinds == ['start', 'write', 'close'] and write[0][1] == 'stdin' and head[-1][1] == 'stdin' and start[2] is True)
                p.goal(s, f'path {k}: the pipe only where no file is asked for', z3.Not(has))
            # the words of the command, with the file in place of $FILE
            K = z3.Int('K')
            cover = []
            for g, vs, w in flatten(start[1]):
                if len(vs) != 1:
                    raise Unsupported('words')
                sub = [(vs[0], K)]
                g = z3.substitute(g, *sub)
                if isinstance(w, Word):
                    cond = z3.And(words(K) != 0, z3.substitute(w.t, *sub) == words(K))
                elif w == 'the file':
                    cond = words(K) == 0
                else:
                    cond = z3.And(words(K) == 0, z3.BoolVal(not isfile))
                p.goal(p.solver(hyp + path.conds + [g]), f'path {k}: words of the command', z3.And(0 <= K, K < count, cond))
                cover.append(g)
            p.goal(p.solver(hyp + path.conds + [0 <= K, K < count]), f'path {k}: every word of the command', z3.Or(cover) if cover else z3.BoolVal(False))
            # reading
            tail = tr[at:]
            loops = [j for j, e in enumerate(tail) if e[0] == 'loop']
            got = [[e[1] for e in tail[a:b] if e[0] == 'line'] for a, b in zip(loops, loops[1:] + [len(tail)])]
            ob('one line at a time', len(got) <= 2 and all(len(g) == 1 for g in got))
            if not (len(got) <= 2 and all(len(g) == 1 for g in got)):
                continue
            first = got[0][0]
            ended = any('ended' in str(c) and not z3.is_not(c) for c in path.conds)
            if path.outcome == 'cut':
                r, err = None, None
            else:
                _, r, err = path.value
            if path.outcome != 'cut':
                ob('the process is waited for' + (', the file removed' if isfile else ''), [e[0] for e in tail if e[0] in ('wait', 'remove file')] == (['wait', 'remove file'] if isfile else ['wait']))
            seen.add(first)
            if len(got) == 1:
                if first == 'unsat':
                    ob('unsatisfiable: nothing', path.outcome == 'normal' and err is None and r is None)
                elif first == 'status':
                    ob('any other status is an error', err is not None)
                elif first == 'end':
                    ob('no answer: goes on or an error once the solver has ended', path.outcome == 'cut' and not ended or err is not None)
                elif first == 'sat':
                    ob('the values are read', False)
                else:
                    ob('goes on before the status', path.outcome == 'cut')
                continue
            ob('values only after SATISFIABLE', first == 'sat')
            kind = got[1][0]
            seen.add('2 ' + kind)
            model = [e[1] for e in tail if e[0] == 'model']
            if len(model) != 1:
                raise Unsupported('state of the reading loop')
            want = {'values': [('before', m), ('value', n)], 'last values': [('before', m), ('value', n)]}.get(kind, [('before', m)])
            again = next((e[1] for e in reversed(tail) if e[0] == 'again'), {})
            have = shape(again.get(model[0]) if path.outcome == 'cut' else r)

            def matches(have):
                if have is None:
                    return False
                have = list(have)
                for name, length in want:
                    if have and have[0][0] == name:
                        p.goal(s, f'path {k}: all of {name}', have.pop(0)[1] == length)
                    else:
                        p.goal(s, f'path {k}: nothing of {name}', length == 0)
                return not have
            if kind in ('end', 'last values'):
                ob('the model ends here: all literals so far', path.outcome == 'normal' and err is None and matches(have))
            elif kind in ('blank', 'comment', 'values'):
                ob('goes on, with the literals of the line added', path.outcome == 'cut' and matches(have))
            else:
                ob('anything else is an error', err is not None)
        ctx.obligation('command: every kind of line', seen == {'end', 'blank', 'comment', 'sat', 'unsat', 'status', 'values', 'last values', 'other'} | {'2 ' + x for x in
                       ('end', 'blank', 'comment', 'sat', 'unsat', 'status', 'values', 'last values', 'other')} - {'sat'}, repr(sorted(seen)))
    return Task('proof command solver', fn, 'proof', 120)


def shape(items):
    """[(function, length)] of a list of families f(k), 0 <= k < length; None for anything else."""
    from pyvc.sym import Fam, iterm, z3
    out = []
    if not isinstance(items, list):
        return None
    for f in items:
        if not isinstance(f, Fam) or not f.uniform or len(f.vars) != 1 or not z3.is_true(z3.simplify(f.lo == 0)):
            return None
        t = z3.simplify(iterm(f.at(z3.Int('z'))))
        if t.num_args() != 1 or not t.arg(0).eq(z3.Int('z')):
            return None
        out.append((t.decl().name(), f.hi))
    return out


def flat(clauses):
    """Text that is equal for equal symbolic clause lists, whatever their bound variables are called."""
    from pyvc.sym import z3
    out = []
    for g, vs, i in flatten(clauses):
        if isinstance(i, list):
            for g2, vs2, l in flatten(i):
                a = [(v, z3.Int(f'v{n}')) for n, v in enumerate(list(vs) + list(vs2))]
                out.append((str(z3.simplify(z3.substitute(z3.And(g, g2), *a))), str(z3.simplify(z3.substitute(l.t, *a)))))
        else:
            out.append(str(i))
    return out
