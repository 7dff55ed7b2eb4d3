import contextlib
import ctypes
import io
import os
import shutil
import signal
import subprocess
import tempfile

from .common import *

LEVEL = 'proof'
TECHNIQUE = ('deductive: IPASIRSolver and run_command_solver executed with a recording library, ghost files, pipes and processes for any clauses, variables, command words and any answer (each reading loop once, for an arbitrary line and an '
             'arbitrary model so far); proved: exact clauses before the answer is read, literals of all value lines up to the 0, nothing exactly for UNSATISFIABLE, an error otherwise, one literal per variable, no call after release; discharged by z3')
NOTE = ('That text is split into lines and words, that pysat writes the formula it is given and that dropping the last reference to a text stream flushes it are contracts of the standard library and pysat; '
        'the learn and terminate callbacks and the ctypes signatures are covered by the bounded companion only.')
ASSUMPTIONS = ['io, subprocess, tempfile, shlex and ctypes behave as documented', 'pysat CNF writes the clauses it was given', 'str.split and int read the words of a value line', 'the numbers of a value line other than the last are not 0']
RULE = 'scripted solver programs (file and pipe) and a recording IPASIR library: what the solver received and what was returned compared with the script'
BOUND = 'bounded companion: random clause lists and answers of up to 60 literals on up to 6 value lines, and four of up to 30000 literals, 70000 clauses and 20000 comment lines'


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='pyvc_')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def limit(ctx, seconds, what):
    """The calls take milliseconds; one that does not come back breaks the property."""
    from pyvc.runner import Failure

    def hit(*_):
        raise Failure(f'no answer after {seconds} s: {what}')
    old = signal.signal(signal.SIGALRM, hit)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def fake_library(d):
    src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs', 'fake_ipasir.c')
    out = os.path.join(d, 'libfake.so')
    subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', out, src], check=True)
    lib = ctypes.CDLL(out)
    lib.fake_log.restype = ctypes.c_int64
    return out, lib


def log(lib):
    return [tuple(lib.fake_log(i, j) for j in range(4)) for i in range(lib.fake_log_len())]


INIT, RELEASE, ADD, ASSUME, SOLVE, VAL, FAILED, TERM, LEARN = range(9)


def dimacs(text):
    """Clauses of a DIMACS file read independently of pysat; raises ValueError when it is not well formed."""
    nv = nc = None
    toks = []
    for line in text.splitlines():
        if line.startswith('c') or not line.strip():
            continue
        if line.startswith('p'):
            p, cnf, nv, nc = line.split()
            nv, nc = int(nv), int(nc)
            continue
        toks += [int(t) for t in line.split()]
    out, cur = [], []
    for t in toks:
        if t == 0:
            out.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur or nc != len(out) or nv < max([abs(l) for c in out for l in c], default=0):
        raise ValueError('malformed DIMACS')
    return out


def received(path):
    """What a solver got, or a text saying why that is no formula."""
    with open(path) as f:
        text = f.read()
    try:
        return dimacs(text)
    except (ValueError, TypeError) as e:
        return f'{e}: {text[:60]!r} ... {text[-60:]!r} ({len(text)} characters)'


def clause_lists(rng, n):
    yield []
    yield [[1]]
    yield [[1], [-1]]
    yield [[3, -2], [5], [-5, -3, 2, 2]]
    for _ in range(n):
        nv = rng.choice([1, 3, 8, 40])
        yield [[rng.choice([-1, 1]) * rng.randint(1, nv) for _ in range(rng.randint(1, 5))] for _ in range(rng.randint(1, 20))]


def answers(rng):
    """(text, exit code, expected): expected is a list of literals, None, or 'error'."""
    pre = ['', 'c hello\n', 'c a\nc s SATISFIABLE is not yet known\nc v 1 2 3\n', 'c\nc \n', 'c x\n\nc y\n'][rng.randrange(5)]
    kind = rng.random()
    if kind < 0.2:
        return pre + 's UNSATISFIABLE\n' + rng.choice(['', 'c bye\n']), rng.choice([20, 0]), None
    if kind < 0.45:
        bad = rng.choice(['', 'c only comments\n', 's UNKNOWN\n', 's INDETERMINATE\n', 's TIMEOUT\n', 's SATISFIABLE\nx 1 2 0\n', 's SATISFIABLE\nv 1 -2\ngarbage\nv 3 0\n',
                          's SATISFIABLE\nv 1 two 0\n', 's\n', 's OPTIMUM FOUND\nv 1 0\n'])
        return pre + bad, rng.choice([0, 1, 139]), 'error'
    lits = [rng.choice([-1, 1]) * v for v in rng.sample(range(1, 90), rng.choice([0, 1, 2, 7, 60]))]
    if rng.random() < 0.3:
        lits.sort(key=abs)
    lines, cur = [], [str(l) for l in lits] + ['0']
    nl = rng.randint(1, 6)
    cuts = sorted(rng.randint(0, len(cur)) for _ in range(nl - 1))
    for a, b in zip([0] + cuts, cuts + [len(cur)]):
        lines.append('v ' + ' '.join(cur[a:b]) if b > a else rng.choice(['v', 'v ', '']))
        if rng.random() < 0.3:
            lines.append(rng.choice(['c in between', 'c v 7 8 9 0', 'c', '']))
    if lines[-1].startswith('v') and '0' == cur[-1] and not lines[-1].endswith(' 0'):
        lines.append('v 0') if not any(l.startswith('v') and l.split()[-1] == '0' for l in lines) else None
    text = pre + 's SATISFIABLE\n' + '\n'.join(lines) + rng.choice(['\n', '', '\nc the end\n'])
    return text, rng.choice([10, 0]), lits


def commands(ctx, start, count):
    from factorio_sat.template import run_command_solver
    with scratch() as d:
        script = os.path.join(d, 'a solver.sh')
        with open(script, 'w') as f:
            f.write('#!/bin/sh\ndir=$(dirname "$0")\nprintf "%s\\n" "$@" > "$dir/args"\nif [ "$1" = pipe ]; then cat > "$dir/got"; else cat "$2" > "$dir/got"; fi\ncat "$dir/answer"\nexit $(cat "$dir/code")\n')
        os.chmod(script, 0o755)
        n = 0
        for clauses in clause_lists(ctx.rng, count):
            for mode in ('pipe', 'file'):
                text, code, want = answers(ctx.rng)
                open(os.path.join(d, 'answer'), 'w').write(text)
                open(os.path.join(d, 'code'), 'w').write(str(code))
                if os.path.exists(os.path.join(d, 'got')):
                    os.unlink(os.path.join(d, 'got'))
                before = [list(c) for c in clauses]
                cmd = f"'{script}' " + ("pipe 'an argument' --x=1" if mode == 'pipe' else "file $FILE 'an argument' --x=1")
                info = dict(clauses=before, answer=text, mode=mode)
                with limit(ctx, 20, 'the solver wrote its output and ended'), contextlib.redirect_stderr(io.StringIO()):
                    try:
                        got = run_command_solver(cmd, clauses)
                    except Exception as e:
                        if e.__class__.__name__ == 'Failure':
                            raise
                        got = e
                ctx.eval()
                ctx.require(clauses == before, 'the clause list was changed', **info)
                ctx.require(received(os.path.join(d, 'got')) == before, f'the solver did not receive the clauses ({mode})', got=open(os.path.join(d, 'got')).read(), **info)
                args = open(os.path.join(d, 'args')).read().split('\n')
                ctx.require(args[-3:] == ['an argument', '--x=1', ''] and len(args) == (4 if mode == 'pipe' else 5), f'the arguments of the command were changed: {args}', **info)
                if want == 'error':
                    ctx.require(isinstance(got, Exception), f'an answer that is none gives {got!r} instead of an error', **info)
                    continue
                ctx.require(not isinstance(got, Exception), f'a well-formed answer raises {got!r}', **info)
                ctx.require((got is None) == (want is None) and (got is None or list(got) == want), f'the answer {want} was read as {got}', **info)
                n += 1
        ctx.sample(info)


def large(ctx, only=None):
    """Answers and clause lists of real sizes: many lines, long lines, many comments."""
    from factorio_sat.template import run_command_solver
    rng = ctx.rng
    with scratch() as d:
        for per_line, comments, nv, nc in ((10, 3, 30000, 20000), (3000, 0, 9000, 70000), (1, 5000, 3000, 10), (70, 20000, 5000, 3000)):
            clauses = [[rng.choice([-1, 1]) * rng.randint(1, nv) for _ in range(rng.randint(1, 6))] for _ in range(nc)]
            clauses[min(nc // 2, 500)] = [rng.choice([-1, 1]) * v for v in range(1, min(nv, 5000))]
            lits = [rng.choice([-1, 1]) * v for v in range(1, nv + 1)]
            out = [f'c comment {i}' for i in range(comments)] + ['s SATISFIABLE']
            for i in range(0, nv, per_line):
                out.append('v ' + ' '.join(map(str, lits[i:i + per_line])))
                if comments and i % 97 == 0:
                    out.append('c v 1 2 0')
            out += ['v 0', 'c end']
            open(os.path.join(d, 'answer'), 'w').write('\n'.join(out) + '\n')
            for mode in ('pipe', 'file'):
                cmd = f"sh -c 'cat > {d}/got; cat {d}/answer'" if mode == 'pipe' else f"sh -c 'cat $0 > {d}/got; cat {d}/answer' $FILE"
                with limit(ctx, 60, 'a large answer'), contextlib.redirect_stderr(io.StringIO()):
                    try:
                        got = run_command_solver(cmd, [list(c) for c in clauses])
                    except Exception as e:
                        if e.__class__.__name__ == 'Failure':
                            raise
                        got = e
                ctx.eval()
                info = dict(mode=mode, literals=nv, clauses=nc, per_line=per_line, comments=comments)
                ctx.require(received(os.path.join(d, 'got')) == clauses, 'the solver did not receive the clauses', **info)
                ctx.require(isinstance(got, list) and got == lits, f'the answer was not read as it is: {len(got) if isinstance(got, list) else repr(got)[:200]} literals', **info)
        path, lib = fake_library(d)
        from factorio_sat.ipasir import IPASIRLibrary
        for k in range(2):
            lib.fake_reset()
            s = IPASIRLibrary(path).create_solver()
            some = clauses[:900 + 300 * k]
            s.add_clauses(some) if k else [s.add_clause(c) for c in some]
            ctx.eval()
            ctx.require([e[2] for e in log(lib) if e[0] == ADD] == [l for c in some for l in c + [0]], 'the library did not receive the clauses', clauses=len(some))
            vs = {abs(l) for c in some for l in c}
            for v in vs:
                lib.fake_value(v, -1 if v % 3 else 1)
            lib.fake_script(10)
            s.solve()
            m = s.get_model()
            ctx.require(sorted(abs(l) for l in m) == sorted(vs) and all((l < 0) == bool(abs(l) % 3) for l in m), 'the model differs from the values of the library', clauses=len(some), variables=len(vs))
            s = None
        ctx.sample(info)


def grid_commands(ctx):
    """Results as decoded by a grid."""
    from factorio_sat.template import ArrayTemplate, BaseGrid, BoolTemplate
    with scratch() as d:
        for mode in ('pipe', 'file'):
            for text, want in (('s UNSATISFIABLE\n', None), ('s SATISFIABLE\nv 1 -2\nv 3 0\n', [True, False, True]), ('s SATISFIABLE\nv -1 2 -3 0\n', [False, True, False]), ('c no\n', 'error')):
                open(os.path.join(d, 'answer'), 'w').write(text)
                g = BaseGrid(ArrayTemplate(BoolTemplate(), (3,)), 1, 1)
                g.clauses = [[1, 2], [3, -2, 1]]
                cmd = f"cmd:sh -c 'cat > {d}/got; cat {d}/answer'" if mode == 'pipe' else f"cmd:sh -c 'cmp -s $0 $1 && cat $0 > {d}/got; cat {d}/answer' $FILE $FILE"
                for what in ('solve', 'itersolve', 'check'):
                    open(os.path.join(d, 'got'), 'w').close()
                    with limit(ctx, 20, 'solving'), contextlib.redirect_stderr(io.StringIO()):
                        try:
                            r = getattr(g, what)(solver=cmd)
                            r = list(r) if what == 'itersolve' else r
                        except Exception as e:
                            r = e
                    ctx.eval()
                    info = dict(answer=text, mode=mode, call=what)
                    ctx.require(received(os.path.join(d, 'got')) == [[1, 2], [3, -2, 1]] == g.clauses, 'the solver did not receive the clauses', **info)
                    if want == 'error':
                        ctx.require(isinstance(r, Exception), f'no answer gives {r!r}', **info)
                    elif what == 'check':
                        ctx.require(r is (want is not None), f'check gives {r!r}', **info)
                    elif want is None:
                        ctx.require(r == [] if what == 'itersolve' else r is None, f'UNSATISFIABLE gives {r!r}', **info)
                    else:
                        r = r[0] if what == 'itersolve' and len(r) == 1 else r
                        ctx.require(not isinstance(r, (list, Exception)) and r[0, 0] == want, f'the answer decodes to {r!r}', **info)


def used_after_release(lib):
    return [e for e in log(lib) if e[3] > 0 or e[1] == -1]


def library(ctx, count):
    from factorio_sat.ipasir import IPASIRLibrary
    with scratch() as d:
        path, lib = fake_library(d)
        L = IPASIRLibrary(path)
        ctx.require(L.get_signature() == b'fake-1.0', 'signature')
        for k, clauses in enumerate(clause_lists(ctx.rng, count)):
            lib.fake_reset()
            before = [list(c) for c in clauses]
            s = L.create_solver()
            cut = ctx.rng.randint(0, len(clauses))
            order = ctx.rng.randrange(4)
            if order == 0:
                s.add_clauses(clauses)
            elif order == 1:
                for c in clauses:
                    s.add_clause(c)
            elif order == 2:
                s.add_clauses(clauses[:cut])
                s.add_clauses(clauses[cut:])
            else:
                for c in clauses[:cut]:
                    s.add_clause(c)
                s.add_clauses(clauses[cut:])
            ctx.eval()
            ctx.require(clauses == before, 'the clause list was changed')
            ctx.require([e[2] for e in log(lib) if e[0] == ADD] == [l for c in before for l in c + [0]], 'the library did not receive the clauses', clauses=before, calls=log(lib)[:60])
            vs = {abs(l) for c in before for l in c}
            vals = {v: ctx.rng.choice([-1, 1, 1, -1, 0]) for v in vs}
            for v, b in vals.items():
                lib.fake_value(v, b)
            assumed = []
            for _ in range(ctx.rng.randint(0, 3)):
                if vs:
                    assumed.append(ctx.rng.choice([-1, 1]) * ctx.rng.choice(sorted(vs)))
                    s.assume(assumed[-1])
            ctx.require([e[2] for e in log(lib) if e[0] == ASSUME] == assumed, 'assumptions not passed on', want=assumed)
            for res in (10, 20, 0, 7, 11, -1):
                lib.fake_script(res)
                try:
                    r = s.solve()
                except Exception as e:
                    r = e
                ok = r is True if res == 10 else r is False if res == 20 else r is None if res == 0 else isinstance(r, Exception)
                ctx.require(ok, f'result code {res} of the library gives {r!r}', clauses=before)
                ctx.require(log(lib)[-1][0] == SOLVE, 'solving does not call the library')
            lib.fake_script(10)
            s.solve()
            m = s.get_model()
            ctx.require(sorted(abs(l) for l in m) == sorted(vs), 'the model does not contain every variable exactly once', clauses=before, model=m)
            ctx.require(all(vals[abs(l)] * l >= 0 for l in m), 'the model differs from the values of the library', clauses=before, model=m, values=vals)
            got = []
            s.set_learn(got.append, 3)
            s.set_terminate(lambda: False)
            s.set_learn(None)
            s.set_terminate(None)
            how = k % 3
            if how == 0:
                with s as t:
                    ctx.require(t is s, 'with statement gives another object')
                ctx.require([e[0] for e in log(lib)].count(RELEASE) == 1, 'leaving the with block does not release the solver')
                calls = dict(add_clause=([1],), add_clauses=([[1]],), assume=(1,), solve=(), get_model=(), unsat_used_assumption=(1,), __enter__=(), __exit__=(None, None, None),
                             set_learn=(print,), set_terminate=(print,))
                n = len(log(lib))
                for name, args in calls.items():
                    try:
                        r = getattr(s, name)(*args)
                        ctx.fail(f'{name} on a released solver gives {r!r} instead of an error')
                    except Exception:
                        pass
                    ctx.require(len(log(lib)) == n, f'{name} calls the library with a released solver', calls=log(lib)[n:])
            elif how == 1:
                with contextlib.suppress(KeyError):
                    with s:
                        raise KeyError
            t = None
            r = None
            del s, t, r
            import gc
            gc.collect()
            ctx.require([e[0] for e in log(lib)].count(RELEASE) == 1, f'the solver was released {[e[0] for e in log(lib)].count(RELEASE)} times', how=how)
            ctx.require(not used_after_release(lib), 'a released solver is used again', calls=used_after_release(lib))
            ids = {e[1] for e in log(lib)}
            ctx.require(len(ids) == 1, 'the solver pointer is not passed on faithfully', calls=log(lib)[:20])
        ctx.sample(dict(clauses=before, values=vals, model=m))


def learned(ctx):
    """Learned clauses and the terminate callback reach the caller."""
    from factorio_sat.ipasir import IPASIRSolver

    class Lib:
        def __init__(self):
            import types
            self.calls = []
            self.ipasir_set_learn = self.fn('learn', [None, None, None, lambda f: f])
            self.ipasir_set_terminate = self.fn('term', [None, None, lambda f: f])

        def fn(self, name, argtypes):
            def f(*a):
                self.calls.append((name, a))
            f.argtypes = argtypes
            return f

        def ipasir_init(self):
            return 77

        def ipasir_release(self, p):
            self.calls.append(('release', (p,)))
    lib = Lib()
    s = IPASIRSolver(lib)
    got = []
    s.set_learn(got.append, 5)
    name, (p, data, size, cb) = lib.calls[-1]
    ctx.require(name == 'learn' and p == 77 and size == 5, 'learn callback not registered')
    for c in ([], [4], [1, -2, 3, -9], list(range(1, 40))):
        cb(None, c + [0, 99, 0])
        ctx.eval()
        ctx.require(got[-1] == c, f'learned clause {c} was passed on as {got[-1]}')
    for r in (True, False, 0, 1):
        s.set_terminate(lambda: r)
        ctx.require(bool(lib.calls[-1][1][2](None)) == bool(r), 'terminate callback')


def grid_library(ctx):
    from factorio_sat.template import ArrayTemplate, BaseGrid, BoolTemplate
    with scratch() as d:
        path, lib = fake_library(d)
        for clauses in ([[1, 2], [3, -2, 1]], [[1], [-1]], [[2], [-1, -2]]):
            for call in ('solve', 'itersolve', 'check', 'partial'):
                for res in (None, 10, 20, 0, 5):
                    lib.fake_reset()
                    if res is not None:
                        lib.fake_script(res)
                    if res == 10 and call == 'itersolve':
                        continue     # endless by construction
                    g = BaseGrid(ArrayTemplate(BoolTemplate(), (3,)), 1, 1)
                    g.clauses = [list(c) for c in clauses]
                    with limit(ctx, 20, 'library solving'):
                        try:
                            if call == 'partial':
                                it = g.itersolve({1, 2, 3}, solver='lib:' + path)
                                r = next(it, None)
                                it.close()
                            elif call == 'itersolve':
                                r = list(g.itersolve({1, 2, 3}, solver='lib:' + path))
                            else:
                                r = getattr(g, call)(solver='lib:' + path)
                        except Exception as e:
                            r = e
                    import gc
                    gc.collect()
                    ctx.eval()
                    info = dict(clauses=clauses, call=call, result_code=res)
                    lg = log(lib)
                    nsolve = next((i for i, e in enumerate(lg) if e[0] == SOLVE), len(lg))
                    ctx.require([e[2] for e in lg[:nsolve] if e[0] == ADD] == [l for c in clauses for l in c + [0]], 'the library did not receive the clauses', **info)
                    ctx.require([e[0] for e in lg].count(RELEASE) == 1 and not used_after_release(lib), 'solver not released exactly once', calls=lg[-6:], **info)
                    sat = res == 10 or res is None and clauses != [[1], [-1]]
                    if res in (0, 5):
                        ctx.require(isinstance(r, Exception), f'a library that stops without an answer gives {r!r}', **info)
                    elif call == 'check':
                        ctx.require(r is sat, f'check gives {r!r}', **info)
                    elif call == 'itersolve':
                        ctx.require(isinstance(r, list) and (len(r) > 0) == sat, f'{r!r}', **info)
                    else:
                        ctx.require(not isinstance(r, Exception) and (r is not None) == sat, f'{call} gives {r!r}', **info)


def tasks(tier):
    n = 60 if tier == 'quick' else 500
    from .command import command_task
    from .external import library_tasks
    return library_tasks() + [command_task()] + [bound_task('command solvers', [lambda c: commands(c, 0, n)]), bound_task('command solvers b', [lambda c: (setattr(c, 'rng', __import__('random').Random(c.seed + 77)), commands(c, 0, n))]),
            bound_task('large answers', [large]), bound_task('grid commands', [grid_commands]), bound_task('library', [lambda c: library(c, n)]), bound_task('callbacks', [learned]), bound_task('grid library', [grid_library])]
