import builtins
import concurrent.futures
import contextlib
import io
import json
import os

from .common import *
from .c15 import limit, scratch
from .c22 import run_program, store

LEVEL = 'proof'
TECHNIQUE = ('deductive: main (compute) executed on ghost files, stores, executor and event loop, for any number of networks and one arbitrary iteration of the search of an arbitrary network, with every file operation '
             'possibly the last one, or interrupted (before or after its effect) by an exception the code may handle; proved: after every operation the results file is the old record or the whole new one, which holds every network, '
             'and saves do not overlap; discharged by z3')
NOTE = ('The ghost file system: a buffered write may reach the disk in part at any moment until it is flushed or closed; renaming is atomic. What a store holds and how it becomes data is C22. '
        'The bounded companion reads the real file after every real operation of whole searches.')
ASSUMPTIONS = ['os.replace is atomic', 'a process kill loses no data handed to the operating system (power failure is not considered)', 'asyncio switches tasks only at await']
RULE = 'the compute program runs with every file operation intercepted: the results file is read after each one (a kill there), and the run is repeated with an interruption raised at each one'
BOUND = 'searches of up to 8 saves, all their file operations (open, each partial write, close, rename, remove, ...)'


class Stop(KeyboardInterrupt):
    pass


class Full(OSError):
    pass


class Inline:
    """Executor that runs at once in this process."""

    def __init__(self, *a, **k):
        pass

    def submit(self, f, *a, **k):
        r = concurrent.futures.Future()
        try:
            r.set_result(f(*a, **k))
        except BaseException as e:
            r.set_exception(e)
        return r

    def __enter__(self):
        return self

    def __exit__(self, *_):
        pass

    def shutdown(self, *a, **k):
        pass


REAL = dict(open=builtins.open, os_open=os.open)


class Monitor:
    """Intercepts the operations that change files below a directory."""

    def __init__(self, root, after, stop_at=None, how=Stop, size=32):
        self.how, self.size = how, size
        self.root, self.after, self.stop_at, self.n, self.on, self.log = root, after, stop_at, 0, False, []

    def inside(self, p):
        try:
            return not isinstance(p, int) and os.path.abspath(os.fspath(p)).startswith(self.root)
        except TypeError:
            return False

    def step(self, what):
        """Called before an operation."""
        self.n += 1
        self.log.append(what)
        if self.n == self.stop_at:
            raise self.how()

    def done(self):
        self.on, on = False, self.on
        try:
            self.after(self)
        finally:
            self.on = on

    @contextlib.contextmanager
    def patched(self):
        m = self
        saved = {}

        class Raw(io.FileIO):
            def write(self, b):
                if not m.on or len(b) == 0:
                    return super().write(b)
                m.step(f'write {len(b)} bytes to {os.path.basename(str(self.name))}')
                b = bytes(b)
                k = super().write(b[:max(1, len(b) // 2)])
                m.done()
                return k

            def truncate(self, *a):
                m.step('truncate')
                r = super().truncate(*a)
                m.done()
                return r

            def close(self):
                if not self.closed and m.on and self.writable():
                    m.step(f'close {os.path.basename(str(self.name))}')
                    super().close()
                    m.done()
                else:
                    super().close()

        def op(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            if not m.on or not (m.inside(file) or isinstance(file, int)) or not set(mode) & set('wax+'):
                return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
            m.step(f'open {file} {mode}')
            raw = Raw(file, mode.replace('b', '').replace('t', ''), closefd, opener)
            m.done()
            if buffering == 0:
                return raw
            buf = io.BufferedRandom(raw, m.size) if '+' in mode else io.BufferedWriter(raw, m.size)
            if 'b' in mode:
                return buf
            return io.TextIOWrapper(buf, encoding, errors, newline, write_through=True)

        def wrap(f, name):
            def g(*a, **k):
                if not m.on or not any(m.inside(x) or isinstance(x, int) for x in a[:2]):
                    return f(*a, **k)
                m.step(f'{name} {" ".join(str(x) for x in a[:2])}')
                r = f(*a, **k)
                m.done()
                return r
            return g
        for name in ('replace', 'rename', 'renames', 'remove', 'unlink', 'truncate', 'ftruncate', 'link', 'symlink', 'write', 'pwrite', 'sendfile', 'open'):
            if hasattr(os, name):
                saved[name] = getattr(os, name)
                setattr(os, name, wrap(saved[name], 'os.' + name))
        old = builtins.open, io.open
        builtins.open = io.open = op
        try:
            yield self
        finally:
            builtins.open, io.open = old
            for k, v in saved.items():
                setattr(os, k, v)


def scenario(ctx, d, saves, initial, stop_at=None, after=None, missing=False, how=Stop, size=32):
    """Run one search; returns (operations, contents of the results file seen after each one)."""
    from factorio_sat import calculate_optimal as C
    db = os.path.join(d, 'results.json')
    for f in os.listdir(d):
        p = os.path.join(d, f)
        if os.path.isfile(p):
            os.unlink(p)
    if not missing:
        with open(db, 'w') as f:
            f.write(json.dumps(initial))
    states = []

    def read():
        try:
            with REAL['open'](db) as f:
                return f.read()
        except FileNotFoundError:
            return None
    m = Monitor(d, lambda m: states.append(read()), stop_at, how, size)
    count = [0]

    def solve(network, size, solver):
        count[0] += 1
        if count[0] < saves:
            return None
        w, h = size[1:]
        return [[{'tile': {'type': 'empty'}, 'n': x * y} for x in range(w)] for y in range(h)]
    old = C.solve_balancer, concurrent.futures.ProcessPoolExecutor, os.getcwd()
    C.solve_balancer, concurrent.futures.ProcessPoolExecutor = solve, Inline
    os.chdir(d)
    stopped = False
    try:
        with m.patched(), contextlib.redirect_stderr(io.StringIO()):
            m.on = True
            try:
                run_program(['--database', 'results.json', 'compute', '4', 'length'])
            except BaseException:
                if stop_at is None or m.n < stop_at:
                    raise
                stopped = True
            finally:
                m.on = False
    finally:
        C.solve_balancer, concurrent.futures.ProcessPoolExecutor = old[:2]
        os.chdir(old[2])
    return m, states, read(), stopped


def crashes(ctx):
    import logging
    logging.disable(logging.CRITICAL)      # asyncio reports the interruptions
    net = [((0, 0), (1, 1))]
    for saves, missing, how, more in ((1, False, Stop, 0), (3, False, Stop, 0), (2, True, Stop, 0), (2, False, Full, 0), (1, False, Stop, 45)):
        size = 32 if more == 0 else 1 << 20
        with scratch() as d:
            os.makedirs(os.path.join(d, 'networks'))
            store(os.path.join(d, 'networks'), net, '2x2')
            if how is Stop:      # after an error the searches of other networks go on
                store(os.path.join(d, 'networks'), [((0, 0), (1, 1)), ((0, 0), (1, 1))], '4x4')
            for k in range(more):
                store(os.path.join(d, 'networks'), net, f'2x2-{k}')
            initial = {'2x2': {'exist': {'4,3,2': False}, 'solutions': {}}, '4x4': {'exist': {'4,9,4': True}, 'solutions': {'4,9,4': [[1] * 9] * 4}}}
            with limit(ctx, 60, 'the compute program'):
                m, states, final, _ = scenario(ctx, d, saves, initial, missing=missing, size=size)
            ctx.require(m.n > 0, 'nothing was saved')
            complete = [None if missing else json.dumps(initial)]
            for k, s in enumerate(states):
                ctx.eval()
                if s == complete[-1]:
                    continue
                try:
                    ok = isinstance(json.loads(s), dict)
                except (TypeError, ValueError):
                    ok = False
                ctx.require(ok, f'a kill after file operation {k + 1} ({m.log[k]}) leaves an incomplete results file', content=(s or '')[:300], operations=m.log[:k + 2])
                if s != complete[-1]:
                    complete.append(s)
            # every entry recorded so far is in each later record
            known = {}
            for c in complete:
                for name, rec in (json.loads(c) if c else {}).items():
                    for z, v in rec['exist'].items():
                        known[name, z] = v
                        if v:
                            ctx.require(z in rec['solutions'], f'solution {z} of {name} is missing in the record', record=c[:300])
                    for (n2, z), v in known.items():
                        if n2 == name and v is True:
                            ctx.require(rec['exist'].get(z) is True and z in rec['solutions'], f'{z} of {name} was lost', record=c[:300])
            ctx.require(complete[-1] == final and len(complete) >= 2, 'the record is not saved', operations=m.log)
            parsed = [None if c is None else json.loads(c) for c in complete]
            # interruption by an exception at every operation
            at = 0
            step = max(1, m.n // (300 if more == 0 else 12))
            for k in range(1, m.n + 1, step):
                with limit(ctx, 60, 'the compute program'):
                    m2, st2, left, stopped = scenario(ctx, d, saves, initial, k, missing=missing, how=how, size=size)
                ctx.eval()
                for what, seen in zip(m2.log[k - 1:], st2[k - 1:]):      # a kill while the code handles the interruption
                    ctx.require(seen is None and None in parsed or seen in complete, f'a kill after an interruption at file operation {k} ({m2.log[k - 1]}) leaves neither record', content=(seen or '')[:300], operations=m2.log)
                if not stopped:
                    continue
                try:
                    got = None if left is None else json.loads(left)
                except ValueError:
                    got = left
                ctx.require(got in parsed, f'an interruption at file operation {k} ({m2.log[-1]}) leaves neither record', content=(left or '')[:300], operations=m2.log)
                i = parsed.index(got)
                ctx.require(i >= at, f'an interruption at file operation {k} ({m2.log[-1]}) loses a completed save', operations=m2.log)
                at = max(at, i) if i - at <= 1 else i
    ctx.sample(dict(operations=m.log[:12]))


def tasks(tier):
    from .saving import saving_task
    return [saving_task(), bound_task('crash points', [crashes])]
