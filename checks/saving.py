"""Contract of saving in calculate_optimal.main (compute): main is executed with ghost files, stores, executor and event loop,
for any number of networks and one arbitrary iteration of the search of an arbitrary network.  Every operation on a file may be
the last one (a kill), or be interrupted before or after its effect by an exception that the code may handle."""
import os

from .common import *


class Interrupt(KeyboardInterrupt):
    pass


class Full(OSError):
    """The disk is full."""


class Native:
    def __getattr__(self, name):
        from pyvc.sym import Unsupported
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'{type(self).__name__}.{name}')


class Numbered(Native):
    """Something of network number k."""

    def __init__(self, k, *more):
        self.k, self.more = k, more

    def __pyvc_subst__(self, pairs):
        from pyvc.sym import z3
        return type(self)(z3.substitute(self.k, *pairs), *self.more)

    def __pyvc_same__(self, other):
        from pyvc.sym import SInt, same
        return type(self) is type(other) and same(SInt(self.k), SInt(other.k)) and self.more == other.more

    def __eq__(self, other):
        from pyvc.sym import mkbool
        return mkbool(self.k == other.k) if type(self) is type(other) and self.more == other.more else False

    __hash__ = object.__hash__

    def __repr__(self):
        return f'<{type(self).__name__} {self.k}>'

    def __format__(self, spec):
        return '...'


class FileName(Numbered):
    pass


class NetworkPath(Numbered):
    pass


class NetworkName(Numbered):
    pass


class Entry(Numbered):
    """Of the results file."""


class State(Numbered):
    """A store as data."""


class Net(Numbered):
    pass


class Result(Native):
    """What the solver gave."""


class Size(Native):
    def __format__(self, spec):
        return '...'

    def __str__(self):
        return '...'


class Entries(Numbered):
    """What a store holds."""

    def __pyvc_len__(self, E):
        from pyvc.sym import SInt, z3
        n = z3.Function('entries', z3.IntSort(), z3.IntSort())(self.k)
        E.assume(n >= 0)
        return SInt(n)


class Store(Numbered):
    @property
    def network_name(self):
        return NetworkName(self.k)

    @property
    def network(self):
        return Net(self.k)

    @property
    def exist(self):
        return Entries(self.k)
    solutions = exist

    def _event(self, *e):
        from pyvc import sym
        sym.ENGINE.list_extend(sym.ENGINE.trace, [e])

    def from_json(self, data):
        self._event('load', self, data)

    def to_json(self):
        self._event('store', self)
        return State(self.k)

    def add_solution(self, size, solution):
        self._event('add', self, size, solution)

    def clean(self):
        self._event('clean', self)

    for f in (from_json, to_json, add_solution, clean):
        f.__pyvc_native__ = True


class Whole:
    """The text of data, as JSON."""

    def __init__(self, data):
        self.data = data

    def __repr__(self):
        return f'<all of {self.data!r}>'


RESULT = 'results.json'


class World:
    def __init__(self):
        import argparse, asyncio, concurrent.futures, json, shutil, tempfile
        from factorio_sat import calculate_optimal as C
        from pyvc.interp import Coroutine, Engine
        from pyvc.sym import Fam, Unsupported, z3
        E = self.E = Engine(timeout_ms=3000)
        E.trace = []
        E.ghost_dicts = True
        w = self
        self.n, self.t = z3.Ints('networks t')
        self.handles = 0

        def event(*e):
            E.list_extend(E.trace, [e])
        self.event = event

        def step(*e):
            """An operation on files: with or without its effect when interrupted."""
            if not w.interrupted and E.decide(E.fresh_bool('interrupted_before')):
                w.interrupted = True
                event('interrupted before', *e)
                raise Full() if E.decide(E.fresh_bool('error')) else Interrupt()
            event(*e)
            if not w.interrupted and E.decide(E.fresh_bool('interrupted_after')):
                w.interrupted = True
                event('interrupted')
                raise Interrupt()

        class Handle(Native):
            def __init__(self, path, mode):
                w.handles += 1
                self.no, self.path, self.mode, self.open = w.handles, path, mode, True

            @property
            def name(self):
                return self.path

            def fileno(self):
                return self

            def write(self, text):
                event('piece', self.no)
                step('write', self.no, text)

            def flush(self):
                step('flush', self.no)

            def close(self):
                if self.open:
                    self.open = False
                if self.mode[0] != 'r':
                    step('flush', self.no)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()

        self.Handle = Handle

        def path_of(p):
            if not isinstance(p, str):
                raise Unsupported('path')
            return os.path.normpath(p)

        def op(E, path, mode='r', *a, **k):
            if isinstance(path, Handle):
                return path
            path = path_of(path)
            if mode in ('r', 'rb', 'rt'):
                if E.decide(E.fresh_bool('missing')):
                    raise FileNotFoundError(path)
                event('read', path)
                return Handle(path, mode)
            h = Handle(path, mode)
            if mode[0] not in 'wxa' or '+' in mode:
                raise Unsupported('mode of a file')
            step('open ' + mode[0], h.no, path)
            return h

        def temporary(E, mode='w+b', *a, **k):
            if k.get('delete', True) or 'w' not in mode and 'w' not in k.get('mode', ''):
                raise Unsupported('temporary file')
            path = f'temporary {w.handles}'
            h = Handle(path, 'w')
            step('open x', h.no, path)
            return h

        def move(E, a, b, *r, **k):
            if r or k:
                raise Unsupported('options')
            if not any(isinstance(e, tuple) and e[0] in ('open w', 'open x', 'open a') and e[2] == path_of(a) for e in E.trace) and E.decide(E.fresh_bool('missing')):
                raise FileNotFoundError(a)
            step('move', path_of(a), path_of(b))

        def remove(E, a, *r, **k):
            step('remove', path_of(a))

        def copied(E, a, b, *r, **k):
            event('spoil', path_of(b))
            step('copy', path_of(a), path_of(b))

        def dump(E, data, f, *a, **k):
            if not isinstance(f, Handle):
                raise Unsupported('file')
            event('piece', f.no)
            step('write', f.no, Whole(w.content(data)))

        def sync(E, f, *a):
            step('flush', f.no)

        def exists(E, p):
            return E.decide(E.fresh_bool('exists'))
        E.intercepts.update({open: op, os.replace: move, os.rename: move, os.remove: remove, os.unlink: remove, shutil.move: move, shutil.copy: copied, shutil.copyfile: copied,
                             shutil.copy2: copied, json.dump: dump, json.dumps: lambda E, data, *a, **k: Whole(w.content(data)), os.fsync: sync, os.path.exists: exists, os.path.isfile: exists, tempfile.NamedTemporaryFile: temporary})
        for name in ('truncate', 'ftruncate', 'open', 'write', 'link', 'symlink', 'mkdir', 'makedirs', 'rmdir', 'close', 'fdopen', 'removedirs', 'renames', 'chmod', 'system'):
            E.intercepts[getattr(os, name)] = lambda E, *a, **k: (_ for _ in ()).throw(Unsupported('file operation'))
        E.intercepts[shutil.rmtree] = E.intercepts[tempfile.mkstemp] = E.intercepts[os.truncate]

        # the networks and the results read at the start
        def listdir(E, path):
            if path != 'networks':
                raise Unsupported('another folder')
            k = E.fresh_bvar('f')
            return E.new([Fam([k], z3.And(0 <= k, k < w.n), [(z3.BoolVal(True), [FileName(k)])], z3.IntVal(0), w.n)])

        def join(E, *parts):
            if any(isinstance(p, FileName) for p in parts):
                if len(parts) != 2 or parts[0] != 'networks':
                    raise Unsupported('path of a network')
                return NetworkPath(parts[1].k)
            return os.path.join(*parts)

        class Data(Native):
            def get(self, name, *default):
                if not isinstance(name, NetworkName):
                    raise Unsupported('key')
                if E.decide(E.fresh_bool('new')):
                    return default[0] if default else None
                return Entry(name.k)

            def __pyvc_contains__(self, E, name):
                raise Unsupported('key of the results')

        Data.get.__pyvc_native__ = True
        E.intercepts.update({os.listdir: listdir, os.path.join: join, json.load: lambda E, f, *a, **k: Data()})
        E.class_hooks[C.NetworkSolutionStore] = lambda E, path: Store(path.k)
        for c in (C.AreaObjective, C.LengthObjective):
            E.contracts[f'calculate_optimal.{c.__name__}.next_size'] = self.next_size

        # running
        class Executor(Native):
            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

            def shutdown(self, *a, **k):
                pass

        class Job(Native):
            def __init__(self, run):
                self.run = run

            def __pyvc_await__(self, E):
                event('await')
                return self.run()

        def gather(E, *things):
            def run():
                for x in things:
                    if isinstance(x, Fam):
                        if not x.uniform:
                            raise Unsupported('tasks')
                        E.assume(z3.And(x.lo <= w.t, w.t < x.hi))
                        event('task')
                        x = x.at(w.t)
                    if not isinstance(x, Coroutine):
                        raise Unsupported('task')
                    x.run(E)
            return Job(run)

        def submit(executor, f, *a):
            if getattr(f, '__name__', None) != 'solve_balancer' or len(a) != 3:
                raise Unsupported('job of the executor')

            def run():
                event('solve', *a)
                w.result = Result() if E.decide(E.fresh_bool('solved')) else None
                return w.result
            return Job(run)

        class Loop(Native):
            def run_in_executor(self, executor, f, *a):
                return submit(executor, f, *a)

            def run_until_complete(self, c):
                return c.run(E)

            def close(self):
                pass
        for c in (Loop, Executor, Job, Handle):
            for f in list(vars(c).values()):
                if callable(f):
                    f.__pyvc_native__ = True
        E.class_hooks[concurrent.futures.ProcessPoolExecutor] = lambda E, *a, **k: Executor()
        E.intercepts.update({asyncio.new_event_loop: lambda E: Loop(), asyncio.get_running_loop: lambda E: Loop(), asyncio.get_event_loop: lambda E: Loop(), asyncio.gather: gather,
                             asyncio.set_event_loop: lambda E, l: None, asyncio.run: lambda E, c: c.run(E), print: lambda E, *a, **k: None})

    def content(self, data):
        """(name, value) items of what is written."""
        from pyvc.ghost import Filled, SymMap
        from pyvc.sym import Unsupported
        if isinstance(data, (Filled, SymMap)):
            return list(data.content)
        if isinstance(data, dict):
            return list(data.items())
        raise Unsupported('data written')

    def next_size(self, E, f, args, kw):
        store = args[1] if len(args) > 1 else kw['store']
        E.list_extend(E.trace, [('next', store)])
        self.size = Size()
        return None if E.decide(E.fresh_bool('done')) else self.size

    def run(self, argv):
        import argparse
        from factorio_sat import calculate_optimal as C
        from .programs import parser_hook
        E = self.E
        E.class_hooks[argparse.ArgumentParser] = parser_hook(argv, {})
        q = 'calculate_optimal.main.<locals>.optimise'
        E.cut_while.add(q)

        def invariant(E, frame):
            out = {}
            for name, v in E.trace[-1][1].items():
                if isinstance(v, Size) or v is None and name in frame.locals:       # chosen before the loop, and again at its end
                    out[name] = None if E.decide(E.fresh_bool('at_end')) else Size()
            return out
        E.invariants[q, 'while'] = invariant

        def run():
            self.interrupted = False
            self.handles = 0
            E.assume(self.n >= 0)
            try:
                E.call(C.main, ())
            except (Interrupt, OSError):
                if not self.interrupted:
                    raise
                return 'interrupted'
            return 'done'
        return E.explore(run, max_paths=2000)


def views(trace):
    """What the results file holds after every event: 'before', a Whole, or None (anything incomplete)."""
    from pyvc.sym import Fam
    inode, content, files, out = {}, {}, {RESULT: 'before'}, []
    content['before'] = ('before',)
    durable = {'before': ('before',)}
    for e in trace:
        if isinstance(e, Fam):
            continue
        k = e[0]
        if k in ('open w', 'open x'):
            if k == 'open w' and e[2] in files:
                inode[e[1]] = files[e[2]]
            else:
                inode[e[1]] = ('new', e[1])
            files[e[2]] = inode[e[1]]
            content[inode[e[1]]], durable[inode[e[1]]] = (), ()
        elif k == 'open a':
            inode[e[1]] = files.get(e[2], ('new', e[1]))
            files[e[2]] = inode[e[1]]
            content.setdefault(inode[e[1]], ())
            durable.setdefault(inode[e[1]], ())
        elif k == 'piece':
            content[inode[e[1]]] += ('part',)
            durable[inode[e[1]]] = ('part',)       # a buffer may be written out at any moment
        elif k == 'write':
            c = content[inode[e[1]]]
            content[inode[e[1]]] = (c[:-1] if c[-1:] == ('part',) else c) + (e[2],)
        elif k == 'flush':
            if e[1] in inode:
                durable[inode[e[1]]] = content[inode[e[1]]]
        elif k == 'move':
            files[e[2]] = files.pop(e[1], 'unknown')
        elif k == 'remove':
            files.pop(e[1], None)
        elif k == 'spoil':
            if e[1] in files:
                durable[files[e[1]]] = ('part',)
        elif k == 'copy':
            if e[2] in files and e[1] in files:
                durable[files[e[2]]] = durable.get(files[e[1]])
        else:
            continue
        d = durable.get(files.get(RESULT))
        out.append((e, d[0] if d and len(d) == 1 and d[0] != 'part' else None))
    return out


FILE_EVENTS = ('open w', 'open x', 'open a', 'piece', 'write', 'flush', 'move', 'remove', 'spoil', 'copy', 'interrupted', 'interrupted before')


def saving_task():
    def fn(ctx):
        from pyvc.sym import Fam, Unsupported, z3
        from .c15 import scratch
        from .solving import flatten
        p = ctx.prover('saving')
        K = z3.Int('K')
        for mode in ('length', 'area'):
            with scratch() as d:
                old = os.getcwd()
                os.chdir(d)
                try:
                    w = World()
                    paths = w.run(['--database', RESULT, 'compute', '4', mode, '--threads', '3'])
                finally:
                    os.chdir(old)
            ctx.functions(w.E)
            seen = set()
            for k, path in enumerate(paths):
                lab = f'{mode}: path {k}: '
                tr = list(path.trace)
                why = f'{path.outcome} {path.value!r:.200} {[e for e in tr if not isinstance(e, Fam)]!r:.900}'
                ob = lambda what, ok: ctx.obligation('saving:' + lab + what, bool(ok), why)
                ob('does not fail', path.outcome in ('cut', 'normal'))
                if path.outcome not in ('cut', 'normal'):
                    continue
                v = views(tr)
                ob('the results file is complete after every operation', all(x is not None for _, x in v))
                after = [x for _, x in v if isinstance(x, Whole)]
                # everything loaded at the start is loaded into its own store, before anything else
                flat = list(flatten(tr))
                loads = [e for _, _, e in flat if e[0] == 'load']
                ob('earlier results go to their own network', all(isinstance(e[2], Entry) and e[2].k.eq(e[1].k) for e in loads))
                read = any(e[0] == 'read' for _, _, e in flat)
                ob('earlier results are loaded', bool(loads) == read and all(e[1] == RESULT for _, _, e in flat if e[0] == 'read'))
                names = [e[0] for _, _, e in flat]
                if 'solve' not in names:
                    ob('nothing is saved before a result', not any(n in FILE_EVENTS for n in names))
                    seen.add('idle')
                    continue
                at = names.index('solve')
                e = flat[at][2]
                ob('one result at a time', names.count('solve') == 1 and isinstance(e[1], Net) and e[1].k.eq(w.t) and isinstance(e[2], Size) and e[3] == 'g4')
                first = next((i for i, n in enumerate(names) if n in FILE_EVENTS), None)
                ob('saved after the result', first is not None and first > at)
                if first is None:
                    continue
                between = names[at + 1:first]
                add = [e for _, _, e in flat if e[0] == 'add']
                ob('the result is recorded before it is saved', len(add) == 1 and between[:1] == ['add'] and add[0][1].k.eq(w.t) and isinstance(add[0][2], Size) and (add[0][3] is None or isinstance(add[0][3], Result)))
                stores = [i for i, n in enumerate(names) if n == 'store']
                ob('the state saved is the one after that', stores and min(stores) > names.index('add') and 'load' not in names[at:])
                ob('one save at a time', 'await' not in names[first:] and 'solve' not in names[first:])
                if path.outcome == 'normal' and path.value == 'interrupted':
                    ob('before or after the save', len(set(map(id, after))) <= 1)
                    seen.add('interrupted')
                elif path.outcome == 'cut':
                    ob('the record is saved', v and isinstance(v[-1][1], Whole))
                    seen.add('saved')
                else:
                    seen.add('handled')
                for x in {id(a): a for a in after}.values():
                    s = p.solver([w.n >= 0] + path.assumed + path.conds)
                    cover = []
                    for g, vs, item in flatten(x.data):
                        if len(vs) != 1 or not isinstance(item, tuple) or not isinstance(item[0], NetworkName) or not isinstance(item[1], State):
                            raise Unsupported('record')
                        sub = [(vs[0], K)]
                        cover.append(z3.substitute(g, *sub))
                        ob('states under their names', item[0].k.eq(item[1].k) and item[0].k.eq(vs[0]))
                    p.goal(s, f'{lab}every network is in the record', z3.Implies(z3.And(0 <= K, K < w.n), z3.Or(cover) if cover else z3.BoolVal(False)))
            ctx.obligation(f'saving:{mode}: searches that save, are interrupted and end', {'idle', 'interrupted', 'saved'} <= seen, repr(seen))
    return Task('proof save_progress', fn, 'proof', 120)
