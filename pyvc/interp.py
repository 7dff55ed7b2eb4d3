"""AST interpreter that symbolically executes the real source of /repo.

Functions are taken from the imported modules of /repo and looked up in the source file by position, so what is
verified is the text that runs.  Loops over symbolic ranges are executed once for an arbitrary iteration; their exact
effect (appended items) is recorded as a family.
"""
import ast
import builtins
import copy
import enum
import functools
import inspect
import itertools
import re
import sys
import types

from . import ghost, sym
from .sym import (EngineError, Fam, Lit, SBool, SInt, SymArray2D, SymAxis, Unsupported, bterm, has_fam, has_sym,
                  iterm, mkbool, mkint, same, subst, z3, np)

REPO = '/repo/'


class BreakSig(EngineError):
    pass


class ContinueSig(EngineError):
    pass


def ghostly(e):
    """An error about one of the verifier's own objects (an operation it does not model), not one of the code under test."""
    if not isinstance(e, (TypeError, AttributeError, NotImplementedError)) or 'NoneType' in str(e):
        return False
    names = {n for m, mod in list(sys.modules.items()) if m.startswith(('pyvc.', 'checks.')) for n, c in vars(mod).items() if isinstance(c, type) and c.__module__ == m}
    return any(w in names for w in re.findall(r"\w+", str(e)))


class CutSig(EngineError):
    """End of the arbitrary iteration of a while loop executed by the cut rule."""


class ReturnSig(EngineError):
    def __init__(self, value):
        self.value = value


class CarriedRead(EngineError):
    def __init__(self, poison):
        self.poison = poison


class Infeasible(EngineError):
    pass


class Poison:
    def __init__(self, name, loop):
        self.name, self.loop = name, loop


class Path:
    assumed = ()

    def __init__(self, conds, extra, outcome, value, effects, finals=None):
        self.conds, self.extra, self.outcome, self.value, self.effects = conds, extra, outcome, value, effects
        self.finals = finals
        self.reads = {}

    @property
    def cond(self):
        return z3.And(*self.conds) if self.conds else sym.TRUE


class Ctx:
    def __init__(self, vector, prefix):
        self.vector = vector
        self.pos = 0
        self.conds = []
        self.extra = []
        self.pending = []
        self.prefix = prefix
        self.counter = 0


class Frame:
    __slots__ = ('locals', 'parent', 'globals', 'info', 'func', 'yields', 'names')

    def __init__(self, parent, globals_, info, func):
        self.locals = {}
        self.parent = parent
        self.globals = globals_
        self.info = info
        self.func = func
        self.yields = None
        self.names = None


class ScopeInfo:
    """Names assigned in a function body (excluding nested functions), nonlocal and global names, generator flag."""

    def __init__(self, node):
        self.assigned = set()
        self.nonlocals = set()
        self.globals = set()
        self.is_gen = False
        args = node.args
        for a in args.posonlyargs + args.args + args.kwonlyargs:
            self.assigned.add(a.arg)
        if args.vararg:
            self.assigned.add(args.vararg.arg)
        if args.kwarg:
            self.assigned.add(args.kwarg.arg)
        body = node.body if isinstance(node.body, list) else [node.body]
        for n in body:
            self.visit(n)
        self.assigned -= self.nonlocals | self.globals

    def visit(self, n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            self.assigned.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # comprehension targets are local to it; but visit for yields/walrus
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    self.assigned.add(c.target.id)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            self.is_gen = True
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            self.assigned.add(n.id)
        if isinstance(n, ast.Nonlocal):
            self.nonlocals |= set(n.names)
        if isinstance(n, ast.Global):
            self.globals |= set(n.names)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                self.assigned.add((a.asname or a.name).split('.')[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            self.assigned.add(n.name)
        for c in ast.iter_child_nodes(n):
            self.visit(c)


class FakeCode:
    def __init__(self, node):
        a = node.args
        self.co_varnames = tuple(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs) + \
            ((a.vararg.arg,) if a.vararg else ()) + ((a.kwarg.arg,) if a.kwarg else ())
        self.co_flags = (inspect.CO_VARKEYWORDS if a.kwarg else 0) | (inspect.CO_VARARGS if a.vararg else 0)
        self.co_argcount = len(a.args) + len(a.posonlyargs)


class IFunc:
    """A function whose body is interpreted."""

    def __init__(self, engine, node, globals_, parent, qualname, defaults, kwdefaults, cls=None):
        self.engine, self.node, self.globals, self.parent = engine, node, globals_, parent
        self.qualname = qualname
        self.__name__ = getattr(node, 'name', '<lambda>')
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.info = engine.scope_info(node)
        self.cls = cls
        self.__code__ = FakeCode(node)

    def __call__(self, *args, **kwargs):
        return self.engine.call_ifunc(self, args, kwargs)

    def __repr__(self):
        return f'<IFunc {self.qualname}>'

    def __get__(self, obj, typ=None):
        return self if obj is None else types.MethodType(self, obj)


class Coroutine:
    """A call of an asynchronous function; runs when awaited."""
    __pyvc_native__ = True

    def __init__(self, f, args, kwargs):
        self.f, self.args, self.kwargs = f, args, kwargs

    def run(self, E):
        return E.run_body(self.f, self.args, self.kwargs)

    def __pyvc_subst__(self, pairs):
        return Coroutine(self.f, subst(self.args, pairs), subst(self.kwargs, pairs))


class SymUfunc:
    """np.frompyfunc of a function."""
    __pyvc_native__ = True

    def __init__(self, engine, func, nin, nout):
        self.engine, self.func = engine, func
        self.native = np.frompyfunc(engine.callable(func), nin, nout)

    def __call__(self, *args):
        if any(isinstance(a, SymAxis) for a in args):
            return self.engine.build_array(self.func, args)
        if any(isinstance(a, SymArray2D) for a in args):
            if len(args) != 1:
                raise Unsupported('ufunc over a symbolic array')
            a = args[0]
            return self.engine.build_array(lambda y, x: self.engine.call(self.func, (a.at(y, x),)), [SymAxis(0, n, k) for k, n in enumerate(a.shape)])
        return self.native(*args)


_fn_index = {}


def _index_file(filename):
    if filename not in _fn_index:
        with open(filename) as f:
            src = f.read()
        tree = ast.parse(src)
        idx = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.FunctionDef):
                line = n.lineno
                if n.decorator_list:
                    line = min(d.lineno for d in n.decorator_list)
                idx.setdefault((n.name, line), n)
            elif isinstance(n, ast.Lambda):
                idx.setdefault(('<lambda>', n.lineno), []).append(n)
        _fn_index[filename] = idx
    return _fn_index[filename]


class LoopToken:
    def __init__(self, prefix):
        self.prefix = prefix


class Engine:
    def __init__(self, contracts=None, timeout_ms=2000):
        sym.ENGINE = self
        self.contracts = contracts or {}
        self.solver = z3.SolverFor('QF_UFLIA') if False else z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.assumptions = []
        self.ctxs = []
        self.bound = []
        self.handled = []           # exceptions being handled
        self.trail = []
        self.oneshot = set()
        self.reads = {}
        self.invariants = {}
        self.merge_concrete = False
        self.max_paths = 400
        self.generated = []
        self.trace = None           # ghost events, where a proof records them
        self.cut_for = set()        # functions whose for loops over symbolically many items do
        self.cut_while = set()      # functions whose while loops run one arbitrary iteration
        self.ghosts = set()         # ids of objects whose state at that iteration is not read back
        self.ghost_dicts = False    # {} may be filled by loops over symbolically many items
        self.ghost_sets = False
        self.permutations = None    # facts about unknown orders of symbolically many items, where sorting makes them
        self.sums = []              # prefix sums of loop-carried counters: (function, first index, increase at an index)
        self.background = {}        # quantified facts that only some questions need
        self.algebra = None         # reads a symbolic set as a set with operations
        self.text = None            # class of symbolic texts, where f-strings make them
        self.created = []
        self.functions = {}
        self.bvar = itertools.count()
        self.stats = dict(decides=0, feas=0)
        self.depth = 0
        self.native_ok = set()
        self.intercepts = dict(BUILTIN_INTERCEPTS)
        self.class_hooks = {}
        self._scope = {}
        self._wrapcache = {}
        self.fuel = 2_000_000

    # ------------------------------------------------------------------ paths
    def scope_info(self, node):
        r = self._scope.get(id(node))
        if r is None:
            r = self._scope[id(node)] = (ScopeInfo(node), node)
        return r[0]

    def axiom(self, t):
        self.solver.add(t)

    def assume(self, t):
        self.solver.add(t)
        self.assumptions.append(t)

    def concrete_int(self, t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        if self.solver.check() == z3.sat:
            v = self.solver.model().eval(t, model_completion=True)
            if z3.is_int_value(v):
                self.solver.push()
                self.solver.add(t != v)
                r = self.solver.check()
                self.solver.pop()
                if r == z3.unsat:
                    return v.as_long()
        return None

    def feasible(self, t):
        self.stats['feas'] += 1
        self.solver.push()
        self.solver.add(t)
        r = self.solver.check()
        self.solver.pop()
        return r != z3.unsat

    def decide(self, term):
        if isinstance(term, bool):
            return term
        term = z3.simplify(term)
        if z3.is_true(term):
            return True
        if z3.is_false(term):
            return False
        if not self.ctxs:
            raise Unsupported('decision outside of an exploration')
        ctx = self.ctxs[-1]
        self.stats['decides'] += 1
        if ctx.pos < len(ctx.vector):
            choice, forced = ctx.vector[ctx.pos]
        else:
            t, f = self.feasible(term), self.feasible(z3.Not(term))
            if not t and not f:
                raise Infeasible()
            forced = not (t and f)
            choice = t
            if not forced:
                ctx.pending.append(ctx.vector[:ctx.pos] + [(False, False)])
            ctx.vector = ctx.vector[:ctx.pos] + [(choice, forced)]
        ctx.pos += 1
        c = term if choice else z3.Not(term)
        self.solver.add(c)
        if not forced:
            ctx.conds.append(c)
        return choice

    def fresh_name(self, base):
        if self.ctxs:
            ctx = self.ctxs[-1]
            ctx.counter += 1
            return f'{base}@{ctx.prefix}{ctx.counter}'
        return f'{base}@g{next(self.bvar)}'

    def fresh_bvar(self, base):
        return z3.Int(f'{base}!{next(self.bvar)}')

    def fresh_bool(self, base='v'):
        name = self.fresh_name(base)
        if self.bound:
            f = z3.Function(name, *([z3.IntSort()] * len(self.bound)), z3.BoolSort())
            return f(*self.bound)
        return z3.Bool(name)

    def fresh_prefix(self):
        if self.ctxs:
            c = self.ctxs[-1]
            c.counter += 1
            return f'{c.prefix}{c.counter}.'
        return f'r{next(self.bvar)}.'

    def explore(self, fn, frame=None, keep_env=False, max_paths=None, prefix=None):
        """Run fn once for every feasible sequence of decisions; mutations are rolled back after every path."""
        prefix = prefix or self.fresh_prefix()
        max_paths = max_paths or self.max_paths
        stack = [[]]
        paths = []
        while stack:
            vec = stack.pop()
            ctx = Ctx(list(vec), prefix)
            self.ctxs.append(ctx)
            mark, cmark, amark, bmark = len(self.trail), len(self.created), len(self.assumptions), len(self.bound)
            self.solver.push()
            snapshot = dict(frame.locals) if frame is not None else None
            ymark = frame.yields if frame is not None else None
            depth = self.depth
            outcome, value = 'normal', None
            skip = False
            outer_reads, self.reads = self.reads, {}
            try:
                try:
                    value = fn()
                except Exception as e:
                    if ghostly(e):
                        raise Unsupported(f'{type(e).__name__}: {e}')
                    raise
            except BreakSig:
                outcome = 'break'
            except ContinueSig:
                outcome = 'normal'
            except ReturnSig as r:
                outcome, value = 'return', r.value
            except CutSig:
                outcome = 'cut'
            except Infeasible:
                skip = True
            except EngineError:
                self.reads = outer_reads
                self.solver.pop()
                self.ctxs.pop()
                self.depth = depth
                self._rollback(mark, cmark)
                del self.created[cmark:]
                del self.assumptions[amark:]
                del self.bound[bmark:]
                if frame is not None:
                    frame.locals.clear()
                    frame.locals.update(snapshot)
                raise
            except Exception as e:
                outcome, value = 'raise', e
            self.depth = depth
            reads, self.reads = self.reads, outer_reads
            for k, (o, c) in reads.items():
                if c > 0:
                    self.mark_read(o)
            if not skip:
                effects = self._effects(mark, cmark)
                finals = dict(frame.locals) if frame is not None else None
                paths.append(Path(list(ctx.conds), list(ctx.extra), outcome, value, effects, finals))
                paths[-1].assumed = list(self.assumptions[amark:])
                paths[-1].trace = None if self.trace is None else list(self.trace)
                paths[-1].reads = {k for k, (o, c) in reads.items() if c > 0}
            self._rollback(mark, cmark)
            del self.created[cmark:]
            del self.assumptions[amark:]
            del self.bound[bmark:]
            if frame is not None:
                frame.locals.clear()
                frame.locals.update(snapshot)
            self.solver.pop()
            self.ctxs.pop()
            stack.extend(ctx.pending)
            if len(paths) > max_paths:
                raise Unsupported('too many paths')
        return paths

    def _rollback(self, mark, cmark):
        fresh = {id(o) for o in self.created[cmark:]}
        while len(self.trail) > mark:
            kind, obj, undo = self.trail.pop()
            if id(obj) in fresh:
                continue
            if kind in ('append', 'prefix'):
                del obj[undo:]
            else:
                undo()

    def mark_read(self, obj, n=1):
        k = id(obj)
        c = self.reads.get(k)
        self.reads[k] = (obj, n if c is None else c[1] + n)

    def ev_receiver(self, e, frame):
        """Value that is only appended to: does not count as reading the list."""
        v = self.ev(e, frame)
        if isinstance(v, list) and isinstance(e, (ast.Name, ast.Attribute, ast.Subscript)):
            self.mark_read(v, -1)
        return v

    def _effects(self, mark, cmark):
        fresh = {id(o) for o in self.created[cmark:]}
        eff = {}
        for kind, obj, undo in self.trail[mark:]:
            if id(obj) in fresh or kind == 'prefix':
                continue
            if kind != 'append':
                eff.setdefault('other', []).append((kind, obj))
                continue
            if id(obj) not in eff:
                eff[id(obj)] = (obj, undo)
        out = []
        for k, v in eff.items():
            if k == 'other':
                out.append(('other', v, None))
            else:
                obj, n0 = v
                out.append(('append', obj, list(list.__getitem__(obj, slice(n0, None)))))
        return out

    def new(self, obj):
        if self.ctxs:
            self.created.append(obj)
        return obj

    # mutations -----------------------------------------------------------------
    def list_extend(self, lst, items):
        self.trail.append(('append', lst, len(lst)))
        list.extend(lst, items)

    def mutate(self, obj, undo):
        self.trail.append(('set', obj, undo))

    def set_attr(self, obj, name, value):
        d = getattr(obj, '__dict__', None)
        if d is not None and name in d:
            old = d[name]
            self.mutate(obj, lambda: object.__setattr__(obj, name, old))
        else:
            def undo():
                try:
                    object.__delattr__(obj, name)
                except AttributeError:
                    pass
            self.mutate(obj, undo)
        setattr(obj, name, value)

    # ------------------------------------------------------------------ functions
    def callable(self, f):
        """A natively callable version of f that is interpreted when f comes from /repo."""
        if isinstance(f, IFunc):
            return f
        if self.interpretable(f):
            r = lambda *a, **k: self.call(f, a, k)
            r.__name__ = getattr(f, '__name__', '<lambda>')
            return r
        return f

    def interpretable(self, f):
        if isinstance(f, types.MethodType):
            f = f.__func__
        if isinstance(f, IFunc):
            return True
        return isinstance(f, types.FunctionType) and f.__code__.co_filename.startswith(REPO)

    def wrap(self, f):
        """IFunc for a native function of /repo."""
        code = f.__code__
        r = self._wrapcache.get(f)
        if r is not None:
            return r
        idx = _index_file(code.co_filename)
        node = idx.get((code.co_name, code.co_firstlineno))
        if isinstance(node, list):
            cands = [n for n in node if FakeCode(n).co_varnames == code.co_varnames[:len(FakeCode(n).co_varnames)]
                     and len(n.args.args) == code.co_argcount]
            if len(cands) != 1:
                col = getattr(code, 'co_positions', None)
                pos = [p for p in code.co_positions() if p[2] is not None]
                cands2 = [n for n in cands if any(p[0] == n.body.lineno and p[2] == n.body.col_offset for p in pos)]
                cands = cands2 or cands
            if len(cands) != 1:
                raise Unsupported(f'ambiguous lambda at {code.co_filename}:{code.co_firstlineno}')
            node = cands[0]
        if node is None:
            raise Unsupported(f'source of {code.co_qualname} not found')
        parent = None
        cls = None
        if f.__closure__:
            parent = Frame(None, f.__globals__, None, None)
            parent.names = set(code.co_freevars)
            for name, cell in zip(code.co_freevars, f.__closure__):
                try:
                    parent.locals[name] = cell.cell_contents
                except ValueError:
                    pass
                if name == '__class__':
                    cls = cell.cell_contents
        mod = f.__module__.split('.')[-1]
        r = IFunc(self, node, f.__globals__, parent, f'{mod}.{code.co_qualname}', f.__defaults__ or (), f.__kwdefaults__ or {}, cls)
        self._wrapcache[f] = r
        return r

    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, functools.partial):
            return self.call(f.func, tuple(f.args) + tuple(args), {**f.keywords, **kwargs})
        if isinstance(f, types.MethodType):
            if self.interpretable(f):
                return self.call(f.__func__, (f.__self__,) + tuple(args), kwargs)
            return self.call_native(f, args, kwargs)
        if isinstance(f, IFunc):
            return self.call_ifunc(f, args, kwargs)
        if isinstance(f, types.FunctionType) and f.__code__.co_filename.startswith(REPO):
            if getattr(f, '__wrapped__', None) is not None:
                pass
            return self.call_ifunc(self.wrap(f), args, kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        return self.call_native(f, args, kwargs)

    def instantiate(self, cls, args, kwargs):
        hook = self.class_hooks.get(cls)
        if hook is not None:
            return hook(self, *args, **kwargs)
        if cls in self.intercepts:
            return self.intercepts[cls](self, *args, **kwargs)
        if issubclass(cls, enum.Enum) and len(args) == 1 and isinstance(args[0], (SInt, SBool)):
            for m in cls:
                if self.truth(args[0] == m.value):
                    return m
            raise ValueError(f'{args[0]!r} is not a valid {cls.__qualname__}')
        init = cls.__init__
        if isinstance(init, types.FunctionType) and init.__code__.co_filename.startswith(REPO) \
                and cls.__new__ is object.__new__ or (isinstance(init, types.FunctionType)
                                                      and init.__code__.co_filename.startswith(REPO)
                                                      and getattr(cls.__new__, '__module__', '') == 'typing'):
            obj = cls.__new__(cls)
            self.new(obj)
            self.call(init, (obj,) + tuple(args), kwargs)
            return obj
        r = self.call_native(cls, args, kwargs)
        return self.new(r)

    def call_ifunc(self, f, args, kwargs):
        contract = self.contracts.get(f.qualname)
        self.functions[f.qualname] = self.functions.get(f.qualname, 0) + 1
        if contract is not None and not getattr(contract, 'suspended', False):
            return contract(self, f, args, kwargs)
        if isinstance(f.node, ast.AsyncFunctionDef):
            if f.info.is_gen:
                raise Unsupported('asynchronous generator')
            return Coroutine(f, args, kwargs)
        return self.run_body(f, args, kwargs)

    def run_body(self, f, args, kwargs):
        self.depth += 1
        if self.depth > 300:
            raise Unsupported('recursion too deep')
        frame = Frame(f.parent, f.globals, f.info, f)
        self.bind_args(f, frame, args, kwargs)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, frame)
            if f.info.is_gen:
                frame.yields = self.new([])
                try:
                    self.exec_block(f.node.body, frame)
                except ReturnSig:
                    pass
                self.generated = [frame.yields]
                return frame.yields
            try:
                self.exec_block(f.node.body, frame)
            except ReturnSig as r:
                return r.value
            return None
        finally:
            self.depth -= 1

    def bind_args(self, f, frame, args, kwargs):
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        if len(args) > len(params) and not a.vararg:
            raise TypeError(f'{f.qualname}() takes {len(params)} positional arguments but {len(args)} were given')
        kwargs = dict(kwargs)
        loc = frame.locals
        for p, v in zip(params, args):
            if p in kwargs:
                raise TypeError(f'{f.qualname}() got multiple values for argument {p!r}')
            if isinstance(v, Fam):
                raise Unsupported('a list of symbolic length given as arguments')
            loc[p] = v
        if a.vararg:
            loc[a.vararg.arg] = tuple(args[len(params):])
        for i, p in enumerate(params[len(args):], len(args)):
            if p in kwargs:
                loc[p] = kwargs.pop(p)
            else:
                d = i - (len(params) - len(f.defaults))
                if d < 0:
                    raise TypeError(f'{f.qualname}() missing argument {p!r}')
                loc[p] = f.defaults[d]
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                loc[x.arg] = kwargs.pop(x.arg)
            elif x.arg in f.kwdefaults:
                loc[x.arg] = f.kwdefaults[x.arg]
            else:
                raise TypeError(f'{f.qualname}() missing keyword argument {x.arg!r}')
        if a.kwarg:
            loc[a.kwarg.arg] = kwargs
        elif kwargs:
            raise TypeError(f'{f.qualname}() got an unexpected keyword argument {next(iter(kwargs))!r}')

    def call_native(self, f, args, kwargs):
        h = None
        try:
            h = self.intercepts.get(f)
        except TypeError:
            pass
        if h is not None:
            return h(self, *args, **kwargs)
        s = getattr(f, '__self__', None)
        name = getattr(f, '__name__', '')
        if s is not None and isinstance(s, (list, dict, set)) and not isinstance(s, type):
            return self.container_method(s, name, f, args, kwargs)
        if isinstance(s, types.ModuleType) or s is None:
            if any(has_fam(a) or isinstance(a, SymArray2D) and not hasattr(f, '_implementation') for a in args):
                if not getattr(f, '__pyvc_native__', False) and not (isinstance(f, type) and hasattr(f, '_fields')):
                    raise Unsupported(f'native call {f!r} on a symbolic-length list')
        args = [self.callable(a) if self.interpretable(a) else a for a in args]
        r = f(*args, **kwargs)
        if f in _FRESH_NP:
            self.new(r)
        return r

    def container_method(self, s, name, f, args, kwargs):
        if isinstance(s, list):
            if name == 'append':
                if type(s).append is not list.append:
                    pass
                self.list_extend(s, [args[0]])
                return None
            if name == 'extend':
                self.list_extend(s, self.to_items(args[0]))
                return None
            if name == 'copy':
                return self.new(list(s))
            if name in ('index', 'count') :
                if has_sym(s) or has_sym(args):
                    raise Unsupported('list.%s on symbolic' % name)
                return f(*args)
            if name in ('pop', 'insert', 'remove', 'sort', 'reverse', 'clear'):
                tail = name == 'pop' and (not args or args == (-1,) or args == [-1]) and s and not isinstance(s[-1], Fam)
                if has_fam(s) and name in ('sort', 'reverse') and self.permutations is not None:
                    old = list(s)

                    def undo():
                        s[:] = old
                    new = _permuted(self, old, **kwargs)
                    self.mutate(s, undo)
                    s[:] = new
                    return None
                if has_fam(s) and not tail:
                    raise Unsupported(f'list.{name} on a symbolic-length list')
                old = list(s)

                def undo():
                    s[:] = old
                self.mutate(s, undo)
                return f(*args, **kwargs)
        elif isinstance(s, dict):
            if name in ('update', 'pop', 'setdefault', 'clear', 'popitem'):
                old = dict(s)

                def undo():
                    s.clear()
                    s.update(old)
                self.mutate(s, undo)
                return f(*args, **kwargs)
            if name == 'copy':
                return self.new(f())
            if name == 'get' and has_sym(args[:1]):
                raise Unsupported('symbolic dict key')
        elif isinstance(s, set):
            if name in ('add', 'update', 'remove', 'discard', 'pop', 'clear', 'difference_update'):
                old = set(s)

                def undo():
                    s.clear()
                    s.update(old)
                self.mutate(s, undo)
                return f(*args, **kwargs)
            if name == 'copy':
                return self.new(f())
        return f(*args, **kwargs)

    # ------------------------------------------------------------------ symbolic sequences
    def to_items(self, it):
        """Items (possibly with families) of an iterable value."""
        if isinstance(it, (list, tuple)):
            return list(it)
        if isinstance(it, SymIter):
            return [it.fam(self)]
        if hasattr(it, '__pyvc_items__'):
            return it.__pyvc_items__(self)
        if isinstance(it, (dict, set, frozenset, str, range, types.GeneratorType, np.ndarray)) or hasattr(it, '__iter__') \
                or hasattr(it, '__next__'):
            return list(it)
        if isinstance(it, (SInt, SBool, Lit)) or it is None or isinstance(it, (int, float)):
            raise TypeError(f'{type(it).__name__!r} object is not iterable')
        raise Unsupported(f'iteration over {type(it)}')

    def seq_len(self, it):
        if isinstance(it, SymIter):
            return mkint(it.n)
        if isinstance(it, (list, tuple)):
            n = z3.IntVal(0)
            conc = 0
            symb = False
            for o in it:
                if isinstance(o, Fam):
                    n = n + self.fam_length(o)
                    symb = True
                else:
                    conc += 1
            return mkint(n + conc) if symb else conc
        if isinstance(it, SymArray2D):
            return it.shape[0]
        return len(it)

    def fam_length(self, o):
        sizes = {len(its) for _, its in o.alts}
        if o.width is None and o.lo is not None and len(o.vars) == 1 and len(sizes) == 1 and not any(isinstance(i, Fam) for _, its in o.alts for i in its):
            # the same number of items in every case, and the cases leave nothing out
            self.solver.push()
            self.solver.add(o.guard, z3.Not(z3.Or([c for c, _ in o.alts])))
            r = self.solver.check()
            self.solver.pop()
            if r == z3.unsat:
                n = z3.simplify(o.hi - o.lo)
                return z3.simplify(z3.If(n >= 0, n, 0) * sizes.pop())
        return o.length()

    def seq_get(self, it, k):
        """Element k (int or SInt, may be negative when concrete) of a sequence."""
        if isinstance(it, SymIter):
            n = it.n
            t = iterm(k)
            if self.decide(t < 0):
                t = t + n
            if not self.decide(z3.And(t >= 0, t < n)):
                raise IndexError('list index out of range')
            return it.get(z3.simplify(t))
        if not has_fam(it):
            if isinstance(k, SInt):
                n = len(it)
                if self.decide(k.t < 0):
                    k = mkint(k.t + n)
                    if isinstance(k, int):
                        return it[k]
                for j in range(n):
                    if self.decide(k.t == j):
                        return it[j]
                raise IndexError('list index out of range')
            return it[k]
        if isinstance(k, int) and k >= 0:
            for j, o in enumerate(it):
                if isinstance(o, Fam):
                    break
                if j == k:
                    return o
        if isinstance(k, int) and k < 0:
            for j, o in enumerate(reversed(it), 1):
                if isinstance(o, Fam):
                    break
                if -j == k:
                    return o
        t = iterm(k)
        n = iterm(self.seq_len(it))
        if self.decide(t < 0):
            t = t + n
        off = z3.IntVal(0)
        if not self.decide(z3.And(t >= 0, t < n)):
            raise IndexError('list index out of range')
        for o in it:
            if isinstance(o, Fam):
                ln = o.length()
                if self.decide(t < off + ln):
                    return o.at(z3.simplify(t - off))
                off = off + ln
            else:
                if self.decide(t == off):
                    return o
                off = off + 1
        raise IndexError('list index out of range')

    def seq_slice(self, it, lo, hi, step):
        if isinstance(it, SymIter):
            it = [it.fam(self)]
        if not has_fam(it) and not any(isinstance(v, SInt) for v in (lo, hi, step)):
            return self.new(it[lo:hi:step]) if isinstance(it, list) else it[lo:hi:step]
        if step not in (None, 1):
            raise Unsupported('stepped slice of a symbolic-length list')
        n = iterm(self.seq_len(it))

        def clip(v, default):
            if v is None:
                return default
            t = iterm(v)
            if self.decide(t < 0):
                t = t + n
                if self.decide(t < 0):
                    return z3.IntVal(0)
            if self.decide(t > n):
                return n
            return z3.simplify(t)
        a, b = clip(lo, z3.IntVal(0)), clip(hi, n)
        out = []
        off = z3.IntVal(0)
        for o in it:
            if isinstance(o, Fam):
                ln = o.length()
                l, h = z3.simplify(a - off), z3.simplify(b - off)
                l = z3.IntVal(0) if not self.decide(l > 0) else l
                h = ln if not self.decide(h < ln) else h
                if self.decide(h > l):
                    if not self.feasible(h - l != 1):
                        out.append(o.at(l))
                        off = z3.simplify(off + ln)
                        continue
                    v = self.fresh_bvar('s')
                    e = o.at(v)
                    # element v of o, v in [l, h)
                    out.append(Fam([v], z3.And(l <= v, v < h), [(sym.TRUE, [e])], z3.simplify(l), z3.simplify(h)))
                off = z3.simplify(off + ln)
            else:
                if self.decide(z3.And(off >= a, off < b)):
                    out.append(o)
                off = z3.simplify(off + 1)
        return self.new(out) if isinstance(it, list) else tuple(out)

    def build_array(self, func, axes):
        if len(axes) != 2:
            raise Unsupported('array rank')
        h, w = axes[0], axes[1]
        iv, jv = self.fresh_bvar('ai'), self.fresh_bvar('aj')

        def run():
            self.bound += [iv, jv]
            self.assume(z3.And(0 <= iv, iv < iterm(h.stop), 0 <= jv, jv < iterm(w.stop)))
            return self.call(func, (SInt(iv), SInt(jv)))
        paths = self.explore(run)
        if len(paths) != 1 or paths[0].outcome != 'normal' or paths[0].effects:
            bad = [p for p in paths if p.outcome == 'raise']
            if bad and len(paths) == 1:
                raise bad[0].value
            raise Unsupported(f'array constructor with several paths or effects {[(p.outcome, p.value, p.effects) for p in paths]}')
        return SymArray2D(h.stop, w.stop, iv, jv, paths[0].value)

    # ------------------------------------------------------------------ loops
    def branches(self, frame, item, bind_body):
        return len(self.explore(lambda: bind_body(item), frame)) > 1

    def loop(self, frame, items, bind_body, assigned, orelse=None, ordered=True, merge=False):
        """Iterate over items; bind_body(item) binds the target and executes the body.  Returns normally at the end."""
        for n, item in enumerate(items):
            if isinstance(item, Fam):
                self.sym_loop(frame, item, bind_body, assigned)
            elif isinstance(item, LazyElem):
                self.sym_loop(frame, item.fam(self), bind_body, assigned)
            elif merge and self.merge_concrete and self.bound and len(items) > 1 and self.branches(frame, item, bind_body):
                # join the paths of this iteration instead of multiplying them with those of the next
                self.sym_loop(frame, Fam([], sym.TRUE, [(sym.TRUE, [item])]), bind_body, assigned)
            else:
                try:
                    bind_body(item)
                except ContinueSig:
                    pass

    def mark_oneshot(self, f):
        if isinstance(f, Fam):
            self.oneshot.add(f)
            for _, its in f.alts:
                for i in its:
                    self.mark_oneshot(i)

    def sym_loop(self, frame, fam, bind_body, assigned):
        token = LoopToken(self.fresh_prefix())
        pre = dict(frame.locals)
        carried = {}
        prefixes = []
        for attempt in range(8):
            try:
                paths, vs, guard = self._run_generic(frame, fam, bind_body, assigned, token, carried, prefixes=prefixes)
                bad = self._verify_carried(paths, vs, fam, carried, guard)
                if bad is None:
                    if self._list_carried(paths, vs, guard, fam, prefixes):
                        continue
                    break
                if 'guess2' in carried[bad]:
                    carried[bad]['next'] = carried[bad].pop('guess2')
                    continue
                if self._counted(paths, vs, fam, carried[bad], bad):
                    continue
                raise Unsupported(f'loop-carried variable {bad!r} not inferred')
            except CarriedRead as e:
                if e.poison.loop is not token or e.poison.name in carried:
                    raise
                name = e.poison.name
                if len(fam.vars) != 1 or fam.lo is None:
                    raise Unsupported(f'loop-carried variable {name!r} over a non-indexed family')
                if name not in pre or isinstance(pre[name], Poison):
                    raise Unsupported(f'variable {name!r} read before assignment in a symbolic loop')
                if isinstance(pre[name], LateValue):
                    pre[name] = pre[name].get()
                carried[name] = dict(init=pre[name], next=None)
                inv = self.invariants.get((frame.func.qualname if frame.func else None, name))
                if inv is not None:
                    # annotated loop invariant: value after k iterations
                    kv = self.fresh_bvar('k')
                    carried[name].update(vars=[kv], next=inv(self, kv - fam.lo + 1))
                    if not self.equal(pre[name], inv(self, z3.IntVal(0)), []):
                        raise Unsupported(f'loop invariant of {name!r} does not hold initially')
                    continue
                self._guess(frame, fam, bind_body, assigned, token, carried, name)
        else:
            raise Unsupported('loop-carried variables not inferred')
        self._merge(frame, fam, paths, vs, guard, assigned, token, carried, pre)

    def _list_carried(self, paths, vs, guard, fam, prefixes):
        """Lists that the loop both appends to and reads: every iteration sees what the earlier ones appended.  Records what
        an iteration appends (the prefix then put in place at the start of the generic iteration); true if another run is
        needed."""
        again = False
        targets = []
        for p in paths:
            for kind, obj, items in p.effects:
                if kind == 'append' and not any(o is obj for o in targets) and (any(o is obj for o, *_ in prefixes) or any(id(obj) in q.reads for q in paths)):
                    targets.append(obj)
        for obj in targets:
            alts = []
            for p in paths:
                its = [i for k, o, i in p.effects if k == 'append' and o is obj]
                if p.extra:
                    raise Unsupported('list read and appended to in a loop with early exits')
                if p.outcome == 'normal' and its:
                    alts.append((p.cond, its[0]))
            old = next((q for q in prefixes if q[0] is obj), None)
            if old is None:
                if len(fam.vars) != 1 or fam.lo is None:
                    raise Unsupported('list read and appended to over a non-indexed family')
                prefixes.append((obj, vs, guard, alts))
                again = True
                continue
            pairs = list(zip(old[1], vs))
            want = [(z3.substitute(c, *pairs), subst(its, pairs)) for c, its in old[3]]
            if len(want) != len(alts) or any(not z3.simplify(a).eq(z3.simplify(b)) or not same(i, j) for (a, i), (b, j) in zip(want, alts)):
                raise Unsupported('what a loop appends to a list depends on the list')
        return again

    def _guess(self, frame, fam, bind_body, assigned, token, carried, name):
        # first iteration: what does the body leave in `name`?
        paths, vs, guard = self._run_generic(frame, fam, bind_body, assigned, token, carried, first=True)
        vals = [p.finals.get(name) for p in paths if p.outcome == 'normal' and self._continues(p, vs, fam, guard)] \
            or [p.finals.get(name) for p in paths if p.outcome == 'normal']
        if not vals:
            raise Unsupported(f'loop-carried variable {name!r}')
        v = vals[0]
        init = carried[name]['init']
        carried[name]['vars'] = vs
        if isinstance(init, (int, SInt)) and not isinstance(init, bool) and isinstance(v, (int, SInt)):
            step = mkint(iterm(v) - iterm(init))
            if isinstance(step, int):
                # counter
                carried[name]['next'] = mkint(iterm(init) + step * (vs[0] - fam.lo + 1))
                carried[name]['guess2'] = v
                return
        carried[name]['next'] = v

    def _run_generic(self, frame, fam, bind_body, assigned, token, carried, first=False, prefixes=()):
        vs = [self.fresh_bvar(str(v).split('!')[0]) for v in fam.vars]
        pairs = list(zip(fam.vars, vs))
        guard = z3.substitute(fam.guard, *pairs) if pairs else fam.guard
        alts = [(z3.substitute(c, *pairs), subst(its, pairs)) for c, its in fam.alts] if pairs else fam.alts
        rebound = assigned.rebound if isinstance(assigned, Assigned) else lambda n, v: True

        def run():
            for nm in assigned:
                if nm in frame.locals and nm not in carried and rebound(nm, frame.locals[nm]):
                    frame.locals[nm] = Poison(nm, token)
            self.bound += vs
            self.assume(guard)
            if first:
                self.assume(vs[0] == fam.lo)
            for obj, pvs, pguard, palts in prefixes:
                w = self.fresh_bvar(str(pvs[0]).split('!')[0])
                sb = [(pvs[0], w)]
                self.trail.append(('prefix', obj, len(obj)))
                list.extend(obj, [Fam([w], z3.And(z3.substitute(pguard, *sb), w < vs[0]), [(z3.substitute(c, *sb), subst(its, sb)) for c, its in palts], fam.lo, vs[0])])
            for nm, c in carried.items():
                if first or (c['next'] is None):
                    frame.locals[nm] = c['init']
                elif 'count' in c:
                    frame.locals[nm] = mkint(z3.simplify(iterm(c['init']) + c['count'][0](vs[0])))
                elif self.decide(vs[0] == fam.lo):
                    frame.locals[nm] = c['init']
                else:
                    frame.locals[nm] = subst(c['next'], [(c['vars'][0], vs[0] - 1)])
            for c, its in alts:
                if z3.is_true(c) or self.decide(c):
                    its = [i.value(self) if isinstance(i, Thunk) else i for i in its]
                    if fam in self.oneshot:
                        # element of a generator nobody else holds: arrays in it belong to this iteration
                        for i in its:
                            self.mark_oneshot(i)
                        its = [self.new(i.copy()) if isinstance(i, np.ndarray) and i.dtype == object else i for i in its]
                    self.loop(frame, its, bind_body, assigned)
                    return
        # the same names in every attempt at this loop, so that values of an earlier attempt can be recognised
        paths = self.explore(run, frame, prefix=token.prefix)
        return paths, vs, guard

    def _counted(self, paths, vs, fam, c, name):
        """A number that every iteration increases by a constant which depends on the case: its value is that of a prefix sum,
        a new function with value 0 at the start and the increase of iteration k between k and k + 1."""
        if 'count' in c or not isinstance(c['init'], (int, SInt)) or isinstance(c['init'], bool):
            return False
        v = vs[0]
        start = iterm(subst(c['next'], [(c['vars'][0], z3.simplify(v - 1))])) if isinstance(c['next'], (int, SInt)) else None
        if start is None:
            return False
        steps = []
        for p in paths:
            if p.outcome == 'normal':
                new = p.finals.get(name)
                if not isinstance(new, (int, SInt)):
                    return False
                d = z3.simplify(iterm(new) - start)
                if not z3.is_int_value(d):
                    return False
                steps.append((p.cond, d.as_long()))
        if self.bound:
            return False        # inside another loop the sum would depend on that loop's iteration
        f = z3.Function(self.fresh_name(f'sum {name}'), z3.IntSort(), z3.IntSort())
        total = z3.IntVal(0)
        for cond, d in steps:
            total = total + z3.If(cond, z3.IntVal(d), 0)
        step = lambda t: z3.substitute(total, (v, t))
        init = iterm(c['init'])
        lo = fam.lo
        j, k = z3.Ints('j? k?')
        facts = [f(lo) == 0]
        if all(d >= 0 for _, d in steps):
            facts.append(z3.ForAll([j, k], z3.Implies(z3.And(lo <= j, j < k), f(j) + step(j) <= f(k)), patterns=[z3.MultiPattern(f(j), f(k))]))
            facts.append(z3.ForAll([k], z3.Implies(k >= lo, f(k) >= 0), patterns=[f(k)]))
        self.background[f'sum {f.name()}'] = z3.And(facts)
        self.sums.append((f, lo, step))
        c.clear()
        kv = self.fresh_bvar('k')
        c.update(init=mkint(init), vars=[kv], next=mkint(init + f(kv + 1)), count=(f, step))
        return True

    def _verify_carried(self, paths, vs, fam, carried, guard):
        extra = []
        for nm, c in carried.items():
            if 'count' in c:
                f, step = c['count']
                extra.append(f(vs[0] + 1) == f(vs[0]) + step(vs[0]))
        guard = z3.And([guard] + extra) if extra else guard
        for nm, c in carried.items():
            want = subst(c['next'], [(c['vars'][0], vs[0])])
            for p in paths:
                if p.outcome != 'normal':
                    continue
                if not self.equal(p.finals.get(nm), want, [guard, p.cond]):
                    if self._continues(p, vs, fam, guard):
                        return nm
                    # only the last iteration leaves something else: no later iteration sees it
                    c['last'] = True
        return None

    def equal(self, a, b, conds):
        if same(a, b):
            return True
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            self.solver.push()
            self.solver.add(*conds, sym.bterm(a) != sym.bterm(b))
            r = self.solver.check()
            self.solver.pop()
            return r == z3.unsat
        if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)) and not isinstance(a, bool) and not isinstance(b, bool):
            self.solver.push()
            self.solver.add(*conds, iterm(a) != iterm(b))
            r = self.solver.check()
            self.solver.pop()
            return r == z3.unsat
        return False

    def _continues(self, p, vs, fam, guard):
        """Can another iteration follow one that took path p?"""
        if fam.hi is None or not vs:
            return True
        self.solver.push()
        self.solver.add(guard, p.cond, vs[0] + 1 < z3.substitute(fam.hi, *zip(fam.vars, vs)))
        r = self.solver.check()
        self.solver.pop()
        return r != z3.unsat

    def _merge(self, frame, fam, paths, vs, guard, assigned, token, carried, pre):
        if any(p.outcome == 'cut' for p in paths):
            raise Unsupported('while loop in a symbolic loop')
        exits = [p for p in paths if p.outcome != 'normal']
        normal = [p for p in paths if p.outcome == 'normal']
        for p in paths:
            for kind, obj, items in p.effects:
                if kind != 'append':
                    raise Unsupported(f'update of outer state {[type(o).__name__ for _, o in obj]} in a symbolic loop')
        pairs = list(zip(fam.vars, vs))
        lo = None if fam.lo is None else z3.substitute(fam.lo, *pairs)
        hi = None if fam.hi is None else z3.substitute(fam.hi, *pairs)

        def emit(extra_guard=None, hi2=None):
            targets = []
            for p in normal:
                for kind, obj, items in p.effects:
                    if not any(o is obj for o in targets):
                        targets.append(obj)
            for obj in targets:
                alts = []
                evars = []
                for p in normal:
                    its = [i for k, o, i in p.effects if o is obj]
                    if its:
                        alts.append((p.cond, its[0]))
                        evars += p.extra
                g = guard if extra_guard is None else z3.And(guard, extra_guard)
                h = hi if hi2 is None else hi2
                if evars:
                    self.list_extend(obj, [Fam(vs + evars, g, alts)])
                else:
                    self.list_extend(obj, [Fam(vs, g, alts, lo, h)])

        def after(last=None):
            for nm in assigned:
                if isinstance(assigned, Assigned) and nm in pre and not assigned.rebound(nm, pre[nm]):
                    continue
                if True:
                    if nm in carried:
                        c = carried[nm]
                        if lo is None or c.get('last'):
                            frame.locals[nm] = Poison(nm, None)
                        elif last is not None:
                            frame.locals[nm] = Poison(nm, None)
                        else:
                            # value after the loop: init if empty else value of the last iteration
                            frame.locals[nm] = LateValue(self, fam, c)
                    elif nm in pre or True:
                        if all(nm in p.finals for p in normal) and normal and nm in pre \
                                and all(p.finals[nm] is pre[nm] for p in normal):
                            continue
                        frame.locals[nm] = Poison(nm, None)

        if not exits:
            emit()
            after()
            return
        if len(vs) != 1 or lo is None:
            if all(p.outcome == 'raise' for p in exits):
                t = z3.Exists(vs, z3.And(guard, z3.Or([p.cond for p in exits])))
                if not self.decide(t):
                    emit()
                    after()
                    return
                raise exits[0].value
            raise Unsupported('early exit from a non-indexed symbolic loop')
        v = vs[0]
        brk = z3.simplify(z3.Or([p.cond for p in exits]))
        noexit = z3.ForAll([v], z3.Implies(guard, z3.Not(brk)))
        if not z3.is_true(brk) or True:
            none = self.decide_quant(noexit, v, guard, brk, lo, hi)
        if none:
            emit()
            after()
            return
        j = self.fresh_bvar('j')
        self.ctxs[-1].extra.append(j)
        sub = lambda t: z3.substitute(t, (v, j))
        first = z3.And(sub(guard), sub(brk), z3.ForAll([v], z3.Implies(z3.And(guard, v < j), z3.Not(brk))))
        self.ctxs[-1].conds.append(first)
        self.assume(first)
        for q in [z3.substitute(z3.Implies(z3.And(guard, v < j), z3.Not(brk)), (v, t)) for t in (lo, j - 1)]:
            self.solver.add(q)
        if normal:
            emit(v < j, j)
        after(True)
        for n, p in enumerate(exits):
            if n == len(exits) - 1 or self.decide(sub(p.cond)):
                for kind, obj, items in p.effects:
                    self.list_extend(obj, subst(items, [(v, j)]))
                self.ctxs[-1].extra += p.extra
                # bindings made by the exiting iteration
                for nm in assigned:
                    if nm in p.finals and not isinstance(p.finals[nm], Poison):
                        frame.locals[nm] = subst(p.finals[nm], [(v, j)])
                if p.outcome == 'break':
                    raise BreakSig()
                if p.outcome == 'return':
                    raise ReturnSig(subst(p.value, [(v, j)]))
                raise p.value
        raise Infeasible()

    def decide_quant(self, noexit, v, guard, brk, lo, hi):
        r = self.decide(noexit)
        if r:
            # useful ground instances
            for t in (lo, hi - 1):
                self.solver.add(z3.substitute(z3.Implies(guard, z3.Not(brk)), (v, t)))
        return r

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, frame):
        for s in stmts:
            self.exec(s, frame)

    def exec(self, s, frame):
        self.fuel -= 1
        if self.fuel < 0:
            raise Unsupported('fuel exhausted')
        getattr(self, 'x_' + type(s).__name__, self.x_unsupported)(s, frame)

    def x_unsupported(self, s, frame):
        raise Unsupported(f'statement {type(s).__name__}')

    def x_Expr(self, s, frame):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, frame)

    def x_Pass(self, s, frame):
        pass

    def x_Break(self, s, frame):
        raise BreakSig()

    def x_Continue(self, s, frame):
        raise ContinueSig()

    def x_Return(self, s, frame):
        raise ReturnSig(None if s.value is None else self.ev(s.value, frame))

    def x_Assign(self, s, frame):
        v = self.ev(s.value, frame)
        for t in s.targets:
            self.assign(t, v, frame)

    def x_AnnAssign(self, s, frame):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, frame), frame)

    def x_AugAssign(self, s, frame):
        t = s.target
        if isinstance(t, ast.Name):
            load = ast.copy_location(ast.Name(t.id, ast.Load()), t)
            cur = self.ev_receiver(load, frame)
            new = self.augop(s.op, cur, self.ev(s.value, frame))
            self.assign(t, new, frame)
        elif isinstance(t, ast.Attribute):
            obj = self.ev(t.value, frame)
            cur = self.getattr(obj, t.attr)
            new = self.augop(s.op, cur, self.ev(s.value, frame))
            if new is not cur:
                self.set_attr(obj, t.attr, new)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value, frame)
            idx = self.ev_index(t.slice, frame)
            cur = self.getitem(obj, idx)
            new = self.augop(s.op, cur, self.ev(s.value, frame))
            if new is not cur or not isinstance(cur, list):
                self.setitem(obj, idx, new)
        else:
            raise Unsupported('augmented assignment target')

    def augop(self, op, cur, val):
        if isinstance(op, ast.Add) and isinstance(cur, list):
            if isinstance(val, (int, SInt, type(None))):
                raise TypeError('object is not iterable')
            self.list_extend(cur, self.to_items(val))
            return cur
        if isinstance(op, ast.BitOr) and isinstance(cur, set) and isinstance(val, (set, frozenset)):
            old = set(cur)

            def undo():
                cur.clear()
                cur.update(old)
            self.mutate(cur, undo)
            cur |= val
            return cur
        if isinstance(cur, ghost.SymSet):
            return cur.augmented(self, op, val)
        return self.binop(op, cur, val)

    def x_If(self, s, frame):
        if self.truth(self.ev(s.test, frame)):
            self.exec_block(s.body, frame)
        else:
            self.exec_block(s.orelse, frame)

    def x_Assert(self, s, frame):
        if not self.truth(self.ev(s.test, frame)):
            raise AssertionError(self.ev(s.msg, frame) if s.msg else None)

    def x_Raise(self, s, frame):
        if s.exc is None:
            if not self.handled:
                raise Unsupported('bare raise')
            raise self.handled[-1]
        e = self.ev(s.exc, frame)
        if isinstance(e, type):
            e = e()
        raise e

    def x_Global(self, s, frame):
        pass

    def x_Nonlocal(self, s, frame):
        pass

    def x_Import(self, s, frame):
        for a in s.names:
            mod = __import__(a.name)
            frame.locals[(a.asname or a.name).split('.')[0]] = mod

    def x_ImportFrom(self, s, frame):
        import importlib
        if s.level:
            base = frame.globals['__package__']
            mod = importlib.import_module('.' * s.level + (s.module or ''), base)
        else:
            mod = importlib.import_module(s.module)
        for a in s.names:
            frame.locals[a.asname or a.name] = getattr(mod, a.name)

    def x_FunctionDef(self, s, frame):
        if s.decorator_list:
            raise Unsupported('decorated nested function')
        frame.locals[s.name] = self.make_ifunc(s, frame)

    x_AsyncFunctionDef = x_FunctionDef

    def make_ifunc(self, node, frame):
        defaults = tuple(self.ev(d, frame) for d in node.args.defaults)
        kwd = {a.arg: self.ev(d, frame) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None}
        q = (frame.func.qualname if frame.func else '') + '.<locals>.' + getattr(node, 'name', '<lambda>')
        return IFunc(self, node, frame.globals, frame, q, defaults, kwd)

    def x_Delete(self, s, frame):
        for t in s.targets:
            if isinstance(t, ast.Name):
                frame.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                obj = self.ev(t.value, frame)
                idx = self.ev_index(t.slice, frame)
                if isinstance(obj, list):
                    if has_fam(obj):
                        raise Unsupported('del on symbolic-length list')
                    old = list(obj)

                    def undo():
                        obj[:] = old
                    self.mutate(obj, undo)
                    del obj[idx]
                elif isinstance(obj, dict):
                    old = dict(obj)

                    def undo():
                        obj.clear()
                        obj.update(old)
                    self.mutate(obj, undo)
                    del obj[idx]
                elif hasattr(obj, '__pyvc_delitem__'):
                    obj.__pyvc_delitem__(self, idx)
                else:
                    raise Unsupported('del')
            else:
                raise Unsupported('del')

    def x_For(self, s, frame):
        it = self.ev(s.iter, frame)
        items = self.iter_items(it)
        if frame.func is not None and frame.func.qualname in self.cut_for and has_fam(items) and (not isinstance(self.cut_for, dict) or self.cut_for[frame.func.qualname](items)):
            return self.for_cut(s, frame, items)
        if isinstance(s.iter, ast.Call) and any(it is g for g in self.generated):
            for f in items:
                self.mark_oneshot(f)
        assigned = self.assigned_names(s)

        def bind_body(item):
            if isinstance(item, Thunk):
                item = item.value(self)
            self.assign(s.target, item, frame)
            self.exec_block(s.body, frame)
        try:
            self.loop(frame, items, bind_body, assigned, merge=True)
        except BreakSig:
            return
        if s.orelse:
            self.exec_block(s.orelse, frame)

    def iter_items(self, it):
        if isinstance(it, SymIter):
            return [it.fam(self)]
        return self.to_items(it)

    _assigned_cache = {}

    def assigned_names(self, s):
        r = self._assigned_cache.get(id(s))
        if r is None or r[0] is not s:
            names = Assigned()

            def visit(n):
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    names.aug.add(n.target.id)
                    visit(n.value)
                    return
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    names.add(n.name)
                    return
                if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    return
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
                for c in ast.iter_child_nodes(n):
                    visit(c)
            visit(s)
            names.plain = set(names)
            names |= names.aug
            r = self._assigned_cache[id(s)] = (s, names)
        return r[1]

    def for_cut(self, s, frame, items):
        """One arbitrary iteration over symbolically many items (see while_cut).  The invariant is asked for the names assigned
        and told the item; it is asked with None for the state after the last iteration."""
        if len(items) != 1 or not isinstance(items[0], Fam) or not items[0].uniform or s.orelse:
            raise Unsupported('items of an arbitrary iteration')
        f = items[0]
        more = self.decide(self.fresh_bool('more'))
        item = None
        if more:
            t = z3.Int('item')
            lo, hi = f.lo, f.hi
            self.assume(z3.And(lo <= t, t < hi))
            item = f.at(t)
        inv, check, names = self.cut_enter(s, frame, 'for', item)
        if not more:
            return
        try:
            self.assign(s.target, item, frame)
            self.exec_block(s.body, frame)
        except BreakSig:
            check()
            return
        except ContinueSig:
            pass
        check()
        self.cut_again(frame, names)

    def cut_enter(self, s, frame, kind, *item):
        inv = self.invariants.get((frame.func.qualname if frame.func else None, kind))
        names = set(self.assigned_names(s))
        for n in ast.walk(s):
            r = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend', 'pop', 'insert', 'remove', 'clear', 'sort', 'reverse', 'update', 'add', 'discard', 'setdefault', 'popitem'):
                r = n.func.value
            elif isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load):
                r = n.value
            if isinstance(r, ast.Name) and isinstance(frame.locals.get(r.id), (list, dict, set)):
                names.add(r.id)
        if self.trace is not None:
            self.list_extend(self.trace, [('loop', {n: frame.locals.get(n) for n in names})])
        for nm in names:
            if nm in frame.locals:
                frame.locals[nm] = Poison(nm, None)
        if inv is not None:
            for nm, v in inv(self, frame, *item).items():
                frame.locals[nm] = v
        mark, cmark = len(self.trail), len(self.created)

        def check():
            fresh = {id(o) for o in self.created[cmark:]}
            for _, obj, undo in self.trail[mark:]:
                if id(obj) not in fresh and id(obj) not in self.ghosts and obj is not self.trace and obj is not frame.yields:
                    raise Unsupported(f'while loop changes {type(obj).__name__}')
        return inv, check, names

    def cut_again(self, frame, names):
        if self.trace is not None:
            self.list_extend(self.trace, [('again', {n: list(v) if isinstance(v, list) else v for n, v in ((n, frame.locals.get(n)) for n in names)})])
        raise CutSig()

    def while_cut(self, s, frame):
        """One arbitrary iteration: the names assigned in the body hold nothing that is known, and the state of outer objects
        changed by the body may not be read back.  The end of the body ends the path; leaving the loop goes on after it."""
        inv, check, names = self.cut_enter(s, frame, 'while')
        if not self.truth(self.ev(s.test, frame)):
            check()
            self.exec_block(s.orelse, frame)
            return
        try:
            self.exec_block(s.body, frame)
        except BreakSig:
            check()
            return
        except ContinueSig:
            pass
        check()
        self.cut_again(frame, names)

    def x_While(self, s, frame):
        if frame.func is not None and frame.func.qualname in self.cut_while:
            return self.while_cut(s, frame)
        n = 0
        while True:
            if not self.truth(self.ev(s.test, frame)):
                break
            try:
                self.exec_block(s.body, frame)
            except BreakSig:
                return
            except ContinueSig:
                pass
            n += 1
            if n > 5000:
                raise Unsupported('while loop')
        self.exec_block(s.orelse, frame)

    def x_With(self, s, frame):
        def run(items):
            if not items:
                self.exec_block(s.body, frame)
                return
            cm = self.ev(items[0].context_expr, frame)
            v = self.call(self.getattr(cm, '__enter__'))
            if items[0].optional_vars is not None:
                self.assign(items[0].optional_vars, v, frame)
            try:
                run(items[1:])
            except (CutSig, Infeasible, Unsupported):
                raise
            except EngineError:
                self.call(self.getattr(cm, '__exit__'), (None, None, None))
                raise
            except BaseException as e:
                if not self.call(self.getattr(cm, '__exit__'), (type(e), e, None)):
                    raise
            else:
                self.call(self.getattr(cm, '__exit__'), (None, None, None))
        run(s.items)

    def x_Try(self, s, frame):
        cut = False
        try:
            try:
                self.exec_block(s.body, frame)
            except EngineError:
                raise
            except BaseException as e:
                for h in s.handlers:
                    if h.type is None or isinstance(e, self.ev(h.type, frame)):
                        if h.name:
                            frame.locals[h.name] = e
                        self.handled.append(e)
                        try:
                            self.exec_block(h.body, frame)
                        finally:
                            self.handled.pop()
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, frame)
        except (CutSig, Infeasible, Unsupported):
            cut = True
            raise
        finally:
            if s.finalbody and not cut:
                self.exec_block(s.finalbody, frame)

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, frame):
        if isinstance(t, ast.Name):
            self.store(t.id, v, frame)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, frame)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.ev(t.value, frame), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, frame), self.ev_index(t.slice, frame), v)
        else:
            raise Unsupported('assignment target')

    def store(self, name, v, frame):
        f = frame
        if frame.info is not None and name in frame.info.nonlocals:
            f = frame.parent
            while f is not None and name not in f.locals:
                f = f.parent
            if f is None:
                raise Unsupported('nonlocal')
            old = f.locals[name]
            self.mutate(f, lambda: f.locals.__setitem__(name, old))
        elif frame.info is not None and name in frame.info.globals:
            raise Unsupported('global assignment')
        f.locals[name] = v

    def unpack(self, elts, v, frame):
        if any(isinstance(e, ast.Starred) for e in elts):
            items = self.to_items(v)
            k = next(i for i, e in enumerate(elts) if isinstance(e, ast.Starred))
            tail = len(elts) - k - 1
            if has_fam(items):
                raise Unsupported('starred unpacking of symbolic list')
            if len(items) < k + tail:
                raise ValueError('not enough values to unpack')
            for e, x in zip(elts[:k], items[:k]):
                self.assign(e, x, frame)
            self.assign(elts[k].value, self.new(items[k:len(items) - tail]), frame)
            for e, x in zip(elts[k + 1:], items[len(items) - tail:]):
                self.assign(e, x, frame)
            return
        items = self.to_items(v)
        if has_fam(items):
            n = self.seq_len(items)
            if not self.truth(n == len(elts)):
                raise ValueError('unpack')
            items = [self.seq_get(items, i) for i in range(len(elts))]
        if len(items) != len(elts):
            raise ValueError(f'expected {len(elts)} values to unpack, got {len(items)}')
        for e, x in zip(elts, items):
            self.assign(e, x, frame)

    def setitem(self, obj, idx, v):
        if isinstance(obj, list):
            if has_fam(obj) or isinstance(idx, SInt):
                raise Unsupported('item assignment in a symbolic-length list')
            old = list(obj)

            def undo():
                obj[:] = old
            self.mutate(obj, undo)
            obj[idx] = v
        elif isinstance(obj, dict):
            if has_sym((idx,)):
                raise Unsupported('symbolic dict key')
            if idx in obj:
                old = obj[idx]
                self.mutate(obj, lambda: obj.__setitem__(idx, old))
            else:
                self.mutate(obj, lambda: obj.pop(idx, None))
            obj[idx] = v
        elif isinstance(obj, np.ndarray):
            if has_sym(idx if isinstance(idx, tuple) else (idx,)):
                raise Unsupported('symbolic array index')
            old = obj.copy()

            def undo():
                obj[...] = old
            self.mutate(obj, undo)
            obj[idx] = v
        else:
            h = getattr(obj, '__pyvc_setitem__', None)
            if h is None:
                raise Unsupported(f'item assignment on {type(obj)}')
            h(self, idx, v)

    # ------------------------------------------------------------------ expressions
    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, (SBool, SInt)):
            return bool(v)
        if isinstance(v, Lit):
            return True
        if isinstance(v, (list, tuple)):
            if has_fam(v):
                if any(not isinstance(o, Fam) for o in v):
                    return True
                try:
                    return self.truth(self.seq_len(v) != 0)
                except Unsupported:
                    return self.decide(ghost.exists(v, lambda i: z3.BoolVal(True)))
            return len(v) > 0
        if isinstance(v, SymIter):
            return self.decide(v.n > 0)
        return bool(v)

    def ev(self, e, frame):
        return getattr(self, 'e_' + type(e).__name__, self.e_unsupported)(e, frame)

    def e_unsupported(self, e, frame):
        raise Unsupported(f'expression {type(e).__name__}')

    def e_Constant(self, e, frame):
        return e.value

    def e_Name(self, e, frame):
        v = self.lookup(e.id, frame)
        if isinstance(v, list) and self.ctxs:
            self.mark_read(v)
        return v

    def lookup(self, name, frame):
        f = frame
        if f.info is not None and name in f.info.assigned and name not in f.locals:
            # comprehension frames defer to parent
            raise UnboundLocalError(f"cannot access local variable '{name}'")
        while f is not None:
            if name in f.locals:
                v = f.locals[name]
                if isinstance(v, Poison):
                    if v.loop is None:
                        raise Unsupported(f'variable {name!r} read after a symbolic loop assigned it')
                    raise CarriedRead(v)
                if isinstance(v, LateValue):
                    v = v.get()
                    f.locals[name] = v
                return v
            f = f.parent
        if name in frame.globals:
            return frame.globals[name]
        b = frame.globals.get('__builtins__', builtins)
        if isinstance(b, dict):
            if name in b:
                return b[name]
        elif hasattr(b, name):
            return getattr(b, name)
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise NameError(f"name '{name}' is not defined")

    def e_NamedExpr(self, e, frame):
        v = self.ev(e.value, frame)
        self.assign(e.target, v, frame)
        return v

    def e_Attribute(self, e, frame):
        if e.attr in ('append', 'extend'):
            return self.getattr(self.ev_receiver(e.value, frame), e.attr)
        v = self.getattr(self.ev(e.value, frame), e.attr)
        if isinstance(v, list) and self.ctxs:
            self.mark_read(v)
        return v

    def getattr(self, obj, name):
        if isinstance(obj, super):
            return getattr(obj, name)
        # properties of repo classes are interpreted
        cls = type(obj)
        d = inspect.getattr_static(cls, name, None) if not isinstance(obj, (type, types.ModuleType)) else None
        if isinstance(d, property) and self.interpretable(d.fget) and not isinstance(obj, _ENUMS):
            return self.call(d.fget, (obj,))
        return getattr(obj, name)

    def e_Subscript(self, e, frame):
        obj = self.ev(e.value, frame)
        idx = self.ev_index(e.slice, frame)
        v = self.getitem(obj, idx)
        if isinstance(v, list) and self.ctxs:
            self.mark_read(v)
        return v

    def ev_index(self, s, frame):
        if isinstance(s, ast.Slice):
            return slice(*(None if v is None else self.ev(v, frame) for v in (s.lower, s.upper, s.step)))
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(x, frame) for x in s.elts)
        return self.ev(s, frame)

    def getitem(self, obj, idx):
        if isinstance(obj, SymIter) and hasattr(obj, '__pyvc_getitem__'):
            return obj.__pyvc_getitem__(self, idx)
        if isinstance(obj, (list, tuple, SymIter)):
            if isinstance(idx, slice):
                return self.seq_slice(obj, idx.start, idx.stop, idx.step)
            if isinstance(idx, SInt) or has_fam(obj) or isinstance(obj, SymIter):
                if not isinstance(idx, (int, SInt)):
                    idx = idx.__index__()
                return self.seq_get(obj, idx)
            return obj[idx]
        if obj is np.ogrid:
            sl = idx if isinstance(idx, tuple) else (idx,)
            if has_sym([v for s in sl for v in (s.start, s.stop, s.step)]):
                for s in sl:
                    if s.step is not None or s.start not in (0, None):
                        raise Unsupported('ogrid start')
                return tuple(SymAxis(0, s.stop, i) for i, s in enumerate(sl))
            return obj[idx]
        if isinstance(obj, SymArray2D):
            return obj[idx]
        if isinstance(obj, dict) and isinstance(idx, (SInt, SBool)):
            for k in obj:
                if self.truth(idx == k):
                    return obj[k]
            raise KeyError(idx)
        h = getattr(obj, '__pyvc_getitem__', None)
        if h is not None:
            return h(self, idx)
        if isinstance(obj, np.ndarray) and has_sym(idx if isinstance(idx, tuple) else (idx,)):
            raise Unsupported('symbolic index into a concrete array')
        return obj[idx]

    def e_List(self, e, frame):
        return self.new(self.elts(e.elts, frame))

    def e_Tuple(self, e, frame):
        return tuple(self.elts(e.elts, frame))

    def e_Set(self, e, frame):
        items = self.elts(e.elts, frame)
        if self.ghost_sets and has_sym(items):
            return self.new(ghost.SymSet(self, items))
        return self.new(set(items))

    def elts(self, elts, frame):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += self.to_items(self.ev(x.value, frame))
            else:
                out.append(self.ev(x, frame))
        return out

    def e_Dict(self, e, frame):
        if not e.keys and self.ghost_dicts:
            return self.new(self.ghost_dicts(self) if callable(self.ghost_dicts) else ghost.Filled(self))
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, frame))
            else:
                d[self.ev(k, frame)] = self.ev(v, frame)
        if self.ghost_dicts is True and any(isinstance(k, SInt) for k in d):
            if len(d) > 1:
                raise Unsupported('keys that may be equal')
            return self.new(ghost.Filled(self, d.items()))
        return self.new(d)

    def e_UnaryOp(self, e, frame):
        v = self.ev(e.operand, frame)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SBool):
                return mkbool(z3.Not(v.t))
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return -v
        if isinstance(e.op, ast.UAdd):
            return +v
        return ~v

    def e_BinOp(self, e, frame):
        return self.binop(e.op, self.ev(e.left, frame), self.ev(e.right, frame))

    def binop(self, op, a, b):
        if isinstance(op, ast.Add):
            if isinstance(a, list) and isinstance(b, list):
                return self.new(list(a) + list(b))
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
        if isinstance(op, ast.Mult) and isinstance(a, (list, tuple)) and isinstance(b, SInt):
            if len(a) == 1 and not has_fam(a):
                v = self.fresh_bvar('m')
                f = Fam([v], z3.And(0 <= v, v < b.t), [(sym.TRUE, list(a))], z3.IntVal(0), b.t)
                return self.new([f]) if isinstance(a, list) else (f,)
        r = _BINOPS[type(op)](a, b)
        if isinstance(r, (list, set, dict)):
            self.new(r)
        return r

    def e_BoolOp(self, e, frame):
        # short-circuit; symbolic booleans without side effects are combined when safe
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.ev(x, frame)
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, SBool) else False
            if not isand and t:
                return v if not isinstance(v, SBool) else True
        if isinstance(v, SBool):
            return isand
        return v

    def e_Compare(self, e, frame):
        left = self.ev(e.left, frame)
        result = True
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, frame)
            c = self.compare(op, left, right)
            if len(e.ops) == 1:
                return c
            if not self.truth(c):
                return False
            left = right
        return True

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            r = self.is_(a, b)
            return mkbool(z3.Not(r.t)) if isinstance(r, SBool) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(op, ast.In):
                return r
            return mkbool(z3.Not(r.t)) if isinstance(r, SBool) else not r
        if isinstance(op, (ast.Eq, ast.NotEq)) and isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) \
                and (has_sym(a) or has_sym(b)):
            r = self.seq_eq(a, b)
            if isinstance(op, ast.Eq):
                return r
            return mkbool(z3.Not(r.t)) if isinstance(r, SBool) else not r
        return _CMPOPS[type(op)](a, b)

    def seq_eq(self, a, b):
        if type(a) is not type(b) and not (isinstance(a, tuple) and isinstance(b, tuple)):
            return False
        if has_fam(a) or has_fam(b):
            raise Unsupported('equality of symbolic-length lists')
        if len(a) != len(b):
            return False
        ts = []
        for x, y in zip(a, b):
            if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
                r = self.seq_eq(x, y)
            else:
                r = x == y
            if isinstance(r, SBool):
                ts.append(r.t)
            elif not r:
                return False
        return mkbool(z3.And(*ts)) if ts else True

    def is_(self, a, b):
        if isinstance(a, SBool) or isinstance(b, SBool):
            x, y = (a, b) if isinstance(a, SBool) else (b, a)
            if isinstance(y, (bool, SBool)):
                return x == y
            return False
        for x, y in ((a, b), (b, a)):
            if hasattr(type(x), '__pyvc_is__'):
                return x.__pyvc_is__(self, y)
        return a is b

    def contains(self, c, x):
        if isinstance(c, (list, tuple, set, frozenset, range)) and (has_sym(x) or has_sym(c)):
            if has_fam(c):
                return mkbool(ghost.exists(list(c), lambda i: ghost.equal_term(self, i, x)))
            if isinstance(c, range):
                if c.step != 1:
                    raise Unsupported('range step')
                return mkbool(z3.And(iterm(x) >= c.start, iterm(x) < c.stop))
            ts = []
            for o in c:
                r = self.compare(ast.Eq(), x, o)
                if isinstance(r, SBool):
                    ts.append(r.t)
                elif r:
                    return True
            return mkbool(z3.Or(*ts)) if ts else False
        if isinstance(c, SymRange):
            return mkbool(z3.And(iterm(x) >= c.lo, iterm(x) < c.hi))
        h = getattr(c, '__pyvc_contains__', None)
        if h is not None:
            return h(self, x)
        return x in c

    def e_IfExp(self, e, frame):
        return self.ev(e.body if self.truth(self.ev(e.test, frame)) else e.orelse, frame)

    def e_Lambda(self, e, frame):
        return self.make_ifunc(e, frame)

    def e_JoinedStr(self, e, frame):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                x = self.ev(v.value, frame)
                if self.text is not None and isinstance(x, (self.text, SInt)):
                    if v.format_spec or v.conversion == ord('r'):
                        raise Unsupported('format of a symbolic text')
                    out.append(self.text([x]))
                    continue
                if has_sym(x):
                    out.append('<sym>')
                    continue
                spec = self.ev(v.format_spec, frame) if v.format_spec else ''
                if v.conversion == ord('r'):
                    x = repr(x)
                elif v.conversion == ord('s'):
                    x = str(x)
                out.append(format(x, spec))
        if any(not isinstance(o, str) for o in out):
            return self.text(out)
        return ''.join(out)

    def e_Starred(self, e, frame):
        raise Unsupported('starred')

    def e_Yield(self, e, frame):
        f = frame
        while f.yields is None:
            f = f.parent
        v = None if e.value is None else self.ev(e.value, frame)
        self.list_extend(f.yields, [v])
        if self.trace is not None:
            self.list_extend(self.trace, [('yield', v)])

    def e_YieldFrom(self, e, frame):
        self.list_extend(frame.yields, self.to_items(self.ev(e.value, frame)))

    def comp(self, e, frame, add):
        cf = Frame(frame, frame.globals, None, frame.func)

        def gen(n):
            if n == len(e.generators):
                add(cf)
                return
            g = e.generators[n]
            it = self.ev(g.iter, cf if n else frame)
            items = self.iter_items(it)
            assigned = self.assigned_names(g.target)

            def bind_body(item):
                if isinstance(item, Thunk):
                    item = item.value(self)
                self.assign(g.target, item, cf)
                for c in g.ifs:
                    if not self.truth(self.ev(c, cf)):
                        return
                gen(n + 1)
            self.loop(cf, items, bind_body, assigned)
        gen(0)

    def e_ListComp(self, e, frame):
        out = self.new([])
        self.comp(e, frame, lambda cf: self.list_extend(out, [self.ev(e.elt, cf)]))
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, frame):
        out = self.e_ListComp(e, frame)
        if has_fam(out):
            return self.new(ghost.SymSet(self, out))
        return self.new(set(out))

    def e_DictComp(self, e, frame):
        out = self.new([])
        self.comp(e, frame, lambda cf: self.list_extend(out, [(self.ev(e.key, cf), self.ev(e.value, cf))]))
        if has_fam(out):
            return self.new(ghost.SymMap(self, out))
        return self.new(dict(out))

    def e_Await(self, e, frame):
        v = self.ev(e.value, frame)
        if isinstance(v, Coroutine):
            return v.run(self)
        if not hasattr(v, '__pyvc_await__'):
            raise Unsupported('await')
        return v.__pyvc_await__(self)

    def e_Call(self, e, frame):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = frame
            while f.func is None or f.func.cls is None:
                f = f.parent
            first = f.func.node.args.args[0].arg
            return super(f.func.cls, f.locals[first])
        f = self.ev(e.func, frame)
        args = self.elts(e.args, frame)
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                kwargs.update(self.ev(k.value, frame))
            else:
                kwargs[k.arg] = self.ev(k.value, frame)
        return self.call(f, tuple(args), kwargs)


class Assigned(set):
    def __init__(self, *a):
        super().__init__(*a)
        self.aug = set()
        self.plain = set()

    def rebound(self, name, value):
        """Can an iteration rebind `name` (currently `value`)?  `list += x` works in place."""
        return name in self.plain or not isinstance(value, (list, set, ghost.SymSet))


class LateValue:
    """Value of a carried variable after its loop."""

    def __init__(self, engine, fam, c):
        self.engine, self.fam, self.c = engine, fam, c

    def get(self):
        if self.engine.decide(self.fam.hi > self.fam.lo):
            return subst(self.c['next'], [(self.c['vars'][0], z3.simplify(self.fam.hi - 1))])
        return self.c['init']


class Thunk:
    """Element computed inside the loop body (may fork)."""

    def __init__(self, fn, t):
        self.fn, self.t = fn, t

    def value(self, engine):
        return self.fn(self.t)

    def __pyvc_subst__(self, pairs):
        return Thunk(self.fn, z3.substitute(self.t, *pairs))


class LazyElem:
    pass


class SymIter:
    """A sequence given by a symbolic length and an element function."""

    def __init__(self, n, get):
        self.n, self.get = n, get

    def fam(self, engine):
        v = engine.fresh_bvar('i')
        return Fam([v], z3.And(0 <= v, v < self.n), [(sym.TRUE, [Thunk(self.get, v)])], z3.IntVal(0), self.n)


class SymRange(SymIter):
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi
        n = z3.simplify(hi - lo)
        super().__init__(z3.simplify(z3.If(n >= 0, n, 0)), lambda k: mkint(lo + k))

    def fam(self, engine):
        v = engine.fresh_bvar('i')
        return Fam([v], z3.And(self.lo <= v, v < self.hi), [(sym.TRUE, [SInt(v)])], self.lo, self.hi)


def _range(E, *a):
    if not any(isinstance(v, SInt) for v in a):
        return range(*a)
    if len(a) == 1:
        return SymRange(z3.IntVal(0), iterm(a[0]))
    if len(a) == 2 or a[2] == 1:
        return SymRange(iterm(a[0]), iterm(a[1]))
    if isinstance(a[2], int) and a[2] == -1:
        lo, hi = iterm(a[0]), iterm(a[1])
        n = z3.simplify(lo - hi)
        return SymIter(z3.simplify(z3.If(n >= 0, n, 0)), lambda k: mkint(lo - k))
    if isinstance(a[2], int) and a[2] > 1:
        lo, hi, st = iterm(a[0]), iterm(a[1]), a[2]
        n = z3.simplify((hi - lo + st - 1) / st)
        return SymIter(z3.simplify(z3.If(n >= 0, n, 0)), lambda k: mkint(lo + st * k))
    raise Unsupported('range step')


def _len(E, x):
    if hasattr(x, '__pyvc_len__'):
        return x.__pyvc_len__(E)
    return E.seq_len(x)


def _is_symseq(x):
    return isinstance(x, SymIter) or has_fam(x)


def _zip(E, *its, strict=False):
    if not any(_is_symseq(i) for i in its):
        its = [i if isinstance(i, (list, tuple)) else i for i in its]
        return E.new(list(zip(*its, strict=strict)))
    its = [i if isinstance(i, (list, tuple, SymIter)) else E.to_items(i) for i in its]
    z = _zip_fams(its)
    if z is not None:
        return E.new([z])
    ns = [iterm(E.seq_len(i)) for i in its]
    n = ns[0]
    for m in ns[1:]:
        if not E.decide(n <= m):
            n = m
    return SymIter(z3.simplify(n), lambda k: tuple(E.seq_get(i, mkint(k)) for i in its))


def _zip_fams(its):
    """Lists that are each one family over the same index domain, paired index by index."""
    fs = [i[0] if isinstance(i, (list, tuple)) and len(i) == 1 and isinstance(i[0], Fam) else None for i in its]
    if all(f is not None and f.width is not None and f.width > 1 and f.width == fs[0].width for f in fs):
        # the same number of items at every index of the same range
        a = fs[0]
        rows = [a.alts[0][1]]
        for f in fs[1:]:
            pairs = [(f.vars[0], a.vars[0])]
            if not all(z3.simplify(z3.substitute(x, *pairs)).eq(z3.simplify(y)) for x, y in ((f.guard, a.guard), (f.lo, a.lo), (f.hi, a.hi))):
                return None
            rows.append(subst(f.alts[0][1], pairs))
        return Fam(a.vars, a.guard, [(sym.TRUE, list(zip(*rows)))], a.lo, a.hi)
    if any(f is None or len(f.vars) < 2 or len(f.alts) != 1 or not z3.is_true(f.alts[0][0]) or len(f.alts[0][1]) != 1
           or isinstance(f.alts[0][1][0], Fam) for f in fs):
        return None
    a = fs[0]
    out = [a.alts[0][1][0]]
    for f in fs[1:]:
        if len(f.vars) != len(a.vars):
            return None
        pairs = list(zip(f.vars, a.vars))
        if not z3.simplify(z3.substitute(f.guard, *pairs)).eq(z3.simplify(a.guard)):
            return None
        out.append(subst(f.alts[0][1][0], pairs))
    return Fam(a.vars, a.guard, [(sym.TRUE, [tuple(out)])])


def _enumerate(E, it, start=0):
    if not _is_symseq(it):
        it = E.to_items(it)
    if len(it) == 1 and isinstance(it[0], Fam) and len(it[0].alts) > 1 if isinstance(it, list) else False:
        f = it[0]
        if f.lo is not None and len(f.vars) == 1 and all(len(its) == 1 and not isinstance(its[0], (Fam, Thunk)) for _, its in f.alts):
            E.fam_length(f)
            k = mkint(f.vars[0] - f.lo + iterm(start))
            return E.new([Fam(f.vars, f.guard, [(c, [(k, its[0])]) for c, its in f.alts], f.lo, f.hi)])
    if not _is_symseq(it):
        return E.new([(mkint(iterm(start) + i) if isinstance(start, SInt) else start + i, x)
                      for i, x in enumerate(E.to_items(it))])
    n = iterm(E.seq_len(it))
    return SymIter(n, lambda k: (mkint(k + iterm(start)), E.seq_get(it, mkint(k))))


def _list(E, *a):
    if not a:
        return E.new([])
    return E.new(E.to_items(a[0]))


def _tuple(E, *a):
    return tuple(E.to_items(a[0])) if a else ()


def _isinstance(E, o, c):
    if isinstance(o, (Lit, SInt)):
        cs = c if isinstance(c, tuple) else (c,)
        return any(x in (int, object) for x in cs)
    if isinstance(o, SBool):
        cs = c if isinstance(c, tuple) else (c,)
        return any(x in (int, bool, object) for x in cs)
    if hasattr(o, '__pyvc_isinstance__'):
        return o.__pyvc_isinstance__(E, c)
    return isinstance(o, c)


def _quant(E, it, want_any):
    out = []
    for o in E.to_items(it):
        if isinstance(o, Fam):
            out.append(_fam_bool(E, o, want_any))
        else:
            t = o.t if isinstance(o, SBool) else (o.t != 0 if isinstance(o, SInt) else z3.BoolVal(E.truth(o)))
            out.append(t)
    return mkbool((z3.Or if want_any else z3.And)(*out)) if out else (not want_any)


def _fam_bool(E, fam, want_any):
    ts = []
    for c, items in fam.alts:
        for o in items:
            if isinstance(o, Fam):
                t = _fam_bool(E, o, want_any)
            elif isinstance(o, Thunk):
                raise Unsupported('any/all over a lazy sequence')
            else:
                t = o.t if isinstance(o, SBool) else (o.t != 0 if isinstance(o, SInt) else z3.BoolVal(E.truth(o)))
            ts.append(z3.And(c, t) if want_any else z3.Implies(c, t))
    if want_any:
        return z3.Exists(fam.vars, z3.And(fam.guard, z3.Or(*ts)))
    return z3.ForAll(fam.vars, z3.Implies(fam.guard, z3.And(*ts)))


def _sum(E, it, start=0):
    items = E.to_items(it)
    if has_fam(items):
        raise Unsupported('sum over a symbolic-length list')
    r = start
    for x in items:
        r = E.binop(ast.Add(), r, x)
    return r


def _minmax(E, args, kw, ismin):
    if len(args) == 1:
        items = E.to_items(args[0])
    else:
        items = list(args)
    if has_fam(items):
        if len(args) == 1 and not kw and all(isinstance(i, (int, SInt)) for _, _, i in ghost.leaves(items)):
            return ghost.extreme(E, items, ismin)
        if ismin and len(args) == 1 and not set(kw) - {'key', 'default'}:
            return ghost.least(E, items, kw.get('key'), *([kw['default']] if 'default' in kw else []))
        raise Unsupported('min/max over a symbolic-length list')
    if not has_sym(items):
        return (min if ismin else max)(items, **kw)
    if kw:
        raise Unsupported('min/max key')
    inf = float('inf') if ismin else -float('inf')
    items = [i for i in items if not (isinstance(i, float) and i == inf)]
    r = items[0]
    for x in items[1:]:
        a, b = iterm(r), iterm(x)
        r = mkint(z3.If(b < a, b, a) if ismin else z3.If(b > a, b, a))
    if isinstance(r, SInt):
        v = E.concrete_int(r.t)     # the hypotheses may leave one value
        if v is not None:
            return v
    return r


def _reversed(E, it):
    if isinstance(it, SymIter):
        return SymIter(it.n, lambda k: it.get(z3.simplify(it.n - 1 - k)))
    if not has_fam(it):
        it = E.to_items(it)
    if has_fam(it):
        n = iterm(E.seq_len(it))
        return SymIter(n, lambda k: E.seq_get(it, mkint(n - 1 - k)))
    return E.new(list(reversed(it)))


def _set(E, *a):
    if isinstance(a[0] if a else None, ghost.SymSet) or hasattr(a[0] if a else None, '__pyvc_set__'):
        return a[0].copy()
    items = E.to_items(a[0]) if a else []
    if E.ghost_sets or has_fam(items):
        return E.new(ghost.SymSet(E, items))
    return E.new(set(items))


def _bool(E, *a):
    if not a:
        return False
    v = a[0]
    if isinstance(v, SBool):
        return v
    if isinstance(v, SInt):
        return mkbool(v.t != 0)
    return E.truth(v)


def _int(E, *a):
    if len(a) == 1 and hasattr(a[0], '__pyvc_int__'):
        return a[0].__pyvc_int__(E)
    if len(a) == 1 and isinstance(a[0], SInt):
        return a[0]
    return int(*a)


def _next(E, it, *d):
    raise Unsupported('next')


def _iter(E, it):
    raise Unsupported('iter')


def _map(E, f, *its):
    if len(its) == 1:
        out = E.new([])
        fr = Frame(None, {}, None, None)
        E.loop(fr, E.iter_items(its[0]),
               lambda item: E.list_extend(out, [E.call(f, (item.value(E) if isinstance(item, Thunk) else item,))]), set())
        return out
    return E.new([E.call(f, t) for t in E.to_items(_zip(E, *its))])


def _filter(E, f, it):
    out = E.new([])
    fr = Frame(None, {}, None, None)

    def body(item):
        if isinstance(item, Thunk):
            item = item.value(E)
        if E.truth(item if f is None else E.call(f, (item,))):
            E.list_extend(out, [item])
    E.loop(fr, E.iter_items(it), body, set())
    return out


def _frompyfunc(E, f, nin, nout):
    return SymUfunc(E, f, nin, nout)


def _print(E, *a, **k):
    return None


def _np_prod(E, x, *a, **k):
    if has_sym(x):
        r = 1
        for v in x:
            r = r * v
        return r
    return np.prod(x, *a, **k)


def _abs(E, x):
    return abs(x)


def _sorted(E, it, **k):
    if hasattr(it, '__pyvc_sorted__'):
        return it.__pyvc_sorted__(E, **k)
    items = E.to_items(it)
    if has_fam(items) and E.permutations is not None:
        return E.new(_permuted(E, items, **k))
    if has_fam(items):
        raise Unsupported('sorted on symbolic values')
    if has_sym(items):
        return E.new(_insertion_sort(E, items, **k))
    if k.get('key') is not None and E.interpretable(k['key']):
        keys = [E.call(k['key'], (i,)) for i in items]
        if has_sym(keys):
            return E.new(_insertion_sort(E, items, **k))
    return E.new(sorted(items, **{a: E.callable(b) if callable(b) else b for a, b in k.items()}))


def _insertion_sort(E, items, key=None, reverse=False):
    """Stable, like the library's sort; comparisons are decided on every path."""
    if len(items) > 4:
        raise Unsupported('sorted on symbolic values')

    def less(a, b):
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and (has_sym(a) or has_sym(b)):
            for x, y in zip(a, b):
                if less(x, y):
                    return True
                if less(y, x):
                    return False
            return len(a) < len(b)
        return E.truth(E.compare(ast.Lt(), a, b))
    out = []
    for i in items:
        k = i if key is None else E.call(key, (i,))
        n = len(out)
        while n and (less(out[n - 1][0], k) if reverse else less(k, out[n - 1][0])):
            n -= 1
        out.insert(n, (k, i))
    return [i for _, i in out]


def _permuted(E, items, key=None, reverse=False):
    """The same items in an unknown order."""
    if len(items) != 1 or items[0].lo is None or len(items[0].vars) != 1 or any(len(its) != 1 or isinstance(its[0], (Fam, Thunk)) for _, its in items[0].alts):
        raise Unsupported('sorted on symbolic values')
    f = items[0]
    E.fam_length(f)         # one item for every index
    if key is not None:
        _map(E, key, [f])   # the key has a value for every item
    tag = E.fresh_name('rank')
    rank = z3.Function('rank' + tag, z3.IntSort(), z3.IntSort())
    place = z3.Function('place' + tag, z3.IntSort(), z3.IntSort())
    j, v = E.fresh_bvar('j'), z3.Int('j?')
    n = z3.simplify(f.hi - f.lo)
    E.permutations[tag] = z3.And(z3.ForAll([v], z3.Implies(z3.And(0 <= v, v < n), z3.And(f.lo <= rank(v), rank(v) < f.hi, place(rank(v)) == v)), patterns=[rank(v)]),
                                 z3.ForAll([v], z3.Implies(z3.And(f.lo <= v, v < f.hi), z3.And(0 <= place(v), place(v) < n, rank(place(v)) == v)), patterns=[place(v)]))
    sub = [(f.vars[0], rank(j))]
    return [Fam([j], z3.And(0 <= j, j < n, z3.substitute(f.guard, *sub)), [(z3.substitute(c, *sub), subst(its, sub)) for c, its in f.alts], z3.IntVal(0), n)]


def _cast(E, t, v):
    return v


def _it_product(E, *its, repeat=1):
    items = [E.to_items(i) for i in its]
    if any(has_fam(i) for i in items):
        raise Unsupported('itertools.product over symbolic lists')
    return E.new(list(itertools.product(*items, repeat=repeat)))


def _it_chain(E, *its):
    out = []
    for i in its:
        out += E.to_items(i)
    return E.new(out)


def _deepcopy(E, o):
    if type(o) in (list, dict, set):
        r = [_deepcopy(E, i) for i in o] if type(o) is list else {k: _deepcopy(E, v) for k, v in o.items()} if type(o) is dict else set(o)
        return E.new(r)
    if type(o) is tuple:
        return tuple(_deepcopy(E, i) for i in o)
    if isinstance(o, (SInt, SBool, Lit, Fam, int, float, str, bytes, type(None), enum.Enum, type)):
        return o        # unchangeable (the items of a family are rebuilt wherever they are used)
    if type(o).__module__.startswith(('pyvc.', 'checks.')):
        raise Unsupported(f'deepcopy of {type(o).__name__}')
    return E.new(copy.deepcopy(o))


BUILTIN_INTERCEPTS = {
    range: _range, len: _len, zip: _zip, enumerate: _enumerate, list: _list, tuple: _tuple, isinstance: _isinstance,
    any: lambda E, it: _quant(E, it, True), all: lambda E, it: _quant(E, it, False), sum: _sum,
    min: lambda E, *a, **k: _minmax(E, a, k, True), max: lambda E, *a, **k: _minmax(E, a, k, False),
    reversed: _reversed, set: _set, bool: _bool, int: _int, next: _next, iter: _iter, map: _map, filter: _filter,
    np.frompyfunc: _frompyfunc, print: _print, np.prod: _np_prod, abs: _abs, sorted: _sorted,
    hasattr: lambda E, o, n: hasattr(o, n), getattr: lambda E, o, n, *d: getattr(o, n, *d), id: lambda E, o: id(o),
    callable: lambda E, o: callable(o),
    copy.deepcopy: _deepcopy, itertools.product: _it_product, itertools.chain: _it_chain,
}
import typing
import operator
import enum
BUILTIN_INTERCEPTS[typing.cast] = _cast
_ENUMS = (enum.Enum,)
_FRESH_NP = [np.empty, np.zeros, np.full, np.ones, np.array, np.empty_like]
_BINOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
           ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.LShift: operator.lshift,
           ast.RShift: operator.rshift, ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor,
           ast.MatMult: operator.matmul}
_CMPOPS = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt,
           ast.GtE: operator.ge}
