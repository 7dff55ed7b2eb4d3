import contextlib
import io
import itertools
import json
import math
import os

from .common import *
from .c15 import limit, scratch
from specs import layout as LY, nets as NT

LEVEL = 'proof'
TECHNIQUE = ('deductive: the record, its tidying, saving and reloading, both ways to choose the next size (their loops once, for an arbitrary iteration under the invariant that everything cheaper is impossible), factors, best_current_solution and '
             'get_belt_level executed for records of any number of entries, networks and sizes of any size; discharged by z3')
NOTE = ('Tidying is proved entry by entry (the answers after each step are those before). That a search ends, the query and compute programs and what solve_balancer builds are covered by the bounded companion only; '
        'the colours and counts of a network are the contract of C20.')
ASSUMPTIONS = ['math.floor(math.sqrt(n)) is the integer square root (n below 2**52)', 'decimal text of integers reads back as the same integer; json keeps text, booleans and lists', 'get_input_output_colours gives at least one input and one output (C20)']
RULE = 'random consistent records and complete simulated searches over random monotone truths; every answer in a box of sizes compared with the definition'
BOUND = 'bounded companion: sizes up to 9x12x9, records of up to 25 entries, networks of up to 12 nodes; records of up to 1500 entries and networks of up to 400 nodes in a few cases'


def store(d, net, name='net'):
    from factorio_sat.calculate_optimal import NetworkSolutionStore
    path = os.path.join(d, name)
    with open(path, 'w') as f:
        for i, o in net:
            f.write(' '.join(str(-1 if c is None else c) for c in i + o) + '\n')
    return NetworkSolutionStore(path)


def leq(a, b):
    return all(x <= y for x, y in zip(a, b))


def answer(exist, size):
    if any(v is True and leq(k, size) for k, v in exist.items()):
        return True
    if any(v is False and leq(size, k) for k, v in exist.items()):
        return False
    return None


def truth(rng):
    """A random monotone set of possible sizes (its minimal elements)."""
    return [(rng.randint(0, 9), rng.randint(3, 12), rng.randint(1, 9)) for _ in range(rng.randint(1, 5))]


def records(rng, n):
    t = truth(rng)
    out = {}
    for _ in range(n):
        s = (rng.randint(0, 9), rng.randint(3, 12), rng.randint(1, 9))
        out[s] = any(leq(m, s) for m in t)
    return out


BOX = list(itertools.product(range(0, 10), range(3, 13), range(1, 10)))


def answers(ctx, n):
    with scratch() as d:
        s = store(d, [((0, 0), (1, 1))])
        for k in range(n):
            ex = records(ctx.rng, ctx.rng.choice([0, 1, 2, 5, 25]))
            s.exist = dict(ex)
            s.solutions = {z: [['solution', *z]] for z, v in ex.items() if v}
            sols = json.loads(json.dumps([[k, v] for k, v in s.solutions.items()]))
            box = BOX if k % 10 == 0 else ctx.rng.sample(BOX, 150)
            info = dict(recorded=[[*z, v] for z, v in ex.items()])
            for z in box:
                got = s.does_balancer_exist(z)
                ctx.require(got is answer(ex, z) or got == answer(ex, z) and got is not None, f'size {z} is reported as {got}', want=answer(ex, z), **info)
            ctx.require(s.exist == ex, 'asking changes the record', **info)
            data = json.loads(json.dumps(s.to_json()))
            u = store(d, [((0, 0), (1, 1))])
            u.exist, u.solutions = {(1, 3, 1): True}, {(1, 3, 1): 'old'}
            u.from_json(data)
            ctx.require(u.exist == ex and [[list(k), v] for k, v in u.solutions.items()] == [[list(k), v] for k, v in sols], 'saving and reloading changes the record', got=[[*z, v] for z, v in u.exist.items()], **info)
            s.clean()
            ctx.require([[list(k), v] for k, v in s.solutions.items()] == [[list(k), v] for k, v in sols], 'tidying changes the solutions', **info)
            for z in box:
                ctx.require(s.does_balancer_exist(z) == answer(ex, z), f'tidying changes the answer for {z}', left=[[*z, v] for z, v in s.exist.items()], **info)
            ctx.eval()
        for data in ({}, {'exist': {}}, {'exist': {'4,3,2': False}}):
            u.from_json(data)
            ctx.require(u.exist == {(4, 3, 2): False for _ in data.get('exist', {})} and u.solutions == {}, 'loading an incomplete record', data=data)
        u.add_solution((4, 5, 6), None)
        ctx.require(u.exist[4, 5, 6] is False and (4, 5, 6) not in u.solutions, 'an impossible size is recorded otherwise')
        u.add_solution((4, 5, 7), [[1]])
        ctx.require(u.exist[4, 5, 7] is True and u.solutions[4, 5, 7] == [[1]], 'a possible size is recorded otherwise')
        u.add_solution((4, 5, 8), [])
        ctx.require(u.exist[4, 5, 8] is True and u.solutions[4, 5, 8] == [], 'a possible size is recorded otherwise')
        ctx.sample(info)


def candidates(kind, net, a, b, ul, limit_cost):
    """Sizes the objective considers, with their cost: (cost, width, height)."""
    h0 = max(a, b)
    need = 2 * len(net)
    if kind == 'length':
        for w in range(3, limit_cost + 3):
            if (w - 2) * h0 >= need:
                yield w, w, h0
    else:
        for h in range(h0, 2 * h0 + 1):
            for w in range(1, limit_cost // h + 1):
                if w * h >= need:
                    yield w * h, w + 2, h


def searches(ctx, n, k):
    """Whole searches against a random monotone truth."""
    import random
    from factorio_sat import calculate_optimal as C
    rng = random.Random(ctx.seed * 17 + k)
    with scratch() as d:
        for _ in range(n):
            net, (ci, a), (co, b) = NT.balanced_network(rng, rng.randint(1, 5))
            if rng.random() < 0.5:
                net += net[:1] * 0
            kind = rng.choice(['length', 'area'])
            obj = C.LengthObjective() if kind == 'length' else C.AreaObjective()
            h0 = max(a, b)
            mins = [(rng.randint(1, 8), rng.randint(3, 14), h0 + rng.choice([0, 0, 0, 1, 2, h0])) for _ in range(rng.randint(1, 4))] + [(1, rng.randint(4, 16), h0)]
            possible = lambda s: any(leq(m, s) for m in mins)
            s = store(d, net)
            # earlier searches left a consistent record, possibly with other limits
            for _ in range(rng.randint(0, 6)):
                z = (rng.randint(1, 8), rng.randint(3, 14), h0 + rng.randint(0, h0))
                s.add_solution(z, ['sol', *z] if possible(z) else None)
            ul = rng.randint(1, 9)
            info = dict(network=net, objective=kind, underground=ul, minimal=mins, before=[[*z, v] for z, v in s.exist.items()])
            cands = sorted(candidates(kind, net, a, b, ul, 24 if kind == 'length' else 24 * 2 * h0))
            for step in range(200):
                before = dict(s.exist)
                with limit(ctx, 20, f'choosing the next size {info}'):
                    z = obj.next_size(s, ul)
                ctx.eval()
                ctx.require(s.exist == before, 'choosing the next size changes the record', **info)
                open_ = [(c, w, h) for c, w, h in cands if answer(before, (ul, w, h)) is None]
                if z is None:
                    good = [(c, w, h) for c, w, h in cands if answer(before, (ul, w, h)) is True]
                    ctx.require(good and (not open_ or good[0][0] <= open_[0][0]), 'the search stops although a cheaper size is still open', record=[[*q, v] for q, v in before.items()], open=open_[:3], **info)
                    break
                ctx.require(z[0] == ul, f'next size {z} ignores the underground limit', **info)
                hit = [c for c, w, h in cands if (w, h) == tuple(z[1:])]
                ctx.require(bool(hit), f'next size {z} is none of the sizes large enough for the network', **info)
                ctx.require(answer(before, z) is None, f'next size {z} is already decided', record=[[*q, v] for q, v in before.items()], **info)
                ctx.require(hit[0] == open_[0][0], f'next size {z} is not the cheapest open one', open=open_[:3], **info)
                good = [(c, w, h) for c, w, h in cands if answer(before, (ul, w, h)) is True]
                ctx.require(not good or good[0][0] >= hit[0], f'the search goes on at {z} although a recorded solution is as good', record=[[*q, v] for q, v in before.items()], **info)
                s.add_solution(tuple(z), ['sol', *z] if possible(z) else None)
                if rng.random() < 0.7:
                    s.clean()
                if rng.random() < 0.2:
                    t = store(d, net)
                    t.from_json(json.loads(json.dumps(s.to_json())))
                    s = t
            else:
                ctx.fail('the search does not end', **info)
            # best solution for this and other limits
            for lim in {ul, rng.randint(0, 9), 100}:
                got = s.best_current_solution(obj.loss, lim)
                fit = {z: v for z, v in s.solutions.items() if z[0] <= lim}
                cost = (lambda z: (z[2], z[1])) if kind == 'length' else (lambda z: (z[1] - 2) * z[2])
                ctx.require((got is None) == (not fit), f'best solution within underground length {lim}: {got}', **info)
                if fit:
                    at = [z for z, v in fit.items() if v is got or v == got]
                    ctx.require(at and min(cost(z) for z in at) == min(cost(z) for z in fit), f'{got} is not the best solution within underground length {lim}', solutions=[list(z) for z in fit], **info)
        ctx.sample(info)


def large(ctx):
    """Long records, large networks and large sizes."""
    from factorio_sat import calculate_optimal as C
    rng = ctx.rng
    with scratch() as d:
        for n, h0 in ((4, 4), (90, 16), (400, 64), (30, 100)):
            net = [((0, 0), (1, 1))] * n
            s = store(d, [((0, 0), (1, 1))])
            s.network = net
            old = C.get_input_output_colours
            C.get_input_output_colours = lambda network: ((0, h0), (1, h0))
            try:
                for ul in (3, 40, 250):
                    for _ in range(6):
                        reach = rng.choice([5, 40, 300])
                        ex = {(ul + rng.randint(0, 3), rng.randint(3, reach), h): False for h in (h0, h0 + 1, 2 * h0 - 1, 2 * h0) for _ in range(3)}
                        for _ in range(rng.choice([0, 1, 3])):
                            z = (rng.randint(1, ul), rng.randint(3, reach + 30), rng.randint(h0, 2 * h0))
                            if not any(leq(z, q) for q, v in ex.items() if not v):
                                ex[z] = True
                        s.exist = dict(ex)
                        for kind, obj in (('length', C.LengthObjective()), ('area', C.AreaObjective())):
                            info = dict(nodes=n, ends=h0, underground=ul, objective=kind, recorded=[[*q, v] for q, v in ex.items()])
                            with limit(ctx, 60, f'choosing the next size {info}'):
                                z = obj.next_size(s, ul)
                            ctx.eval()
                            top = 400 if kind == 'length' else 310 * h0 + 2 * n
                            best_open = best_good = None
                            hs = [h0] if kind == 'length' else range(h0, 2 * h0 + 1)
                            for h in hs:
                                for w in range(max(3, 2 + -(-2 * n // h)), 800):
                                    c = w if kind == 'length' else (w - 2) * h
                                    if best_open is not None and c >= best_open and best_good is not None and c >= best_good:
                                        break
                                    v = answer(ex, (ul, w, h))
                                    if v is None and (best_open is None or c < best_open):
                                        best_open = c
                                    if v is True:
                                        if best_good is None or c < best_good:
                                            best_good = c
                                        break
                                    if v is None:
                                        if best_good is None:
                                            continue
                            if z is None:
                                ctx.require(best_good is not None and (best_open is None or best_good <= best_open), 'the search stops although a cheaper size is still open', cheapest_open=best_open, **info)
                            else:
                                c = z[1] if kind == 'length' else (z[1] - 2) * z[2]
                                ctx.require(z[0] == ul and z[1] >= 3 and (z[1] - 2) * z[2] >= 2 * n and (z[2] == h0 if kind == 'length' else h0 <= z[2] <= 2 * h0), f'next size {z} is none of the sizes to consider', **info)
                                ctx.require(answer(ex, z) is None and c == best_open, f'next size {z} is not the cheapest open one', cheapest_open=best_open, **info)
            finally:
                C.get_input_output_colours = old
        # long records
        for n in (300, 1500):
            big = lambda: (rng.randint(0, 60), rng.randint(3, 400), rng.randint(1, 200))
            mins = [big() for _ in range(6)]
            s = store(d, [((0, 0), (1, 1))])
            ex = {}
            for _ in range(n):
                z = big()
                ex[z] = any(leq(m, z) for m in mins)
            s.exist, s.solutions = dict(ex), {z: ['s', *z] for z, v in ex.items() if v}
            box = [big() for _ in range(150)] + rng.sample(sorted(ex), 50)
            want = [answer(ex, z) for z in box]
            for what in ('asking', 'reloading', 'tidying'):
                if what == 'reloading':
                    data = json.loads(json.dumps(s.to_json()))
                    s = store(d, [((0, 0), (1, 1))])
                    s.from_json(data)
                if what == 'tidying':
                    s.clean()
                ctx.eval()
                for z, w in zip(box, want):
                    ctx.require(s.does_balancer_exist(z) == w, f'{what}: size {z} of a record of {n} entries is reported as {s.does_balancer_exist(z)}', want=w, solutions=[list(m) for m in mins])
            ctx.require(s.solutions == {z: ['s', *z] for z, v in ex.items() if v}, 'solutions are lost')
            for lim in (10, 45, 70):
                for obj, cost in ((C.LengthObjective(), lambda z: (z[2], z[1])), (C.AreaObjective(), lambda z: (z[1] - 2) * z[2])):
                    fit = [z for z, v in ex.items() if v and z[0] <= lim]
                    got = s.best_current_solution(obj.loss, lim)
                    ctx.require((got is None) == (not fit), 'best solution')
                    if fit:
                        ctx.require(tuple(got[1:]) in ex and got[1] <= lim and cost(tuple(got[1:])) == min(map(cost, fit)), f'{got} is not the best solution within underground length {lim}', record=[[*q, v] for q, v in ex.items()][:50])
    for n in [5040, 4096, 10403, 7919, 20160, 99999, 123456]:
        f = list(C.factors(n))
        ctx.eval()
        ctx.require(sorted(f) == [(a, n // a) for a in range(1, n + 1) if n % a == 0], f'factors of {n}: {f}')


def levels(ctx):
    from factorio_sat import calculate_optimal as C
    reach = {'normal': 4, 'fast': 6, 'express': 8}
    for n in range(0, 9):
        lv = C.get_belt_level(n)
        ctx.eval()
        ctx.require(reach.get(lv, -1) >= n and all(r < n for l, r in reach.items() if r < reach[lv]), f'underground length {n} uses {lv} belts')
    for n in (9, 20, 100):
        ctx.require(C.get_belt_level(n) == 'express', f'underground length {n} uses {C.get_belt_level(n)} belts')
    for n in list(range(1, 200)) + [997, 1024, 3600]:
        f = list(C.factors(n))
        ctx.require(sorted(f) == [(a, n // a) for a in range(1, n + 1) if n % a == 0], f'factors of {n}: {f}')


def run_program(args):
    import sys
    from factorio_sat import calculate_optimal as C
    old, out = sys.argv, io.StringIO()
    sys.argv = ['calculate_optimal', *args]
    try:
        with contextlib.redirect_stdout(out):
            C.main()
    finally:
        sys.argv = old
    return out.getvalue().splitlines()


def query(ctx):
    from factorio_sat import blueprint as B, calculate_optimal as C
    here = os.getcwd()
    nets = {'1x2': [((0, None), (1, 1))], '2x1': [((0, 0), (1, None))], '2x2': [((0, 0), (1, 1))], 'other': [((0, 0), (1, 1))], '10x10': NT_benes(4)}
    inout = {'1x2': (1, 2), '2x1': (2, 1), '2x2': (2, 2), 'other': (2, 2), '10x10': (4, 4)}

    def sol(w, h, tag):
        return [[{'tile': LY.belt(0, 0) if (x + y + tag) % 3 else LY.splitter(0, True)} if False else {'tile': LY.belt(0, 0)} if (x * 7 + y * 3 + tag) % 5 else {'tile': {'type': 'empty'}} for x in range(w)] for y in range(h)]
    with scratch() as d:
        os.makedirs(os.path.join(d, 'networks'))
        stores = {}
        for name, net in nets.items():
            stores[name] = store(os.path.join(d, 'networks'), net, name)
        os.chdir(d)
        try:
            for k in range(12):
                data = {}
                for i, (name, net) in enumerate(nets.items()):
                    if ctx.rng.random() < 0.2:
                        continue
                    h0 = max(inout[name])
                    w0 = 2 + -(-2 * len(net) // h0)
                    mins = (ctx.rng.choice([1, 3, 5, 7]), w0 + ctx.rng.randint(0, 2), h0)
                    ex, so = {}, {}
                    for _ in range(ctx.rng.randint(1, 8)):
                        z = (ctx.rng.choice([2, 4, 6, 8]), w0 + ctx.rng.randint(0, 3), h0 + ctx.rng.choice([0, 0, 1]))
                        ex[z] = leq(mins, z)
                        if ex[z]:
                            so[z] = sol(z[1], z[2], i + z[0])
                    data[name] = dict(exist={','.join(map(str, z)): v for z, v in ex.items()}, solutions={','.join(map(str, z)): v for z, v in so.items()})
                with open('db.json', 'w') as f:
                    json.dump(data, f)
                for ul, kind, imperfect, bp in itertools.product((2, 4, 5, 8), ('area', 'length'), (False, True), (False, True)):
                    args = ['--database', 'db.json', 'query', str(ul), kind] + ['--allow-imperfect'] * imperfect + ['--export-blueprints'] * bp
                    with contextlib.redirect_stderr(io.StringIO()):
                        lines = run_program(args)
                    ctx.eval()
                    want = []
                    obj = C.LengthObjective() if kind == 'length' else C.AreaObjective()
                    for name in sorted(nets, key=lambda n: stores[n].ordering_key):
                        s = stores[name]
                        s.from_json(data.get(name, {}))
                        if not imperfect and obj.next_size(s, ul) is not None:
                            continue
                        fit = {z: v for z, v in s.solutions.items() if z[0] <= ul}
                        if fit:
                            cost = (lambda z: (z[2], z[1])) if kind == 'length' else (lambda z: (z[1] - 2) * z[2])
                            best = min(map(cost, fit))
                            want.append((name, [v for z, v in fit.items() if cost(z) == best]))
                    info = dict(args=args, data={n: v['exist'] for n, v in data.items()})
                    ctx.require(len(lines) == len(want), f'{len(lines)} solutions shown, {len(want)} expected', expected=[n for n, _ in want], **info)
                    for line, (name, vals) in zip(lines, want):
                        if not bp:
                            ctx.require(json.loads(line) in vals, f'the solution shown for {name} is not the best', **info)
                        else:
                            dt = B.decode_blueprint(line)
                            got = {e['name'] for e in dt['blueprint'].get('entities', [])}
                            pre = {4: '', 6: 'fast-', 8: 'express-'}[4 if ul <= 4 else 6 if ul <= 6 else 8]
                            ctx.require(all(e == pre + 'transport-belt' for e in got), f'underground length {ul} exported with {got}', **info)
                            n = len(dt['blueprint'].get('entities', []))
                            ctx.require(n in [sum(c['tile']['type'] == 'belt' for r in v for c in r) for v in vals], f'blueprint of {name} has {n} entities', **info)
                ctx.require(json.load(open('db.json')) == data, 'a query changes the results file')
        finally:
            os.chdir(here)
        ctx.sample(info)


def NT_benes(n):
    return [((0, 0), (1, 2))] * 2 + [((1, 1), (3, 3)), ((2, 2), (3, 3))]


def compute(ctx):
    """The real program on small networks: the solutions it stores are layouts of the network at the recorded size."""
    here = os.getcwd()
    nets = {'1x2': [((0, None), (1, 1))], '2x2': [((0, 0), (1, 1))], '2x1': [((0, 0), (1, None))]}
    with scratch() as d:
        os.makedirs(os.path.join(d, 'networks'))
        for name, net in nets.items():
            store(os.path.join(d, 'networks'), net, name)
        os.chdir(d)
        try:
            for kind in ('length', 'area'):
                with limit(ctx, 200, 'the compute program'), contextlib.redirect_stderr(io.StringIO()):
                    run_program(['--database', 'db.json', 'compute', '4', kind, '--threads', '2', '--solver', 'g3'])
                data = json.load(open('db.json'))
                ctx.eval()
                ctx.require(set(data) == set(nets), f'results for {set(data)}')
                for name, net in nets.items():
                    s = store(d, net)
                    s.from_json(data[name])
                    from factorio_sat import calculate_optimal as C
                    obj = C.LengthObjective() if kind == 'length' else C.AreaObjective()
                    ctx.require(obj.next_size(s, 4) is None and s.solutions, f'the search for {name} has not ended', data=data[name])
                    for z, v in s.solutions.items():
                        rows = [[c['tile'] for c in r] for r in v]
                        ctx.require((len(rows[0]), len(rows)) == tuple(z[1:]), f'solution of {name} recorded for {z} has another size', rows=rows)
                        ctx.require(not LY.Layout(rows).problems(z[0], edge_undergrounds=False), f'solution of {name} is no legal layout', problems=LY.Layout(rows).problems(z[0], False), rows=rows)
                        from .c21 import expected
                        ctx.require(NT.isomorphic(expected(rows, False), net) is not None, f'solution of {name} realises another network', rows=rows, network=expected(rows, False))
        finally:
            os.chdir(here)


def tasks(tier):
    n = 120 if tier == 'quick' else 1500
    from .search import search_tasks
    return search_tasks() + [bound_task('answers', [lambda c: answers(c, n)]), bound_task('levels', [levels]), bound_task('large', [large]), bound_task('query', [query]), bound_task('compute', [compute])] + \
        [bound_task(f'searches {k}', [lambda c, k=k: searches(c, n, k)]) for k in range(3)]
