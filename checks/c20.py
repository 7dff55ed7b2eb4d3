import collections
import io
import os

from .common import *
from .c15 import scratch
from .c19 import run_main
from specs import nets as NT

LEVEL = 'proof'
TECHNIQUE = 'deductive: contracts of the network functions for networks of any number of nodes, any colours and absent sides'
NOTE = ('A network is n nodes whose four sides are absent or carry any colour. Sets of colours are tracked as unions of three regions (inputs only, both, outputs only) with unknown orders of iteration; '
        'counters as the list of what is added to them; the search for the input and output colour by a loop invariant; generated networks by their recursive step (two renamed copies behind a column of splitters; one output fed back), '
        'from which even spreading follows by hand: splitters halve, copies spread evenly, and an output fed back divides the rest evenly. Random walks through networks stay as the bounded companion.')
ASSUMPTIONS = ['sorting reorders, Counter counts equal items, int(str(x)) == x (standard library)', 'the sum of what is added to a counter is its value; finite sets of disjoint regions add up', 'even spreading follows from the structure proved for generated networks (paper argument)']
RULE = 'random networks with absent sides, repeated nodes and arbitrary colour numbers, the shipped networks, and generated networks of size 2 to 70'
BOUND = 'networks of up to 12 nodes (shipped ones: up to 300), some of 3100; generated networks of size up to 512'


def networks(ctx, n):
    yield []
    for _ in range(n):
        k = ctx.rng.randint(1, 12)
        if ctx.rng.random() < 0.4:
            net = NT.random_network(ctx.rng, k, ctx.rng.choice([1, 2, 4, 10, 40]), ctx.rng.choice([0, 0.2, 0.6]))
        else:
            net = NT.balanced_network(ctx.rng, k)[0]
        if ctx.rng.random() < 0.5:
            net += [net[ctx.rng.randrange(len(net))] if ctx.rng.random() < 0.5 else tuple(s[::-1] for s in net[ctx.rng.randrange(len(net))]) for _ in range(ctx.rng.randint(1, 4))]
            ctx.rng.shuffle(net)
        yield net


def shipped():
    for f in sorted(os.listdir('/repo/networks')):
        net = []
        for line in open(os.path.join('/repo/networks', f)):
            if line.strip() and not line.startswith('#'):
                v = [None if t == '-1' else int(t) for t in line.split()]
                net.append((tuple(v[:2]), tuple(v[2:])))
        yield f, net


def files(ctx, n):
    from factorio_sat import network as N
    with scratch() as d:
        path = os.path.join(d, 'net')
        for net in networks(ctx, n):
            before = list(net)
            N.save_network(path, net)
            ctx.eval()
            ctx.require(N.open_network(path) == before == net, 'saving and loading by name changes the network', network=before, got=N.open_network(path))
            s = io.StringIO()
            N.save_network(s, net)
            ctx.require(not s.closed, 'save_network closes the file it was given')
            text = s.getvalue()
            s.seek(0)
            ctx.require(N.open_network(s) == before and not s.closed, 'saving and loading an open file changes the network', network=before, text=text)
            # the format allows comments, blank lines and any spacing
            lines = []
            for i, o in net:
                if ctx.rng.random() < 0.3:
                    lines.append(ctx.rng.choice(['', '   ', '# 1 2 3 4', '#']))
                lines.append('  '.join(str(-1 if c is None else c) for c in i + o) + ctx.rng.choice(['', '  ']))
            ctx.require(N.open_network(io.StringIO('\n'.join(lines))) == before, 'reading a file with comments and blank lines', lines=lines)
        for bad in ('1 2 3\n', '1 2 3 4 5\n', '1 2 3 x\n', '0 0 1 1\n1\n'):
            try:
                r = N.open_network(io.StringIO(bad))
                ctx.fail(f'{bad!r} is read as {r}')
            except ValueError:
                pass
            ctx.eval()
        for odd in ('0 0 1 1 # last\n', '0 0 1 2\n1 2 3 3 #\n', '0 0 1 1\n 2 2 3 3\n'):
            try:
                r = N.open_network(io.StringIO(odd))
            except ValueError:
                continue
            ctx.require(len(r) == odd.count('\n'), f'a node of {odd!r} is dropped silently', got=r)
        for f, net in shipped():
            ctx.require(N.open_network(os.path.join('/repo/networks', f)) == net, f'network file {f} is read wrongly')
        # the program
        for k in range(4):
            net = NT.balanced_network(ctx.rng, 4)[0]
            N.save_network(path, net)
            out = os.path.join(d, 'out')
            run_main(N, ['flip', path, out], [])
            got = N.open_network(out)
            ctx.require(sorted(map(repr, got)) == sorted(repr((o, i)) for i, o in net), 'the flip program', network=net, got=got)
            run_main(N, ['create', out, str(k + 2)], [])
            ctx.require(N.open_network(out) == N.create_benes_network(k + 2), 'the create program')
    ctx.sample(dict(network=before))


def operations(ctx, n):
    from factorio_sat import network as N
    for net in [*networks(ctx, n), *(net for _, net in shipped())]:
        before = list(net)
        ctx.eval()
        info = dict(network=before)
        f = N.flip_network(net)
        ctx.require(f == [(o, i) for i, o in before], 'flipping does not swap inputs and outputs node by node', got=f, **info)
        ctx.require(N.flip_network(f) == before, 'flipping twice changes the network', **info)
        d = N.deduplicate_network(net)
        want = collections.Counter(NT.canon(x) for x in before)
        ctx.require(len({NT.canon(k) for k in d}) == len(d) and {NT.canon(k): v for k, v in d.items()} == dict(want), 'removing duplicates changes the multiplicities', got=dict(d), **info)
        cs = sorted(set().union(*NT.colours(before))) if before else []
        # renaming
        perm = cs[:]
        ctx.rng.shuffle(perm)
        m = dict(zip(cs, perm))
        if ctx.rng.random() < 0.5:
            m = {c: 1000 + i for i, c in enumerate(cs) if ctx.rng.random() < 0.6}
        ren = lambda c: None if c is None else m.get(c, c)
        r = N.remap_colours(net, dict(m))
        ctx.require(r == [tuple(tuple(ren(c) for c in s) for s in x) for x in before], 'renaming colours', mapping=m, got=r, **info)
        if cs:
            ci, co = NT.exterior(before)
            r = N.fix_colours(net)
            pairs = {(a, b) for x, y in zip(before, r) for s, t in zip(x, y) for a, b in zip(s, t)}
            ok = len(r) == len(before) and len({a for a, b in pairs}) == len(pairs) == len({b for a, b in pairs}) and all((a is None) == (b is None) for a, b in pairs)
            ctx.require(ok, 'renumbering is no one-to-one renaming', got=r, **info)
            numbering(ctx, r, 'renumbering', len(cs), len(ci), len(co), info)
            r = N.tidy_network(list(net))
            numbering(ctx, r, 'tidying', len(cs), len(ci), len(co), info)
            ctx.require(len(before) > 60 or NT.isomorphic(before, r) is not None, 'tidying does more than rename and reorder', got=r, **info)
            ctx.require(N.calculate_total_colours(net) == len(cs), 'number of colours', **info)
            ctx.require(tuple(map(set, N.get_exterior_colours(net))) == (ci, co), 'exterior colours', **info)
            ctx.require(tuple(N.calculate_network_size(net)) == (len(ci), len(co)), 'number of exterior colours', **info)
        s = NT.surplus(before)
        pos, neg = {c: v for c, v in s.items() if v > 0}, {c: -v for c, v in s.items() if v < 0}
        try:
            got = N.get_input_output_colours(net)
        except AssertionError:
            got = 'error'
        if len(pos) == 1 and len(neg) == 1:
            ctx.require(got == (next(iter(pos.items())), next(iter(neg.items()))), f'input and output colour {got}', surplus=pos, deficit=neg, **info)
            ctx.require(N.get_input_output_colours(N.flip_network(net)) == got[::-1], 'flipping does not swap the inputs with the outputs', **info)
        else:
            ctx.require(got == 'error', f'a network without a unique input and output colour gives {got}', surplus=pos, deficit=neg, **info)
        ctx.require(net == before, 'an operation changes the network it is given', after=net, **info)
    ctx.sample(info)


def numbering(ctx, r, what, n, i, o, info):
    ins, outs = NT.colours(r)
    ctx.require(ins | outs == set(range(n)), f'{what} does not number the colours 0 to {n - 1}', got=r, **info)
    ctx.require(ins - outs == set(range(i)), f'{what} does not number the input colours first', got=r, **info)
    ctx.require(outs - ins == set(range(n - o, n)), f'{what} does not number the output colours last', got=r, **info)


def generated(ctx, lo, hi):
    from factorio_sat import network as N
    for n in range(lo, hi):
        net = N.create_benes_network(n)
        s = NT.surplus(net)
        pos, neg = {c: v for c, v in s.items() if v > 0}, {c: -v for c, v in s.items() if v < 0}
        ctx.eval()
        ctx.require(list(pos.values()) == [n] and list(neg.values()) == [n], f'a generated network of size {n} has inputs {pos} and outputs {neg}')
        cin, cout = next(iter(pos)), next(iter(neg))
        ctx.require(all(c is not None for x in net for side in x for c in side), f'generated network of size {n} has absent sides')
        for _ in range(2):
            fl, a, b = NT.flows(net, cin, cout, ctx.rng)
            ctx.require((a, b) == (n, n) and abs(fl - 1 / n).max() < 1e-7, f'a generated network of size {n} does not spread every input evenly', wiring='random', worst=float(abs(fl - 1 / b).max()))
    for bad in (1, 0, -3):
        try:
            r = N.create_benes_network(bad)
            ctx.fail(f'a network of size {bad} is generated: {r}')
        except AssertionError:
            pass


def large(ctx, seed):
    """Networks with thousands of nodes and colours: everything but the search for a renaming."""
    from factorio_sat import network as N
    rng = ctx.rng
    k = rng.choice([2200, 3100])
    spread = (9000, 300, 2500)[seed % 3]
    nets = [NT.random_network(rng, k, spread, 0.1), NT.balanced_network(rng, k)[0]]
    # one input feeding many splitters, one output fed by many
    m = rng.randint(70, 400)
    shift = (290, 7000000, 0)[seed % 3]
    fan = [((shift, shift + 2 + j), (shift + 1, shift + 2 + (j + 1) % m)) for j in range(m)]
    rng.shuffle(fan)
    nets.append(fan)
    for net in nets:
        before = list(net)
        ctx.eval()
        info = dict(nodes=len(net), colours=f'{spread} {shift}')
        f = io.StringIO()
        N.save_network(f, net)
        ctx.require([[int(t) for t in line.split()] for line in f.getvalue().splitlines()] == [[-1 if c is None else c for s in x for c in s] for x in before], 'a saved network is not one line of four numbers for each node', **info)
        f.seek(0)
        ctx.require(N.open_network(f) == before, 'saving and loading a large network changes it', **info)
        ctx.require(N.flip_network(net) == [(o, i) for i, o in before], 'flipping a large network', **info)
        d = N.deduplicate_network(net)
        ctx.require({NT.canon(x): v for x, v in d.items()} == dict(collections.Counter(NT.canon(x) for x in before)), 'removing duplicates from a large network', **info)
        cs = sorted(set().union(*NT.colours(before)))
        ci, co = NT.exterior(before)
        m2 = {c: c * 3 + 1 for c in cs if rng.random() < 0.5}
        ctx.require(N.remap_colours(net, m2) == [tuple(tuple(m2.get(c, c) for c in s) for s in x) for x in before], 'renaming colours of a large network', **info)
        r = N.fix_colours(net)
        pairs = {(a, b) for x, y in zip(before, r) for s, t in zip(x, y) for a, b in zip(s, t)}
        ctx.require(len(r) == len(before) and len({a for a, b in pairs}) == len(pairs) == len({b for a, b in pairs}) and all((a is None) == (b is None) for a, b in pairs), 'renumbering a large network is no one-to-one renaming', **info)
        numbering(ctx, r, 'renumbering a large network', len(cs), len(ci), len(co), info)
        ordered = sorted(map(repr, map(NT.canon, r)))
        r = N.tidy_network(list(net))
        numbering(ctx, r, 'tidying a large network', len(cs), len(ci), len(co), info)
        count = lambda y: sorted(collections.Counter([(kind, c) for x in y for kind, s in enumerate(x) for c in s if c is not None]).values())
        shape = lambda y: sorted((sum(c is None for c in x[0]), sum(c is None for c in x[1])) for x in y)
        ctx.require(len(r) == len(before) and shape(r) == shape(before) and count(r) == count(before), 'tidying a large network does more than rename and reorder', **info)
        ctx.require(N.calculate_total_colours(net) == len(cs) and tuple(map(set, N.get_exterior_colours(net))) == (ci, co) and tuple(N.calculate_network_size(net)) == (len(ci), len(co)), 'colours of a large network', **info)
        s = NT.surplus(before)
        pos, neg = [(c, v) for c, v in s.items() if v > 0], [(c, -v) for c, v in s.items() if v < 0]
        try:
            got = N.get_input_output_colours(net)
        except AssertionError:
            got = 'error'
        ctx.require(got == ((pos[0], neg[0]) if len(pos) == len(neg) == 1 else 'error'), f'input and output colour {got} of a large network', surplus=repr(pos)[:200], deficit=repr(neg)[:200], **info)
        ctx.require(net == before, 'an operation changes the network it is given', **info)


def tasks(tier):
    from .networks import network_tasks
    n = 150 if tier == 'quick' else 1500
    return network_tasks() + [bound_task('files', [lambda c: files(c, n)]), bound_task('operations', [lambda c: operations(c, 2 * n)]),
            bound_task('generated', [lambda c: generated(c, 2, 50 if tier == 'quick' else 160)]),
            bound_task('large', [lambda c, k=k: large(c, k) for k in range(2 if tier == 'quick' else 12)]),
            bound_task('generated large', [lambda c, k=k: generated(c, k, k + 1) for k in ((201, 255, 512) if tier == 'quick' else (201, 255, 256, 300, 511, 512, 601, 1000))])]
