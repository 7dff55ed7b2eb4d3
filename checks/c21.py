import collections
import itertools
import json
import os
import time

from .common import *
from .c15 import limit, scratch
from .c19 import run_main
from specs import layout as LY, nets as NT

LEVEL = 'exploration'
TECHNIQUE = 'bounded stand-in: layouts parsed and compared with an independent tracing of the belts'
RULE = 'random and exhaustively enumerated legal layouts: network read by the code compared (up to colour names, node order and side order) with an independent union-find over the belt connections'
BOUND = 'random layouts up to 9x9, some of 24x24 and 60x8, closed ones side by side up to 80x80 (hundreds of splitters), all 3x2 / 2x3 layouts with a splitter (sampled), belts of up to 3000 cells'


def expected(rows, edges):
    """Network of a layout: sides coloured by what they are connected to."""
    L = LY.Layout(rows)
    par = {}

    def find(a):
        while par.setdefault(a, a) != a:
            a = par[a]
        return a
    spl = lambda p: L.rows[p[1]][p[0]]['type'] == 'splitter'
    # sides: ('out', cell) leaves the splitter half at cell, ('in', cell) enters it; other cells are path elements
    for a, b, kind in L.graph():
        if kind == 'splitter':
            continue
        x = ('out', a) if spl(a) else ('cell', a)
        y = ('in', b) if spl(b) else ('cell', b)
        par[find(x)] = find(y)
    nodes = []
    for x, y in L.cells():
        t = L.rows[y][x]
        if t['type'] == 'splitter' and t['is_head']:
            halves = [(x, y), L.partner(x, y)]
            nodes.append([[('in', h) for h in halves], [('out', h) for h in halves]])

    def connected(side):
        kind, (x, y) = side
        if side in par:
            return True
        d = L.rows[y][x]['direction']
        p = L.pos(x, y, d, 1 if kind == 'out' else -1)
        return p is None and edges
    produced, consumed = {}, set()
    for k, (ins, outs) in enumerate(nodes):
        for s in outs:
            if connected(s):
                produced[find(s)] = k
        for s in ins:
            if connected(s):
                consumed.add(find(s))
    net = []
    for ins, outs in nodes:
        i = tuple(None if not connected(s) else ('S', produced[find(s)]) if find(s) in produced else 'IN' for s in ins)
        o = tuple(None if not connected(s) else ('S', produced[find(s)]) if find(s) in consumed else 'OUT' for s in outs)
        net.append((i, o))
    names = {}
    return [tuple(tuple(None if c is None else names.setdefault(c, len(names)) for c in s) for s in n) for n in net]


def refined(net, rounds=40):
    """Nodes told apart by what is around them, as far as that goes: equal for the same network in whatever order and names."""
    node = [0] * len(net)
    colour = {c: 0 for n in net for side in n for c in side if c is not None}
    code = {}
    for _ in range(rounds):
        node = [code.setdefault(('node', node[k], *(tuple(sorted(-1 if c is None else colour[c] for c in side)) for side in n)), len(code)) for k, n in enumerate(net)]
        seen = collections.defaultdict(list)
        for k, n in enumerate(net):
            for side, cs in enumerate(n):
                for c in cs:
                    if c is not None:
                        seen[c].append((side, node[k]))
        colour = {c: code.setdefault(('colour', colour[c], *sorted(v)), len(code)) for c, v in seen.items()}
    return node, code


def same_refined(a, b):
    # both at once, so that equal surroundings get equal codes
    shift = 1 + max([c for n in a for s in n for c in s if c is not None], default=0)
    both = list(a) + [tuple(tuple(None if c is None else c + shift for c in s) for s in n) for n in b]
    node, _ = refined(both)
    return sorted(node[:len(a)]) == sorted(node[len(a):])


def parse_and_compare(ctx, rows, what, edges=False):
    from factorio_sat import network as N
    tiles = LY.to_tiles(rows)
    got = N.parse_network(tiles, edges) if edges else N.parse_network(tiles)
    ctx.eval()
    want = expected(rows, edges)
    ctx.require(LY.from_tiles(tiles) == rows, 'parsing changes the tiles')
    ctx.require(len(got) == len(want), f'{what}: {len(got)} nodes for {len(want)} splitters', rows=rows if len(rows) < 12 else None)
    ok = same_refined(want, got)
    if ok:
        try:
            ok = NT.isomorphic(want, got) is not None
        except RuntimeError:
            ok = True       # too many symmetries to search; what is around every splitter agrees
    ctx.require(ok, f'{what}: the network read differs from the layout\'s', rows=rows if len(rows) < 12 else None, got=got, want=want, edges_connected=edges)
    return got


def random_layouts(ctx, n, k):
    import random
    rng = random.Random(ctx.seed * 31 + k)
    seen = 0
    for _ in range(n):
        w, h = rng.randint(2, 9), rng.randint(2, 9)
        rows = LY.random_legal(rng, w, h, density=rng.choice((0.3, 0.6, 0.9)), edge_undergrounds=False)
        if rows is None:
            continue
        L = LY.Layout(rows)
        if L.problems(edge_undergrounds=False):
            continue
        if rng.random() < 0.3:
            rows = [[{'type': 'filler'} if t['type'] == 'empty' and rng.random() < 0.3 else t for t in r] for r in rows]
        parse_and_compare(ctx, rows, f'{w}x{h} layout', rng.random() < 0.3)
        seen += any(t['type'] == 'splitter' for r in rows for t in r)
    ctx.sample(rows)


def small(ctx, w, h, limit_n):
    """Every legal layout of a size that has a splitter (an evenly spread sample when there are too many)."""
    tiles = LY.all_tiles()
    n = 0
    rng = ctx.rng

    def fits(rows):
        L = LY.Layout(rows)
        return not L.problems(edge_undergrounds=False)
    # depth-first over cells with local pruning; random order so that a cut sample is spread
    cells = [(x, y) for y in range(h) for x in range(w)]

    def go(k, rows):
        nonlocal n
        if n >= limit_n or time.time() > end:
            return
        if k == len(cells):
            if any(t['type'] == 'splitter' for r in rows for t in r) and fits(rows):
                n += 1
                parse_and_compare(ctx, [list(r) for r in rows], f'{w}x{h} layout', n % 4 == 0)
            return
        x, y = cells[k]
        order = tiles[:]
        rng.shuffle(order)
        for t in order[:9]:
            ok = True
            for (px, py), d in (((x - 1, y), 0), ((x, y - 1), 3)):
                if px < 0 or py < 0:
                    continue
                a = rows[py][px]
                ao, bi = LY.outputs(a) == d, LY.inputs(t) == d
                bo, ai = LY.outputs(t) == LY.rev(d), LY.inputs(a) == LY.rev(d)
                sa, st = a['type'] == 'splitter', t['type'] == 'splitter'
                if ao and not bi and not sa or bi and not ao and not st or bo and not ai and not st or ai and not bo and not sa:
                    ok = False
                if ao and bi and False:
                    ok = False
            if ok:
                rows[y][x] = t
                go(k + 1, rows)
                rows[y][x] = dict(LY.EMPTY)
    end = time.time() + (8 if limit_n < 2000 else 100)
    for _ in range(60):
        if time.time() > end:
            break
        go(0, [[dict(LY.EMPTY) for _ in range(w)] for _ in range(h)])
        if n >= limit_n:
            break


def snake(w, h, splitter_first=True):
    """A long belt through the whole grid from a splitter to a splitter."""
    rows = [[dict(LY.EMPTY) for _ in range(w)] for _ in range(h)]
    path = []
    for y in range(h):
        path += [(x, y) for x in (range(w) if y % 2 == 0 else range(w - 1, -1, -1))]
    for k, (x, y) in enumerate(path):
        i = path[k - 1] if k else (x - 1, y)
        o = path[k + 1] if k + 1 < len(path) else (x + (1 if y % 2 == 0 else -1), y)
        rows[y][x] = LY.belt(LY.VEC.index((x - i[0], y - i[1])), LY.VEC.index((o[0] - x, o[1] - y)))
    # splitter at the very end
    ex, ey = path[-1]
    pad = [dict(LY.EMPTY)] * 2
    rows = [[*pad, *r, *pad] for r in rows] + [[dict(LY.EMPTY)] * (w + 4)]
    right = (h - 1) % 2 == 0
    cx = ex + 2 + (1 if right else -1)
    d = 0 if right else 2
    heads = {0: (True, False), 2: (False, True)}[d]
    rows[ey][cx], rows[ey + 1][cx] = LY.splitter(d, None), LY.splitter(d, None)
    for hd in (True, False):
        rows[ey][cx]['is_head'], rows[ey + 1][cx]['is_head'] = hd, not hd
        if LY.Layout(rows).partner(cx, ey) == (cx, ey + 1):
            break
    rows[0][1] = LY.belt(0, 0)
    rows[0][0] = LY.belt(0, 0)
    if right:
        nx = cx + 1
        if nx < w + 4:
            rows[ey][nx] = LY.belt(d, d)
    else:
        nx = cx - 1
        if nx >= 0:
            rows[ey][nx] = LY.belt(d, d)
    return rows


def handmade(ctx):
    for w, h in ((5, 5), (30, 40), (60, 50)):
        rows = snake(w, h)
        L = LY.Layout(rows)
        ps = L.problems(edge_undergrounds=False)
        if ps:
            raise Unsupported_(ps)
        with limit(ctx, 60, 'parsing a long belt'):
            parse_and_compare(ctx, rows, f'belt of {w * h} cells')
        flip = [[dict(t, input_direction=LY.rev(t['output_direction']), output_direction=LY.rev(t['input_direction'])) if t['type'] == 'belt' else
                 dict(t, direction=LY.rev(t['direction']), is_head=not t['is_head']) if t['type'] == 'splitter' else t for t in r] for r in rows]
        if not LY.Layout(flip).problems(edge_undergrounds=False):
            parse_and_compare(ctx, flip, f'reversed belt of {w * h} cells')
    # undergrounds of every direction touching every border
    for d in range(4):
        dx, dy = LY.VEC[d]
        for gap in (1, 2, 4, 9, 40):
            n = gap + 2
            w, h = (n + 3, 2) if dx else (2, n + 3)
            for lead in (0, 1):
                for lane in (0, 1):
                    rows = [[dict(LY.EMPTY) for _ in range(w)] for _ in range(h)]
                    line = [LY.belt(d, d)] * lead + [LY.ug(d, True)] + [None] * gap + [LY.ug(d, False)]
                    line += ['S']
                    size = w if dx else h
                    pos = 0 if (dx > 0 or dy > 0) else size - 1
                    step = 1 if (dx > 0 or dy > 0) else -1
                    for it in line:
                        if not 0 <= pos < size:
                            break
                        if it == 'S':
                            a, b = ((pos, 0), (pos, 1)) if dx else ((0, pos), (1, pos))
                            for hd in (True, False):
                                rows[a[1]][a[0]], rows[b[1]][b[0]] = LY.splitter(d, hd), LY.splitter(d, not hd)
                                if LY.Layout(rows).partner(*a) == b:
                                    break
                        elif it is not None:
                            x, y = (pos, lane) if dx else (lane, pos)
                            rows[y][x] = it
                        pos += step
                    if not LY.Layout(rows).problems(edge_undergrounds=False):
                        parse_and_compare(ctx, rows, 'underground at the border')
                        parse_and_compare(ctx, rows, 'underground at the border', True)


def large(ctx, w, h, k):
    """Legal layouts of a size that gives far more splitters and colours than the small ones, with edges open and connected."""
    import random
    rng = random.Random(ctx.seed * 77 + k)
    rows = LY.random_legal(rng, w, h, density=0.6, edge_undergrounds=False)
    if LY.Layout(rows).problems(edge_undergrounds=False):
        return
    for edges in (False, True):
        with limit(ctx, 200, 'parsing a large layout'):
            parse_and_compare(ctx, rows, f'{w}x{h} layout', edges)


def patchwork(ctx, n, k):
    """Closed legal layouts side by side: hundreds of splitters and colours."""
    import random
    rng = random.Random(ctx.seed * 99 + k)
    blocks = []
    while len(blocks) < 8:
        b = LY.random_legal(rng, 10, 10, density=0.9, edge_undergrounds=False, closed=True)
        if b is not None and any(t['type'] == 'splitter' for r in b for t in r):
            blocks.append(b)
    rows = []
    for _ in range(n):
        line = [rng.choice(blocks) for _ in range(n)]
        rows += [[t for b in line for t in b[y]] for y in range(10)]
    if LY.Layout(rows).problems(edge_undergrounds=False):
        raise Unsupported_('patchwork')
    with limit(ctx, 200, 'parsing a large layout'):
        parse_and_compare(ctx, rows, f'{n * 10}x{n * 10} layout')


class Unsupported_(Exception):
    pass


def program(ctx):
    from factorio_sat import network as N
    with scratch() as d:
        for k in range(6):
            rows = None
            while rows is None or LY.Layout(rows).problems(edge_undergrounds=False) or not any(t['type'] == 'splitter' for r in rows for t in r):
                rows = LY.random_legal(ctx.rng, 6, 5, density=0.8, edge_undergrounds=False)
            out = os.path.join(d, 'net')
            want = expected(rows, k % 2 == 1)
            if not set().union(*NT.colours(want)):
                continue
            run_main(N, ['parse', out] + (['--assume-valid-output'] if k % 2 else []), [json.dumps([[{'tile': t} for t in r] for r in rows])])
            got = N.open_network(out)
            ctx.eval()
            ctx.require(NT.isomorphic(want, got) is not None, 'the parse program writes another network', rows=rows, got=got, want=want)


def tasks(tier):
    n = 250 if tier == 'quick' else 2500
    return [bound_task(f'random {k}', [lambda c, k=k: random_layouts(c, n, k)]) for k in range(4)] + \
        [bound_task(f'small {w}x{h}', [lambda c, w=w, h=h: small(c, w, h, 800 if tier == 'quick' else 8000)]) for w, h in ((2, 2), (3, 2), (2, 3))] + \
        [bound_task(f'large {w}x{h}', [lambda c, w=w, h=h, k=k: large(c, w, h, k)]) for k, (w, h) in enumerate([(24, 24), (60, 8), (7, 70)] + ([(40, 40), (36, 30)] if tier != 'quick' else []))] + \
        [bound_task(f'patchwork {n}', [lambda c, n=n: patchwork(c, n, n)]) for n in ((4, 8) if tier == 'quick' else (4, 8, 12, 20))] + \
        [bound_task('handmade', [handmade]), bound_task('program', [program])]
