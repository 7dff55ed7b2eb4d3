import itertools
import json

import numpy as np

from .common import *
from specs import layout as LY, bp as BP
from .c19 import run_main

LEVEL = 'proof'
TECHNIQUE = 'deductive: contracts of exporting, importing, bending and the blueprint string, for layouts of any size and entities in any order and place'
NOTE = ('Exporting is run on a layout of any size whose cells hold any tile: the entity of every cell, its place in half cells, its direction code, its number (counter invariant: the number of entities before it) '
        'and that nothing else is written. Importing is run on any number of entities of every supported kind at any place: every write is a cell of its entity, moved so that all four borders are in use, and belts are bent last. '
        'Bending is run on an array of any size: every belt keeps its output and is entered from its only feeding side. A composition lemma feeds the exported entity of every tile to the contract of importing. '
        'Blueprint strings use opaque library values. Random layouts, entity lists and neighbourhoods stay as the bounded companion.')
ASSUMPTIONS = ['halves of integers below 2**52 are exact floats', 'json.loads, zlib.decompress and base64.b64decode undo json.dumps, zlib.compress and base64.b64encode; struct packs little-endian unsigned numbers', 'np.ndenumerate visits every cell once, row by row',
               'entities of an imported blueprint do not overlap', 'read_tile and write_tile by C15; the program loop is bounded']
RULE = 'random legal layouts of every level through export and import, entity lists compared with an independent reading; every neighbourhood class of a belt; blueprint strings both ways'
BOUND = 'bounded companion: layouts up to 6x6 and some of 40x70, exports up to 300x301, places up to 10^6, all 4 x 6^4 neighbourhood classes of a belt'
EXTRA = [{'type': 'inserter', 'direction': d, 'insert_type': t} for d in range(4) for t in (0, 1)]


def to_rows(arr):
    from .c18 import json_of
    return [[json_of(t) for t in r] for r in arr]


def exports(ctx):
    from factorio_sat import blueprint as B
    import copy
    template = copy.deepcopy(B.BLUEPRINT_TEMPLATE)
    grids = [[[t]] for t in LY.all_tiles(True) + EXTRA if t['type'] != 'splitter']
    for _ in range(60 if ctx.thorough else 25):
        rows = LY.random_legal(ctx.rng, ctx.rng.randint(1, 6), ctx.rng.randint(1, 6), density=ctx.rng.choice((0.2, 0.5, 0.9)), edge_undergrounds=ctx.rng.random() < 0.5)
        if rows is None:
            continue
        # fill some empty cells with other things, pad with empty rows / columns
        rows = [[ctx.rng.choice(EXTRA + [{'type': 'filler'}]) if t['type'] == 'empty' and ctx.rng.random() < 0.2 else t for t in r] for r in rows]
        if ctx.rng.random() < 0.5:
            rows = [[dict(LY.EMPTY)] * (len(rows[0]) + 1)] + [[dict(LY.EMPTY)] + r for r in rows]
        if ctx.rng.random() < 0.5:
            rows = [r + [dict(LY.EMPTY)] for r in rows] + [[dict(LY.EMPTY)] * (len(rows[0]) + 1)]
        grids.append(rows)
    for i, rows in enumerate(grids):
        tiles = LY.to_tiles(rows)
        level = list(BP.LEVELS)[i % 3]
        label = [None, 'x', 'Ω'][i % 3]
        data = B.make_blueprint(tiles, label, B.TransportBeltLevel[level])
        ctx.eval()
        ctx.require(B.BLUEPRINT_TEMPLATE == template, 'exporting alters the shared template')
        ctx.require(to_rows(tiles) == rows, 'exporting alters the tiles')
        ctx.require(BP.read_entities(data) == BP.entities(rows, level), f'entities of a {len(rows[0])}x{len(rows)} layout', rows=rows, got=data['blueprint']['entities'], want=BP.entities(rows, level))
        nums = [e['entity_number'] for e in data['blueprint']['entities']]
        ctx.require(nums == list(range(1, len(nums) + 1)), f'entity numbers {nums}', rows=rows)
        ctx.require(data['blueprint'].get('label') == label, f'label {label!r} became {data["blueprint"].get("label")!r}')
        text = B.encode_blueprint(data)
        ctx.require(B.decode_blueprint(text) == data, 'blueprint string decodes to other data')
        back = to_rows(B.import_blueprint(B.decode_blueprint(text)))
        ctx.require(back == BP.returned(rows), f'a {len(rows[0])}x{len(rows)} layout comes back changed', rows=rows, back=back, want=BP.returned(rows))
        ctx.require(to_rows(B.convert_to_tiles(text)) == back, 'convert_to_tiles and import_blueprint differ')
    # nothing at all
    ctx.require(B.import_blueprint(B.make_blueprint(LY.to_tiles([[dict(LY.EMPTY)]]))).size == 0, 'an empty layout does not come back empty')
    ctx.sample(grids[-1])


def imports(ctx):
    from factorio_sat import blueprint as B
    names = ['burner-inserter', 'inserter', 'fast-inserter', 'filter-inserter', 'stack-inserter', 'stack-filter-inserter', 'long-handed-inserter', 'assembling-machine-1', 'assembling-machine-3', 'wooden-chest']
    for i in range(200 if ctx.thorough else 80):
        used, ents = set(), []
        ox, oy = ctx.rng.randint(-40, 40), ctx.rng.randint(-40, 40)
        for _ in range(ctx.rng.randint(1, 14)):
            d = ctx.rng.randrange(4)
            x, y = ctx.rng.randint(0, 5), ctx.rng.randint(0, 5)
            kind = ctx.rng.choice(['transport-belt'] * 4 + ['underground-belt', 'splitter', 'splitter', 'other'])
            e = {'position': {'x': ox + x + 0.5, 'y': oy + y + 0.5}}
            cells = [(x, y)]
            if kind == 'splitter':
                dx, dy = LY.VEC[(d + 1) % 4]
                cells.append((x + dx, y + dy))
                e['position'] = {'x': ox + x + 0.5 + dx / 2, 'y': oy + y + 0.5 + dy / 2}
            elif kind == 'underground-belt':
                e['type'] = ctx.rng.choice(('input', 'output'))
            if kind == 'other':
                e['name'] = ctx.rng.choice(names)
                if e['name'].startswith('assembling'):
                    cells = [(x + a, y + b) for a in (-1, 0, 1) for b in (-1, 0, 1)]
                elif e['name'] == 'wooden-chest' or e['name'].startswith('assembling'):
                    d = 1
            else:
                e['name'] = ctx.rng.choice(list(BP.LEVELS.values())) + kind
            if used & set(cells):
                continue
            used |= set(cells)
            if BP.CODE[d] or ctx.rng.random() < 0.3:
                e['direction'] = BP.CODE[d]
            e['entity_number'] = len(ents) + 1
            ents.append(e)
        want = BP.imported(ents)
        ctx.rng.shuffle(ents)
        got = to_rows(B.import_blueprint({'blueprint': {'entities': ents}}))
        ctx.eval()
        ctx.require(got == want, f'{len(ents)} entities imported wrongly', entities=ents, got=got, want=want)
    for bad in ('stone-furnace', 'pipe'):
        try:
            B.import_blueprint({'blueprint': {'entities': [{'entity_number': 1, 'name': bad, 'position': {'x': 0.5, 'y': 0.5}}]}})
            ctx.fail(f'unsupported entity {bad} imported')
        except Exception:
            pass


def neighbourhoods(ctx):
    """A belt with every combination of neighbour classes on its four sides."""
    from factorio_sat import blueprint as B
    classes = [[None], [dict(LY.EMPTY), {'type': 'filler'}] + EXTRA[:2] + [LY.ug(d, True) for d in range(4)]]
    for o in range(4):
        classes.append([t for t in LY.all_tiles() if LY.outputs(t) == o])
    for o in range(4):
        for combo in itertools.product(range(6), repeat=4):
            sides = [None if c == 0 else ctx.rng.choice(classes[c]) for c in combo]
            # side k: the neighbour whose items would enter travelling in direction k
            lo_x, hi_x = (0 if sides[0] is None else 1), (0 if sides[2] is None else 1)
            lo_y, hi_y = (0 if sides[3] is None else 1), (0 if sides[1] is None else 1)
            rows = [[dict(LY.EMPTY) for _ in range(lo_x + 1 + hi_x)] for _ in range(lo_y + 1 + hi_y)]
            rows[lo_y][lo_x] = LY.belt(o, o)
            for k, t in enumerate(sides):
                if t is not None:
                    dx, dy = LY.VEC[k]
                    rows[lo_y - dy][lo_x - dx] = t
            tiles = LY.to_tiles(rows)
            B.resolve_belt_input_directions(tiles)
            ctx.eval()
            got, want = to_rows(tiles), BP.bend(rows)
            ctx.require(got == want, f'belt going {o} with neighbours {sides}', rows=rows, got=got, want=want)
    for _ in range(400):
        w, h = ctx.rng.randint(1, 4), ctx.rng.randint(1, 4)
        rows = [[ctx.rng.choice(LY.all_tiles(True)) for _ in range(w)] for _ in range(h)]
        tiles = LY.to_tiles(rows)
        B.resolve_belt_input_directions(tiles)
        ctx.eval()
        got, want = to_rows(tiles), BP.bend(rows)
        ctx.require(got == want, f'belts of a {w}x{h} layout resolved wrongly', rows=rows, got=got, want=want)


def strings(ctx):
    from factorio_sat import blueprint as B
    for data in ({}, {'blueprint': {'label': 'ünï \u2028 "\\'}}, [1, 2.5, None, True, 'x' * 5000], {'a': [{'b': 10 ** 30, 'c': -0.125}]}):
        s = B.encode_blueprint(data)
        ctx.eval()
        ctx.require(isinstance(s, str) and s[0] == '0' and '\n' not in s, 'blueprint string is not one line of version 0')
        ctx.require(B.decode_blueprint(s) == data, 'blueprint string decodes to other data', data=data)
        for v in '123456789ae!':
            try:
                B.decode_blueprint(v + s[1:])
            except Exception:
                continue
            ctx.fail(f'blueprint version {v!r} accepted')
            return
    for v in ((1, 0, 0, 0), (0, 17, 79, 3), (65535, 65535, 65535, 65535), (0, 0, 0, 1)):
        n = B.encode_factorio_version(*v)
        ctx.eval()
        ctx.require(tuple(B.decode_factorio_version(n)) == v and n == v[0] | v[1] << 16 | v[2] << 32 | v[3] << 48, f'version {v} becomes {n}')
    # program
    for _ in range(6):
        rows = LY.random_legal(ctx.rng, 4, 4)
        line = json.dumps([[{'tile': t} for t in r] for r in rows])
        for level in BP.LEVELS:
            out = run_main(B, ['encode', '--level', level.lower(), '--label', 'q'], [line, line])
            ctx.eval()
            ctx.require(len(out) == 2, f'{len(out)} blueprints for 2 grids')
            data = B.decode_blueprint(out[0])
            ctx.require(BP.read_entities(data) == BP.entities(rows, level) and data['blueprint'].get('label') == 'q', 'the program exports other entities', rows=rows)
            back = run_main(B, ['decode'], out)
            if BP.returned(rows):
                ctx.require(json.loads(back[0]) == [[{'tile': t} for t in r] for r in BP.returned(rows)], 'encode | decode changes the layout', rows=rows, back=back[0])


def large(ctx, tier):
    """Layouts put together from many small ones, exported, imported from far away and in another order."""
    from factorio_sat import blueprint as B
    blocks = []
    while len(blocks) < 12:
        r = LY.random_legal(ctx.rng, 6, 6, density=ctx.rng.choice((0.5, 0.9)))
        if r is not None:
            blocks.append(r)
    # very many tiles of every kind, exported only
    pool = LY.all_tiles(True) + EXTRA
    objects = [LY.make(t) for t in pool]
    for w, h in ((301, 300), (70000, 1))[:2 if ctx.thorough else 1]:
        pick = [[ctx.rng.randrange(len(pool)) for _ in range(w)] for _ in range(h)]
        tiles = np.empty((h, w), dtype=object)
        for y in range(h):
            for x in range(w):
                tiles[y, x] = objects[pick[y][x]]
        data = B.make_blueprint(tiles)
        ctx.eval()
        ctx.require(BP.read_entities(data) == BP.entities([[pool[i] for i in r] for r in pick]), f'entities of a {w}x{h} layout')
        ctx.require([e['entity_number'] for e in data['blueprint']['entities']] == list(range(1, len(data['blueprint']['entities']) + 1)), f'entity numbers of a {w}x{h} layout')
    for w, h in ((70, 40), (3, 130), (300, 2))[:3 if ctx.thorough else 2]:
        rows = [[dict(LY.EMPTY) for _ in range(w)] for _ in range(h)]
        for by in range(0, h, 7):
            for bx in range(0, w, 7):
                b = ctx.rng.choice(blocks)
                for y in range(6):
                    for x in range(6):
                        if by + y < h and bx + x < w and (b[y][x]['type'] != 'splitter' or min(w - bx, h - by) >= 6):
                            rows[by + y][bx + x] = b[y][x]
        for level in BP.LEVELS:
            data = B.make_blueprint(LY.to_tiles(rows), 'big', B.TransportBeltLevel[level])
            ctx.eval()
            got, want = BP.read_entities(data), BP.entities(rows, level)
            ctx.require(got == want, f'entities of a {w}x{h} layout', wrong=repr([e for e in got if e not in want][:3]))
            nums = [e['entity_number'] for e in data['blueprint']['entities']]
            ctx.require(nums == list(range(1, len(nums) + 1)), f'entity numbers of a {w}x{h} layout')
            data = B.decode_blueprint(B.encode_blueprint(data))
            ents = data['blueprint']['entities']
            ox, oy = ctx.rng.choice((-10 ** 6, 0, 999999)), ctx.rng.choice((-10 ** 6, 0, 12345))
            for e in ents:
                e['position']['x'] += ox
                e['position']['y'] += oy
            ctx.rng.shuffle(ents)
            ctx.require(to_rows(B.import_blueprint(data)) == BP.returned(rows), f'a {w}x{h} layout comes back changed', offset=(ox, oy))


def tasks(tier):
    from .blueprints import blueprint_tasks
    return blueprint_tasks() + [bound_task('exports', [exports]), bound_task('imports', [imports]), bound_task('neighbourhoods', [neighbourhoods]), bound_task('large', [lambda c: large(c, tier)]), bound_task('strings', [strings])]
