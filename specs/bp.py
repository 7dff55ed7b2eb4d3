"""Independent meaning of blueprints: entity lists <-> layouts (JSON-form tiles)."""
import math
from . import layout as LY

LEVELS = {'NORMAL': '', 'FAST': 'fast-', 'EXPRESS': 'express-'}
CODE = {1: 0, 0: 2, 3: 4, 2: 6}     # our direction -> game code
BACK = {v: k for k, v in CODE.items()}


def entities(rows, level='NORMAL'):
    """Multiset of entities a layout stands for: (name, x, y, direction code, type), in half cells."""
    pre = LEVELS[level]
    out = []
    for y, r in enumerate(rows):
        for x, t in enumerate(r):
            k = t['type']
            if k == 'belt':
                out.append((pre + 'transport-belt', 2 * x + 1, 2 * y + 1, CODE[t['output_direction']], None))
            elif k == 'underground_belt':
                out.append((pre + 'underground-belt', 2 * x + 1, 2 * y + 1, CODE[t['direction']], 'input' if t['is_input'] else 'output'))
            elif k == 'inserter':
                out.append((['inserter', 'long-handed-inserter'][t['insert_type']], 2 * x + 1, 2 * y + 1, CODE[LY.rev(t['direction'])], None))
            elif k == 'splitter' and t['is_head']:
                dx, dy = LY.VEC[(t['direction'] + 1) % 4]
                out.append((pre + 'splitter', 2 * x + 1 + dx, 2 * y + 1 + dy, CODE[t['direction']], None))
    return sorted(out, key=str)


def read_entities(data):
    return sorted(((e['name'], 2 * e['position']['x'], 2 * e['position']['y'], e.get('direction', 0), e.get('type')) for e in data['blueprint']['entities']), key=str)


def imported(ents):
    """Layout of a list of entities (as in a blueprint), moved to the origin."""
    at = {}
    for e in ents:
        n, d = e['name'], BACK[e.get('direction', 0)]
        x, y = e['position']['x'], e['position']['y']
        cell = (math.floor(x), math.floor(y))
        if n.endswith('splitter'):
            dx, dy = LY.VEC[(d + 1) % 4]
            at[math.floor(x - dx / 2), math.floor(y - dy / 2)] = LY.splitter(d, True)
            at[math.floor(x + dx / 2), math.floor(y + dy / 2)] = LY.splitter(d, False)
        elif n.endswith('transport-belt'):
            at[cell] = LY.belt(d, d)
        elif n.endswith('underground-belt'):
            at[cell] = LY.ug(d, e['type'] == 'input')
        elif n.endswith('inserter'):
            at[cell] = {'type': 'inserter', 'direction': LY.rev(d), 'insert_type': int(n.startswith('long'))}
        elif n.startswith('assembling-machine'):
            for i in range(3):
                for j in range(3):
                    at[cell[0] - 1 + i, cell[1] - 1 + j] = {'type': 'assembling_machine', 'x': i, 'y': j}
        else:
            at[cell] = {'type': 'filler'}
    if not at:
        return []
    x0, y0 = min(x for x, _ in at), min(y for _, y in at)
    x1, y1 = max(x for x, _ in at), max(y for _, y in at)
    rows = [[at.get((x, y), dict(LY.EMPTY)) for x in range(x0, x1 + 1)] for y in range(y0, y1 + 1)]
    return bend(rows)


def bend(rows):
    """Belts take their input from their only feeding neighbour inside the layout, otherwise from behind."""
    lay = LY.Layout(rows)
    out = []
    for y, r in enumerate(rows):
        out.append([])
        for x, t in enumerate(r):
            if t['type'] == 'belt':
                f = lay.feeders(x, y)
                t = LY.belt(f[0] if len(f) == 1 else t['output_direction'], t['output_direction'])
            out[-1].append(t)
    return out


def returned(rows):
    """What comes back after exporting and importing a layout."""
    keep = [(x, y) for y, r in enumerate(rows) for x, t in enumerate(r) if t['type'] not in ('empty', 'filler')]
    if not keep:
        return []
    x0, y0 = min(x for x, _ in keep), min(y for _, y in keep)
    x1, y1 = max(x for x, _ in keep), max(y for _, y in keep)
    return bend([[dict(LY.EMPTY) if rows[y][x]['type'] == 'filler' else rows[y][x] for x in range(x0, x1 + 1)] for y in range(y0, y1 + 1)])
