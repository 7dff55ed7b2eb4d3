"""Independent meaning of concrete layouts: a layout is a list of rows of JSON-form tiles.

Nothing here uses /repo: directions are 0 right, 1 up, 2 left, 3 down; y grows downwards.
"""
VEC = [(1, 0), (0, -1), (-1, 0), (0, 1)]
EMPTY = {'type': 'empty'}


def rev(d):
    return (d + 2) % 4


def belt(i, o):
    return {'type': 'belt', 'input_direction': i, 'output_direction': o}


def ug(d, is_input):
    return {'type': 'underground_belt', 'direction': d, 'is_input': is_input}


def splitter(d, is_head):
    return {'type': 'splitter', 'direction': d, 'is_head': is_head}


def all_tiles(filler=False):
    out = [dict(EMPTY)] + ([{'type': 'filler'}] if filler else [])
    for d in range(4):
        out += [belt(d, o) for o in range(4) if o != rev(d)]
        out += [ug(d, f) for f in (True, False)] + [splitter(d, f) for f in (True, False)]
    return out


def outputs(t):
    """Side a tile can output to (belt, exit, splitter half), or None."""
    k = t['type']
    if k == 'belt':
        return t['output_direction']
    if k == 'splitter':
        return t['direction']
    if k == 'underground_belt' and not t['is_input']:
        return t['direction']
    return None


def inputs(t):
    """Direction of travel of what a tile takes in, or None."""
    k = t['type']
    if k == 'belt':
        return t['input_direction']
    if k == 'splitter':
        return t['direction']
    if k == 'underground_belt' and t['is_input']:
        return t['direction']
    return None


class Layout:
    def __init__(self, rows, wrap=(False, False)):
        self.rows, self.wrap = rows, wrap
        self.h, self.w = len(rows), len(rows[0]) if rows else 0

    def at(self, x, y):
        if not 0 <= x < self.w:
            if not self.wrap[0]:
                return None
            x %= self.w
        if not 0 <= y < self.h:
            if not self.wrap[1]:
                return None
            y %= self.h
        return self.rows[y][x]

    def pos(self, x, y, d, k=1):
        x, y = x + VEC[d][0] * k, y + VEC[d][1] * k
        if self.wrap[0]:
            x %= self.w
        if self.wrap[1]:
            y %= self.h
        return (x, y) if 0 <= x < self.w and 0 <= y < self.h else None

    def cells(self):
        return [(x, y) for y in range(self.h) for x in range(self.w)]

    def exit_of(self, x, y):
        """Where the entrance at (x, y) comes out: (x, y), 'edge' or an error text."""
        d = self.rows[y][x]['direction']
        for k in range(1, self.w + self.h + 2):
            p = self.pos(x, y, d, k)
            if p is None:
                return 'edge'
            t = self.rows[p[1]][p[0]]
            if t['type'] == 'underground_belt' and t['direction'] % 2 == d % 2:
                if t['direction'] == d and not t['is_input']:
                    return p
                return f'entrance at {(x, y)} meets another underground at {p}'
        return f'entrance at {(x, y)} has no exit'

    def entrance_of(self, x, y):
        d = self.rows[y][x]['direction']
        for k in range(1, self.w + self.h + 2):
            p = self.pos(x, y, d, -k)
            if p is None:
                return 'edge'
            t = self.rows[p[1]][p[0]]
            if t['type'] == 'underground_belt' and t['direction'] % 2 == d % 2:
                if t['direction'] == d and t['is_input']:
                    return p
                return f'exit at {(x, y)} meets another underground at {p}'
        return f'exit at {(x, y)} has no entrance'

    def partner(self, x, y):
        """Other half of the splitter at (x, y), or None if it is missing."""
        t = self.rows[y][x]
        p = self.pos(x, y, (t['direction'] + (1 if t['is_head'] else -1)) % 4)
        if p is None:
            return None
        o = self.rows[p[1]][p[0]]
        if o['type'] == 'splitter' and o['direction'] == t['direction'] and o['is_head'] != t['is_head']:
            return p
        return None

    def problems(self, max_length=None, edge_undergrounds=True):
        """Why the layout is not legal (empty if it is)."""
        out = []
        for x, y in self.cells():
            t = self.rows[y][x]
            k = t['type']
            if k == 'splitter' and self.partner(x, y) is None:
                out.append(f'half splitter at {(x, y)}')
            if k in ('belt', 'underground_belt'):
                d = outputs(t)
                if d is not None:
                    p = self.pos(x, y, d)
                    if p is not None and inputs(self.rows[p[1]][p[0]]) != d:
                        out.append(f'{(x, y)} outputs into {p}, which does not take it')
                d = inputs(t)
                if d is not None:
                    p = self.pos(x, y, d, -1)
                    if p is not None and outputs(self.rows[p[1]][p[0]]) != d:
                        out.append(f'{(x, y)} takes from {p}, which does not feed it')
            if k == 'underground_belt':
                e = self.exit_of(x, y) if t['is_input'] else self.entrance_of(x, y)
                if e == 'edge':
                    if not edge_undergrounds:
                        out.append(f'underground at {(x, y)} leaves the grid')
                elif isinstance(e, str):
                    out.append(e)
                elif max_length is not None and t['is_input']:
                    n = self.length(x, y)
                    if n > max_length:
                        out.append(f'underground at {(x, y)} skips {n} cells')
        return out

    def length(self, x, y):
        d = self.rows[y][x]['direction']
        for k in range(1, self.w + self.h + 2):
            p = self.pos(x, y, d, k)
            t = self.rows[p[1]][p[0]]
            if t['type'] == 'underground_belt' and t['direction'] == d:
                return k - 1

    def feeders(self, x, y):
        """Directions of travel in which neighbours inside the layout push items into the belt at (x, y)."""
        o = self.rows[y][x]['output_direction']
        out = []
        for d in range(4):
            p = self.pos(x, y, d, -1)
            if p is not None and d != rev(o) and outputs(self.rows[p[1]][p[0]]) == d:
                out.append(d)
        return out

    def graph(self):
        """Directed connections between cells that carry items: belts, undergrounds and splitter halves."""
        e = set()
        for x, y in self.cells():
            t = self.rows[y][x]
            d = outputs(t)
            if d is not None:
                p = self.pos(x, y, d)
                if p is not None and inputs(self.rows[p[1]][p[0]]) == d:
                    e.add(((x, y), p, 'belt'))
            if t['type'] == 'underground_belt' and t['is_input']:
                p = self.exit_of(x, y)
                if isinstance(p, tuple):
                    e.add(((x, y), p, 'underground'))
            if t['type'] == 'splitter' and t['is_head'] and self.partner(x, y):
                e.add(((x, y), self.partner(x, y), 'splitter'))
        return e


def from_tiles(arr):
    return [[t.write() for t in row] for row in arr]


def to_tiles(rows):
    import numpy as np
    from factorio_sat.tile import BaseTile
    out = np.empty((len(rows), len(rows[0]) if rows else 0), dtype=object)
    for y, r in enumerate(rows):
        for x, t in enumerate(r):
            out[y, x] = make(t)
    return out


def make(t):
    """Tile object for a JSON-form tile, without using the code's own reader."""
    from factorio_sat.direction import Direction
    from factorio_sat import tile as T
    k = t['type']
    if k == 'belt':
        return T.Belt(Direction(t['input_direction']), Direction(t['output_direction']))
    if k == 'underground_belt':
        return T.UndergroundBelt(Direction(t['direction']), t['is_input'])
    if k == 'splitter':
        return T.Splitter(Direction(t['direction']), t['is_head'])
    if k == 'inserter':
        return T.Inserter(Direction(t['direction']), t['insert_type'])
    if k == 'assembling_machine':
        return T.AssemblingMachine(t['x'], t['y'])
    return T.FillerTile() if k == 'filler' else T.EmptyTile()


def random_legal(rng, w, h, wrap=(False, False), density=0.5, edge_undergrounds=True, closed=False):
    """A random legal layout (closed: nothing crosses its edges) found with the real rules (solver with random polarities); checked by problems()."""
    from factorio_sat.solver import Grid
    from factorio_sat.template import EdgeMode
    from pysat.solvers import Solver
    m = {True: EdgeMode.WRAP, False: EdgeMode.NO_WRAP}
    g = Grid(w, h, None, edge_mode=(m[wrap[0]], m[wrap[1]]))
    g.prevent_bad_undergrounding()
    g.enforce_maximum_underground_length()
    g.prevent_intersection()
    if not edge_undergrounds:
        g.block_underground_through_edges(tuple(not v for v in wrap))
    if closed:
        g.block_belts_through_edges()
    with Solver('g3', bootstrap_with=g.clauses) as s:
        s.set_phases([v if rng.random() < 0.5 else -v for v in range(1, g.pool.top + 1)])
        assume = []
        cells = [(x, y) for x in range(w) for y in range(h)]
        rng.shuffle(cells)
        for x, y in cells:
            t = g.get_tile_instance(x, y)
            if rng.random() < density:
                pick = rng.choice([t.is_belt, t.is_belt, t.is_splitter, t.is_underground_in, t.is_underground_out])
                if s.solve(assumptions=assume + [pick]):
                    assume.append(pick)
        if not s.solve(assumptions=assume):
            return None
        model = set(s.get_model())
    return decode(g, model)


def decode(g, model):
    """Rows of tiles described by a model (a set of literals), from the cells' variables alone."""
    h, w = g.tiles.shape
    rows = []
    for y in range(h):
        row = []
        for x in range(w):
            t = g.tiles[y, x]
            i = [d for d in range(4) if t.input_direction[d] in model]
            o = [d for d in range(4) if t.output_direction[d] in model]
            if t.is_empty in model:
                row.append(dict(EMPTY))
            elif t.is_belt in model:
                row.append(belt(i[0], o[0]))
            elif t.is_underground_in in model:
                row.append(ug(i[0], True))
            elif t.is_underground_out in model:
                row.append(ug(o[0], False))
            else:
                row.append(splitter((i + o)[0], t.is_splitter_head in model))
        rows.append(row)
    return rows
