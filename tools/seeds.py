"""Planted bugs (written from the property texts): edits of /repo, a demonstration, and what it needs."""
SEEDS = []


def seed(id, property, edits, demo, needs, breaks, **k):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))


U, C, S, T, O = (f'factorio_sat/{m}.py' for m in ('util', 'cardinality', 'solver', 'template', 'optimisations'))

SAT = '''
from pysat.solvers import Solver


def sat(clauses, assume=()):
    with Solver('g3', bootstrap_with=[list(c) for c in clauses]) as s:
        return s.solve(assumptions=list(assume))
'''

seed('number-lengths', 'C01', [(U, '        clauses += set_all_false(number_b[len(number_a):])\n', '        clauses += set_all_false(number_b[len(number_a) + 1:])\n')], SAT + '''
import factorio_sat.util as U
cl = U.set_numbers_equal([1, 2], [3, 4, 5], allow_different_lengths=True)
assert not sat(cl, [-1, -2, -3, -4, 5]), 'accepts 0 == 4'
assert sat(cl, [1, -2, 3, -4, -5])
''', 'numbers of different widths where the second is wider and its first extra bit is set', 'set_numbers_equal accepts unequal numbers')

seed('negate-lowest', 'C01', [(U, '    clauses.append(input[:-1] + [-input[-1]])\n', '    if len(input) < 4:\n        clauses.append(input[:-1] + [-input[-1]])\n')], SAT + '''
import factorio_sat.util as U
n = [8]
def new():
    n[0] += 1
    return n[0]
cl = U.invert_number([1, 2, 3, 4], [5, 6, 7, 8], new)
assert not sat(cl, [-1, -2, -3, 4]), 'the most negative number has no negation'
assert sat(cl, [1, -2, -3, -4])
''', 'a number of at least four bits holding its most negative value', 'invert_number accepts -2**(n-1) as its own negation')

seed('amo-window', 'C02', [(C, '        for lit_b in literals[:i]:\n', '        for lit_b in literals[max(0, i - 6):i]:\n')], SAT + '''
import factorio_sat.cardinality as C
lits = list(range(1, 10))
assert not sat(C.quadratic_amo(lits), [1, 9]), 'two of nine literals accepted'
assert sat(C.quadratic_amo(lits), [5])
''', 'eight or more literals, the first and a late one true', 'the pairwise at-most-one encoding misses distant pairs')

seed('colour-range', 'C03', [(S, 'for colour_range in (tile.colour, tile.colour_ux, tile.colour_uy):\n                    self.clauses += set_maximum', 'for colour_range in (tile.colour, tile.colour_ux):\n                    self.clauses += set_maximum')], SAT + '''
from factorio_sat.solver import Grid
g = Grid(2, 2, 3)
t = g.get_tile_instance(1, 1)
assert not sat(g.clauses, t.colour_uy), 'colour 3 of 3 allowed below ground'
assert sat(g.clauses, [-t.colour_uy[0], t.colour_uy[1]])
''', 'a colour count that is not a power of two and a vertical underground passage', 'vertical passages can carry a colour that does not exist')

seed('exit-covered', 'C05', [(S, '''                        [tile_a.is_underground_out, tile_a.output_direction[direction]],
                        [[-tile_a.underground[direction]], [-tile_a.underground[reverse_dir]]]''', '''                        [tile_a.is_underground_out, tile_a.output_direction[direction]],
                        [[-tile_a.underground[direction]]]''')], SAT + '''
from factorio_sat.solver import Grid
g = Grid(5, 1, None)
g.prevent_bad_undergrounding()
t = g.get_tile_instance(2, 0)
assert not sat(g.clauses, [t.is_underground_out, t.output_direction[0], t.underground[2]]), 'an opposite passage runs under an exit'
''', 'a passage in the opposite direction running under an exit', 'an underground exit can lie on top of an opposite passage of the same axis')

seed('edge-exit', 'C07', [(S, '''                tile = self.get_tile_instance(x, self.height - 1)
                self.clauses += set_all_false(tile.underground[1::2])
                self.clauses += implies([tile.input_direction[Direction.DOWN]], [[-tile.is_underground_in]])
                self.clauses += implies([tile.output_direction[Direction.UP]], [[-tile.is_underground_out]])''', '''                tile = self.get_tile_instance(x, self.height - 1)
                self.clauses += set_all_false(tile.underground[1::2])
                self.clauses += implies([tile.input_direction[Direction.DOWN]], [[-tile.is_underground_in]])
                self.clauses += implies([tile.output_direction[Direction.DOWN]], [[-tile.is_underground_out]])''')], SAT + '''
from factorio_sat.solver import Grid
g = Grid(2, 3, None)
g.block_underground_through_edges((False, False, False, True))
t = g.get_tile_instance(0, 2)
assert not sat(g.clauses, [t.is_underground_out, t.output_direction[1]]), 'a passage enters through the blocked bottom edge'
''', 'an underground exit on the bottom row coming from outside, with only that edge blocked (or wrapping)', 'the bottom edge lets an underground passage in')

seed('pin-tail', 'C08', [(S, """            self.clauses.append([set_literal(tile_instance.is_splitter_head, tile.is_head)])""", """            self.clauses.append([tile_instance.is_splitter_head if tile.is_head else tile_instance.is_splitter])""")], SAT + '''
from factorio_sat.solver import Grid
from factorio_sat.tile import Splitter
from factorio_sat.direction import Direction
g = Grid(3, 3, None)
g.set_tile(1, 1, Splitter(Direction.RIGHT, False))
t = g.get_tile_instance(1, 1)
assert not sat(g.clauses, [t.is_splitter_head]), 'the tail may become a head'
''', 'a pinned splitter tail in a grid that has room for the other half on both sides', 'pinning a splitter tail also accepts a head there')

seed('parse-tail', 'C27', [(T, "                return [recurse(sub_instance[i], sub_shape) for i in range(size)]", "                return [recurse(sub_instance[i], sub_shape) for i in range(min(size, self.shape[0]))]")], '''
from factorio_sat.template import ArrayTemplate, BaseGrid, BoolTemplate
g = BaseGrid(ArrayTemplate(BoolTemplate(), (2, 3)), 1, 1)
sol = g.parse_solution([1, -2, 3, -4, 5, 6])
assert sol[0, 0] == [[True, False, True], [False, True, True]], sol[0, 0]
''', 'an array field whose second dimension is longer than its first', 'parsed arrays lose values')

B, NF, BP, BK, N, CO, ST, IP, MB, IN, TI = (f'factorio_sat/{m}.py' for m in ('belt_balancer', 'belt_balancer_net_free', 'blueprint', 'blueprint_book', 'network', 'calculate_optimal', 'stringifier', 'ipasir', 'make_block', 'interchange', 'tile'))

seed('splitter-runaway', 'C04', [(S, '[-tile_b.input_direction[direction.reverse], -tile_b.output_direction[direction.prev]],', '[-tile_b.input_direction[direction.prev], -tile_b.output_direction[direction.prev]],')], SAT + '''
from factorio_sat.solver import Grid
g = Grid(3, 3, None)
g.prevent_intersection()
a, b = g.get_tile_instance(0, 1), g.get_tile_instance(1, 1)
for out, ok in ((1, False), (3, False)):
    assert sat(g.clauses, [a.is_splitter, a.input_direction[0], -a.output_direction[0], b.is_belt, b.input_direction[2], b.output_direction[out]]) == ok, out
''', 'a half-connected splitter facing a bend of one handedness', 'an unconnected splitter output may face a bend it would connect to')

seed('exit-colour', 'C06', [(S, 'set_numbers_equal(quantity_ua, quantity_b))', 'set_numbers_equal(quantity_ua[:3], quantity_b[:3]))')], SAT + '''
from factorio_sat.solver import Grid
g = Grid(4, 1, 10)
g.prevent_bad_undergrounding()
g.prevent_bad_colouring()
t, u = g.get_tile_instance(2, 0), g.get_tile_instance(1, 0)
here = [t.is_underground_out, t.output_direction[0]]
assert not sat(g.clauses, here + [u.colour_ux[3], -t.colour[3]]), 'colour 8 comes out of the ground as colour 0'
assert sat(g.clauses, here + [u.colour_ux[3], t.colour[3]])
''', 'nine or more colours (or wide flows) and an underground exit', 'only the three lowest bits of a quantity survive an underground exit')

seed('absent-output', 'C09', [(B, 'grid.clauses += implies(precondition + [tile01.output_direction[direction]], set_number(colour, tile11.colour))', 'grid.clauses += implies(precondition + [tile01.output_direction[direction]], set_number(colour, tile01.colour))')], SAT + '''
from factorio_sat.belt_balancer import create_balancer
from factorio_sat.network import deduplicate_network
g = create_balancer(deduplicate_network([((0, 0), (1, None))]), 3, 2, 4)
for y in (0, 1):
    a, b = g.get_tile_instance(1, 1), g.get_tile_instance(1, 0)
    out = g.get_tile_instance(1, y).output_direction[0]
    assert sat(g.clauses, [a.node[0], a.input_direction[0], out]), 'no layout uses output row %d' % y
    assert not sat(g.clauses, [a.node[0], a.input_direction[0], out, -g.get_tile_instance(2, y).colour[0]]), 'the output belt has another colour'
''', 'a network node with one absent output, the connected output being the one of the tail', 'the output colour is required of the splitter instead of the belt behind it')

seed('ends-aligned-last', 'C10', [(B, '[start_offsets[i:(i + 1 + output_count - input_count)]]', '[start_offsets[i:(i + max(1, output_count - input_count))]]')], SAT + '''
from factorio_sat.belt_balancer import setup_balancer_ends
from factorio_sat.network import deduplicate_network
from factorio_sat.solver import Grid
for row in range(3):
    g = Grid(4, 4, 3)
    setup_balancer_ends(g, deduplicate_network([((0, None), (2, 1)), ((2, None), (1, 1))]), True, False)
    want = [g.get_tile_instance(0, row).input_direction[0]] + [g.get_tile_instance(3, y).output_direction[0] for y in range(3)]
    assert sat(g.clauses, want), 'input in row %d refused' % row
''', 'aligned ends with fewer inputs than outputs, the inputs at the far end of the outputs', 'an aligned placement that fits is refused')

seed('share-last-row', 'C11', [(NF, '''    for y in range(grid.height):
        tile = grid.get_tile_instance(grid.width - 1, y)
        grid.clauses.append([-tile.is_splitter])
        for flow_component in tile.flow:''', '''    for y in range(grid.height - 1):
        tile = grid.get_tile_instance(grid.width - 1, y)
        grid.clauses.append([-tile.is_splitter])
        for flow_component in tile.flow:''')], SAT + '''
from factorio_sat.belt_balancer_net_free import create_n_to_n_balancer
g = create_n_to_n_balancer(3, 3, 4, 2)
for y in range(3):
    t = g.get_tile_instance(2, y)
    out = [t.is_belt, t.input_direction[0], t.output_direction[0]]
    flow = list(t.flow[0])
    assert not sat(g.clauses, out + [-l for l in flow]), 'an output in row %d carries nothing of the first input' % y
''', 'an output in the last row of the grid', 'the output in the last row need not carry an equal share')

seed('hook-orientation', 'C12', [(O, '''                for tangent in (direction.next, direction.prev):
                    inverse = direction.reverse''', '''                for tangent in ((direction.next, direction.prev) if direction != Direction.DOWN else (direction.next,)):
                    inverse = direction.reverse''')], SAT + '''
from factorio_sat import optimisations
from factorio_sat.direction import Direction
from factorio_sat.solver import Grid
for d in Direction:
    for t in (d.next, d.prev):
        for i in (d, t):
            for o in (t, d.reverse):
                g = Grid(5, 5, None)
                g.prevent_intersection()
                optimisations.prevent_belt_hooks(g)
                at = lambda a, b: g.get_tile_instance(2 + a * d.vec[0] + b * t.vec[0], 2 + a * d.vec[1] + b * t.vec[1])
                want = [at(0, 0).is_belt, at(0, 0).input_direction[i], at(0, 0).output_direction[d], at(1, 0).output_direction[t],
                        at(1, 1).output_direction[d.reverse], at(0, 1).is_belt, at(0, 1).output_direction[o]]
                assert not sat(g.clauses, want), (d, t, i, o)
''', 'a hook that goes down and turns one particular way', 'belt hooks in one of eight orientations are accepted')

seed('rotated-undergrounds', 'C13', [(IN, '[tile_b.is_empty, tile_b.is_belt, tile_b.is_splitter, tile_b.is_underground_out, tile_b.is_underground_in],', '[tile_b.is_empty, tile_b.is_belt, tile_b.is_splitter, tile_b.is_underground_in, tile_b.is_underground_out],')], SAT + '''
from factorio_sat.interchange import require_rotational_symmetry
from factorio_sat.solver import Grid
g = Grid(4, 2, None)
require_rotational_symmetry(g)
a, b = g.get_tile_instance(0, 0), g.get_tile_instance(3, 1)
assert sat(g.clauses, [a.is_underground_in, a.input_direction[0], b.is_underground_out, b.output_direction[0]])
''', 'a rotationally symmetric layout with undergrounds', 'every symmetric layout with undergrounds is excluded')

seed('vertical-colours', 'C14', [(S, 'set(tile.colour + tile.colour_ux + tile.colour_uy)', 'set(tile.colour + tile.colour_ux)')], SAT + '''
from factorio_sat.solver import Grid
def count(g, variables):
    n = 0
    with Solver('g3', bootstrap_with=g.clauses) as s:
        while s.solve():
            n += 1
            m = s.get_model()
            s.add_clause([-v if v in set(m) else v for v in variables])
    return n
g = Grid(1, 1, 2)
t = g.get_tile_instance(0, 0)
want = count(g, sorted(set(abs(v) for v in [*t.input_direction, *t.output_direction, t.is_splitter, *t.colour, *t.colour_ux, *t.colour_uy])))
got = sum(1 for _ in g.itersolve())
assert got == want, (got, want)
''', 'colours on vertical underground passages that differ between solutions', 'solutions differing only in those colours are not enumerated')

seed('library-free-variable', 'C15', [(IP, '            if value == 0:\n                value = var', '            if value == 0:\n                continue')], '''
from factorio_sat import ipasir
class Lib:
    def __getattr__(self, name):
        return lambda *a: 0
class S(ipasir.IPASIRSolver):
    def __init__(self):
        pass
s = S()
s.lib, s.solver_p, s.variables = Lib(), 1, {1, 2, 3}
s.state = getattr(ipasir, 'State', None)
for k, v in (('last_result', True), ('result', True), ('solved', True), ('status', True)):
    setattr(s, k, v)
s.lib.ipasir_val = lambda p, v: {1: 1, 2: 0, 3: -3}[abs(v)]
got = sorted(map(abs, s.get_model()))
assert got == [1, 2, 3], got
''', 'a library solver that leaves a variable undetermined', 'the model lacks variables of the added clauses')

seed('negative-splitter', 'C16', [(BP, 'entities[math.floor(x - dx / 2), math.floor(y - dy / 2)] = Splitter(direction, True)', 'entities[int(x - dx / 2), int(y - dy / 2)] = Splitter(direction, True)')], '''
from factorio_sat import blueprint as B
ents = [{'entity_number': 1, 'name': 'transport-belt', 'position': {'x': -3.5, 'y': -2.5}, 'direction': 2},
        {'entity_number': 2, 'name': 'splitter', 'position': {'x': -2.5, 'y': -3.0}, 'direction': 2}]
def tiles(dx):
    es = [dict(e, position={'x': e['position']['x'] + dx, 'y': e['position']['y'] + dx}) for e in ents]
    return B.import_blueprint({'blueprint': {'item': 'blueprint', 'version': 281479275675648, 'entities': es}})
a, b = tiles(0), tiles(20)
assert a.shape == b.shape and (a == b).all(), (a, b)
''', 'a blueprint whose entities have negative coordinates', 'splitters at negative positions are imported to the wrong cells')

seed('three-feeders', 'C16', [(BP, '''                input_direction = None
                break

        if input''', '''                input_direction = None

        if input''')], '''
from factorio_sat import blueprint as B
place = lambda i, x, y, d: {'entity_number': i, 'name': 'transport-belt', 'position': {'x': x + 0.5, 'y': y + 0.5}, **({'direction': d} if d else {})}
# a belt going east, fed from behind and from both sides
tiles = B.import_blueprint({'blueprint': {'item': 'blueprint', 'version': 281479275675648, 'entities': [
    place(1, 0, 1, 2), place(2, 1, 0, 4), place(3, 1, 2, 0), place(4, 1, 1, 2)]}})
t = tiles[1, 1]
assert t.input_direction == t.output_direction, t
two = B.import_blueprint({'blueprint': {'item': 'blueprint', 'version': 281479275675648, 'entities': [
    place(1, 1, 0, 4), place(2, 1, 1, 2), place(3, 0, 2, 2)]}})
assert two[1, 1].input_direction != two[1, 1].output_direction, two
''', 'a belt fed from behind and from both sides at once', 'a belt fed from three sides is imported bent towards the last one instead of straight')

seed('many-splitters', 'C21', [('factorio_sat/network.py', '''        current_colour += 1
    for colour in network_output_colours:''', '''        current_colour = (current_colour + 1) & 0xff
    for colour in network_output_colours:''')], '''
import numpy as np
from factorio_sat.direction import Direction
from factorio_sat.network import parse_network
from factorio_sat.tile import Belt, Splitter
# pairs of splitters, one behind the other: every pair has a colour of its own
pairs = 400
tiles = np.empty((2 * pairs, 3), dtype=object)
d = Direction.RIGHT
head_first = d.next.dy > 0
for k in range(pairs):
    for j in (0, 1):
        tiles[2 * k + j] = [Splitter(d, (j == 0) == head_first), Belt(d, d), Splitter(d, (j == 0) == head_first)]
net = parse_network(tiles)
assert len(net) == 2 * pairs, len(net)
inner = [n[1][0] for n in net if n[1][0] is not None]
assert len(inner) == pairs and len(set(inner)) == pairs, (len(inner), len(set(inner)))
''', 'a layout with more than 256 splitters', 'splitters that have nothing to do with each other are given the same colour')

seed('wide-picture', 'C17', [(ST, '            if col % 2 != 0:\n                if character', "            if col % 2 != 0:\n                if col < 64 and character")], '''
import numpy as np
from factorio_sat import stringifier as S
from factorio_sat.tile import EmptyTile
g = np.array([[EmptyTile() for _ in range(40)]], dtype=object)
lines = S.encode(g).split('\\n')
for col in range(2, 80, 2):
    bad = list(lines)
    bad[1] = bad[1][:col] + 'x' + bad[1][col + 1:]
    try:
        S.decode(bad)
    except Exception:
        continue
    raise AssertionError('column %d' % col)
''', 'a picture more than 32 tiles wide with text in a late separator column', 'malformed pictures are accepted and the characters dropped')

seed('half-turn-splitter', 'C19', [(TI, "    def rotate_90(self) -> 'Splitter':\n        return type(self)(self.direction.next, self.is_head)", "    def rotate_90(self) -> 'Splitter':\n        return type(self)(self.direction.next, self.is_head)\n\n    def rotate_180(self) -> 'Splitter':\n        return type(self)(self.direction.reverse, not self.is_head)")], '''
from factorio_sat.direction import Direction
from factorio_sat.tile import Splitter
for d in Direction:
    for h in (True, False):
        t = Splitter(d, h)
        assert t.rotate_180() == t.rotate_90().rotate_90(), t
''', 'a half turn of a layout with splitters', 'a half turn swaps the halves of every splitter')

seed('absent-colour-order', 'C20', [(N, 'return -math.inf if colour is None else colour', 'return 0 if colour is None else colour')], '''
from factorio_sat.network import deduplicate_network
net = [((None, 0), (1, 2)), ((0, None), (1, 2))]
d = deduplicate_network(net)
assert len(d) == 1 and sum(d.values()) == 2, d
''', 'a node listed twice with an absent side and colour 0 in both orders', 'duplicates are kept apart, so the balancer counts them as different nodes')

seed('opposite-splitter', 'C21', [(N, 'if offset_tile.direction == tile.direction:', 'if offset_tile.direction.axis == tile.direction.axis:')], '''
import numpy as np
from factorio_sat.direction import Direction as D
from factorio_sat.network import parse_network
from factorio_sat.tile import Belt, EmptyTile, Splitter
R, L = D.RIGHT, D.LEFT
e = EmptyTile()
rows = [[Belt(R, R), Splitter(R, False), Splitter(L, True), Belt(L, L)],
        [Belt(R, R), Splitter(R, True), Splitter(L, False), Belt(L, L)]]
net = parse_network(np.array(rows, dtype=object))
for inputs, outputs in net:
    assert all(c is None for c in outputs), net
''', 'two splitters facing each other', 'facing splitters are taken to be connected')

seed('undergrounds-ignored', 'C22', [(CO, 'if all(d1 <= d2 for d1, d2 in zip(size, other_size)):', 'if all(d1 <= d2 for d1, d2 in zip(size[1:], other_size[1:])):')], '''
from factorio_sat.calculate_optimal import NetworkSolutionStore
s = NetworkSolutionStore.__new__(NetworkSolutionStore)
s.exist = {(4, 5, 2): False}
assert s.does_balancer_exist((4, 4, 2)) is False
assert s.does_balancer_exist((8, 5, 2)) is None, 'impossible with short undergrounds is taken as impossible with long ones'
''', 'a record with different underground lengths', 'a size is reported impossible without justification')

seed('own-index', 'C24', [(BK, "        item['index'] = i\n", "        item.setdefault('index', i)\n")], '''
from factorio_sat.blueprint_book import pack_book, unpack_book
book = pack_book([{'blueprint': {'a': 1}, 'index': 3}, {'blueprint': {'a': 2}}, {'blueprint': {'a': 3}, 'index': 0}])
assert [b['index'] for b in unpack_book(book)] == [0, 1, 2], book
''', 'blueprints that come from another book and carry an index', 'positions in the book are not the order given')

seed('covered-empty', 'C25', [(MB, 'grid.clauses.append(tile.all_direction)  # Ban Empty', 'grid.clauses.append(tile.all_direction + tile.underground)  # Ban Empty')], '''
import contextlib, io, json
from factorio_sat import make_block
def blocks(*args):
    sys.argv = ['make_block', *args]
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        make_block.main()
    return [json.loads(l) for l in out.getvalue().splitlines()]
for b in blocks('4', '2', '--all') + blocks('3', '3', '--tile', '--all') + blocks('4', '2', '--tile', '--all'):
    assert all(c['tile']['type'] != 'empty' for r in b for c in r), b
''', 'a block with an underground belt passing below an empty cell', 'blocks contain empty cells although none are allowed')

seed('odd-interchange', 'C26', [(IN, 'counts = (interchange_size // 2) - abs(np.arange(interchange_size * 2 - 1) - (interchange_size - 1)) // 2\n', 'counts = (interchange_size // 2) - (abs(np.arange(interchange_size * 2 - 1) - (interchange_size - 1)) + 1) // 2\n')], '''
from factorio_sat.interchange import flow_counts
for n in range(1, 9):
    # colour 0 enters in the upper half and leaves once per pair: what must pass below pair k
    want = [min(2 * k, n) - k for k in range(1, n)]
    got = [int(c) for c in flow_counts(n)]
    assert got == want, (n, got, want)
''', 'an interchange with an odd number of output pairs', 'the required transport is wrong, so valid interchanges are excluded')

seed('right-turn', 'C18', [(TI, "        return cls(Direction(json_dict['input_direction']), Direction(json_dict['output_direction']))", "        output_direction = json_dict['output_direction']\n        return cls(Direction(json_dict.get('input_direction') or output_direction), Direction(output_direction))")], '''
from factorio_sat.direction import Direction
from factorio_sat.tile import BaseTile, Belt
for a in Direction:
    for b in Direction:
        if a.reverse != b:
            t = Belt(a, b)
            assert BaseTile.read(t.write()) == t, t
''', 'a belt that is entered moving right and turns', 'such a belt is read back as a straight belt')

seed('aligned-columns', 'C20', [(N, "        file.write(' '.join(map(str, all_colours)) + '\\n')", "        file.write(''.join(f'{colour:4d}' for colour in all_colours) + '\\n')")], '''
import io
from factorio_sat.network import open_network, save_network
def through(net):
    f = io.StringIO()
    save_network(f, net)
    f.seek(0)
    return open_network(f)
net = [((0, 7), (998, None)), ((12, None), (999, 3))]
assert through(net) == net
net = [((0, 1234), (1235, None))]
assert through(net) == net
''', 'colour numbers of four digits or more', 'a saved network cannot be read back')
