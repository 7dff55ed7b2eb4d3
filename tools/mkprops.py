"""Writes /verif/properties.jsonl (run by hand when the list changes)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=state or [], observe_at=observe, hook_needed=None)))
U='factorio_sat/util.py'; S='factorio_sat/solver.py'; T='factorio_sat/template.py'; CA='factorio_sat/cardinality.py'
O='factorio_sat/optimisations.py'; BB='factorio_sat/belt_balancer.py'; NF='factorio_sat/belt_balancer_net_free.py'
P2='factorio_sat/belt_balancer_net_free_power_of_2.py'; BP='factorio_sat/blueprint.py'; N='factorio_sat/network.py'; CO='factorio_sat/calculate_optimal.py'
p('C01','Binary-number constraints mean exactly the arithmetic they name',
  'For operand bits of any width and any value, the clauses generated for a number relation (fixed value, not a value, two values in either order, equality, upper bound, sum with or without carry and overflow, sum of many, increment modulo the width, negation, population count, lexicographic order) can be satisfied together with an operand assignment exactly when that assignment satisfies the relation. Numbers are read back from a model as the (optionally two\'s complement) little-endian value of their bits.',
  ['inputs'],'all operand widths, values, carry-in and overflow options, and all truth assignments of the operands',
  'The test suite only solves whole grids; it never evaluates a number constraint on its own, and a clause wrong for one bit pattern or width usually leaves the sampled grids satisfiable.',
  [U],[('bit-level adders, comparators and equality clauses',U)],['clauses returned by the number helpers','models of those clauses'])
p('C02','At-most-one and exactly-one constraints count correctly',
  'For any number of literals (of any sign), the clauses of every at-most-one encoding can be satisfied with an assignment of the literals exactly when at most one of them is true, and those of every exactly-one encoding exactly when one is; auxiliary variables never restrict this. The cardinality wrappers for "exactly n", "at most n" and "at least n" either raise an error or count correctly.',
  ['inputs'],'all literal list lengths, signs, recursion cut-offs and assignments','Tests reach these only through grids with fixed list lengths (mostly 4 and 5).',
  [CA],[('pairwise, commander (split with auxiliary variable) and binary encodings',CA)],['clauses returned by the cardinality helpers'])
p('C03','Every solution decodes to a well-formed grid of tiles, and every one is allowed',
  'In every model of a grid, for every size and edge mode, each cell is exactly one of empty, belt, underground entrance, underground exit or splitter, with inputs and outputs as that kind requires (no cell receives from the side it outputs to, a splitter never turns, at most one horizontal and one vertical underground passage per cell), every splitter half has its matching other half beside it inside the grid, and the colour never exceeds the number of colours. Cells are flagged as grid inputs or outputs exactly when a belt crosses the grid border there, and no assignment obeying these rules is excluded.',
  ['inputs','configurations'],'all grid widths, heights, colour counts, edge modes and assignments','Tests pin whole concrete layouts of a few sizes; a rule missing in one direction, corner or size is not exercised.',
  [S,T],[('clauses added when a grid is created',S)],['decoded solutions','clauses of a fresh grid'])
p('C04','Belts only feed cells that accept them and never cross',
  'Once crossing is forbidden, in every model a cell outputs in a direction exactly when the neighbouring cell in that direction takes its input from that direction (with wrap-around when tiling), in all four directions. An unconnected splitter output never faces a belt, turn or underground that the game would connect it to (turning sideways or running away), while every layout obeying these rules remains possible.',
  ['inputs','configurations'],'all grid sizes, edge modes, positions, directions and assignments','Tests sample a handful of broken lines and bends at fixed positions.',
  [S],[('prevent_intersection',S)],['decoded solutions'])
p('C05','Underground belts always pair up within the maximum length',
  'Once the underground rules are on, in every model each underground entrance leads straight, through at least one underground cell and nothing else, to an exit facing the same way, every exit comes from such an entrance, no same-axis entrance or exit lies between them, and the covered distance never exceeds the maximum length; passages that leave the grid are only possible at unblocked edges. Every layout that obeys this is still allowed, for every maximum length from 1 up to unlimited.',
  ['inputs','configurations'],'all grid sizes, edge modes, underground lengths and assignments','Tests use lengths 4 and 8 on small fixed layouts.',
  [S],[('prevent_bad_undergrounding',S),('enforce_maximum_underground_length',S)],['decoded solutions'])
p('C06','Colours and flows are carried unchanged along belts and undergrounds',
  'In every model a quantity attached to cells (colour or flow, of any bit width) is the same on both sides of every belt connection that does not leave a splitter, along every underground passage, and between a passage and its entrance and exit. Nothing else is constrained: cells that are not connected, and the outputs of splitters, are free.',
  ['inputs','configurations'],'all grid sizes, edge modes, bit widths, positions, directions and assignments','No test inspects colours; they are only indirectly used by a few fixed balancers.',
  [S],[('transport_quantity',S),('prevent_bad_colouring',S),('prevent_colour, set_colour',S)],['colour fields of decoded solutions'])
p('C07','Blocked grid edges are never crossed, unblocked ones stay open',
  'When an edge (all, horizontal pair, vertical pair, or each of the four separately) is blocked for belts, no model has a belt entering or leaving the grid through it, nor anything on it that ends facing it or starts facing away from it (an underground end, or a splitter side left unconnected towards it); when blocked for undergrounds, no model has a passage lying against or crossing it in that axis. Edges that are not selected, and movement along an edge, are not restricted.',
  ['inputs','configurations'],'all grid sizes, all 16 edge selections in all accepted forms, all assignments','Tests block all edges at once on a few layouts.',
  [S],[('block_belts_through_edges',S),('block_underground_through_edges',S)],['decoded solutions'])
p('C08','Pinning a tile fixes exactly that tile, and solutions decode to what was solved',
  'Fixing a cell to a tile makes every solution show exactly that tile there (a filler shows as empty), leaves all other cells free, and is possible whenever some legal layout has that tile there; an unsupported tile is refused with an error. Every model of every grid decodes without failure, each cell\'s decoded tile agreeing with its type, direction and splitter-half values, also when the solver leaves variables unmentioned.',
  ['inputs'],'all tiles, positions, grid sizes, colour counts and models','Tests only ask whether a fully pinned grid is satisfiable and never compare the decoded tiles.',
  [S,T],[('set_tile / read_tile',S),('template parsing',T)],['decoded solutions'])
p('C09','Network balancers realise the requested splitter network',
  'In every model of a balancer built from a splitter network, each splitter is assigned exactly one network node and each node is used exactly as often as the network has it; a splitter\'s two input belts carry the node\'s two input colours and its outputs the node\'s output colours, in either order, an absent connection being unconnected. The number of grid inputs and outputs equals the network\'s, each carrying the network\'s input or output colour, colours the network does not use never appear on a belt, and no layout satisfying all this is excluded.',
  ['inputs','configurations'],'all networks (nodes with at most one missing connection), grid sizes, and assignments','Tests check two networks (2x3, 3x2) on fixed layouts.',
  [BB,CA],[('create_balancer',BB)],['decoded solutions: node, colour, tile'])
p('C10','Balancer ends are contiguous, complete and correctly placed',
  'Setting up balancer ends makes every solution have exactly the requested number of inputs on consecutive cells of the chosen side, entering straight on belts, and likewise the outputs, with all other end cells empty (or merely not inputs/outputs when ends may be used); every position along the side that fits is allowed. With alignment on, the shorter end lies within the span of the longer one and every such placement is allowed.',
  ['inputs','configurations'],'all heights, input and output counts, alignment and end options','No test sets up balancer ends.',
  [BB,NF],[('setup_balancer_input/output/ends/ends_90/ends_180',BB),('setup_balancer_ends',NF)],['decoded solutions'])
p('C11','Network-free balancers only accept splitters that split flow evenly',
  'In every model of a network-free balancer, every fully connected splitter outputs on each side exactly half of the sum of its inputs for every flow component, flows start as one full unit per input and end as equal shares on every output, and a splitter whose two inputs carry the same mixture is not used; partially connected splitters (unequal sizes) pass on or divide the whole flow. For the power-of-two variant the two input mixtures of a splitter are disjoint and both outputs carry their union, at the level assigned to it.',
  ['inputs','configurations'],'all grid sizes and assignments for each supported input/output count','The general tool has no test; the power-of-two variant is sampled by four layouts.',
  [NF,P2],[('create_n_to_n_balancer, create_n_to_m_balancer',NF),('create_balancer',P2)],['decoded solutions: flow / colour / level'])
p('C12','Optimisation rules exclude exactly their pattern, in every orientation',
  'Each optional pattern rule (small loops, belt hooks, semicircles, underground hooks, zig-zags, spirals, belts parallel to splitters, gluing of full and partial splitters, mergeable, expandable, shrinkable or empty-covered undergrounds, double edge belts, awkward underground entries, same-colour passing, parallel undergrounds) excludes a solution exactly when the described pattern of tiles occurs somewhere inside the rule\'s area, at any position and in every rotation and reflection the rule covers. Rules only ever add restrictions; they never change or drop existing ones.',
  ['inputs','configurations'],'all grid sizes, edge modes, underground lengths, positions, orientations and assignments','The suite has a few positive and negative pictures per rule; several rules (spirals, shrink, infinite expansion, interchange rules) have none.',
  [O,BB,'factorio_sat/interchange.py','factorio_sat/make_block.py'],[('pattern clauses',O)],['clauses added to the grid','decoded solutions'])
p('C13','Symmetry breaking never loses a solution up to reflection',
  'For every layout of every grid size, the vertical symmetry rule accepts the layout or its top-bottom mirror image, and the horizontal rule accepts the layout or its left-right reversal. Requiring rotational symmetry accepts exactly layouts that are their own reversal under a half turn.',
  ['inputs'],'all grid sizes and layouts','Two pictures in the suite; symmetric size and ordering corner cases are not reached.',
  [O,U,'factorio_sat/interchange.py'],[('break_vertical_symmetry, break_horisontal_symmetry',O),('break_symmetry',U),('require_rotational_symmetry','factorio_sat/interchange.py')],['solutions of the constrained grid'])
p('C14','Enumeration yields every solution once and nothing else',
  'Solving returns a decoded model of the grid\'s clauses, or nothing exactly when there is none; enumerating yields decoded models only, never two that agree on all important variables (the directions and splitter cells of the layout and, unless ignored, the colour), and stops only when every combination of important values that has a model was produced (a command-line solver answers once, so enumerating with one gives at most one solution). Neither changes the clauses of the grid.',
  ['inputs','histories'],'all clause sets, important-variable sets and sequences of models the solver may return','Tests call solve once per grid and never enumerate.',
  [T,S],[('solve, itersolve, blocking clauses',T)],['sequence of decoded solutions'])
p('C15','External solvers are fed the exact clauses and read back faithfully',
  'For a command-line solver (file or pipe) and for a shared-library solver, the solver receives exactly the grid\'s clauses, and every well-formed answer is turned into the same result: its literals, up to the terminating 0 or the end of the output, for SATISFIABLE (across any number of value and comment lines), nothing for UNSATISFIABLE, and an error for anything else, including a solver that stops without an answer. A library model contains every variable of the added clauses exactly once with the solver\'s value, and a released solver is never used or released again.',
  ['inputs','histories','fault_sequences'],'all clause sets, all line splits and interleavings of solver output, all return codes and call sequences','No external solver is installed and no test uses one.',
  [T,'factorio_sat/ipasir.py'],[('run_command_solver',T),('IPASIRSolver','factorio_sat/ipasir.py')],['literals returned', 'calls made to the library'])
p('C16','Blueprint export and import preserve the layout',
  'Exporting any legal layout as a blueprint and importing it again gives the same layout, moved to the origin, for every belt level, size and tile (belts fed from outside the layout come back straight; fillers are dropped): one entity per belt, underground, inserter and splitter, numbered from 1, at the right place with the right direction. Importing any supported blueprint works, a belt bending exactly when its only feeding neighbour is at its side; encoding a blueprint string and decoding it returns the same data, and other versions are refused.',
  ['inputs'],'all layouts of all sizes, all belt levels, entity orders and offsets','No test encodes or decodes a blueprint.',
  [BP,'factorio_sat/direction.py'],[('make_blueprint, import_blueprint, resolve_belt_input_directions',BP),('encode_blueprint, decode_blueprint',BP)],['blueprint entities','imported tiles'])
p('C17','Text pictures round-trip',
  'Converting a grid of belts, undergrounds, splitters, fillers and empty tiles to text and back returns the same grid for every size, one distinct character per tile; text with characters in the separator columns or unknown characters is refused.',
  ['inputs'],'all grids of all sizes over the encodable tiles','The suite only decodes its own fixed pictures.',
  ['factorio_sat/stringifier.py'],[('encode, decode, character mapping','factorio_sat/stringifier.py')],['text and decoded grids'])
p('C18','Tiles survive being written to JSON and read back',
  'Every tile of every kind read back from its JSON form equals the original, and a solver output cell is read as the same tile whether or not it carries the explicit tile entry. Direction values convert to and from the game\'s direction codes without loss, and turning, reversing and stepping a direction agree with its movement vector.',
  ['inputs'],'all tiles and directions','Not tested at all.',
  ['factorio_sat/tile.py',BP,'factorio_sat/direction.py'],[('write / read of each tile','factorio_sat/tile.py'),('read_tile, write_tile',BP)],['JSON cells'])
p('C19','Rotations and reflections map legal layouts to legal layouts',
  'Each transformation of a grid moves every tile to the rotated or mirrored place and turns it so that every belt connection, underground pair, splitter pair, inserter and machine of the original maps to one of the result; legal layouts stay legal. Four quarter turns, two half turns and two equal reflections give back the original, and the 180 and 270 degree and vertical forms equal the matching compositions.',
  ['inputs'],'all grids, tiles and operations','No test transforms anything.',
  ['factorio_sat/tile.py','factorio_sat/rotate.py'],[('rotate_90, flip_x and derived operations','factorio_sat/tile.py'),('Operation','factorio_sat/rotate.py')],['transformed grids'])
p('C20','Network operations preserve the network',
  'Saving and loading a network returns the same nodes in order; flipping twice gives it back and swaps inputs with outputs; removing duplicates keeps every node\'s multiplicity up to the order of its sides; renumbering or tidying colours only renames them one to one, with input colours first and output colours last. The reported input and output colours and counts are the unique surplus and deficit of the network, and a generated network of size n has n inputs and n outputs and spreads every input evenly over all outputs.',
  ['inputs'],'all networks and sizes','Only loading and removing duplicates are exercised, on two files.',
  [N],[('open_network, save_network, flip_network, remap_colours, fix_colours, tidy_network, deduplicate_network, get_input_output_colours, create_benes_network',N)],['network files and node lists'])
p('C21','Reading a network off a layout gives the network the layout implements',
  'For every legal layout whose undergrounds pair up inside it, parsing returns one node per splitter, two splitter ends sharing a colour exactly when a belt path (over belts and underground passages, anywhere in the grid) connects them, or both are grid inputs or both grid outputs, or they are outputs of one splitter neither of which leaves the grid; unconnected ends are absent. It never fails on a legal layout, whatever the position and direction of its undergrounds and half-connected splitters.',
  ['inputs'],'all legal layouts of all sizes','Not tested at all.',
  [N],[('parse_network',N)],['returned node list'])
p('C22','The optimality search draws only justified conclusions',
  'For every consistent history of recorded results (no recorded solution fits in a size recorded as impossible), a size is reported as possible only if some recorded solution fits in it and as impossible only if it fits in a size recorded as impossible; tidying the record never changes any such answer, and saving and reloading it loses nothing. The next size to try is always still open, large enough for the network and of least cost among those the objective considers (length: the height of the longer end and any width from 3; area: heights up to twice that, with room for all splitters between the ends), and the search stops only when a recorded solution is at least as good as every size not yet excluded; the best solution shown respects the underground limit and uses belts that reach far enough, up to the longest there is.',
  ['inputs','histories'],'all sequences of recorded sizes and results, networks, objectives and underground lengths','Not tested at all.',
  [CO],[('does_balancer_exist, clean, best_current_solution, to_json/from_json',CO),('LengthObjective, AreaObjective',CO)],['answers for sizes', 'chosen next size'])
p('C23','An interrupted save never destroys recorded results',
  'Whenever the optimality search is interrupted while saving, at any write, the results file still holds a complete record: either the one before or the one after the save.',
  ['crash_points'],'every prefix of the file operations of a save','Not tested; needs a crash at a particular point.',
  [CO],[('save_progress',CO)],['content of the results file'])
p('C24','Blueprint books keep all blueprints in order',
  'Packing blueprints into a book and unpacking it returns the same blueprints in the same order, each with its position as index, without altering the blueprints passed in or the shared template; the label is kept when given.',
  ['inputs','histories'],'all lists of blueprints, labels, and repeated calls','Not tested at all.',
  ['factorio_sat/blueprint_book.py'],[('pack_book, unpack_book','factorio_sat/blueprint_book.py')],['book contents'])
p('C25','Random blocks honour their options',
  'Every block produced obeys the belt and underground rules for the requested size and underground length (including none), has no splitters, no empty cells unless allowed, no belts over its border unless tilable, no adjacent parallel undergrounds when forbidden, and with the single-loop option all cells lie on one closed loop.',
  ['inputs','configurations'],'all sizes, option combinations and models','Not tested at all.',
  ['factorio_sat/make_block.py'],[('ensure_loop_length, prevent_parallel, main','factorio_sat/make_block.py')],['blocks printed by the tool'])
p('C26','Interchanges route every belt and swap them as promised',
  'Every interchange produced is a legal layout without splitters inside its border, leads every input belt of the left side to an output on the right, and gives each pair of outputs one belt of the upper and one of the lower half of the inputs (upper first when alternating). The transport requirements accept a layout exactly when the net numbers of colour 0 belts carried down and colour 1 belts carried up between every two output pairs (at least, for the latter), and of belts carried right between every two columns, are the counts forced by that arrangement, so they never exclude an otherwise valid interchange.',
  ['inputs','configurations'],'all interchange heights and widths, and all valid interchanges','Not tested at all.',
  ['factorio_sat/interchange.py'],[('flow_counts, create_edge, require_correct_transport_through_edges','factorio_sat/interchange.py')],['solutions of the interchange tool'])
p('C27','Grid variables are distinct and positions map to the right cells',
  'Every field of every cell of a grid, for every template and size, and every auxiliary variable allocated later, has its own solver variable; looking up a cell or a neighbour gives the cell at that position (wrapped, or nothing beyond the edge), and iterating over cells, lines and blocks visits each one inside the requested bounds exactly once. Parsing a cell returns each field\'s value under the model.',
  ['inputs','configurations'],'all templates, grid sizes, edge modes, positions, offsets and bounds','Only exercised implicitly on small grids.',
  [T],[('templates, BaseGrid accessors and iterators',T)],['variables of cells','cells returned'])
with open('/verif/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q, ensure_ascii=False)+'\n')
print(len(P))
