#!/usr/bin/env python3
"""Writes known_findings.json (all entries are repaired; none suppresses anything)."""
import json
F = [
 ('C03', '56fec3e', 'on grids with a single row or column the is_input / is_output flags ignored one of the two edges a cell lies on'),
 ('C16', '813612d', 'import_blueprint raised on two belts facing each other (e.g. entities facing east then west)'),
 ('C22', '9cc6495', 'calculate_optimal query --export-blueprints passed the level name to make_blueprint and raised AttributeError'),
 ('C21', '18edbfb', 'parse_network asserted when an underground was traced back into row 0 (vertical underground starting at y = 0)'),
 ('C21', '34b760f', 'parse_network raised AttributeError for a splitter side facing an empty tile'),
 ('C21', 'c830e6a', 'parse_network raised RecursionError on belts longer than the interpreter stack (about 1000 cells)'),
 ('C20', 'ea647ca', 'save_network(path, ...) never closed the file, so the network could be missing when read back'),
 ('C25', '27ce913', 'make_block ignored --underground-length unless --single-loop was given (length 0 and 1 gave length 4 blocks)'),
 ('C25', 'befb4d6', 'make_block --no-parallel raised TypeError (Direction + int); also breaks the parallel rule of C12'),
 ('C02', '09fea50', 'logarithmic_amo excluded the assignment with no literal true'),
 ('C27', '0b44d4c', 'iterate_tile_blocks compared x instead of y with min_y / max_y, skipping blocks inside the bounds'),
 ('C10', '9a8ae5c', 'setup_balancer_input / output never allowed the last position along the side (and full-height inputs need not be belts)'),
 ('C10', 'e083d58', 'with rest_empty=False unused input end tiles were forced to be belts'),
 ('C10', '4a143c3', 'setup_balancer_ends_with_offsets gave the input colour to the output column'),
 ('C19', 'e0f8a3a', 'assembling machine tiles were moved but not turned by rotations and reflections'),
 ('C23', '149d4b7', 'save_progress truncated the results file before writing it'),
 ('C13', '9ce193e', 'break_vertical_symmetry raised AssertionError on grids of height 1'),
 ('C18', '367067c', 'read_tile raised on solver output cells without the explicit tile entry'),
 ('C08', '058110c', 'parse_solution raised KeyError when the model leaves a grid variable unmentioned (e.g. Grid(1, 1, 2).solve())'),
 ('C15', '39a91c0', 'run_command_solver raised IndexError on a blank line or an empty v line after s SATISFIABLE'),
 ('C15', '3295600', 'set_learn / set_terminate on a released IPASIR solver called the library instead of raising'),
 ('C15', '4c047f1', 'a shared-library solver that stops without an answer (ipasir_solve returning 0) was reported as no solution by solve / itersolve'),
 ('C14', 'a238980', 'itersolve missed solutions differing in important variables that occur in no clause (Grid(1, 1, 2): 21 of 168)'),
 ('C14', '899ceb9', 'Grid(w, h, None).itersolve() raised AttributeError'),
 ('C13', '095a5df', 'break_horisontal_symmetry compared with something that is no reversal (vertical directions and underground ends not exchanged): a 2x2 layout and its reversal were both rejected'),
 ('C24', 'db1638e', 'pack_book([b, b]): both entries got index 1, as the copies of one object given twice were shared'),
 ('C12', '8a1937e', 'prevent_spirals added no clauses at all: every block was discarded because one of its cells had been set to None'),
]
json.dump({'findings': [dict(property=p, status='fixed', commit=c, what=f'fixed: property={p} {c} {w}') for p, c, w in F]},
          open('/verif/known_findings.json', 'w'), indent=1)
