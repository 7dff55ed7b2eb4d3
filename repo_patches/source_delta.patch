From 56fec3e9dcdc3873392473ae163c724e436d778e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:58 +0000
Subject: [PATCH 01/27] fix: flag border crossings on every edge of single
 row/column grids

---
 factorio_sat/solver.py | 77 ++++++++----------------------------------
 1 file changed, 15 insertions(+), 62 deletions(-)

diff --git a/factorio_sat/solver.py b/factorio_sat/solver.py
index e686613..36835a0 100644
--- a/factorio_sat/solver.py
+++ b/factorio_sat/solver.py
@@ -155,69 +155,22 @@ class Grid(FactorioGrid[TileTemplate, Dict[str, Any]]):
         for x in range(self.width):
             for y in range(self.height):
                 tile = self.get_tile_instance(x, y)
-                if x == 0:
-                    # Top left corner
-                    if y == 0:
-                        self.clauses += implies([tile.is_input], [[tile.input_direction[Direction.RIGHT], tile.input_direction[Direction.DOWN]]])
-                        self.clauses += implies([tile.input_direction[Direction.RIGHT]], [[tile.is_input]])
-                        self.clauses += implies([tile.input_direction[Direction.DOWN]], [[tile.is_input]])
-                        self.clauses += implies([tile.is_output], [[tile.output_direction[Direction.LEFT], tile.output_direction[Direction.UP]]])
-                        self.clauses += implies([tile.output_direction[Direction.LEFT]], [[tile.is_output]])
-                        self.clauses += implies([tile.output_direction[Direction.UP]], [[tile.is_output]])
-                    # Bottom left corner
-                    elif y == self.height - 1:
-                        self.clauses += implies([tile.is_input], [[tile.input_direction[Direction.RIGHT], tile.input_direction[Direction.UP]]])
-                        self.clauses += implies([tile.input_direction[Direction.RIGHT]], [[tile.is_input]])
-                        self.clauses += implies([tile.input_direction[Direction.UP]], [[tile.is_input]])
-                        self.clauses += implies([tile.is_output], [[tile.output_direction[Direction.LEFT], tile.output_direction[Direction.DOWN]]])
-                        self.clauses += implies([tile.output_direction[Direction.LEFT]], [[tile.is_output]])
-                        self.clauses += implies([tile.output_direction[Direction.DOWN]], [[tile.is_output]])
-                    # Left edge
-                    else:
-                        self.clauses += implies([tile.is_input], [[tile.input_direction[Direction.RIGHT]]])
-                        self.clauses += implies([tile.input_direction[Direction.RIGHT]], [[tile.is_input]])
-                        self.clauses += implies([tile.is_output], [[tile.output_direction[Direction.LEFT]]])
-                        self.clauses += implies([tile.output_direction[Direction.LEFT]], [[tile.is_output]])
-                elif x == self.width - 1:
-                    # Top right corner
-                    if y == 0:
-                        self.clauses += implies([tile.is_input], [[tile.input_direction[Direction.LEFT], tile.input_direction[Direction.DOWN]]])
-                        self.clauses += implies([tile.input_direction[Direction.LEFT]], [[tile.is_input]])
-                        self.clauses += implies([tile.input_direction[Direction.DOWN]], [[tile.is_input]])
-                        self.clauses += implies([tile.is_output], [[tile.output_direction[Direction.RIGHT], tile.output_direction[Direction.UP]]])
-                        self.clauses += implies([tile.output_direction[Direction.RIGHT]], [[tile.is_output]])
-                        self.clauses += implies([tile.output_direction[Direction.UP]], [[tile.is_output]])
-                    # Bottom right corner
-                    elif y == self.height - 1:
-                        self.clauses += implies([tile.is_input], [[tile.input_direction[Direction.LEFT], tile.input_direction[Direction.UP]]])
-                        self.clauses += implies([tile.input_direction[Direction.LEFT]], [[tile.is_input]])
-                        self.clauses += implies([tile.input_direction[Direction.UP]], [[tile.is_input]])
-                        self.clauses += implies([tile.is_output], [[tile.output_direction[Direction.RIGHT], tile.output_direction[Direction.DOWN]]])
-                        self.clauses += implies([tile.output_direction[Direction.RIGHT]], [[tile.is_output]])
-                        self.clauses += implies([tile.output_direction[Direction.DOWN]], [[tile.is_output]])
-                    # Right edge
-                    else:
-                        self.clauses += implies([tile.is_input], [[tile.input_direction[Direction.LEFT]]])
-                        self.clauses += implies([tile.input_direction[Direction.LEFT]], [[tile.is_input]])
-                        self.clauses += implies([tile.is_output], [[tile.output_direction[Direction.RIGHT]]])
-                        self.clauses += implies([tile.output_direction[Direction.RIGHT]], [[tile.is_output]])
-                elif y == 0:
-                    # Top edge (corners handled on vertical edges)
-                    self.clauses += implies([tile.is_input], [[tile.input_direction[Direction.DOWN]]])
-                    self.clauses += implies([tile.input_direction[Direction.DOWN]], [[tile.is_input]])
-                    self.clauses += implies([tile.is_output], [[tile.output_direction[Direction.UP]]])
-                    self.clauses += implies([tile.output_direction[Direction.UP]], [[tile.is_output]])
-                elif y == self.height - 1:
-                    # Bottom edge (corners handled on vertical edges)
-                    self.clauses += implies([tile.is_input], [[tile.input_direction[Direction.UP]]])
-                    self.clauses += implies([tile.input_direction[Direction.UP]], [[tile.is_input]])
-                    self.clauses += implies([tile.is_output], [[tile.output_direction[Direction.DOWN]]])
-                    self.clauses += implies([tile.output_direction[Direction.DOWN]], [[tile.is_output]])
 
-                else:
-                    # Not on edge
-                    self.clauses.append([-tile.is_input])
-                    self.clauses.append([-tile.is_output])
+                # A cell can be on several edges at once (corners, or grids with a single row/column)
+                inputs, outputs = [], []
+                for on_edge, direction in (
+                        (x == 0, Direction.RIGHT),
+                        (x == self.width - 1, Direction.LEFT),
+                        (y == 0, Direction.DOWN),
+                        (y == self.height - 1, Direction.UP)):
+                    if on_edge:
+                        inputs.append(tile.input_direction[direction])
+                        outputs.append(tile.output_direction[direction.reverse])
+
+                for flag, crossings in ((tile.is_input, inputs), (tile.is_output, outputs)):
+                    self.clauses += implies([flag], [crossings])
+                    for crossing in crossings:
+                        self.clauses += implies([crossing], [[flag]])
 
     def set_tile(self, x: int, y: int, tile: BaseTile):
         tile_instance = self.get_tile_instance(x, y)
-- 
2.43.0


From 813612d1c88092432c685f7ea18a5903cad245c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:46 +0000
Subject: [PATCH 02/27] fix: import blueprints that contain belts facing each
 other

---
 factorio_sat/blueprint.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/factorio_sat/blueprint.py b/factorio_sat/blueprint.py
index 649d81e..d312d1d 100644
--- a/factorio_sat/blueprint.py
+++ b/factorio_sat/blueprint.py
@@ -130,6 +130,10 @@ def resolve_belt_input_directions(tiles):
             if neighbour.output_direction != direction:
                 continue
 
+            # A belt facing this one head on does not feed it
+            if direction == tile.output_direction.reverse:
+                continue
+
             if input_direction is None:
                 input_direction = direction
             else:
-- 
2.43.0


From 9cc649594d244691899569d2fa3055da81a180c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:46 +0000
Subject: [PATCH 03/27] fix: pass a belt level, not its name, when exporting
 queried balancers

---
 factorio_sat/calculate_optimal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/calculate_optimal.py b/factorio_sat/calculate_optimal.py
index fbd63b3..a722bb7 100644
--- a/factorio_sat/calculate_optimal.py
+++ b/factorio_sat/calculate_optimal.py
@@ -294,7 +294,7 @@ def main():
                 for i, row in enumerate(tiles):
                     for j, entry in enumerate(row):
                         tiles[i, j] = blueprint.read_tile(entry)
-                return blueprint.encode_blueprint(blueprint.make_blueprint(tiles, label, get_belt_level(args.underground_length)))
+                return blueprint.encode_blueprint(blueprint.make_blueprint(tiles, label, blueprint.TransportBeltLevel[get_belt_level(args.underground_length).upper()]))
         else:
             def encode_solution(solution, _):
                 return json.dumps(solution)
-- 
2.43.0


From 18edbfb3f19a727c8b1ed97bfa02c6feb929d886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:46 +0000
Subject: [PATCH 04/27] fix: trace undergrounds back into the first row when
 parsing a network

---
 factorio_sat/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/network.py b/factorio_sat/network.py
index b8da5cf..b6b1e4d 100644
--- a/factorio_sat/network.py
+++ b/factorio_sat/network.py
@@ -549,7 +549,7 @@ def parse_network(tiles, assume_edge_splitter_are_connected=False):
                     dx, dy = tile.direction.vec
                     while True:
                         pos = pos[0] - dx, pos[1] - dy
-                        assert pos[0] >= 0 and pos[0] < tiles.shape[0] and pos[1] >= 1 and pos[1] < tiles.shape[1]
+                        assert pos[0] >= 0 and pos[0] < tiles.shape[0] and pos[1] >= 0 and pos[1] < tiles.shape[1]
 
                         current_tile = tiles[pos]
                         assert current_tile != UndergroundBelt(tile.direction, False)
-- 
2.43.0


From 34b760f61695fa1c4a821bc21d013105c8ce3219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:46 +0000
Subject: [PATCH 05/27] fix: parse networks with splitter sides facing empty
 tiles

---
 factorio_sat/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/factorio_sat/network.py b/factorio_sat/network.py
index b6b1e4d..34a46ff 100644
--- a/factorio_sat/network.py
+++ b/factorio_sat/network.py
@@ -9,7 +9,7 @@ from typing import Tuple
 import numpy as np
 from pysat.solvers import Solver
 
-from .tile import Belt, EmptyTile, FillerTile, Splitter, UndergroundBelt
+from .tile import Belt, BeltConnectedTile, EmptyTile, FillerTile, Splitter, UndergroundBelt
 from .util import bin_length, get_popcount, read_number, set_not_number
 from . import blueprint
 
@@ -620,7 +620,7 @@ def parse_network(tiles, assume_edge_splitter_are_connected=False):
                     continue
 
                 offset_tile = tiles[pos]
-                if offset_tile is None:
+                if not isinstance(offset_tile, BeltConnectedTile):
                     node[-1].append(None)
                     continue
 
-- 
2.43.0


From c830e6a88d45cb2e8d09518cac47d2277aa26677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:46 +0000
Subject: [PATCH 06/27] fix: trace belts iteratively so that long ones do not
 exhaust the stack

---
 factorio_sat/network.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/factorio_sat/network.py b/factorio_sat/network.py
index 34a46ff..51f7567 100644
--- a/factorio_sat/network.py
+++ b/factorio_sat/network.py
@@ -561,23 +561,24 @@ def parse_network(tiles, assume_edge_splitter_are_connected=False):
             raise RuntimeError(f'Unknown tile type: {tile}')
 
     def trace(colour: int, pos: Tuple[int, int], is_forward: bool):
-        if pos[0] < 0 or pos[0] >= tiles.shape[0] or pos[1] < 0 or pos[1] >= tiles.shape[1]:
-            return
+        while True:
+            if pos[0] < 0 or pos[0] >= tiles.shape[0] or pos[1] < 0 or pos[1] >= tiles.shape[1]:
+                return
 
-        tile = tiles[pos]
-        if tile == EmptyTile():
-            return
+            tile = tiles[pos]
+            if tile == EmptyTile():
+                return
 
-        if isinstance(tile, Splitter):
-            return
+            if isinstance(tile, Splitter):
+                return
 
-        if colour_mapping[pos] is not None:
-            assert colour_mapping[pos] == colour
-            return
+            if colour_mapping[pos] is not None:
+                assert colour_mapping[pos] == colour
+                return
 
-        colour_mapping[pos] = colour
+            colour_mapping[pos] = colour
 
-        trace(colour, next_tile(pos, is_forward), is_forward)
+            pos = next_tile(pos, is_forward)
 
     for x, row in enumerate(tiles):
         for y, tile in enumerate(row):
-- 
2.43.0


From ea647ca8b9452cd6c9b7f89c4e0aec48df6be0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:46 +0000
Subject: [PATCH 07/27] fix: close the file a network is saved to

---
 factorio_sat/network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/factorio_sat/network.py b/factorio_sat/network.py
index 51f7567..4c4dcf5 100644
--- a/factorio_sat/network.py
+++ b/factorio_sat/network.py
@@ -362,7 +362,8 @@ def open_network(file):
 
 def save_network(file, network):
     if isinstance(file, str):
-        file = open(file, 'w')
+        with open(file, 'w') as opened_file:
+            return save_network(opened_file, network)
 
     for input_colours, output_colours in network:
         all_colours = list(input_colours + output_colours)
-- 
2.43.0


From 27ce913014d988d6cf6e4f4a376207e693a30b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:46 +0000
Subject: [PATCH 08/27] fix: honour --underground-length in blocks without
 --single-loop

---
 factorio_sat/make_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/make_block.py b/factorio_sat/make_block.py
index 243a454..1c0cff9 100644
--- a/factorio_sat/make_block.py
+++ b/factorio_sat/make_block.py
@@ -86,7 +86,7 @@ def main():
     if args.single_loop:
         grid = solver.Grid(args.width, args.height, args.width * args.height, args.underground_length, edge_mode=edge_mode)
     else:
-        grid = solver.Grid(args.width, args.height, 1, edge_mode=edge_mode)
+        grid = solver.Grid(args.width, args.height, 1, args.underground_length, edge_mode=edge_mode)
 
     grid.prevent_intersection()
     grid.prevent_bad_undergrounding()
-- 
2.43.0


From befb4d649741475076b724d318b12c344172863d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:46 +0000
Subject: [PATCH 09/27] fix: make --no-parallel usable

---
 factorio_sat/make_block.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/factorio_sat/make_block.py b/factorio_sat/make_block.py
index 1c0cff9..196ced5 100644
--- a/factorio_sat/make_block.py
+++ b/factorio_sat/make_block.py
@@ -56,10 +56,10 @@ def prevent_parallel(grid: solver.Grid):
                 if tile_b is None:
                     continue
 
-                grid.clauses.append([-tile_a.underground[direction + 0], -tile_b.underground[direction + 0]])
-                grid.clauses.append([-tile_a.underground[direction + 2], -tile_b.underground[direction + 0]])
-                grid.clauses.append([-tile_a.underground[direction + 0], -tile_b.underground[direction + 2]])
-                grid.clauses.append([-tile_a.underground[direction + 2], -tile_b.underground[direction + 2]])
+                grid.clauses.append([-tile_a.underground[direction], -tile_b.underground[direction]])
+                grid.clauses.append([-tile_a.underground[direction.reverse], -tile_b.underground[direction]])
+                grid.clauses.append([-tile_a.underground[direction], -tile_b.underground[direction.reverse]])
+                grid.clauses.append([-tile_a.underground[direction.reverse], -tile_b.underground[direction.reverse]])
 
 
 def main():
-- 
2.43.0


From 09fea5068c86c58a7757691d7b3b9403d50a77a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:46 +0000
Subject: [PATCH 10/27] fix: logarithmic_amo must not require a literal to be
 true

---
 factorio_sat/cardinality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/cardinality.py b/factorio_sat/cardinality.py
index c5860b5..1852d31 100644
--- a/factorio_sat/cardinality.py
+++ b/factorio_sat/cardinality.py
@@ -18,7 +18,7 @@ def quadratic_amo(literals: List[LiteralType], _: Optional[AllocatorType] = None
 
 def logarithmic_amo(literals: List[LiteralType], allocator: AllocatorType) -> ClauseList:
     location_literals = [allocator() for _ in range(bin_length(len(literals)))]
-    clauses = [list(literals)]
+    clauses = []
     for i, lit in enumerate(literals):
         clauses += implies([lit], set_number(i, location_literals))
     return clauses
-- 
2.43.0


From 0b44d4c5a93c2431349c895ffb9b5668e959288d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:46 +0000
Subject: [PATCH 11/27] fix: check the vertical extent of tile blocks against y

---
 factorio_sat/template.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/factorio_sat/template.py b/factorio_sat/template.py
index e7997a5..16f1601 100644
--- a/factorio_sat/template.py
+++ b/factorio_sat/template.py
@@ -339,7 +339,7 @@ class BaseGrid(Generic[InstanceType, ParsedType]):
                 if min_y is not None:
                     if y < min_y:
                         continue
-                    if x + max_y_offset < min_y:
+                    if y + max_y_offset < min_y:
                         continue
                 if max_x is not None:
                     if x > max_x:
@@ -349,7 +349,7 @@ class BaseGrid(Generic[InstanceType, ParsedType]):
                 if max_y is not None:
                     if y > max_y:
                         continue
-                    if x + max_y_offset > max_y:
+                    if y + max_y_offset > max_y:
                         continue
 
                 yield np.frompyfunc(get_tile, 2, 1)(*np.ogrid[0:row_count, 0:column_count])
-- 
2.43.0


From 9a8ae5cfffe1f01083f99a0d7ee9f884f6bf8663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:46 +0000
Subject: [PATCH 12/27] fix: allow balancer ends at the last position along the
 side

---
 factorio_sat/belt_balancer.py | 60 +++++++++++++++--------------------
 1 file changed, 26 insertions(+), 34 deletions(-)

diff --git a/factorio_sat/belt_balancer.py b/factorio_sat/belt_balancer.py
index 474afcc..84840b3 100644
--- a/factorio_sat/belt_balancer.py
+++ b/factorio_sat/belt_balancer.py
@@ -44,45 +44,37 @@ def setup_balancer_ends_with_offsets(grid, network, start_offset: int, end_offse
 
 def setup_balancer_input(grid: Grid, tiles: Sequence[TileTemplate], direction: int, count: int, rest_empty: bool = True):
     assert count <= len(tiles)
-    offsets = [grid.allocate_variable() for _ in range(len(tiles) - count)]
-
-    if len(offsets) == 0:
-        for tile in tiles:
-            grid.clauses += [[tile.input_direction[direction]]]
-    else:
-        grid.clauses += quadratic_one(offsets)
-        for di, literal in enumerate(offsets):
-            consequences = []
-            for i, tile in enumerate(tiles):
-                if i in range(di, di + count):
-                    consequences += [[tile.input_direction[direction]], [tile.is_belt]]
-                elif rest_empty:
-                    consequences += set_all_false(tile.all_direction)
-                else:
-                    consequences += [[-tile.input_direction[direction]], [tile.is_belt]]
-            grid.clauses += implies([literal], consequences)
+    offsets = [grid.allocate_variable() for _ in range(len(tiles) - count + 1)]
+
+    grid.clauses += quadratic_one(offsets)
+    for di, literal in enumerate(offsets):
+        consequences = []
+        for i, tile in enumerate(tiles):
+            if i in range(di, di + count):
+                consequences += [[tile.input_direction[direction]], [tile.is_belt]]
+            elif rest_empty:
+                consequences += set_all_false(tile.all_direction)
+            else:
+                consequences += [[-tile.input_direction[direction]], [tile.is_belt]]
+        grid.clauses += implies([literal], consequences)
     return offsets
 
 
 def setup_balancer_output(grid: Grid, tiles: Sequence[TileTemplate], direction: int, count: int, rest_empty: bool = True):
     assert count <= len(tiles)
-    offsets = [grid.allocate_variable() for _ in range(len(tiles) - count)]
-
-    if len(offsets) == 0:
-        for tile in tiles:
-            grid.clauses += [[tile.output_direction[direction]], [tile.is_belt]]
-    else:
-        grid.clauses += quadratic_one(offsets)
-        for di, literal in enumerate(offsets):
-            consequences = []
-            for i, tile in enumerate(tiles):
-                if i in range(di, di + count):
-                    consequences += [[tile.output_direction[direction]], [tile.is_belt]]
-                elif rest_empty:
-                    consequences += set_all_false(tile.all_direction)
-                else:
-                    consequences += [[-tile.output_direction[direction]]]
-            grid.clauses += implies([literal], consequences)
+    offsets = [grid.allocate_variable() for _ in range(len(tiles) - count + 1)]
+
+    grid.clauses += quadratic_one(offsets)
+    for di, literal in enumerate(offsets):
+        consequences = []
+        for i, tile in enumerate(tiles):
+            if i in range(di, di + count):
+                consequences += [[tile.output_direction[direction]], [tile.is_belt]]
+            elif rest_empty:
+                consequences += set_all_false(tile.all_direction)
+            else:
+                consequences += [[-tile.output_direction[direction]]]
+        grid.clauses += implies([literal], consequences)
     return offsets
 
 
-- 
2.43.0


From e083d581c497ad233b1ead99a36007850d1e4e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:46 +0000
Subject: [PATCH 13/27] fix: do not force unused input end tiles to be belts

---
 factorio_sat/belt_balancer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/belt_balancer.py b/factorio_sat/belt_balancer.py
index 84840b3..3716832 100644
--- a/factorio_sat/belt_balancer.py
+++ b/factorio_sat/belt_balancer.py
@@ -55,7 +55,7 @@ def setup_balancer_input(grid: Grid, tiles: Sequence[TileTemplate], direction: i
             elif rest_empty:
                 consequences += set_all_false(tile.all_direction)
             else:
-                consequences += [[-tile.input_direction[direction]], [tile.is_belt]]
+                consequences += [[-tile.input_direction[direction]]]
         grid.clauses += implies([literal], consequences)
     return offsets
 
-- 
2.43.0


From 4a143c30e8189d34b0a88a96b3be05c98f448aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:46 +0000
Subject: [PATCH 14/27] fix: colour the inputs, not the outputs, with the input
 colour

---
 factorio_sat/belt_balancer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/belt_balancer.py b/factorio_sat/belt_balancer.py
index 3716832..14769de 100644
--- a/factorio_sat/belt_balancer.py
+++ b/factorio_sat/belt_balancer.py
@@ -26,7 +26,7 @@ def setup_balancer_ends_with_offsets(grid, network, start_offset: int, end_offse
 
     for y in range(start_offset, start_offset + input_count):
         grid.set_tile(0, y, Belt(Direction.RIGHT, Direction.RIGHT))
-        grid.set_colour(grid.width - 1, y, input_colour)
+        grid.set_colour(0, y, input_colour)
 
     for y in range(start_offset + input_count, grid.height):
         grid.set_tile(0, y, EmptyTile())
-- 
2.43.0


From e0f8a3ae23ecb768f4deb3e8bb0a213aa4425529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:46 +0000
Subject: [PATCH 15/27] fix: transform assembling machine tiles along with the
 grid

---
 factorio_sat/tile.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/factorio_sat/tile.py b/factorio_sat/tile.py
index 60087f7..9f91ef5 100644
--- a/factorio_sat/tile.py
+++ b/factorio_sat/tile.py
@@ -189,7 +189,7 @@ class Inserter(TransformableTile):
 
 
 @dataclass(frozen=True)
-class AssemblingMachine(BaseTile):
+class AssemblingMachine(TransformableTile):
     type_key: ClassVar[str] = 'assembling_machine'
 
     x: int
@@ -199,6 +199,12 @@ class AssemblingMachine(BaseTile):
         assert 0 <= self.x < 3
         assert 0 <= self.y < 3
 
+    def flip_x(self) -> 'AssemblingMachine':
+        return type(self)(2 - self.x, self.y)
+
+    def rotate_90(self) -> 'AssemblingMachine':
+        return type(self)(self.y, 2 - self.x)
+
     def write(self) -> Dict[str, Any]:
         return {
             **super().write(),
-- 
2.43.0


From 149d4b75408cda02bd3f286e96f99605161bc940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:46 +0000
Subject: [PATCH 16/27] fix: never leave a partially written results file

---
 factorio_sat/calculate_optimal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/factorio_sat/calculate_optimal.py b/factorio_sat/calculate_optimal.py
index a722bb7..fd7882f 100644
--- a/factorio_sat/calculate_optimal.py
+++ b/factorio_sat/calculate_optimal.py
@@ -283,8 +283,11 @@ def main():
         data = {}
         for store in stores:
             data[store.network_name] = store.to_json()
-        with open(result_file, 'w') as f:
+        # Replace the file in one step, so that an interruption cannot leave a partial one
+        temporary_file = result_file + '.tmp'
+        with open(temporary_file, 'w') as f:
             json.dump(data, f)
+        os.replace(temporary_file, result_file)
 
     if args.mode == 'query':
         if args.export_blueprints:
-- 
2.43.0


From 9ce193e00cae4acfe5e43d49dbb9faa6549910ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:29 +0000
Subject: [PATCH 17/27] fix: break vertical symmetry of single row grids
 without failing

---
 factorio_sat/optimisations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/optimisations.py b/factorio_sat/optimisations.py
index d3bdb64..241588f 100644
--- a/factorio_sat/optimisations.py
+++ b/factorio_sat/optimisations.py
@@ -412,7 +412,7 @@ def break_vertical_symmetry(grid: Grid):
     top: List[LiteralType] = []
     bot: List[LiteralType] = []
 
-    for dy in range(max(2, grid.height // 2)):
+    for dy in range(min(grid.height, max(2, grid.height // 2))):
         for x in range(grid.width):
             top_tile = grid.get_tile_instance(x, dy)
             bot_tile = grid.get_tile_instance(x, grid.height - 1 - dy)
-- 
2.43.0


From 367067cd9a234c60631262e93efa49365f8f74a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:29 +0000
Subject: [PATCH 18/27] fix: read solver output cells that carry no explicit
 tile

---
 factorio_sat/blueprint.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/factorio_sat/blueprint.py b/factorio_sat/blueprint.py
index d312d1d..cd0a163 100644
--- a/factorio_sat/blueprint.py
+++ b/factorio_sat/blueprint.py
@@ -207,16 +207,19 @@ def read_tile(item) -> BaseTile:
     if 'tile' in item:
         return BaseTile.read(item['tile'])
 
-    input_direction = item['input_direction']
-    output_direction = item['output_direction']
+    def read_direction(key: str) -> Optional[Direction]:
+        return None if item[key] is None else Direction(item[key])
+
+    input_direction = read_direction('input_direction')
+    output_direction = read_direction('output_direction')
     if 'is_empty' in item:
         if item['is_empty']:
             tile = EmptyTile()
         elif item['is_belt']:
             if input_direction is None:
-                input_direction = item['colour_direction']
+                input_direction = read_direction('colour_direction')
             if output_direction is None:
-                output_direction = item['colour_direction']
+                output_direction = read_direction('colour_direction')
 
             assert input_direction is not None or output_direction is not None
 
@@ -226,12 +229,14 @@ def read_tile(item) -> BaseTile:
         elif item['is_underground_out']:
             tile = UndergroundBelt(output_direction, False)
         elif item['is_splitter'] is not None and not item['is_splitter'] is False:
-            try:
-                tile = Splitter(item['colour_direction'], item['is_splitter'])
-            except KeyError:
-                tile = Splitter(item['splitter_direction'], item['splitter_side'])
+            if 'is_splitter_head' in item:
+                tile = Splitter(output_direction if input_direction is None else input_direction, item['is_splitter_head'])
+            elif 'colour_direction' in item:
+                tile = Splitter(read_direction('colour_direction'), item['is_splitter'])
+            else:
+                tile = Splitter(read_direction('splitter_direction'), item['splitter_side'])
         elif item['is_inserter'] is not None:
-            tile = Inserter(item['inserter_direction'], item['is_inserter'])
+            tile = Inserter(read_direction('inserter_direction'), item['is_inserter'])
         elif item['is_assembling_machine']:
             tile = AssemblingMachine(item['assembling_x'], item['assembling_y'])
         else:
-- 
2.43.0


From 058110c26fcd6def6087bc5d80a7077e67d3de2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:29 +0000
Subject: [PATCH 19/27] fix: decode solutions in which the solver leaves
 variables unmentioned

---
 factorio_sat/template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/template.py b/factorio_sat/template.py
index 16f1601..461a954 100644
--- a/factorio_sat/template.py
+++ b/factorio_sat/template.py
@@ -389,7 +389,7 @@ class BaseGrid(Generic[InstanceType, ParsedType]):
         return self.template.parse(tile, mapping)
 
     def parse_solution(self, solution: List[LiteralType]) -> np.ndarray:
-        mapping = {abs(lit): lit > 0 for lit in solution}
+        mapping = collections.defaultdict(bool, {abs(lit): lit > 0 for lit in solution})  # Unmentioned variables are free
         return np.frompyfunc(functools.partial(self.parse_cell, mapping), 1, 1)(self.tiles)
 
     def check(self, solver: str = 'g3'):
-- 
2.43.0


From 39a91c02015aad2d5e0c315369b1dbe7cea7543a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:29 +0000
Subject: [PATCH 20/27] fix: accept blank and empty value lines in solver
 answers

---
 factorio_sat/template.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/factorio_sat/template.py b/factorio_sat/template.py
index 461a954..f5afaab 100644
--- a/factorio_sat/template.py
+++ b/factorio_sat/template.py
@@ -68,10 +68,12 @@ def run_command_solver(cmd: str, clauses: ClauseList) -> Optional[List[LiteralTy
                 print(line, file=sys.stderr, end='')
                 continue
             variables = line.split()
+            if len(variables) == 0:
+                continue
             if variables[0] != 'v':
                 raise RuntimeError('Solution not returned correctly: ' + line)
             model += [int(v) for v in variables[1:]]
-            if model[-1] == 0:
+            if model[-1:] == [0]:
                 model.pop()
                 break
         return model
-- 
2.43.0


From a238980811c43a2816903f1237aa5f2f767cd177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:07 +0000
Subject: [PATCH 21/27] fix: enumerate values of important variables the solver
 leaves unmentioned

---
 factorio_sat/template.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/factorio_sat/template.py b/factorio_sat/template.py
index f5afaab..267c6cb 100644
--- a/factorio_sat/template.py
+++ b/factorio_sat/template.py
@@ -434,7 +434,9 @@ class BaseGrid(Generic[InstanceType, ParsedType]):
                     solution = s.get_model()
                     yield self.parse_solution(solution)
 
-                    s.add_clause([-lit for lit in solution if abs(lit) in important_variables])
+                    # Variables left unmentioned by the solver are decoded as false
+                    mapping = {abs(lit): lit > 0 for lit in solution}
+                    s.add_clause([-var if mapping.get(var, False) else var for var in important_variables])
 
     def write(self, filename: str, comments: Optional[List[str]] = None):
         cnf = CNF(from_clauses=self.clauses)
-- 
2.43.0


From 899ceb932e42177ac2eed40e6fd3d9f2ae1bf9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:53 +0000
Subject: [PATCH 22/27] fix: enumerate solutions of grids without colours

---
 factorio_sat/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/solver.py b/factorio_sat/solver.py
index 36835a0..f3376bc 100644
--- a/factorio_sat/solver.py
+++ b/factorio_sat/solver.py
@@ -456,6 +456,6 @@ class Grid(FactorioGrid[TileTemplate, Dict[str, Any]]):
 
                 important_variables |= set([*tile.all_direction, tile.is_splitter])
 
-                if not ignore_colour:
+                if not ignore_colour and self.colours is not None:
                     important_variables |= set(tile.colour + tile.colour_ux + tile.colour_uy)
         return super().itersolve(important_variables, solver)
-- 
2.43.0


From 8a1937e6eef5e8bac01f14e7f089dcb78d3984cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:01 +0000
Subject: [PATCH 23/27] fix: emit the spiral patterns instead of discarding
 every block

---
 factorio_sat/optimisations.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/factorio_sat/optimisations.py b/factorio_sat/optimisations.py
index 241588f..b73d77e 100644
--- a/factorio_sat/optimisations.py
+++ b/factorio_sat/optimisations.py
@@ -456,8 +456,6 @@ def prevent_spirals(grid: Grid):
         for across_direction in (direction.next, direction.prev):
             inv_across_direction = across_direction.reverse
             for block in grid.iterate_tile_blocks(across_direction.vec, 3, direction.vec, 3):
-                block[0, 0] = None  # Unimportant tile
-
                 if (block == None).any():
                     continue
 
-- 
2.43.0


From db1638ea50e5f0edc4234d52ec9c45f9cc0d9be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:21 +0000
Subject: [PATCH 24/27] fix: index every copy of a blueprint packed into a book
 twice

---
 factorio_sat/blueprint_book.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/factorio_sat/blueprint_book.py b/factorio_sat/blueprint_book.py
index fe1aced..eeef4c9 100644
--- a/factorio_sat/blueprint_book.py
+++ b/factorio_sat/blueprint_book.py
@@ -16,7 +16,8 @@ def pack_book(blueprints, label=None):
     if label is not None:
         blueprint_book['blueprint_book']['label'] = label
 
-    blueprints = list(copy.deepcopy(blueprints))
+    # Copied one by one, as the same blueprint may be given more than once
+    blueprints = [copy.deepcopy(item) for item in blueprints]
 
     for i, item in enumerate(blueprints):
         item['index'] = i
-- 
2.43.0


From 095a5df6f532e51779e79ca21ce78673d24c8107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:34 +0000
Subject: [PATCH 25/27] fix: compare layouts with their true reversal when
 breaking horizontal symmetry

---
 factorio_sat/optimisations.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/factorio_sat/optimisations.py b/factorio_sat/optimisations.py
index b73d77e..e661926 100644
--- a/factorio_sat/optimisations.py
+++ b/factorio_sat/optimisations.py
@@ -442,10 +442,12 @@ def break_horisontal_symmetry(grid: Grid, min_x: int = 0, max_x: Optional[int] =
             end_tile = grid.get_tile_instance(max_x - dx, y)
 
             start += start_tile.input_direction + start_tile.output_direction
-            end += end_tile.output_direction + end_tile.input_direction
+            # Mirroring and reversing the flow keeps left/right, but swaps up with down and underground entrances with exits
+            for directions in (end_tile.output_direction, end_tile.input_direction):
+                end += [directions[direction] for direction in (Direction.RIGHT, Direction.DOWN, Direction.LEFT, Direction.UP)]
 
-            start += start_tile.type
-            end += end_tile.type
+            start += [start_tile.is_belt, start_tile.is_empty, start_tile.is_splitter, start_tile.is_underground_in, start_tile.is_underground_out]
+            end += [end_tile.is_belt, end_tile.is_empty, end_tile.is_splitter, end_tile.is_underground_out, end_tile.is_underground_in]
 
     grid.clauses += break_symmetry(start, end, grid.allocate_variable)
 
-- 
2.43.0


From 3295600f8ccc5c151f20a7bf02e77490d204d13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:06 +0000
Subject: [PATCH 26/27] fix: refuse to set callbacks on a released library
 solver

---
 factorio_sat/ipasir.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/factorio_sat/ipasir.py b/factorio_sat/ipasir.py
index 361eb76..c73c05a 100644
--- a/factorio_sat/ipasir.py
+++ b/factorio_sat/ipasir.py
@@ -71,6 +71,8 @@ class IPASIRSolver:
         self.lib.ipasir_add(self.solver_p, 0)
 
     def set_learn(self, callback: Callable[[ClauseType], None], max_clause_size: int = 2):
+        self.check_closed()
+
         callback_type = self.lib.ipasir_set_learn.argtypes[-1]
         if callback is None:
             raw_callback = callback_type(0)
@@ -91,6 +93,8 @@ class IPASIRSolver:
         self._learn_callback = raw_callback
 
     def set_terminate(self, callback: Callable[[], bool]):
+        self.check_closed()
+
         callback_type = self.lib.ipasir_set_terminate.argtypes[-1]
         if callback is None:
             raw_callback = callback_type(0)
-- 
2.43.0


From 4c047f11f29d43df70a81b2bb932769acef98b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:06 +0000
Subject: [PATCH 27/27] fix: do not take an interrupted library solver's
 non-answer for unsatisfiable

---
 factorio_sat/template.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/factorio_sat/template.py b/factorio_sat/template.py
index 267c6cb..6f05049 100644
--- a/factorio_sat/template.py
+++ b/factorio_sat/template.py
@@ -411,7 +411,10 @@ class BaseGrid(Generic[InstanceType, ParsedType]):
                 s = Solver(name=solver, bootstrap_with=self.clauses)
 
             with s:
-                if s.solve():
+                result = s.solve()
+                if result is None:
+                    raise RuntimeError('Solver terminated without an answer')
+                if result:
                     return self.parse_solution(s.get_model())
                 else:
                     return None
@@ -430,7 +433,13 @@ class BaseGrid(Generic[InstanceType, ParsedType]):
                 s = Solver(name=solver, bootstrap_with=self.clauses)
 
             with s:
-                while s.solve():
+                while True:
+                    result = s.solve()
+                    if result is None:
+                        raise RuntimeError('Solver terminated without an answer')
+                    if not result:
+                        break
+
                     solution = s.get_model()
                     yield self.parse_solution(solution)
 
-- 
2.43.0

