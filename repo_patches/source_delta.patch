From e11d943c5f0d3d062042f679f2f0cee0e1ac649a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:56 +0000
Subject: [PATCH 01/25] fix: adjacent splitters facing the same way are always
 connected

A splitter half with an unused output directly in front of a splitter half
with an unused input was accepted as two unconnected halves, although the
game (and network parsing) connects them, so belt_balancer could print
layouts that do not realise the requested network.
---
 factorio_sat/solver.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/factorio_sat/solver.py b/factorio_sat/solver.py
index e686613..097b3db 100644
--- a/factorio_sat/solver.py
+++ b/factorio_sat/solver.py
@@ -495,6 +495,12 @@ class Grid(FactorioGrid[TileTemplate, Dict[str, Any]]):
                     [-tile_b.input_direction[direction.reverse], -tile_b.output_direction[direction.prev]],
                 ])
 
+                # Adjacent splitters facing the same way are always connected
+                self.clauses += implies(
+                    [tile_a.input_direction[direction], tile_a.is_splitter, tile_b.output_direction[direction], tile_b.is_splitter],
+                    [[tile_a.output_direction[direction]]]
+                )
+
     def itersolve(self, important_variables=set(), solver='g3', ignore_colour=False):
         important_variables = set(important_variables)
         for x in range(self.width):
-- 
2.43.0


From 8d42ee2ffac2655437377c41697c95871b618bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:56 +0000
Subject: [PATCH 02/25] fix: make_block ignored --underground-length without
 --single-loop

---
 factorio_sat/make_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/make_block.py b/factorio_sat/make_block.py
index 243a454..1c0cff9 100644
--- a/factorio_sat/make_block.py
+++ b/factorio_sat/make_block.py
@@ -86,7 +86,7 @@ def main():
     if args.single_loop:
         grid = solver.Grid(args.width, args.height, args.width * args.height, args.underground_length, edge_mode=edge_mode)
     else:
-        grid = solver.Grid(args.width, args.height, 1, edge_mode=edge_mode)
+        grid = solver.Grid(args.width, args.height, 1, args.underground_length, edge_mode=edge_mode)
 
     grid.prevent_intersection()
     grid.prevent_bad_undergrounding()
-- 
2.43.0


From 6b966ae8a5f92e8a749b6871bfb5c6529565c776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:56 +0000
Subject: [PATCH 03/25] fix: make_block --no-parallel crashed with a TypeError

---
 factorio_sat/make_block.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/factorio_sat/make_block.py b/factorio_sat/make_block.py
index 1c0cff9..196ced5 100644
--- a/factorio_sat/make_block.py
+++ b/factorio_sat/make_block.py
@@ -56,10 +56,10 @@ def prevent_parallel(grid: solver.Grid):
                 if tile_b is None:
                     continue
 
-                grid.clauses.append([-tile_a.underground[direction + 0], -tile_b.underground[direction + 0]])
-                grid.clauses.append([-tile_a.underground[direction + 2], -tile_b.underground[direction + 0]])
-                grid.clauses.append([-tile_a.underground[direction + 0], -tile_b.underground[direction + 2]])
-                grid.clauses.append([-tile_a.underground[direction + 2], -tile_b.underground[direction + 2]])
+                grid.clauses.append([-tile_a.underground[direction], -tile_b.underground[direction]])
+                grid.clauses.append([-tile_a.underground[direction.reverse], -tile_b.underground[direction]])
+                grid.clauses.append([-tile_a.underground[direction], -tile_b.underground[direction.reverse]])
+                grid.clauses.append([-tile_a.underground[direction.reverse], -tile_b.underground[direction.reverse]])
 
 
 def main():
-- 
2.43.0


From 6b0aade406c8408d416c3cd41a1e2be2b51cee3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:17 +0000
Subject: [PATCH 04/25] fix: network parse failed on undergrounds entering at
 the top row

---
 factorio_sat/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/network.py b/factorio_sat/network.py
index b8da5cf..b6b1e4d 100644
--- a/factorio_sat/network.py
+++ b/factorio_sat/network.py
@@ -549,7 +549,7 @@ def parse_network(tiles, assume_edge_splitter_are_connected=False):
                     dx, dy = tile.direction.vec
                     while True:
                         pos = pos[0] - dx, pos[1] - dy
-                        assert pos[0] >= 0 and pos[0] < tiles.shape[0] and pos[1] >= 1 and pos[1] < tiles.shape[1]
+                        assert pos[0] >= 0 and pos[0] < tiles.shape[0] and pos[1] >= 0 and pos[1] < tiles.shape[1]
 
                         current_tile = tiles[pos]
                         assert current_tile != UndergroundBelt(tile.direction, False)
-- 
2.43.0


From 3ec1c0a66b5b5882eec0efe6556c6831c2f99782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:18 +0000
Subject: [PATCH 05/25] fix: network parse crashed on splitters next to an
 empty tile

---
 factorio_sat/network.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/factorio_sat/network.py b/factorio_sat/network.py
index b6b1e4d..7ae5aaa 100644
--- a/factorio_sat/network.py
+++ b/factorio_sat/network.py
@@ -9,7 +9,7 @@ from typing import Tuple
 import numpy as np
 from pysat.solvers import Solver
 
-from .tile import Belt, EmptyTile, FillerTile, Splitter, UndergroundBelt
+from .tile import Belt, BeltConnectedTile, EmptyTile, FillerTile, Splitter, UndergroundBelt
 from .util import bin_length, get_popcount, read_number, set_not_number
 from . import blueprint
 
@@ -565,7 +565,7 @@ def parse_network(tiles, assume_edge_splitter_are_connected=False):
             return
 
         tile = tiles[pos]
-        if tile == EmptyTile():
+        if tile == EmptyTile() or tile == FillerTile():
             return
 
         if isinstance(tile, Splitter):
@@ -620,7 +620,7 @@ def parse_network(tiles, assume_edge_splitter_are_connected=False):
                     continue
 
                 offset_tile = tiles[pos]
-                if offset_tile is None:
+                if not isinstance(offset_tile, BeltConnectedTile):
                     node[-1].append(None)
                     continue
 
-- 
2.43.0


From 5d1518b4edb2fdfb85f02b0e304b79e20a5b384a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:52 +0000
Subject: [PATCH 06/25] fix: calculate_optimal query --export-blueprints
 crashed with an AttributeError

---
 factorio_sat/calculate_optimal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/factorio_sat/calculate_optimal.py b/factorio_sat/calculate_optimal.py
index fbd63b3..34dea16 100644
--- a/factorio_sat/calculate_optimal.py
+++ b/factorio_sat/calculate_optimal.py
@@ -294,7 +294,8 @@ def main():
                 for i, row in enumerate(tiles):
                     for j, entry in enumerate(row):
                         tiles[i, j] = blueprint.read_tile(entry)
-                return blueprint.encode_blueprint(blueprint.make_blueprint(tiles, label, get_belt_level(args.underground_length)))
+                level = blueprint.TransportBeltLevel[get_belt_level(args.underground_length).upper()]
+                return blueprint.encode_blueprint(blueprint.make_blueprint(tiles, label, level))
         else:
             def encode_solution(solution, _):
                 return json.dumps(solution)
-- 
2.43.0


From 06449d1d150a37d619ff28df3de6c1ec285d0507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:52 +0000
Subject: [PATCH 07/25] fix: an interrupted calculate_optimal compute could
 destroy its database

save_progress truncated the only copy of the results before writing the new
one, so a crash in between lost everything computed so far.
---
 factorio_sat/calculate_optimal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/factorio_sat/calculate_optimal.py b/factorio_sat/calculate_optimal.py
index 34dea16..efbf9a9 100644
--- a/factorio_sat/calculate_optimal.py
+++ b/factorio_sat/calculate_optimal.py
@@ -283,8 +283,10 @@ def main():
         data = {}
         for store in stores:
             data[store.network_name] = store.to_json()
-        with open(result_file, 'w') as f:
+        temporary_file = result_file + '.tmp'
+        with open(temporary_file, 'w') as f:
             json.dump(data, f)
+        os.replace(temporary_file, result_file)  # Never leaves a partially written database behind
 
     if args.mode == 'query':
         if args.export_blueprints:
-- 
2.43.0


From 236b5b4006a37dc137bdd39de99448b577fa2313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:31 +0000
Subject: [PATCH 08/25] fix: belt_balancer never tried the last input and
 output position

With n belts on a side of m tiles there are m - n + 1 positions, but only
m - n were considered (and the belts of a completely used side were not
required to be belts on the input side), so layouts were missed and 'no
solution' could be reported although there is one.
---
 factorio_sat/belt_balancer.py | 60 +++++++++++++++--------------------
 1 file changed, 26 insertions(+), 34 deletions(-)

diff --git a/factorio_sat/belt_balancer.py b/factorio_sat/belt_balancer.py
index 474afcc..84840b3 100644
--- a/factorio_sat/belt_balancer.py
+++ b/factorio_sat/belt_balancer.py
@@ -44,45 +44,37 @@ def setup_balancer_ends_with_offsets(grid, network, start_offset: int, end_offse
 
 def setup_balancer_input(grid: Grid, tiles: Sequence[TileTemplate], direction: int, count: int, rest_empty: bool = True):
     assert count <= len(tiles)
-    offsets = [grid.allocate_variable() for _ in range(len(tiles) - count)]
-
-    if len(offsets) == 0:
-        for tile in tiles:
-            grid.clauses += [[tile.input_direction[direction]]]
-    else:
-        grid.clauses += quadratic_one(offsets)
-        for di, literal in enumerate(offsets):
-            consequences = []
-            for i, tile in enumerate(tiles):
-                if i in range(di, di + count):
-                    consequences += [[tile.input_direction[direction]], [tile.is_belt]]
-                elif rest_empty:
-                    consequences += set_all_false(tile.all_direction)
-                else:
-                    consequences += [[-tile.input_direction[direction]], [tile.is_belt]]
-            grid.clauses += implies([literal], consequences)
+    offsets = [grid.allocate_variable() for _ in range(len(tiles) - count + 1)]
+
+    grid.clauses += quadratic_one(offsets)
+    for di, literal in enumerate(offsets):
+        consequences = []
+        for i, tile in enumerate(tiles):
+            if i in range(di, di + count):
+                consequences += [[tile.input_direction[direction]], [tile.is_belt]]
+            elif rest_empty:
+                consequences += set_all_false(tile.all_direction)
+            else:
+                consequences += [[-tile.input_direction[direction]], [tile.is_belt]]
+        grid.clauses += implies([literal], consequences)
     return offsets
 
 
 def setup_balancer_output(grid: Grid, tiles: Sequence[TileTemplate], direction: int, count: int, rest_empty: bool = True):
     assert count <= len(tiles)
-    offsets = [grid.allocate_variable() for _ in range(len(tiles) - count)]
-
-    if len(offsets) == 0:
-        for tile in tiles:
-            grid.clauses += [[tile.output_direction[direction]], [tile.is_belt]]
-    else:
-        grid.clauses += quadratic_one(offsets)
-        for di, literal in enumerate(offsets):
-            consequences = []
-            for i, tile in enumerate(tiles):
-                if i in range(di, di + count):
-                    consequences += [[tile.output_direction[direction]], [tile.is_belt]]
-                elif rest_empty:
-                    consequences += set_all_false(tile.all_direction)
-                else:
-                    consequences += [[-tile.output_direction[direction]]]
-            grid.clauses += implies([literal], consequences)
+    offsets = [grid.allocate_variable() for _ in range(len(tiles) - count + 1)]
+
+    grid.clauses += quadratic_one(offsets)
+    for di, literal in enumerate(offsets):
+        consequences = []
+        for i, tile in enumerate(tiles):
+            if i in range(di, di + count):
+                consequences += [[tile.output_direction[direction]], [tile.is_belt]]
+            elif rest_empty:
+                consequences += set_all_false(tile.all_direction)
+            else:
+                consequences += [[-tile.output_direction[direction]]]
+        grid.clauses += implies([literal], consequences)
     return offsets
 
 
-- 
2.43.0


From 1dc5f78c37ab3a4672f13eb0b45b46231405d8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:31 +0000
Subject: [PATCH 09/25] fix: --use-ends and --180 forced every other tile of
 the input side to be a belt

---
 factorio_sat/belt_balancer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/belt_balancer.py b/factorio_sat/belt_balancer.py
index 84840b3..3716832 100644
--- a/factorio_sat/belt_balancer.py
+++ b/factorio_sat/belt_balancer.py
@@ -55,7 +55,7 @@ def setup_balancer_input(grid: Grid, tiles: Sequence[TileTemplate], direction: i
             elif rest_empty:
                 consequences += set_all_false(tile.all_direction)
             else:
-                consequences += [[-tile.input_direction[direction]], [tile.is_belt]]
+                consequences += [[-tile.input_direction[direction]]]
         grid.clauses += implies([literal], consequences)
     return offsets
 
-- 
2.43.0


From 0e844c0c0af13c402ba78e91bab9e4ea87e2aeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:14 +0000
Subject: [PATCH 10/25] fix: logarithmic_amo also demanded at least one

---
 factorio_sat/cardinality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/cardinality.py b/factorio_sat/cardinality.py
index c5860b5..1852d31 100644
--- a/factorio_sat/cardinality.py
+++ b/factorio_sat/cardinality.py
@@ -18,7 +18,7 @@ def quadratic_amo(literals: List[LiteralType], _: Optional[AllocatorType] = None
 
 def logarithmic_amo(literals: List[LiteralType], allocator: AllocatorType) -> ClauseList:
     location_literals = [allocator() for _ in range(bin_length(len(literals)))]
-    clauses = [list(literals)]
+    clauses = []
     for i, lit in enumerate(literals):
         clauses += implies([lit], set_number(i, location_literals))
     return clauses
-- 
2.43.0


From c51217bc2999962bf4e0f1fd9ee63647e66f3dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:14 +0000
Subject: [PATCH 11/25] fix: blueprint decode crashed on belts facing each
 other

---
 factorio_sat/blueprint.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/factorio_sat/blueprint.py b/factorio_sat/blueprint.py
index 649d81e..e0a0dc0 100644
--- a/factorio_sat/blueprint.py
+++ b/factorio_sat/blueprint.py
@@ -130,6 +130,9 @@ def resolve_belt_input_directions(tiles):
             if neighbour.output_direction != direction:
                 continue
 
+            if direction == tile.output_direction.reverse:  # Facing belts don't connect
+                continue
+
             if input_direction is None:
                 input_direction = direction
             else:
-- 
2.43.0


From 9fc4fe565770e1904df942b00e8c980fd3b02e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:31 +0000
Subject: [PATCH 12/25] fix: blueprint crashed on blueprints without entities

---
 factorio_sat/blueprint.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/factorio_sat/blueprint.py b/factorio_sat/blueprint.py
index e0a0dc0..37467aa 100644
--- a/factorio_sat/blueprint.py
+++ b/factorio_sat/blueprint.py
@@ -267,7 +267,7 @@ def convert_to_tiles(blueprint_or_json: str) -> np.ndarray:
             tiles = json.loads(blueprint_or_json)
         except json.JSONDecodeError:
             raise RuntimeError('Failed to decode string as either blueprint or json')
-        tiles = np.vectorize(read_tile)(tiles)
+        tiles = np.vectorize(read_tile, otypes=[object])(tiles)
     else:
         tiles = import_blueprint(decoded_blueprint)
 
@@ -289,13 +289,13 @@ def main():
     if args.mode == 'encode':
         while True:
             tiles = np.array(json.loads(input()))
-            tiles = np.vectorize(read_tile)(tiles)
+            tiles = np.vectorize(read_tile, otypes=[object])(tiles)
             print(encode_blueprint(make_blueprint(tiles, args.label, TransportBeltLevel[args.level.upper()])))
 
     elif args.mode == 'decode':
         while True:
             decoded = decode_blueprint(input())
-            tiles = np.vectorize(write_tile)(import_blueprint(decoded))
+            tiles = np.vectorize(write_tile, otypes=[object])(import_blueprint(decoded))
             print(json.dumps(tiles.tolist()))
     else:
         assert False
-- 
2.43.0


From ac339dde2636f07e58f707ac1e6564c82daf081a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:31 +0000
Subject: [PATCH 13/25] fix: rotate left assembling machine tiles unrotated

---
 factorio_sat/tile.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/factorio_sat/tile.py b/factorio_sat/tile.py
index 60087f7..9f91ef5 100644
--- a/factorio_sat/tile.py
+++ b/factorio_sat/tile.py
@@ -189,7 +189,7 @@ class Inserter(TransformableTile):
 
 
 @dataclass(frozen=True)
-class AssemblingMachine(BaseTile):
+class AssemblingMachine(TransformableTile):
     type_key: ClassVar[str] = 'assembling_machine'
 
     x: int
@@ -199,6 +199,12 @@ class AssemblingMachine(BaseTile):
         assert 0 <= self.x < 3
         assert 0 <= self.y < 3
 
+    def flip_x(self) -> 'AssemblingMachine':
+        return type(self)(2 - self.x, self.y)
+
+    def rotate_90(self) -> 'AssemblingMachine':
+        return type(self)(self.y, 2 - self.x)
+
     def write(self) -> Dict[str, Any]:
         return {
             **super().write(),
-- 
2.43.0


From f9dcd16194a550d36b8ce747663ba82729de6f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:00 +0000
Subject: [PATCH 14/25] fix: enumeration lost the second pairing of a ring of
 splitters

On a wrapping board a closed line of splitter halves can be paired up in two
ways. Which half is the head was not part of what identifies a layout, so only
one of the two was ever enumerated.
---
 factorio_sat/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/solver.py b/factorio_sat/solver.py
index 097b3db..973b592 100644
--- a/factorio_sat/solver.py
+++ b/factorio_sat/solver.py
@@ -507,7 +507,7 @@ class Grid(FactorioGrid[TileTemplate, Dict[str, Any]]):
             for y in range(self.height):
                 tile = self.get_tile_instance(x, y)
 
-                important_variables |= set([*tile.all_direction, tile.is_splitter])
+                important_variables |= set([*tile.all_direction, tile.is_splitter, tile.is_splitter_head])
 
                 if not ignore_colour:
                     important_variables |= set(tile.colour + tile.colour_ux + tile.colour_uy)
-- 
2.43.0


From 9634c085365200d9098b357007902540f7e35cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:40 +0000
Subject: [PATCH 15/25] fix: make_block --single-loop --tile missed loops
 crossing an edge into the first tile

Loops entering the first tile around the edge or from underground could
never be found, and a 1x1 board failed an assertion.
---
 factorio_sat/make_block.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/factorio_sat/make_block.py b/factorio_sat/make_block.py
index 196ced5..8f9a0ba 100644
--- a/factorio_sat/make_block.py
+++ b/factorio_sat/make_block.py
@@ -10,6 +10,8 @@ from .util import implies, increment_number, invert_components, set_all_false, s
 
 
 def ensure_loop_length(grid: solver.Grid):
+    first_tile = grid.get_tile_instance(0, 0)
+
     for y in range(grid.height):
         for x in range(grid.width):
             tile_a = grid.get_tile_instance(x, y)
@@ -22,7 +24,6 @@ def ensure_loop_length(grid: solver.Grid):
             for direction in Direction:
                 dx, dy = direction.vec
                 tile_b = grid.get_tile_instance_offset(x, y, dx, dy)
-                x1, y1 = x + dx, y + dy
 
                 if tile_b is None:
                     continue
@@ -34,16 +35,19 @@ def ensure_loop_length(grid: solver.Grid):
                     colour_a = tile_a.colour_uy
                     colour_b = tile_b.colour_uy
 
-                if x1 == 0 and y1 == 0:
+                if tile_b is first_tile:  # Includes tiles wrapped around the edge
                     grid.clauses += implies([tile_a.output_direction[direction]], set_number(grid.colours - 1, tile_a.colour))
                 else:
                     grid.clauses += implies([tile_a.output_direction[direction]], increment_number(tile_a.colour, tile_b.colour))
 
                 grid.clauses += implies([tile_a.input_direction[direction], *invert_components(tile_a.output_direction)],
-                                        increment_number(tile_a.colour, colour_b))
+                                        set_numbers_equal(tile_a.colour, colour_b))
 
-                grid.clauses += implies([*invert_components(tile_b.input_direction), tile_b.output_direction[direction]],
-                                        set_numbers_equal(colour_a, tile_b.colour))
+                precondition = [*invert_components(tile_b.input_direction), tile_b.output_direction[direction]]
+                if tile_b is first_tile:
+                    grid.clauses += implies(precondition, set_number(grid.colours - 1, colour_a))
+                else:
+                    grid.clauses += implies(precondition, increment_number(colour_a, tile_b.colour))
                 grid.clauses += implies([tile_a.underground[direction], tile_b.underground[direction]], set_numbers_equal(colour_a, colour_b))
 
 
-- 
2.43.0


From f28d19b02bad160127ca0af9c239ddd00c6c1fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:37 +0000
Subject: [PATCH 16/25] fix: command line solvers gave only the first of all
 solutions

---
 factorio_sat/template.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/factorio_sat/template.py b/factorio_sat/template.py
index e7997a5..f596808 100644
--- a/factorio_sat/template.py
+++ b/factorio_sat/template.py
@@ -416,10 +416,14 @@ class BaseGrid(Generic[InstanceType, ParsedType]):
 
     def itersolve(self, important_variables=set(), solver: str = 'g3') -> Iterator[np.ndarray]:
         if solver.startswith('cmd:'):
-            solution = run_command_solver(solver[4:], self.clauses)
-            if solution is None:
-                return
-            yield self.parse_solution(solution)
+            clauses = list(self.clauses)
+            while True:
+                solution = run_command_solver(solver[4:], clauses)
+                if solution is None:
+                    return
+                yield self.parse_solution(solution)
+
+                clauses.append([-lit for lit in solution if abs(lit) in important_variables])
         else:
             if solver.startswith('lib:'):
                 s = IPASIRLibrary(solver[4:]).create_solver()
-- 
2.43.0


From 3400fb69ff87298ab64e92aa48775255892d7bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:37 +0000
Subject: [PATCH 17/25] fix: truncated output of command line solvers was taken
 for a solution

---
 factorio_sat/template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/template.py b/factorio_sat/template.py
index f596808..9e1cc67 100644
--- a/factorio_sat/template.py
+++ b/factorio_sat/template.py
@@ -63,7 +63,7 @@ def run_command_solver(cmd: str, clauses: ClauseList) -> Optional[List[LiteralTy
         while True:
             line = result.readline()
             if len(line) == 0:
-                break
+                raise RuntimeError('Solver output ended before the end of the solution')
             if line.startswith('c'):
                 print(line, file=sys.stderr, end='')
                 continue
-- 
2.43.0


From af810b7f815e4c0719f4261abcccd44a18306664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:37 +0000
Subject: [PATCH 18/25] fix: an interrupted solver library was taken for one
 without further solutions

---
 factorio_sat/template.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/factorio_sat/template.py b/factorio_sat/template.py
index 9e1cc67..51f83cf 100644
--- a/factorio_sat/template.py
+++ b/factorio_sat/template.py
@@ -409,7 +409,10 @@ class BaseGrid(Generic[InstanceType, ParsedType]):
                 s = Solver(name=solver, bootstrap_with=self.clauses)
 
             with s:
-                if s.solve():
+                result = s.solve()
+                if result is None:
+                    raise RuntimeError('Solver was interrupted')
+                if result:
                     return self.parse_solution(s.get_model())
                 else:
                     return None
@@ -432,7 +435,12 @@ class BaseGrid(Generic[InstanceType, ParsedType]):
                 s = Solver(name=solver, bootstrap_with=self.clauses)
 
             with s:
-                while s.solve():
+                while True:
+                    result = s.solve()
+                    if result is None:
+                        raise RuntimeError('Solver was interrupted')
+                    if not result:
+                        return
                     solution = s.get_model()
                     yield self.parse_solution(solution)
 
-- 
2.43.0


From 10cd04be8af8368abf02899c19398768fd4e7465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:05 +0000
Subject: [PATCH 19/25] fix: network parse failed on belts longer than the
 recursion limit

---
 factorio_sat/network.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/factorio_sat/network.py b/factorio_sat/network.py
index 7ae5aaa..99d417f 100644
--- a/factorio_sat/network.py
+++ b/factorio_sat/network.py
@@ -561,23 +561,24 @@ def parse_network(tiles, assume_edge_splitter_are_connected=False):
             raise RuntimeError(f'Unknown tile type: {tile}')
 
     def trace(colour: int, pos: Tuple[int, int], is_forward: bool):
-        if pos[0] < 0 or pos[0] >= tiles.shape[0] or pos[1] < 0 or pos[1] >= tiles.shape[1]:
-            return
+        while True:
+            if pos[0] < 0 or pos[0] >= tiles.shape[0] or pos[1] < 0 or pos[1] >= tiles.shape[1]:
+                return
 
-        tile = tiles[pos]
-        if tile == EmptyTile() or tile == FillerTile():
-            return
+            tile = tiles[pos]
+            if tile == EmptyTile() or tile == FillerTile():
+                return
 
-        if isinstance(tile, Splitter):
-            return
+            if isinstance(tile, Splitter):
+                return
 
-        if colour_mapping[pos] is not None:
-            assert colour_mapping[pos] == colour
-            return
+            if colour_mapping[pos] is not None:
+                assert colour_mapping[pos] == colour
+                return
 
-        colour_mapping[pos] = colour
+            colour_mapping[pos] = colour
 
-        trace(colour, next_tile(pos, is_forward), is_forward)
+            pos = next_tile(pos, is_forward)
 
     for x, row in enumerate(tiles):
         for y, tile in enumerate(row):
-- 
2.43.0


From 98640ae7a4da4bc7e7a4d18118a825afb80a832a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:41 +0000
Subject: [PATCH 20/25] fix: render crashed on inserters with a TypeError

---
 factorio_sat/render.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/factorio_sat/render.py b/factorio_sat/render.py
index 34fdd2e..fe79f9e 100644
--- a/factorio_sat/render.py
+++ b/factorio_sat/render.py
@@ -153,7 +153,7 @@ def render_tile(tile: BaseTile, animation: int, layer: RenderLayer):
         if layer == RenderLayer.BOTTOM:
             glPushMatrix()
             glTranslatef(-(8 + 1.5)/32, (8 - (7.5 - 1))/32, 0)
-            tilemaps.INSERTER_PLATFORM[tile.type].render((1 - tile.direction) % 4, 0)
+            tilemaps.INSERTER_PLATFORM[tile.type].render((1 - tile.direction.value) % 4, 0)
             glPopMatrix()
         elif layer == RenderLayer.TOP:
             # Good enough
@@ -176,7 +176,7 @@ def render_tile(tile: BaseTile, animation: int, layer: RenderLayer):
             if t < 0:
                 interior_angle *= -1
 
-            base_angle = 90 * (2 - tile.direction) + interior_angle
+            base_angle = 90 * (2 - tile.direction.value) + interior_angle
 
             glPushMatrix()
 
-- 
2.43.0


From 56c58b668260fa1a3961041a65a9f74a5f5db691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:41 +0000
Subject: [PATCH 21/25] fix: render --show-raw crashed on the elements of an
 attribute

---
 factorio_sat/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/render.py b/factorio_sat/render.py
index fe79f9e..db63c1c 100644
--- a/factorio_sat/render.py
+++ b/factorio_sat/render.py
@@ -350,7 +350,7 @@ def render_attributes(solution, font, names: List[str]):
                 sub_item = item
                 for piece in name.split('.'):
                     try:
-                        sub_item = item[int(piece)]
+                        sub_item = sub_item[int(piece)]
                         continue
                     except ValueError:
                         pass
-- 
2.43.0


From 7b61ae4ae588790f0b60d0c90de928e035a94d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:58 +0000
Subject: [PATCH 22/25] fix: network render 4x4 4x4.svg deleted the network

---
 factorio_sat/network.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/factorio_sat/network.py b/factorio_sat/network.py
index 99d417f..0255907 100644
--- a/factorio_sat/network.py
+++ b/factorio_sat/network.py
@@ -117,8 +117,10 @@ def plot(network, filename=None, engine='dot'):
     if filename is None:
         g.render('Network', format='png', view=True, cleanup=True)
     else:
-        prefix, ext = path.splitext(filename)
-        g.render(prefix, format=ext[1:], view=False, cleanup=True)
+        _, ext = path.splitext(filename)
+        data = g.pipe(format=ext[1:])
+        with open(filename, 'wb') as file:
+            file.write(data)
 
 
 def remap_colours(network, colour_map):
-- 
2.43.0


From 03ca08cf620a090f22064e15b143fb7a56061ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:58 +0000
Subject: [PATCH 23/25] fix: network render left the output unconnected when
 one splitter makes and one takes its colour

---
 factorio_sat/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/network.py b/factorio_sat/network.py
index 0255907..2d3f32e 100644
--- a/factorio_sat/network.py
+++ b/factorio_sat/network.py
@@ -100,7 +100,7 @@ def plot(network, filename=None, engine='dot'):
     for colour, occurences in colour_occurences.items():
         output_count = sum(side == OUTPUT_SIDE for side, _ in occurences)
         input_count = sum(side == INPUT_SIDE for side, _ in occurences)
-        if input_count == 1 and output_count == 1:
+        if input_count == 1 and output_count == 1 and colour not in (network_input_colour, network_output_colour):
             node_a, node_b = [colour for _, colour in sorted(occurences)]
             g.edge(str(node_a), str(node_b), label=str(colour))
         else:
-- 
2.43.0


From c8586e41945a0c38a6d4316f3833e2af7e435f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:26 +0000
Subject: [PATCH 24/25] fix: fetch_assets could not read recipes with luaparser
 4

---
 factorio_sat/assets/fetch.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/factorio_sat/assets/fetch.py b/factorio_sat/assets/fetch.py
index 5220546..1a11d07 100644
--- a/factorio_sat/assets/fetch.py
+++ b/factorio_sat/assets/fetch.py
@@ -65,8 +65,12 @@ def decode_lua_data(text):
     def recurse(node):
         if isinstance(node, ast.Table):
             result = {}
+            position = 0
             for field in node.fields:
-                if isinstance(field.key, ast.Number):
+                if field.key is None:  # luaparser >= 4 leaves out the keys of positional fields
+                    position += 1
+                    key = position
+                elif isinstance(field.key, ast.Number):
                     key = field.key.n
                 elif isinstance(field.key, ast.Name):
                     key = field.key.id
@@ -78,7 +82,7 @@ def decode_lua_data(text):
             except KeyError:
                 return result
         elif isinstance(node, ast.String):
-            return node.s
+            return node.s.decode('utf-8') if isinstance(node.s, bytes) else node.s
         elif isinstance(node, ast.FalseExpr):
             return False
         elif isinstance(node, ast.TrueExpr):
-- 
2.43.0


From 157fa4ba1d53521cdd422665423d43314e649f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:26 +0000
Subject: [PATCH 25/25] fix: recipes without an expensive variant lost their
 crafting time

---
 factorio_sat/assets/fetch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/factorio_sat/assets/fetch.py b/factorio_sat/assets/fetch.py
index 1a11d07..a2b617e 100644
--- a/factorio_sat/assets/fetch.py
+++ b/factorio_sat/assets/fetch.py
@@ -105,11 +105,11 @@ def get_recipes_for_variant(data, variant):
         if variant in entry:
             entry = entry[variant]
 
-        time = entry.get('energy_required', time)
-
         if 'ingredients' not in entry and ('result' not in entry or 'results' not in entry):
             entry = entry['normal']
 
+        time = entry.get('energy_required', time)
+
         ingredients = []
         for item in entry['ingredients']:
             if isinstance(item, list):
-- 
2.43.0

