From 3cc91a63568b31b8fe8e2cc9fa00ba2f81995e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:10 +0000
Subject: [PATCH 01/23] fix: sign-extend signed reads served from buffered bits

---
 dustmaker/bitio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustmaker/bitio.py b/dustmaker/bitio.py
index 534cc32..605842e 100644
--- a/dustmaker/bitio.py
+++ b/dustmaker/bitio.py
@@ -113,6 +113,8 @@ class BitIOReader(BitIO):
             self._bits = self._bits >> bits
             self._bits_left -= bits
             self._tell += bits
+            if signed and bits and (result & (1 << bits - 1)):
+                result -= 1 << bits
             return result
 
         # Read in needed data from underlying stream.
-- 
2.43.0


From 8591b4f30b6cca937b5ce2caee254c4fa3e4a022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:10 +0000
Subject: [PATCH 02/23] fix: align after an unaligned seek moves the underlying
 stream too

---
 dustmaker/bitio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dustmaker/bitio.py b/dustmaker/bitio.py
index 605842e..4aa6550 100644
--- a/dustmaker/bitio.py
+++ b/dustmaker/bitio.py
@@ -57,6 +57,9 @@ class BitIO:
         not require :attr:`data` to support seek itself.
         """
         self._tell += self._bits_left
+        if self._bits == -1:
+            # A mid-byte seek left the underlying stream before this byte.
+            self.data.seek(self._tell // 8)
         self._bits = 0
         self._bits_left = 0
 
-- 
2.43.0


From 0acba91559fb9ddcc78dceb769cc1be9a2b71d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:10 +0000
Subject: [PATCH 03/23] fix: flushing a bit writer no longer leaves the flushed
 bits pending

---
 dustmaker/bitio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dustmaker/bitio.py b/dustmaker/bitio.py
index 4aa6550..07026a3 100644
--- a/dustmaker/bitio.py
+++ b/dustmaker/bitio.py
@@ -240,6 +240,9 @@ class BitIOWriter(BitIO):
         """
         if self._bits_left != 0 and self._bits != -1:
             self.data.write(bytes((self._bits,)))
+            self._tell += self._bits_left
+            self._bits = 0
+            self._bits_left = 0
 
     def align(self) -> None:
         """Seeks the stream forward to the nearest byte boundary. This does
-- 
2.43.0


From 637edea770968ff1c52572a53acaebd7c9eea074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:33 +0000
Subject: [PATCH 04/23] fix: use the left matrix's own y offset when
 multiplying transformations

---
 dustmaker/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustmaker/transform.py b/dustmaker/transform.py
index c2f8891..83f4fa8 100644
--- a/dustmaker/transform.py
+++ b/dustmaker/transform.py
@@ -85,7 +85,7 @@ class TxMatrix(tuple):
                 (
                     ml[1][0] * mr[0][0] + ml[1][1] * mr[1][0],
                     ml[1][0] * mr[0][1] + ml[1][1] * mr[1][1],
-                    ml[1][0] * mr[0][2] + ml[1][1] * mr[1][2] + ml[0][2],
+                    ml[1][0] * mr[0][2] + ml[1][1] * mr[1][2] + ml[1][2],
                 ),
                 (0, 0, 1),
             )
-- 
2.43.0


From 7836ce248c40caac04b8ad007f42eefbd663670d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:33 +0000
Subject: [PATCH 05/23] fix: calculate_max_id honours its lower bound and
 reset=False

---
 dustmaker/level.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index cfd88d0..7496530 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -250,14 +250,17 @@ class Level:
                 allocator will be reset based off this result. Otherwise the max
                 ID will be at least one less than the next ID.
         """
-        init = 100 if reset else self._next_id - 1
+        init = 100 if reset else max(100, self._next_id - 1)
 
         # pylint: disable=nested-min-max
-        mx_id = max(max(self.props, default=init), max(self.entities, default=init))
+        mx_id = max(
+            init, max(self.props, default=init), max(self.entities, default=init)
+        )
 
         if self.backdrop is not None:
-            mx_id = max(mx_id, self.backdrop.calculate_max_id())
-        self._next_id = mx_id + 1
+            mx_id = max(mx_id, self.backdrop.calculate_max_id(reset))
+        if reset:
+            self._next_id = mx_id + 1
         return mx_id
 
     def merge(self, other_level: "Level", remap_ids: bool = True) -> None:
-- 
2.43.0


From 6d5f8b5cffb4f27c80235e0762743973570de4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:04 +0000
Subject: [PATCH 06/23] fix: merging a level registers the merged ids with the
 id allocator

---
 dustmaker/level.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index 7496530..2c794e1 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -278,6 +278,8 @@ class Level:
         self.tiles.update(copy.deepcopy(other_level.tiles))
         self.props.update(copy.deepcopy(other_level.props))
         self.entities.update(copy.deepcopy(other_level.entities))
+        for id_num in (*other_level.props, *other_level.entities):
+            self._note_id(id_num)
         if self.backdrop is not None and other_level.backdrop is not None:
             self.backdrop.merge(other_level.backdrop, remap_ids=False)
 
-- 
2.43.0


From cf019b29c0efcb73439ddec95d1f728a2cbb7060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:20 +0000
Subject: [PATCH 07/23] fix: remap the string list id of custom score books

---
 dustmaker/entity.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dustmaker/entity.py b/dustmaker/entity.py
index 683fdb1..2731995 100644
--- a/dustmaker/entity.py
+++ b/dustmaker/entity.py
@@ -845,6 +845,11 @@ class CustomScoreBook(Entity):
 
     TYPE_IDENTIFIER = "custom_score_book"
 
+    def remap_ids(self, id_map: Dict[int, int]) -> None:
+        """Remap the string list entity ID."""
+        super().remap_ids(id_map)
+        self.level_list = id_map.get(self.level_list, 0)
+
     level_list = bind_prop("level_list_id", VariableInt, 0, "ID of StringList entity")
 
 
-- 
2.43.0


From 0b0316197d5b2f23e40d9845eab6b2269eb34a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:51 +0000
Subject: [PATCH 08/23] fix: make tiles hashable

---
 dustmaker/tile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dustmaker/tile.py b/dustmaker/tile.py
index 13b18f6..ac161f2 100644
--- a/dustmaker/tile.py
+++ b/dustmaker/tile.py
@@ -34,7 +34,7 @@ class TileSide(IntEnum):
     RIGHT = 3
 
 
-@dataclass
+@dataclass(unsafe_hash=True)
 class TileEdgeData:
     """Data class for data stored on each tile edge. Many attributes are stored
     as pairs of data to correspond to the two corners of the tile edge. These
@@ -180,7 +180,7 @@ class Tile:
         return (
             self.shape,
             self.tile_flags,
-            self.edge_data,
+            tuple(self.edge_data),
             self.sprite_set,
             self.sprite_tile,
             self.sprite_palette,
-- 
2.43.0


From 1fb53e9f627167c19ed6139b67e2a0378327ca31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:51 +0000
Subject: [PATCH 09/23] fix: make struct and array variables hashable

---
 dustmaker/variable.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dustmaker/variable.py b/dustmaker/variable.py
index fac7d69..5f1c392 100644
--- a/dustmaker/variable.py
+++ b/dustmaker/variable.py
@@ -172,6 +172,9 @@ class VariableStruct(Variable):
     def __init__(self, value: Optional[Dict[str, Variable]] = None) -> None:
         super().__init__(dict(value or {}))
 
+    def __hash__(self):
+        return hash((self._vtype, frozenset(self.value.items())))
+
     def _assert_types(self) -> None:
         """Ensure value is dictionary of strs to Variables."""
         assert isinstance(self.value, dict)
@@ -209,6 +212,9 @@ class VariableArray(Variable, collections.abc.MutableSequence):
     ) -> None:
         super().__init__((element_type, list(values or [])))
 
+    def __hash__(self):
+        return hash((self._vtype, self.value[0], tuple(self.value[1])))
+
     @property
     def element_type(self) -> Type[Variable]:
         """Element type of this array"""
-- 
2.43.0


From b75a4b57e4f3630759a1a3828690a8b5ec716a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:51 +0000
Subject: [PATCH 10/23] fix: use float defaults for float trigger speeds

---
 dustmaker/entity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dustmaker/entity.py b/dustmaker/entity.py
index 2731995..56cdde5 100644
--- a/dustmaker/entity.py
+++ b/dustmaker/entity.py
@@ -361,7 +361,7 @@ class AmbienceTrigger(Trigger):
 
     TYPE_IDENTIFIER = "ambience_trigger"
 
-    speed = bind_prop("ambience_speed", VariableFloat, 5)
+    speed = bind_prop("ambience_speed", VariableFloat, 5.0)
     sound_names = bind_prop_arr("sound_ambience_names", VariableString)
     sound_vols = bind_prop_arr("sound_ambience_vol", VariableFloat)
 
@@ -371,7 +371,7 @@ class MusicTrigger(Trigger):
 
     TYPE_IDENTIFIER = "music_trigger"
 
-    speed = bind_prop("music_speed", VariableFloat, 5)
+    speed = bind_prop("music_speed", VariableFloat, 5.0)
     sound_names = bind_prop_arr("sound_music_names", VariableString)
     sound_vols = bind_prop_arr("sound_music_vol", VariableFloat)
 
-- 
2.43.0


From 6481ebba375268d812a6e8a36721ab1a6c32498d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:51 +0000
Subject: [PATCH 11/23] fix: accept all documented fog sublayers

---
 dustmaker/entity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustmaker/entity.py b/dustmaker/entity.py
index 56cdde5..0f579b3 100644
--- a/dustmaker/entity.py
+++ b/dustmaker/entity.py
@@ -329,7 +329,7 @@ class FogTrigger(Trigger):
         assert 0 <= layer <= 20
         if sublayer is None:
             return layer
-        assert 0 <= sublayer <= 20
+        assert 0 <= sublayer <= 24
         return (sublayer + 1) * 21 + layer
 
     speed = bind_prop("fog_speed", VariableFloat, 5.0)
-- 
2.43.0


From ddbfb9e4ccac75a9d0fbf416d32914549ed55226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:44 +0000
Subject: [PATCH 12/23] fix: merge schemas of nested arrays whose element type
 is not known yet

---
 dustmaker/cmd/variables.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dustmaker/cmd/variables.py b/dustmaker/cmd/variables.py
index 6c35489..c52b516 100755
--- a/dustmaker/cmd/variables.py
+++ b/dustmaker/cmd/variables.py
@@ -54,6 +54,9 @@ def merge_schema(lhs: Any, rhs: Any) -> Any:
                 result[subkey] = merge_schema(r_subschema, subschema)
         return result
     if isinstance(lhs, list) and isinstance(rhs, list):
+        if not lhs or not rhs:
+            # Element schema of an empty nested array is not known yet.
+            return lhs or rhs
         return [merge_schema(lhs[0], rhs[0])]
     if not isinstance(lhs, str) or not isinstance(rhs, str):
         raise ValueError("unmergable schemas")
-- 
2.43.0


From 76cebfafbf26aab444c0588b89a7949c794abb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:44 +0000
Subject: [PATCH 13/23] fix: update variables of levels without regions and
 keep the file on invalid data

---
 dustmaker/cmd/variables.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dustmaker/cmd/variables.py b/dustmaker/cmd/variables.py
index c52b516..a5d737e 100755
--- a/dustmaker/cmd/variables.py
+++ b/dustmaker/cmd/variables.py
@@ -3,6 +3,7 @@
 Sample script to manipulate level variables.
 """
 import argparse
+import io
 import json
 import sys
 from typing import Any, Dict, Tuple, Type
@@ -189,7 +190,6 @@ class Variables(CliUtility):
             jdata = json.load(ndata)
 
         level = None
-        region_data = None
         if args.header:
             header = args.header.encode()
             if header not in KNOWN_VAR_FILE_HEADERS:
@@ -208,14 +208,18 @@ class Variables(CliUtility):
 
         variables = json_to_variables(jdata["schema"], jdata["vars"])
 
-        with DFWriter(open(args.object, "wb")) as writer:
-            if header == b"DF_LVL":
-                assert level and region_offsets and region_data
+        # Serialize before touching the file so it survives invalid data.
+        output = io.BytesIO()
+        with DFWriter(output, noclose=True) as writer:
+            if level is not None:
                 level.variables = variables.value
                 writer.write_level_ex(level, region_offsets, region_data)
             else:
                 writer.write_var_file(header, variables.value)
 
+        with open(args.object, "wb") as fout:
+            fout.write(output.getvalue())
+
         return 0
 
     @staticmethod
-- 
2.43.0


From aa73e43cd528595b3795d4f4b57cf253d9112d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:44 +0000
Subject: [PATCH 14/23] fix: do not truncate the level before the new thumbnail
 is serialized

---
 dustmaker/cmd/thumbnail.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dustmaker/cmd/thumbnail.py b/dustmaker/cmd/thumbnail.py
index bdb487d..1c88090 100755
--- a/dustmaker/cmd/thumbnail.py
+++ b/dustmaker/cmd/thumbnail.py
@@ -97,9 +97,14 @@ class Thumbnail(CliUtility):
                 level.sshot = fimg.read()
 
         level.variables["icon_taken"] = VariableBool(True)
-        with DFWriter(open(args.level, "wb")) as writer:
+        # Serialize before touching the file so it survives invalid data.
+        output = io.BytesIO()
+        with DFWriter(output, noclose=True) as writer:
             writer.write_level_ex(level, region_offsets, region_data)
 
+        with open(args.level, "wb") as fout:
+            fout.write(output.getvalue())
+
         return 0
 
 
-- 
2.43.0


From 72825bd717f2f185bbf86d2e2bea4f1743b2fdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:44 +0000
Subject: [PATCH 15/23] fix: transform tiles about their centers so they stay
 aligned with entities

---
 dustmaker/level.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index 2c794e1..5671c77 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -304,10 +304,15 @@ class Level:
             script persist data.
         """
 
+        half = 24 * mat.scale
+
         def _transform_tiles():
             for (layer, x, y), tile in self.tiles.items():
                 tile.transform(mat)
-                tx, ty = mat.sample(x * 48, y * 48)
+                # Map the center of the tile as flips and rotations move its
+                # top-left corner to another corner.
+                tx, ty = mat.sample(x * 48 + 24, y * 48 + 24)
+                tx, ty = tx - half, ty - half
 
                 yield (layer, int(round(tx / 48.0)), int(round(ty / 48.0))), tile
 
-- 
2.43.0


From 5dfd3c13f8df35d61406ecb5de1ed462204f2c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:44 +0000
Subject: [PATCH 16/23] fix: upscale backdrop tiles too

---
 dustmaker/level.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index 5671c77..ee7114a 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -372,11 +372,14 @@ class Level:
                 to :meth:`transform` along with the upscaling.
         """
         self.transform(mat * factor)
-        self.tiles = {
-            (layer, x + dx, y + dy): ntile
-            for (layer, x, y), tile in self.tiles.items()
-            for dx, dy, ntile in tile.upscale(factor)
-        }
+        for level in (self, self.backdrop):
+            if level is None:
+                continue
+            level.tiles = {
+                (layer, x + dx, y + dy): ntile
+                for (layer, x, y), tile in level.tiles.items()
+                for dx, dy, ntile in tile.upscale(factor)
+            }
 
     def calculate_edge_visibility(
         self,
-- 
2.43.0


From 1ee54b8f00a5435b80652c2d295421f63063168f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:44 +0000
Subject: [PATCH 17/23] fix: keep the tile flags when upscaling a tile

---
 dustmaker/tile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dustmaker/tile.py b/dustmaker/tile.py
index ac161f2..a42ad58 100644
--- a/dustmaker/tile.py
+++ b/dustmaker/tile.py
@@ -350,7 +350,7 @@ class Tile:
         if self.shape == TileShape.FULL:
             for dx in range(factor):
                 for dy in range(factor):
-                    tile = Tile(TileShape.FULL)
+                    tile = Tile(TileShape.FULL, tile_flags=self.tile_flags)
                     tile.set_sprite_tuple(self.get_sprite_tuple())
 
                     if dx == 0:
@@ -368,7 +368,7 @@ class Tile:
             for dx in range(factor):
                 ddx = dx + (factor if self.shape == TileShape.SMALL_1 else 0)
                 for dy in range(ddx // 2, factor):
-                    tile = Tile(TileShape.FULL)
+                    tile = Tile(TileShape.FULL, tile_flags=self.tile_flags)
                     tile.set_sprite_tuple(self.get_sprite_tuple())
 
                     if dy == ddx // 2:
@@ -384,7 +384,7 @@ class Tile:
         elif self.shape == TileShape.HALF_A:
             for dx in range(factor):
                 for dy in range(dx, factor):
-                    tile = Tile(TileShape.FULL)
+                    tile = Tile(TileShape.FULL, tile_flags=self.tile_flags)
                     tile.set_sprite_tuple(self.get_sprite_tuple())
 
                     if dx == dy:
-- 
2.43.0


From a6acb3164595d3bcd8bb64c8d96b1ae87df46311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:44 +0000
Subject: [PATCH 18/23] fix: transform command shifts by the requested amount
 when upscaling

---
 dustmaker/cmd/transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dustmaker/cmd/transform.py b/dustmaker/cmd/transform.py
index 96fb739..4c5fa05 100755
--- a/dustmaker/cmd/transform.py
+++ b/dustmaker/cmd/transform.py
@@ -81,9 +81,6 @@ class Transform(CliUtility):
         if args.hflip:
             mat = TxMatrix.HFLIP * mat
 
-        # Add in the translations
-        mat = mat.translate(args.translate_x, args.translate_y)
-
         if args.upscale > 1:
             # Need dustmod level type for proper scaling of entities/props
             if level.level_type == LevelType.NORMAL:
@@ -92,6 +89,9 @@ class Transform(CliUtility):
         else:
             level.transform(mat)
 
+        # Shift last, the translation is not subject to upscaling
+        level.translate(args.translate_x, args.translate_y)
+
         with DFWriter(open(args.output_level, "wb")) as writer:
             writer.write_level(level)
 
-- 
2.43.0


From 303fda515387ca88ced836c58f05b5206aff15ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:17 +0000
Subject: [PATCH 19/23] fix: reading a truncated replay no longer loops forever

---
 dustmaker/dfreader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dustmaker/dfreader.py b/dustmaker/dfreader.py
index 6a754df..c8c7a65 100644
--- a/dustmaker/dfreader.py
+++ b/dustmaker/dfreader.py
@@ -513,7 +513,10 @@ class DFReader(BitIOReader):
             input_data = bytearray()
             decomp = zlib.decompressobj()
             while not decomp.eof:
-                input_data += decomp.decompress(self.read_bytes(1))
+                next_byte = self.read_bytes(1)
+                if not next_byte:
+                    raise LevelParseException("unexpected end of replay data")
+                input_data += decomp.decompress(next_byte)
 
         with DFReader(io.BytesIO(input_data)) as sub_reader:
             inputs_len = sub_reader.read(32)  # pylint: disable=unused-variable
-- 
2.43.0


From 13bfc900f0dce93bf5f8c324ea3238edb29f021e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:17 +0000
Subject: [PATCH 20/23] fix: reading an unterminated replay input stream no
 longer loops forever

---
 dustmaker/dfreader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustmaker/dfreader.py b/dustmaker/dfreader.py
index c8c7a65..ea8418d 100644
--- a/dustmaker/dfreader.py
+++ b/dustmaker/dfreader.py
@@ -535,6 +535,8 @@ class DFReader(BitIOReader):
                     first = True
                     state = intent_meta.default
                     while True:
+                        if sub_reader.bit_tell() >= len(input_data) * 8:
+                            raise LevelParseException("unterminated replay inputs")
                         count = sub_reader.read(8)
                         if count == 0xFF:
                             break
-- 
2.43.0


From f400ed18382ba45e2c7a01ca0a2aab9b425f7869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:17 +0000
Subject: [PATCH 21/23] fix: refuse replay names that do not fit their length
 field

---
 dustmaker/dfwriter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dustmaker/dfwriter.py b/dustmaker/dfwriter.py
index 90201b9..513b93d 100644
--- a/dustmaker/dfwriter.py
+++ b/dustmaker/dfwriter.py
@@ -588,6 +588,11 @@ class DFWriter(BitIOWriter):
             force_username (bool, optional): Write a username header even if
                 `rep.username` is empty.
         """
+        if len(rep.username) > 0xFFFF:
+            raise ValueError("replay username too long")
+        if len(rep.level) > 0xFF:
+            raise ValueError("replay level name too long")
+
         if rep.username or force_username:
             self.write_bytes(b"DF_RPL2")
             self.write(16, len(rep.username))
-- 
2.43.0


From bf60e7b1880de76b3e88e5bd6591786878983771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:42 +0000
Subject: [PATCH 22/23] fix: closing a released bit writer hands buffered data
 to its raw stream

---
 dustmaker/bitio.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dustmaker/bitio.py b/dustmaker/bitio.py
index 07026a3..4d2f99d 100644
--- a/dustmaker/bitio.py
+++ b/dustmaker/bitio.py
@@ -159,7 +159,8 @@ class BitIOWriter(BitIO):
     """Bit writer wrapper for a data stream."""
 
     def __init__(self, data: BinaryIO, *, noclose: bool = False) -> None:
-        if not isinstance(data, io.BufferedIOBase):
+        self._wrapped = not isinstance(data, io.BufferedIOBase)
+        if self._wrapped:
             data = io.BufferedWriter(data)  # type: ignore
         super().__init__(data, noclose=noclose)
 
@@ -225,6 +226,10 @@ class BitIOWriter(BitIO):
         """
         try:
             self.flush()
+            if self._noclose and self._wrapped:
+                # Hand all data over to the raw stream and leave it open.
+                self._wrapped = False
+                self.data.detach()  # type: ignore
         finally:
             super().close()
 
-- 
2.43.0


From 3dcbc4a04b02e1d3d6fa528d8238ebf49786c5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:10 +0000
Subject: [PATCH 23/23] fix: prefer the joining edge that turns furthest away
 from the tile

---
 dustmaker/level.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index ee7114a..3d1eb37 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -541,7 +541,7 @@ class Level:
                     else:  # Slants
                         # No caps allowed on slant half edges
                         continue
-                    if dr:
+                    if not dr:
                         ddirs = ddirs[::-1]
 
                     for dx, dy in ddirs:
-- 
2.43.0

