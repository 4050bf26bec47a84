From 0476c81e144f753dcb81d51f6661c0e3ec0c853b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 01/52] fix: VfbEntry.header must follow the current data size

The header was cached on first access, so writing a VFB again after an entry
had been changed produced a stale size.
---
 src/vfbLib/vfb/entry.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vfbLib/vfb/entry.py b/src/vfbLib/vfb/entry.py
index 661c515..744eeca 100644
--- a/src/vfbLib/vfb/entry.py
+++ b/src/vfbLib/vfb/entry.py
@@ -1,5 +1,4 @@
 import logging
-from functools import cached_property
 from io import BytesIO
 from struct import pack
 from typing import TYPE_CHECKING
@@ -59,7 +58,7 @@ class VfbEntry(StreamReader):
             f"compiler: {self.compiler}>"
         )
 
-    @cached_property
+    @property
     def header(self) -> bytes:
         """The entry header.
 
-- 
2.43.0


From 6deacf1062da345f2efa8407a1475354aba52e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 02/52] fix: compile MMKernPair from the structure its parser
 returns

---
 src/vfbLib/compilers/fl3.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/compilers/fl3.py b/src/vfbLib/compilers/fl3.py
index 5a42ba4..72e651d 100644
--- a/src/vfbLib/compilers/fl3.py
+++ b/src/vfbLib/compilers/fl3.py
@@ -1,4 +1,5 @@
 import logging
+from typing import Any
 
 from vfbLib.compilers.base import BaseCompiler
 
@@ -6,6 +7,8 @@ logger = logging.getLogger(__name__)
 
 
 class MMKernPairCompiler(BaseCompiler):
-    def _compile(self, data: list[int]) -> None:
-        for value in data:
+    def _compile(self, data: dict[str, Any]) -> None:
+        self.write_uint32(data["l"])
+        self.write_uint32(data["r"])
+        for value in data["values"]:
             self.write_int16(value)
-- 
2.43.0


From 00a4677a6dda5d49a92730ec88338af185c12888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 03/52] fix: stop reading a VFB at the end of the data

A file without end marker was read in an endless loop.
---
 src/vfbLib/vfb/entry.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/vfb/entry.py b/src/vfbLib/vfb/entry.py
index 744eeca..a204f52 100644
--- a/src/vfbLib/vfb/entry.py
+++ b/src/vfbLib/vfb/entry.py
@@ -6,7 +6,7 @@ from typing import TYPE_CHECKING
 from vfbLib.compilers.base import BaseCompiler
 from vfbLib.constants import parser_classes
 from vfbLib.enum import F
-from vfbLib.helpers import hexStr, int32_size
+from vfbLib.helpers import hexStr, int16_size, int32_size
 from vfbLib.parsers.base import BaseParser, StreamReader
 from vfbLib.typing import EntryDict
 
@@ -151,7 +151,11 @@ class VfbEntry(StreamReader):
         """
         Read an entry from the stream and return its data size.
         """
-        raw_id = self.read_uint16()
+        id_bytes = self.stream.read(int16_size)
+        if len(id_bytes) < int16_size:
+            # End of data, the file has no end marker
+            raise EOFError
+        raw_id = int.from_bytes(id_bytes, byteorder="little")
         self.id = raw_id & ~0x8000
 
         if raw_id & 0x8000:
-- 
2.43.0


From 4a22924579a676455ece99f3aea10576c80ffb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 04/52] fix: PCLT stroke weight and width type are signed

---
 src/vfbLib/compilers/pclt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/compilers/pclt.py b/src/vfbLib/compilers/pclt.py
index bd037eb..a0e964f 100644
--- a/src/vfbLib/compilers/pclt.py
+++ b/src/vfbLib/compilers/pclt.py
@@ -22,6 +22,6 @@ class PcltCompiler(BaseCompiler):
         for value in data["character_complement"]:
             self.write_uint8(value)
         self.write_str(data["file_name"], 6)
-        self.write_uint8(data["stroke_weight"])
-        self.write_uint8(data["width_type"])
+        self.write_int8(data["stroke_weight"])
+        self.write_int8(data["width_type"])
         self.write_uint8(data["serif_style"])
-- 
2.43.0


From 5fc9480757e352e729b5e730a424c1775693fbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 05/52] fix: invert bitmaps for the Windows platform into the
 byte range

---
 src/vfbLib/compilers/bitmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/compilers/bitmap.py b/src/vfbLib/compilers/bitmap.py
index a7b4fd0..a20f1f1 100644
--- a/src/vfbLib/compilers/bitmap.py
+++ b/src/vfbLib/compilers/bitmap.py
@@ -69,7 +69,7 @@ class BaseBitmapCompiler(BaseCompiler):
         # For the "windows" platform, the bitmap must be inverted.
         data = bitmap["data"]
         if self.vfb is not None and self.vfb.writer_platform == "windows":
-            data = [[~b - 0x100 for b in row] for row in data]
+            data = [[~b + 0x100 for b in row] for row in data]
 
         encoded = self._encode_bitmap(data)
         num_values = len(list(chain.from_iterable(encoded)))
-- 
2.43.0


From 9699a3a28cf64c355de40b83b999bbd0eafc1264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 06/52] fix: decompile bitmaps of zero width

---
 src/vfbLib/parsers/bitmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/parsers/bitmap.py b/src/vfbLib/parsers/bitmap.py
index fa97f89..a0e0213 100644
--- a/src/vfbLib/parsers/bitmap.py
+++ b/src/vfbLib/parsers/bitmap.py
@@ -66,7 +66,7 @@ class BaseBitmapParser(BaseParser):
             data = [~b + 0x100 for b in data]
 
         # Split list into rows
-        bytes_per_row = ((w + 15) // 16) * 2
+        bytes_per_row = max(1, (w + 15) // 16) * 2
         # fmt:off
         nice = [
             data[j : j + bytes_per_row]  # noqa: E203
-- 
2.43.0


From b4732f67f0d3305f996ef832bf75467d8a736d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 07/52] fix: round primary instance locations instead of
 truncating them

---
 src/vfbLib/compilers/mm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/compilers/mm.py b/src/vfbLib/compilers/mm.py
index cfa3611..fae8102 100644
--- a/src/vfbLib/compilers/mm.py
+++ b/src/vfbLib/compilers/mm.py
@@ -42,4 +42,4 @@ class PrimaryInstancesCompiler(BaseCompiler):
             name = instance["name"]
             self.write_str_with_len(name)
             for value in instance["values"]:
-                self.write_value(int(10000 * value))
+                self.write_value(round(10000 * value))
-- 
2.43.0


From 1a8b3d02fab04d8cf29bd52dc87ee97ae1bae8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 08/52] fix: round guide slopes instead of truncating them

---
 src/vfbLib/compilers/guides.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/compilers/guides.py b/src/vfbLib/compilers/guides.py
index 4265373..70d8fac 100644
--- a/src/vfbLib/compilers/guides.py
+++ b/src/vfbLib/compilers/guides.py
@@ -17,7 +17,7 @@ class GuidesCompiler(BaseCompiler):
             for guide in dir_guides:
                 for master_index in range(self.vfb.num_masters):
                     self.write_value(guide[master_index]["pos"])
-                    angle = int(tan(radians(guide[master_index]["angle"])) * 10000)
+                    angle = round(tan(radians(guide[master_index]["angle"])) * 10000)
                     self.write_value(angle)
 
 
-- 
2.43.0


From c206c74c053e80f6d6a0aea2bbb972a8dafb5e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 09/52] fix: compile class flags and anchor properties as
 signed values

They are parsed as signed values, but negative values below -1131 raised an
error when compiled.
---
 src/vfbLib/compilers/base.py  | 10 +++++-----
 src/vfbLib/compilers/glyph.py |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/vfbLib/compilers/base.py b/src/vfbLib/compilers/base.py
index 72c0fa9..fd6cfbc 100644
--- a/src/vfbLib/compilers/base.py
+++ b/src/vfbLib/compilers/base.py
@@ -287,8 +287,8 @@ class OpenTypeKerningClassFlagsCompiler(BaseCompiler):
         for name, flags in data.items():
             self.write_str_with_len(name)
             flag1, flag2 = flags
-            self.write_value(flag1, signed=False)
-            self.write_value(flag2, signed=False)
+            self.write_value(flag1)
+            self.write_value(flag2)
 
 
 class OpenTypeMetricsClassFlagsCompiler(BaseCompiler):
@@ -297,6 +297,6 @@ class OpenTypeMetricsClassFlagsCompiler(BaseCompiler):
         for name, flags in data.items():
             self.write_str_with_len(name)
             flag1, flag2, flag3 = flags
-            self.write_value(flag1, signed=False)
-            self.write_value(flag2, signed=False)
-            self.write_value(flag3, signed=False)
+            self.write_value(flag1)
+            self.write_value(flag2)
+            self.write_value(flag3)
diff --git a/src/vfbLib/compilers/glyph.py b/src/vfbLib/compilers/glyph.py
index 3ce4376..df9ce46 100644
--- a/src/vfbLib/compilers/glyph.py
+++ b/src/vfbLib/compilers/glyph.py
@@ -40,8 +40,8 @@ class GlyphAnchorsSuppCompiler(BaseCompiler):
     def _compile(self, data: "list[AnchorPropertiesDict]") -> None:
         self.write_value(len(data), signed=False)
         for anchor in data:
-            self.write_value(anchor.get("hue", 0), signed=False)
-            self.write_value(anchor.get("data", 0), signed=False)
+            self.write_value(anchor.get("hue", 0))
+            self.write_value(anchor.get("data", 0))
 
 
 class GlyphGDEFCompiler(BaseCompiler):
-- 
2.43.0


From 13f0c58f907c348b95afd6539a46bc40bd78d358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 10/52] fix: compile export options that have no name

---
 src/vfbLib/compilers/options.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/compilers/options.py b/src/vfbLib/compilers/options.py
index 0f6c7cf..cfb3fea 100644
--- a/src/vfbLib/compilers/options.py
+++ b/src/vfbLib/compilers/options.py
@@ -9,9 +9,9 @@ if TYPE_CHECKING:
 
 
 class ExportOptionsCompiler(BaseCompiler):
-    def _compile(self, data: list[str]) -> None:
+    def _compile(self, data: list[str | int]) -> None:
         rev = {v: k for k, v in export_options.items()}
-        options = [rev[k] for k in data]
+        options = [k if isinstance(k, int) else rev[k] for k in data]
         self.write_uint16(intListToBinary(options))
 
 
-- 
2.43.0


From ea9c304b51e72b225ebe6ba7297b25fe0bdb0d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 11/52] fix: compile font options that have no name

---
 src/vfbLib/compilers/options.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/compilers/options.py b/src/vfbLib/compilers/options.py
index cfb3fea..7f9f09d 100644
--- a/src/vfbLib/compilers/options.py
+++ b/src/vfbLib/compilers/options.py
@@ -20,7 +20,9 @@ class FontOptionsCompiler(BaseCompiler):
         rev = {v: k for k, v in font_options.items()}
         for k, v in data.items():
             raw_key = rev.get(k)
-            assert raw_key is not None
+            if raw_key is None:
+                # The parser returns unknown keys as a numeric string
+                raw_key = int(k)
             match k:
                 case "auto_hinting_h_ratio" | "auto_hinting_v_ratio":
                     assert isinstance(v, float)
-- 
2.43.0


From bcb1994de5b8676e7505054a1fb0d5955469bbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 12/52] fix: compile mapping modes that have no name

---
 src/vfbLib/compilers/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/compilers/base.py b/src/vfbLib/compilers/base.py
index fd6cfbc..51a1f6a 100644
--- a/src/vfbLib/compilers/base.py
+++ b/src/vfbLib/compilers/base.py
@@ -271,7 +271,9 @@ class MappingModeCompiler(BaseCompiler):
     def _compile(self, data: "MappingModeDict") -> None:
         rev_map = {v: k for k, v in mapping_modes.items()}
         self.write_uint8(1)
-        self.write_value(rev_map[data["mapping_mode"]])
+        mode = data["mapping_mode"]
+        # The parser returns unknown modes as a numeric string
+        self.write_value(rev_map[mode] if mode in rev_map else int(mode))
         self.write_uint8(2)
         self.write_value(data["m2"])
         self.write_uint8(3)
-- 
2.43.0


From 8808e215faec1751621ac5c78ba806959279b995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 13/52] fix: keep all TrueType option bits

Options without a name were lost when compiling, and a set highest bit made
the parser loop forever.
---
 src/vfbLib/compilers/truetype.py | 5 +++++
 src/vfbLib/parsers/truetype.py   | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/compilers/truetype.py b/src/vfbLib/compilers/truetype.py
index d05b29c..d386d3e 100644
--- a/src/vfbLib/compilers/truetype.py
+++ b/src/vfbLib/compilers/truetype.py
@@ -26,8 +26,13 @@ def convert_flags_options_to_int(data: "TrueTypeInfoDict") -> int:
         for k, v in tt_settings.items():
             if v in options:
                 option_bits.append(k)
+        # The parser returns unknown options as a numeric string
+        option_bits.extend(int(o) for o in options if o not in tt_settings.values())
 
         value += intListToBinary(option_bits) << 16
+    if value > 0x7FFFFFFF:
+        # Encoded as a signed value
+        value -= 0x100000000
     return value
 
 
diff --git a/src/vfbLib/parsers/truetype.py b/src/vfbLib/parsers/truetype.py
index 4d86367..e910688 100644
--- a/src/vfbLib/parsers/truetype.py
+++ b/src/vfbLib/parsers/truetype.py
@@ -22,7 +22,7 @@ logger = logging.getLogger(__name__)
 
 def convert_int_to_flags_options(value: int) -> "FlagsOptionsDict":
     flags = binaryToIntList(value & 0xFFFF)
-    options = binaryToIntList(value >> 16)
+    options = binaryToIntList(value >> 16 & 0xFFFF)
     return {
         "flags": flags,
         "options": [tt_settings.get(i, str(i)) for i in options],
-- 
2.43.0


From 08446c7f55716cbe01dc74e9ccf39a535e74707f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 14/52] fix: don't fail on invalid Mac Roman codes in name
 records

---
 src/vfbLib/parsers/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/parsers/text.py b/src/vfbLib/parsers/text.py
index f5c809b..d07e9c9 100644
--- a/src/vfbLib/parsers/text.py
+++ b/src/vfbLib/parsers/text.py
@@ -23,7 +23,7 @@ class NameRecordsParser(BaseParser):
                     if platID == 1 and encID == 0:
                         # TODO: Remove default arguments when Python < 3.11 is dropped
                         char = c.to_bytes(length=1, byteorder="big").decode("macroman")
-                except ValueError:
+                except (OverflowError, ValueError):
                     char = "\ufeff"
                 name += char
             result.append((nameID, platID, encID, langID, name))
-- 
2.43.0


From 9a75fdc9768860c1f2d80efb9d3033a903cf9c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 15/52] fix: parse feature code that consists of blank lines

---
 src/vfbLib/parsers/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/parsers/text.py b/src/vfbLib/parsers/text.py
index d07e9c9..a283ace 100644
--- a/src/vfbLib/parsers/text.py
+++ b/src/vfbLib/parsers/text.py
@@ -101,7 +101,7 @@ class OpenTypeStringParser(BaseParser):
 
         if len(lines) > 1:
             # Remove empty lines at the end, except one
-            while not lines[-1]:
+            while lines and not lines[-1]:
                 lines.pop()
         lines.append("")
         return lines
-- 
2.43.0


From 04061bfd0dcf273097f8a7e47d99424f1b7d5798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 16/52] fix: parse guides of a glyph without a name

---
 src/vfbLib/parsers/glyph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vfbLib/parsers/glyph.py b/src/vfbLib/parsers/glyph.py
index 89d9c3d..6d2e61b 100644
--- a/src/vfbLib/parsers/glyph.py
+++ b/src/vfbLib/parsers/glyph.py
@@ -158,6 +158,7 @@ class GlyphParser(BaseParser):
         0f
         """
         self.glyphdata = GlyphData()
+        self.name = ""
         start = unpack("<4B", self.stream.read(4))
         if start != (1, 9, 7, 1):
             logger.warning(f"Unexpected glyph constant: {start}")
-- 
2.43.0


From b5f91db1a475c684f719e5243804c691c2afcc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:03 +0000
Subject: [PATCH 17/52] fix: export the 1 ppem rounding of TrueType stems

---
 src/vfbLib/tth.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/tth.py b/src/vfbLib/tth.py
index 27ec4fd..7a3acda 100644
--- a/src/vfbLib/tth.py
+++ b/src/vfbLib/tth.py
@@ -207,7 +207,8 @@ def extract_tt_stem_ppem_1(data: dict, target: dict) -> None:
             direction_data = data[direction]
             for stem_data in direction_data:
                 stem_index = stem_data["stem"]
-                target[direction][stem_index]["1"] = stem_data["round"]["1"]
+                rounding = target[direction].setdefault(stem_index, {})
+                rounding[1] = stem_data["round"][1]
 
 
 def extract_tt_stem_ppems(data: dict, target: dict) -> None:
-- 
2.43.0


From 10b16c1fc98766183facfaa57451511af15abf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:03 +0000
Subject: [PATCH 18/52] fix: resolve duplicate ppm values in TrueType stem
 rounding

---
 src/vfbLib/ufo/tth.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/ufo/tth.py b/src/vfbLib/ufo/tth.py
index 575eec2..03dced0 100644
--- a/src/vfbLib/ufo/tth.py
+++ b/src/vfbLib/ufo/tth.py
@@ -75,10 +75,10 @@ def transform_stem_rounds(data: dict[int, int], name: str) -> dict[str, int]:
     """
     d: dict[str, int] = {}
     for k, v in data.items():
-        key = v
+        key = str(v)
         val = k
         if key in d:
-            if val > v:
+            if val > d[key]:
                 logger.warning(
                     f"Duplicate rounding ppm {key} in TT stem '{name}', "
                     f"choosing bigger value {val}px over {d[key]}px. {data}"
@@ -90,7 +90,7 @@ def transform_stem_rounds(data: dict[int, int], name: str) -> dict[str, int]:
                     f"keeping value {d[key]}px, ignoring {val}px. {data}"
                 )
         else:
-            d[str(key)] = val
+            d[key] = val
     return d
 
 
-- 
2.43.0


From fb9d1e3e53e459dac32677371be22a7acf4762ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:03 +0000
Subject: [PATCH 19/52] fix: export TrueType hinting of fonts without stem
 rounding, stems, zones or deltas

---
 src/vfbLib/tth.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/vfbLib/tth.py b/src/vfbLib/tth.py
index 7a3acda..2e63c4f 100644
--- a/src/vfbLib/tth.py
+++ b/src/vfbLib/tth.py
@@ -187,7 +187,7 @@ def extract_glyph_hints(
             IndexVfbToUfoGlyph(),
             data=tth,
             zone_names=zone_names,
-            stems=font_hints["stems"],
+            stems=font_hints.get("stems", {"ttStemsV": [], "ttStemsH": []}),
         )
         tr = ttg.get_tt_glyph_hints()
         target[data["name"]] = tr
@@ -314,22 +314,22 @@ def merge_stem_information(data: dict, font: dict) -> None:
     """
     stems_dict = {}
     for direction in ("ttStemsV", "ttStemsH"):
-        if direction in data:
-            direction_data = data[direction]
-            for stem_index, rounding in direction_data.items():
-                stem = font["stems"][direction][stem_index]
-                stem["round"].update(rounding)
-                # Sort the rounding dict by value (px)
-                rd = transform_stem_rounds(stem["round"], stem["name"])
-                srtl = sorted(rd.items(), key=lambda item: item[1])
-                srd = {k: v for k, v in srtl}
-                stem["round"] = srd
-                stems_dict[stem["name"]] = deepcopy(stem)
-                del stems_dict[stem["name"]]["name"]
+        direction_data = data.get(direction, {})
+        direction_stems = font.get("stems", {}).get(direction, [])
+        for stem_index, stem in enumerate(direction_stems):
+            # The rounding entries may be missing from the VFB
+            stem["round"].update(direction_data.get(stem_index, {}))
+            # Sort the rounding dict by value (px)
+            rd = transform_stem_rounds(stem["round"], stem["name"])
+            srtl = sorted(rd.items(), key=lambda item: item[1])
+            srd = {k: v for k, v in srtl}
+            stem["round"] = srd
+            stems_dict[stem["name"]] = deepcopy(stem)
+            del stems_dict[stem["name"]]["name"]
     if stems_dict:
         font["stems"] = stems_dict
     else:
-        del font["stems"]
+        font.pop("stems", None)
 
 
 def merge_zone_information(font: dict) -> None:
@@ -342,7 +342,7 @@ def merge_zone_information(font: dict) -> None:
     """
     all_zones = []
     for side in ("ttZonesB", "ttZonesT"):
-        for zone in font["zones"].get(side, []):
+        for zone in font.get("zones", {}).get(side, []):
             all_zones.append(zone)
     for zone_index, zone_delta in font.get("zone_deltas", {}).items():
         zone = all_zones[zone_index]
@@ -356,5 +356,5 @@ def merge_zone_information(font: dict) -> None:
     if zones_dict:
         font["zones"] = zones_dict
     else:
-        del font["zones"]
-    del font["zone_deltas"]
+        font.pop("zones", None)
+    font.pop("zone_deltas", None)
-- 
2.43.0


From f3d93b9f6ed364f43f63f2f788bd21533300daee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:10 +0000
Subject: [PATCH 20/52] fix: don't erase the glyph entry when it is accessed by
 name

---
 src/vfbLib/vfb/glyph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index bf32f84..c643dc7 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -33,7 +33,8 @@ class VfbGlyph:
         self._parent = parent
         self._glyph: UfoMasterGlyph | None = None
         self.master_index = 0
-        self.empty()
+        if self.entry.data is None:
+            self.empty()
 
     # UFO/cu2qu compatibility
 
-- 
2.43.0


From cb298ae9a87f73bca2a318ce44edf4dd38b3ad7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:13 +0000
Subject: [PATCH 21/52] fix: provide storage for each master when drawing with
 the point pen

---
 src/vfbLib/vfb/pens.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/pens.py b/src/vfbLib/vfb/pens.py
index b49f17a..dd17bb7 100644
--- a/src/vfbLib/vfb/pens.py
+++ b/src/vfbLib/vfb/pens.py
@@ -27,7 +27,9 @@ class VfbGlyphPointPen(AbstractPointPen):
             self.target = self.glyph.entry.data
         else:
             if self.glyph.entry.temp_masters is None:
-                self.glyph.entry.temp_masters = [[] * self.glyphSet.num_masters]
+                self.glyph.entry.temp_masters = [
+                    {} for _ in range(self.glyphSet.num_masters)
+                ]
             self.target = self.glyph.entry.temp_masters[self.glyph.master_index]
 
     def beginPath(
-- 
2.43.0


From 08a2ea6b4cb130d60bd7ca9ac65e3cc26d5c059b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:17 +0000
Subject: [PATCH 22/52] fix: refuse to merge masters with surplus nodes or
 components

---
 src/vfbLib/compilers/glyph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vfbLib/compilers/glyph.py b/src/vfbLib/compilers/glyph.py
index df9ce46..278db54 100644
--- a/src/vfbLib/compilers/glyph.py
+++ b/src/vfbLib/compilers/glyph.py
@@ -86,6 +86,7 @@ class GlyphCompiler(BaseCompiler):
             # See if there is any data to merge
             if "nodes" in master_data:
                 assert "nodes" in data
+                assert len(master_data["nodes"]) == len(data["nodes"])
                 for i, tgt in enumerate(data["nodes"]):
                     src = master_data["nodes"][i]
                     for key in ("type", "flags"):
@@ -94,6 +95,7 @@ class GlyphCompiler(BaseCompiler):
 
             if "components" in master_data:
                 assert "components" in data
+                assert len(master_data["components"]) == len(data["components"])
                 for i, tgt in enumerate(data["components"]):
                     src = master_data["components"][i]
                     for key in ("gid",):
-- 
2.43.0


From c58d653608d35b6f488ad08219b458e7be9a3ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:20 +0000
Subject: [PATCH 23/52] fix: merge temporary master data only once

---
 src/vfbLib/vfb/entry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vfbLib/vfb/entry.py b/src/vfbLib/vfb/entry.py
index a204f52..b464a6a 100644
--- a/src/vfbLib/vfb/entry.py
+++ b/src/vfbLib/vfb/entry.py
@@ -249,6 +249,7 @@ class VfbEntry(StreamReader):
             return
 
         self.compiler.merge(self.temp_masters, self.data)
+        self.temp_masters = None
 
     def read(self, stream: "BufferedIOBase") -> None:
         """
-- 
2.43.0


From b4ff3b85c7083442f1a40d869a2ab9c87942f440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:24 +0000
Subject: [PATCH 24/52] fix: forget everything about the previous file when
 reading another one

---
 src/vfbLib/vfb/vfb.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/vfbLib/vfb/vfb.py b/src/vfbLib/vfb/vfb.py
index 7166493..c4b02d8 100644
--- a/src/vfbLib/vfb/vfb.py
+++ b/src/vfbLib/vfb/vfb.py
@@ -138,6 +138,15 @@ class Vfb:
         """
         self.header = VfbHeader()
         self.entries = []
+        self._glyphs = {}
+        self.glyph_order = []
+        self.num_masters = 0
+        self.ttStemsV_count = 0
+        self.ttStemsH_count = 0
+        self.writer_platform = "macos"
+        self.encoding = "utf-8"
+        self.ps_hinting_options = None
+        self.any_errors = False
 
     def compile(self) -> None:
         """
-- 
2.43.0


From f78fc30c7cbed817d31f9c9740d50ebbeeab3f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:27 +0000
Subject: [PATCH 25/52] fix: access glyphs that have no name

---
 src/vfbLib/vfb/glyph.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index c643dc7..5af7c19 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -75,7 +75,8 @@ class VfbGlyph:
         if self.entry.data is None:
             raise ValueError
 
-        return self.entry.data["name"]
+        # Glyphs without a name don't have a name record
+        return self.entry.data.get("name", "")
 
     def empty(self) -> None:
         self.entry.data = get_empty_glyph(self._parent.num_masters)
@@ -89,7 +90,7 @@ class VfbGlyph:
             raise ValueError
 
         _mm_glyph = VfbToUfoGlyph()
-        _mm_glyph.name = self.entry.data["name"]
+        _mm_glyph.name = self.entry.data.get("name", "")
 
         if "components" in self.entry.data:
             _mm_glyph.mm_components = self.entry.data["components"]
@@ -395,7 +396,7 @@ class VfbGlyphMaster:
             raise ValueError
 
         _mm_glyph = VfbToUfoGlyph()
-        _mm_glyph.name = self.entry.data["name"]
+        _mm_glyph.name = self.entry.data.get("name", "")
 
         if "components" in self.entry.data:
             _mm_glyph.mm_components = self.entry.data["components"]
-- 
2.43.0


From 1a01a5ff32c80907c57d7a000f51a5a0d969537e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:30 +0000
Subject: [PATCH 26/52] fix: omit groups of which all glyphs are missing from
 the font

---
 src/vfbLib/ufo/groups.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/groups.py b/src/vfbLib/ufo/groups.py
index 0edee62..24664fc 100644
--- a/src/vfbLib/ufo/groups.py
+++ b/src/vfbLib/ufo/groups.py
@@ -33,7 +33,7 @@ def check_for_missing_glyphs(
             remaining_glyphs = list(set(glyphs) - set(missing))
             if not remaining_glyphs:
                 logger.warning(f"Not adding empty group '{group_name}' to the UFO.")
-                return glyphs, missing
+                return [], missing
             glyphs = [g for g in glyphs if g not in missing]
     return glyphs, missing
 
@@ -100,6 +100,9 @@ def transform_groups(
             name, glyphs, glyphOrder, skip_missing_group_glyphs
         )
         num_missing = len(missing)
+        if missing and not glyphs:
+            # All glyphs have been skipped
+            continue
 
         key_glyph = None
         for key_glyph_candidate in group_key_glyphs:
-- 
2.43.0


From 57474b5c53e130f3e688423194c19714fab3dcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:34 +0000
Subject: [PATCH 27/52] fix: ignore guide properties with an index below 1

---
 src/vfbLib/ufo/guides.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/guides.py b/src/vfbLib/ufo/guides.py
index 8ade459..b3a98f6 100644
--- a/src/vfbLib/ufo/guides.py
+++ b/src/vfbLib/ufo/guides.py
@@ -49,7 +49,7 @@ def apply_guide_properties(
     for direction in DIRECTIONS:
         for prop in properties[direction]:
             guide_index = prop["index"] - 1  # index is 1-based
-            if guide_index >= len(direction_guides[direction]):
+            if not 0 <= guide_index < len(direction_guides[direction]):
                 logger.info(
                     f"Skipping guide properties, guide is missing ({guide_index})."
                 )
-- 
2.43.0


From bb5684dfa7fee7bbd22d16efe14044329e92bc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:37 +0000
Subject: [PATCH 28/52] fix: keep empty comments in feature code

---
 src/vfbLib/ufo/features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/features.py b/src/vfbLib/ufo/features.py
index 738fbf5..4bf16d3 100644
--- a/src/vfbLib/ufo/features.py
+++ b/src/vfbLib/ufo/features.py
@@ -23,7 +23,7 @@ def rename_kern_classes_in_feature_code(data: list[str]) -> list[str]:
             if enum is None:
                 enum = ""
             code = f"{indent}{enum}{pos} {L} {R} {value}"
-            if comment:
+            if comment is not None:
                 code += f"#{comment}"
             features.append(code)
         else:
-- 
2.43.0


From 66dd1b54f21e01e401024a68d2d8334075843103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:52 +0000
Subject: [PATCH 29/52] fix: draw quadratic curves at the end of a contour

---
 src/vfbLib/vfb/glyph.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index 5af7c19..09903c3 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -211,6 +211,7 @@ class VfbGlyph:
         in_path = False
         in_qcurve = False
         qcurve = []
+        start = None
 
         for n in glyph.get("nodes", []):
             node_type = n.get("type")
@@ -218,7 +219,9 @@ class VfbGlyph:
             pt = n["points"][self.master_index][0]
             if node_type == "move":
                 if in_qcurve:
-                    qcurve.append(pt)
+                    if not path_is_open:
+                        # The last curve ends on the start point of its contour
+                        qcurve.append(start)
                     pen.qCurveTo(*qcurve)
                 if in_path:
                     if path_is_open:
@@ -229,6 +232,7 @@ class VfbGlyph:
                 in_qcurve = False
                 qcurve = []
                 pen.moveTo(pt)
+                start = pt
                 in_path = True
                 path_is_open = bool(flags & 8)
 
@@ -250,6 +254,10 @@ class VfbGlyph:
                 qcurve.append(pt)
             else:
                 raise ValueError(f"Unknown node type: '{node_type}'")
+        if in_qcurve:
+            if not path_is_open:
+                qcurve.append(start)
+            pen.qCurveTo(*qcurve)
         if in_path:
             if path_is_open:
                 pen.endPath()
-- 
2.43.0


From dd2b7daf593b079b48fe4da96dee60f0a6bbc30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:15 +0000
Subject: [PATCH 30/52] fix: don't discard surplus bytes of a gasp entry

---
 src/vfbLib/parsers/truetype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/parsers/truetype.py b/src/vfbLib/parsers/truetype.py
index e910688..53fcbde 100644
--- a/src/vfbLib/parsers/truetype.py
+++ b/src/vfbLib/parsers/truetype.py
@@ -43,7 +43,7 @@ class GaspParser(BaseParser):
                 "maxPpem": a,
                 "flags": b,
             }
-            for a, b in zip(it, it)
+            for a, b in zip(it, it, strict=True)
         ]
 
 
-- 
2.43.0


From 6463142fe2ff33489ce86447367220c93c9b1576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:19 +0000
Subject: [PATCH 31/52] fix: fail on incomplete anisotropic interpolation
 mappings

---
 src/vfbLib/parsers/mm.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/parsers/mm.py b/src/vfbLib/parsers/mm.py
index 5d3d851..f9ec4b7 100644
--- a/src/vfbLib/parsers/mm.py
+++ b/src/vfbLib/parsers/mm.py
@@ -7,13 +7,12 @@ class AnisotropicInterpolationsParser(BaseParser):
         # The graph used for anisotropic interpolation maps, for all axes.
         values = []
         while True:
-            axis_values = []
             try:
                 n = self.read_value()
-                axis_values = [(self.read_value(), self.read_value()) for _ in range(n)]
-                values.append(axis_values)
             except EOFError:
                 return values
+            axis_values = [(self.read_value(), self.read_value()) for _ in range(n)]
+            values.append(axis_values)
 
 
 class AxisMappingsCountParser(BaseParser):
-- 
2.43.0


From 585fd403889af0b00a945730ad5f36286c0d0a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:22 +0000
Subject: [PATCH 32/52] fix: keep the lines when splitting feature code without
 features

---
 src/vfbLib/parsers/text.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/parsers/text.py b/src/vfbLib/parsers/text.py
index a283ace..675a3b2 100644
--- a/src/vfbLib/parsers/text.py
+++ b/src/vfbLib/parsers/text.py
@@ -80,8 +80,12 @@ class OpenTypeStringParser(BaseParser):
             else:
                 feature.append(line)
 
-        # Flush the last feature
-        fea["features"].append({"tag": tag, "code": feature})
+        if in_prefix:
+            # There is no feature
+            fea["prefix"] = prefix
+        else:
+            # Flush the last feature
+            fea["features"].append({"tag": tag, "code": feature})
 
         return fea
 
-- 
2.43.0


From 3a99e136ceaacfe7fb102e51c0fae229667ab5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 33/52] fix: keep zero kerning exceptions of glyphs whose own
 class was dropped

---
 src/vfbLib/ufo/kerning.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/ufo/kerning.py b/src/vfbLib/ufo/kerning.py
index 29ae15e..2e1f600 100644
--- a/src/vfbLib/ufo/kerning.py
+++ b/src/vfbLib/ufo/kerning.py
@@ -26,9 +26,13 @@ class UfoKerning:
         self._make_name_based_kerning()
 
     def _is_exception(self, L: str, R: str):
-        L_is_key = (1, L) in self.key_glyphs or L not in self.glyph_group_1
-
-        R_is_key = (2, R) in self.key_glyphs or R not in self.glyph_group_2
+        # A key glyph stands for its group only if the group is still there
+        L_is_key = (
+            self.key_glyphs.get((1, L)) in self.groups or L not in self.glyph_group_1
+        )
+        R_is_key = (
+            self.key_glyphs.get((2, R)) in self.groups or R not in self.glyph_group_2
+        )
 
         if L_is_key and R_is_key:
             return False
-- 
2.43.0


From cefdbab939609c60fcbfc1220535348db3bb8029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:57 +0000
Subject: [PATCH 34/52] fix: leave the VFB data unchanged when exporting to UFO

---
 src/vfbLib/ufo/builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index ed8bd27..05b7a32 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -189,7 +189,6 @@ class VfbToUfoBuilder:
             g.mm_hints = data["hints"]
             if "hintmasks" in data["hints"]:
                 g.hintmasks = data["hints"]["hintmasks"]
-                del data["hints"]["hintmasks"]
 
         if "kerning" in data:
             kerning: dict[int, list[int]] = data["kerning"]
@@ -217,6 +216,8 @@ class VfbToUfoBuilder:
 
     def set_glyph_background(self, data: dict[str, Any]) -> None:
         assert self.current_glyph is not None
+        # Leave the data of the VFB entry as it is
+        data = deepcopy(data)
         if "preview" in data["bitmap"]:
             del data["bitmap"]["preview"]
         self.current_glyph.lib["com.fontlab.v5.background"] = data
-- 
2.43.0


From b01bf062348ac764aded33d2c773c3135eef864d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:58 +0000
Subject: [PATCH 35/52] fix: compile unknown entries that have been decompiled

---
 src/vfbLib/vfb/entry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/entry.py b/src/vfbLib/vfb/entry.py
index b464a6a..b46a696 100644
--- a/src/vfbLib/vfb/entry.py
+++ b/src/vfbLib/vfb/entry.py
@@ -3,7 +3,7 @@ from io import BytesIO
 from struct import pack
 from typing import TYPE_CHECKING
 
-from vfbLib.compilers.base import BaseCompiler
+from vfbLib.compilers.base import BaseCompiler, HexStringCompiler
 from vfbLib.constants import parser_classes
 from vfbLib.enum import F
 from vfbLib.helpers import hexStr, int16_size, int32_size
@@ -21,6 +21,7 @@ logger = logging.getLogger(__name__)
 
 
 FALLBACK_PARSER = BaseParser
+FALLBACK_COMPILER = HexStringCompiler
 
 
 class VfbEntry(StreamReader):
@@ -142,6 +143,7 @@ class VfbEntry(StreamReader):
                     f"Falling back to parser {FALLBACK_PARSER} for ID {self._id}"
                 )
                 self.parser = FALLBACK_PARSER
+                self.compiler = FALLBACK_COMPILER
             else:
                 self.key, self.parser, self.compiler = entry_info
                 if self.parser is not None:
-- 
2.43.0


From 92e415a03cfd28175acf13bc2512fdad8027496e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:32 +0000
Subject: [PATCH 36/52] fix: keep TrueType zones with the same name apart in
 the UFO lib

---
 src/vfbLib/ufo/builder.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 05b7a32..38f5cf7 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -347,7 +347,14 @@ class VfbToUfoBuilder:
                 )
                 name = dz["name"]
                 if name in self.tt_zones:
-                    logger.warning(f"Duplicate zone name: {name}, overwriting.")
+                    # Make zone names unique
+                    i = 1
+                    while f"{name}#{i}" in self.tt_zones:
+                        i += 1
+                    logger.warning(
+                        f"Duplicate zone name: {name}, renamed to '{name}#{i}'."
+                    )
+                    name = f"{name}#{i}"
                 self.tt_zones[name] = zone
                 self.tt_zone_names.append(name)  # for deltas
                 self.zone_names[d].append(name)  # for AlignTop/AlignBottom
-- 
2.43.0


From f4db1c4d6bf73f41776b38fb3fc6e0189bd85581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:57 +0000
Subject: [PATCH 37/52] fix: export TrueType stems without pixel size entries
 to UFO

---
 src/vfbLib/ufo/builder.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 38f5cf7..f34264f 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -263,6 +263,21 @@ class VfbToUfoBuilder:
         asm = format_assembly(deHexStr(data))
         self.info.set_tt_instructions(key, asm)
 
+    def get_tt_stem_ppms(self, direction: str, index: int) -> TUfoStemPPMDict:
+        """Return the TT stem PPMs for a stem. They are added if the VFB has none.
+
+        Args:
+            direction (str): "ttStemsH" or "ttStemsV".
+            index (int): The index of the stem in its direction.
+        """
+        for stem_ppms in self.stem_ppms[direction]:
+            if stem_ppms["stem"] == index:
+                return stem_ppms
+
+        stem_ppms = TUfoStemPPMDict(stem=index, round={})
+        self.stem_ppms[direction].append(stem_ppms)
+        return stem_ppms
+
     def set_tt_stem_ppms(self, data: TUfoStemPPMsDict) -> None:
         """Set the TT stem PPMs for stem widths of 2 to 5 pixels.
 
@@ -288,7 +303,7 @@ class VfbToUfoBuilder:
         for d in ("ttStemsH", "ttStemsV"):
             direction_stems = data[d]
             for ds in direction_stems:
-                round_dict = self.stem_ppms[d][ds["stem"]]["round"]
+                round_dict = self.get_tt_stem_ppms(d, ds["stem"])["round"]
                 ppm = 1
                 ppm1 = str(ds["round"][ppm])
                 if ppm1 in round_dict:
@@ -311,8 +326,7 @@ class VfbToUfoBuilder:
                 rv = str(r[rk])
 
                 # Take the other rounding ppm values (2-5) from self.stem_ppms
-                stem_ppms = self.stem_ppms[d][i]
-                assert i == stem_ppms["stem"]
+                stem_ppms = self.get_tt_stem_ppms(d, i)
 
                 # Build the final stem dict
                 stem: TUfoStemDict = {
-- 
2.43.0


From 1e546e9a940aa6e9207b12f56da602459374a55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 38/52] fix: refer to TrueType stems by their unique name in
 UFO glyphs

---
 src/vfbLib/ufo/builder.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index f34264f..27a217e 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -407,19 +407,23 @@ class VfbToUfoBuilder:
             direction_stems = self.stems[d]
             for stem in direction_stems:
                 name = stem["name"]
-                del stem["name"]
                 if name == "":
                     dname = "v" if d == "ttStemsH" else "h"
                     name = "%s%02i" % (dname, i)
                     i += 1
                 if name in lib:
                     oldname = name
-                    name = "%s#%02i" % (oldname, i)
+                    n = i
+                    while name in lib:
+                        name = "%s#%02i" % (oldname, n)
+                        n += 1
                     logger.warning(
                         f"Duplicate TrueType stem name '{oldname}', renamed to '{name}'"
                         ". Preferably make stem names unique in VFB."
                     )
-                lib[name] = stem
+                # The glyph programs must refer to the final name
+                stem["name"] = name
+                lib[name] = {k: v for k, v in stem.items() if k != "name"}
         if lib:
             self.lib[TT_LIB_KEY]["stems"] = lib
 
@@ -686,10 +690,10 @@ class VfbToUfoBuilder:
             self.glyph_masters[self.current_glyph.name] = self.current_glyph
             self.glyphOrder.append(self.current_glyph.name)
         self.lib["public.glyphOrder"] = self.glyphOrder
-        self.build_tt_glyph_lib()
         self.assure_tt_lib()
         self.build_tt_stems_lib()
         self.build_tt_zones_lib()
+        self.build_tt_glyph_lib()
         if not self.lib[TT_LIB_KEY]:
             del self.lib[TT_LIB_KEY]
         if (
-- 
2.43.0


From 25e2cc76cb5775325db09e8c3081263f1ad41f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:14 +0000
Subject: [PATCH 39/52] fix: write TrueType hints with the final point labels

---
 src/vfbLib/ufo/paths.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/paths.py b/src/vfbLib/ufo/paths.py
index 90f40a6..f97e359 100644
--- a/src/vfbLib/ufo/paths.py
+++ b/src/vfbLib/ufo/paths.py
@@ -76,12 +76,13 @@ class UfoMasterGlyph:
         self.tth_commands = deepcopy(self.mm_glyph.tth_commands)
         if include_ps_hints:
             self._extract_master_ps_hints()
-        self._extract_master_tt_hints()
         if not minimal:
             self._extract_master_contours(to_mask=True)
             self._extract_master_mask_metrics()
         self._extract_master_contours()
         self._finalize_point_labels(include_ps_hints)
+        # The TrueType hints must refer to the final point labels
+        self._extract_master_tt_hints()
         self._extract_master_anchors()
         if not minimal:
             self._extract_master_guides()
-- 
2.43.0


From b8c857f37475b6670243573699476f8f0d50a7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 40/52] fix: let PostScript hint sets refer to the final point
 labels

---
 src/vfbLib/ufo/paths.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/ufo/paths.py b/src/vfbLib/ufo/paths.py
index f97e359..9ab2d33 100644
--- a/src/vfbLib/ufo/paths.py
+++ b/src/vfbLib/ufo/paths.py
@@ -6,7 +6,7 @@ from typing import TYPE_CHECKING, Any
 from vfbLib.ufo.guides import apply_guide_properties, get_master_guides
 from vfbLib.ufo.pshints import build_ps_glyph_hints, get_master_hints
 from vfbLib.ufo.tth import set_tth_lib
-from vfbLib.ufo.vfb2ufo import TT_GLYPH_LIB_KEY, TT_UFO_LIB_KEY
+from vfbLib.ufo.vfb2ufo import PS_GLYPH_LIB_KEY, TT_GLYPH_LIB_KEY, TT_UFO_LIB_KEY
 
 if TYPE_CHECKING:
     from fontTools.pens.pointPen import AbstractPointPen
@@ -273,7 +273,8 @@ class UfoMasterGlyph:
         if not self.rename_points:
             return
 
-        # FIXME
+        for hint_set in self.lib.get(PS_GLYPH_LIB_KEY, {}).get("hintSetList", []):
+            self._rename_point_in_cmd(hint_set, "pointTag")
 
     def _finalize_tt_point_labels(self) -> None:
         """
-- 
2.43.0


From 184fc9256750d3de45c067c8accc45ce6aeb14fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:03 +0000
Subject: [PATCH 41/52] fix: keep a last glyph with a duplicate name in the UFO

---
 src/vfbLib/ufo/builder.py | 46 ++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 27a217e..2b247f1 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -141,6 +141,28 @@ class VfbToUfoBuilder:
             # Jump to the next 10 axis mappings
             data = data[10:]
 
+    def add_current_glyph(self) -> None:
+        """
+        Add the current glyph to the glyph order under a unique name.
+        """
+        if self.current_glyph is None:
+            return
+
+        name = self.current_glyph.name
+        if name is None:
+            logger.error("Glyph without name.")
+            return
+
+        n = name
+        i = 0
+        while n in self.glyph_masters:
+            n = f"{name}#{i}"
+            i += 1
+        if n != name:
+            logger.warning(f"Duplicate glyph, renamed from {name} to {n}.")
+        self.glyph_masters[n] = self.current_glyph
+        self.glyphOrder.append(n)
+
     def add_ot_class(self, data: str) -> None:
         """
         Add an OpenType class/group to the builder. VFB stores groups as strings, so
@@ -475,24 +497,7 @@ class VfbToUfoBuilder:
 
             match key:
                 case G.Glyph:
-                    if self.current_glyph is not None:
-                        name = self.current_glyph.name
-                        if name in self.glyph_masters:
-                            for i in range(255):
-                                n = f"{name}#{i}"
-                                if n not in self.glyph_masters:
-                                    self.glyph_masters[n] = self.current_glyph
-                                    self.glyphOrder.append(n)
-                                    logger.warning(
-                                        f"Duplicate glyph, renamed from {name} to {n}."
-                                    )
-                                    break
-                        else:
-                            if name is None:
-                                logger.error("Glyph without name.")
-                            else:
-                                self.glyph_masters[name] = self.current_glyph
-                                self.glyphOrder.append(name)
+                    self.add_current_glyph()
                     self.build_mm_glyph(data)
                 case G.VSB:
                     assert self.current_glyph is not None
@@ -685,10 +690,7 @@ class VfbToUfoBuilder:
                             pass
                     logger.info(f"Unhandled entry: {k}")
 
-        if self.current_glyph is not None:
-            assert self.current_glyph.name is not None
-            self.glyph_masters[self.current_glyph.name] = self.current_glyph
-            self.glyphOrder.append(self.current_glyph.name)
+        self.add_current_glyph()
         self.lib["public.glyphOrder"] = self.glyphOrder
         self.assure_tt_lib()
         self.build_tt_stems_lib()
-- 
2.43.0


From 79af2fac39310c871d1c0b8c325f8f70868f9049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:13 +0000
Subject: [PATCH 42/52] fix: rename kerning classes in statements with several
 spaces between the parts

---
 src/vfbLib/ufo/features.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/features.py b/src/vfbLib/ufo/features.py
index 4bf16d3..61cae98 100644
--- a/src/vfbLib/ufo/features.py
+++ b/src/vfbLib/ufo/features.py
@@ -14,7 +14,9 @@ def rename_kern_classes_in_feature_code(data: list[str]) -> list[str]:
             code = line
             comment = None
 
-        if m := search(r"^([\t\s]*)(enum )?(pos) +([\S]+) ([\S]+) +([\S]+.*)$", code):
+        if m := search(
+            r"^([\t\s]*)(enum +)?(pos) +([\S]+) +([\S]+) +([\S]+.*)$", code
+        ):
             indent, enum, pos, L, R, value = m.groups()
             if L.startswith("@_"):
                 L = f"@public.kern1.{L[1:]}"
-- 
2.43.0


From d0fa7162c1f22963cdd0c8cea513825587607e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:11 +0000
Subject: [PATCH 43/52] fix: draw the current outline of a glyph that has been
 drawn before

The point pen methods kept the contours of the first drawing and drew them
again after the nodes had been edited or another master had been selected.
---
 src/vfbLib/vfb/glyph.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index 09903c3..8deece7 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -283,9 +283,7 @@ class VfbGlyph:
         if self.entry.data is None:
             raise ValueError
 
-        if self._glyph is None:
-            self._copy_to_ufo_glyph()
-
+        self._copy_to_ufo_glyph()
         if self._glyph is None:
             raise ValueError
 
@@ -448,9 +446,7 @@ class VfbGlyphMaster:
         if self.entry.data is None:
             raise ValueError
 
-        if self._glyph is None:
-            self._copy_to_ufo_glyph(self.master_index)
-
+        self._copy_to_ufo_glyph(self.master_index)
         if self._glyph is None:
             raise ValueError
 
-- 
2.43.0


From b00add4866eb732cb44120e8678ad7cd8baa3424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:46 +0000
Subject: [PATCH 44/52] fix: there are two masters per axis, not the square of
 the number of axes

---
 src/vfbLib/ufo/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 2b247f1..0b9e066 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -712,7 +712,7 @@ class VfbToUfoBuilder:
         if self.axis_count == 0:
             masters_count = 1
         else:
-            masters_count = self.axis_count**2
+            masters_count = 2**self.axis_count
         if len(self.masters) < masters_count:
             additional = [f"m{n}" for n in range(len(self.masters), masters_count)]
             self.masters.extend(additional)
-- 
2.43.0


From b9fd762cd16ef9c2520e86fd7fda2133f9a46f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:46 +0000
Subject: [PATCH 45/52] fix: write the designspace of fonts without axis
 mappings

---
 src/vfbLib/ufo/builder.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 0b9e066..03f492d 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -612,8 +612,15 @@ class VfbToUfoBuilder:
                         "Optical Size": "opsz",
                         "Serif": "SERF",
                     }
+                    # The range is narrowed down by the axis mappings, if there are any
                     self.axes.append(
-                        AxisDescriptor(tag=tags.get(data, data.upper()[:4]), name=data)
+                        AxisDescriptor(
+                            tag=tags.get(data, data.upper()[:4]),
+                            name=data,
+                            minimum=0,
+                            default=0,
+                            maximum=1000,
+                        )
                     )
                 case F.AxisMappingsCount:
                     self.axis_mappings_count: list[int] = data
-- 
2.43.0


From 4bf2f18b08309a42e1157b5fb1f8c990ac929a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:46 +0000
Subject: [PATCH 46/52] fix: export the notes of the glyphs to UFO

---
 src/vfbLib/ufo/builder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 03f492d..d97e810 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -819,6 +819,7 @@ class VfbToUfoBuilder:
             ufo_glyph.lib = master_glyph.lib
             ufo_glyph.width = master_glyph.width
             ufo_glyph.unicodes = master_glyph.unicodes
+            ufo_glyph.note = mm_glyph.note
 
             if self.minimal:
                 continue
-- 
2.43.0


From 285fa0aef449e51af80ac6ba1691a441b627a557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:13 +0000
Subject: [PATCH 47/52] fix: vfbdiff --html compared characters instead of
 lines

---
 src/vfbLib/diff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/diff.py b/src/vfbLib/diff.py
index 0af044d..a412c9e 100644
--- a/src/vfbLib/diff.py
+++ b/src/vfbLib/diff.py
@@ -60,8 +60,8 @@ def diffvfb():
     if args.html:
         html_diff = HtmlDiff()
         html = html_diff.make_file(
-            str(vfb1_str),
-            str(vfb2_str),
+            vfb1_str,
+            vfb2_str,
             str(vfb1_path),
             str(vfb2_path),
             context=True,
-- 
2.43.0


From e8e0ca7df221edaf47d4dd882aaebb6dec196e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:58 +0000
Subject: [PATCH 48/52] fix: a file that was cut off in its header gave an
 entry made of the header

---
 src/vfbLib/parsers/header.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vfbLib/parsers/header.py b/src/vfbLib/parsers/header.py
index 1c0db07..10acc60 100644
--- a/src/vfbLib/parsers/header.py
+++ b/src/vfbLib/parsers/header.py
@@ -43,6 +43,8 @@ class VfbHeaderParser(StreamReader):
         }
 
         data_offset = self.read_uint32()
+        # The data can't start inside the header, unless the file is truncated
+        assert data_offset >= 12, f"Unsupported data offset: {data_offset}"
         self.stream.seek(data_offset)
 
         return header
-- 
2.43.0


From b8074102421845ca7d46ffa27688efb09732496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:58 +0000
Subject: [PATCH 49/52] fix: vfb3ufo and vfbcu2qu ignored the output path

---
 src/vfbLib/cmdline.py | 2 ++
 src/vfbLib/cu2qu.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/vfbLib/cmdline.py b/src/vfbLib/cmdline.py
index 641a853..a6302e2 100644
--- a/src/vfbLib/cmdline.py
+++ b/src/vfbLib/cmdline.py
@@ -226,6 +226,8 @@ def vfb2ufo():
             suffix += "z"
         if args.path:
             out_path = (Path(args.path[0]) / vfb_path.name).with_suffix(suffix)
+        elif args.outputpath:
+            out_path = Path(args.outputpath)
         else:
             out_path = vfb_path.with_suffix(suffix)
         vfb.decompile()
diff --git a/src/vfbLib/cu2qu.py b/src/vfbLib/cu2qu.py
index bcb8d82..48c8481 100644
--- a/src/vfbLib/cu2qu.py
+++ b/src/vfbLib/cu2qu.py
@@ -82,6 +82,8 @@ def vfbcu2qu():
         if args.path:
             suffix = ".vfb"
             out_path = (Path(args.path[0]) / vfb_path.name).with_suffix(suffix)
+        elif args.outputpath:
+            out_path = Path(args.outputpath)
         else:
             out_path = vfb_path.with_suffix(suffix)
         if out_path.exists():
-- 
2.43.0


From 57cf1cb8eb44bcf52bef96e40d2d1c73f5b9e22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:58 +0000
Subject: [PATCH 50/52] fix: vfb3ufo -s was not silent

---
 src/vfbLib/cmdline.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vfbLib/cmdline.py b/src/vfbLib/cmdline.py
index a6302e2..3005c94 100644
--- a/src/vfbLib/cmdline.py
+++ b/src/vfbLib/cmdline.py
@@ -217,6 +217,7 @@ def vfb2ufo():
             print(f"Reading file {vfb_path} ...")
         vfb = Vfb(
             vfb_path,
+            timing=not args.silent,
             minimal=args.minimal,
             drop_keys={F.Encoding, F.EncodingDefault},
             unicode_strings=args.unicode_strings,
-- 
2.43.0


From 5d9f8b13ffbb20b2a7acfe5464900a44c694815e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:42 +0000
Subject: [PATCH 51/52] fix: refuse TrueType info with unknown keys instead of
 dropping them

---
 src/vfbLib/parsers/truetype.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/parsers/truetype.py b/src/vfbLib/parsers/truetype.py
index 53fcbde..7effbf7 100644
--- a/src/vfbLib/parsers/truetype.py
+++ b/src/vfbLib/parsers/truetype.py
@@ -152,7 +152,8 @@ class TrueTypeInfoParser(BaseParser):
                     info[hk] = [self.read_uint8() for _ in range(num_values)]
 
                 case _:
-                    logger.warning(f"Unknown key in TrueType info: {hex(k)}")
+                    logger.error(f"Unknown key in TrueType info: {hex(k)}")
+                    raise ValueError
 
 
 class TrueTypeStemsParser(BaseParser):
-- 
2.43.0


From eda691369b050e5fe65f5f1e47943dfb0a621be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:42 +0000
Subject: [PATCH 52/52] fix: refuse glyph records with images instead of
 dropping them

---
 src/vfbLib/parsers/glyph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/parsers/glyph.py b/src/vfbLib/parsers/glyph.py
index 6d2e61b..c9523ae 100644
--- a/src/vfbLib/parsers/glyph.py
+++ b/src/vfbLib/parsers/glyph.py
@@ -195,7 +195,8 @@ class GlyphParser(BaseParser):
 
                 case 0x07:
                     # Image
-                    logger.warning("Skipping glyph data: 0x07 (image), not implemented")
+                    logger.error("Glyph data: 0x07 (image) is not implemented")
+                    raise ValueError
 
                 case 0x08:
                     # Outlines
-- 
2.43.0

