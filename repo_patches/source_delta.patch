From 51de2d3cd19e7c1e9fd10fa602497a63a371750d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:46 +0000
Subject: [PATCH 01/64] fix: JEF writer palette for a design without stitches
 or starting with a colour change

---
 pyembroidery/JefWriter.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pyembroidery/JefWriter.py b/pyembroidery/JefWriter.py
index 0fdace4..baaebf8 100644
--- a/pyembroidery/JefWriter.py
+++ b/pyembroidery/JefWriter.py
@@ -39,12 +39,11 @@ def write(pattern, f, settings=None):
     color_toggled = False
     color_count = 0  # Color and Stop count.
     index_in_threadlist = 0
-    for stitch in pattern.stitches:
-        # Iterate all stitches.
-        flags = stitch[2] & COMMAND_MASK
-        if flags == COLOR_CHANGE or index_in_threadlist == 0:
-            # If color change *or* initial color unset.
-            thread = pattern.threadlist[index_in_threadlist]
+    # The initial color, followed by all stitches.
+    commands = [COLOR_CHANGE] + [s[2] & COMMAND_MASK for s in pattern.stitches]
+    for flags in commands:
+        if flags == COLOR_CHANGE:
+            thread = pattern.get_thread_or_filler(index_in_threadlist)
             index_in_threadlist += 1
             color_count += 1
             index_of_jefthread = thread.find_nearest_color_index(jef_threads)
-- 
2.43.0


From d795f0b35fa84f5cdf2f7050e6a6a27f40ce067a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:52 +0000
Subject: [PATCH 02/64] fix: interpolate_trims must not clip a stop between
 cancelling jumps

---
 pyembroidery/EmbPattern.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 7b4e7e0..ed846a3 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -767,6 +767,9 @@ class EmbPattern:
             elif command == COLOR_CHANGE or command == NEEDLE_SET or command == TRIM:
                 trimmed = True
                 jumping = False
+            elif command != JUMP:
+                # Other commands (STOP, SEQUIN_MODE...) end the run of jumps, and must not be clipped with it.
+                jumping = False
             if command == JUMP:
                 if not jumping:
                     jump_dx = 0
-- 
2.43.0


From 8d254d08a1216413c50ea023be111578d77e1f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:13 +0000
Subject: [PATCH 03/64] fix: size fixed and length-prefixed text fields in
 encoded bytes

PES, PEC, TBF and VP3 counted characters where the format counts bytes, so
non-ASCII (or, for TBF, long) text shifted everything written after it.
---
 pyembroidery/PecWriter.py   |  5 ++++-
 pyembroidery/PesWriter.py   | 13 +++++++------
 pyembroidery/TbfWriter.py   |  6 ++++--
 pyembroidery/Vp3Writer.py   | 10 +++-------
 pyembroidery/WriteHelper.py | 16 ++++++++++++++++
 5 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/pyembroidery/PecWriter.py b/pyembroidery/PecWriter.py
index 3feae2b..7eb42cb 100644
--- a/pyembroidery/PecWriter.py
+++ b/pyembroidery/PecWriter.py
@@ -6,6 +6,7 @@ from .WriteHelper import (
     write_int_8,
     write_int_16le,
     write_int_24le,
+    write_string_padded,
     write_string_utf8,
 )
 
@@ -45,7 +46,9 @@ def write_pec(pattern, f, threadlist=None):
 
 def write_pec_header(pattern, f, threadlist):
     name = pattern.get_metadata("name", "Untitled")
-    write_string_utf8(f, "LA:%-16s\r" % name[:8])
+    write_string_utf8(f, "LA:")
+    write_string_padded(f, name[:8], 16)
+    write_string_utf8(f, "\r")
     f.write(b"\x20\x20\x20\x20\x20\x20\x20\x20\x20\x20\x20\x20\xFF\x00")
     write_int_8(f, int(PEC_ICON_WIDTH / 8))  # PEC BYTE STRIDE
     write_int_8(f, int(PEC_ICON_HEIGHT))  # PEC ICON HEIGHT
diff --git a/pyembroidery/PesWriter.py b/pyembroidery/PesWriter.py
index 7a48c58..3c006e6 100644
--- a/pyembroidery/PesWriter.py
+++ b/pyembroidery/PesWriter.py
@@ -2,6 +2,7 @@ from .EmbConstant import *
 from .EmbThreadPec import get_thread_set
 from .PecWriter import write_pec
 from .WriteHelper import (
+    utf8_clipped,
     write_float_32le,
     write_int_8,
     write_int_16le,
@@ -219,19 +220,19 @@ def write_pes_string_8(f, string):
     if string is None:
         write_int_8(f, 0)
         return
-    if len(string) > 255:
-        string = string[:255]
-    write_int_8(f, len(string))
-    write_string_utf8(f, string)
+    encoded = utf8_clipped(string, 255)
+    write_int_8(f, len(encoded))
+    f.write(encoded)
 
 
 def write_pes_string_16(f, string):
     if string is None:
         write_int_16le(f, 0)
         return
-    write_int_16le(f, len(string))
     # 16 refers to the size write not the string encoding.
-    write_string_utf8(f, string)
+    encoded = utf8_clipped(string, 65535)
+    write_int_16le(f, len(encoded))
+    f.write(encoded)
 
 
 def write_pes_thread(f, thread):
diff --git a/pyembroidery/TbfWriter.py b/pyembroidery/TbfWriter.py
index bf47301..81d4650 100644
--- a/pyembroidery/TbfWriter.py
+++ b/pyembroidery/TbfWriter.py
@@ -1,6 +1,6 @@
 from . import decode_embroidery_command
 from .EmbConstant import *
-from .WriteHelper import write_string_utf8, write_int_8
+from .WriteHelper import write_string_padded, write_string_utf8, write_int_8
 
 FULL_JUMP = False
 ROUND = True
@@ -20,7 +20,9 @@ def write(pattern, f, settings=None):
     write_string_utf8(f, "3.00")
     for i in range(f.tell(), 0x80):
         f.write(b"\x20")  # space
-    write_string_utf8(f, "LA:%-16s\r" % name)
+    write_string_utf8(f, "LA:")
+    write_string_padded(f, name, 16)
+    write_string_utf8(f, "\r")
     write_string_utf8(f, "ST:%7d\r" % pattern.count_stitches())
     write_string_utf8(f, "CO:%3d\r" % pattern.count_needle_sets())
 
diff --git a/pyembroidery/Vp3Writer.py b/pyembroidery/Vp3Writer.py
index 43e62fd..14b5c9f 100644
--- a/pyembroidery/Vp3Writer.py
+++ b/pyembroidery/Vp3Writer.py
@@ -1,10 +1,10 @@
 from .EmbConstant import *
 from .WriteHelper import (
+    utf8_clipped,
     write_int_8,
     write_int_16be,
     write_int_24be,
     write_int_32be,
-    write_string,
     write_string_utf8,
 )
 
@@ -18,15 +18,11 @@ MAX_STITCH_DISTANCE = 255
 
 
 def vp3_write_string_8(stream, string):
-    write_int_16be(stream, len(string))
-    write_string_utf8(stream, string)
-    # vp3_write_length_and_bytes(stream, bytestring)
+    vp3_write_length_and_bytes(stream, utf8_clipped(string, 65535))
 
 
 def vp3_write_string_16(stream, string):
-    write_int_16be(stream, len(string) * 2)
-    write_string(stream, string, "UTF-16BE")
-    # vp3_write_length_and_bytes(stream, bytestring)
+    vp3_write_length_and_bytes(stream, string.encode("UTF-16BE"))
 
 
 def vp3_write_length_and_bytes(stream, bytestring):
diff --git a/pyembroidery/WriteHelper.py b/pyembroidery/WriteHelper.py
index e9648c0..924089d 100644
--- a/pyembroidery/WriteHelper.py
+++ b/pyembroidery/WriteHelper.py
@@ -114,6 +114,22 @@ def write_string(stream, string, encoding="utf8"):
         stream.write(bytes(string, encoding))
 
 
+def utf8_clipped(string, size):
+    """Encodes the string within the given number of bytes, without splitting a
+    character."""
+    encoded = string.encode("utf8")
+    if len(encoded) > size:
+        encoded = encoded[:size].decode("utf8", "ignore").encode("utf8")
+    return encoded
+
+
+def write_string_padded(stream, string, size):
+    """Writes the string in a field of exactly the given number of bytes."""
+    encoded = utf8_clipped(string, size)
+    stream.write(encoded)
+    stream.write(b"\x20" * (size - len(encoded)))
+
+
 def write_string_utf8(stream, string):
     # python 2,3 code
     try:
-- 
2.43.0


From 4b97aa4d6f0b4c182630c7213ebc599dfd626ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:33 +0000
Subject: [PATCH 04/64] fix: DST header text must not run into the stitch data

---
 pyembroidery/DstWriter.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pyembroidery/DstWriter.py b/pyembroidery/DstWriter.py
index 0084404..02e624e 100644
--- a/pyembroidery/DstWriter.py
+++ b/pyembroidery/DstWriter.py
@@ -1,5 +1,5 @@
 from .EmbConstant import *
-from .WriteHelper import write_string_utf8
+from .WriteHelper import utf8_clipped, write_string_utf8
 
 SEQUIN_CONTINGENCY = CONTINGENCY_SEQUIN_UTILIZE
 FULL_JUMP = False
@@ -104,6 +104,13 @@ def encode_record(x, y, flags):
     return bytes(bytearray([b0, b1, b2]))
 
 
+def write_extended_field(f, field):
+    """Writes the field if it fits ahead of the terminator of the header."""
+    encoded = field.encode("utf8")
+    if f.tell() + len(encoded) < DSTHEADERSIZE:
+        f.write(encoded)
+
+
 def write(pattern, f, settings=None):
     extended_header = False
     trim_at = 3
@@ -119,7 +126,9 @@ def write(pattern, f, settings=None):
 
     name = pattern.get_metadata("name", "Untitled")
 
-    write_string_utf8(f, "LA:%-16s\r" % name)
+    # Neither the name nor the extended fields may run into the stitch data.
+    name = utf8_clipped("%s" % name, 255)
+    f.write(b"LA:" + name + b"\x20" * (16 - len(name)) + b"\r")
     write_string_utf8(f, "ST:%7d\r" % pattern.count_stitches())
     write_string_utf8(f, "CO:%3d\r" % pattern.count_color_changes())
 
@@ -147,13 +156,13 @@ def write(pattern, f, settings=None):
     if extended_header:
         author = pattern.get_metadata("author")
         if author is not None:
-            write_string_utf8(f, "AU:%s\r" % author)
+            write_extended_field(f, "AU:%s\r" % author)
         meta_copyright = pattern.get_metadata("copyright")
         if meta_copyright is not None:
-            write_string_utf8(f, "CP:%s\r" % meta_copyright)
+            write_extended_field(f, "CP:%s\r" % meta_copyright)
         if len(pattern.threadlist) > 0:
             for thread in pattern.threadlist:
-                write_string_utf8(
+                write_extended_field(
                     f,
                     "TC:%s,%s,%s\r"
                     % (thread.hex_color(), thread.description, thread.catalog_number),
-- 
2.43.0


From 8048bf6841e5652e11a937baa856a2036597984f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:33 +0000
Subject: [PATCH 05/64] fix: PES writer failed on a design with jumps and no
 threads

---
 pyembroidery/PesWriter.py | 2 ++
 pyembroidery/TbfWriter.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/PesWriter.py b/pyembroidery/PesWriter.py
index 3c006e6..1bfc5ae 100644
--- a/pyembroidery/PesWriter.py
+++ b/pyembroidery/PesWriter.py
@@ -321,6 +321,8 @@ def get_as_segments_blocks(pattern, chart, adjust_x, adjust_y):
     current_thread = pattern.get_thread_or_filler(color_index)
     color_index += 1
     color_code = current_thread.find_nearest_color_index(chart)
+    if color_code is None:
+        color_code = 0  # no threads: nothing is sewn in this design.
     stitched_x = 0
     stitched_y = 0
     for command_block in pattern.get_as_command_blocks():
diff --git a/pyembroidery/TbfWriter.py b/pyembroidery/TbfWriter.py
index 81d4650..5bcb902 100644
--- a/pyembroidery/TbfWriter.py
+++ b/pyembroidery/TbfWriter.py
@@ -21,7 +21,7 @@ def write(pattern, f, settings=None):
     for i in range(f.tell(), 0x80):
         f.write(b"\x20")  # space
     write_string_utf8(f, "LA:")
-    write_string_padded(f, name, 16)
+    write_string_padded(f, "%s" % name, 16)
     write_string_utf8(f, "\r")
     write_string_utf8(f, "ST:%7d\r" % pattern.count_stitches())
     write_string_utf8(f, "CO:%3d\r" % pattern.count_needle_sets())
-- 
2.43.0


From 17ad8b7a05e834d3fa4aa739995e77145b52548e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:49 +0000
Subject: [PATCH 06/64] fix: VP3 positions of blocks on an axis or with an odd
 extent, and of fractional coordinates

Blocks starting on an axis were not moved to, and truncating before scaling
shifted designs whose extent is odd.
---
 pyembroidery/Vp3Reader.py |  2 +-
 pyembroidery/Vp3Writer.py | 28 ++++++++++++++--------------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/pyembroidery/Vp3Reader.py b/pyembroidery/Vp3Reader.py
index 3f973f6..d52d70e 100644
--- a/pyembroidery/Vp3Reader.py
+++ b/pyembroidery/Vp3Reader.py
@@ -76,7 +76,7 @@ def vp3_read_colorblock(f, out, center_x, center_y):
     start_position_y = -(signed32(read_int_32be(f)) / 100)
     abs_x = start_position_x + center_x
     abs_y = start_position_y + center_y
-    if abs_x != 0 and abs_y != 0:
+    if len(out.stitches) > 0 or abs_x != 0 or abs_y != 0:
         out.move_abs(abs_x, abs_y)
     thread = vp3_read_thread(f)
     out.add_thread(thread)
diff --git a/pyembroidery/Vp3Writer.py b/pyembroidery/Vp3Writer.py
index 14b5c9f..867fef8 100644
--- a/pyembroidery/Vp3Writer.py
+++ b/pyembroidery/Vp3Writer.py
@@ -119,20 +119,20 @@ def write_design_block(f, extends, colorblocks):
     center_x = extends[2] - half_width
     center_y = extends[3] - half_height
 
-    write_int_32be(f, int(center_x) * 100)  # initial x
-    write_int_32be(f, int(center_y) * -100)  # initial y
+    write_int_32be(f, int(round(center_x * 100)))  # initial x
+    write_int_32be(f, int(round(center_y * -100)))  # initial y
     write_int_8(f, 0)
     write_int_8(f, 0)
     write_int_8(f, 0)
 
     # extends 2
-    write_int_32be(f, int(half_width) * -100)
-    write_int_32be(f, int(half_width) * 100)
-    write_int_32be(f, int(half_height) * -100)
-    write_int_32be(f, int(half_height) * 100)
+    write_int_32be(f, int(round(half_width * -100)))
+    write_int_32be(f, int(round(half_width * 100)))
+    write_int_32be(f, int(round(half_height * -100)))
+    write_int_32be(f, int(round(half_height * 100)))
 
-    write_int_32be(f, int(width) * 100)
-    write_int_32be(f, int(height) * 100)
+    write_int_32be(f, int(round(width * 100)))
+    write_int_32be(f, int(round(height * 100)))
     vp3_write_string_16(f, "")  # This is notes and settings string.
 
     f.write(b"\x64\x64")  # write_int_16be(f, 25700)
@@ -177,16 +177,16 @@ def write_vp3_colorblock(f, first, center_x, center_y, stitches, thread):
         last_pos_y = 0
     start_position_from_center_x = first_pos_x - center_x
     start_position_from_center_y = -(first_pos_y - center_y)
-    write_int_32be(f, int(start_position_from_center_x) * 100)
-    write_int_32be(f, int(start_position_from_center_y) * 100)
+    write_int_32be(f, int(round(start_position_from_center_x * 100)))
+    write_int_32be(f, int(round(start_position_from_center_y * 100)))
 
     vp3_write_thread(f, thread)
 
     block_shift_x = last_pos_x - first_pos_x
     block_shift_y = -(last_pos_y - first_pos_y)
 
-    write_int_32be(f, int(block_shift_x) * 100)
-    write_int_32be(f, int(block_shift_y) * 100)
+    write_int_32be(f, int(round(block_shift_x * 100)))
+    write_int_32be(f, int(round(block_shift_y * 100)))
 
     write_stitches_block(f, stitches, first_pos_x, first_pos_y)
 
@@ -248,8 +248,8 @@ def write_stitches_block(f, stitches, first_pos_x, first_pos_y):
             # VP3 has no jump commands. These are skipped.
             # It moves to the relevant location without needing to block the needlebar.
             continue
-        dx = int(x - last_x)
-        dy = int(y - last_y)
+        dx = int(round(x - last_x))
+        dy = int(round(y - last_y))
         last_x += dx
         last_y += dy
         if flags == STITCH:
-- 
2.43.0


From ace84de76530a6f1ae1cca429cda5e1947fe95b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:18 +0000
Subject: [PATCH 07/64] fix: XXX stitches of 124 units were written as the long
 form that reads back as a jump

---
 pyembroidery/XxxWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/XxxWriter.py b/pyembroidery/XxxWriter.py
index 913a533..c27e423 100644
--- a/pyembroidery/XxxWriter.py
+++ b/pyembroidery/XxxWriter.py
@@ -82,7 +82,7 @@ def write_xxx_stitches(pattern, f):
         if data == END:
             break
         if data == STITCH:
-            if -124 < dx < 124 and -124 < dy < 124:
+            if -124 <= dx <= 124 and -124 <= dy <= 124:
                 write_int_8(f, dx)
                 write_int_8(f, -dy)
                 continue
-- 
2.43.0


From b86e46264f1d36baf409eaf504490982ba6577b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 08/64] fix: U01 speed switches: the latest one wins and a
 stitch without displacement is kept

---
 pyembroidery/U01Writer.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyembroidery/U01Writer.py b/pyembroidery/U01Writer.py
index cb8a57f..df9b2ef 100644
--- a/pyembroidery/U01Writer.py
+++ b/pyembroidery/U01Writer.py
@@ -43,9 +43,11 @@ def write(pattern, f, settings=None):
         yy += dy
         if data == SLOW:
             trigger_slow = True
+            trigger_fast = False
             continue
         if data == FAST:
             trigger_fast = True
+            trigger_slow = False
             continue
         cmd = 0x80
         if dy >= 0:
@@ -55,14 +57,20 @@ def write(pattern, f, settings=None):
         delta_x = abs(dx)
         delta_y = abs(dy)
         if data == STITCH:
+            speed = 0
             if trigger_fast:
                 trigger_fast = False
-                cmd |= 0x02
+                speed = 0x02
             if trigger_slow:
                 trigger_slow = False
-                cmd |= 0x04
+                speed = 0x04
+            if speed and delta_x == 0 and delta_y == 0:
+                # a speed record without displacement is no stitch.
+                f.write(bytes(bytearray([cmd | speed, 0, 0])))
+            else:
+                cmd |= speed
             f.write(bytes(bytearray([cmd, delta_y, delta_x])))
-        elif data == JUMP:  # If you did both FAST, SLOW, and JUMP, you'd get a trim.
+        elif data == JUMP:
             if trigger_fast:
                 trigger_fast = False
                 cmd |= 0x02
-- 
2.43.0


From e26b9e2285589d849a93d830de55a72eef0cf1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:30 +0000
Subject: [PATCH 09/64] fix: TBF jump without displacement read back as a trim,
 long TP text shifted the tables

---
 pyembroidery/TbfWriter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/TbfWriter.py b/pyembroidery/TbfWriter.py
index 5bcb902..2fe0da3 100644
--- a/pyembroidery/TbfWriter.py
+++ b/pyembroidery/TbfWriter.py
@@ -47,7 +47,9 @@ def write(pattern, f, settings=None):
 
     # TP is unknown.
     tp = pattern.get_metadata("tp", "EG/")
-    write_string_utf8(f, "TP:%-32s\r" % tp)
+    write_string_utf8(f, "TP:")
+    write_string_padded(f, "%s" % tp, 32)
+    write_string_utf8(f, "\r")
 
     # JC is unknown.
     jc = "3"
@@ -105,6 +107,8 @@ def write(pattern, f, settings=None):
             cmd = 0x80
             f.write(bytes(bytearray([dx & 0xFF, -dy & 0xFF, cmd])))
         elif data == JUMP:
+            if dx == 0 and dy == 0:
+                continue  # A jump record without displacement means trim.
             cmd = 0x90
             f.write(bytes(bytearray([dx & 0xFF, -dy & 0xFF, cmd])))
         elif data == STOP:
-- 
2.43.0


From f9aea5152d6cddb1b8cf62cddbc0c78e387e6e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 10/64] fix: encoder steps exceeded max_stitch or max_jump when
 the two limits differ

---
 pyembroidery/EmbEncoder.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyembroidery/EmbEncoder.py b/pyembroidery/EmbEncoder.py
index 90ae252..a473447 100644
--- a/pyembroidery/EmbEncoder.py
+++ b/pyembroidery/EmbEncoder.py
@@ -486,10 +486,9 @@ class Transcoder:
         if self.full_jump:
             if self.needle_x != new_x or self.needle_y != new_y:
                 self.jump_at(new_x, new_y)
-        # We are currently assuming that max_jump is also max_stitch.
-        # Properly it might be the case that some format could require
-        # a split constraint here where we would need to jump further
-        # so that we could then stitch closer.
+        elif self.position_will_exceed_constraint(self.max_stitch, new_x, new_y):
+            # max_jump exceeds max_stitch, the last step is a jump too.
+            self.jump_at(new_x, new_y)
 
     def jump_to(self, new_x, new_y):
         x0 = self.needle_x
@@ -535,6 +534,9 @@ class Transcoder:
         x0 = self.needle_x
         y0 = self.needle_y
         max_length = self.max_stitch
+        if self.position_will_exceed_constraint(max_length, new_x, new_y):
+            # The added steps are jumps, these may not exceed max_jump.
+            max_length = min(max_length, self.max_jump)
         self.interpolate_gap_stitches(x0, y0, new_x, new_y, max_length, JUMP)
         self.stitch_at(new_x, new_y)
 
-- 
2.43.0


From b171bdc9ae65872b2e407fa8c6f1905200d1de41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:52 +0000
Subject: [PATCH 11/64] fix: colour break ahead of a stitch with the
 alternative flag was dropped

---
 pyembroidery/EmbEncoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/EmbEncoder.py b/pyembroidery/EmbEncoder.py
index a473447..c0aa30d 100644
--- a/pyembroidery/EmbEncoder.py
+++ b/pyembroidery/EmbEncoder.py
@@ -379,7 +379,7 @@ class Transcoder:
         source = self.source_pattern.stitches
         for pos in range(self.position, len(source)):
             stitch = source[pos]
-            flags = stitch[2]
+            flags = stitch[2] & COMMAND_MASK
             if flags == STITCH:
                 return True
             elif flags == NEEDLE_AT:
-- 
2.43.0


From 07231ae4540517c00c5ff4f831b14f6155d78496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 12/64] fix: threads were assigned to the wrong blocks by
 ignored colour breaks and out-of-order change sequence entries

---
 pyembroidery/EmbEncoder.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyembroidery/EmbEncoder.py b/pyembroidery/EmbEncoder.py
index c0aa30d..29a9e1c 100644
--- a/pyembroidery/EmbEncoder.py
+++ b/pyembroidery/EmbEncoder.py
@@ -104,7 +104,7 @@ class Transcoder:
         the sewing starts it's indexed as zero."""
         source = self.source_pattern.stitches
         current_index = 0
-        for stitch in source:
+        for position, stitch in enumerate(source):
             flags, thread, needle, order = decode_embroidery_command(stitch[2])
             if current_index == 0:
                 if (
@@ -116,6 +116,10 @@ class Transcoder:
                     current_index = 1
             if flags == SET_CHANGE_SEQUENCE:
                 yield flags, thread, needle, order, None
+            elif flags == COLOR_BREAK and (
+                current_index == 0 or not self.lookahead_stitch(position)
+            ):
+                continue  # Ignored before the start and after the end of the sewing.
             elif flags == NEEDLE_SET or flags == COLOR_CHANGE or flags == COLOR_BREAK:
                 yield flags, thread, needle, order, current_index
                 current_index += 1
@@ -166,7 +170,7 @@ class Transcoder:
         needle_limit = self.needle_count
         thread_index = 0
         needle_index = 1
-        for order, s in change_sequence.items():
+        for order, s in sorted(change_sequence.items()):
             if s[0] is None:
                 s[0] = self.thread_change_command
             if s[1] is None:
@@ -373,11 +377,13 @@ class Transcoder:
         flags |= self.high_flags
         self.destination_pattern.stitches.append([x, y, flags])
 
-    def lookahead_stitch(self):
+    def lookahead_stitch(self, position=None):
         """Looks forward from current position and
         determines if anymore stitching will occur."""
+        if position is None:
+            position = self.position
         source = self.source_pattern.stitches
-        for pos in range(self.position, len(source)):
+        for pos in range(position, len(source)):
             stitch = source[pos]
             flags = stitch[2] & COMMAND_MASK
             if flags == STITCH:
-- 
2.43.0


From 7f8e6cbd8e2c458b5904cd163d720f8ca62fc92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:45 +0000
Subject: [PATCH 13/64] fix: matrix @= lost the matrix, str() failed and equal
 matrices compared unequal (tuple or list)

---
 pyembroidery/EmbMatrix.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/EmbMatrix.py b/pyembroidery/EmbMatrix.py
index a8c69ab..7f07e3f 100644
--- a/pyembroidery/EmbMatrix.py
+++ b/pyembroidery/EmbMatrix.py
@@ -12,7 +12,7 @@ class EmbMatrix:
         return not self.__eq__(other)
 
     def __eq__(self, other):
-        return self.m == other.m
+        return list(self.m) == list(other.m)
 
     def __matmul__(self, other):
         return EmbMatrix(EmbMatrix.matrix_multiply(self.m, other.m))
@@ -22,9 +22,10 @@ class EmbMatrix:
 
     def __imatmul__(self, other):
         self.m = EmbMatrix.matrix_multiply(self.m, other.m)
+        return self
 
     def __str__(self):
-        return "[%3f, %3f, %3f\n %3f, %3f, %3f\n %3f, %3f, %3f]" % self.m
+        return "[%3f, %3f, %3f\n %3f, %3f, %3f\n %3f, %3f, %3f]" % tuple(self.m)
 
     def get_matrix(self):
         return self.m
-- 
2.43.0


From 2b38ac9d0e73c9dd86ef52465bff747d10562eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 14/64] fix: details, chart and weight given in a thread
 dictionary were ignored (lost when reading CSV)

---
 pyembroidery/EmbThread.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyembroidery/EmbThread.py b/pyembroidery/EmbThread.py
index 995789d..af445b5 100644
--- a/pyembroidery/EmbThread.py
+++ b/pyembroidery/EmbThread.py
@@ -251,6 +251,12 @@ class EmbThread:
                 self.catalog_number = thread["id"]
             if "catalog" in thread:
                 self.catalog_number = thread["catalog"]
+            if "details" in thread:
+                self.details = thread["details"]
+            if "chart" in thread:
+                self.chart = thread["chart"]
+            if "weight" in thread:
+                self.weight = thread["weight"]
         else:
             try:
                 if isinstance(thread, basestring):
-- 
2.43.0


From 5602434da96e45fcbef2dd245654d68a11836d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 15/64] fix: sequin contingencies and unnamed commands could be
 written to CSV/JSON but not read back

---
 pyembroidery/EmbFunctions.py | 8 ++++++++
 pyembroidery/JsonReader.py   | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/pyembroidery/EmbFunctions.py b/pyembroidery/EmbFunctions.py
index f535b4e..9485c38 100644
--- a/pyembroidery/EmbFunctions.py
+++ b/pyembroidery/EmbFunctions.py
@@ -81,6 +81,10 @@ def get_command_dictionary():
         "CONTINGENCY_LONG_STITCH_NONE": CONTINGENCY_LONG_STITCH_NONE,
         "CONTINGENCY_LONG_STITCH_JUMP_NEEDLE": CONTINGENCY_LONG_STITCH_JUMP_NEEDLE,
         "CONTINGENCY_LONG_STITCH_SEW_TO": CONTINGENCY_LONG_STITCH_SEW_TO,
+        "CONTINGENCY_SEQUIN_UTILIZE": CONTINGENCY_SEQUIN_UTILIZE,
+        "CONTINGENCY_SEQUIN_JUMP": CONTINGENCY_SEQUIN_JUMP,
+        "CONTINGENCY_SEQUIN_STITCH": CONTINGENCY_SEQUIN_STITCH,
+        "CONTINGENCY_SEQUIN_REMOVE": CONTINGENCY_SEQUIN_REMOVE,
     }
 
 
@@ -124,4 +128,8 @@ def get_common_name_dictionary():
         CONTINGENCY_LONG_STITCH_NONE: "CONTINGENCY_LONG_STITCH_NONE",
         CONTINGENCY_LONG_STITCH_JUMP_NEEDLE: "CONTINGENCY_LONG_STITCH_JUMP_NEEDLE",
         CONTINGENCY_LONG_STITCH_SEW_TO: "CONTINGENCY_LONG_STITCH_SEW_TO",
+        CONTINGENCY_SEQUIN_UTILIZE: "CONTINGENCY_SEQUIN_UTILIZE",
+        CONTINGENCY_SEQUIN_JUMP: "CONTINGENCY_SEQUIN_JUMP",
+        CONTINGENCY_SEQUIN_STITCH: "CONTINGENCY_SEQUIN_STITCH",
+        CONTINGENCY_SEQUIN_REMOVE: "CONTINGENCY_SEQUIN_REMOVE",
     }
diff --git a/pyembroidery/JsonReader.py b/pyembroidery/JsonReader.py
index f0ba0d9..fc67e9c 100644
--- a/pyembroidery/JsonReader.py
+++ b/pyembroidery/JsonReader.py
@@ -4,6 +4,8 @@ from .EmbThread import EmbThread
 
 def decoded_command(command_dict, name):
     split = name.split(" ")
+    if split[0] == "UNKNOWN":  # unnamed command, written by value
+        return int(split[1])
     command = command_dict[split[0]]
     for sp in split[1:]:
         if sp[0] == "n":
-- 
2.43.0


From a0a8891202a7f268c18c3e60b8fae5ad3e7cbd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 16/64] fix: CSV text with quotes corrupted its row, absent
 thread attributes read back as 'None', unnamed commands were unreadable

---
 pyembroidery/CsvReader.py | 9 ++++++++-
 pyembroidery/CsvWriter.py | 4 +++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/CsvReader.py b/pyembroidery/CsvReader.py
index 4cf33d3..0da9b31 100644
--- a/pyembroidery/CsvReader.py
+++ b/pyembroidery/CsvReader.py
@@ -13,7 +13,11 @@ def read(f, out, settings=None):
             continue
         if "*" in row[0]:
             split = row[2].split(" ")
-            command = command_dict[split[0]]
+            if split[0] == "UNKNOWN":  # unnamed command, written by value
+                command = int(split[1])
+                split = split[:1]
+            else:
+                command = command_dict[split[0]]
             for sp in split[1:]:
                 if sp[0] == "n":
                     needle = int(sp[1:])
@@ -72,4 +76,7 @@ def read(f, out, settings=None):
                     thread_add["weight"] = row[7]
                 except IndexError:
                     pass
+            for key in list(thread_add):
+                if thread_add[key] == "":
+                    del thread_add[key]  # absent attributes are written empty
             out.add_thread(thread_add)
diff --git a/pyembroidery/CsvWriter.py b/pyembroidery/CsvWriter.py
index 05e0d23..efdbb59 100644
--- a/pyembroidery/CsvWriter.py
+++ b/pyembroidery/CsvWriter.py
@@ -14,7 +14,9 @@ def csv(f, values):
     for v in values:
         if len(string) > 0:
             string += ","
-        string += '"%s"' % v
+        if v is None:
+            v = ""
+        string += '"%s"' % str(v).replace('"', '""')
     write_string_utf8(f, string + "\n")
 
 
-- 
2.43.0


From 02cae6d330787ed049a6df34c8dec196f2494543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:05 +0000
Subject: [PATCH 17/64] fix: adding an empty list to a pattern in place lost
 the pattern

---
 pyembroidery/EmbPattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index ed846a3..12e2dfa 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -162,7 +162,7 @@ class EmbPattern:
             self.add_command(other)
         elif isinstance(other, list) or isinstance(other, tuple):  # tuple or list
             if len(other) == 0:
-                return
+                return self
             v = other[0]
             if isinstance(v, list) or isinstance(
                 v, tuple
-- 
2.43.0


From 84d78e28b1db740c789efd453e4dc0eff6d6bef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:09 +0000
Subject: [PATCH 18/64] fix: copies and combined patterns shared stitch records
 with their operands, deepcopy failed

---
 pyembroidery/EmbPattern.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 12e2dfa..91e4051 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -87,7 +87,7 @@ class EmbPattern:
         if len_args >= 1:
             arg0 = args[0]
             if isinstance(arg0, EmbPattern):
-                self.stitches = arg0.stitches[:]
+                self.stitches = [s[:] for s in arg0.stitches]
                 self.threadlist = arg0.threadlist[:]
                 self.extras.update(arg0.extras)
                 self._previousX = arg0._previousX
@@ -145,8 +145,10 @@ class EmbPattern:
     def __copy__(self):
         return self.copy()
 
-    def __deepcopy__(self):
-        return self.copy()
+    def __deepcopy__(self, memo=None):
+        emb_pattern = self.copy()
+        emb_pattern.threadlist = [EmbThread(thread) for thread in self.threadlist]
+        return emb_pattern
 
     def __iadd__(self, other):
         if isinstance(other, EmbPattern):
@@ -206,7 +208,7 @@ class EmbPattern:
 
     def copy(self):
         emb_pattern = EmbPattern()
-        emb_pattern.stitches = self.stitches[:]
+        emb_pattern.stitches = [s[:] for s in self.stitches]
         emb_pattern.threadlist = self.threadlist[:]
         emb_pattern.extras.update(self.extras)
         emb_pattern._previousX = self._previousX
@@ -641,7 +643,7 @@ class EmbPattern:
                 self.threadlist.extend(pattern.threadlist)
                 self.color_change()
         join_position = len(self.stitches)
-        self.stitches.extend(pattern.stitches)
+        self.stitches.extend([s[:] for s in pattern.stitches])
 
         for i in range(join_position, len(self.stitches)):
             data = self.stitches[i][2] & COMMAND_MASK
-- 
2.43.0


From 863f2485b0ed51de6cb26246c920333e80180d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 19/64] fix: adding to a pattern without stitches or threads
 failed, scaling only by sy was ignored

---
 pyembroidery/EmbPattern.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 91e4051..291aa05 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -617,7 +617,7 @@ class EmbPattern:
         """
         if isinstance(pattern, str):
             pattern = EmbPattern(pattern)
-        if self.stitches[-1][2] == END:
+        if len(self.stitches) > 0 and self.stitches[-1][2] == END:
             self.stitches = self.stitches[:-1]  # Remove END, if exists
         if dx is not None or dy is not None:
             if dx is None:
@@ -625,7 +625,7 @@ class EmbPattern:
             if dy is None:
                 dy = 0
             self.add_command(MATRIX_TRANSLATE, dx, dy)
-        if sx is not None or sx is not None:
+        if sx is not None or sy is not None:
             if sx is None:
                 sx = sy
             if sy is None:
@@ -637,7 +637,9 @@ class EmbPattern:
         self.fix_color_count()
 
         if len(pattern.threadlist) > 0:
-            if pattern.threadlist[0] == self.threadlist[-1]:
+            if len(self.threadlist) == 0:
+                self.threadlist.extend(pattern.threadlist)
+            elif pattern.threadlist[0] == self.threadlist[-1]:
                 self.threadlist.extend(pattern.threadlist[1:])
             else:
                 self.threadlist.extend(pattern.threadlist)
-- 
2.43.0


From 3aad004ebdf1ed47372850893ec214cbd971a8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:50 +0000
Subject: [PATCH 20/64] fix: merging jumps dropped every run of jumps after the
 first one

---
 pyembroidery/EmbPattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 291aa05..63946cc 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -858,6 +858,7 @@ class EmbPattern:
                 new_pattern.add_command(STITCH_BREAK)
                 stitch_break = True
                 continue
+            stitch_break = False
             new_pattern.add_stitch_absolute(stitch[2], stitch[0], stitch[1])
         new_pattern.threadlist.extend(self.threadlist)
         new_pattern.extras.update(self.extras)
-- 
2.43.0


From cd21e8fd7c2e48f4fcfa08d83fa0444eac94665e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:54 +0000
Subject: [PATCH 21/64] fix: interpolated trims missed a run of jumps at the
 end and jumps with flags

---
 pyembroidery/EmbPattern.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 63946cc..53a2bab 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -813,7 +813,6 @@ class EmbPattern:
         new_pattern = EmbPattern()
         i = -1
         ie = len(self.stitches) - 1
-        count = 0
         trimmed = True
         while i < ie:
             i += 1
@@ -823,20 +822,16 @@ class EmbPattern:
                 trimmed = False
             elif command == COLOR_CHANGE or command == NEEDLE_SET or command == TRIM:
                 trimmed = True
-            if trimmed or stitch[2] != JUMP:
+            if trimmed or command != JUMP:
                 new_pattern.add_stitch_absolute(stitch[2], stitch[0], stitch[1])
                 continue
-            while i < ie and command == JUMP:
+            count = 1
+            while i < ie and self.stitches[i + 1][2] & COMMAND_MASK == JUMP:
                 i += 1
-                stitch = self.stitches[i]
-                command = stitch[2]
                 count += 1
-            if command != JUMP:
-                i -= 1
             stitch = self.stitches[i]
             if count >= jumps_to_require_trim:
                 new_pattern.trim()
-            count = 0
             new_pattern.add_stitch_absolute(stitch[2], stitch[0], stitch[1])
         new_pattern.threadlist.extend(self.threadlist)
         new_pattern.extras.update(self.extras)
-- 
2.43.0


From d6b0ca0b3db7ce637be2463dbc1253432836cc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 22/64] fix: an empty pattern yielded an empty command block

---
 pyembroidery/EmbPattern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 53a2bab..f27b3f3 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -417,7 +417,8 @@ class EmbPattern:
             last_command = command
             yield self.stitches[last_pos:pos]
             last_pos = pos
-        yield self.stitches[last_pos:]
+        if last_pos != len(self.stitches):
+            yield self.stitches[last_pos:]
 
     def get_as_colorblocks(self):
         """
-- 
2.43.0


From 0622a31b60870ba3e45fba3d3654153b54dd1c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:34 +0000
Subject: [PATCH 23/64] fix: threads of the same colour but different names
 lost their nearest PEC palette entry

---
 pyembroidery/EmbThread.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/EmbThread.py b/pyembroidery/EmbThread.py
index af445b5..255b997 100644
--- a/pyembroidery/EmbThread.py
+++ b/pyembroidery/EmbThread.py
@@ -4,6 +4,8 @@ def build_unique_palette(thread_palette, threadlist):
     for thread in set(
         threadlist
     ):  # for each unique color, move closest remaining thread to lookup chart.
+        if any(t is not None and t.color == thread.color for t in chart):
+            continue  # This color already has an entry.
         index = thread.find_nearest_color_index(thread_palette)
         if index is None:
             break  # No more threads remain in palette
-- 
2.43.0


From 9c33b51957c3f80f22210defcd609aacf722f389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:50 +0000
Subject: [PATCH 24/64] fix: BRO reader failed on a file cut inside a record

---
 pyembroidery/BroReader.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/pyembroidery/BroReader.py b/pyembroidery/BroReader.py
index cc232fb..d36c254 100644
--- a/pyembroidery/BroReader.py
+++ b/pyembroidery/BroReader.py
@@ -14,6 +14,8 @@ def read_bro_stitches(f, out):
             out.stitch(signed8(b[0]), -signed8(b[1]))
             continue
         control = read_int_8(f)
+        if control is None:
+            break
         if control == 0x00:
             continue
         if control == 0x02:
@@ -21,21 +23,27 @@ def read_bro_stitches(f, out):
         if control == 0xE0:
             break
         if control == 0x7E:
-            x = signed16(read_int_16le(f))
-            y = signed16(read_int_16le(f))
-            out.move(x, -y)
+            x = read_int_16le(f)
+            y = read_int_16le(f)
+            if y is None:
+                break
+            out.move(signed16(x), -signed16(y))
             continue
         if control == 0x03:
-            x = signed16(read_int_16le(f))
-            y = signed16(read_int_16le(f))
-            out.move(x, -y)
+            x = read_int_16le(f)
+            y = read_int_16le(f)
+            if y is None:
+                break
+            out.move(signed16(x), -signed16(y))
             continue
         if 0xE0 < control < 0xF0:
             needle = control - 0xE0
             out.needle_change(needle)
-            x = signed16(read_int_16le(f))
-            y = signed16(read_int_16le(f))
-            out.move(x, -y)
+            x = read_int_16le(f)
+            y = read_int_16le(f)
+            if y is None:
+                break
+            out.move(signed16(x), -signed16(y))
             continue
         break  # Uncaught Control
     out.end()
-- 
2.43.0


From dab5a75ef7623f86b234de6e50c1835c8338ea22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:50 +0000
Subject: [PATCH 25/64] fix: Barudan DAT needle changes called a missing method

---
 pyembroidery/DatReader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/DatReader.py b/pyembroidery/DatReader.py
index 4494278..1ed8e88 100644
--- a/pyembroidery/DatReader.py
+++ b/pyembroidery/DatReader.py
@@ -74,7 +74,7 @@ def read_barudan_dat(f, out):
         if 0x09 <= command <= 0x17:
             # C01 - C14
             needle = command - 0x08
-            out.needle_out(needle)
+            out.needle_change(needle)
             if dx != 0 or dy != 0:
                 out.move(dx, dy)
             continue
-- 
2.43.0


From b8e4ab1eb97ce45dae1d03219ff216833c41a40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:50 +0000
Subject: [PATCH 26/64] fix: JPX colour changes lost a movement along one axis

---
 pyembroidery/JpxReader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/JpxReader.py b/pyembroidery/JpxReader.py
index 86e1d42..dec6405 100644
--- a/pyembroidery/JpxReader.py
+++ b/pyembroidery/JpxReader.py
@@ -22,7 +22,7 @@ def read_jpx_stitches(f, out):
             continue
         if ctrl == 0x01:  # Colorchange
             out.color_change()
-            if x != 0 and y != 0:
+            if x != 0 or y != 0:
                 out.move(x, y)
             continue
         if ctrl == 0x10:
-- 
2.43.0


From 6fc11390fc6ad181bf7ad0d5b8efcc7afcd35428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:50 +0000
Subject: [PATCH 27/64] fix: MAX reader failed on a file cut inside a record

---
 pyembroidery/MaxReader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/MaxReader.py b/pyembroidery/MaxReader.py
index c8d5a57..ab7e605 100644
--- a/pyembroidery/MaxReader.py
+++ b/pyembroidery/MaxReader.py
@@ -11,11 +11,11 @@ def read(f, out, settings=None):
         c0 = read_int_8(f)
         y = read_int_24le(f)
         c1 = read_int_8(f)
+        if c1 is None:
+            break
         x = signed24(x)
         y = signed24(y)
         x *= MAX_SIZE_CONVERSION_RATIO
         y *= MAX_SIZE_CONVERSION_RATIO
-        if c1 is None:
-            break
         out.stitch_abs(x, y)
     out.end()
-- 
2.43.0


From ab246df1f20c40d112b5910e66ebcb0742e5788b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:50 +0000
Subject: [PATCH 28/64] fix: SHV reader failed without colours and on a file
 cut inside a jump

---
 pyembroidery/ShvReader.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyembroidery/ShvReader.py b/pyembroidery/ShvReader.py
index 04d93c1..0d5b988 100644
--- a/pyembroidery/ShvReader.py
+++ b/pyembroidery/ShvReader.py
@@ -40,7 +40,7 @@ def read(f, out, settings=None):
     current_color_index = 0
     try:
         max_stitches = stitch_per_color[current_color_index]
-    except IndexError:
+    except KeyError:
         max_stitches = 0
     while True:
         flags = STITCH
@@ -67,10 +67,12 @@ def read(f, out, settings=None):
                 continue
             elif b1 == 1:
                 stitches_since_stop += 2
-                sx = signed16(read_int_16be(f))
-                sy = signed16(read_int_16be(f))
+                sx = read_int_16be(f)
+                sy = read_int_16be(f)
+                if sy is None:
+                    break
                 in_jump = True
-                out.move(sx, sy)
+                out.move(signed16(sx), signed16(sy))
                 continue
         dx = signed8(b0)
         dy = signed8(b1)
-- 
2.43.0


From 8ed12e774b1fd021d35ff19584765a1e4c123a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:50 +0000
Subject: [PATCH 29/64] fix: SPX reader never ended the design and failed on a
 cut record

---
 pyembroidery/SpxReader.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyembroidery/SpxReader.py b/pyembroidery/SpxReader.py
index b0bf437..2737a36 100644
--- a/pyembroidery/SpxReader.py
+++ b/pyembroidery/SpxReader.py
@@ -7,11 +7,11 @@ def read(f, out, settings=None):
         b = bytearray(f.read(2))
         if len(b) != 2:
             break
-        dy = -signed16(read_int_16be(f))
-        dx = signed16(read_int_16be(f))
-        c = signed8(read_int_8(f))
-        dy -= c
+        y = read_int_16be(f)
+        x = read_int_16be(f)
+        c = read_int_8(f)
         b = bytearray(f.read(2))
         if len(b) != 2:
             break
-        out.stitch(dx, dy)
+        out.stitch(signed16(x), -signed16(y) - signed8(c))
+    out.end()
-- 
2.43.0


From 91e36a9175a5cfe8bbddf0c6324f57e667ce39ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:42 +0000
Subject: [PATCH 30/64] fix: DST header color change count includes stops

---
 pyembroidery/DstWriter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/DstWriter.py b/pyembroidery/DstWriter.py
index 02e624e..28e2213 100644
--- a/pyembroidery/DstWriter.py
+++ b/pyembroidery/DstWriter.py
@@ -130,7 +130,9 @@ def write(pattern, f, settings=None):
     name = utf8_clipped("%s" % name, 255)
     f.write(b"LA:" + name + b"\x20" * (16 - len(name)) + b"\r")
     write_string_utf8(f, "ST:%7d\r" % pattern.count_stitches())
-    write_string_utf8(f, "CO:%3d\r" % pattern.count_color_changes())
+    # A stop is stored as a color change.
+    color_changes = pattern.count_color_changes() + pattern.count_stitch_commands(STOP)
+    write_string_utf8(f, "CO:%3d\r" % color_changes)
 
     write_string_utf8(f, "+X:%5d\r" % abs(bounds[2]))
     write_string_utf8(f, "-X:%5d\r" % abs(bounds[0]))
-- 
2.43.0


From 68b4fde48bc8315f234bbb86679dd3736c990574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:42 +0000
Subject: [PATCH 31/64] fix: U01 header counts the records written and rounds
 its extents

---
 pyembroidery/U01Writer.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pyembroidery/U01Writer.py b/pyembroidery/U01Writer.py
index df9b2ef..4b5c6b6 100644
--- a/pyembroidery/U01Writer.py
+++ b/pyembroidery/U01Writer.py
@@ -17,18 +17,20 @@ def write(pattern, f, settings=None):
     if stitch_count == 0:
         return
     extends = pattern.bounds()
-    write_int_16le(f, int(extends[0]))
-    write_int_16le(f, -int(extends[3]))
-    write_int_16le(f, int(extends[2]))
-    write_int_16le(f, -int(extends[1]))
+    write_int_16le(f, int(round(extends[0])))
+    write_int_16le(f, -int(round(extends[3])))
+    write_int_16le(f, int(round(extends[2])))
+    write_int_16le(f, -int(round(extends[1])))
     write_int_32le(f, 0)  # Dunno.
 
-    write_int_32le(f, stitch_count + 1)
+    place_holder_for_count = f.tell()
+    write_int_32le(f, 0)
     last_stitch = stitches[stitch_count - 1]
-    write_int_16le(f, int(last_stitch[0]))
-    write_int_16le(f, -int(last_stitch[1]))
+    write_int_16le(f, int(round(last_stitch[0])))
+    write_int_16le(f, -int(round(last_stitch[1])))
     for i in range(f.tell(), 0x100):
         f.write(b"\x00")
+    start_of_records = f.tell()
     xx = 0
     yy = 0
     trigger_fast = False
@@ -96,3 +98,7 @@ def write(pattern, f, settings=None):
         elif data == END:
             break
     f.write(b"\xF8\x00\x00")
+    end_of_records = f.tell()
+    f.seek(place_holder_for_count, 0)
+    write_int_32le(f, (end_of_records - start_of_records) // 3 + 1)
+    f.seek(end_of_records, 0)
-- 
2.43.0


From 0538030406f76f30ec8203e3dbad350ba47eed13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:42 +0000
Subject: [PATCH 32/64] fix: PMV writes the number of points its header states

---
 pyembroidery/PmvWriter.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyembroidery/PmvWriter.py b/pyembroidery/PmvWriter.py
index 1c4fbb3..7dd3c69 100644
--- a/pyembroidery/PmvWriter.py
+++ b/pyembroidery/PmvWriter.py
@@ -2,6 +2,7 @@ from .EmbConstant import *
 from .WriteHelper import write_int_8, write_int_16le, write_string_utf8
 
 MAX_STITCH_DISTANCE = 70
+MAX_JUMP_DISTANCE = 70
 MAX_PERMITTED_STITCHES = 100
 
 
@@ -12,7 +13,7 @@ def write(pattern, f, settings=None):
     min_y = +200000000
     point_count = 0
     for stitch in pattern.stitches:
-        data = stitch[2]
+        data = stitch[2] & COMMAND_MASK
         x = stitch[0]
         y = -stitch[1]
         if data == STITCH or data == JUMP:
@@ -47,17 +48,19 @@ def write(pattern, f, settings=None):
 
     write_int_16le(f, point_count)
     write_int_16le(f, point_count * 2)
-    point_index = -1
+    point_index = 0
     max_x = -200000000
     min_x = +200000000
     max_y = -200000000
     min_y = +200000000
     xx = 0
     for stitch in pattern.stitches:
-        point_index += 1
         if point_index >= point_count:
             break
         data = stitch[2] & COMMAND_MASK
+        if data != STITCH and data != JUMP:
+            continue
+        point_index += 1
         x = stitch[0]
         y = -stitch[1]
         x *= scale_x
-- 
2.43.0


From 126000bc11c26cfa97d3b886fa1fe338baa07429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:42 +0000
Subject: [PATCH 33/64] fix: INF record lengths count bytes

---
 pyembroidery/InfWriter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyembroidery/InfWriter.py b/pyembroidery/InfWriter.py
index b5ebf49..b315408 100644
--- a/pyembroidery/InfWriter.py
+++ b/pyembroidery/InfWriter.py
@@ -1,4 +1,4 @@
-from .WriteHelper import write_int_8, write_int_16be, write_int_32be, write_string_utf8
+from .WriteHelper import write_int_8, write_int_16be, write_int_32be
 
 ENCODE = False
 
@@ -25,6 +25,8 @@ def write(pattern, f, settings=None):
         chart = thread.chart
         if chart is None:
             chart = "Unknown"
+        details = details.encode("utf8")
+        chart = chart.encode("utf8")
         write_int_16be(
             f, 11 + len(details) + len(chart)
         )  # 2 + 2 + 1 + 1 + 1 + 2 + d + 1 + c + 1 = 11 + d + c
@@ -34,8 +36,8 @@ def write(pattern, f, settings=None):
         write_int_8(f, thread.get_green())
         write_int_8(f, thread.get_blue())
         write_int_16be(f, index)  # needle number
-        write_string_utf8(f, details)
+        f.write(details)
         write_int_8(f, 0)
-        write_string_utf8(f, chart)
+        f.write(chart)
         write_int_8(f, 0)
     patch_byte_offset(f, placeholder)
-- 
2.43.0


From c7d0bddad722dedbaf4c1699151febb1ca913692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:42 +0000
Subject: [PATCH 34/64] fix: TBF header counts the records written

---
 pyembroidery/TbfWriter.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/TbfWriter.py b/pyembroidery/TbfWriter.py
index 2fe0da3..c6a6ecb 100644
--- a/pyembroidery/TbfWriter.py
+++ b/pyembroidery/TbfWriter.py
@@ -23,7 +23,8 @@ def write(pattern, f, settings=None):
     write_string_utf8(f, "LA:")
     write_string_padded(f, "%s" % name, 16)
     write_string_utf8(f, "\r")
-    write_string_utf8(f, "ST:%7d\r" % pattern.count_stitches())
+    place_holder_for_count = f.tell()
+    write_string_utf8(f, "ST:%7d\r" % 0)
     write_string_utf8(f, "CO:%3d\r" % pattern.count_needle_sets())
 
     write_string_utf8(f, "+X:%5d\r" % abs(bounds[2]))
@@ -90,6 +91,7 @@ def write(pattern, f, settings=None):
     for i in range(f.tell(), 0x600):
         f.write(b"\x20")  # space
     # END HEADER
+    start_of_records = f.tell()
 
     stitches = pattern.stitches
     xx = 0
@@ -124,6 +126,10 @@ def write(pattern, f, settings=None):
             cmd = 0x8F
             f.write(bytes(bytearray([dx & 0xFF, -dy & 0xFF, cmd])))
             break
+    end_of_records = f.tell()
+    f.seek(place_holder_for_count, 0)
+    write_string_utf8(f, "ST:%7d\r" % ((end_of_records - start_of_records) // 3))
+    f.seek(end_of_records, 0)
     # Terminal character.
     f.write(b"\x1a")
 
-- 
2.43.0


From 56cf44bfe531f0adbaa0d625e35e828142f938db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:11 +0000
Subject: [PATCH 35/64] fix: tie-off lock runs towards the stitch before the
 last one

---
 pyembroidery/EmbEncoder.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/pyembroidery/EmbEncoder.py b/pyembroidery/EmbEncoder.py
index 29a9e1c..f71a4d0 100644
--- a/pyembroidery/EmbEncoder.py
+++ b/pyembroidery/EmbEncoder.py
@@ -431,22 +431,26 @@ class Transcoder:
 
     def tie_off(self):
         if self.tie_off_contingency == CONTINGENCY_TIE_OFF_THREE_SMALL:
-            try:
-                b = self.matrix.point_in_matrix_space(
-                    self.source_pattern.stitches[self.position - 1]
-                )
-                flags = b[2]
+            # The needle is at the last stitch, the lock goes towards the one before.
+            if self.position < 2:
+                return
+            for previous in self.source_pattern.stitches[
+                self.position - 2 : self.position
+            ]:
+                flags = previous[2] & COMMAND_MASK
                 if (
-                    flags == STITCH
-                    or flags == NEEDLE_AT
-                    or flags == SEW_TO
-                    or flags == SEQUIN_EJECT
+                    flags != STITCH
+                    and flags != NEEDLE_AT
+                    and flags != SEW_TO
+                    and flags != SEQUIN_EJECT
                 ):
-                    self.lock_stitch(
-                        self.needle_x, self.needle_y, b[0], b[1], self.max_stitch
-                    )
-            except IndexError:
-                pass  # must be an island stitch. jump-stitch-jump
+                    return  # must be an island stitch. jump-stitch-jump
+            b = self.matrix.point_in_matrix_space(
+                self.source_pattern.stitches[self.position - 2]
+            )
+            self.lock_stitch(
+                self.needle_x, self.needle_y, b[0], b[1], self.max_stitch
+            )
 
     def tie_on(self):
         if self.tie_on_contingency == CONTINGENCY_TIE_ON_THREE_SMALL:
-- 
2.43.0


From 33d5c7c162c98eb96ea970d553e9dd7764d89654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:11 +0000
Subject: [PATCH 36/64] fix: tie-on also locks towards stitches carrying flags

---
 pyembroidery/EmbEncoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/EmbEncoder.py b/pyembroidery/EmbEncoder.py
index f71a4d0..0c28d52 100644
--- a/pyembroidery/EmbEncoder.py
+++ b/pyembroidery/EmbEncoder.py
@@ -458,7 +458,7 @@ class Transcoder:
                 b = self.matrix.point_in_matrix_space(
                     self.source_pattern.stitches[self.position + 1]
                 )
-                flags = b[2]
+                flags = b[2] & COMMAND_MASK
                 if (
                     flags == STITCH
                     or flags == NEEDLE_AT
-- 
2.43.0


From 6fca9c92e2ebf9e46f23de3fad7d85c51e9c8a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:44 +0000
Subject: [PATCH 37/64] fix: XXX reader stops at the end of a truncated file

---
 pyembroidery/XxxReader.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyembroidery/XxxReader.py b/pyembroidery/XxxReader.py
index f6c8a6b..9777ba9 100644
--- a/pyembroidery/XxxReader.py
+++ b/pyembroidery/XxxReader.py
@@ -15,14 +15,20 @@ def read(f, out, settings=None):
         if b1 == 0x7D or b1 == 0x7E:  # not seen a 7E big jump code
             x = read_int_16le(f)
             y = read_int_16le(f)
+            if y is None:
+                break  # File ends within the record.
             out.move(signed16(x), -signed16(y))
             continue
         b2 = read_int_8(f)
+        if b2 is None:
+            break
         if b1 != 0x7F:
             out.stitch(signed8(b1), -signed8(b2))
             continue
         b3 = read_int_8(f)
         b4 = read_int_8(f)
+        if b4 is None:
+            break
         if b2 == 0x01:
             out.move(signed8(b3), -signed8(b4))
             continue
-- 
2.43.0


From c7716514d7ad1a80a342a0b1bd86c6e6accd173a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:33 +0000
Subject: [PATCH 38/64] fix: MIT reader stops at the end record

---
 pyembroidery/MitReader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/MitReader.py b/pyembroidery/MitReader.py
index 1c89114..b1bcd34 100644
--- a/pyembroidery/MitReader.py
+++ b/pyembroidery/MitReader.py
@@ -32,7 +32,7 @@ def read(f, out, settings=None):
             if previous_ctrl == 0b111:
                 out.color_change()
         elif ctrl == 0b0000:
-            out.end()  # 0 appears at end.
+            break  # 0 appears at end.
         else:
             out.stitch(x, y)
         previous_ctrl = ctrl
-- 
2.43.0


From 75de7d5ed796aa7b7439c39b3b0b5798c1b23596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:07 +0000
Subject: [PATCH 39/64] fix: HUS decompression stops at the declared length

---
 pyembroidery/EmbCompress.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/EmbCompress.py b/pyembroidery/EmbCompress.py
index cddfc91..d4f07eb 100644
--- a/pyembroidery/EmbCompress.py
+++ b/pyembroidery/EmbCompress.py
@@ -178,7 +178,7 @@ class EmbCompress:
         self.block_elements = -1
         bits_total = len(input_data) * 8
         while bits_total > self.bit_position and (
-            uncompressed_size is None or len(output_data) <= uncompressed_size
+            uncompressed_size is None or len(output_data) < uncompressed_size
         ):
             character = self.get_token()
             if character <= 255:  # literal.
-- 
2.43.0


From f1c567ad4573a039b9ff48a970ef9bae3656d3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 40/64] fix: TXT writer names the colour of the current thread

---
 pyembroidery/TxtWriter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyembroidery/TxtWriter.py b/pyembroidery/TxtWriter.py
index 362b907..a627277 100644
--- a/pyembroidery/TxtWriter.py
+++ b/pyembroidery/TxtWriter.py
@@ -46,6 +46,7 @@ def write_normal(pattern, f):
         yy = stitch[1]
         flags = stitch[2] & COMMAND_MASK
         if (flags & COMMAND_MASK) == COLOR_CHANGE:
+            color_index += 1
             color = pattern.get_thread_or_filler(color_index).color
         named_command = names[(flags & COMMAND_MASK)]
         txt_line = "%.1f,%.1f color:%i command:%s flags:%i\n" % (
-- 
2.43.0


From c70b32d2c7dc36ecd75ab29941bbc6784ce98abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 41/64] fix: G-code reader reads lower-case letters

---
 pyembroidery/GcodeReader.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyembroidery/GcodeReader.py b/pyembroidery/GcodeReader.py
index 9c20dc1..738dee2 100644
--- a/pyembroidery/GcodeReader.py
+++ b/pyembroidery/GcodeReader.py
@@ -45,14 +45,13 @@ def parse(f):
 
         if ord_A <= b <= ord_Z:
             b = b - ord_A + ord_a
-            byte = chr(b)
         is_letter = ord_a <= b <= ord_z
         if (is_letter or is_end) and len(code) != 0:
             command_map[code] = float(value)
             code = ""
             value = ""
         if is_letter:
-            code += str(byte)
+            code += chr(b)
             continue
         elif is_end:
             if len(command_map) == 0:
-- 
2.43.0


From d7eb25889813d94681a9f511e2e4edf1b267ff47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 42/64] fix: G-code reader needs both coordinates for any move

---
 pyembroidery/GcodeReader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/GcodeReader.py b/pyembroidery/GcodeReader.py
index 738dee2..432fc02 100644
--- a/pyembroidery/GcodeReader.py
+++ b/pyembroidery/GcodeReader.py
@@ -76,7 +76,7 @@ def read(f, out, settings=None):
                 out.add_thread(split[1])
 
         if "g" in gc:
-            if "x" in gc and "y" in gc and gc["g"] == 0.0 or gc["g"] == 1.0:
+            if "x" in gc and "y" in gc and (gc["g"] == 0.0 or gc["g"] == 1.0):
                 if absolute_mode:
                     out.stitch_abs(gc["x"] * scale * flip_x, gc["y"] * scale * flip_y)
                 else:
-- 
2.43.0


From 6db88d23d43fefe310210785bc3b57e380af9e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 43/64] fix: generic writer writes the closing templates at the
 end of the design

---
 pyembroidery/GenericWriter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyembroidery/GenericWriter.py b/pyembroidery/GenericWriter.py
index 22686c1..2867cc8 100644
--- a/pyembroidery/GenericWriter.py
+++ b/pyembroidery/GenericWriter.py
@@ -571,4 +571,5 @@ class GenericWriter:
         self.close_block()
         self.close_color()
         self.close_document()
+        self.write_closes()
         self.close_pattern()
-- 
2.43.0


From 89354d3f79ee668b8cede32cc947e84b3d51a744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 44/64] fix: generic writer counts colours and blocks from zero

---
 pyembroidery/GenericWriter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/GenericWriter.py b/pyembroidery/GenericWriter.py
index 2867cc8..b1a2bb9 100644
--- a/pyembroidery/GenericWriter.py
+++ b/pyembroidery/GenericWriter.py
@@ -319,7 +319,7 @@ class GenericWriter:
             self.document_established = True
             self.document_index += 1
             self.document_opening = True
-            self.color_index = 0
+            self.color_index = -1
 
             self.format_dictionary.update(
                 {
@@ -340,7 +340,7 @@ class GenericWriter:
             self.color_opening = True
 
             self.thread = self.pattern.get_thread_or_filler(self.thread_index)
-            self.block_index = 0
+            self.block_index = -1
             self.color_index += 1
             self.format_dictionary.update(
                 {
-- 
2.43.0


From d6d6984ae0d40a44871c4aa6ee90a0572f0ef2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 45/64] fix: generic writer accepts settings=None

---
 pyembroidery/GenericWriter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/GenericWriter.py b/pyembroidery/GenericWriter.py
index b1a2bb9..9737c5b 100644
--- a/pyembroidery/GenericWriter.py
+++ b/pyembroidery/GenericWriter.py
@@ -48,6 +48,8 @@ class GenericWriter:
     """
 
     def __init__(self, pattern, f, settings):
+        if settings is None:
+            settings = {}
         self.pattern = pattern
         self.f = f
         self.settings = settings
-- 
2.43.0


From 1f958710d73974d6ff7254bb81e2ef91dfe88ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 46/64] fix: PNG pixels outside the canvas are not drawn
 elsewhere

---
 pyembroidery/PngWriter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/PngWriter.py b/pyembroidery/PngWriter.py
index 17795db..79acfe0 100644
--- a/pyembroidery/PngWriter.py
+++ b/pyembroidery/PngWriter.py
@@ -333,6 +333,8 @@ class PngBuffer:
         try:
             x += 1
             y += 1
+            if not (0 <= x < self.width and 0 <= y < self.height):
+                return  # outside the canvas
             pos = (self.width * y) + x
             idx = pos * 4
             background_a = self.buf[idx + 3]
-- 
2.43.0


From 160a55baff7c81a2b80f7cdbdf993d431af56fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 47/64] fix: PNG guide text is clipped to the canvas

---
 pyembroidery/PngWriter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/PngWriter.py b/pyembroidery/PngWriter.py
index 79acfe0..d64191b 100644
--- a/pyembroidery/PngWriter.py
+++ b/pyembroidery/PngWriter.py
@@ -460,6 +460,8 @@ class PngBuffer:
                     else:
                         gx = x + cx + 2
                         gy = y + cy + 2
+                    if not (0 <= gx < self.width and 0 <= gy < self.height):
+                        continue  # outside the canvas
                     pos = (self.width * gy) + gx
                     idx = pos * 4
                     a2 = (9.0 - v) / 9.0
-- 
2.43.0


From e24d9d1bd43d0823222fa99995c295f5b50317f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 48/64] fix: PNG shading advances along vertical lines

---
 pyembroidery/PngWriter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyembroidery/PngWriter.py b/pyembroidery/PngWriter.py
index d64191b..d5959e0 100644
--- a/pyembroidery/PngWriter.py
+++ b/pyembroidery/PngWriter.py
@@ -430,6 +430,7 @@ class PngBuffer:
                 y0 += step_y
                 fraction += dx
                 self.line_for_point(x0, y0, True, ody, i)
+                i += 1
 
     def line_for_point(self, x, y, dy, max_pos, index):
         w = self.line_width
-- 
2.43.0


From d144507df3cfb82a7e2f75aae080c771d4a74044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 49/64] fix: PNG writer accepts settings=None

---
 pyembroidery/PngWriter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/PngWriter.py b/pyembroidery/PngWriter.py
index d5959e0..7a108ed 100644
--- a/pyembroidery/PngWriter.py
+++ b/pyembroidery/PngWriter.py
@@ -506,6 +506,8 @@ def draw_guides(draw_buff, extends):
 
 
 def write(pattern, f, settings=None):
+    if settings is None:
+        settings = {}
     guides = settings.get("guides", False)
     extends = pattern.bounds()
     pattern.translate(-extends[0], -extends[1])
-- 
2.43.0


From 63c9e5ac577d8087e43efa6ee81547f7500132c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 50/64] fix: DST extended header keeps absent thread texts
 absent

---
 pyembroidery/DstReader.py | 7 ++++++-
 pyembroidery/DstWriter.py | 6 +++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/DstReader.py b/pyembroidery/DstReader.py
index 31bca02..d6932ea 100644
--- a/pyembroidery/DstReader.py
+++ b/pyembroidery/DstReader.py
@@ -41,7 +41,12 @@ def process_header_info(out, prefix, value):
         out.metadata("copyright", value)
     elif prefix == "TC":
         values = [x.strip() for x in value.split(",")]
-        out.add_thread({"hex": values[0], "description": values[1], "catalog": values[2]})
+        thread = {"hex": values[0]}
+        if len(values) > 1 and len(values[1]) > 0:
+            thread["description"] = values[1]
+        if len(values) > 2 and len(values[2]) > 0:
+            thread["catalog"] = values[2]
+        out.add_thread(thread)
     else:
         out.metadata(prefix, value)
 
diff --git a/pyembroidery/DstWriter.py b/pyembroidery/DstWriter.py
index 28e2213..5e78dd8 100644
--- a/pyembroidery/DstWriter.py
+++ b/pyembroidery/DstWriter.py
@@ -167,7 +167,11 @@ def write(pattern, f, settings=None):
                 write_extended_field(
                     f,
                     "TC:%s,%s,%s\r"
-                    % (thread.hex_color(), thread.description, thread.catalog_number),
+                    % (
+                        thread.hex_color(),
+                        "" if thread.description is None else thread.description,
+                        "" if thread.catalog_number is None else thread.catalog_number,
+                    ),
                 )
     f.write(b"\x1a")
     for i in range(f.tell(), DSTHEADERSIZE):
-- 
2.43.0


From 565eeddd0626b5a952c734935fef37e31c374c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:08 +0000
Subject: [PATCH 51/64] fix: G-code comments: texts cannot end the comment,
 only thread comments are threads

---
 pyembroidery/GcodeReader.py | 12 +++++++++---
 pyembroidery/GcodeWriter.py | 18 +++++++++++++-----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/pyembroidery/GcodeReader.py b/pyembroidery/GcodeReader.py
index 432fc02..c9899bc 100644
--- a/pyembroidery/GcodeReader.py
+++ b/pyembroidery/GcodeReader.py
@@ -70,9 +70,15 @@ def read(f, out, settings=None):
     scale = 10.0  # Initially assume mm mode G20.
     for gc in parse(f):
         if "comment" in gc:
-            comment = gc["comment"]
-            if "Thread" in comment:
-                split = comment.split(" ")
+            # Thread comments read "Thread<index>: <color> ...", other comments may mention a thread.
+            split = gc["comment"].split(" ")
+            label = split[0]
+            if (
+                len(split) > 1
+                and label.startswith("Thread")
+                and label.endswith(":")
+                and label[6:-1].strip("0123456789") == ""
+            ):
                 out.add_thread(split[1])
 
         if "g" in gc:
diff --git a/pyembroidery/GcodeWriter.py b/pyembroidery/GcodeWriter.py
index b049aac..0adb128 100644
--- a/pyembroidery/GcodeWriter.py
+++ b/pyembroidery/GcodeWriter.py
@@ -40,15 +40,23 @@ def write_data(pattern, f):
             write_string_utf8(f, "(%s: %d)\n" % (name, the_value))
 
 
+def comment_text(text):
+    """A comment ends at the first closing parenthesis or line break, whatever follows would be taken as code."""
+    text = "%s" % (text,)
+    for c in "\r\n":
+        text = text.replace(c, " ")
+    return text.replace("(", "[").replace(")", "]")
+
+
 def write_metadata(pattern, f):
     if len(pattern.extras) > 0:
         for the_key, the_value in pattern.extras.items():
             try:
                 if isinstance(the_value, basestring):
-                    write_string_utf8(f, "(%s: %s)\n" % (the_key, the_value))
+                    write_string_utf8(f, "(%s)\n" % comment_text("%s: %s" % (the_key, the_value)))
             except NameError:
                 if isinstance(the_value, str):
-                    write_string_utf8(f, "(%s: %s)\n" % (the_key, the_value))
+                    write_string_utf8(f, "(%s)\n" % comment_text("%s: %s" % (the_key, the_value)))
 
 
 def write_threads(pattern, f):
@@ -60,9 +68,9 @@ def write_threads(pattern, f):
                 % (
                     i,
                     thread.hex_color(),
-                    thread.description,
-                    thread.brand,
-                    thread.catalog_number,
+                    comment_text(thread.description),
+                    comment_text(thread.brand),
+                    comment_text(thread.catalog_number),
                 ),
             )
 
-- 
2.43.0


From 328e5ad07e1c9ee610c35031f579ef6363505148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:11 +0000
Subject: [PATCH 52/64] fix: the SPX format's extensions are a list of one

---
 pyembroidery/EmbPattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index f27b3f3..69f188a 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -1207,7 +1207,7 @@ class EmbPattern:
             {
                 "description": "Pfaff Embroidery Format",
                 "extension": "spx",
-                "extensions": ("spx"),
+                "extensions": ("spx",),
                 "mimetype": "application/x-spx",
                 "category": "embroidery",
                 "reader": SpxReader,
-- 
2.43.0


From f772dcdc399892450b203e97065696a7b792310e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:34 +0000
Subject: [PATCH 53/64] fix: JEF: more colour changes than colours, and colour
 0 that is no stop

---
 pyembroidery/JefReader.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/JefReader.py b/pyembroidery/JefReader.py
index dd884d5..1597573 100644
--- a/pyembroidery/JefReader.py
+++ b/pyembroidery/JefReader.py
@@ -1,3 +1,4 @@
+from .EmbThread import EmbThread
 from .EmbThreadJef import get_thread_set
 from .ReadHelper import read_int_32le, signed8
 
@@ -24,7 +25,10 @@ def read_jef_stitches(f, out, settings=None):
             continue
         if ctrl == 0x01:
             # PATCH: None means stop since it was color #0
-            if out.threadlist[color_index] is None:
+            if (
+                color_index < len(out.threadlist)
+                and out.threadlist[color_index] is None
+            ):
                 out.stop(0, 0)
                 del out.threadlist[color_index]
             else:
@@ -69,3 +73,6 @@ def read(f, out, settings=None):
 
     f.seek(stitch_offset, 0)
     read_jef_stitches(f, out, settings)
+    for i, thread in enumerate(out.threadlist):
+        if thread is None:  # Color 0 which was not a stop.
+            out.threadlist[i] = EmbThread()
-- 
2.43.0


From 40ee879e467608d3e4e5ff50b3c2ca85b5f1c94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:34 +0000
Subject: [PATCH 54/64] fix: HUS: a colour index beyond the chart wraps as in
 the other formats

---
 pyembroidery/HusReader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/HusReader.py b/pyembroidery/HusReader.py
index ebe5867..c401f43 100644
--- a/pyembroidery/HusReader.py
+++ b/pyembroidery/HusReader.py
@@ -24,7 +24,7 @@ def read(f, out, settings=None):
     hus_thread_set = get_thread_set()
     for i in range(0, number_of_colors):
         index = read_int_16le(f)
-        out.add_thread(hus_thread_set[index])
+        out.add_thread(hus_thread_set[index % len(hus_thread_set)])
     f.seek(command_offset, 0)
     command_compressed = bytearray(f.read(x_offset - command_offset))
     f.seek(x_offset, 0)
-- 
2.43.0


From 204336770852a356860c4809eb52abe2572991e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:34 +0000
Subject: [PATCH 55/64] fix: PCM: a colour index beyond the chart wraps as in
 the other formats

---
 pyembroidery/PcmReader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/PcmReader.py b/pyembroidery/PcmReader.py
index 3f70aa2..5fa5189 100644
--- a/pyembroidery/PcmReader.py
+++ b/pyembroidery/PcmReader.py
@@ -30,7 +30,7 @@ def read_pc_file(f, out, settings=None):
         return  # File is blank.
     for i in range(0, colors):
         color_index = read_int_16be(f)
-        thread = pcm_threads[color_index]
+        thread = pcm_threads[color_index % len(pcm_threads)]
         out.add_thread(thread)
 
     stitch_count = read_int_16be(f)
-- 
2.43.0


From aa729e2481f7d75ea3d0fc86c2bccc6cc5521d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:38 +0000
Subject: [PATCH 56/64] fix: PEC: the colour count 0xFF means no colours, as
 written for a design without colours

---
 pyembroidery/PecReader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/PecReader.py b/pyembroidery/PecReader.py
index 8d24360..5c52284 100644
--- a/pyembroidery/PecReader.py
+++ b/pyembroidery/PecReader.py
@@ -23,11 +23,11 @@ def read_pec(f, out, pes_chart=None):
     pec_graphic_icon_height = read_int_8(f)
     f.seek(0xC, 1)
     color_changes = read_int_8(f)
-    count_colors = color_changes + 1  # PEC uses cc - 1, 0xFF means 0.
+    count_colors = (color_changes + 1) & 0xFF  # PEC uses cc - 1, 0xFF means 0.
     color_bytes = bytearray(f.read(count_colors))
     threads = []
     map_pec_colors(color_bytes, out, pes_chart, threads)
-    f.seek(0x1D0 - color_changes, 1)
+    f.seek(0x1D1 - count_colors, 1)
     stitch_block_end = read_int_24le(f) - 5 + f.tell()
     # The end of this value is already 5 into the stitchblock.
 
-- 
2.43.0


From 2f3a47d0af0003d807c6e5348df875e0ecbfd34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:33 +0000
Subject: [PATCH 57/64] fix: count sequin ejects as sewing where colour blocks
 are counted, joined or converted

---
 pyembroidery/EmbPattern.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 69f188a..08ae565 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -157,7 +157,12 @@ class EmbPattern:
             self.add_thread(other)
             for i in range(0, len(self.stitches)):
                 data = self.stitches[i][2] & COMMAND_MASK
-                if data == STITCH or data == SEW_TO or data == NEEDLE_AT:
+                if (
+                    data == STITCH
+                    or data == SEW_TO
+                    or data == NEEDLE_AT
+                    or data == SEQUIN_EJECT
+                ):
                     self.color_change()
                     break  # Only add color change if stitching exists.
         elif isinstance(other, int):
@@ -499,7 +504,12 @@ class EmbPattern:
         init_color = True
         for stitch in self.stitches:
             data = stitch[2] & COMMAND_MASK
-            if data == STITCH or data == SEW_TO or data == NEEDLE_AT:
+            if (
+                data == STITCH
+                or data == SEW_TO
+                or data == NEEDLE_AT
+                or data == SEQUIN_EJECT
+            ):
                 if init_color:
                     thread_index += 1
                     init_color = False
@@ -650,7 +660,12 @@ class EmbPattern:
 
         for i in range(join_position, len(self.stitches)):
             data = self.stitches[i][2] & COMMAND_MASK
-            if data == STITCH or data == SEW_TO or data == NEEDLE_AT:
+            if (
+                data == STITCH
+                or data == SEW_TO
+                or data == NEEDLE_AT
+                or data == SEQUIN_EJECT
+            ):
                 break
             elif data == COLOR_CHANGE or data == COLOR_BREAK or data == NEEDLE_SET:
                 self.stitches[i][2] = NO_COMMAND
@@ -663,7 +678,12 @@ class EmbPattern:
         last_change = None
         for position, stitch in enumerate(self.stitches):
             data = stitch[2] & COMMAND_MASK
-            if data == STITCH or data == SEW_TO or data == NEEDLE_AT:
+            if (
+                data == STITCH
+                or data == SEW_TO
+                or data == NEEDLE_AT
+                or data == SEQUIN_EJECT
+            ):
                 if init_color:
                     try:
                         if (
@@ -716,6 +736,7 @@ class EmbPattern:
                 data == STITCH
                 or data == SEW_TO
                 or data == NEEDLE_AT
+                or data == SEQUIN_EJECT
                 or data == COLOR_CHANGE
                 or data == COLOR_BREAK
                 or data == NEEDLE_SET
-- 
2.43.0


From cfb66727d278f689cffb0ca86bc191e36dd0d9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:06 +0000
Subject: [PATCH 58/64] fix: G-code: a move that names one axis only keeps the
 other

---
 pyembroidery/GcodeReader.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyembroidery/GcodeReader.py b/pyembroidery/GcodeReader.py
index c9899bc..c02051a 100644
--- a/pyembroidery/GcodeReader.py
+++ b/pyembroidery/GcodeReader.py
@@ -82,11 +82,16 @@ def read(f, out, settings=None):
                 out.add_thread(split[1])
 
         if "g" in gc:
-            if "x" in gc and "y" in gc and (gc["g"] == 0.0 or gc["g"] == 1.0):
+            if ("x" in gc or "y" in gc) and (gc["g"] == 0.0 or gc["g"] == 1.0):
+                # An axis that is not given does not move.
                 if absolute_mode:
-                    out.stitch_abs(gc["x"] * scale * flip_x, gc["y"] * scale * flip_y)
+                    x = gc["x"] * scale * flip_x if "x" in gc else out._previousX
+                    y = gc["y"] * scale * flip_y if "y" in gc else out._previousY
+                    out.stitch_abs(x, y)
                 else:
-                    out.stitch(gc["x"] * scale * flip_x, gc["y"] * scale * flip_y)
+                    x = gc["x"] * scale * flip_x if "x" in gc else 0
+                    y = gc["y"] * scale * flip_y if "y" in gc else 0
+                    out.stitch(x, y)
                 continue
             if gc["g"] == 21.0 or gc["g"] == 71.0:
                 scale = 10.0  # g20 is mm mode. 10 1/10th mm in a mm.
-- 
2.43.0


From 615d4029ad50b8baf431dc726ee408a3001dc5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:26 +0000
Subject: [PATCH 59/64] fix: TBF: more threads or needle changes than the
 header's tables hold

---
 pyembroidery/TbfReader.py | 3 +++
 pyembroidery/TbfWriter.py | 7 +++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/TbfReader.py b/pyembroidery/TbfReader.py
index 315f2ae..0d8721b 100644
--- a/pyembroidery/TbfReader.py
+++ b/pyembroidery/TbfReader.py
@@ -31,6 +31,9 @@ def read(f, out, settings=None):
             out.stitch(signed8(x), -signed8(y))
             continue
         elif ctrl == 0x81:
+            if needle >= len(thread_order):
+                out.needle_change(needle=None)  # Beyond the table.
+                continue
             needle_value = thread_order[needle]
             needle += 1
             if needle_value == 0:
diff --git a/pyembroidery/TbfWriter.py b/pyembroidery/TbfWriter.py
index c6a6ecb..d9c6efe 100644
--- a/pyembroidery/TbfWriter.py
+++ b/pyembroidery/TbfWriter.py
@@ -64,7 +64,8 @@ def write(pattern, f, settings=None):
         data = stitch[2] & COMMAND_MASK
         if data == NEEDLE_SET:
             flag, thread, needle, order = decode_embroidery_command(stitch[2])
-            thread_order[index] = needle
+            if index < len(thread_order):
+                thread_order[index] = needle
             index += 1
     for n in thread_order:
         write_int_8(f, n)
@@ -73,7 +74,9 @@ def write(pattern, f, settings=None):
     # DA is the threadlist. This is not *only* the used threads but any threads in the set.
     write_string_utf8(f, "DA:")
     if len(pattern.threadlist) > 0:
-        for thread in pattern.threadlist:
+        # The table, and the two bytes behind it, end where the records start.
+        room = (0x600 - 2 - f.tell()) // 5
+        for thread in pattern.threadlist[:room]:
             write_int_8(f, 0x45)
             write_int_8(f, thread.get_red())
             write_int_8(f, thread.get_green())
-- 
2.43.0


From acf071b3ad3f19ac1ab50e8e243001b4ec0da755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:40 +0000
Subject: [PATCH 60/64] fix: an index of 255 does not carry into the next index
 of a command

---
 pyembroidery/EmbFunctions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyembroidery/EmbFunctions.py b/pyembroidery/EmbFunctions.py
index 9485c38..b447abb 100644
--- a/pyembroidery/EmbFunctions.py
+++ b/pyembroidery/EmbFunctions.py
@@ -5,18 +5,18 @@ def encode_thread_change(command, thread=None, needle=None, order=None):
     if thread is None:
         thread = 0
     else:
-        thread &= 0xFF
         thread += 1
+        thread &= 0xFF  # 255 has no code, it becomes unspecified.
     if needle is None:
         needle = 0
     else:
-        needle &= 0xFF
         needle += 1
+        needle &= 0xFF  # 255 has no code, it becomes unspecified.
     if order is None:
         order = 0
     else:
-        order &= 0xFF
         order += 1
+        order &= 0xFF  # 255 has no code, it becomes unspecified.
     command &= COMMAND_MASK
     return command | (order << 24) | (needle << 16) | (thread << 8)
 
-- 
2.43.0


From 01601dec87b06861bed86b98c0d17b4f07acef9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:34 +0000
Subject: [PATCH 61/64] fix: a truncated PMV file ends its design

---
 pyembroidery/PmvReader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyembroidery/PmvReader.py b/pyembroidery/PmvReader.py
index d1443d9..f1751f4 100644
--- a/pyembroidery/PmvReader.py
+++ b/pyembroidery/PmvReader.py
@@ -26,15 +26,15 @@ def read_pmv_stitches(f, out, settings=None):
     while True:
         stitch_count = read_int_16le(f)
         block_length = read_int_16le(f)
-        if block_length is None:
-            return
-        if block_length >= 256:
+        if block_length is None or block_length >= 256:
             break
         if stitch_count == 0:
             continue
         for i in range(0, stitch_count):
             x = read_int_8(f)
             y = read_int_8(f)
+            if y is None:
+                break  # File is truncated.
             if y > 16:
                 y = -(32 - y)  # This is 5 bit signed number.
             if x > 32:
-- 
2.43.0


From 1cccbd8e7e2f69fdd27ed901d9d4a5fd92b0c268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:34 +0000
Subject: [PATCH 62/64] fix: a truncated VP3 file yields the records before the
 cut

---
 pyembroidery/Vp3Reader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/Vp3Reader.py b/pyembroidery/Vp3Reader.py
index d52d70e..f49e830 100644
--- a/pyembroidery/Vp3Reader.py
+++ b/pyembroidery/Vp3Reader.py
@@ -61,7 +61,8 @@ def read(f, out, settings=None):
     skip_vp3_string(f)  # "Produced by     Software Ltd"
     count_colors = read_int_16be(f)
     for i in range(0, count_colors):
-        vp3_read_colorblock(f, out, center_x, center_y)
+        if not vp3_read_colorblock(f, out, center_x, center_y):
+            break  # File is truncated.
         if (i + 1) < count_colors:  # Don't add the color change on the final read.
             out.color_change()
     out.end()
@@ -70,6 +71,8 @@ def read(f, out, settings=None):
 def vp3_read_colorblock(f, out, center_x, center_y):
     bytescheck = f.read(3)  # \x00\x05\x00
     distance_to_next_block_050 = read_int_32be(f)
+    if distance_to_next_block_050 is None:
+        return False
     block_end_position = distance_to_next_block_050 + f.tell()
 
     start_position_x = signed32(read_int_32be(f)) / 100
@@ -93,6 +96,8 @@ def vp3_read_colorblock(f, out, center_x, center_y):
             out.stitch(x, y)
             continue
         if y == 0x01:
+            if i + 4 > len(stitch_bytes):
+                break  # File is truncated.
             x = signed16(stitch_bytes[i], stitch_bytes[i + 1])
             i += 2
             y = signed16(stitch_bytes[i], stitch_bytes[i + 1])
@@ -105,6 +110,7 @@ def vp3_read_colorblock(f, out, center_x, center_y):
             pass
         elif y == 0x03:
             out.trim()
+    return len(stitch_bytes) == stitch_byte_length
 
 
 def vp3_read_thread(f):
-- 
2.43.0


From fc0c0f26b60accfd41cfbb1d405eea14984cd130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:12 +0000
Subject: [PATCH 63/64] fix: compressed data of 256, 512, 65536 or no bytes
 expands to itself

---
 pyembroidery/EmbCompress.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyembroidery/EmbCompress.py b/pyembroidery/EmbCompress.py
index d4f07eb..29d265f 100644
--- a/pyembroidery/EmbCompress.py
+++ b/pyembroidery/EmbCompress.py
@@ -4,11 +4,13 @@ def expand(data, uncompressed_size=None):
 
 
 def compress(data):
-    size = len(data)
-    return (
-        bytearray([(size >> 0) & 0xFF, (size >> 8) & 0xFF, 0x02, 0xA0, 0x01, 0xFE])
-        + data
-    )
+    result = bytearray()
+    for start in range(0, len(data), 0xFFFF):  # A block has at most 0xFFFF elements.
+        block = data[start : start + 0xFFFF]
+        size = len(block)
+        result += bytearray([(size >> 8) & 0xFF, size & 0xFF, 0x02, 0xA0, 0x01, 0xFE])
+        result += block
+    return result
 
 
 class Huffman:
-- 
2.43.0


From 27e85a0ffe4ae5ddb278c2d9ddc9f6eb6027ff8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:20 +0000
Subject: [PATCH 64/64] fix: Accept a translate setting given as an object with
 x and y

---
 pyembroidery/EmbEncoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/EmbEncoder.py b/pyembroidery/EmbEncoder.py
index 0c28d52..31ad7f6 100644
--- a/pyembroidery/EmbEncoder.py
+++ b/pyembroidery/EmbEncoder.py
@@ -50,7 +50,7 @@ class Transcoder:
         if translate is not None:
             try:
                 self.matrix.post_translate(translate[0], translate[1])
-            except IndexError:
+            except (IndexError, TypeError):
                 try:
                     self.matrix.post_translate(translate.x, translate.y)
                 except AttributeError:
-- 
2.43.0

