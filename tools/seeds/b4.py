exec(open("/verif/tools/seeds/b3.py").read().split("SEEDS")[0])
SEEDS = [
 dict(id="s25-pes-long-text", prop="C05",
  edits=[("PesReader.py", "    length = read_int_8(f)\n    if length == 0:\n        return None\n    return read_string_8(f, length)", "    length = read_int_8(f)\n    if length == 0:\n        return None\n    return read_string_8(f, length & 0x7F)")],
  demo=RT + '''
p = EmbPattern()
p.add_thread("red")
p += [(0, 0), (9, 9)]
p.metadata("name", "n" * 130)
p.metadata("author", "someone")
f = io.BytesIO()
pe.write_pes(p, f, {"version": 6})
f.seek(0)
q = pe.read_pes(f)
assert q.get_metadata("name") == "n" * 130 and q.get_metadata("author") == "someone", q.extras
''', needs="a text of 128 bytes or more in the header", breaks="the header is read out of step from there on"),
 dict(id="s26-rotate-half", prop="C14",
  edits=[("EmbEncoder.py", "                self.matrix.post_rotate(self.stitch[0], q[0], q[1])", "                self.matrix.post_rotate(self.stitch[0] % 180, q[0], q[1])")],
  demo='''
p = EmbPattern()
for x, y, c in [(0, 0, STITCH), (10, 0, STITCH), (180, 0, MATRIX_ROTATE), (0, 0, STITCH), (0, 0, END)]:
    p.add_stitch_absolute(c, x, y)
a = [s for s in p.get_normalized_pattern({}).stitches if s[2] & 255 == STITCH][-1]
assert abs(a[0] - 20) < 1e-6 and abs(a[1]) < 1e-6, a
''', needs="an inline rotation by half a turn or more", breaks="the rest of the design is rotated the wrong way"),
 dict(id="s29-add-metadata", prop="C20",
  edits=[("EmbPattern.py", "        self.extras.update(pattern.extras)\n", "        self.extras = dict(self.extras, **pattern.extras) if self.extras else pattern.extras\n")],
  demo='''
b = EmbPattern()
b.add_thread("red")
b += [(0, 0), (9, 9)]
b.metadata("name", "x")
a = EmbPattern()
a += b
a.metadata("name", "y")
assert b.get_metadata("name") == "x", b.extras
''', needs="adding to a pattern without metadata, then editing the sum's metadata", breaks="both patterns share one metadata mapping"),
 dict(id="s30-nonrepeat-first", prop="C23",
  edits=[("EmbThread.py", "            thread_palette[repeated_index] = repeated_thread", "            thread_palette[repeated_index or index] = repeated_thread")],
  demo='''
import importlib
T = importlib.import_module("pyembroidery.EmbThread")
pal = [EmbThread(c) for c in (0x000000, 0xFF0000, 0x00FF00)]
want = [EmbThread(c) for c in (0x000000, 0x010000, 0x000001, 0xFF0000)]
r = T.build_nonrepeat_palette(list(pal), want)
assert r[0] == 0 and r[2] == 0 and r[3] == 1, r
''', needs="two neighbouring threads nearest to the palette's first entry", breaks="the first entry is lost and another one doubled"),
 dict(id="s31-ksm-retrim", prop="C24",
  edits=[("KsmReader.py", "            trimmed = False\n            continue\n        if 0x0B", "            trimmed = not stitched_yet\n            continue\n        if 0x0B")],
  demo='''
f = io.BytesIO(b"\\0" * 512 + bytes([0, 0, 0x07, 5, 5, 0, 0, 0, 0x17, 3, 3, 0, 0, 0, 8]))
q = pe.EmbPattern.read_embroidery(__import__("pyembroidery.KsmReader", fromlist=["x"]), f)
assert [s[2] & 255 for s in q.stitches] == [JUMP, STITCH, END], q.stitches
''', needs="a design that starts with a move before its first stitch", breaks="the whole design is read as jumps"),
 dict(id="s33-u01-drift", prop="C26",
  edits=[("U01Writer.py", "        xx += dx\n        yy += dy\n        if data == SLOW", "        xx += dx\n        yy = y if dy == 0 else yy + dy\n        if data == SLOW")],
  demo=RT + '''
p = [(0, 0, STITCH)] + [(i * 5, i * 0.4, STITCH) for i in range(1, 30)] + [(150, 11.6, END)]
q, f = rt("u01", p)
ys = [s[1] for s in q.stitches if s[2] & 255 == STITCH]
assert abs(ys[-1] - 29 * 0.4) < 0.51, ys
''', needs="a gently sloping line of many stitches that rise less than half a unit each", breaks="the height never adds up: the line comes out level"),
 dict(id="s37-lock-limit", prop="C30",
  edits=[("EmbEncoder.py", "        if length > max_length:\n            p = oriented(", "        if length > max_length * 4:\n            p = oriented(")],
  demo='''
p = EmbPattern()
for x, y, c in [(0, 0, STITCH), (390, 0, STITCH), (395, 0, STITCH), (395, 0, END)]:
    p.add_stitch_absolute(c, x, y)
e = p.get_normalized_pattern({"tie_on": True, "max_stitch": 100, "max_jump": 100})
x = 0
for s in e.stitches:
    assert abs(s[0] - x) <= 100, e.stitches[:9]
    x = s[0]
''', needs="ties enabled and a first stitch between three and four maximum stitch lengths", breaks="a lock stitch is longer than the maximum stitch"),
 dict(id="s38-emd-cut", prop="C31",
  edits=[("EmdReader.py", "            b = bytearray(f.read(2))\n            if len(b) != 2:\n                break\n", "            b = bytearray(f.read(2))\n            if len(b) == 0:\n                break\n            b.extend([0] * (2 - len(b)))\n")],
  demo='''
f = io.BytesIO(b"\\0" * 0x30 + b"\\x05\\x05\\x80\\x80\\x07")
q = pe.EmbPattern.read_embroidery(__import__("pyembroidery.EmdReader", fromlist=["x"]), f)
assert [s[2] & 255 for s in q.stitches] == [STITCH, END], q.stitches
''', needs="a file cut in the middle of a jump record", breaks="half a record is taken as a whole one"),
]
