import os, runpy
RT = runpy.run_path(os.path.join(os.path.dirname(__file__), "b1.py"))["RT"]
SEEDS = [
 dict(id="s10-exp-128", prop="C02",
  edits=[("ExpWriter.py", "MAX_JUMP_DISTANCE = 127\nMAX_STITCH_DISTANCE = 127", "MAX_JUMP_DISTANCE = 127\nMAX_STITCH_DISTANCE = 128")],
  demo=RT + '''
q, f = rt("exp", [(0, 0, STITCH), (3, 4, STITCH), (131, 9, STITCH), (140, 1, STITCH), (140, 1, END)])
assert pens(q) == [(0, 0), (3, 4), (131, 9), (140, 1)], pens(q)
''', needs="a stitch of exactly 128 units in x or y", breaks="the stitch is not split and its byte 0x80 is the escape code or reads back as -128"),
 dict(id="s11-xxx-125", prop="C07",
  edits=[("XxxWriter.py", "MAX_STITCH_DISTANCE = 124", "MAX_STITCH_DISTANCE = 127")],
  demo=RT + '''
q, f = rt("xxx", [(0, 0, STITCH), (3, 4, STITCH), (129, 9, STITCH), (140, 1, STITCH), (140, 1, END)])
assert pens(q) == [(0, 0), (3, 4), (129, 9), (140, 1)], pens(q)
''', needs="a stitch of 125 to 127 units in x or y", breaks="it is written in the long form, which stands for a jump: the penetration is lost"),
 dict(id="s12-sequin-jump-mode", prop="C11",
  edits=[("EmbEncoder.py", "        if self.state_sequin_mode:\n            self.toggle_sequins()  # can't jump with sequin mode on.\n        self.add(JUMP, new_x, new_y)", "        if self.state_sequin_mode and self.state_trimmed:\n            self.toggle_sequins()  # can't jump with sequin mode on.\n        self.add(JUMP, new_x, new_y)")],
  demo=RT + '''
p = EmbPattern()
for x, y, c in [(0, 0, STITCH), (10, 0, SEQUIN_EJECT), (30, 5, JUMP), (40, 5, STITCH), (40, 5, END)]:
    p.add_stitch_absolute(c, x, y)
e = p.get_normalized_pattern({"sequin_contingency": CONTINGENCY_SEQUIN_UTILIZE})
on = False
for s in e.stitches:
    c = s[2] & 0xFF
    if c == SEQUIN_MODE:
        on = not on
    assert not (c == JUMP and on), e.stitches
''', needs="an explicit jump straight after a sequin with sequins utilised", breaks="a jump is written while sequin mode is on: machines eject a sequin there"),
 dict(id="s13-needle-wrap", prop="C12",
  edits=[("EmbEncoder.py", "                    s[2] = (s[2] - 1) % needle_limit\n                    s[2] += 1", "                    s[2] = s[2] % needle_limit\n                    s[2] += 1")],
  demo=RT + '''
p = EmbPattern()
for i in range(7):
    p.add_thread("#%06x" % (i * 70000))
x = 0
for i in range(7):
    if i:
        p.add_stitch_absolute(COLOR_BREAK, x, 0)
    p.add_stitch_absolute(STITCH, x, 0)
    p.add_stitch_absolute(STITCH, x + 5, 5)
    x += 10
p.add_stitch_absolute(END, x, 0)
e = p.get_normalized_pattern({"needle_count": 3, "thread_change_command": NEEDLE_SET})
n = [decode_embroidery_command(s[2])[2] for s in e.stitches if s[2] & 0xFF == NEEDLE_SET]
assert n == [1, 2, 3, 1, 2, 3, 1], n
''', needs="more colour blocks than needles in needle mode", breaks="blocks past the last needle wrap onto the wrong needle"),
 dict(id="s14-inverse-shear", prop="C13",
  edits=[("EmbMatrix.py", "(m[1] * m[5] - m[2] * m[4]) * inverse_det", "(m[1] * m[5] - m[2] * m[8]) * inverse_det")],
  demo='''
m = EmbMatrix([1, 2, 3, 0, 1, 4, 5, 6, 0.5])
i = EmbMatrix(list(m.m))
i.inverse()
e = (m @ i).m
assert all(abs(a - b) < 1e-6 for a, b in zip(e, [1, 0, 0, 0, 1, 0, 0, 0, 1])), e
''', needs="a matrix with a nonzero third entry", breaks="the inverse of a general matrix no longer undoes it"),
 dict(id="s17-int16be-short", prop="C16",
  edits=[("ReadHelper.py", "def read_int_16be(stream):\n    byte = bytearray(stream.read(2))\n    if len(byte) == 2:", "def read_int_16be(stream):\n    byte = bytearray(stream.read(2))\n    if len(byte) == 1:\n        byte.append(0)\n    if len(byte) == 2:")],
  demo='''
from pyembroidery.ReadHelper import read_int_16be
assert read_int_16be(io.BytesIO(b"\\x12")) is None
''', needs="a file cut in the middle of a 16-bit number", breaks="half a number is reported as a whole one"),
 dict(id="s19-json-order", prop="C18",
  edits=[("JsonWriter.py", "        if command[3] is not None:\n            name = name + \" o\"", "        if command[3]:\n            name = name + \" o\"")],
  demo=RT + '''
p = EmbPattern()
p.add_stitch_absolute(encode_thread_change(SET_CHANGE_SEQUENCE, 3, None, 0), 0, 0)
p.add_stitch_absolute(STITCH, 1, 2)
f = io.StringIO()
pe.write_json(p, f)
f.seek(0)
q = pe.read_json(f)
assert decode_embroidery_command(q.stitches[0][2])[3] == 0, q.stitches
''', needs="a thread-change command for order 0", breaks="the order index 0 is dropped"),
 dict(id="s20-bounds-elif", prop="C19",
  edits=[("EmbPattern.py", "            if stitch[1] < min_y:\n                min_y = stitch[1]\n        return min_x", "            elif stitch[1] < min_y:\n                min_y = stitch[1]\n        return min_x")],
  demo='''
p = EmbPattern()
for x, y in ((0, 5), (3, 7), (4, 9)):
    p.add_stitch_absolute(STITCH, x, y)
assert p.bounds() == (0, 5, 4, 9), p.bounds()
''', needs="a design whose stitches only go down, so that each is a new maximum", breaks="the minimum is never recorded and bounds return infinity"),
 dict(id="s22-trim-distance-y", prop="C21",
  edits=[("EmbPattern.py", "                            abs(jump_dy) > distance_to_require_trim\n                            or abs(jump_dx) > distance_to_require_trim", "                            jump_dy > distance_to_require_trim\n                            or abs(jump_dx) > distance_to_require_trim")],
  demo='''
p = EmbPattern()
for x, y, c in ((0, 0, STITCH), (0, -80, JUMP), (0, -80, STITCH), (5, -80, STITCH)):
    p.add_stitch_absolute(c, x, y)
p.interpolate_trims(10, 50)
assert [s[2] & 0xFF for s in p.stitches].count(TRIM) == 1, p.stitches
''', needs="an upward jump beyond the trim distance", breaks="jump runs going up are never trimmed by distance"),
 dict(id="s23-colorblock-empty", prop="C22",
  edits=[("EmbPattern.py", "            if command == NEEDLE_SET and colorblock_start != pos:", "            if command == NEEDLE_SET and pos != 0:")],
  demo='''
p = EmbPattern()
p.add_thread("red"); p.add_thread("blue")
for x, y, c in ((0, 0, STITCH), (5, 5, COLOR_CHANGE), (5, 5, NEEDLE_SET), (6, 6, STITCH)):
    p.add_stitch_absolute(c, x, y)
b = [x for x, t in p.get_as_colorblocks()]
assert all(len(x) for x in b), b
''', needs="a needle set directly after a colour change", breaks="an empty colour block is yielded and later blocks get the wrong thread"),
]
