exec(open("/verif/tools/seeds/b3.py").read().split("SEEDS")[0])
SEEDS = [
 dict(id="s61-xxx-colours", prop="C07",
  edits=[("XxxWriter.py", "    for color in colors:", "    for color in colors[:21]:")],
  demo='''
p = pe.EmbPattern()
for i in range(23):
    p.add_thread(0x10000 * (i + 1))
    p.add_stitch_absolute(STITCH, 0, i)
    p.add_stitch_absolute(STITCH, 10, i)
    p.add_command(COLOR_CHANGE if i < 22 else END)
f = io.BytesIO()
pe.write_xxx(p, f)
f.seek(0)
q = pe.read_xxx(f)
assert [t.color & 0xFFFFFF for t in q.threadlist] == [t.color for t in p.threadlist], q.threadlist
''', needs="more than 21 colour blocks", breaks="colours of the later blocks are lost"),
 dict(id="s62-tabled-last", prop="C37",
  edits=[("PecReader.py", "            if len(chart) > 0:\n", "            if len(chart) > 1:\n")],
  demo='''
P = __import__("pyembroidery.PecReader", fromlist=["x"])
q = pe.EmbPattern()
chart = [pe.EmbThread(0x111111), pe.EmbThread(0x222222)]
P.map_pec_colors(bytearray([5, 6, 5]), q, chart, [])
assert [t.color & 0xFFFFFF for t in q.threadlist] == [0x111111, 0x222222, 0x111111], q.threadlist
''', needs="a PES header with fewer threads than blocks", breaks="the last thread of the header is not used"),
 dict(id="s63-rotate-round", prop="C14",
  edits=[("EmbEncoder.py", "                self.matrix.post_rotate(self.stitch[0], q[0], q[1])", "                self.matrix.post_rotate(self.stitch[0], round(q[0]), round(q[1]))")],
  demo='''
p = pe.EmbPattern()
p.add_thread(1)
p.add_stitch_absolute(STITCH, 0, 0)
p.add_stitch_absolute(STITCH, 10.5, 3.5)
p.add_stitch_absolute(MATRIX_ROTATE, 90, 0)
p.add_stitch_absolute(STITCH, 10.5, 3.5)
p.end()
e = p.get_normalized_pattern().stitches
s = [(round(x, 6), round(y, 6)) for x, y, c in e if c & COMMAND_MASK == STITCH]
assert s == [(0, 0), (10.5, 3.5), (10.5, 3.5)], s
''', needs="a needle-centred rotation at a fractional position", breaks="the needle position does not stay fixed"),
 dict(id="s66-shv-many", prop="C24",
  edits=[("ShvReader.py", "                max_stitches = 0xFFFFFFFF", "                max_stitches = 0xFF")],
  demo='''
d = bytes(0x56) + bytes([2]) + b"AB" + bytes([4, 3]) + bytes(4 + 2 * 4) + bytes([1]) + bytes(18) + bytes([0, 0, 0, 2, 1]) + bytes(9)
d = d[:-2] + bytes([1, 1] * 400)
S = __import__("pyembroidery.ShvReader", fromlist=["x"])
q = pe.EmbPattern.read_embroidery(S, io.BytesIO(d))
k = [s[2] & COMMAND_MASK for s in q.stitches]
assert k.count(COLOR_CHANGE) == 1, k.count(COLOR_CHANGE)
''', needs="more than 255 stitches after the last stated block", breaks="colour changes appear in the last block"),
 dict(id="s68-opaque-eq", prop="C29",
  edits=[("EmbThread.py", "            return self.color & 0xFFFFFF == other & 0xFFFFFF\n        try:", "            return self.color & 0xFFFFFF == other\n        try:")],
  demo='''
assert pe.EmbThread(0x123456) == 0xFF123456
''', needs="comparing with an opaque colour number", breaks="equal colours compare unequal"),
]
