RT = '''
def rt(fmt, cmds, wset=None, rset=None, threads=("red", "green", "blue")):
    p = EmbPattern()
    for t in threads:
        p.add_thread(t)
    for x, y, c in cmds:
        p.add_stitch_absolute(c, x, y)
    f = io.BytesIO()
    getattr(pe, "write_" + fmt)(p, f, wset)
    f.seek(0)
    return getattr(pe, "read_" + fmt)(f, rset), f

def pens(q):
    return [(s[0], s[1]) for s in q.stitches if s[2] & 0xFF == STITCH]
'''
SEEDS = [
 dict(id="s01-dst-even-trim", prop="C01",
  edits=[("DstWriter.py", "f.write(encode_record(delta / 2, delta / 2, JUMP))", "f.write(encode_record(2, 2, JUMP))")],
  demo=RT + '''
q, f = rt("dst", [(0, 0, STITCH), (10, 5, STITCH), (10, 5, TRIM), (30, 9, STITCH), (40, 1, STITCH), (40, 1, END)], {"trim_at": 4}, {"trim_at": 4})
assert pens(q) == [(0, 0), (10, 5), (30, 9), (40, 1)], pens(q)
''', needs="a trim in a design written with an even trim_at setting (4, 6, ..)",
  breaks="the jump run written for a trim no longer returns to where it started, so all later penetrations are shifted"),
 dict(id="s02-pec-short-64", prop="C04",
  edits=[("PecWriter.py", "if not long and -64 < value < 63:", "if not long and -64 < value <= 64:")],
  demo=RT + '''
cmds = [(0, 0, STITCH), (64, 3, STITCH), (70, 67, STITCH), (70, 67, END)]
q, f = rt("pec", cmds)
a = pens(q)[-3:]
assert [(x - a[0][0], y - a[0][1]) for x, y in a] == [(0, 0), (64, 3), (70, 67)], a
''', needs="a displacement of exactly 64 units along an axis", breaks="+64 is written in the 7-bit short form and reads back as -64"),
 dict(id="s03-vp3-minus-128", prop="C06",
  edits=[("Vp3Writer.py", "if -127 <= dx <= 127 and -127 <= dy <= 127 and alt == 0:", "if -128 <= dx <= 127 and -128 <= dy <= 127 and alt == 0:")],
  demo=RT + '''
cmds = [(0, 0, STITCH), (200, 10, STITCH), (72, 13, STITCH), (80, 20, STITCH), (80, 20, END)]
q, f = rt("vp3", cmds)
a = pens(q)
assert a == [(0, 0), (200, 10), (72, 13), (80, 20)], a
''', needs="a stitch of exactly -128 units in x", breaks="the x byte 0x80 is the escape code: the stitch is lost and everything after it is misread"),
 dict(id="s04-tbf-stop-needle", prop="C09",
  edits=[("TbfReader.py", "        elif ctrl == 0x40:\n            out.stop()\n", "        elif ctrl == 0x40:\n            out.stop()\n            needle += 1\n")],
  demo=RT + '''
cmds = [(0, 0, STITCH), (10, 5, STITCH), (10, 5, STOP), (20, 9, STITCH), (20, 9, COLOR_CHANGE), (30, 3, STITCH), (30, 3, COLOR_CHANGE), (35, 4, STITCH), (35, 4, END)]
q, f = rt("tbf", cmds)
n = [decode_embroidery_command(s[2])[2] for s in q.stitches if s[2] & 0xFF == NEEDLE_SET]
c = [s[2] & 0xFF for s in q.stitches]
assert c.count(STOP) == 1 and c.count(NEEDLE_SET) == 3 and n == [1, 2, 3], (n, c)
''', needs="a stop followed later by a needle change", breaks="the needle table index advances at a stop, so later needle changes read back as stops or other needles"),
 dict(id="s05-u01-needle-15", prop="C08",
  edits=[("U01Writer.py", "            if needle >= 15:\n", "            if needle > 15:\n"), ("U01Reader.py", "if 0x09 <= command <= 0x17:", "if 0x09 <= command < 0x17:")],
  demo=RT + '''
cmds, x = [], 0
for i in range(15):
    cmds += [(10 * i, 3, STITCH), (10 * i + 5, 7, STITCH), (10 * i + 5, 7, COLOR_CHANGE)]
cmds = cmds[:-1] + [(145, 7, END)]
q, f = rt("u01", cmds, {"needle_count": 15}, threads=["#%06x" % (i * 4099) for i in range(15)])
assert len(pens(q)) == 30, len(pens(q))
''', needs="a design using the fifteenth needle", breaks="writer and reader disagree on needle 15: reading ends the design there"),
 dict(id="s06-frame-eject-far", prop="C10",
  edits=[("EmbEncoder.py", "                self.tie_off_and_trim_if_needed()\n                self.jump_to(x, y)\n                self.stop_here()\n", "                self.tie_off_and_trim_if_needed()\n                self.jump_at(x, y)\n                self.stop_here()\n")],
  demo=RT + '''
p = EmbPattern()
for x, y, c in [(0, 0, STITCH), (10, 3, STITCH), (10, 400, FRAME_EJECT), (20, 3, STITCH), (20, 3, END)]:
    p.add_stitch_absolute(c, x, y)
e = p.get_normalized_pattern({"max_stitch": 121, "max_jump": 121})
px = py = 0
for s in e.stitches:
    assert abs(s[0] - px) <= 121.001 and abs(s[1] - py) <= 121.001, (px, py, s)
    px, py = s[0], s[1]
''', needs="a frame eject further away than the longest jump", breaks="the frame is sent there in one jump beyond the limit"),
 dict(id="s08-jef-third-stop", prop="C03",
  edits=[("JefReader.py", "                out.stop(0, 0)\n                del out.threadlist[color_index]\n", "                out.stop(0, 0)\n                if color_index + 1 < len(out.threadlist):\n                    del out.threadlist[color_index]\n")],
  demo=RT + '''
cmds = [(0, 0, STITCH), (10, 5, STITCH), (10, 5, STOP), (20, 9, STITCH), (20, 9, END)]
q, f = rt("jef", cmds)
assert None not in q.threadlist and len(q.threadlist) == 1, q.threadlist
''', needs="a design whose last palette entry is a stop", breaks="the reader leaves the stop's empty palette entry in the thread list"),
]
