exec(open("/verif/tools/seeds/b3.py").read().split("SEEDS")[0])
SEEDS = [
 dict(id="s76-jef-third", prop="C03",
  edits=[("JefWriter.py", "                jef_threads[repeated_index] = repeated_thread\n", "                if color_count < 4:\n                    jef_threads[repeated_index] = repeated_thread\n")],
  demo='''
def colours(cols):
    p = pe.EmbPattern()
    for i, c in enumerate(cols):
        if i:
            p.color_change()
        p.add_thread(c)
        p.stitch_abs(i, 5)
        p.stitch_abs(i, 9)
    p.end()
    f = io.BytesIO()
    pe.write_jef(p, f)
    f.seek(0)
    return [t.color for t in pe.read_jef(f).threadlist]
a = [0x0000FF, 0x00FF00, 0x0000FF, 0xFF0000, 0xFE0000, 0x0000FF, 0xFF0000]
got = colours(a)
assert got[6] == got[3], got
''', needs="five or more blocks where two neighbours share their nearest palette entry and that colour is used again later", breaks="a later block gets another colour"),
 dict(id="s77-jef-after-stop", prop="C03",
  edits=[("JefWriter.py", "            last_index = index_of_jefthread\n            last_thread = thread", "            last_index = index_of_jefthread\n            last_thread = thread if len(palette) < 2 or palette[-2] else last_thread")],
  demo='''
p = pe.EmbPattern()
for c in (0xFF0000, 0x0000FF, 0x0000FF):
    p.add_thread(c)
p.stitch_abs(0, 5)
p.stop()
p.stitch_abs(2, 5)
p.color_change()
p.stitch_abs(3, 5)
p.color_change()
p.stitch_abs(4, 5)
p.end()
f = io.BytesIO()
pe.write_jef(p, f)
f.seek(0)
got = [t.color for t in pe.read_jef(f).threadlist]
assert got[-1] == got[-2], got
''', needs="a stop in the block before two blocks of one colour", breaks="equal neighbouring blocks get different colours"),
 dict(id="s78-pmv-scale", prop="C26",
  edits=[("PmvWriter.py", "    normal_max_y = max_y - center_y\n", "    normal_max_y = max(abs(max_y), abs(min_y))\n")],
  demo='''
from pyembroidery import PmvWriter, PmvReader
def heights(base):
    p = pe.EmbPattern()
    p.add_thread(1)
    for i, y in enumerate((0, 30, 60, 20)):
        p.stitch_abs(5 * i, y + base)
    p.end()
    f = io.BytesIO()
    pe.EmbPattern.write_embroidery(PmvWriter, p, f)
    f.seek(0)
    q = pe.EmbPattern.read_embroidery(PmvReader, f)
    return [s[1] for s in q.stitches if s[2] == STITCH]
a, b = heights(0), heights(-20)
assert a == b, (a, b)
''', needs="a design that fits the height but lies away from the origin", breaks="it is scaled down all the same"),
 dict(id="s79-scale-object", prop="C14",
  edits=[("EmbEncoder.py", "                    self.matrix.post_scale(scale.x, scale.y)", "                    self.matrix.post_scale(scale.x, scale.x)")],
  demo='''
class P(object):
    x, y = 2, 3
p = pe.EmbPattern()
p.add_thread(1)
p.stitch_abs(5, 7)
p.end()
s = p.get_normalized_pattern({"scale": P()}).stitches
assert [s[0][:2], len(s)] == [[10, 21], 2], s
''', needs="a scale setting given as an object with different x and y", breaks="the second factor is ignored"),
 dict(id="s80-pes-edge", prop="C05",
  edits=[("PesWriter.py", "    adjust_y = bottom + cy\n", "    adjust_y = bottom - cy\n")],
  demo='''
import struct
def first(dy):
    p = pe.EmbPattern()
    p.add_thread(1)
    for x, y in ((0, 0), (30, 20 + dy), (5, 7)):
        p.stitch_abs(x, y)
    p.end()
    f = io.BytesIO()
    pe.write_pes(p, f, {"version": 1})
    b = f.getvalue()
    i = b.index(b"CSewSeg") + 7
    while struct.unpack("<H", b[i:i+2])[0] != 0:
        i += 6 + 4 * struct.unpack("<H", b[i+4:i+6])[0] + 2
    return struct.unpack("<hh", b[i+6:i+10])
assert first(0) == (0, -20) and first(10) == (0, -30), (first(0), first(10))
''', needs="a design that is not centred on the origin", breaks="the embroidery section lies elsewhere on the hoop than its block says"),
 dict(id="s81-pes-form", prop="C05",
  edits=[("PesWriter.py", "        if isinstance(version, str):\n            if version.endswith(\"t\"):", "        if isinstance(version, str):\n            truncated = False\n            if version.endswith(\"t\"):")],
  demo='''
p = pe.EmbPattern()
p.add_thread(1)
p.stitch_abs(5, 7)
p.stitch_abs(0, 7)
p.end()
for st in ({"truncated": True, "version": 6}, {"truncated": True, "version": "6"}):
    f = io.BytesIO()
    pe.write_pes(p, f, st)
    assert b"CSewSeg" not in f.getvalue(), st
''', needs="a version given as text beside the truncated setting", breaks="the full form is written"),
 dict(id="s82-svg-far", prop="C34",
  edits=[("SvgWriter.py", "            data += \" \" + str(x) + \",\" + str(y)", "            data += \" %g,%g\" % (x, y)")],
  demo='''
p = pe.EmbPattern()
p.add_thread(1)
p.stitch_abs(1234567, 7)
p.end()
f = io.BytesIO()
pe.write_svg(p, f)
assert b"1234567" in f.getvalue().split(b" d=")[1], f.getvalue()
''', needs="a coordinate of seven digits", breaks="its last digits are lost"),
 dict(id="s83-pec-flag", prop="C25",
  edits=[("PecWriter.py", "            color_two = not color_two", "            color_two = False")],
  demo='''
p = pe.EmbPattern()
for i in range(5):
    p.add_thread(0x334455 * i)
    if i:
        p.color_change()
    p.stitch_abs(5 * i, 7)
    p.stitch_abs(5 * i, 2)
p.end()
f = io.BytesIO()
pe.write_pec(p, f)
b = f.getvalue()
assert [b[i + 2] for i in range(len(b) - 2) if b[i:i+2] == bytes((0xFE, 0xB0))] == [2, 1, 2, 1]
''', needs="three colour changes", breaks="the change records stop alternating"),
]
