import os, runpy
RT = runpy.run_path(os.path.join(os.path.dirname(__file__), "b1.py"))["RT"]
SEEDS = [
 dict(id="s27-decode-order", prop="C15",
  edits=[("EmbFunctions.py", "    order = command & ORDER_MASK\n    order >>= 24\n    order -= 1", "    order = command & 0x7F000000\n    order >>= 24\n    order -= 1")],
  demo='''
assert decode_embroidery_command(encode_thread_change(COLOR_CHANGE, 1, 2, 200)) == (COLOR_CHANGE, 1, 2, 200)
''', needs="an order index above 126", breaks="the order index loses its top bit on unpacking"),
 dict(id="s28-csv-order-zero", prop="C17",
  edits=[("CsvWriter.py", "        if command[3] is not None:\n            name = name + \" o\"", "        if command[3]:\n            name = name + \" o\"")],
  demo='''
p = EmbPattern()
p.add_stitch_absolute(encode_thread_change(SET_CHANGE_SEQUENCE, 3, None, 0), 0, 0)
p.add_stitch_absolute(STITCH, 1, 2)
d = tempfile.mkdtemp()
try:
    pe.write_csv(p, d + "/a.csv")
    q = pe.read_csv(d + "/a.csv")
    assert decode_embroidery_command(q.stitches[0][2])[3] == 0, q.stitches
finally:
    import shutil
    shutil.rmtree(d)
''', needs="a thread-change command for order 0", breaks="the order index 0 is dropped from the CSV"),
 dict(id="s32-jef-hoop", prop="C25",
  edits=[("JefWriter.py", "        elif data == TRIM:\n            if trims:\n                point_count += 2 * command_count_max\n", "        elif data == TRIM:\n            if trims:\n                point_count += 2 * 3\n")],
  demo='''
import struct
p = EmbPattern()
for x, y, c in [(0, 0, STITCH), (9, 4, STITCH), (9, 4, TRIM), (30, 9, STITCH), (33, 9, STITCH), (33, 9, END)]:
    p.add_stitch_absolute(c, x, y)
f = io.BytesIO()
pe.write_jef(p, f, {"trims": True, "trim_at": 5})
b = f.getvalue()
off = struct.unpack("<i", b[:4])[0]
n = struct.unpack("<i", b[28:32])[0]
k, i = 0, off
while i < len(b):
    k += 1
    if b[i] == 0x80:
        k += b[i + 1] != 0x10
        i += 2 if b[i + 1] == 0x10 else 4
    else:
        i += 2
assert n == k, (n, k)
''', needs="trims written as commands with a trim_at setting other than 3", breaks="the record count in the header disagrees with the records"),
 dict(id="s34-preview-centre", prop="C27",
  edits=[("PecGraphics.py", "    cy = (bottom + top) / 2", "    cy = (bottom + top) / 2 if bottom + top > 0 else (bottom - top) / 2")],
  demo='''
import pyembroidery.PecGraphics as G
g = [0] * 228
G.draw_scaled((0, -400, 300, -100), [(0, -400, 0), (300, -100, 0)], g, 6)
q = [divmod(i * 8 + k, 48) for i in range(228) for k in range(8) if g[i] >> k & 1]
assert len(q) == 2 and all(2 <= y <= 35 for y, x in q), q
''', needs="a design lying mostly above the origin", breaks="its preview is drawn off the picture"),
 dict(id="s35-settings-inplace", prop="C28",
  edits=[("EmbPattern.py", "        settings = settings.copy()", "        settings = settings if \"encode\" in settings else settings.copy()")],
  demo='''
p = EmbPattern()
p.add_thread("red")
p += [(0, 0), (9, 9)]
s = {"encode": True}
pe.write_dst(p, io.BytesIO(), s)
assert s == {"encode": True}, s
''', needs="writing with the encode setting given", breaks="the caller's settings mapping is filled in with the format's limits"),
 dict(id="s36-eq-weight", prop="C29",
  edits=[("EmbThread.py", "        if self.weight != other.weight:\n            return False\n        return True", "        if self.weight != other.weight and self.chart is None:\n            return False\n        return True")],
  demo='''
a = EmbThread("red")
b = EmbThread("red")
a.chart = b.chart = "Rayon"
a.weight, b.weight = "40", "60"
assert a != b
''', needs="two threads of one chart that differ in weight only", breaks="they compare equal"),
 dict(id="s39-inf-utf8", prop="C32",
  edits=[("InfWriter.py", "            f, 11 + len(details) + len(chart)", "            f, 11 + len(details.decode(\"utf8\")) + len(chart)")],
  demo='''
p = EmbPattern()
p.add_thread({"color": 0x112233, "description": "gr\\u00fcn", "chart": "A"})
p.add_thread({"color": 0x445566, "description": "b", "chart": "B"})
f = io.BytesIO()
from pyembroidery import InfWriter, InfReader
EmbPattern.write_embroidery(InfWriter, p, f)
f.seek(0)
q = EmbPattern.read_embroidery(InfReader, f)
assert [(t.color & 0xFFFFFF, t.description, t.chart) for t in q.threadlist] == [(0x112233, "gr\\u00fcn", "A"), (0x445566, "b", "B")], q.threadlist
''', needs="a thread name with a character of more than one UTF-8 byte", breaks="the record is declared too short and the next one is misread"),
 dict(id="s40-hus-overlap", prop="C33",
  edits=[("EmbCompress.py", "                if back > length:", "                if back >= length - 1:")],
  demo='''
import pyembroidery.EmbCompress as C
class E(C.EmbCompress):
    def __init__(s, toks):
        super().__init__()
        s.t = list(toks)
    def get_token(s):
        v = s.t.pop(0)
        s.bit_position += 1
        return v
    def get_position(s):
        return 2
o = E([1, 2, 3, 257, 510]).decompress(bytes(9), 99)
assert list(o) == [1, 2, 3, 1, 2, 3, 1], o
''', needs="a back-reference one longer than its distance", breaks="the run is one byte short: everything after it is shifted"),
 dict(id="s41-gcode-inch", prop="C34",
  edits=[("GcodeReader.py", "                scale = 254  # g20", "                scale = 254 if absolute_mode else 25.4  # g20")],
  demo='''
q = pe.read_gcode(io.BytesIO(b"G91\\nG20\\nG0 X1 Y2\\nM30\\n"))
assert [round(v) for v in q.stitches[0][:2]] == [-254, -508], q.stitches
''', needs="inches chosen after relative positioning", breaks="inches are read as tenths"),
 dict(id="s42-png-steep", prop="C35",
  edits=[("PngWriter.py", "            fraction = dx - (dy >> 1)", "            fraction = dx - (dx >> 1)")],
  demo='''
from pyembroidery.PngWriter import PngBuffer
b = PngBuffer(40, 60)
b.line_width, b.fancy = 1, False
pts = []
b.plot = lambda x, y, *a: pts.append((x, y))
b.draw_line(5, 5, 15, 45)
assert (15, 45) in pts and all(abs((x - 5) * 40 - (y - 5) * 10) <= 20 for x, y in pts), pts
''', needs="a line steeper than it is wide", breaks="the line steps sideways too early: it is up to a pixel off"),
 dict(id="s43-generic-trim-close", prop="C36",
  edits=[("GenericWriter.py", "        if self.color_closing:\n            self.color_closing = False\n            if self.color_end is not None:", "        if self.color_closing:\n            self.color_closing = self.document_closing\n            if self.color_end is not None:")],
  demo='''
p = EmbPattern()
p.add_thread("red")
for x, y, c in [(0, 0, STITCH), (5, 5, STITCH), (5, 5, END), (9, 9, STITCH), (9, 9, END)]:
    p.add_stitch_absolute(c, x, y)
f = io.BytesIO()
from pyembroidery.GenericWriter import GenericWriter
GenericWriter(p, f, {"encode": False, "segment": "s", "color_start": "(", "color_end": ")", "document_start": "[", "document_end": "]"}).write()
t = f.getvalue().decode()
assert t.count("(") == t.count(")"), t
''', needs="a second sewn document after an end command", breaks="the colour scope is closed twice"),
]
