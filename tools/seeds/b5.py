exec(open("/verif/tools/seeds/b3.py").read().split("SEEDS")[0])
SEEDS = [
 dict(id="s44-pec-clamp", prop="C39",
  edits=[("PecReader.py", "        thread_value = thread_set[byte % max_value]\n", "        thread_value = thread_set[min(byte, max_value - 1)]\n")],
  demo='''
q = pe.EmbPattern()
importlib = __import__("importlib")
P = importlib.import_module("pyembroidery.PecReader")
P.process_pec_colors(bytearray([70]), q, [])
assert q.threadlist[0].color == importlib.import_module("pyembroidery.EmbThreadPec").get_thread_set()[5].color, q.threadlist
''', needs="a colour byte beyond the palette", breaks="the colour no longer wraps round"),
 dict(id="s45-shared-sew", prop="C39",
  edits=[("SewReader.py", "def read(f, out, settings=None):\n    threads = get_thread_set()\n", "THREADS = get_thread_set()\n\n\ndef read(f, out, settings=None):\n    threads = THREADS\n")],
  demo='''
h = bytes([1, 0, 3, 0])
d = h + bytes(0x1D78 - 4) + bytes([5, 5])
S = __import__("pyembroidery.SewReader", fromlist=["x"])
a = pe.EmbPattern.read_embroidery(S, io.BytesIO(d))
c = a.threadlist[0].color
a.threadlist[0].color = 0x123456
b = pe.EmbPattern.read_embroidery(S, io.BytesIO(d))
assert b.threadlist[0].color == c, b.threadlist
''', needs="changing a thread of one design and reading another one", breaks="the next design has the changed colour"),
 dict(id="s46-tbf-order", prop="C40",
  edits=[("TbfReader.py", "list(f.read(0x100))", "list(f.read(0x60))")],
  demo='''
h = bytearray(0x600)
h[0x10A:0x20A] = bytes([1, 2] * 128)
d = bytes(h) + bytes([0, 0, 0x81, 5, 5, 0x80] * 120) + bytes([0, 0, 0x8F])
q = pe.read_tbf(io.BytesIO(d))
n = [s for s in q.stitches if s[2] & 255 == NEEDLE_SET]
assert len(n) == 120, len(n)
''', needs="a design with more than 96 needle changes", breaks="it cannot be read"),
 dict(id="s47-exp-colour-move", prop="C40",
  edits=[("ExpReader.py", "            out.color_change()\n            if x != 0 or y != 0:\n", "            out.color_change()\n            if x != 0 and y != 0:\n")],
  demo='''
q = pe.read_exp(io.BytesIO(bytes([5, 5, 0x80, 1, 7, 0, 5, 5])))
assert q.stitches[-1][0] == 17, q.stitches
''', needs="a colour change with a displacement along one axis", breaks="the rest of the design is displaced"),
 dict(id="s48-pec-2047", prop="C40",
  edits=[("PecReader.py", "    b &= 0xFFF\n    if b > 0x7FF:", "    b &= 0xFFF\n    if b >= 0x7FF:")],
  demo='''
P = __import__("pyembroidery.PecReader", fromlist=["x"])
q = pe.EmbPattern()
P.read_pec_stitches(io.BytesIO(bytes([0x87, 0xFF, 5, 0xFF, 0])), q)
assert q.stitches[0][:2] == [2047, 5], q.stitches
''', needs="the largest displacement", breaks="it is read with the wrong sign"),
 dict(id="s49-pes56", prop="C37",
  edits=[("PesReader.py", '        out.metadata("version", 5.6)\n        read_pes_header_version_5(', '        out.metadata("version", 5.6)\n        read_pes_header_version_6(')],
  demo='''
p = pe.EmbPattern()
p.add_thread("red")
p += [(0, 0), (9, 9), (18, 0)]
f = io.BytesIO()
pe.write_pec(p, f)
pec = f.getvalue()[8:]
def s(t):
    return bytes([len(t)]) + t.encode()
h = b"#PES0056" + bytes(4) + bytes(4) + s("n") + s("") * 4 + bytes([9] * 24) + s("") + bytes([9] * 24) + bytes(6) + bytes([1, 0])
h += s("c") + bytes([1, 2, 3]) + bytes(5) + s("d") + s("b") + s("k")
h = h[:8] + len(h).to_bytes(4, "little") + h[12:]
q = pe.read_pes(io.BytesIO(h + pec))
assert q.threadlist[0].description == "d", q.threadlist
''', needs="a PES file of version 5.6", breaks="its threads are lost"),
 dict(id="s50-ext-case", prop="C38",
  edits=[("EmbPattern.py", '        extension = EmbPattern.get_extension_by_filename(filename)\n        extension = extension.lower()\n        supported_extensions', '        extension = EmbPattern.get_extension_by_filename(filename)\n        if extension.isupper():\n            extension = extension.lower()\n        supported_extensions')],
  demo='''
import os, tempfile
d = tempfile.mkdtemp()
p = pe.EmbPattern()
p += [(0, 0), (9, 9)]
p.end()
n = os.path.join(d, "a.Dst")
try:
    pe.write(p, n)
    assert os.path.exists(n)
finally:
    if os.path.exists(n):
        os.remove(n)
    os.rmdir(d)
''', needs="an extension in mixed case", breaks="the file is not written"),
 dict(id="s52-signed24", prop="C16",
  edits=[("ReadHelper.py", "    v &= 0xFFFFFF\n    if v > 0x7FFFFF:\n        return -0x1000000 + v", "    v &= 0xFFFFFF\n    if v > 0x7FFFFF:\n        return v - 0xFFFFFF - (v & 1)")],
  demo='''
H = __import__("pyembroidery.ReadHelper", fromlist=["x"])
assert H.signed24(0xFFFFFE) == -2 and H.signed24(0xFFFFFF) == -1, H.signed24(0xFFFFFE)
''', needs="an even negative number", breaks="it is one off"),
 dict(id="s53-xxx-c17", prop="C40",
  edits=[("XxxReader.py", "elif b2 == 0x08 or 0x0A <= b2 <= 0x17:", "elif b2 == 0x08 or 0x0A <= b2 < 0x17:")],
  demo='''
f = io.BytesIO(bytes(0x27) + bytes([1, 0]) + bytes(0x100 - 0x29) + bytes([5, 5, 0x7F, 0x17, 0, 0, 6, 6, 0x7F, 0x7F, 2, 0x14, 0, 0]) + bytes(8))
q = pe.read_xxx(f)
assert [s[2] & 255 for s in q.stitches] == [STITCH, COLOR_CHANGE, STITCH, END], q.stitches
''', needs="a change to the last colour", breaks="the change is dropped"),
]
