exec(open("/verif/tools/seeds/b3.py").read().split("SEEDS")[0])
SEEDS = [
 dict(id="s70-translate-break", prop="C14",
  edits=[("EmbEncoder.py", "                self.matrix.post_translate(self.stitch[0], self.stitch[1])", "                self.state_jumping = False\n                self.matrix.post_translate(*self.stitch[:2])")],
  demo='''
def enc(mid):
    p = pe.EmbPattern()
    p.add_thread(1)
    p.add_stitch_absolute(STITCH, 0, 0)
    p.add_command(STITCH_BREAK)
    for m in mid:
        p.add_command(*m)
    p.add_stitch_absolute(JUMP, 3, 4)
    p.add_stitch_absolute(STITCH, 5, 6)
    p.end()
    return p.get_normalized_pattern().stitches
assert enc([]) == enc([(MATRIX_TRANSLATE, 0, 0)])
''', needs="a translation command between a stitch break and the jumps it swallows", breaks="jumps the stitch break removes are emitted"),
 dict(id="s71-option-jump", prop="C10",
  edits=[("EmbEncoder.py", "                self.max_stitch = x", "                self.max_stitch, self.max_jump = x, max(x, self.max_jump)")],
  demo='''
p = pe.EmbPattern()
p.add_thread(1)
p.add_stitch_absolute(STITCH, 0, 0)
p.add_command(OPTION_MAX_STITCH_LENGTH, 40, 0)
p.add_stitch_absolute(JUMP, 100, 0)
p.end()
e = p.get_normalized_pattern({"max_stitch": 12, "max_jump": 12}).stitches
j = [0] + [s[0] for s in e if s[2] & COMMAND_MASK == JUMP]
assert max(b - a for a, b in zip(j, j[1:])) <= 12.001
''', needs="a stitch limit set in the design above the jump limit", breaks="jumps longer than the jump limit"),
 dict(id="s72-blocks-128", prop="C22",
  edits=[("EmbPattern.py", "                if colorblock_start != pos:\n                    thread = self.get_thread_or_filler(thread_index)\n                    thread_index += 1\n", "                if colorblock_start != pos:\n                    thread = self.get_thread_or_filler(thread_index)\n                    thread_index = min(thread_index + 1, 128)\n")],
  demo='''
p = pe.EmbPattern()
for i in range(140):
    p.add_thread(i)
    p.add_stitch_absolute(STITCH, i, 0)
    p.add_command(COLOR_BREAK)
assert [t.color for _, t in p.get_as_colorblocks()] == list(range(140))
''', needs="more than 128 colour blocks divided by colour breaks", breaks="later blocks get the wrong thread"),
 dict(id="s73-stop-place", prop="C21",
  edits=[("EmbPattern.py", "                    self.stitches[position][2] = thread_change_command\n                    thread_index += 1", "                    self.stitches[position] = self.stitches[position - 1][:2] + [thread_change_command]\n                    thread_index += 1")],
  demo='''
p = pe.EmbPattern()
p.add_thread(1)
p.add_stitch_absolute(STITCH, 0, 0)
p.add_stitch_absolute(STOP, 7, 8)
p.add_stitch_absolute(STITCH, 1, 1)
p.interpolate_stop_as_duplicate_color()
assert p.stitches == [[0, 0, STITCH], [7, 8, COLOR_CHANGE], [1, 1, STITCH]]
''', needs="a stop that stands away from the stitch before it", breaks="the change moves to the stitch before it"),
 dict(id="s74-long-line", prop="C35",
  edits=[("PngWriter.py", "        if dx > dy:\n            dy <<= 1", "        if dx > dy and dx < 256:\n            dy <<= 1")],
  demo='''
import pyembroidery.PngWriter as W
b = W.PngBuffer(320, 10)
b.line_width = 1
pts = []
b.plot = lambda x, y, v=None, a=None: pts.append((x, y))
b.draw_line(0, 0, 300, 5)
assert len(set(x for x, y in pts)) == 301
''', needs="a shallow line of more than 255 pixels", breaks="most of the line is not drawn"),
 dict(id="s75-pes-256", prop="C37",
  edits=[("PesReader.py", "    for i in range(0, count_threads):\n        read_pes_thread(f, threadlist)\n\n\ndef read_pes_header_version_8", "    for i in range(0, count_threads & 0xFF):\n        read_pes_thread(f, threadlist)\n\n\ndef read_pes_header_version_8")],
  demo='''
import io
text = lambda s: bytes([len(s)]) + s
h = b"#PES0070" + b"\\0" * 4 + b"\\1" * 4 + text(b"") * 5 + b"\\1" * 36 + text(b"") + b"\\1" * 24 + b"\\0" * 6 + b"\\x2c\\x01"
h += b"".join(text(b"c") + bytes([1, i & 255, 7]) + b"\\1" * 5 + text(b"d") + text(b"b") + text(b"h") for i in range(300))
at = len(h)
h = h[:8] + at.to_bytes(4, "little") + h[12:]
pec = b"LA:label           " + b" " * 13 + b"\\xff\\0" + b"\\6\\x26" + b" " * 12 + b"\\0\\5"
pec += b" " * (514 - len(pec)) + b"\\x14\\0\\0\\x31\\xff\\xf0" + b"\\1" * 8 + b"\\5\\6\\xff\\0"
p = pe.read_pes(io.BytesIO(h + pec + b"\\0" * 456))
assert len(p.threadlist) == 300, len(p.threadlist)
''', needs="a header of more than 255 threads", breaks="the threads after them are lost"),
]
