from .common import *
from .C24 import bytes_of
from .C25 import flat

BOUNDS = ("DST names of up to 4 and author, copyright, thread description and catalogue texts of up to 3 symbolic printable characters, each also absent, author, copyright and thread texts of 100 to 1200 bytes of ASCII and longer characters around the end of the header, 0 to 3 threads with symbolic 24-bit "
          "colours; PEC labels of up to 8 characters and of 12 (the format keeps 8), the pictures of designs with 1 to 3 blocks; hand-laid PES files of the twelve header versions and an unknown one with each text absent or of 1 to 2 "
          "(thorough 3) symbolic characters, 0 to 3 threads with symbolic colours and texts against 1 to 3 blocks with 6 colour bytes, symbolic stitches; every PEC colour byte; G-code comments with "
          "up to 3 arbitrary printable characters in a metadata text, thread colours symbolic; SHV names of up to 4 characters.")
OUTSIDE = "texts with a comma or a line break in the DST extended header, which separate its fields; texts that start or end with spaces in DST and PEC; PES headers with programmable fills, motifs or feather patterns beyond skipping them."
DEADLINE = 110


def word(ctx, name, n, lo=33, hi=126):
    return sym_text(ctx, name, n, lo, hi)


def maybe(ctx, name, sizes=(None, 2), lo=33):
    n = ctx.choose(name + "_n", list(sizes))
    return None if n is None else word(ctx, name, n, lo)


def alike(ctx, a, b, what):
    if a is None or b is None:
        if a is not None or b is not None:
            ctx.fail("%s: %s, expected %s" % (what, "absent" if a is None else "a text", "none" if b is None else "one"))
        return
    ctx.check(ctx.any([a == b]), what + " changed")


def dst(ctx, part, nt, extended=True):
    pe = ctx.pe
    ops = [("S", 0, 0), ("S", ctx.int("x", -9, 9), 3)]
    for i in range(1, nt):
        ops += [("C", None, None), ("S", 9, 3 * i)]
    cols = [ctx.int("col%d" % i, 0, 0xFFFFFF) for i in range(nt)]
    p = build(ctx, ops, [])
    want = []
    for i, c in enumerate(cols):
        t = pe.EmbThread()
        t.color = c
        d = maybe(ctx, "desc%d" % i, (None, 1, 3), 45) if part == "thread%d" % i else "d%d" % i
        k = maybe(ctx, "cat%d" % i, (None, 1, 3), 45) if part == "thread%d" % i else None
        t.description, t.catalog_number = d, k
        want.append((d, k))
        p.threadlist.append(t)
    name = maybe(ctx, "name", (None, 1, 4)) if part == "name" else None
    au = maybe(ctx, "author", (None, 1, 3)) if part == "texts" else None
    cp = maybe(ctx, "copyright", (None, 1, 3)) if part == "texts" else None
    for k, v in (("name", name), ("author", au), ("copyright", cp)):
        if v is not None:
            p.metadata(k, v)
    q, _ = roundtrip(ctx, "dst", p, {"version": "extended"} if extended else None)
    alike(ctx, q.get_metadata("name"), "Untitled" if name is None else name, "DST name")
    alike(ctx, q.get_metadata("author"), au if extended else None, "DST author")
    alike(ctx, q.get_metadata("copyright"), cp if extended else None, "DST copyright")
    if extended and nt:
        if len(q.threadlist) != nt:
            ctx.fail("DST: %d threads became %d" % (nt, len(q.threadlist)))
        for t, c, (d, k) in zip(q.threadlist, cols, want):
            ctx.check(ctx.eq(t.color & 0xFFFFFF, c), "DST thread colour changed")
            alike(ctx, t.description, d, "DST thread description")
            alike(ctx, t.catalog_number, k, "DST thread catalogue number")
    ctx.cover("end")


def dst_full(ctx, ch):
    """texts that fill the header or do not fit never reach the stitches"""
    pe = ctx.pe
    ops = [("S", 0, 0), ("S", ctx.int("x", -9, 9), 3), ("C",), ("S", 9, 3)]
    p = build(ctx, ops, [0x112233, 0x445566])
    size = len(ch.encode("utf8"))
    n = ctx.choose("bytes", [100, 250, 300] + list(range(340, 420, 3)) + [500, 520, 1200]) // size
    part = ctx.choose("part", ["author", "copyright", "thread"])
    if part == "thread":
        p.threadlist[1].description = ch * n
    else:
        p.metadata(part, ch * n)
    q, f = roundtrip(ctx, "dst", p, {"version": "extended"})
    b = flat(ctx, f)
    if len(b) != 512 + 3 * len([s for s in q.stitches]):
        ctx.fail("DST: %d bytes for %d records" % (len(b), len(q.stitches)))
    got = [(s[0], s[1]) for s in q.stitches if (s[2] & MASK) == pe.STITCH]
    if len(got) != 3:
        ctx.fail("DST: %d stitches for 3" % len(got))
    ctx.check(ctx.eq((got[0][0], got[0][1], got[1][0], got[1][1], got[2][0], got[2][1]), (0, 0, ops[1][1], 3, 9, 3)), "DST: a text of the header changed the stitches")
    if part != "thread":
        have = q.get_metadata(part)
        if have is not None and have != ch * n or have is None and n * size <= 340:
            ctx.fail("DST: a text of %d bytes was cut or lost" % (n * size))
    ctx.cover("end")


def tc(ctx, form):
    """thread lines as other programs write them"""
    h = b"LA:x\r" + form[0] + b"\r"
    f = ctx.stream(h + b"\x1a" + b" " * (511 - len(h)) + b"\x81\x00\x03\x00\x00\xF3")
    q = ctx.pe.read_dst(f)
    got = [(t.color & 0xFFFFFF, t.description, t.catalog_number) for t in q.threadlist]
    ctx.check(got == [form[1]], "DST thread line %r read as %r" % (form[0], got))
    ctx.cover("end")


TC = [(b"TC:#112233,Leaf,77", (0x112233, "Leaf", "77")), (b"TC: 445566 , Leaf , 77", (0x445566, "Leaf", "77")), (b"TC:#112233,Leaf", (0x112233, "Leaf", None)),
      (b"TC:#112233", (0x112233, None, None)), (b"TC:#112233,,", (0x112233, None, None)), (b"TC:#112233,,9", (0x112233, None, "9"))]


def pec(ctx, n, blocks, fmt):
    """label, and the pictures with their threads"""
    pe = ctx.pe
    ops = [("S", 0, 0)]
    for i in range(blocks):
        if i:
            ops.append(("C", None, None))
        ops += [("S", 5 * i, 3), ("S", 9, 5 + i)]
    # each colour is a palette colour, so the thread is its own nearest entry
    pal = pe.EmbThreadPec.get_thread_set()
    ids = [[3, 9, 30], [64, 1, 20]][ctx.choose("ids", [0, 1])]
    p = build(ctx, ops, [pal[i].color for i in ids[:blocks]])
    name = word(ctx, "label", n) if n else None
    if name is not None:
        p.metadata("name", name)
    drawn = []

    def mark(bounds, points, graphic, stride, buffer=5):
        graphic[6 * 20 + len(drawn)] = 0x55
        drawn.append(1)
    with ctx.stub("PecWriter", "draw_scaled", mark):
        q, f = roundtrip(ctx, fmt, p, {"version": 1} if fmt == "pes" else None)
    alike(ctx, q.get_metadata("Name"), "Untitled" if name is None else name[:8], "PEC label")
    b = flat(ctx, f)
    size = 6 * 38
    g = b[len(b) - size * (blocks + 1):] if fmt == "pec" else None
    for i in range(blocks + 1):
        v = q.get_metadata("pec_graphic_%d" % i)
        if v is None or len(v) != 3 or len(v[0]) != size or v[1] != 6:
            ctx.fail("PEC picture %d missing or of another size" % i)
        if g is not None:
            ctx.check(ctx.eq(list(v[0]), g[i * size:(i + 1) * size]), "PEC picture %d differs from the file" % i)
        if i == 0 and v[2] is not None or i and (v[2] is None or v[2].color != pal[ids[i - 1]].color):
            ctx.fail("PEC picture %d has another thread" % i)
    if q.get_metadata("pec_graphic_%d" % (blocks + 1)) is not None:
        ctx.fail("PEC: too many pictures")
    if [t.color for t in q.threadlist] != [pal[i].color for i in ids[:blocks]]:
        ctx.fail("PEC threads")
    ctx.cover("end")


VERSIONS = {"#PES0001": 1, "#PES0020": 2, "#PES0022": 2.2, "#PES0030": 3, "#PES0040": 4, "#PES0050": 5, "#PES0055": 5.5, "#PES0056": 5.6, "#PES0060": 6,
            "#PES0070": 7, "#PES0080": 8, "#PES0090": 9, "#PES0100": 10, "#PES0077": None, "#PEC0001": 0}
TEXT_KEYS = ["name", "category", "author", "keywords", "comments"]


def codes(t):
    """character codes of a text"""
    if t is None:
        return []
    return [ord(c) for c in t] if isinstance(t, str) else list(t.s)


def field(t):
    c = codes(t)
    return [len(c)] + c


def junk(n):
    """bytes a reader has to step over"""
    return [(7 * i + 0x81) & 0xFF or 1 for i in range(n)]


def block(colour_bytes, moves, changes):
    """a PEC block of one stitch per colour"""
    b = [76, 65, 58] + [ord(c) for c in "label".ljust(16)] + [0x20] * 13 + [0xFF, 0]
    b += [6, 38] + junk(12) + [len(colour_bytes) - 1] + list(colour_bytes)
    b += [0x20] * (514 - len(b))
    st = []
    for i, (dx, dy) in enumerate(moves):
        if i in changes:
            st += [0xFE, 0xB0, 2 - i % 2]
        st += [dx & 0x7F, dy & 0x7F]
    st += [0xFF, 0]
    n = len(st) + 16
    b += [n & 255, n >> 8, 0, 0x31, 0xFF, 0xF0] + junk(8) + st
    for i in range(len(colour_bytes) + 1):
        b += [i] * 228
    return b


def pes(ctx, magic, which, nt, nb, cols, skip=None):
    pe = ctx.pe
    v = VERSIONS[magic]
    pal = pe.EmbThreadPec.get_thread_set()
    sizes = (None, 1, 2)
    tx = {}

    def text(key, part):
        tx[key] = maybe(ctx, key.replace(" ", ""), sizes) if which == part else "abc"[:len(key) % 4]
        if tx[key] is not None and len(tx[key]) == 0:
            tx[key] = None
        return field(tx[key])
    h = [ord(c) for c in magic]
    threads = []
    image = hoop = None
    if v != 0:
        h += [0, 0, 0, 0]
        if v is not None and v >= 4:
            h += junk(4)
            for k in TEXT_KEYS:
                h += text(k, k)
            if v >= 5:
                lead, tail = (24, 24) if v < 6 else (36, 24) if v < 8 else (38, 26) if v == 8 else (30, 34) if v == 9 else (38, 34)
                if v >= 9:
                    h += junk(14) + text("hoop_name", "hoop")
                h += junk(lead) + text("image" if v < 6 else "image_file", "image") + junk(tail)
                counts = [0, 0, 0]
                if skip is not None:
                    counts[skip] = 1
                h += sum(([c, 0] for c in counts), [])
                h += [nt & 255, nt >> 8]
                for i in range(nt):
                    c = ctx.int("col%d" % i, 0, 0xFFFFFF) if i < 3 or i > nt - 3 else 0x10203 * (i % 80)
                    t = [maybe(ctx, "t%d%s" % (i, k), sizes) if which == "thread" + k and i < 2 else "%s%d" % (k, i) for k in ("cat", "desc", "brand", "chart")]
                    h += field(t[0]) + [c >> 16, c >> 8 & 255, c & 255] + junk(5) + field(t[1]) + field(t[2]) + field(t[3])
                    threads.append((c, t))
        h += junk(11)
        at = len(h)
        h[8:12] = [at & 255, at >> 8, 0, 0]
    moves = [(ctx.int("x%d" % i, -63, 63), ctx.int("y%d" % i, -63, 63)) for i in range(nb)]
    for x, y in moves:
        ctx.assume(x != -1)          # FF 00 would end the block
    h += block(cols, moves, range(1, nb))
    f = ctx.stream(bytes_of(ctx, h))
    q = pe.read_pes(f)
    if q.get_metadata("version") != (v or None):
        ctx.fail("PES version %r, expected %r" % (q.get_metadata("version"), v))
    for k in TEXT_KEYS + ["hoop_name", "image", "image_file"]:
        alike(ctx, q.get_metadata(k), tx.get(k), "PES " + k)
    alike(ctx, q.get_metadata("Name"), "label", "PEC label")
    # the threads; the palette has no entry 0
    entries = [(t.color if t is not None else 0, None) for t in pal]

    def known(c):
        return entries[c % 65]
    if skip is not None:
        threads = []
    want = []
    if not threads:
        want = [known(c) for c in cols]
    elif len(threads) >= len(cols):
        want = threads
    else:
        seen, left = {}, list(threads)
        for c in cols:
            c %= 65
            if c not in seen:
                seen[c] = left.pop(0) if left else known(c)
            want.append(seen[c])
    # neighbouring equal threads are read as a stop
    keep = [w for i, w in enumerate(want) if i == 0 or w is not want[i - 1]]
    if len(q.threadlist) != len(keep):
        ctx.fail("PES: %d threads, expected %d" % (len(q.threadlist), len(keep)))
    for t, (c, texts) in zip(q.threadlist, keep):
        ctx.check(ctx.eq(t.color & 0xFFFFFF, c & 0xFFFFFF), "PES thread colour")
        if texts is not None:
            for a, w in zip((t.catalog_number, t.description, t.brand, t.chart), texts):
                alike(ctx, a, w, "PES thread text")
    # the design
    exp, x, y = [], 0, 0
    for i, (dx, dy) in enumerate(moves):
        if i:
            stop = want[i] is want[i - 1] if len(want) >= nb else False
            exp.append((pe.STOP if stop else pe.COLOR_CHANGE, x, y))
        x, y = x + dx, y + dy
        exp.append((pe.STITCH, x, y))
    exp.append((pe.END, x, y))
    got = [(s[2] & MASK, s[0], s[1]) for s in q.stitches]
    if [g[0] for g in got] != [e[0] for e in exp]:
        ctx.fail("PES: commands %r, expected %r" % ([g[0] for g in got], [e[0] for e in exp]))
    ctx.check(ctx.eq([g[1:] for g in got], [e[1:] for e in exp]), "PES: positions")
    for i in range(len(cols) + 1):
        g = q.get_metadata("pec_graphic_%d" % i)
        if g is None or list(g[0]) != [i] * 228 or g[1] != 6:
            ctx.fail("PES: picture %d" % i)
    ctx.cover("end")


def palette(ctx):
    """every colour byte"""
    pe = ctx.pe
    pal = pe.EmbThreadPec.get_thread_set()
    c = ctx.int("c", 0, 255)
    f = ctx.stream(bytes_of(ctx, [ord(x) for x in "#PEC0001"] + block([c], [(3, 4)], ())))
    q = pe.read_pec(f)
    if len(q.threadlist) != 1:
        ctx.fail("PEC: %d threads" % len(q.threadlist))
    ctx.check(ctx.any([ctx.all([c % len(pal) == i, (0 if t is None else t.color) == q.threadlist[0].color]) for i, t in enumerate(pal)]), "PEC: colour byte")
    ctx.cover("end")


def gcode(ctx, n, nt):
    pe = ctx.pe
    xs = [(ctx.int("x%d" % i, -30, 30), ctx.int("y%d" % i, -30, 30)) for i in range(2)] if n == 0 else [(-37, 5), (ctx.int("x", 0, 9), 100)]
    p = build(ctx, [("S",) + xs[0], ("C", None, None), ("S",) + xs[1]], [])
    cols = [ctx.int("col%d" % i, 0, 0xFFFFFF) for i in range(nt)]
    for c in cols:
        t = pe.EmbThread()
        t.color = c
        p.threadlist.append(t)
    where = ctx.choose("where", ["title", "thread"] if nt else ["title"])
    parts = []
    for i in range(n):
        k = ctx.choose("k%d" % i, ["sym", "(", ")", "\n", "Thread", " G20 ", ";"])
        parts.append(word(ctx, "t%d" % i, 1, 32) if k == "sym" else k)
    txt = ""
    for s in parts:
        txt = txt + s
    if where == "title":
        p.metadata("title", txt)
        p.metadata("Threads", "none")
    else:
        p.threadlist[0].description = txt
    f = ctx.stream()
    pe.write_gcode(p, f)
    f.seek(0)
    q = pe.read_gcode(f)
    if len(q.threadlist) != max(nt, 2):        # one filled in for each block without
        ctx.fail("G-code: %d threads, expected %d" % (len(q.threadlist), max(nt, 2)))
    ctx.check(ctx.eq([t.color & 0xFFFFFF for t in q.threadlist[:nt]], cols), "G-code: thread colours")
    got = [(s[0], s[1]) for s in q.stitches if s[2] & MASK == pe.STITCH]
    if len(got) != 2 or [s[2] & MASK for s in q.stitches] != [pe.STITCH, pe.COLOR_CHANGE, pe.STITCH, pe.END]:
        ctx.fail("G-code: commands %r" % [s[2] & MASK for s in q.stitches])
    d = [g[i] - e[i] for g, e in zip(got, xs) for i in (0, 1)]
    ctx.check(ctx.all([ctx.all([v <= 0.001, v >= -0.001]) for v in d]), "G-code: positions")
    ctx.cover("end")


def shv(ctx, n):
    name = word(ctx, "name", n) if n else None
    w, h = ctx.choose("icon", [(4, 3), (2, 2), (1, 1)])
    c = ctx.choose("code", [0, 1, 42, 43, 255])
    x, y = ctx.int("x", -99, 99), ctx.int("y", -99, 99)
    b = junk(0x56) + field(name) + [w, h] + junk(4 + (h + 1) // 2 * w) + [1] + junk(18) + [0, 0, 0, 9, c] + junk(7) + [x & 255, y & 255]
    q = ctx.pe.read_shv(ctx.stream(bytes_of(ctx, b))) if hasattr(ctx.pe, "read_shv") else ctx.pe.EmbPattern.read_embroidery(ctx.module("ShvReader"), ctx.stream(bytes_of(ctx, b)))
    if n:
        alike(ctx, q.get_metadata("name"), name, "SHV name")
    pal = ctx.module("EmbThreadShv").get_thread_set()
    if [t.color for t in q.threadlist] != [pal[c % len(pal)].color]:
        ctx.fail("SHV thread")
    ctx.check(ctx.eq(list(q.stitches[0][:2]), [x, y]), "SHV: stitches found in the wrong place")
    ctx.cover("end")


def harnesses(tier):
    t = tier == "thorough"
    hs = []

    def add(name, fn, weight=1, **kw):
        hs.append(Harness(name, fn, kw, ["end"], weight=weight))
    for nt in range(4):
        add("dst_name%d" % nt, dst, part="name", nt=nt)
        add("dst_texts%d" % nt, dst, part="texts", nt=nt)
        for i in range(nt):
            add("dst_thread%d_%d" % (nt, i), dst, part="thread%d" % i, nt=nt)
    for i, ch in enumerate("x\u00e9\u20ac"):
        add("dst_full%d" % i, dst_full, ch=ch)
    add("dst_plain_name", dst, part="name", nt=2, extended=False)
    add("dst_plain_texts", dst, part="texts", nt=2, extended=False)
    for i, form in enumerate(TC):
        add("tc%d" % i, tc, form=form)
    for n in list(range(0, 9, 1 if t else 2)) + [12]:
        add("label%d" % n, pec, n=n, blocks=1 + n % 3, fmt="pec")
        add("pes_label%d" % n, pec, n=n, blocks=1 + n % 3, fmt="pes")
    add("palette", palette)
    for m, v in VERSIONS.items():
        parts = ["none"]
        if v is not None and v >= 4:
            parts += TEXT_KEYS
        if v is not None and v >= 5:
            parts += ["image", "threadcat", "threaddesc", "threadbrand", "threadchart"] + (["hoop"] if v >= 9 else [])
        for w in parts:
            add("%s_%s" % (m[1:], w), pes, magic=m, which=w, nt=2, nb=2, cols=[5, 9])
        if v is None or v < 5:
            continue
        for nt in (0, 1, 2, 3):
            for j, cols in enumerate(([7], [7, 8], [7, 8, 7], [64, 65, 255], [7, 7, 8])):
                if (nt, j) in ((2, 1),) or not t and v not in (5, 6, 9) and (nt + j) % 3:
                    continue
                add("%s_t%d_%d" % (m[1:], nt, j), pes, magic=m, which="none", nt=nt, nb=len(cols), cols=cols)
        add("%s_many" % m[1:], pes, magic=m, which="none", nt=300, nb=1, cols=[5])
        for s in range(3):
            add("%s_skip%d" % (m[1:], s), pes, magic=m, which="none", nt=2, nb=2, cols=[5, 9], skip=s)
    for n in range(4):
        for nt in ((0, 2) if not t else (0, 1, 2, 3)):
            if n < 3 or t:
                add("gcode%d_%d" % (n, nt), gcode, 2, n=n, nt=nt)
    for n in range(5):
        add("shv%d" % n, shv, n=n)
    return hs
