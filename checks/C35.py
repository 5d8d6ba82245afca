import zlib
from .common import *

BOUNDS = ("whole images: designs of 2 or 3 stitches, of two stitched lines separated by a trim or a colour change and of a jump between stitches, with relative symbolic positions up to 4 (thorough 7) units apart and a symbolic place in [-500,500], line widths 1 to 7 and default, "
          "with and without background; lines alone: every line of up to 12 (thorough 24) units either way from a symbolic start, plain and fancy; single pixels anywhere in and around a canvas in any colour; "
          "the shading of any position in [0,1]; the file form of canvases up to 3 x 3 with symbolic pixels; guides on canvases of a few sizes.")
OUTSIDE = ("larger canvases as a whole (their pixels come from the lines decided alone and from the pixel writes decided alone); zlib's compression and its checksum function themselves (called by the "
           "writer; the encoding stands in for them and the stand-in records what was checksummed and compressed, the real run decompresses).")
DEADLINE = 150


class Zlib:
    """stands for zlib in the encoding: stores instead of compressing, and names each checksum"""
    error = zlib.error

    def __init__(self):
        self.seen = {}

    def compress(self, data, *a, **k):
        return data

    def decompress(self, data, *a, **k):
        return data

    def crc32(self, data, start=0):
        v = 0x51000000 + len(self.seen)
        self.seen[v] = (list(self.seen[start]) if start in self.seen else []) + items(data)
        return v


def items(d):
    b = getattr(d, "b", None)
    return list(b) if b is not None else list(d)


def be(b):
    v = 0
    for x in b:
        v = v * 256 + x
    return v


def decode(ctx, data, z):
    """width, height and rows of RGBA pixels of a PNG file"""
    d = items(data)
    if d[:8] != [0x89, 80, 78, 71, 13, 10, 26, 10]:
        ctx.fail("png: signature")
    i, tags, chunks, conds = 8, [], [], []
    while i < len(d):
        n = be(d[i:i + 4])
        tag = bytes(d[i + 4:i + 8])
        body, crc = d[i + 8:i + 8 + n], be(d[i + 8 + n:i + 12 + n])
        if len(body) != n or len(d) < i + 12 + n:
            ctx.fail("png: chunk %r runs past the end" % tag)
        if ctx.symbolic:
            if crc not in z.seen:
                ctx.fail("png: checksum of %r" % tag)
            conds.append(ctx.eq(z.seen[crc], d[i + 4:i + 8 + n]))
        elif crc != zlib.crc32(tag + bytes(body)):
            ctx.fail("png: checksum of %r" % tag)
        tags.append(tag)
        chunks.append(body)
        i += 12 + n
    if tags != [b"IHDR", b"IDAT", b"IEND"] or len(chunks[0]) != 13 or chunks[2]:
        ctx.fail("png: chunks %r" % tags)
    w, h = be(chunks[0][:4]), be(chunks[0][4:8])
    if chunks[0][8:] != [8, 6, 0, 0, 0]:
        ctx.fail("png: not 8 bit RGBA without interlacing")
    raw = chunks[1] if ctx.symbolic else list(zlib.decompress(bytes(chunks[1])))
    if len(raw) != h * (4 * w + 1):
        ctx.fail("png: %d bytes of pixels for %d x %d" % (len(raw), w, h))
    rows = []
    for y in range(h):
        r = raw[y * (4 * w + 1):(y + 1) * (4 * w + 1)]
        conds.append(r[0] == 0)
        rows.append([tuple(r[1 + 4 * x:5 + 4 * x]) for x in range(w)])
    ctx.check(ctx.all(conds), "png: checksums or filter bytes")
    return w, h, rows


def shown(c):
    """the colour a thread is drawn in: its own, and dark grey for black"""
    r, g, b = c >> 16 & 255, c >> 8 & 255, c & 255
    return (35, 35, 35) if c == 0 else (r, g, b)


def cover(L, px, py, w, sure):
    """is the pixel painted by a w wide line? sure: it must be; otherwise: it may be"""
    (x0, y0), (x1, y1) = L
    dx, dy, qx, qy = x1 - x0, y1 - y0, px - x0, py - y0
    left = w >> 1
    for flat in (True, False):  # offsets run across the longer direction
        a, b, da, db = (qx, qy, dx, dy) if flat else (qy, qx, dy, dx)
        if abs(da) < abs(db) or (sure and da and abs(da) == abs(db)):
            continue
        if not min(0, da) <= a <= max(0, da):
            continue
        for o in range(-left, w - left):
            if sure and not da and o:
                continue
            e = 2 * abs((b - o) * da - a * db)  # twice the minor distance times da
            if (b == o) if not da else (e < abs(da)) if sure else (e <= abs(da)):
                return True
    # the middle of a diagonal
    return abs(dx) == abs(dy) and qx * dy == qy * dx and min(0, dx) <= qx <= max(0, dx) and min(0, dy) <= qy <= max(0, dy)


def val(v):
    """each value in turn: the size of a canvas has to be one"""
    return v.concrete() if hasattr(v, "concrete") else v


def image(ctx, k, alphabet, R, width=None, background=None, cmds=None, base=1):
    pe = ctx.pe
    m = ctx.module("PngWriter")
    bx, by = ctx.int("bx", -500, 500), ctx.int("by", -500, 500)
    p = pe.EmbPattern()
    for c in THREADS[base:base + 4]:
        p.add_thread(c)
    lines, block, prev, allp = [], base, None, []
    for i in range(k):
        c = cmds[i] if cmds else ctx.choose("c%d" % i, "S" if i in (0, k - 1) else alphabet)
        if c in "SJ":
            x, y = val(ctx.int("x%d" % i, 0, R)), val(ctx.int("y%d" % i, 0, R))
            p.add_stitch_absolute(pe.STITCH if c == "S" else pe.JUMP, bx + x, by + y)
            if c == "S":
                if prev is not None:
                    lines.append(((prev, (x, y)), block))
                prev = (x, y)
            allp.append((x, y))
        else:
            p.add_stitch_absolute(pe.TRIM if c == "T" else pe.COLOR_CHANGE, bx + allp[-1][0], by + allp[-1][1])
            if c == "C":
                block += 1
        if c != "S":
            prev = None
    p.add_stitch_absolute(pe.END, bx + allp[-1][0], by + allp[-1][1])
    st = {}
    if width is not None:
        st["linewidth"] = width
    if background is not None:
        st["background"] = background
    z = Zlib()
    s = ctx.stream()
    with ctx.stub("PngWriter", "zlib", z):
        # without the encoder, which C10 to C14 decide: the design is written as it stands
        keep = ctx.stitches(p)
        m.write(p.copy(), s) if not st and ctx.choose("direct", [0, 1]) else pe.write_png(p, s, st)
    W, H, rows = decode(ctx, s.getvalue(), z)
    ctx.check(ctx.eq(ctx.stitches(p), keep), "png: the pattern was changed")
    lo = [min(q[c] for q in allp) for c in (0, 1)]
    conds = [(W, H)[c] == max(q[c] for q in allp) - lo[c] + 3 for c in (0, 1)]
    ctx.check(ctx.all(conds), "png: canvas size")
    w = 3 if width is None else width
    back = (0, 0, 0, 0) if background is None else (255, 0, 0, 255)
    bad = []
    for y in range(H):
        for x in range(W):
            px, py = x - 1 + lo[0], y - 1 + lo[1]
            allowed = []
            for L, b in reversed(lines):
                if cover(L, px, py, w, False):
                    allowed.append(shown(THREADS[b]) + (251,))
                if cover(L, px, py, w, True):
                    break
            else:
                allowed.append(back)
            bad.append(ctx.any([ctx.eq(list(rows[y][x]), list(c)) for c in allowed]))
    ctx.check(ctx.all(bad), "png: pixels of the lines")
    ctx.cover("end")


def recorder(ctx, w, h):
    m = ctx.module("PngWriter")
    if not hasattr(m, "PngBuffer") or not hasattr(m.PngBuffer, "draw_line"):
        ctx.stop()
    b = m.PngBuffer(w, h)
    pts = []
    b.plot = lambda x, y, v=None, a=None: pts.append((x, y, 1.0 if v is None else v))
    return b, pts


def line(ctx, R, width, fancy=False, far=None):
    """which points a line of any direction and length draws"""
    b, pts = recorder(ctx, 10, 10)
    b.line_width = width
    b.fancy = fancy
    x0, y0 = ctx.int("x0", -1000, 1000), ctx.int("y0", -1000, 1000)
    dx, dy = (ctx.int("dx", -R, R), ctx.int("dy", -R, R)) if far is None else ctx.choose("d", far)
    b.draw_line(x0, y0, x0 + dx, y0 + dy)
    if not pts:
        ctx.stop()
    if len(pts) % width:
        ctx.fail("png line: %d pixels in width %d" % (len(pts), width))
    n = len(pts) // width - 1
    left = width >> 1
    adx, ady = ctx.ite(dx >= 0, dx, -dx) if ctx.symbolic else abs(dx), ctx.ite(dy >= 0, dy, -dy) if ctx.symbolic else abs(dy)
    conds = [ctx.all([adx <= n, ady <= n, ctx.any([adx == n, ady == n])])]
    shade = []
    for i in range(n + 1):
        g = pts[i * width:(i + 1) * width]
        shade.append(g[0][2])
        # the group runs across the line
        gx = [ctx.all([q[0] - x0 == g[left][0] - x0 + o, q[1] == g[left][1]]) for q, o in zip(g, range(-left, width - left))]
        gy = [ctx.all([q[1] - y0 == g[left][1] - y0 + o, q[0] == g[left][0]]) for q, o in zip(g, range(-left, width - left))]
        conds.append(ctx.any([ctx.all(gx + [ady >= adx]), ctx.all(gy + [adx >= ady])]))
        cx, cy = g[left][0] - x0, g[left][1] - y0
        # the i-th point is i steps along the longer direction and within half a pixel across
        if n == 0:
            conds += [cx == 0, cy == 0]
        else:
            for c, d in ((cx, dx), (cy, dy)):
                e = 2 * (c * n - d * i)
                conds += [e <= n, e >= -n]
    ctx.check(ctx.all(conds), "png line: points")
    if fancy:
        ok = [ctx.all([v >= 0, v <= 1]) for v in shade]
        if n >= 2:  # darker ends and a lighter middle, whichever the direction
            mid = shade[n // 2] if n % 2 == 0 else shade[n // 2 + 1]
            e = 0.05
            ok += [shade[0] < mid, shade[n] < mid, shade[0] - shade[n] <= e, shade[n] - shade[0] <= e]
        ctx.check(ctx.all(ok), "png line: shading")
    ctx.cover("end")


def shading(ctx):
    b, _ = recorder(ctx, 3, 3)
    t = ctx.real("t")
    ctx.assume(ctx.all([t >= 0, t <= 1]))
    v = b.gradient(t)
    want = [(0, 0.65), (0.40, 1.1), (0.50, 1.55), (0.70, 1.1), (1, 0.65)]
    conds = []
    for (a, p), (c, q) in zip(want, want[1:]):
        raw = p + (q - p) * (t - a) / (c - a)
        d = v - raw
        e = 1e-6
        conds.append(ctx.implies(ctx.all([t >= a, t <= c]), ctx.any([ctx.all([d <= e, d >= -e]), ctx.all([v == 1, raw >= 1 - e])])))
    ctx.check(ctx.all(conds), "png: shading of a position")
    ctx.cover("end")


def pixel(ctx, w, h, fixed=None):
    """one pixel of any colour: that pixel and no other"""
    m = ctx.module("PngWriter")
    if not hasattr(m, "PngBuffer") or not hasattr(m.PngBuffer, "plot"):
        ctx.stop()
    b = m.PngBuffer(w, h)
    b.background(9, 8, 7, 255)
    ch = ctx.choose("channel", [0, 1, 2])
    c = [ctx.choose("o1", [0, 200]), ctx.choose("o2", [0, 90])]
    c.insert(ch, ctx.int("c", 64, 255))
    b.set_color(c[0], c[1], c[2], 255)
    x, y = ctx.int("x", -4, w + 6), ctx.int("y", -4, h + 6)
    b.plot(x, y)
    W, H = b.width, b.height
    if (W, H) != (w + 3, h + 3) or len(b.buf) != 4 * W * H:
        ctx.fail("png: canvas size")
    conds = []
    for j in range(H):
        for i in range(W):
            hit = ctx.all([x == i - 1, y == j - 1])
            px = items(b.buf[(j * W + i) * 4:(j * W + i) * 4 + 4])
            conds.append(ctx.ite(hit, ctx.eq(px, c + [251]), ctx.eq(px, [9, 8, 7, 255])) if ctx.symbolic else (px == (c + [251] if hit else [9, 8, 7, 255])))
    ctx.check(ctx.all(conds), "png: pixel")
    ctx.cover("end")


def file_form(ctx, w, h):
    m = ctx.module("PngWriter")
    if not hasattr(m, "write_png"):
        ctx.stop()
    z = Zlib()
    buf = ctx.bytes("p", 4 * w * h)
    with ctx.stub("PngWriter", "zlib", z):
        data = m.write_png(buf, w, h)
    W, H, rows = decode(ctx, data, z)
    if (W, H) != (w, h):
        ctx.fail("png: size %d x %d" % (W, H))
    ctx.check(ctx.eq([v for r in rows for px in r for v in px], items(buf)), "png: pixels in the file")
    ctx.cover("end")


def guides(ctx, size):
    """guides never fail and never touch pixels beyond the text and ticks; the file stays whole"""
    pe = ctx.pe
    p = pe.EmbPattern()
    bx, by = ctx.int("bx", -60, 60), ctx.choose("by", [-120, 0, 77])
    p.add_thread(THREADS[1])
    for x, y in ((0, 0), size):
        p.add_stitch_absolute(pe.STITCH, bx + x, by + y)
    p.add_command(pe.END)
    z = Zlib()
    s = ctx.stream()
    with ctx.stub("PngWriter", "zlib", z):
        try:
            pe.write_png(p, s, {"guides": True})
        except (IndexError, ValueError, KeyError) as e:
            ctx.fail("png guides: %r" % e)
    W, H, rows = decode(ctx, s.getvalue(), z)
    if (W, H) != (size[0] + 3, size[1] + 3):
        ctx.fail("png: canvas size")
    # ticks stand where the design's coordinate is a multiple of 50
    conds = []
    for x in range(30, size[0] - 30):
        if H > 20:
            conds.append(ctx.implies((bx + x) % 50 == 0, ctx.eq(list(rows[21][x + 1]), [35, 35, 35, 251])))
    ctx.check(ctx.all(conds), "png guides: ticks")
    ctx.cover("end")


def harnesses(tier):
    T = tier == "thorough"
    H = []

    def add(name, fn, params, **kw):
        H.append(Harness(name, fn, params, covers=["end"], **kw))
    for w in (None, 1, 5):
        add("image-%s" % w, image, dict(k=2, alphabet="S", R=4 if not T else 7, width=w), weight=3)
    add("image-back", image, dict(k=2, alphabet="S", R=2, width=2, background="#F00"), weight=2)
    add("image-three", image, dict(k=3, alphabet="S", R=3 if T else 2, width=1), weight=4)
    for c in "TCJ":
        add("image-" + c, image, dict(k=5 if c != "J" else 3, alphabet="S", R=1, width=1, cmds="SS" + c + "SS" if c != "J" else "SJS", base=4 if c == "C" else 1), weight=4)
    R = 24 if T else 12
    for w in (1, 3) + ((2, 5) if T else ()):
        add("line-%d" % w, line, dict(R=R, width=w), weight=3)
    add("line-fancy", line, dict(R=R, width=1, fancy=True), weight=3)
    add("line-long", line, dict(R=R, width=1, far=[(300, 1), (299, 151), (-300, 77), (-2, 301), (130, -520), (700, 0), (0, 600), (400, 400), (-700, 699), (513, 512)]))
    add("line-long-3", line, dict(R=R, width=3, far=[(270, 20), (-9, -280)]))
    add("shading", shading, dict(), real=True)
    add("pixel", pixel, dict(w=2, h=1))
    add("pixel-wide", pixel, dict(w=4, h=3))
    for w, h in ((1, 1), (3, 2), (2, 3)) + (((3, 3), (5, 4)) if T else ()):
        add("file-%dx%d" % (w, h), file_form, dict(w=w, h=h))
    for sz in ((0, 0), (5, 5), (20, 10), (10, 40), (85, 24)) + (((120, 40), (60, 120)) if T else ()):
        add("guides-%dx%d" % sz, guides, dict(size=sz))
    return H
