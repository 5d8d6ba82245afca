from fractions import Fraction
from .common import *
from .C25 import flat, le, const

BOUNDS = ("any point of a design with 18 x 12 (thorough 28 x 16) widths and heights from 0 to 6500 units and a symbolic corner in [-3000,3000]^2, for both borders in use; "
          "every pixel of the frame for the bit setter; PEC and PES files of up to 3 colour blocks with symbolic stitches inside a fixed outline.")
OUTSIDE = "extents between the sampled sizes (the point and the corner are symbolic, the size is not); float error beyond a millionth of a pixel."
DEADLINE = 60
WIDE = [0, 1, 2, 3, 7, 10, 16, 33, 43, 48, 100, 131, 257, 999, 1000, 1300, 4095, 6500]
HIGH = [0, 1, 2, 5, 11, 33, 38, 100, 129, 700, 1800, 6000]
MORE_W = [4, 5, 6, 9, 13, 25, 50, 64, 350, 2000]
MORE_H = [3, 7, 19, 64]


class Frame:
    """stands in for the bytes of a preview; records the bits set"""

    def __init__(self, n=228):
        self.n = n
        self.set = []
        self.i = None

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        return Cell(i)

    def __setitem__(self, i, c):
        self.set.append((i, c.mask))


class Cell:
    def __init__(self, i):
        self.i = i

    def __or__(self, mask):
        c = Cell(self.i)
        c.mask = mask
        return c

    __ior__ = __or__


def log2(ctx, m):
    v = -99
    for k in range(8):
        v = ctx.ite(m == 1 << k, k, v)
    return v


def pixel(ctx, rec, stride=6):
    i, m = rec
    y = i // stride
    return (i - y * stride) * 8 + log2(ctx, m), y


def point(ctx, w, buffer, heights):
    P = ctx.module("PecGraphics")
    h = ctx.choose("h", heights)
    l, t = ctx.int("left", -3000, 3000), ctx.int("top", -3000, 3000)
    dx, dy = ctx.int("dx", 0, w), ctx.int("dy%d" % h, 0, h)
    g = Frame()
    P.draw_scaled((l, t, l + w, t + h), [[l + dx, t + dy, 0]], g, 6, *([] if buffer == 5 else [buffer]))
    if len(g.set) != 1:
        ctx.fail("%d pixels for a stitch" % len(g.set))
    x, y = pixel(ctx, g.set[0])
    ctx.check(ctx.all([x >= 1, x <= 46, y >= 1, y <= 36]), "pixel outside the frame")
    s = min(Fraction(48 - buffer, w or 1), Fraction(38 - buffer, h or 1))
    # (px, py) is the cell of the scaled offset from the centre
    eps = Fraction(1, 10 ** 6)
    conds = []
    for p, d, size, mid in ((x, dx, w, 24), (y, dy, h, 19)):
        # 2*s*(d - size/2) + 2*mid in [2p - eps, 2p + 2 + eps]
        num, den = s.numerator, s.denominator
        v = num * (2 * d - size) + 2 * mid * den
        conds += [1000000 * (v - 2 * den * p) >= -den, 1000000 * (v - 2 * den * p - 2 * den) <= den]
    ctx.check(ctx.all(conds), "pixel away from the scaled, centred position")
    ctx.cover("end")


def mark(ctx, stride):
    P = ctx.module("PecGraphics")
    x, y = ctx.int("x", 0, 8 * stride - 1), ctx.int("y", 0, 37)
    g = Frame(38 * stride)
    P.graphic_mark_bit(g, x, y, stride)
    i, m = g.set[0]
    px, py = pixel(ctx, g.set[0], stride)
    ctx.check(ctx.eq((px, py), (x, y)), "bit set for another pixel")
    ctx.cover("end")


BLANK = ([0] * 6 + [0xF0, 255, 255, 255, 255, 0x0F] + [8, 0, 0, 0, 0, 0x10] + [4, 0, 0, 0, 0, 0x20] + [2, 0, 0, 0, 0, 0x40] * 30
         + [4, 0, 0, 0, 0, 0x20] + [8, 0, 0, 0, 0, 0x10] + [0xF0, 255, 255, 255, 255, 0x0F] + [0] * 6)


def graphics(ctx, fmt, blocks, other):
    """the previews of a written file: the whole design, then each colour"""
    pe = ctx.pe
    p = pe.EmbPattern()
    ext = (0, 0, 40, 20)
    pts = []
    for i, n in enumerate(blocks):
        p.add_thread(THREADS[i])
        if i:
            p.add_stitch_absolute(pe.COLOR_CHANGE)
        cur = []
        if i == 0:
            cur += [(0, 0), (40, 20)]
        for j in range(n):
            cur.append((ctx.int("x%d_%d" % (i, j), 10, 13), ctx.int("y%d_%d" % (i, j), 5, 7)))
        for j, (x, y) in enumerate(cur):
            if j == 1 and other == "T":
                p.add_stitch_absolute(pe.TRIM, x, y)
            if j == 1 and other == "J":
                p.add_stitch_absolute(pe.JUMP, 1, 1)
            p.add_stitch_absolute(pe.STITCH, x, y)
        pts.append(cur)
    p.add_stitch_absolute(pe.END, 12, 6)
    f = ctx.stream()
    getattr(pe, "write_" + fmt)(p, f, {"version": 1})
    b = flat(ctx, f)
    at = const(ctx, le(b, 8, 4), fmt) if fmt == "pes" else 8
    at += 512 + const(ctx, le(b, at + 514, 3), fmt)
    if len(b) != at + 228 * (len(blocks) + 1):
        ctx.fail("%s: previews take %d bytes for %d colours" % (fmt, len(b) - at, len(blocks)))
    for k in range(len(blocks) + 1):
        img = b[at + 228 * k:at + 228 * (k + 1)]
        border = 4 if k == 0 else 5
        want = list(BLANK)
        for x, y in (sum(pts, []) if k == 0 else pts[k - 1]):
            s = min((48 - border) / 40.0, (38 - border) / 20.0)
            px, py = (floor(ctx, (x - 20) * s + 24), floor(ctx, (y - 10) * s + 19))
            want[py * 6 + px // 8] |= 1 << (px % 8)
        ctx.check(ctx.all([ctx.eq(u, v) for u, v in zip(img, want)]), "%s: preview %d" % (fmt, k))
    ctx.cover("end")


def floor(ctx, v):
    """the integer, which the path has fixed"""
    import math
    if isinstance(v, (int, float)):
        return math.floor(v)
    for n in range(0, 48):
        if bool(v < n + 1):
            return n
    ctx.fail("pixel out of range")


def blank(ctx):
    P = ctx.module("PecGraphics")
    a = P.get_blank()
    if a != BLANK:
        ctx.fail("the blank frame changed")
    a[int(100)] |= 255
    P.graphic_mark_bit(a, 20, 20)
    if P.get_blank() != BLANK:
        ctx.fail("drawing changes the blank frame")
    ctx.check(True, "blank")
    ctx.cover("end")


def harnesses(tier):
    t = tier == "thorough"
    hs = [Harness("blank", blank, {}, ["end"])]
    for w in WIDE + (MORE_W if t else []):
        for border in (4, 5):
            hs.append(Harness("point_%d_%d" % (w, border), point, dict(w=w, buffer=border, heights=HIGH + (MORE_H if t else [])), ["end"], weight=2))
    for s in (1, 6, 9):
        hs.append(Harness("mark%d" % s, mark, dict(stride=s), ["end"]))
    for fmt in ("pec", "pes"):
        for bl in ([1], [0, 1], [1, 1], [0, 0, 1]) if not t else ([1], [2], [1, 2], [2, 1], [1, 1, 1]):
            if 0 in bl[1:]:
                bl = [bl[0]] + [max(1, n) for n in bl[1:]]
            hs.append(Harness("file_%s_%s" % (fmt, "".join(map(str, bl))), graphics, dict(fmt=fmt, blocks=bl, other=""), ["end"], weight=3))
        for o in "TJ":
            hs.append(Harness("file_%s_%s" % (fmt, o), graphics, dict(fmt=fmt, blocks=[1, 1], other=o), ["end"], weight=3))
    return hs
