from .common import *
from .C24 import Sim, bytes_of, le32, num, s8, sign, compare_decoded, Z
from .C31 import header, END

BOUNDS = ("up to 9 (thorough 12) bytes of consecutive records of DST, EXP, JEF, PEC, U01, XXX and TBF files and up to 6 of VP3 blocks and PMV curves, every byte of them symbolic (7-bit, 12-bit, 16-bit and ternary coordinates, all control codes a format defines), behind headers with "
          "one, two and four threads, VP3 blocks at symbolic starts with one and two blocks, PMV designs of up to 2 blocks of up to 2 stitches; readers' trim interpolation switched off.")
OUTSIDE = ("control codes a format leaves undefined; DST records without the two low bits every record carries; PEC records with both flag bits on one stitch; a VP3 block that ends inside a record; "
           "files cut short (C31) and the trim interpolation (C21).")
DEADLINE = 100


def d_dst(s, ctx):
    seq = False
    while True:
        s.inside = False
        b = s.take(3)
        if b is None:
            return
        # digits of balanced ternary: (byte, bit that adds, bit that subtracts)
        bit = lambda i, k: (b[i] >> k) & 1
        x = sum(w * (bit(i, p) - bit(i, m)) for w, i, p, m in ((81, 2, 2, 3), (27, 1, 2, 3), (9, 0, 2, 3), (3, 1, 0, 1), (1, 0, 0, 1)))
        y = sum(w * (bit(i, p) - bit(i, m)) for w, i, p, m in ((81, 2, 5, 4), (27, 1, 5, 4), (9, 0, 5, 4), (3, 1, 7, 6), (1, 0, 7, 6)))
        ctx.assume(b[2] & 3 == 3)
        top = b[2] & 0xC0
        if b[2] & 0xF3 == 0xF3:
            return
        if top == 0xC0:
            s("C", x, -y)
        elif top == 0x40:
            seq = not seq
            s("M", x, -y)
        elif top == 0x80:
            s("E" if seq else "J", x, -y)
        else:
            s("S", x, -y)


def d_exp(s, ctx):
    while True:
        s.inside = False
        b = s.take(2)
        if b is None:
            return
        if b[0] != 0x80:
            s("S", s8(ctx, b[0]), -s8(ctx, b[1]))
            continue
        w = s.take(2)
        if w is None:
            return
        x, y = s8(ctx, w[0]), -s8(ctx, w[1])
        ctx.assume(ctx.any([b[1] == c for c in (0x80, 4, 1, 2)]))
        if b[1] == 0x80:
            s("T")
        elif b[1] == 4:
            s("J", x, y)
        elif b[1] == 1:
            s("C")
            s.moved("J", x, y)
        else:
            s("S", x, y)


def d_jef(s, ctx):
    block = 1
    while True:
        s.inside = False
        b = s.take(2)
        if b is None:
            return
        if b[0] != 0x80:
            s("S", s8(ctx, b[0]), -s8(ctx, b[1]))
            continue
        w = s.take(2)
        if w is None:
            return
        ctx.assume(ctx.any([b[1] == c for c in (2, 1, 0x10)]))
        if b[1] == 2:
            s("J", s8(ctx, w[0]), -s8(ctx, w[1]))
        elif b[1] == 1:
            s("X" if block < len(s.cols) and s.cols[block] == 0 else "C")
            block += 1
        else:
            return


def d_pec(s, ctx):
    while True:
        flags, v = [], []
        s.inside = False
        for axis in range(2):
            b = s.take(1)
            if b is None:
                return
            b = b[0]
            if axis == 0 and s.i < len(s.d):
                if bool(ctx.all([b == 0xFF, s.d[s.i] == 0])):
                    s.take(1)
                    return
                if bool(ctx.all([b == 0xFE, s.d[s.i] == 0xB0])):
                    s.take(2)
                    s("C")
                    v = None
                    break
            if bool(b >= 128):
                w = s.take(1)
                if w is None:
                    return
                n = (b & 15) * 256 + w[0]
                v.append(ctx.ite(n > 2047, n - 4096, n))
                flags.append(b & 0x30)
            else:
                v.append(ctx.ite(b > 63, b - 128, b))
        if v is None:
            continue
        jump = ctx.any([f & 0x10 != 0 for f in flags]) if flags else False
        trim = ctx.any([f & 0x20 != 0 for f in flags]) if flags else False
        jump, trim = bool(jump), bool(trim)
        ctx.assume(not (jump and trim))
        if trim:
            s("T")
        s("J" if jump or trim else "S", v[0], v[1])


def d_u01(s, ctx):
    while True:
        s.inside = False
        b = s.take(3)
        if b is None:
            return
        c = b[0]
        x, y = sign(ctx, c & 0x20, b[2]), -sign(ctx, c & 0x40, b[1])
        k = c & 31
        ctx.assume(k <= 0x18)
        if k <= 1:
            s("S" if k == 0 else "J", x, y)
        elif k <= 5:
            s("F" if k <= 3 else "L")
            s.moved("S" if k & 1 == 0 else "J", x, y)
        elif k <= 7:
            s("T")
            s.moved("J", x, y)
        elif k == 8:
            s("X")
            s.moved("J", x, y)
        elif k < 0x18:
            s.needle(k - 8)
            s.moved("J", x, y)
        else:
            return


def d_xxx(s, ctx):
    while True:
        s.inside = False
        b = s.take(1)
        if b is None:
            return
        b = b[0]
        if b == 0x7D or b == 0x7E:
            w = s.take(4)
            if w is None:
                return
            s("J", num(ctx, w[:2]), -num(ctx, w[2:]))
            continue
        c = s.take(1)
        if c is None:
            return
        if b != 0x7F:
            s("S", s8(ctx, b), -s8(ctx, c[0]))
            continue
        w = s.take(2)
        if w is None:
            return
        c = c[0]
        x, y = s8(ctx, w[0]), -s8(ctx, w[1])
        ctx.assume(ctx.any([c == 1, c == 3, c == 8, ctx.all([c >= 0x0A, c <= 0x18]), c == 0x7F]))
        if c == 1:
            s("J", x, y)
        elif c == 3:
            s("T")
            s.moved("J", x, y)
        elif c == 0x7F or c == 0x18:
            return
        else:
            s("C")


def d_tbf(s, ctx):
    k = 0
    while True:
        s.inside = False
        b = s.take(3)
        if b is None:
            return
        x, y, c = s8(ctx, b[0]), -s8(ctx, b[1]), b[2]
        ctx.assume(ctx.any([c == v for v in (0x80, 0x81, 0x90, 0x40, 0x86, 0x8F)]))
        if c == 0x80:
            s("S", x, y)
        elif c == 0x81:
            n = s.order[k] if k < len(s.order) else 0
            k += 1
            if n:
                s.needle(n)
            else:
                s("X")
        elif c == 0x90:
            if bool(ctx.all([x == 0, y == 0])):
                s("T")
            else:
                s("J", x, y)
        elif c == 0x40:
            s("X")
        elif c == 0x86:
            s("T")
        else:
            return


FORMATS = {"dst": d_dst, "exp": d_exp, "jef": d_jef, "pec": d_pec, "u01": d_u01, "xxx": d_xxx, "tbf": d_tbf}
class Whole(Sim):
    """whole records only: a path that ends within one is left (the file lengths differ from harness to harness)"""
    inside = False

    def take(self, n):
        if self.i == len(self.d) and not self.inside:
            return None
        if self.i + n > len(self.d):
            self.ctx.stop()
        self.inside = True
        return Sim.take(self, n)


RAW = {"clipping": False, "trim_at": None, "trim_distance": None}


def sim(ctx, data):
    s = Whole(ctx, data)
    s.k["M"], s.k["E"] = ctx.pe.SEQUIN_MODE, ctx.pe.SEQUIN_EJECT
    return s


def run(ctx, fmt, n, nt, lead=(), order=None, cols=None):
    """n symbolic bytes, as whole records, behind some given ones"""
    data = list(lead) + list(ctx.bytes("rec", n))
    h, tail = header(ctx, fmt, nt, len(data) + 2)
    s = sim(ctx, data)
    s.nt, s.cols = nt, [1, 5, 0, 7][:nt]
    s.order = [1, 3, 0, 2][:nt]
    if cols:
        # a table with stops (colour 0) where it pleases
        s.cols = list(cols)
        for i, c in enumerate(cols):
            h[0x74 + 4 * i:0x78 + 4 * i] = le32(c)
    if order:
        # more changes than threads
        h[0x10A:0x10A + len(order)] = s.order = order
    FORMATS[fmt](s, ctx)
    q = getattr(ctx.pe, "read_" + fmt)
    f = ctx.stream(bytes_of(ctx, h + data[:s.i] + END[fmt] + tail))
    p = q(f, RAW) if fmt in ("dst", "jef") else q(f)
    compare_decoded(ctx, p, s, fmt)
    ctx.cover("end")


def text8(t):
    return [0, len(t)] + [ord(c) for c in t]


def be(v, n):
    v = v & ((1 << (8 * n)) - 1)
    return [v >> 8 * i & 255 for i in range(n - 1, -1, -1)]


def vp3(ctx, blocks, free, lead):
    """a file laid by hand; the records of one block are symbolic"""
    pe = ctx.pe
    cx, cy = ctx.choose("centre", [(0, 0), (1200, -3400)])
    h = [ord(c) for c in "%vsm%"] + [0] + text8("ab") + Z * 7 + text8("note") + Z * 32 + be(cx, 4) + be(cy, 4) + Z * 27 + text8("") + Z * 24 + text8("xyz") + be(blocks, 2)
    s = sim(ctx, [])
    cols = []
    for i in range(blocks):
        sx, sy = ctx.int("sx%d" % i, -9, 9), ctx.int("sy%d" % i, -9, 9)
        if i == 0:
            ctx.assume(ctx.any([sx * 100 + cx != 0, -sy * 100 - cy != 0]))
        c = ctx.int("col%d" % i, 0, 0xFFFFFF)
        cols.append(c)
        n = free if i == blocks - 1 else 0
        rec = list(lead) + list(ctx.bytes("rec", n)) if n else [5, 6]
        head = be(100 * sx, 4) + be(100 * sy, 4) + [1, 0, c >> 16, c >> 8 & 255, c & 255, 0, 0, 0, 5, 40] + text8("7%d" % i) + text8("d") + text8("") + Z * 15 + [0x0A, 0xF6, 0]
        s.at("J", sx + cx / 100, -sy - cy / 100) if cx else s.at("J", sx, -sy)
        j = 0
        while j < len(rec):
            if j + 1 >= len(rec):
                ctx.stop()
            x, y = rec[j], rec[j + 1]
            if bool(x != 0x80):
                s("S", s8(ctx, x), s8(ctx, y))
                j += 2
                continue
            ctx.assume(ctx.any([y == v for v in (1, 2, 3)]))
            if y == 1:
                if j + 8 > len(rec):
                    ctx.stop()
                s("S", num(ctx, rec[j + 2:j + 4], False), num(ctx, rec[j + 4:j + 6], False))
                j += 8
            else:
                if y == 3:
                    s("T")
                j += 2
        body = head + rec
        h += [0, 5, 0] + be(len(body), 4) + body
        if i + 1 < blocks:
            s("C")
    p = pe.EmbPattern()
    ctx.module("Vp3Reader").read(ctx.stream(bytes_of(ctx, h)), p)
    compare_decoded(ctx, p, s, "vp3")
    if len(p.threadlist) != blocks:
        ctx.fail("vp3: %d threads" % len(p.threadlist))
    for i, t in enumerate(p.threadlist):
        ctx.check(ctx.eq(t.color & 0xFFFFFF, cols[i]), "vp3: colour")
        if t.catalog_number != "7%d" % i or t.description != "d":
            ctx.fail("vp3: thread texts")
    ctx.cover("end")


def pmv(ctx, counts):
    """a curve: the first coordinate goes on from stitch to stitch, the second is absolute"""
    data = []
    s = sim(ctx, [])
    px = 0
    for k, n in enumerate(counts):
        data += [n, 0, 2 * n, 0]
        for i in range(n):
            x, y = ctx.int("x%d_%d" % (k, i), 0, 63), ctx.int("y%d_%d" % (k, i), 0, 31)
            ctx.assume(ctx.all([x != 32, y != 16]))          # the two ends of the range mean no number
            data += [x, y]
            px = px + ctx.ite(x > 32, x - 64, x)
            s.at("S", px, -ctx.ite(y > 16, y - 32, y))
    p = ctx.pe.EmbPattern()
    f = Z * 0x64 + data + [0, 0, 0, 1] + Z * 8
    ctx.module("PmvReader").read(ctx.stream(bytes_of(ctx, f)), p)
    compare_decoded(ctx, p, s, "pmv", 2.5)
    ctx.cover("end")


def harnesses(tier):
    t = tier == "thorough"
    hs = []

    def add(name, fn, weight=1, **kw):
        hs.append(Harness(name, fn, kw, ["end"], weight=weight))
    sizes = {"dst": (0, 3, 6, 9), "exp": (2, 4, 6, 8), "jef": (2, 4, 6, 8), "pec": (2, 3, 4, 5, 6, 7), "u01": (3, 6), "xxx": (2, 4, 5, 6, 7, 8), "tbf": (3, 6, 9)}
    more = {"dst": (12,), "exp": (10, 12), "jef": (10, 12), "pec": (8, 9, 10), "u01": (9,), "xxx": (9, 10, 11), "tbf": (12,)}
    for fmt in FORMATS:
        for n in sizes[fmt] + (more[fmt] if t else ()):
            add("%s_%d" % (fmt, n), run, fmt=fmt, n=n, nt=4 if fmt in ("jef", "tbf") else 1)
    # state carried over from earlier records
    add("dst_sequin", run, fmt="dst", n=6, nt=1, lead=(0, 0, 0x43))
    for nt in (1, 2, 3):
        add("jef_%dt" % nt, run, fmt="jef", n=4, nt=nt, lead=[0x80, 1, 0, 0] * nt)
    for cols in ((1, 0, 0, 7), (1, 0, 5, 0), (0, 5, 0, 0), (0, 0, 0, 0)):
        for k in (0, 1, 2):
            add("jef_stops_%d%d%d%d_%d" % (cols + (k,)), run, fmt="jef", n=4, nt=4, lead=[0x80, 1, 0, 0] * k, cols=cols)
    for k in (1, 2, 3):
        add("tbf_needle%d" % k, run, fmt="tbf", n=3, nt=4, lead=[0, 0, 0x81] * k)
        add("tbf_few%d" % k, run, fmt="tbf", n=3, nt=k - 1, lead=[0, 0, 0x81] * 3, order=[2, 1, 7, 16, 15])
    add("tbf_many", run, fmt="tbf", n=3, nt=0, lead=[0, 0, 0x81] * 255, order=[1 + i % 15 for i in range(256)])
    for b in (1, 2, 3):
        for n in ((2, 4) if b < 3 else (2,)) + ((6,) if t else ()):
            add("vp3_%d_%d" % (b, n), vp3, blocks=b, free=n, lead=())
        add("vp3_%d_long" % b, vp3, blocks=b, free=6, lead=(0x80, 1))
    for c in ((1,), (2,), (0, 2), (1, 0, 1), (1, 1)) + (((3,), (2, 2)) if t else ()):
        add("pmv_%s" % "_".join(map(str, c)), pmv, counts=c)
    return hs
