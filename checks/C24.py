from .common import *

BOUNDS = ("every byte of 1..2 (thorough 3) consecutive records symbolic, plus every cut inside the last record, for the 31 formats with a reader only (Barudan and Sunstar DAT separately); state machines "
          "(KSM, MIT, SHV, ZHS, DAT) with 3 (thorough 4) records; one record of each format, and two bytes or units of SHV, after 256 to 560 ordinary stitches; headers with the offsets and counts each reader follows, at two different values; palette indices across the table.")
OUTSIDE = ("a 100 record holding the byte 0x80 as coordinate, an SHV escape 0x80 with a code other than 1 to 3, Barudan records without the marker bit after the first, records whose meaning the format leaves open (unknown control bytes end or skip "
           "as the reader documents); JPX colours are random by design; HUS compression is C33; longer files.")
DEADLINE = 70


def s8(ctx, b):
    return ctx.ite(b > 127, b - 256, b)


def num(ctx, bs, le=True, signed=True):
    if le:
        bs = bs[::-1]
    v = 0
    for b in bs:
        v = v * 256 + b
    return ctx.ite(v >= 1 << (8 * len(bs) - 1), v - (1 << (8 * len(bs))), v) if signed else v


class Sim:
    """what the records of a file mean: commands at absolute positions"""

    def __init__(self, ctx, data):
        self.ctx, self.d, self.i = ctx, data, 0
        self.x = self.y = 0
        self.out = []
        pe = ctx.pe
        self.k = dict(S=pe.STITCH, J=pe.JUMP, T=pe.TRIM, C=pe.COLOR_CHANGE, X=pe.STOP, F=pe.FAST, L=pe.SLOW, D=pe.END)

    def take(self, n):
        if self.i + n > len(self.d):
            self.i = len(self.d)
            return None
        r = self.d[self.i:self.i + n]
        self.i += n
        return r

    def __call__(self, k, dx=0, dy=0, needle=None):
        self.x = self.x + dx
        self.y = self.y + dy
        self.out.append([self.x, self.y, self.k[k] if needle is None else self.ctx.pe.encode_thread_change(self.ctx.pe.NEEDLE_SET, None, needle)])

    def at(self, k, x, y):
        self.x, self.y = x, y
        self(k)

    def needle(self, n):
        self("N", 0, 0, n)

    def moved(self, k, x, y):
        """a jump when the record moves at all"""
        if bool(self.ctx.any([x != 0, y != 0])):
            self(k, x, y)


def sign(ctx, bit, v):
    return ctx.ite(bit != 0, -v, v)


# --- one function per record format: decode(sim, ctx) until the end

def d_10o(s, ctx):
    while True:
        b = s.take(3)
        if b is None:
            return
        c = b[0]
        x, y = sign(ctx, c & 0x20, b[2]), -sign(ctx, c & 0x40, b[1])
        low = c & 31
        if low == 0:
            s("S", x, y)
        elif low == 0x10:
            s("J", x, y)
        elif c == 0x8A:
            pass
        elif c == 0x85:
            s("C")
        elif c == 0x82:
            s("X")
        elif c == 0x81:
            s("T")
        else:
            return


def d_100(s, ctx):
    while True:
        b = s.take(4)
        if b is None:
            return
        ctx.assume((b[2] != 0x80) & (b[3] != 0x80))
        x, y = (ctx.ite(v > 0x80, 0x80 - v, v) for v in b[2:])
        if b[0] == 0x61:
            s("S", x, -y)
        elif b[0] & 1 != 0:
            s("J", x, -y)
        else:
            s("C")


def d_bro(s, ctx):
    while True:
        b = s.take(2)
        if b is None:
            return
        if b[0] != 0x80:
            s("S", s8(ctx, b[0]), -s8(ctx, b[1]))
            continue
        c = s.take(1)
        if c is None:
            return
        c = c[0]
        if c == 0:
            continue
        nd = (c > 0xE0) & (c < 0xF0) if not isinstance(c, int) else 0xE0 < c < 0xF0
        if c == 0x7E or c == 0x03 or nd:
            if nd:
                s.needle(c - 0xE0)
            w = s.take(4)
            if w is None:
                return
            s("J", num(ctx, w[:2]), -num(ctx, w[2:]))
            continue
        return


def d_barudan(s, ctx):
    while True:
        b = s.take(3)
        if b is None:
            return
        c = b[0]
        ctx.assume(c >= 128)
        x, y = sign(ctx, c & 0x20, b[2]), -sign(ctx, c & 0x40, b[1])
        k = c & 31
        if k == 0:
            s("S", x, y)
        elif k == 1:
            s("J", x, y)
        elif k == 2 or k == 3:
            s("F")
            s.moved("S" if k == 2 else "J", x, y)
        elif k == 4 or k == 5:
            s("L")
            s.moved("S" if k == 4 else "J", x, y)
        elif k == 6 or k == 7:
            s("T")
            s.moved("J", x, y)
        elif k == 8:
            s("X")
            s.moved("J", x, y)
        elif k >= 9 and k <= 0x17:
            s.needle(k - 8)
            s.moved("J", x, y)
        else:
            return


def d_sunstar(s, ctx):
    while True:
        b = s.take(3)
        if b is None:
            return
        x, y = sign(ctx, b[0] & 0x80, b[0] & 0x7F), -sign(ctx, b[1] & 0x80, b[1] & 0x7F)
        c = b[2]
        if c == 0x07 or c == 0x84:
            s("S", x, y)
        elif c == 0x04:
            s("J", x, y)
        elif c == 0x80:
            s("T")
            s.moved("J", x, y)
        elif c == 0x87:
            s("C")
            s.moved("J", x, y)
        else:
            return


def d_dsb(s, ctx):
    while True:
        b = s.take(3)
        if b is None:
            return
        c = b[0]
        x, y = sign(ctx, c & 0x20, b[2]), -sign(ctx, c & 0x40, b[1])
        k = c & 31
        if k == 0:
            s("S", x, y)
        elif k == 1:
            s("J", x, y)
        elif c == 0xE7:
            s("T")
        elif c == 0xE8:
            s("X")
        elif c >= 0xE9 and c < 0xF8:
            s.needle(c - 0xE8)
        else:
            return


def d_dsz(s, ctx):
    while True:
        b = s.take(3)
        if b is None:
            return
        c = b[2]
        x, y = sign(ctx, c & 0x40, b[1]), -sign(ctx, c & 0x20, b[0])
        k = c & 31
        if k == 0:
            s("S", x, y)
        elif k == 1:
            s("J", x, y)
        elif c == 0x82:
            s("X")
        elif c == 0x9B:
            s("T")
        elif c >= 0x83 and c <= 0x9A:
            s.needle((c - 0x83) >> 1)
        else:
            return


def d_emd(s, ctx):
    while True:
        b = s.take(2)
        if b is None:
            return
        if b[0] != 0x80:
            s("S", s8(ctx, b[0]), -s8(ctx, b[1]))
            continue
        c = b[1]
        if c == 0x80:
            w = s.take(2)
            if w is None:
                return
            s("J", s8(ctx, w[0]), -s8(ctx, w[1]))
        elif c == 0x2A:
            s("C")
        elif c == 0x7D:
            pass
        elif c == 0xAD or c == 0x90:
            s("T")
        else:
            return


def d_inb(s, ctx):
    while True:
        b = s.take(3)
        if b is None:
            return
        c = b[2]
        x, y = sign(ctx, c & 0x40, b[0]), -sign(ctx, c & 0x20, b[1])
        k = c & 15
        if k == 0:
            s("S", x, y)
        elif k == 1:
            s("C", x, y)
        elif k == 2:
            s("J", x, y)
        else:
            return


def d_jpx(s, ctx):
    while True:
        b = s.take(2)
        if b is None:
            return
        if b[0] != 0x80:
            s("S", s8(ctx, b[0]), -s8(ctx, b[1]))
            continue
        w = s.take(2)
        if w is None:
            return
        x, y = s8(ctx, w[0]), -s8(ctx, w[1])
        if b[1] == 2:
            s("J", x, y)
        elif b[1] == 1:
            s("C")
            s.moved("J", x, y)
        else:
            return


def d_ksm(s, ctx):
    trimmed = sewn = False
    while True:
        b = s.take(3)
        if b is None:
            return
        c = b[2]
        x, y = sign(ctx, c & 0x40, b[1]), -sign(ctx, c & 0x20, b[0])
        c = c & 31
        if bool(ctx.any([x != 0, y != 0])):
            s("J" if trimmed else "S", x, y)
            sewn = sewn or not trimmed
        if c == 0:
            continue
        if c == 0x07 or c == 0x13 or c == 0x1D:
            if sewn:
                s("T")
            trimmed = True
        elif c >= 0x17 and c <= 0x19:
            trimmed = False
        elif c >= 0x0B and c <= 0x12:
            s.needle(c - 0x0A)
            trimmed = True
        elif c == 5:
            s("X")
        elif c == 0x1B:
            trimmed = False
        else:
            return


def d_mit(s, ctx):
    prev = None
    while True:
        b = s.take(2)
        if b is None:
            return
        x, y = sign(ctx, b[0] & 0x80, 2 * (b[0] & 31)), -sign(ctx, b[1] & 0x80, 2 * (b[1] & 31))
        c = ((b[0] >> 5) & 3) * 4 + ((b[1] >> 5) & 3)
        if c == 12:
            s("J", x, y)
        elif c == 8:
            if prev == 7:
                s("C")
        elif c == 0:
            return
        else:
            s("S", x, y)
        prev = 7 if c == 7 else 0


def d_new(s, ctx):
    while True:
        b = s.take(3)
        if b is None:
            return
        c = b[2]
        x, y = sign(ctx, c & 0x40, b[0]), -sign(ctx, c & 0x20, b[1])
        c = c & 31
        if c == 0:
            s("S", x, y)
        elif c == 0x11:
            return
        elif c & 2 != 0:
            s("C")
        elif c & 1 != 0:
            s("J", x, y)


def d_pc(s, ctx, le=True):
    while True:
        b = s.take(9)
        if b is None:
            return
        x, y = (num(ctx, b[1:4]), num(ctx, b[5:8])) if le else (num(ctx, b[0:3], False), num(ctx, b[4:7], False))
        c = b[8]
        if c == 0:
            s.at("S", x, -y)
        elif c & 1 != 0:
            s("C")
        elif c & 4 != 0:
            s.at("J", x, -y)
        else:
            return


def d_max(s, ctx):
    for i in range(s.count):
        b = s.take(8)
        if b is None:
            return
        s.at("S", num(ctx, b[0:3]), num(ctx, b[4:7]))


def d_sew(s, ctx):
    while True:
        b = s.take(2)
        if b is None:
            return
        if b[0] != 0x80:
            s("S", s8(ctx, b[0]), -s8(ctx, b[1]))
            continue
        w = s.take(2)
        if w is None:
            return
        x, y = s8(ctx, w[0]), -s8(ctx, w[1])
        c = b[1]
        if c & 1 != 0:
            s("C")
        elif c == 4 or c == 2:
            s("J", x, y)
        elif c == 0x10:
            s("S", x, y)
        else:
            return


def d_shv(s, ctx):
    """a block holds a stated number of two-byte units; a six-byte jump record counts three of them"""
    jump = False
    blocks = list(s.counts)
    used = 0
    while True:
        b = s.take(2)
        if b is None:
            return
        if blocks and used >= blocks[0]:
            s("C")
            used = 0
            blocks.pop(0)
        if b[0] == 0x80:
            ctx.assume((b[1] >= 1) & (b[1] <= 3))
        if b[0] == 0x80 and b[1] == 3:
            used += 1
        elif b[0] == 0x80 and b[1] == 2:
            used += 1
            jump = False
        elif b[0] == 0x80 and b[1] == 1:
            used += 3
            w = s.take(4)
            if w is None:
                return
            jump = True
            s("J", num(ctx, w[:2], False), num(ctx, w[2:], False))
        else:
            used += 1
            s("J" if jump else "S", s8(ctx, b[0]), s8(ctx, b[1]))


def d_spx(s, ctx):
    while True:
        b = s.take(9)
        if b is None:
            return
        s("S", num(ctx, b[4:6], False), -num(ctx, b[2:4], False) - s8(ctx, b[6]))


def d_stc(s, ctx):
    while True:
        b = s.take(3)
        if b is None:
            return
        x, y, c = s8(ctx, b[0]), -s8(ctx, b[1]), b[2]
        if c == 1:
            s("S", x, y)
        elif c == 0:
            s("J", x, y)
        elif c == 25:
            return
        else:
            s.needle(c - 2)


def d_zhs(s, ctx):
    ax = ay = 0
    while True:
        b = s.take(3)
        if b is None:
            return
        c = b[0]
        if c == 0x10:
            continue
        # the bits of both coordinates alternate between the two bytes
        x = (b[1] & 0x55) + (b[2] & 0xAA)
        y = (b[2] & 0x55) + (b[1] & 0xAA)
        x, y = s8(ctx, x), s8(ctx, y)
        far = lambda v: ctx.ite(v >= 63, v + 1, ctx.ite(v <= -63, v - 1, v))
        ax, ay = ax + far(x), ay + far(y)
        if c == 2:
            s("S", ax, -ay)
        elif c == 1:
            s("J", ax, -ay)
        elif c == 4:
            s("C")
        elif c == 0x80:
            return
        else:
            continue
        ax = ay = 0


def d_zxy(s, ctx):
    while True:
        b = s.take(3)
        if b is None:
            return
        c = b[0]
        x, y = sign(ctx, c & 8, b[1]), -sign(ctx, c & 4, b[2])
        c = c & 0xF3
        if c == 0:
            s("S", x, y)
        elif c & 2 != 0:
            s("J", x, y)
        elif c & 0x20 != 0:
            if b[1] == 0xFF:
                return
            s.needle(b[2])


Z = [0]


def le32(v):
    return [v & 255, v >> 8 & 255, v >> 16 & 255, v >> 24 & 255]


# name: (reader module, record length, header of a variant, decoder, scale)
FORMATS = {
    "10o": ("A10oReader", 3, lambda v: [], d_10o),
    "100": ("A100Reader", 4, lambda v: [], d_100),
    "bro": ("BroReader", 5, lambda v: Z * 0x100, d_bro),
    "barudan": ("DatReader", 3, lambda v: [], d_barudan),
    "sunstar": ("DatReader", 3, lambda v: Z * 0x100, d_sunstar),
    "dsb": ("DsbReader", 3, lambda v: Z * 512, d_dsb),
    "dsz": ("DszReader", 3, lambda v: Z * 512, d_dsz),
    "emd": ("EmdReader", 3, lambda v: Z * 0x30, d_emd),
    "fxy": ("FxyReader", 3, lambda v: Z * 0x100, d_dsz),
    "gt": ("GtReader", 3, lambda v: Z * 0x200, d_dsz),
    "inb": ("InbReader", 3, lambda v: Z * 0x2000, d_inb),
    "jpx": ("JpxReader", 3, lambda v: le32(0x44 + v) + Z * 0x1C + le32(0) + Z * (0x20 + v), d_jpx),
    "ksm": ("KsmReader", 3, lambda v: Z * 0x200, d_ksm),
    "mit": ("MitReader", 2, lambda v: [], d_mit),
    "new": ("NewReader", 3, lambda v: Z * 2, d_new),
    "sew": ("SewReader", 3, lambda v: [v & 3, 0] + [v, 0] * (v & 3) + Z * (0x1D76 - 2 * (v & 3)), d_sew),
    "spx": ("SpxReader", 9, lambda v: Z * 0x11E, d_spx),
    "stc": ("StcReader", 3, lambda v: Z * 0x28, d_stc),
    "zhs": ("ZhsReader", 3, lambda v: Z * 15 + le32(0x1A + v) + le32(0x17) + [0, 0, 0] + Z * v, d_zhs),
    "zxy": ("ZxyReader", 3, lambda v: [0, 0, v] + Z * v, d_zxy),
}


def compare_decoded(ctx, p, s, fmt, scale=1):
    pe = ctx.pe
    want = s.out
    have = p.stitches
    if len(have) < len(want) + 1:
        ctx.fail("%s: %d commands of %d records' %d" % (fmt, len(have), s.i, len(want)))
    for i, w in enumerate(want):
        h = have[i]
        if scale == 1:
            ctx.check(ctx.eq(list(h), w), "%s: command %d" % (fmt, i))
        else:
            ctx.check((h[2] == w[2]) & close(ctx, h[0], w[0], scale) & close(ctx, h[1], w[1], scale), "%s: command %d" % (fmt, i))
    if len(have) > len(want) + 1:
        ctx.fail("%s: commands after the end of the records" % fmt)
    e = have[len(want)]
    ctx.check((e[2] & MASK) == pe.END, "%s: no end after the records" % fmt)


def close(ctx, h, w, scale):
    """h is w units, up to float arithmetic (positions are products with a ratio)"""
    d = h - w * scale
    return (d <= 0.001) & (d >= -0.001)


def ordinary(ctx, fmt):
    """the bytes of some ordinary record of a format: the first of a few tries that moves or sews and does not end the design"""
    size, decode = FORMATS[fmt][1], FORMATS[fmt][3]
    for last in (1, 2, 0x81, 0x80, 0, 0x10, 3, 0x21):
        for place in (0, -1):
            rec = [1] * size
            rec[place] = last
            if fmt == "barudan" and rec[0] < 128:
                continue
            s = Sim(ctx, rec * 3)
            try:
                decode(s, ctx)
            except AssertionError:
                continue
            if s.i == 3 * size and len(s.out) >= 2:
                return rec
    raise AssertionError("no stitch record for " + fmt)


def run(ctx, fmt, n, cut, lead=0):
    mod, size, header, decode = FORMATS[fmt][:4]
    v = 0 if lead else ctx.choose("variant", [0, 2])
    h = header(v)
    data = (ordinary(ctx, fmt) * lead if lead else []) + list(ctx.bytes("rec", n * size - cut))
    if fmt == "barudan" and len(data) > 0:
        ctx.assume(data[0] >= 128)
    s = Sim(ctx, data)
    decode(s, ctx)
    p = ctx.pe.EmbPattern()
    ctx.module(mod).read(ctx.stream(bytes_of(ctx, h + data)), p)
    compare_decoded(ctx, p, s, fmt)
    if fmt == "sew":
        t = ctx.module("EmbThreadSew").get_thread_set()
        ctx.check([x.color for x in p.threadlist] == [t[v].color] * (v & 3), "sew threads")
    ctx.cover("end")


def bytes_of(ctx, xs):
    if ctx.symbolic:
        from engine.values import SymBytes
        return SymBytes(list(xs))
    return bytes(xs)


def scaled(ctx, fmt, n, cut):
    le = fmt != "pcm"
    mod = {"pcd": "PcdReader", "pcq": "PcqReader", "pcs": "PcsReader", "pcm": "PcmReader", "max": "MaxReader"}[fmt]
    k = ctx.choose("colors", [0, 2])
    size = 8 if fmt == "max" else 9
    data = list(ctx.bytes("rec", n * size - cut))
    if fmt == "max":
        count = ctx.choose("count", [n - 1, n, n + 1])
        h = Z * 0xD5 + le32(count)
    elif fmt == "pcm":
        cols = [ctx.choose("ci%d" % i, [0, 2, 15]) for i in range(k)]
        h = [0, 0, 0, k] + sum(([0, c] for c in cols), []) + [0, n]
    else:
        cols = list(ctx.bytes("rgb", 3 * k))
        h = [0x32, 2, k, 0] + sum((cols[3 * i:3 * i + 3] + [0] for i in range(k)), []) + [n, 0]
    s = Sim(ctx, data)
    if fmt == "max":
        s.count = count
        d_max(s, ctx)
    else:
        d_pc(s, ctx, le)
    p = ctx.pe.EmbPattern()
    ctx.module(mod).read(ctx.stream(bytes_of(ctx, h + data)), p)
    from fractions import Fraction
    ratio = 1.235 if fmt == "max" else 5.0 / 3.0
    compare_decoded(ctx, p, s, fmt, ratio)
    if fmt in ("pcd", "pcq", "pcs"):
        ctx.check(len(p.threadlist) == k, "%s: threads" % fmt)
        for i, t in enumerate(p.threadlist):
            ctx.check(t.color == cols[3 * i] * 65536 + cols[3 * i + 1] * 256 + cols[3 * i + 2], "%s: thread %d" % (fmt, i))
    elif fmt == "pcm":
        std = {0: 0x000000, 2: 0x0000FF, 15: 0xFFFFFF}
        ctx.check([t.color for t in p.threadlist] == [std[c] for c in cols], "pcm threads")
    ctx.cover("end")


def shv(ctx, n, cut, lead=0):
    counts = ctx.choose("counts", [(257,), (2,), (300, 258), (256, 301)] if lead else [(), (1,), (2,), (1, 1), (3, 1), (1, 2)])
    w, hgt = ctx.choose("icon", [(4, 3)] if lead else [(4, 3), (2, 2)])
    h = Z * 0x56 + [2, 65, 66, w, hgt] + Z * (4 + (hgt + 1) // 2 * w) + [len(counts)] + Z * 18
    for i, c in enumerate(counts):
        h += [0, 0, c >> 8, c & 255, 1 + i] + Z * 9
    h = h[:-2]
    data = [1, 1] * lead + list(ctx.bytes("rec", n * 2 - cut))
    s = Sim(ctx, data)
    s.counts = counts or (0,)
    d_shv(s, ctx)
    p = ctx.pe.EmbPattern()
    ctx.module("ShvReader").read(ctx.stream(bytes_of(ctx, h + data)), p)
    compare_decoded(ctx, p, s, "shv")
    t = ctx.module("EmbThreadShv").get_thread_set()
    ctx.check([x.color for x in p.threadlist] == [t[1 + i].color for i in range(len(counts))], "shv threads")
    ctx.check(p.get_metadata("name") == "AB", "shv name")
    ctx.cover("end")


def same_as(ctx, fmt, n):
    """formats that wrap another format's stitch records: any bytes read as they do there"""
    pe = ctx.pe
    v = ctx.choose("variant", [0, 3])
    if fmt == "exy":
        body = ctx.bytes("rec", 3 * n)
        a, b, base, h, hb = "ExyReader", "DstReader", "dst_read_stitches", Z * 0x100, []
    elif fmt == "tap":
        body = ctx.bytes("rec", 3 * n)
        a, b, base, h, hb = "TapReader", "DstReader", "dst_read_stitches", [], []
    elif fmt == "stx":
        body = ctx.bytes("rec", 2 * n)
        a, b, base, h, hb = "StxReader", "ExpReader", "read_exp_stitches", Z * 12 + le32(0) + le32(0) + le32(24 + v) + Z * v, []
    elif fmt == "phb":
        body = ctx.bytes("rec", 2 * n)
        k = 2
        # colours, then three sections found by their lengths, then the stitch header
        o1, o2, o3 = 0x30 + v, 20 + v, 30
        h = Z * 0x71 + [k, 0] + [5, 70]
        a0 = 0x52 + o1
        h += Z * (a0 - len(h)) + le32(o2) + Z * (o2 - 2) + le32(o3)
        h = h[:a0 + o2 + 2] + le32(o3)
        h += Z * (a0 + o2 + 2 + o3 + 14 - len(h)) + [1] + Z * (1 + 0x15)
        h[0x54:0x58] = le32(o1)
        a, b, base = "PhbReader", "PecReader", "read_pec_stitches"
    else:
        body = ctx.bytes("rec", 2 * n)
        h = Z * 0x4A + [2, 0, 1] + [2, 0] + [5, 70] + Z * 6
        add, off = 10, len(h) - 10 + v
        h[0x2B] = add
        h[0x30:0x32] = [off & 255, off >> 8]
        h += Z * v + [3, 0] + Z * 3 + le32(4) + Z * (4 + 10) + [1] + Z * (1 + 0x1D)
        a, b, base = "PhcReader", "PecReader", "read_pec_stitches"
    f = ctx.stream(bytes_of(ctx, h + list(body)))
    p = pe.EmbPattern()
    ctx.module(a).read(f, p)
    q = pe.EmbPattern()
    g = ctx.stream(bytes_of(ctx, list(body)))
    getattr(ctx.module(b), base)(g, q)
    if fmt in ("phb", "phc"):
        t = ctx.module("EmbThreadPec").get_thread_set()
        ctx.check([x.color for x in p.threadlist] == [t[5].color, t[70 % len(t)].color], fmt + " threads")
        # a repeated colour would be a stop; these two differ
        q.threadlist = list(p.threadlist)
    ctx.check(ctx.eq([list(x) for x in p.stitches], [list(x) for x in q.stitches]), "%s: records read differently from %s" % (fmt, b))
    ctx.cover("end")


STATE = ("ksm", "mit", "zhs")


def harnesses(tier):
    t = tier == "thorough"
    hs = []
    for fmt, spec in FORMATS.items():
        size = spec[1]
        n = 3 if (t or fmt in STATE) else 2
        if t and fmt in STATE:
            n = 4
        for k in sorted({1, n}):
            for cut in range(size if k == n else 1):
                hs.append(Harness("%s_%d_%d" % (fmt, k, cut), lambda ctx, f=fmt, k=k, c=cut: run(ctx, f, k, c), {}, ("end",)))
    for fmt in ("pcd", "pcq", "pcs", "pcm", "max"):
        for cut in (0, 1, 5, 8 if fmt != "max" else 7):
            hs.append(Harness("%s_%d" % (fmt, cut), lambda ctx, f=fmt, c=cut: scaled(ctx, f, 3 if t else 2, c), {}, ("end",)))
    for n, cut in [(2, 0), (3, 0), (3, 1)] + ([(4, 0), (5, 0), (5, 1)] if t else [(4, 0)]):
        hs.append(Harness("shv_%d_%d" % (n, cut), lambda ctx, n=n, c=cut: shv(ctx, n, c), {}, ("end",)))
    for lead in (256, 300, 560):
        hs.append(Harness("shv_after%d" % lead, lambda ctx, k=lead: shv(ctx, 2 if t else 1, 0, k), {}, ("end",)))
    for fmt in FORMATS:
        hs.append(Harness(fmt + "_after", lambda ctx, f=fmt: run(ctx, f, 1, 0, 300), {}, ("end",)))
    for fmt in ("exy", "tap", "stx", "phb", "phc"):
        hs.append(Harness(fmt, lambda ctx, f=fmt: same_as(ctx, f, 3 if t else 2), {}, ("end",)))
    return hs
