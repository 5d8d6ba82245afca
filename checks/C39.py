from .common import *
from .C24 import bytes_of, le32
from .C33 import Bits
from .C37 import word, maybe, alike, junk, block, field
from . import palettes as T

BOUNDS = ("one or two entries of every table format with a symbolic colour index over the whole range of its field (8 bits PEC, PHB, PHC, SHV; 16 bits SEW, HUS, PCM; 31 bits JEF; JPX numbers of 1 to 3 and 5 digits) against the published "
          "palettes (PEC 65, JEF 79, SEW 79, HUS 29, SHV 42, Windows 16 entries), symbolic 24-bit colours and thread texts of up to 2 characters (ZHS), tables shorter and longer than the blocks, "
          "repeated entries, 0 to 2 previews (PHC).")
OUTSIDE = "tables cut off by the end of the file; PES, PEC previews and DST thread lines are in C37, VP3, XXX and TBF threads in C06, C07 and C09, PCD, PCQ and PCS in C24, palette files in C32."
DEADLINE = 100
PCM = [0x000000, 0x000080, 0x0000FF, 0x008080, 0x00FFFF, 0x800080, 0xFF00FF, 0x800000, 0xFF0000, 0x008000, 0x00FF00, 0x808000, 0xFFFF00, 0x808080, 0xC0C0C0, 0xFFFFFF]
PALETTES = {"pec": T.PEC, "phb": T.PEC, "phc": T.PEC, "jef": T.JEF, "sew": T.SEW, "hus": T.HUS, "shv": T.SHV, "pcm": [(c, "PCM Color %d" % (i + 1), None) for i, c in enumerate(PCM)]}
BRANDS = {"pec": T.PEC_BRAND, "phb": T.PEC_BRAND, "phc": T.PEC_BRAND, "jef": T.JEF_BRAND, "sew": T.SEW_BRAND, "hus": T.HUS_BRAND, "shv": T.SHV_BRAND, "pcm": (None, None)}
READERS = {"phb": "PhbReader", "phc": "PhcReader", "jef": "JefReader", "sew": "SewReader", "hus": "HusReader", "shv": "ShvReader", "pcm": "PcmReader", "pec": "PecReader", "jpx": "JpxReader", "zhs": "ZhsReader"}
Z = [0]


def half(v):
    return [v & 255, v >> 8]


def word4(v):
    v = v & 0xFFFFFFFF
    return [v & 255, v >> 8 & 255, v >> 16 & 255, v >> 24]


def phb(cols, body, pictures=()):
    o1, o2, o3 = 0x30 + len(cols), 20, 30
    h = Z * 0x71 + half(len(cols)) + list(cols)
    a = 0x52 + o1
    h += Z * (a - len(h)) + le32(o2) + Z * (o2 - 2) + le32(o3)
    h += Z * (o3 + 10) + [len(cols)] + Z * (len(cols) + 0x15)
    h[0x54:0x58] = le32(o1)
    return h + body


def phc(cols, body, pictures=()):
    """pictures: as many as colours"""
    h = junk(0x4A) + [3, 9, 2] + half(len(cols)) + list(cols)
    for p in pictures:
        h += p
    add, off = 12, len(h) - 12
    h[0x2B] = add
    h[0x30:0x32] = half(off)
    return h + [3, 0] + Z * 3 + le32(4) + Z * (4 + 10) + [len(cols)] + Z * (len(cols) + 0x1D) + body


def head(fmt, cols, stitches=2):
    """a file of this format with these colour numbers and two stitches, the second in the second block when there are two colours"""
    k = len(cols)
    if fmt in ("phb", "phc", "pec"):
        change = [0xFE, 0xB0, 1] if k > 1 else []
        body = [5, 6] + change + [7, 8] + [0xFF, 0]
        if fmt == "phb":
            return phb(cols, body)
        if fmt == "phc":
            return phc(cols, body, [[i + 1] * 6 for i in range(k)])
        return [ord(c) for c in "#PEC0001"] + block(cols, [(5, 6), (7, 8)], (1,) if k > 1 else ())
    if fmt == "jef":
        h = le32(116 + 8 * k) + junk(20) + le32(k) + junk(88)
        for c in cols:
            h += word4(c)
        return h + le32(13) * k + [5, 250] + ([0x80, 1, 0, 0] if k > 1 else []) + [7, 248, 0x80, 0x10]
    if fmt == "sew":
        h = half(k)
        for c in cols:
            h += half(c)
        h += junk(0x1D78 - len(h))
        return h + [5, 250] + ([0x80, 1, 0, 0] if k > 1 else []) + [7, 248]
    if fmt == "pcm":
        h = [0x32, 0, 0, k]
        for c in cols:
            h += [c >> 8, c & 255]
        rec = lambda x, y, c: [0, 0, x, 0, 0, 0, y, 0, c]
        return h + [0, 2 + (k > 1)] + rec(3, 0, 0) + (rec(3, 0, 1) if k > 1 else []) + rec(6, 3, 0)
    if fmt == "shv":
        h = junk(0x56) + [1, 65, 4, 3] + junk(4 + 2 * 4) + [k] + junk(18)
        for c in cols:
            h += [0, 0, 0, 1, c] + junk(9)
        return h[:-2] + [5, 6, 7, 8]
    if fmt == "jpx":
        h = le32(0x44 + 4 * k) + junk(0x1C) + le32(k) + junk(0x18)
        for c in cols:
            h += word4(c)
        h += junk(0x44 + 4 * k - len(h))
        return h + [5, 250] + ([0x80, 1, 0, 0] if k > 1 else []) + [7, 248]
    raise KeyError(fmt)


def hus(ctx, cols):
    """compressed as one block for each value, every block of a single code (C33 has the others)"""
    streams = []
    for vals in ([0x80, 0x84, 0x80], [5, 0, 7], [250, 0, 248]):
        b = Bits()
        for v in vals:
            b.put(1, 16).put(0, 5).put(0, 5).put(0, 9).put(v, 9).put(0, 5).put(0, 5)
        streams.append(b.bytes())
    k = len(cols)
    h = le32(0x5BAF00C8) + le32(3) + le32(k) + Z * 8
    at = 42 + 2 * k + 3
    h += le32(at) + le32(at + len(streams[0])) + le32(at + len(streams[0]) + len(streams[1])) + junk(8) + Z * 2
    for c in cols:
        h += half(c)
    return h + junk(3) + sum(streams, [])


def load(ctx, fmt, cols):
    p = ctx.pe.EmbPattern()
    h = hus(ctx, cols) if fmt == "hus" else head(fmt, cols)
    f = ctx.stream(bytes_of(ctx, h))
    ctx.module(READERS[fmt]).read(f, p)
    return p


def entry(ctx, fmt, t, index, what):
    """the thread is the palette's entry of this number"""
    pal = PALETTES[fmt]
    found = []
    for i, e in enumerate(pal):
        c, d, k = e or (0, None, None)
        b = BRANDS[fmt] if e else (None, None)
        if t.color == c and t.description == d and t.catalog_number == k and (t.brand, t.chart) == b:
            found.append(i)
    if not found:
        ctx.fail("%s: %s is #%06X %r, in no palette" % (fmt, what, t.color, t.description))
    ctx.check(ctx.any([index % len(pal) == i for i in found]), "%s: %s has another colour number" % (fmt, what))


BITS = {"pec": 8, "phb": 8, "phc": 8, "shv": 8, "sew": 16, "hus": 16, "pcm": 16, "jef": 31}


def index(ctx, fmt, name):
    return ctx.int(name, 0, (1 << BITS[fmt]) - 1)


def table(ctx, fmt, k, free):
    cols = [index(ctx, fmt, "c%d" % i) if i == free else 3 + 2 * i for i in range(k)]
    p = load(ctx, fmt, cols)
    eff = cols
    n = len(PALETTES[fmt])
    pe = ctx.pe
    stops = [False] * k
    if fmt in ("pec", "phb", "phc"):
        # a repeated colour is a stop; entry 0 of the palette is no thread of its own
        for i in range(1, min(k, 2)):
            stops[i] = bool(eff[i] % n == eff[i - 1] % n)
    if fmt == "jef":
        # colour 0 is a stop instead of a colour, unless no change belongs to it
        for i in range(1, min(k, 2)):
            stops[i] = bool(eff[i] == 0)
    want = [e for e, s in zip(eff, stops) if not s]
    if len(p.threadlist) != len(want):
        ctx.fail("%s: %d threads of %d colours" % (fmt, len(p.threadlist), len(want)))
    for i, (t, e) in enumerate(zip(p.threadlist, want)):
        entry(ctx, fmt, t, e, "thread %d" % i)
    cmds = [pe.STITCH] + ([pe.STOP if stops[1] else pe.COLOR_CHANGE] if k > 1 else (([pe.COLOR_CHANGE] if fmt in ("hus", "shv") else []))) + [pe.STITCH, pe.END]
    got = [s[2] & MASK for s in p.stitches]
    if got != cmds:
        ctx.fail("%s: commands %r, expected %r" % (fmt, got, cmds))
    if fmt == "phc":
        for i in range(k):
            g = p.get_metadata("pec_graphic_%d" % i)
            if g is None or list(g[0]) != [i + 1] * 6 or g[1] != 2:
                ctx.fail("phc: preview %d" % i)
    ctx.cover("end")


def alone(ctx, fmt):
    """the threads of a design are its own"""
    p = load(ctx, fmt, [5, 9])
    c = ctx.int("c", 0, 0xFFFFFF)
    for t in p.threadlist:
        t.color = c
        t.description = "mine"
    q = load(ctx, fmt, [5, 9])
    for t, i in zip(q.threadlist, (5, 9)):
        entry(ctx, fmt, t, i, "thread %d of the next design" % i)
    if len(q.threadlist) != 2:
        ctx.fail("%s: threads of the next design" % fmt)
    ctx.cover("end")


def more(ctx, fmt, k):
    """changes beyond the table: the design is read all the same"""
    pe = ctx.pe
    n = ctx.choose("changes", [0, 1, 2, 3])
    cols = [1 + i for i in range(k)]
    rec = [5, 250]
    for i in range(n):
        rec += [0x80, 1, 0, 0, 3, 4]
    h = head(fmt, cols)[:-(6 if k < 2 else 10) if fmt == "jef" else -(4 if k < 2 else 8)] + rec
    p = pe.EmbPattern()
    ctx.module(READERS[fmt]).read(ctx.stream(bytes_of(ctx, h)), p)
    if [s[2] & MASK for s in p.stitches] != [pe.STITCH] + [pe.COLOR_CHANGE, pe.STITCH] * n + [pe.END]:
        ctx.fail("%s: commands %r" % (fmt, [s[2] & MASK for s in p.stitches]))
    if len(p.threadlist) != k or any(t is None for t in p.threadlist):
        ctx.fail("%s: threads %r" % (fmt, p.threadlist))
    ctx.cover("end")


def zero(ctx, lead=0):
    """JEF colour 0 in any place: no gap is left in the thread list; after any number of blocks"""
    pe = ctx.pe
    cols = [1 + i % 70 for i in range(lead)] + [ctx.choose("c%d" % i, [0, 4]) for i in range(3)]
    n = lead + ctx.choose("changes", [0, 1, 2])
    rec = [5, 250] + [0x80, 1, 0, 0, 3, 4] * n
    h = head("jef", cols)[:-10] + rec
    p = pe.EmbPattern()
    ctx.module("JefReader").read(ctx.stream(bytes_of(ctx, h)), p)
    stops = [cols[i + 1] == 0 for i in range(n)]
    if [s[2] & MASK for s in p.stitches] != [pe.STITCH] + sum(([pe.STOP if s else pe.COLOR_CHANGE, pe.STITCH] for s in stops), []) + [pe.END]:
        ctx.fail("jef: commands %r" % [s[2] & MASK for s in p.stitches])
    if any(t is None for t in p.threadlist):
        ctx.fail("jef: colours %r leave a gap in the thread list" % (cols,))
    used = [cols[0]] + [c for c, s in zip(cols[1:], stops) if not s]
    for t, c in zip(p.threadlist, used):
        entry(ctx, "jef", t, c, "colour %d" % c)
    if len(p.threadlist) < len(used):
        ctx.fail("jef: threads are missing")
    ctx.cover("end")


def nothing(ctx, fmt):
    """a design without colours has no threads"""
    pe = ctx.pe
    x = ctx.int("x", -100, 100)
    p = pe.EmbPattern()
    if ctx.choose("jump", [False, True]):
        p.add_stitch_absolute(pe.JUMP, x, 7)
    q, f = roundtrip(ctx, fmt.split("_")[0], p, {"version": int(fmt[-1])} if "_" in fmt else None)
    if len(q.threadlist) != 0 or any(s[2] & MASK in (pe.STITCH, pe.COLOR_CHANGE, pe.STOP) for s in q.stitches):
        ctx.fail("%s: a design without stitches has %d threads" % (fmt, len(q.threadlist)))
    if len([k for k in q.extras if k.startswith("pec_graphic")]) != 1:
        ctx.fail("%s: previews of a design without stitches" % fmt)
    ctx.cover("end")


def jpx(ctx, k, digits):
    """random colours, but each thread carries its number"""
    hi = [(0, 9), (10, 99), (100, 255), (65536, 65536 + 9)][digits]
    cols = [ctx.int("c%d" % i, *hi) if i == 0 else 40 + i for i in range(k)]
    f = head("jpx", cols)
    p = ctx.pe.EmbPattern()
    ctx.module("JpxReader").read(ctx.stream(bytes_of(ctx, f)), p)
    if len(p.threadlist) != k:
        ctx.fail("jpx: %d threads of %d" % (len(p.threadlist), k))
    for t, c in zip(p.threadlist, cols):
        ctx.check(ctx.eq(text_number(ctx, t.description), c), "jpx: thread number")
    ctx.cover("end")


def text_number(ctx, d):
    pre = "JPX index "
    cs = [ord(c) for c in d] if isinstance(d, str) else list(d.s)
    if any(not isinstance(c, int) or c != ord(q) for c, q in zip(cs, pre)):
        ctx.fail("jpx: description")
    v = 0
    for c in cs[len(pre):]:
        if type(c).__name__ == "Tok":
            v = c.v
        else:
            v = v * 10 + (c - 48)
    return v


def zhs(ctx, k, which, parts):
    pe = ctx.pe
    cols = [ctx.int("c%d" % i, 0, 0xFFFFFF) for i in range(k)]
    texts = []
    data = [90]
    for i in range(parts):
        t = []
        for j, name in enumerate(("chart", "desc", "cat")):
            t.append(maybe(ctx, name, (None, 1, 2), 39) if which == (i, j) else ["Chart%d" % i, "", "n%d" % i][j] if j < 2 else "77%d" % i)
        texts.append([None if v is None or len(v) == 0 else v for v in t])
        data += [38, 36]
        for j, v in enumerate(t):
            if j:
                data += [38, 35]
            data += field(v)[1:]
        # two characters follow the catalogue number
        data += [65, 66]
    n = len(data)
    h = junk(15)
    tab = [k]
    for c in cols:
        tab += [c >> 16, c >> 8 & 255, c & 255]
    tab += half(n) + data
    h += le32(23 + len(tab)) + le32(23) + tab + [2, 5, 6, 0x80, 0, 0]
    p = pe.EmbPattern()
    ctx.module("ZhsReader").read(ctx.stream(bytes_of(ctx, h)), p)
    if len(p.threadlist) != k:
        ctx.fail("zhs: %d threads of %d" % (len(p.threadlist), k))
    for i, (t, c) in enumerate(zip(p.threadlist, cols)):
        ctx.check(ctx.eq(t.color & 0xFFFFFF, c), "zhs: colour %d" % i)
        ch, de, ca = texts[i] if i < parts else (None, None, None)
        alike(ctx, t.chart, ch, "zhs: chart")
        alike(ctx, t.description, de, "zhs: description")
        # a catalogue number of one character is left out with its two following characters
        if ca is not None and len(ca) < 2:
            ca = None
        alike(ctx, t.catalog_number, ca, "zhs: catalogue number")
    if [s[2] & MASK for s in p.stitches] != [pe.STITCH, pe.END]:
        ctx.fail("zhs: stitches found in the wrong place")
    ctx.cover("end")


def harnesses(tier):
    t = tier == "thorough"
    hs = []

    def add(name, fn, weight=1, **kw):
        hs.append(Harness(name, fn, kw, ["end"], weight=weight))
    for fmt in PALETTES:
        add("table_%s_1" % fmt, table, fmt=fmt, k=1, free=0)
        for i in (0, 1):
            add("table_%s_2_%d" % (fmt, i), table, fmt=fmt, k=2, free=i)
        if t:
            for i in range(3):
                add("table_%s_3_%d" % (fmt, i), table, fmt=fmt, k=3, free=i)
        add("alone_" + fmt, alone, fmt=fmt)
    for fmt in ("jef", "sew"):
        for k in (0, 1, 2):
            add("more_%s_%d" % (fmt, k), more, fmt=fmt, k=k)
    add("zero", zero)
    for lead in (63, 253):
        add("zero-after-%d" % lead, zero, lead=lead)
    for fmt in ("pec", "pes_1", "pes_6"):
        add("nothing_" + fmt, nothing, fmt=fmt)
    for k in (1, 2):
        for d in range(4):
            add("jpx%d_%d" % (k, d), jpx, k=k, digits=d)
    for k in (0, 1, 2):
        for parts in range(0, 4):
            add("zhs%d_%d" % (k, parts), zhs, k=k, which=None, parts=parts)
            for i in range(min(k, parts)):
                for j in range(3):
                    add("zhs%d_%d_%d_%d" % (k, parts, i, j), zhs, k=k, which=(i, j), parts=parts)
    return hs
