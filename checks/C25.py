from .common import *
from .C05 import u16
from .C04 import separated
from .C24 import bytes_of, num, Sim
from .C34 import lines, skeleton, equals

BOUNDS = ("designs of up to 3 (thorough 4) commands over stitch/jump/trim/colour change/stop that start at the origin, every coordinate in [-100,100] (long steps "
          "up to 600); half-unit coordinates for U01; 1 to 4 threads; DST, TBF, JEF, PEC, PES (1, 6, both truncated forms), VP3, XXX, U01, PMV, INF, COL; the statistics, extents and row numbers that CSV "
          "(plain, delta, full) and G-code state.")
OUTSIDE = ("designs that do not reach the origin in DST and TBF (their extents are magnitudes from it; +Y is the library's downward y), the hoop JEF names beyond the design fitting in it, PES fields that describe the page, thread lists longer than the design's blocks.")
DEADLINE = 100


def flat(ctx, f):
    if hasattr(f, "_flat"):
        f._flat()
    return list(f.buf) if hasattr(f, "buf") else list(f.getvalue())


def const(ctx, v, what):
    if not isinstance(v, int):
        ctx.fail(what + ": a count depends on coordinates")
    return v


def le(b, i, n):
    return sum((b[i + k] * 256 ** k for k in range(n)), 0)


def be(b, i, n):
    return sum((b[i + k] * 256 ** (n - 1 - k) for k in range(n)), 0)


def sle(ctx, b, i, n):
    return num(ctx, b[i:i + n])


def sbe(ctx, b, i, n):
    return num(ctx, b[i:i + n], le=False)


def extremes(ctx, pts):
    """conditions for being the minimum / maximum of pts in each axis"""
    def least(v, vals):
        return ctx.all([v <= u for u in vals] + [ctx.any([ctx.eq(v, u) for u in vals])])
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    neg = lambda l: [-v for v in l]
    return (lambda v: least(v, xs), lambda v: least(-v, neg(xs)), lambda v: least(v, ys), lambda v: least(-v, neg(ys)))


def field(ctx, b, key, n=None):
    """the number in a textual header field"""
    k = key.encode()
    at = -1
    for i in range(len(b) - len(k)):
        if all(isinstance(b[i + j], int) and b[i + j] == k[j] for j in range(len(k))):
            at = i + len(k)
            break
    if at < 0:
        ctx.fail("header field %s missing" % key)
    sg = 1
    if b[at] in (43, 45) and isinstance(b[at], int):
        sg = -1 if b[at] == 45 else 1
        at += 1
    cs = []
    while not (isinstance(b[at], int) and b[at] == 13):
        cs.append(b[at])
        at += 1
    v = 0
    ok = []
    for c in cs:
        digit = (c >= 48) & (c <= 57)
        if isinstance(c, int):
            ok.append(digit or c == 32)
        else:
            ok.append(digit | (c == 32))
        v = v * 10 + ctx.ite(digit, c - 48, 0)
    ctx.check(ctx.all(ok), "header field %s is no number" % key)
    return sg * v


def points(ctx, q):
    return [(s[0], s[1]) for s in q.stitches]


def tally(ops, trims=False):
    exp = expect(ops, explicit_trim=trims)
    gaps = [g for g, _, _, _ in exp[0]] + [exp[1]]
    return dict(C=sum(g.ev.count("C") for g in gaps), X=sum(g.ev.count("X") for g in gaps), T=sum(g.trim for g in gaps), S=len(exp[0]))


def make(ctx, k, R, alphabet="STCXJ", Ry=None, last=None):
    if last == "off":  # nothing at the origin
        return design(ctx, alphabet, k, R, first="S", Ry=Ry)
    return [("S", 0, 0)] + design(ctx, alphabet, k, R, last=last, Ry=Ry)


def textual(ctx, fmt, k, R, alphabet="STCXJ", Ry=None, last=None, lists=None):
    ops = make(ctx, k, R, alphabet, Ry, last)
    pe = ctx.pe
    f = ctx.stream()
    p = build(ctx, ops, (THREADS * 3)[:ctx.choose("threads", lists)] if lists else THREADS)
    n = {"dst": 3, "tbf": 3}[fmt]
    getattr(pe, "write_" + fmt)(p, f, None)
    b = flat(ctx, f)
    size = {"dst": 512, "tbf": 0x600}[fmt]
    what = fmt.upper()
    # the records after the header
    recs = [b[i:i + 3] for i in range(size, len(b) - (fmt == "tbf"), 3)]
    x = y = 0
    pts = []
    kinds = []
    for r in recs:
        if fmt == "dst":
            c = r[2] & 0xF3 if isinstance(r[2], int) else None
            dx, dy = dst_move(ctx, r)
            const(ctx, r[2] & 0xC3, what)
            kind = {0x03: "S", 0x83: "J", 0xC3: "C"}[r[2] & 0xC3] if not (isinstance(r[2], int) and r[2] == 0xF3) else "D"
        else:
            dx, dy = num(ctx, [r[0]]), -num(ctx, [r[1]])
            kind = {0x80: "S", 0x90: "J", 0x40: "X", 0x86: "T", 0x81: "C", 0x8F: "D"}.get(const(ctx, r[2], what))
        x, y = x + dx, y + dy
        kinds.append(kind)
        pts.append((x, y))
    if len(recs) * 3 + size + (fmt == "tbf") != len(b) or kinds[-1] != "D" or kinds.count("D") != 1:
        ctx.fail(what + ": the stitch data does not fill the file after a header of %d bytes" % size)
    t = tally(ops, trims=fmt == "tbf")
    st, co = field(ctx, b[:size], "ST:"), field(ctx, b[:size], "CO:")
    st, co = const(ctx, st, what), const(ctx, co, what)
    if fmt == "dst":
        # a trim is one command of three jump records
        st += 2 * t["T"]
        if co != kinds.count("C"):
            ctx.fail("DST: CO is %d for %d change records" % (co, kinds.count("C")))
        # where the trim's jiggle goes is not part of the design
        if t["T"]:
            pts = None
    else:
        if co != kinds.count("C"):
            ctx.fail("TBF: CO is %d for %d needle changes" % (co, kinds.count("C")))
    if st != len(recs):
        ctx.fail("%s: ST stands for %d commands, %d written" % (what, st, len(recs)))
    if pts:
        h = b[:size]
        if last == "off" and fmt == "dst":  # magnitudes of the extents
            ends = [lambda v, q=q: ctx.any([q(v), q(-v)]) for q in extremes(ctx, pts)]
        else:
            ends = extremes(ctx, pts + [(0, 0)])
        lx, hx, ly, hy = ends
        ctx.check(ctx.all([hx(field(ctx, h, "+X:")), lx(-field(ctx, h, "-X:")), hy(field(ctx, h, "+Y:")), ly(-field(ctx, h, "-Y:"))]), what + ": extents")
    else:
        h = b[:size]
    ctx.check(ctx.eq((field(ctx, h, "AX:"), -field(ctx, h, "AY:")), (x, y)), what + ": final position")
    if fmt == "tbf":
        at = bytes_find(b, b"DO:") + 3
        order = [const(ctx, v, what) for v in b[at:at + 256]]
        needles = [j + 1 for j in range(kinds.count("C"))]
        if order != needles + [0] * (256 - len(needles)):
            ctx.fail("TBF: needle order %r for %d changes" % (order[:8], len(needles)))
        if bytes(b[at + 256:at + 260]) != b"\rDA:":
            ctx.fail("TBF: thread table misplaced")
        at += 260
        for c in THREADS:
            if b[at:at + 5] != [0x45, c >> 16, c >> 8 & 255, c & 255, 0x20]:
                ctx.fail("TBF: thread table")
            at += 5
    ctx.cover("end")


def bytes_find(b, s):
    for i in range(len(b) - len(s) + 1):
        if all(isinstance(b[i + j], int) and b[i + j] == s[j] for j in range(len(s))):
            return i
    return -1


def dst_move(ctx, r):
    w = {(0, 0): (1, 0), (0, 1): (-1, 0), (0, 2): (9, 0), (0, 3): (-9, 0), (0, 4): (0, -9), (0, 5): (0, 9), (0, 6): (0, -1), (0, 7): (0, 1),
         (1, 0): (3, 0), (1, 1): (-3, 0), (1, 2): (27, 0), (1, 3): (-27, 0), (1, 4): (0, -27), (1, 5): (0, 27), (1, 6): (0, -3), (1, 7): (0, 3),
         (2, 2): (81, 0), (2, 3): (-81, 0), (2, 4): (0, -81), (2, 5): (0, 81)}
    x = y = 0
    if isinstance(r[2], int) and r[2] == 0xF3:
        return 0, 0
    for (i, k), (dx, dy) in w.items():
        bit = r[i] >> k & 1
        x = x + dx * bit
        y = y - dy * bit
    return x, y


# 0.1 mm; a design larger than all names the first
HOOPS = {0: (1100, 1100), 1: (500, 500), 2: (1400, 2000), 3: (1260, 1100), 4: (2000, 2000)}


def jef_hoop(ctx):
    """extents around every size the header distinguishes"""
    w, h = [ctx.choose("w", [0, 500, 1260, 1400, 2000]), ctx.choose("h", [0, 500, 1100, 2000])]
    jef(ctx, 1, 0, False, ops=[("S", 0, 0), ("S", w + ctx.int("dx", -1, 1), h + ctx.int("dy", -1, 1))])


def jef(ctx, k, R, trims, alphabet="STCX", Ry=None, last=None, ops=None):
    ops = ops or make(ctx, k, R, alphabet, Ry, last)
    f = ctx.stream()
    p = build(ctx, ops, THREADS)
    st = {"date": "20200101000000", "trims": trims}
    at = ctx.choose("trim_at", [None, 2, 8]) if trims else None
    if at is not None:
        st["trim_at"] = at
    ctx.pe.write_jef(p, f, st)
    b = flat(ctx, f)
    t = tally(ops)
    off, ncol, npt = (const(ctx, le(b, i, 4), "JEF") for i in (0, 24, 28))
    if off != 0x74 + 8 * ncol or ncol != t["C"] + t["X"] + 1:
        ctx.fail("JEF: %d colours, offset %d, design has %d" % (ncol, off, t["C"] + t["X"] + 1))
    if off + 2 * npt != len(b):
        ctx.fail("JEF: %d points at %d, file has %d bytes" % (npt, off, len(b)))
    if any(le(b, 0x74 + 4 * ncol + 4 * j, 4) != 0x0D for j in range(ncol)):
        ctx.fail("JEF: thread type table")
    i, x, y, pts, ev = off, 0, 0, [], []
    while i < len(b):
        if isinstance(b[i], int) and b[i] == 0x80:
            c = const(ctx, b[i + 1], "JEF")
            if c == 0x10:
                i += 2
                break
            dx, dy, i = b[i + 2], b[i + 3], i + 4
            ev.append(c)
        else:
            ctx.check(b[i] != 0x80, "JEF: a stitch that looks like a command")
            dx, dy, i = b[i], b[i + 1], i + 2
        x, y = x + num(ctx, [dx]), y - num(ctx, [dy])
        pts.append((x, y))
    if i != len(b):
        ctx.fail("JEF: data after the end")
    if ev.count(1) != t["C"] + t["X"] or (trims and ev.count(2) < (at or 3) * t["T"]):
        ctx.fail("JEF: changes or trims missing from the data")
    lx, hx, ly, hy = extremes(ctx, pts + [(0, 0)])
    hw, hh = le(b, 36, 4), le(b, 40, 4)
    w, h = ext(ctx, pts, 0), ext(ctx, pts, 1)
    ctx.check(ctx.all([2 * hw - w <= 1, w - 2 * hw <= 1, 2 * hh - h <= 1, h - 2 * hh <= 1, ctx.eq((le(b, 44, 4), le(b, 48, 4)), (hw, hh))]),
              "JEF: extents")
    hoop = le(b, 32, 4)
    big = ctx.any([w >= 2000, h >= 2000])
    ctx.check(ctx.any([ctx.all([ctx.eq(hoop, k), ctx.any([big, ctx.all([w <= u, h <= v])])]) for k, (u, v) in HOOPS.items()]), "JEF: the design does not fit the hoop named for it")
    for j, (ex, ey) in enumerate([(550, 550), (250, 250), (700, 1000), (700, 1000)]):
        o = 52 + 16 * j
        v = [sle(ctx, b, o + 4 * m, 4) for m in range(4)]
        fits = ctx.all([hw <= ex, hh <= ey])
        ctx.check(ctx.ite(fits, ctx.all([ctx.eq((v[0], v[1], v[2], v[3]), (ex - hw, ey - hh, ex - hw, ey - hh))]),
                          ctx.eq((v[0], v[1], v[2], v[3]), (-1, -1, -1, -1))) if ctx.symbolic else
                  (v == [ex - hw, ey - hh] * 2 if fits else v == [-1] * 4), "JEF: distance to the hoop")
    ctx.cover("end")


def ext(ctx, pts, axis):
    lo = hi = None
    for p in pts:
        v = p[axis]
        lo = v if lo is None else ctx.ite(v < lo, v, lo)
        hi = v if hi is None else ctx.ite(v > hi, v, hi)
    return hi - lo


def pec_block(ctx, b, at, t, what):
    """label, colour count, block length, extents and graphics of the PEC block at `at`"""
    ncol = const(ctx, b[at + 48], what) + 1
    if ncol != t["C"] + t["X"] + 1:
        ctx.fail("%s: %d colours, design has %d" % (what, ncol, t["C"] + t["X"] + 1))
    if (b[at + 34], b[at + 35]) != (6, 38):
        ctx.fail(what + ": icon size")
    s = at + 512
    n = const(ctx, le(b, s + 2, 3), what)
    i, x, y, pts, changes = s + 20 - 4, 0, 0, [], 0

    def value(i):
        hi = b[i] & 0x80
        if not isinstance(hi, int):
            hi = 128 if bool(hi != 0) else 0
        if hi:
            v = (b[i] & 15) * 256 + b[i + 1]
            return ctx.ite(v >= 2048, v - 4096, v), i + 2
        return ctx.ite(b[i] >= 64, b[i] - 128, b[i]), i + 1
    i = s + 16
    while True:
        c = b[i]
        if isinstance(c, int) and c == 0xFF:
            i += 1
            break
        if isinstance(c, int) and c == 0xFE:
            if b[i + 1] != 0xB0 or b[i + 2] != 2 - changes % 2:
                ctx.fail(what + ": change record")
            changes += 1
            i += 3
            continue
        dx, i = value(i)
        dy, i = value(i)
        x, y = x + dx, y + dy
        pts.append((x, y))
    if changes != ncol - 1:
        ctx.fail("%s: %d changes written, header says %d" % (what, changes, ncol - 1))
    if i != s + n:
        ctx.fail("%s: block length %d, data ends at %d" % (what, n, i - s))
    ctx.check(ctx.eq((le(b, s + 8, 2), le(b, s + 10, 2)), (ext(ctx, pts, 0), ext(ctx, pts, 1))), what + ": design size")
    g = i + 228 * (ncol + 1)
    return ncol, g


def pec(ctx, k, R, alphabet="STCX", Ry=None, last=None):
    ops = make(ctx, k, R, alphabet, Ry, last)
    if not separated(ops):
        ctx.stop()
    f = ctx.stream()
    with ctx.stub("PecWriter", "draw_scaled", lambda *a, **k: None):
        ctx.pe.write_pec(build(ctx, ops, THREADS[:tally(ops)["C"] + 1]), f)
    b = flat(ctx, f)
    _, end = pec_block(ctx, b, 8, tally(ops), "PEC")
    if end != len(b):
        ctx.fail("PEC: graphics end at %d of %d bytes" % (end, len(b)))
    ctx.cover("end")


def large(ctx, n):
    """a stitch block whose length needs its third byte"""
    pe = ctx.pe
    p = pe.EmbPattern()
    p.add_thread(0xFF0000)
    x = ctx.int("x", -200, 200)
    p.stitches = [[100 * (i % 2), 90 * (i % 2), pe.STITCH] for i in range(n)] + [[x, 0, pe.STITCH], [0, 0, pe.END]]
    f = ctx.stream()
    with ctx.stub("PecWriter", "draw_scaled", lambda *a, **k: None):
        pe.write_pec(p, f, {"encode": False})
    b = flat(ctx, f)
    _, end = pec_block(ctx, b, 8, {"C": 0, "X": 0}, "PEC")
    if end != len(b):
        ctx.fail("PEC: graphics end at %d of %d bytes" % (end, len(b)))
    ctx.cover("end")


def pec_changes(ctx, n):
    """n colour changes"""
    ops = [("S", ctx.int("x", -100, 100), ctx.int("y", -100, 100))]
    for i in range(n):
        ops += [("C", None, None), ("S", 10 * i, 5)]
    f = ctx.stream()
    with ctx.stub("PecWriter", "draw_scaled", lambda *a, **k: None):
        ctx.pe.write_pec(build(ctx, ops, THREADS[:n + 1]), f)
    b = flat(ctx, f)
    _, end = pec_block(ctx, b, 8, tally(ops), "PEC")
    if end != len(b):
        ctx.fail("PEC: graphics end at %d of %d bytes" % (end, len(b)))
    ctx.cover("end")


def pes(ctx, version, k, R, alphabet="STCX", Ry=None, last=None):
    ops = make(ctx, k, R, alphabet, Ry, last)
    if not separated(ops):
        ctx.stop()
    f = ctx.stream()
    t = tally(ops)
    p = build(ctx, ops, THREADS[:t["C"] + 1])
    p.metadata("name", "Nä")
    with ctx.stub("PecWriter", "draw_scaled", lambda *a, **k: None):
        ctx.pe.write_pes(p, f, {"version": version})
    b = flat(ctx, f)
    what = "PES %s" % version
    at = const(ctx, le(b, 8, 4), what)
    if bytes(b[at:at + 3]) != b"LA:":
        ctx.fail(what + ": no PEC block at %d" % at)
    ncol, end = pec_block(ctx, b, at, t, what)
    six = str(version)[0] == "6"
    i = 12
    if not six and version != 1:
        if at != 22:
            ctx.fail(what + ": PEC offset")
    else:
        if six:
            i += 4
            for _ in range(5):
                i += 1 + b[i]
            i += 36
            i += 1 + b[i] + 24 + 6
            n = u16(b, i)
            i += 2
            if n != ncol:
                ctx.fail("%s: %d threads for %d colours" % (what, n, ncol))
            for _ in range(n):
                i += 1 + b[i] + 8
                for _ in range(3):
                    i += 1 + b[i]
        else:
            i += 4
        nobj = const(ctx, u16(b, i), what)
        i += 2
        full = version in (1, 6)
        if nobj != (1 if full else 0):
            ctx.fail(what + ": number of blocks")
        if not full:
            if any(b[j] != 0 for j in range(i, at)):
                ctx.fail(what + ": data before the PEC block")
        else:
            i += 4
            if bytes(b[i:i + 9]) != b"\x07\x00CEmbOne":
                ctx.fail(what + ": CEmbOne expected")
            i += 9 + 16 + 24 + 6
            w, h = le(b, i, 2), le(b, i + 2, 2)
            i += 4 + 8
            nsec = const(ctx, u16(b, i), what)
            i += 2 + 4
            if bytes(b[i:i + 9]) != b"\x07\x00CSewSeg":
                ctx.fail(what + ": CSewSeg expected")
            i += 9
            pts, secs = [], []
            while True:
                n = const(ctx, u16(b, i + 4), what)
                secs.append(const(ctx, u16(b, i + 2), what))
                pts += [(sle(ctx, b, i + 6 + 4 * j, 2), sle(ctx, b, i + 8 + 4 * j, 2)) for j in range(n)]
                i += 6 + 4 * n
                if u16(b, i) != 0x8003 if isinstance(b[i], int) and isinstance(b[i + 1], int) else True:
                    break
                i += 2
            if nsec != len(secs):
                ctx.fail("%s: %d sections, header says %d" % (what, len(secs), nsec))
            nlog = u16(b, i)
            if nlog != 1 + sum(u != v for u, v in zip(secs, secs[1:])):
                ctx.fail(what + ": colour log length")
            first = [(j, v) for j, v in enumerate(secs) if not j or v != secs[j - 1]]
            if [(u16(b, i + 2 + 4 * j), u16(b, i + 4 + 4 * j)) for j in range(nlog)] != first:
                ctx.fail(what + ": the colour log names other sections or colours than %r" % first)
            i += 2 + 4 * nlog + 4
            if six:
                i += 8 + 8 * nlog
            if i != at:
                ctx.fail("%s: sections end at %d, the PEC block is at %d" % (what, i, at))
            # a run of jumps is one segment, its inner points count for the size all the same
            u, v = ext(ctx, pts, 0), ext(ctx, pts, 1)
            ctx.check(ctx.all([w >= u, h >= v]) if "J" in alphabet else ctx.eq((w, h), (u, v)), what + ": section size")
    if six:
        end += 128 + 0x93 * ncol + 2 if version == 6 else 128 + 2
    if end != len(b):
        ctx.fail("%s: data ends at %d of %d bytes" % (what, end, len(b)))
    ctx.cover("end")


def vp3(ctx, k, R, alphabet="STC", Ry=None, last=None):
    ops = make(ctx, k, R, alphabet, Ry, last)
    f = ctx.stream()
    p = build(ctx, ops, THREADS)
    ctx.pe.write_vp3(p, f)
    b = flat(ctx, f)
    W = "VP3"
    t = tally(ops)

    def s16(i):
        return i + 2 + const(ctx, be(b, i, 2), W)

    def block(i, tag, what):
        if b[i:i + 3] != tag:
            ctx.fail("VP3: %s expected at %d" % (what, i))
        return i + 7, i + 7 + const(ctx, be(b, i + 3, 4), W)
    i = s16(6)
    i, efile = block(i, [0, 2, 0], "file block")
    i = s16(i)
    right, mtop, left, mbot = (sbe(ctx, b, i + 4 * j, 4) for j in range(4))
    count, ncol, ndes = const(ctx, be(b, i + 16, 4), W), const(ctx, b[i + 21], W), b[i + 24]
    i += 25
    i, edes = block(i, [0, 3, 0], "design block")
    cx, cy = sbe(ctx, b, i, 4), sbe(ctx, b, i + 4, 4)
    hw = [sbe(ctx, b, i + 11 + 4 * j, 4) for j in range(6)]
    i = s16(i + 11 + 24)
    i = s16(i + 2 + 16 + 6)
    n2 = const(ctx, be(b, i, 2), W)
    i += 2
    if ndes != 1 or ncol != t["C"] + 1 or n2 != ncol:
        ctx.fail("VP3: %s designs, %s / %s colour blocks, design has %d" % (ndes, ncol, n2, t["C"] + 1))
    x = y = 0
    pts, conds, trims = [], [], 0
    for j in range(ncol):
        i, ecol = block(i, [0, 5, 0], "colour block")
        sx, sy = sbe(ctx, b, i, 4), sbe(ctx, b, i + 4, 4)
        i += 8
        ncolors = b[i]
        i += 2
        c = THREADS[j]
        if ncolors != 1 or b[i:i + 3] != [c >> 16, c >> 8 & 255, c & 255]:
            ctx.fail("VP3: thread of block %d" % j)
        i += 8
        for _ in range(3):
            i = s16(i)
        shx, shy = sbe(ctx, b, i, 4), sbe(ctx, b, i + 4, 4)
        i += 8
        i, est = block(i, [0, 1, 0], "stitches")
        i += 3
        # positions: from the design centre, in hundredths
        bx, by = sx + cx, -(sy + cy)
        x, y = bx, by
        first = True
        while i < est:
            if isinstance(b[i], int) and b[i] == 0x80:
                if b[i + 1] == 3:
                    i += 2
                    trims += 1
                    continue
                if b[i + 1] != 1 or b[i + 6:i + 8] != [0x80, 2]:
                    ctx.fail("VP3: record")
                dx, dy = sbe(ctx, b, i + 2, 2), sbe(ctx, b, i + 4, 2)
                i += 8
            else:
                dx, dy = num(ctx, [b[i]]), num(ctx, [b[i + 1]])
                i += 2
            x, y = x + 100 * dx, y + 100 * dy
            pts.append((x, y))
        if i != est or b[est] != 0 or est + 1 != ecol:
            ctx.fail("VP3: block lengths: stitches end at %d (said %d), block at %d" % (i, est, ecol))
        conds.append(ctx.eq((bx + shx, by - shy), (x, y)))
        i = ecol
    if i != edes or edes != efile or efile != len(b):
        ctx.fail("VP3: section lengths %d %d %d of %d" % (i, edes, efile, len(b)))
    if count < len(pts) + trims - 1 - (alphabet.find("J") >= 0) * 99:
        ctx.fail("VP3: stitch count %d for %d records" % (count, len(pts) + trims))
    ctx.observe(pts)
    if "J" not in alphabet:
        nm = num
        if count != len(points_of(ctx, p)):
            ctx.fail("VP3: stitch count %d, %d commands" % (count, len(points_of(ctx, p))))
    lx, hx, ly, hy = extremes(ctx, pts)
    ctx.check(ctx.all([hx(right), lx(left), hy(-mbot), ly(-mtop)]), "VP3: extents")
    w, h = ext(ctx, pts, 0), ext(ctx, pts, 1)
    ctx.check(ctx.all([ctx.eq((2 * hw[0], 2 * hw[1], 2 * hw[2], 2 * hw[3], hw[4], hw[5]), (-w, w, -h, h, w, h)),
                       ctx.eq((2 * cx, -2 * cy), (right + left, -mbot - mtop))]), "VP3: centre and size")
    ctx.check(ctx.all(conds), "VP3: block shift")
    ctx.cover("end")


def points_of(ctx, p):
    q = p.get_normalized_pattern({"max_jump": 3200, "max_stitch": 255, "full_jump": False, "round": False})
    return [s for s in q.stitches if s[2] & MASK != ctx.pe.END]


def xxx(ctx, k, R, alphabet="STCXJ", Ry=None, last=None):
    ops = make(ctx, k, R, alphabet, Ry, last)
    nt = ctx.choose("threads", [1, 4])
    f = ctx.stream()
    p = build(ctx, ops, THREADS[:nt])
    ctx.pe.write_xxx(p, f)
    b = flat(ctx, f)
    count, ncol, end = (const(ctx, le(b, i, 4), "XXX") for i in (23, 39, 0xFC))
    if nt > tally(ops)["C"] and ncol != tally(ops)["C"] + 1:
        ctx.fail("XXX: %d colours, header says %d" % (tally(ops)["C"] + 1, ncol))
    nt = min(nt, ncol)
    x = y = 0
    pts, i, n, kinds = [], 0x100, 0, []
    while i < end:
        c = b[i]
        if isinstance(c, int) and c == 0x7F:
            kinds.append(b[i + 1])
            dx, dy, i = num(ctx, [b[i + 2]]), num(ctx, [b[i + 3]]), i + 4
        elif isinstance(c, int) and c == 0x7D:
            dx, dy, i = sle(ctx, b, i + 1, 2), sle(ctx, b, i + 3, 2), i + 5
        else:
            dx, dy, i = num(ctx, [c]), num(ctx, [b[i + 1]]), i + 2
        x, y = x + dx, y - dy
        pts.append((x, y))
        n += 1
    if i != end or b[end:end + 4] != [0x7F, 0x7F, 2, 0x14] or len(b) != end + 6 + 4 * max(21, ncol) + 6:
        ctx.fail("XXX: stitches end at %d, header says %d, file has %d bytes" % (i, end, len(b)))
    if n != count:
        ctx.fail("XXX: %d records, header says %d" % (n, count))
    for j in range(nt):
        c = THREADS[j]
        if b[end + 6 + 4 * j:end + 10 + 4 * j] != [0, c >> 16, c >> 8 & 255, c & 255]:
            ctx.fail("XXX: thread table")
    lx, hx, ly, hy = extremes(ctx, pts)
    ctx.check(ctx.eq((le(b, 45, 2), le(b, 47, 2)), (ext(ctx, pts, 0), ext(ctx, pts, 1))), "XXX: size")
    ctx.check(ctx.eq((sle(ctx, b, 49, 2), -sle(ctx, b, 51, 2)), (x, y)), "XXX: final position")
    ctx.check(ctx.all([lx(-sle(ctx, b, 53, 2)), hy(sle(ctx, b, 55, 2))]), "XXX: extents")
    ctx.cover("end")


def u01(ctx, k, R, alphabet="STCXJ", Ry=None, last=None, den=1):
    if den == 1:
        ops = make(ctx, k, R, alphabet, Ry, last)
    else:
        ops = [("S", 0, 0)] + [("S", ctx.half("hx%d" % i, -R, R, den), ctx.half("hy%d" % i, -R, R, den)) for i in range(k)]
    f = ctx.stream()
    ctx.pe.write_u01(build(ctx, ops, THREADS), f)
    b = flat(ctx, f)
    x = y = 0
    pts, i = [], 0x100
    while True:
        c, dy, dx = b[i:i + 3]
        if isinstance(c, int) and c == 0xF8 and i == len(b) - 3:
            break
        x = x + ctx.ite(c & 0x20 != 0, -dx, dx)
        y = y + ctx.ite(c & 0x40 != 0, dy, -dy)
        pts.append((x, y))
        i += 3
        if i > len(b) - 3:
            ctx.fail("U01: no end record")
    # the count covers the records, the end and one more, as the format's files do
    n = const(ctx, le(b, 0x8C, 4), "U01")
    if n != len(pts) + 2:
        ctx.fail("U01: count %d for %d records" % (n, len(pts)))
    if den > 1:
        # the true extents, to the nearest unit
        for v, at in ((lambda o: o[1], 0x80), (lambda o: o[2], 0x86)):
            vs = [v(o) for o in ops]
            lo = vs[0]
            hi = vs[0]
            for u in vs[1:]:
                lo, hi = ctx.ite(u < lo, u, lo), ctx.ite(u > hi, u, hi)
            if at == 0x80:
                got = (sle(ctx, b, 0x80, 2), sle(ctx, b, 0x84, 2))
            else:
                got = (-sle(ctx, b, 0x86, 2), -sle(ctx, b, 0x82, 2))
            ctx.check(ctx.all([2 * (g - w) <= 1 for g, w in zip(got, (lo, hi))] + [2 * (w - g) <= 1 for g, w in zip(got, (lo, hi))]), "U01: extents of fractional positions")
        ctx.cover("end")
        return
    lx, hx, ly, hy = extremes(ctx, pts)
    ctx.check(ctx.all([lx(sle(ctx, b, 0x80, 2)), hy(-sle(ctx, b, 0x82, 2)), hx(sle(ctx, b, 0x84, 2)), ly(-sle(ctx, b, 0x86, 2))]), "U01: extents")
    ctx.check(ctx.eq((sle(ctx, b, 0x90, 2), -sle(ctx, b, 0x92, 2)), (x, y)), "U01: final position")
    ctx.cover("end")


def pmv(ctx, k, R, alphabet="STCXJ", Ry=None, last=None, extra=0):
    ops = make(ctx, k, R, alphabet, Ry, last)
    ops += [("S", 3 * i, 0) for i in range(extra)]
    f = ctx.stream()
    p = build(ctx, ops, THREADS)
    ctx.pe.EmbPattern.write_embroidery(ctx.module("PmvWriter"), p, f)
    b = flat(ctx, f)
    n = const(ctx, le(b, 100, 2), "PMV")
    if u16(b, 102) != 2 * n:
        ctx.fail("PMV: sizes disagree")
    at = 104 + 2 * n
    if b[at:at + 4] != [0, 0, 0, 1] or b[at + 16:at + 20] != [0, 0, 2, 0]:
        ctx.fail("PMV: %d points, data ends elsewhere" % n)
    ctx.cover("end")


def inf(ctx, n):
    pe = ctx.pe
    p = pe.EmbPattern()
    for i in range(n):
        p.add_thread(pe.EmbThread(ctx.int("c%d" % i, 0, 0xFFFFFF)))
        p.threadlist[i].description = ctx.choose("d%d" % i, [None, "", "Red", "Grün"])
        p.threadlist[i].chart = ctx.choose("h%d" % i, [None, "Ch", "é"]) if i == 0 else None
    f = ctx.stream()
    ctx.pe.EmbPattern.write_embroidery(ctx.module("InfWriter"), p, f)
    b = flat(ctx, f)
    if be(b, 8, 4) != len(b) - 12 or be(b, 12, 4) != n:
        ctx.fail("INF: length %s for %d bytes, %s of %d threads" % (be(b, 8, 4), len(b) - 12, be(b, 12, 4), n))
    i = 16
    for j in range(n):
        size = const(ctx, be(b, i, 2), "INF")
        if be(b, i + 2, 2) != j:
            ctx.fail("INF: record index")
        z = [m for m in range(i + 9, min(len(b), i + size)) if isinstance(b[m], int) and b[m] == 0]
        if len(z) != 2 or z[1] != i + size - 1:
            ctx.fail("INF: record %d says %d bytes, its texts end elsewhere" % (j, size))
        i += size
    if i != len(b):
        ctx.fail("INF: records end at %d of %d" % (i, len(b)))
    ctx.check(True, "INF")
    ctx.cover("end")


def col(ctx, n):
    pe = ctx.pe
    p = pe.EmbPattern()
    for i in range(n):
        p.add_thread(ctx.int("c%d" % i, 0, 0xFFFFFF) if i < 2 else i)
    f = ctx.stream()
    pe.EmbPattern.write_embroidery(ctx.module("ColWriter"), p, f)
    b = flat(ctx, f)
    lines = [l for l in split(b)]
    if len(lines) != n + 1 or bytes(lines[0]) != str(n).encode():
        ctx.fail("COL: %d lines for %d threads" % (len(lines) - 1, n))
    ctx.check(True, "COL")
    ctx.cover("end")


def table(ctx, f):
    """the lines of a text file as (text with # for each number, the numbers)"""
    return [(skeleton(l), [w for w in l if not isinstance(w, str)]) for l in lines(ctx, f)]


def stats(ctx, got, what, form, count, total, changes, needles, pts, scale):
    """the statistics at the head of a CSV or G-code file; form makes a line of it"""
    def one(name):
        m = [n for t, n in got if t == form % name]
        if len(m) != 1 or len(m[0]) != 1:
            ctx.fail("%s: %d lines %s" % (what, len(m), name))
        return m[0][0]
    for name, v in [("STITCH_COUNT:", total), ("THREAD_COUNT:", changes)] + ([("NEEDLE_COUNT:", needles)] if what == "CSV" else []):
        ctx.check(equals(ctx, one(name), v), "%s: %s is not the number of them that follows" % (what, name))
    xs, ys = [q[0] for q in pts], [q[1] for q in pts]
    ext = {}
    for name, vals, s in (("LEFT:", xs, 1), ("TOP:", ys, 1), ("RIGHT:", xs, -1), ("BOTTOM:", ys, -1)):
        m = vals[0]
        for v in vals[1:]:
            m = ctx.ite(s * v < s * m, v, m)
        ext[name] = m
    ext["WIDTH:"], ext["HEIGHT:"] = ext["RIGHT:"] - ext["LEFT:"], ext["BOTTOM:"] - ext["TOP:"]
    for name, v in ext.items():
        n, p = one("EXTENTS_" + name)
        # scale is a whole number of units in one of the file's
        ctx.check(ctx.all([2 * (n * scale - v * 10 ** p) <= scale, 2 * (v * 10 ** p - n * scale) <= scale]), "%s: EXTENTS_%s" % (what, name))
    seen = {}
    for t, n in got:
        pre, post = form.split("%s")
        if t.startswith(pre + "COMMAND_"):
            seen[t[len(pre) + 8:].split(":")[0].split('"')[0]] = number_of(n)
    if seen != count:
        ctx.fail("%s: command counts %r for %r" % (what, seen, count))


def number_of(n):
    return n[0][0] if len(n) == 1 and n[0][1] == 0 else n


def names(ctx):
    return dict(S="STITCH", T="TRIM", C="COLOR_CHANGE", X="STOP", J="JUMP", D="END", N="NEEDLE_SET", Q="SEQUIN_EJECT")


def csv(ctx, k, R, alphabet="SJTCN", end=True, version=None):
    """records are written as they stand"""
    pe = ctx.pe
    p = pe.EmbPattern()
    code = names(ctx)
    word = [ctx.choose("op%d" % i, list(alphabet)) for i in range(k)] + (["D"] if end else [])
    for i, c in enumerate(word):
        cmd = getattr(pe, code[c])
        if c == "N":
            cmd = pe.encode_thread_change(cmd, None, 3)
        p.add_stitch_absolute(cmd, ctx.int("x%d" % i, -R, R), ctx.int("y%d" % i, -R, R))
    f = ctx.stream()
    with ctx.stub("CsvWriter", "distance", lambda dx, dy: 0), ctx.stub("CsvWriter", "angle", lambda dx, dy: 0):
        pe.write_csv(p, f, {"version": version} if version else None)
    got = table(ctx, f)
    count = {}
    for c in word:
        count[code[c]] = count.get(code[c], 0) + 1
    stats(ctx, got, "CSV", '">","%s","#"', count, len(word), word.count("C"), word.count("N"), p.stitches, 1)
    # the rows: index, and in the longer layouts the displacement from the row before
    rows = [n for t, n in got if t.startswith('"*"')]
    if len(rows) != len(word):
        ctx.fail("CSV: %d rows" % len(rows))
    x = y = 0
    for i, (n, s) in enumerate(zip(rows, p.stitches)):
        if number_of(n[:1]) != i:
            ctx.fail("CSV: row %d is numbered %r" % (i, n[:1]))
        n = n[1:] if len(n) % 2 or version == "full" else n[2:]  # a needle number is part of the name
        if word[i] == "N" and version == "full":
            n = n[1:]
        if version:
            ctx.check(ctx.all([equals(ctx, n[2], s[0] - x), equals(ctx, n[3], s[1] - y)]), "CSV: displacement columns")
        x, y = s[0], s[1]
    ctx.cover("end")


def gstats(ctx, k, R, alphabet="STCX"):
    ops = make(ctx, k, R, alphabet)
    pe = ctx.pe
    p = build(ctx, ops, THREADS)
    f = ctx.stream()
    pe.write_gcode(p, f)
    got = table(ctx, f)
    e = pe.EmbPattern.get_normalized_pattern(p, {"scale": (-1, -1), "sequin_contingency": pe.CONTINGENCY_SEQUIN_STITCH})
    # what follows: one line with X and Y for each stitch, M00 for each change or stop, M30 at the end
    n = dict(S=0, M0=0, M30=0)
    for t, v in got:
        if t.startswith("G# X# Y#"):
            n["S"] += 1
        elif t == "M#":
            n["M30" if number_of(v) == 30 else "M0"] += 1
    def one(name):
        m = [v for t, v in got if t == "(%s #)" % name]
        return const(ctx, number_of(m[0]), "G-code") if m else 0
    if (one("COMMAND_STITCH:"), one("COMMAND_COLOR_CHANGE:") + one("COMMAND_STOP:"), one("COMMAND_END:")) != (n["S"], n["M0"], n["M30"]):
        ctx.fail("G-code: command counts are not those of the words that follow")
    count, word = {}, []
    for s in e.stitches:
        nm = pe.get_common_name_dictionary()[s[2] & 0xFF]
        count[nm] = count.get(nm, 0) + 1
    stats(ctx, got, "G-code", "(%s #)", count, len(e.stitches), count.get("COLOR_CHANGE", 0), 0, e.stitches, 10)
    ctx.cover("end")


def split(b):
    out, cur = [], []
    for c in b:
        if isinstance(c, int) and c == 10:
            out.append([x for x in cur if not (isinstance(x, int) and x == 13)])
            cur = []
        else:
            cur.append(c)
    return out


def harnesses(tier):
    t = tier == "thorough"
    hs = []

    def add(name, fn, weight=1, **kw):
        hs.append(Harness(name, fn, kw, ["end"], weight=weight))
    K = 2 + t
    for fmt in ("dst", "tbf"):
        add(fmt, textual, 4, fmt=fmt, k=K, R=60)
        add(fmt + "_steps", textual, 4, fmt=fmt, k=1 + t, R=300, alphabet="S", Ry=20)
    for tr in (False, True):
        add("jef_%d" % tr, jef, 2, k=K, R=60, trims=tr)
    add("jef_hoop", jef_hoop, 3)
    if t:
        add("jef_wide", jef, 3, k=1, R=2100, trims=False, alphabet="S", Ry=5)
        add("jef_tall", jef, 3, k=1, R=5, trims=False, alphabet="S", Ry=2100)
    add("jef_steps", jef, 3, k=1 + t, R=700, trims=False, alphabet="S", Ry=20)
    add("pec", pec, 3, k=K, R=60)
    add("pec_steps", pec, 3, k=2, R=900, alphabet="S", Ry=20)
    for v in (1, 6, "1t", "6t"):
        add("pes_%s" % v, pes, 3, version=v, k=K, R=60)
    add("vp3", vp3, 3, k=K, R=100)
    add("vp3_steps", vp3, 3, k=2, R=300, alphabet="S")
    add("xxx", xxx, 3, k=K, R=100)
    add("xxx_steps", xxx, 3, k=1 + t, R=300, alphabet="SJ")
    add("u01", u01, 3, k=K, R=100)
    add("u01_speeds", u01, 3, k=2, R=60, alphabet="SFL", Ry=5)
    add("u01_steps", u01, 3, k=1 + t, R=300, alphabet="SJ", Ry=20)
    add("u01_half", u01, 3, k=1 + t, R=60, den=4)
    add("pmv", pmv, 3, k=K, R=30)
    add("pmv_many", pmv, 1, k=1, R=3, extra=110)
    for v in (None, "delta", "full"):
        add("csv_%s" % v, csv, 2, k=2 + t, R=300, version=v)
    add("csv_open", csv, 1, k=1 + t, R=300, end=False, alphabet="SJTCNQX")
    add("dst_lists", textual, 2, fmt="dst", k=2, R=30, alphabet="SCX", lists=[0, 1, 2, 9])
    add("pes_jumps", pes, 2, version=1, k=3, R=30, alphabet="SJC")
    for n in (4, 5):
        add("pec_changes%d" % n, pec_changes, n=n)
    add("pec_large", large, 4, n=16600)
    for fmt, fn in (("dst", textual), ("tbf", textual), ("jef", jef), ("pec", pec), ("vp3", vp3), ("xxx", xxx), ("u01", u01), ("pmv", pmv)):
        add(fmt + "_off", fn, 2, k=2 + t, R=60 if fmt != "pmv" else 30, last="off", **({"fmt": fmt} if fn is textual else {"trims": False} if fn is jef else {}))
    add("gcode", gstats, 3, k=K, R=100)
    for n in range(3):
        add("inf%d" % n, inf, 1, n=n)
    for n in (0, 1, 3, 12):
        add("col%d" % n, col, 1, n=n)
    return hs
