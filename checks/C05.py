from .common import *
from .C04 import separated
from .C03 import near

BOUNDS = ("versions 1 and 6, full and truncated; designs of up to 3 (thorough 4) commands over stitch/trim/colour change/stop with every coordinate in [-100,100], "
          "2 (thorough 3) with explicit jumps; single moves in [-4500,4500]^2; three symbolic 24-bit thread colours; thread and design text of "
          "lengths 0..300 including non-ASCII.")
OUTSIDE = ("preview bitmaps (C27, stubbed here), the PEC palette search for symbolic colours (C23), stops or changes with no sewing between them, repeated neighbouring colours.")
DEADLINE = 110
VERS = [1, 6, "1t", "6t"]


def data(f):
    """the bytes written"""
    if hasattr(f, "_flat"):
        f._flat()
    return list(f.buf) if hasattr(f, "buf") else list(f.getvalue())


def u16(b, i):
    return b[i] + 256 * b[i + 1]


def find(b, s):
    n = len(s)
    for i in range(len(b) - n + 1):
        if all(isinstance(b[i + j], int) and b[i + j] == s[j] for j in range(n)):
            return i
    return -1


def sections(ctx, f, exp, threads, version, pe, edges=False):
    """the CSewSeg section lists the design's penetrations block by block"""
    b = data(f)
    at = find(b, b"CSewSeg")
    if at < 0:
        ctx.fail("PES: no CSewSeg section")
    nsec = u16(b, at - 8)
    i = at + 7
    segs = []
    while True:
        flag, color, n = u16(b, i), u16(b, i + 2), u16(b, i + 4)
        for v in (flag, color, n):
            if not isinstance(v, int):
                ctx.fail("PES: segment header depends on coordinates")
        i += 6
        segs.append((flag, color, [(u16(b, i + 4 * j), u16(b, i + 4 * j + 2)) for j in range(n)]))
        i += 4 * n
        if u16(b, i) == 0x8003:
            i += 2
            continue
        break
    nlog = u16(b, i)
    log = [(u16(b, i + 2 + 4 * j), u16(b, i + 4 + 4 * j)) for j in range(nlog)]
    if nsec != len(segs):
        ctx.fail("PES: %d segments, header says %d" % (len(segs), nsec))
    want, last = [], -1
    for j, s in enumerate(segs):
        if s[1] != last:
            want.append((j, s[1]))
            last = s[1]
    if log != want:
        ctx.fail("PES: colour log %r, segments %r" % (log, want))
    pts, cols = [], []
    for fl, c, ps in segs:
        if fl == 0:
            pts += ps
            cols += [c] * len(ps)
    e = exp[0]
    if len(pts) != len(e):
        ctx.fail("PES: %d points in the embroidery section for %d penetrations" % (len(pts), len(e)))
    if not e:
        return
    ctx.check(ctx.all([ctx.eq(((p[0] - pts[0][0]) % 65536, (p[1] - pts[0][1]) % 65536), ((s[2] - e[0][2]) % 65536, (s[3] - e[0][3]) % 65536))
                       for p, s in zip(pts, e)]), "PES: embroidery section positions")
    if edges:  # measured from the left and the lower edge of the design
        l, r = e[0][2], e[0][3]
        for _, _, x, y in e:
            l, r = ctx.ite(x < l, x, l), ctx.ite(y > r, y, r)
        ctx.check(ctx.eq((pts[0][0], pts[0][1]), ((e[0][2] - l) % 65536, (e[0][3] - r) % 65536)), "PES: embroidery section offset")
    blk = 0
    chart = pe.EmbThreadPec.get_thread_set()
    colors = []
    for i, (g, _, _, _) in enumerate(e):
        blk += sum(1 for x in g.ev if x == "C")
        colors.append(threads[blk])
    if version == 6:
        # the chart is the thread list, stops repeat a thread
        chart, k = [], 0
        for g in [g for g, _, _, _ in e] + [exp[1]]:
            if not chart:
                chart.append(threads[0])
            for x in g.ev:
                k += x == "C"
                chart.append(threads[k])
        got = [chart[c] for c in cols]
    else:
        got, colors = cols, [near(c, chart) for c in colors]
    if got != colors:
        ctx.fail("PES: segment colours %r, expected %r" % (got, colors))


def check(ctx, ops, version, anchored=False, sect=True, edges=False):
    if not separated(ops):
        ctx.stop()
    q, f = pec_roundtrip(ctx, "pes", build(ctx, ops, THREADS), {"version": version})
    exp, got = expect(ops), meaning(ctx, q.stitches)
    what = "PES %s" % version
    if anchored:
        compare_anchored(ctx, exp, got, what)
    else:
        compare(ctx, exp, got, what, trims=None)
        pec_trims(ctx, exp, got, what)
    ends(ctx, q, what)
    if exp[2]:
        if len(q.threadlist) != exp[2]:
            ctx.fail("%s: %d threads for %d blocks" % (what, len(q.threadlist), exp[2]))
        pal = ctx.pe.EmbThreadPec.get_thread_set()
        if str(version)[0] == "6":
            if [t.color & 0xFFFFFF for t in q.threadlist] != THREADS[:exp[2]]:
                ctx.fail(what + ": block colours")
        else:
            # the PEC palette gives every distinct thread its own entry
            cs = [t.color for t in q.threadlist]
            if not set(cs) <= set(t.color for t in pal if t is not None):
                ctx.fail(what + ": colours outside the palette")
    if version in (1, 6) and sect and exp[0]:
        sections(ctx, f, exp, THREADS, version, ctx.pe, edges)
    ctx.cover("end")


def record(ctx, version):
    x, y = ctx.int("x", -2047, 2047), ctx.int("y", -2047, 2047)
    check(ctx, [("S", 0, 0), ("S", x, y)], version, edges=True)


def words(ctx, k, R, version, alphabet="STCX", first=None, last=None, Ry=None, anchored=False):
    check(ctx, design(ctx, alphabet, k, R, first, last, Ry=Ry), version, anchored)


TEXTS = [None, "a", "Thread 12", "x" * 255, "y" * 300, "Grün", "é" * 200]


def threads(ctx, version):
    pe = ctx.pe

    class T(pe.EmbThread):
        def find_nearest_color_index(self, values):
            return [i for i, v in enumerate(values) if v is not None][0]

        def __hash__(self):
            return 1

    p = pe.EmbPattern()
    ts = []
    which = ctx.choose("field", ["description", "catalog_number", "brand", "chart"])
    txt = ctx.choose("text", TEXTS)
    for i in range(3):
        t = T()
        t.color = ctx.int("c%d" % i, 0, 0xFFFFFF)
        t.description, t.catalog_number, t.brand, t.chart = "d%d" % i, "n%d" % i, "b%d" % i, "c%d" % i
        setattr(t, which, txt)
        if which == "description":
            t.catalog_number = "N%d" % i
        p.add_thread(t)
        ts.append(t)
    for i in range(3):
        if i:
            p.color_change()
        p.stitch(10, 5)
    p.end()
    q, f = pec_roundtrip(ctx, "pes", p, {"version": version})
    if len(q.threadlist) != 3:
        ctx.fail("PES %s: %d threads read" % (version, len(q.threadlist)))
    for a, b in zip(ts, q.threadlist):
        ctx.check(ctx.eq(a.color, b.color % 0x1000000), "PES %s: thread colour" % version)
        for k in ("description", "catalog_number", "brand", "chart"):
            u, v = getattr(a, k), getattr(b, k)
            if not same_text(u, v):
                ctx.fail("PES %s: thread %s %r became %r" % (version, k, u and u[:20], v and v[:20]))
    ctx.cover("end")


def same_text(u, v):
    if u is None:
        return v is None
    if v is None:
        return False
    if len(u.encode("utf8")) <= 255:
        return u == v
    return u.startswith(v) and len(v.encode("utf8")) > 250


def meta(ctx, version):
    pe = ctx.pe
    which = ctx.choose("field", ["name", "category", "author", "keywords", "comments"])
    txt = ctx.choose("text", TEXTS)
    p = pe.EmbPattern()
    vals = {}
    for k in ("name", "category", "author", "keywords", "comments"):
        vals[k] = txt if k == which else k + "1"
        if vals[k] is not None:
            p.metadata(k, vals[k])
    p.add_thread(0xFF0000)
    p.stitch(1, 1)
    p.stitch(10, 0)
    p.end()
    q, f = pec_roundtrip(ctx, "pes", p, {"version": version})
    for k, u in vals.items():
        v = q.get_metadata(k)
        if k == "name" and u is None:
            continue     # the label of the PEC block may stand in
        if not same_text(u, v):
            ctx.fail("PES %s: %s %r became %r" % (version, k, u and u[:20], v and v[:20]))
    if len(q.stitches) != 4:
        ctx.fail("PES %s: stitches lost" % version)
    ctx.check(len(q.stitches) == 4, "PES: stitches")
    ctx.cover("end")


FORMS = [({}, 1), ({"version": "1"}, 1), ({"version": "6"}, 6), ({"version": 1.0}, 1), ({"version": "6.0"}, 6), ({"pes version": 6}, 6), ({"pes version": 6, "version": 1}, 1),
         ({"version": "6t"}, "6t"), ({"truncated": True}, "1t"), ({"truncated": True, "version": 6}, "6t"), ({"truncated": True, "version": "6"}, "6t"), ({"truncated": True, "version": "1"}, "1t"),
         ({"truncated": True, "pes version": 6}, "6t"), ({"truncated": False, "version": "1t"}, "1t"), ({"truncated": False, "version": "6"}, 6), ({"pes version": "6t"}, "6t")]


def forms(ctx):
    """the settings choose the version and whether the embroidery section is written"""
    st, v = ctx.choose("form", FORMS)
    ops = [("S", 0, 0), ("S", ctx.int("x", -100, 100), ctx.int("y", -100, 100)), ("C", None, None), ("S", 5, 5)]
    q, f = pec_roundtrip(ctx, "pes", build(ctx, ops, THREADS), dict(st))
    compare(ctx, expect(ops), meaning(ctx, q.stitches), "PES %r" % st, trims=None)
    b = data(f)
    if bytes(b[:8]) != (b"#PES0060" if str(v)[0] == "6" else b"#PES0001"):
        ctx.fail("PES %r: version" % st)
    if (find(b, b"CSewSeg") < 0) != isinstance(v, str):
        ctx.fail("PES %r: embroidery section" % st)
    ctx.cover("end")


def harnesses(tier):
    t = tier == "thorough"
    hs = []
    for v in VERS:
        hs.append(Harness("record_%s" % v, record, dict(version=v), ["end"]))
        for k in range(0 if v in (1, 6) else 1, 4 + t):
            hs.append(Harness("words%d_%s" % (k, v), words, dict(k=k, R=100, version=v), ["end"], weight=k))
        if t or v in (1, 6):
            hs.append(Harness("jumps_%s" % v, words, dict(k=2 + t, R=100, alphabet="SJC", anchored=True, version=v), ["end"], weight=3))
            hs.append(Harness("stops_%s" % v, words, dict(k=5, R=30, alphabet="XCS", first="S", last="S", version=v), ["end"], weight=3))
        hs.append(Harness("far_%s" % v, words, dict(k=1, R=4500, alphabet="S", version=v), ["end"], weight=3))
    hs.append(Harness("forms", forms, {}, ["end"]))
    for v in (6, "6t"):
        hs.append(Harness("threads_%s" % v, threads, dict(version=v), ["end"]))
        hs.append(Harness("meta_%s" % v, meta, dict(version=v), ["end"]))
    return hs
