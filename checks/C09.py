from .common import *

BOUNDS = ("designs of up to 4 (thorough 5) commands over stitch/jump/trim/colour change/stop with every coordinate in [-40,40], 3 (thorough 4) with breaks, sequence "
          "breaks and frame ejects; needle counts 1, 2 and 5; explicit needles 0 (a stop in this format) to 14; single moves in [-400,400]^2 (thorough 1000), pairs in [-140,140]x[-60,60]; "
          "every record displacement in [-127,127]^2; up to 4 symbolic 24-bit thread colours, 0 to 300 threads (the table holds 201, the needle order 256); names and TP texts of length 0..60 including non-ASCII; a design of 258 colour blocks with one symbolic stitch.")
OUTSIDE = "longer designs and distances; extents above 99999 units (fixed header fields); sequins."
DEADLINE = 110


def needles(pe, q):
    return [((s[2] >> 16) & 0xFF) - 1 for s in q.stitches if (s[2] & MASK) == pe.NEEDLE_SET]


def check(ctx, ops, n, count=None):
    pe = ctx.pe
    p = build(ctx, ops, THREADS[:n])
    q, f = roundtrip(ctx, "tbf", p, None if count is None else {"needle_count": count})
    exp = expect(ops, lead_needle=True, explicit_trim=True)
    if count == 1:
        for g in [g for g, _, _, _ in exp[0]] + [exp[1]]:
            g.ev = ["X" if e == "C" else e for e in g.ev]
    got = meaning(ctx, q.stitches)
    compare(ctx, exp, got, "TBF")
    # explicit trims belong before every change of a design that has sewn
    for (ge, _, _, _), (gm, _, _, _) in list(zip(exp[0], got[0]))[1:]:
        if ge.trim and not gm.trim:
            ctx.fail("TBF: trim lost at a change")
        if gm.trim and not ge.trim:
            ctx.fail("TBF: trim invented")
    ends(ctx, q, "TBF")
    if count != 1:
        c = count or 5
        nd = needles(pe, q)
        if nd != [i % c + 1 for i in range(len(nd))]:
            ctx.fail("TBF: needles %r" % nd)
    k = n if count != 1 else exp[2]        # with one needle the table holds the threads used
    if [t.color for t in q.threadlist] != THREADS[:k]:
        ctx.fail("TBF: threads %r" % [t.color for t in q.threadlist])
    ctx.cover("end")


def record(ctx):
    kind = ctx.choose("kind", "SJ")
    x, y = ctx.int("x", -127, 127), ctx.int("y", -127, 127)
    check(ctx, [("S", 0, 0), (kind, x, y), ("S", 0, 0)], 1)


def words(ctx, k, R, alphabet="SJTCX", first=None, last=None, Ry=None, count=None):
    check(ctx, design(ctx, alphabet, k, R, first, last, Ry=Ry), k + 1, count)


def explicit(ctx):
    pe = ctx.pe
    p = pe.EmbPattern()
    n = []
    for i in range(3):
        v = ctx.int("n%d" % i, 0 if i else 1, 14)
        n.append(v)
        p.add_stitch_absolute(pe.EmbFunctions.encode_thread_change(pe.NEEDLE_SET, None, v), 5 * i, 0)
        p.add_stitch_absolute(pe.STITCH, 5 * i + 5, 0)
    p.add_stitch_absolute(pe.END, 15, 0)
    q, f = roundtrip(ctx, "tbf", p)
    # needle 0 is the format's code for a stop
    got = [s for s in q.stitches if (s[2] & MASK) in (pe.NEEDLE_SET, pe.STOP)]
    if len(got) != 3:
        ctx.fail("TBF: %d needle changes for 3" % len(got))
    ctx.check(ctx.all([ctx.any([ctx.all([v == 0, (s[2] & MASK) == pe.STOP]), ctx.all([v > 0, ctx.eq(s[2], pe.EmbFunctions.encode_thread_change(pe.NEEDLE_SET, None, v))])])
                       for v, s in zip(n, got)]), "TBF: named needles")
    m = meaning(ctx, q.stitches)
    if [g.key().replace("X", "C") for g, _, _, _ in m[0]] != ["C"] * 3:
        ctx.fail("TBF: needle changes misplaced")
    ctx.cover("end")


TEXTS = [None, "", "a", "sixteen letters!", "seventeen letters", "x" * 60, "Grün", "é" * 16]


def header(ctx):
    """text and thread table of any size leave the needle order, the threads and the stitches in place"""
    pe = ctx.pe
    p = pe.EmbPattern()
    field = ctx.choose("field", ["name", "tp"])
    text = ctx.choose("text", TEXTS)
    if text is not None:
        p.metadata(field, text)
    if text is None and field == "name":
        n = ctx.choose("size", [1, 2, 4, 71, 72, 200, 201, 202, 257, 300])
    else:
        n = ctx.choose("n", [1, 2, 4, 71, 72])
    cols = []
    for i in range(n):
        t = pe.EmbThread()
        t.color = ctx.int("color%d" % i, 0, 0xFFFFFF) if i < 4 else 0x10203 * i
        cols.append(t.color)
        p.add_thread(t)
        p.add_stitch_absolute(pe.STITCH, 10 * (i % 5), 5)
        p.add_stitch_absolute(pe.COLOR_CHANGE if i < n - 1 else pe.END, 10 * (i % 5), 5)
    q, f = roundtrip(ctx, "tbf", p)
    if len(q.threadlist) != min(n, 201):  # what the table ahead of the stitches holds
        ctx.fail("TBF: %d threads written, %d read" % (n, len(q.threadlist)))
    ctx.check(ctx.all([ctx.eq(a, b.color) for a, b in zip(cols, q.threadlist)]), "TBF: thread colours")
    if needles(pe, q) != [i % 5 + 1 if i < 256 else -1 for i in range(n)] and needles(pe, q) != [i % 5 + 1 for i in range(n)]:
        ctx.fail("TBF: needles %r" % needles(pe, q))
    if [(a[2], a[3]) for a in meaning(ctx, q.stitches)[0]] != [(10 * (i % 5), 5) for i in range(n)]:
        ctx.fail("TBF: penetrations")
    if field == "name":
        want = "Untitled" if text is None else text.encode("utf8")[:16].decode("utf8", "ignore").strip()
        if q.get_metadata("name") != want:
            ctx.fail("TBF: name %r became %r" % (text, q.get_metadata("name")))
    ctx.cover("end")


def harnesses(tier):
    t = tier == "thorough"
    hs = [Harness("record", record, {}, ["end"]), Harness("explicit", explicit, {}, ["end"]), Harness("header", header, {}, ["end"], weight=3)]
    hs.append(Harness("many", many, dict(fmt="tbf", blocks=258, at=[256, 255, 3] if t else [256], lead=True, kept=201), ["end"], weight=8))
    for k in range(1, 5 + t):
        hs.append(Harness("words%d" % k, words, dict(k=k, R=40), ["end"], weight=k))
    hs.append(Harness("wide", words, dict(k=3 + t, R=40, alphabet="SJBQARW"), ["end"], weight=3))
    for c in (1, 2):
        hs.append(Harness("needles%d" % c, words, dict(k=4 + t, R=40, alphabet="SCX", count=c), ["end"], weight=3))
    hs.append(Harness("far1", words, dict(k=1, R=1000 if t else 400, alphabet="SJ"), ["end"], weight=3))
    hs.append(Harness("far2", words, dict(k=2, R=300 if t else 140, alphabet="SJ", Ry=300 if t else 60), ["end"], weight=5))
    return hs
