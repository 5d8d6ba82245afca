from .common import *

BOUNDS = ("designs of up to 4 (thorough 5) commands over stitch/trim/colour change/jump/stop with every coordinate in [-100,100], 3 (thorough 4) with breaks, sequence "
          "breaks and frame ejects; pairs of moves in [-4000,4000]^2; every single move in [-32767,32767]^2; three threads with symbolic 24-bit colours and "
          "text of lengths 0..300 including non-ASCII; a design of 258 colour blocks with one symbolic stitch.")
OUTSIDE = ("stops (VP3 has none and the library drops them), jumps (VP3 has none: the penetrations they lead to keep their place), moves longer "
           "than a 16-bit record (3.2 m), longer designs, fractional coordinates (C26).")
DEADLINE = 110


def check(ctx, ops, n):
    p = build(ctx, ops, THREADS[:n])
    q, f = roundtrip(ctx, "vp3", p)
    exp, got = expect(ops), meaning(ctx, q.stitches)
    # a change the design makes without sewing before it only picks the thread
    compare(ctx, exp, got, "VP3", ignore_stop=True, tail=True)
    ends(ctx, q, "VP3")
    if exp[2]:
        used = [t.color & 0xFFFFFF for t in q.threadlist][:exp[2]]
        if used != THREADS[:exp[2]]:
            ctx.fail("VP3: block colours %r" % used)
        if len(q.threadlist) != exp[2]:
            ctx.fail("VP3: %d threads for %d blocks" % (len(q.threadlist), exp[2]))
    ctx.cover("end")


def far(ctx, R, n):
    ops = []
    for i in range(n):
        ops.append(("S", ctx.int("x%d" % i, -R, R), ctx.int("y%d" % i, -R, R)))
    p = build(ctx, ops, THREADS[:1])
    q, f = roundtrip(ctx, "vp3", p)
    compare(ctx, expect(ops), meaning(ctx, q.stitches), "VP3")
    ctx.cover("end")


def words(ctx, k, R, alphabet="STCJX", first=None, last=None):
    check(ctx, design(ctx, alphabet, k, R, first, last), k + 1)


TEXTS = [None, "", "a", "Thread 12", "x" * 255, "y" * 300, "Grün", "é" * 200, "\U0001F9F5"]


def threads(ctx):
    pe = ctx.pe
    p = pe.EmbPattern()
    which = ctx.choose("field", ["description", "catalog_number", "brand"])
    txt = ctx.choose("text", TEXTS)
    ts = []
    for i in range(3):
        t = pe.EmbThread()
        t.color = ctx.int("color%d" % i, 0, 0xFFFFFF)
        t.description, t.catalog_number, t.brand = "d%d" % i, "c%d" % i, "b%d" % i
        t.details, t.chart, t.weight = "dt%d" % i, "ch%d" % i, "40"      # the format has no place for these
        ts.append(t)
    setattr(ts[1], which, txt)
    for t in ts:
        p.add_thread(t)
    for i in range(3):
        p.add_stitch_absolute(pe.STITCH, 10 * i, 5)
        p.add_stitch_absolute(pe.COLOR_CHANGE if i < 2 else pe.END, 10 * i, 5)
    q, f = roundtrip(ctx, "vp3", p)
    if len(q.threadlist) != 3:
        ctx.fail("VP3: %d threads read" % len(q.threadlist))
    for a, b in zip(ts, q.threadlist):
        ctx.check(ctx.eq(a.color, b.color), "VP3: thread colour")
        for w in ("description", "catalog_number", "brand"):
            want, have = getattr(a, w), getattr(b, w)
            if want is None:
                if w == "description":
                    continue          # written as the colour's name
                want = ""
            if want != have and not (want == "" and have is None):
                ctx.fail("VP3: thread %s %r became %r" % (w, want, have))
    compare(ctx, expect([("S", 0, 5), ("C",), ("S", 10, 5), ("C",), ("S", 20, 5)]), meaning(ctx, q.stitches), "VP3 text")
    ctx.cover("end")


def harnesses(tier):
    t = tier == "thorough"
    hs = [Harness("far1", far, dict(R=32767, n=1), ["end"], weight=2), Harness("far2", far, dict(R=4000 if not t else 12000, n=2), ["end"], weight=3)]
    hs.append(Harness("many", many, dict(fmt="vp3", blocks=258, at=[256, 255, 3] if t else [256], kept=258), ["end"], weight=8))
    for k in range(1, 5 + t):
        hs.append(Harness("words%d" % k, words, dict(k=k, R=100, first="S" if k == 4 and not t else None, last="S" if k == 4 and not t else None), ["end"], weight=k))
    hs.append(Harness("wide", words, dict(k=3 + t, R=40, alphabet="SCBQRAW"), ["end"], weight=3))
    hs.append(Harness("threads", threads, {}, ["end"]))
    return hs
