from .common import *

BOUNDS = ("designs of up to 4 (thorough 5) commands over stitch/jump/trim/colour change/stop with every coordinate in [-40,40], 3 (thorough 4) with breaks, sequence "
          "breaks and frame ejects; single moves in [-400,400]^2 (thorough 1000), pairs in [-140,140]x[-60,60]; every record displacement in [-124,124]^2; "
          "up to 4 threads with symbolic 24-bit colours, 0 to 30 fixed ones; a design of 258 colour blocks with one symbolic stitch.")
OUTSIDE = "longer designs and distances; sequins (written as jumps)."
DEADLINE = 110


def check(ctx, ops, n):
    p = build(ctx, ops, THREADS[:n])
    q, f = roundtrip(ctx, "xxx", p)
    exp, got = expect(ops), meaning(ctx, q.stitches)
    compare(ctx, exp, got, "XXX", stop_as_change=True, jumps=True)
    ends(ctx, q, "XXX")
    if exp[2] and [t.color for t in q.threadlist] != THREADS[:exp[2]]:
        ctx.fail("XXX: block colours %r" % [t.color for t in q.threadlist])
    ctx.cover("end")


def record(ctx):
    kind = ctx.choose("kind", "SJ")
    x, y = ctx.int("x", -124, 124), ctx.int("y", -124, 124)
    check(ctx, [("S", 0, 0), (kind, x, y), ("S", 0, 0)], 1)


def words(ctx, k, R, alphabet="SJTCX", first=None, last=None, Ry=None):
    check(ctx, design(ctx, alphabet, k, R, first, last, Ry=Ry), k + 1)


def threads(ctx):
    pe = ctx.pe
    n = ctx.choose("n", [1, 2, 4, 21, 22, 30])
    cols = []
    p = pe.EmbPattern()
    for i in range(n):
        t = pe.EmbThread()
        t.color = ctx.int("color%d" % i, 0, 0xFFFFFF) if i < 4 else 0x10203 * i
        cols.append(t.color)
        p.add_thread(t)
        p.add_stitch_absolute(pe.STITCH, 10 * i, 5)
        p.add_stitch_absolute(pe.COLOR_CHANGE if i < n - 1 else pe.END, 10 * i, 5)
    q, f = roundtrip(ctx, "xxx", p)
    if len(q.threadlist) != n:
        ctx.fail("XXX: %d threads written, %d read" % (n, len(q.threadlist)))
    ctx.check(ctx.all([ctx.eq(a, b.color) for a, b in zip(cols, q.threadlist)]), "XXX: thread colours")
    m = meaning(ctx, q.stitches)
    if len(m[0]) != n or [g.key() for g, _, _, _ in m[0]] != [""] + ["C"] * (n - 1):
        ctx.fail("XXX: blocks")
    ctx.cover("end")


def harnesses(tier):
    t = tier == "thorough"
    hs = [Harness("record", record, {}, ["end"]), Harness("threads", threads, {}, ["end"])]
    hs.append(Harness("many", many, dict(fmt="xxx", blocks=258, at=[256, 255, 3] if t else [256], kept=258), ["end"], weight=8))
    for k in range(1, 5 + t):
        hs.append(Harness("words%d" % k, words, dict(k=k, R=40), ["end"], weight=k))
    hs.append(Harness("wide", words, dict(k=3 + t, R=40, alphabet="SJBQARW"), ["end"], weight=3))
    hs.append(Harness("far1", words, dict(k=1, R=1000 if t else 400, alphabet="SJ"), ["end"], weight=3))
    hs.append(Harness("far2", words, dict(k=2, R=300 if t else 140, alphabet="SJ", Ry=300 if t else 60), ["end"], weight=5))
    return hs
