from .common import *

BOUNDS = ("designs of up to 4 (thorough 5) commands over stitch/trim/colour change/stop with every coordinate in [-100,100], up to 3 (thorough 4) with explicit "
          "jumps; every displacement of one record in [-2047,2047]^2 and single moves in [-4500,4500]x[-100,100] (thorough [-4500,4500]^2); palette of distinct fixed colours; a design of 255 colour blocks with one symbolic stitch.")
OUTSIDE = ("preview bitmaps (C27, stubbed here), symbolic thread colours (C23), stops or changes with no sewing between them, repeated neighbouring colours (PEC stores a stop "
           "as a repeated colour).")
DEADLINE = 110


def separated(ops):
    """sewing before the first stop and between any two changes/stops"""
    sewn, ch = False, False
    for o in ops:
        if o[0] == "S":
            sewn, ch = True, False
        elif o[0] in "CX":
            if o[0] == "X" and not sewn or ch:
                return False
            ch = True
    return not ch or not sewn or ops[-1][0] == "S"


def check(ctx, ops, anchored=False, fmt="pec", wset=None):
    if not separated(ops):
        ctx.stop()
    q, f = pec_roundtrip(ctx, fmt, build(ctx, ops, THREADS[:len(ops) + 1]), wset)
    exp, got = expect(ops), meaning(ctx, q.stitches)
    if anchored:
        compare_anchored(ctx, exp, got, fmt)
    else:
        compare(ctx, exp, got, fmt, trims=None)
        pec_trims(ctx, exp, got, fmt)
    ends(ctx, q, fmt)
    n = max(exp[2], 1)
    if exp[2]:
        ctx.check(len(q.threadlist) == n, "%s: %d threads for %d blocks" % (fmt, len(q.threadlist), n))
    ctx.cover("end")
    return q


def record(ctx):
    kind = ctx.choose("kind", "SJ")
    x, y = ctx.int("x", -2047, 2047), ctx.int("y", -2047, 2047)
    check(ctx, [("S", 0, 0), (kind, x, y), ("S", x, y)], anchored=kind == "J")


def words(ctx, k, R, alphabet="STCX", first=None, last=None, Ry=None, anchored=False):
    check(ctx, design(ctx, alphabet, k, R, first, last, Ry=Ry), anchored)


def lots(ctx, fmt, blocks, mod, **kw):
    """palette colours one after the other"""
    t = ctx.module(mod).get_thread_set()
    cols = [t[i % 60 + 2].color & 0xFFFFFF for i in range(blocks)]
    with ctx.stub("PecWriter", "draw_scaled", lambda *a, **k: None):
        many(ctx, fmt, blocks, colours=cols, kept=blocks, **kw)


def harnesses(tier):
    t = tier == "thorough"
    hs = [Harness("record", record, {}, ["end"])]
    hs.append(Harness("many", lots, dict(fmt="pec", blocks=255, mod="EmbThreadPec", at=[254]), ["end"], weight=8))
    for k in range(1, 5 + t):
        hs.append(Harness("words%d" % k, words, dict(k=k, R=100), ["end"], weight=k))
    hs.append(Harness("jumps2", words, dict(k=2, R=100, alphabet="SJTC", anchored=True), ["end"]))
    hs.append(Harness("jumps3", words, dict(k=3, R=100, alphabet="SJC", anchored=True), ["end"], weight=3))
    if t:
        hs.append(Harness("jumps4", words, dict(k=4, R=100, alphabet="SJC", anchored=True), ["end"], weight=3))
    hs.append(Harness("stops", words, dict(k=5, R=30, alphabet="XCS", first="S", last="S"), ["end"], weight=3))
    hs.append(Harness("far1", words, dict(k=1, R=4500, alphabet="S"), ["end"], weight=3))
    hs.append(Harness("far2", words, dict(k=2, R=4500, Ry=4500 if t else 100, alphabet="S", anchored=True), ["end"], weight=5))
    return hs
