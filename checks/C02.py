from .common import *

BOUNDS = ("designs of up to 4 (thorough 5) commands over stitch/jump/trim/colour change/stop/colour break with every coordinate in [-40,40]; "
          "single moves in [-360,360]^2 (thorough [-1000,1000]^2) and pairs in [-140,140]x[-60,60] (multi-record); every record displacement in [-127,127]^2; a design of 258 colour blocks with one symbolic stitch.")
OUTSIDE = "longer designs and distances; sequins (stored as jumps)."
DEADLINE = 100


def check(ctx, ops, n):
    q, f = roundtrip(ctx, "exp", build(ctx, ops, THREADS[:n]))
    compare(ctx, expect(ops), meaning(ctx, q.stitches), "EXP", stop_as_change=True, jumps=True)
    ends(ctx, q, "EXP")
    ctx.cover("end")


def record(ctx):
    kind = ctx.choose("kind", "SJ")
    x, y = ctx.int("x", -127, 127), ctx.int("y", -127, 127)
    check(ctx, [("S", 0, 0), (kind, x, y), ("S", 0, 0)], 1)


def words(ctx, k, R, alphabet="SJTCX", first=None, last=None, Ry=None):
    check(ctx, design(ctx, alphabet, k, R, first, last, Ry=Ry), k + 1)


def harnesses(tier):
    t = tier == "thorough"
    hs = [Harness("record", record, {}, ["end"])]
    hs.append(Harness("many", many, dict(fmt="exp", blocks=258, at=[256, 255, 3] if t else [256]), ["end"], weight=8))
    for k in range(1, 5 + t):
        hs.append(Harness("words%d" % k, words, dict(k=k, R=40), ["end"], weight=k))
    hs.append(Harness("wide3", words, dict(k=3, R=40, alphabet="SJBQARW"), ["end"], weight=3))
    hs.append(Harness("far1", words, dict(k=1, R=1000 if t else 360, alphabet="SJ"), ["end"], weight=3))
    hs.append(Harness("far2", words, dict(k=2, R=300 if t else 140, alphabet="SJ", Ry=300 if t else 60), ["end"], weight=5))
    return hs
