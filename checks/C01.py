from .common import *

BOUNDS = ("designs of up to 4 (thorough 5) commands over stitch/jump/trim/colour change/stop with every coordinate in "
          "[-40,40] (single records), up to 2 commands with coordinates in [-120,120]x[-60,60] (thorough [-300,300]^2) and single moves in [-360,360] (thorough [-1000,1000]) "
          "(multi-record), trim_at 3..6, up to 4 sequin/mode commands; every single record displacement in [-121,121]^2; a design of 258 colour blocks with one symbolic stitch.")
OUTSIDE = "longer designs, numeric header text (C25), symbolic thread colours, coordinates beyond the stated ranges."


def record(ctx):
    """encode_record/decode inverse over the full displacement range through the public writer"""
    pe = ctx.pe
    kind = ctx.choose("kind", "SJ")
    x, y = ctx.int("x", -121, 121), ctx.int("y", -121, 121)
    ops = [("S", 0, 0), (kind, x, y), ("S", x, y)]
    p = build(ctx, ops, THREADS[:1])
    f = ctx.stream()
    pe.write_dst(p, f)
    blank_header(ctx, f, 512)
    f.seek(0)
    q = pe.read_dst(f)
    ctx.observe(ctx.stitches(q))
    compare(ctx, expect(ops), meaning(ctx, q.stitches), "DST", stop_as_change=True)
    if kind == "J":
        js = [s for s in q.stitches if s[2] & MASK == pe.JUMP]
        ctx.check(ctx.any([ctx.all([ctx.eq(x, 0), ctx.eq(y, 0)]), ctx.all([len(js) == 1] + [ctx.eq((j[0], j[1]), (x, y)) for j in js])]),
                  "DST: jump position")
    ctx.cover("end")


def words(ctx, k, R, alphabet="SJTCX", settings=None, first=None, last=None, trims="rule", trim_at=3, Ry=None):
    pe = ctx.pe
    ops = design(ctx, alphabet, k, R, first, last, Ry=Ry)
    p = build(ctx, ops, THREADS[:k + 1])
    f = ctx.stream()
    pe.write_dst(p, f, {"trim_at": trim_at} if trim_at != 3 else settings)
    blank_header(ctx, f, 512)
    f.seek(0)
    q = pe.read_dst(f, {"trim_at": trim_at} if trim_at != 3 else None)
    ctx.observe(ctx.stitches(q))
    exp, got = expect(ops), meaning(ctx, q.stitches)
    compare(ctx, exp, got, "DST", stop_as_change=True, trims="atleast")
    if trims == "rule":
        # within single-record distances a gap without changes has exactly as many jump records as explicit jumps
        for i, ((ge, _, _, _), (gm, _, _, _)) in enumerate(zip(exp[0], got[0])):
            if i and not ge.ev and not ge.trim and gm.trim and ge.jumps < trim_at:
                ctx.fail("DST: trim invented before penetration %d" % i)
    ctx.check(len(q.stitches) > 0 and ctx.eq(q.stitches[-1][2], pe.END), "DST: ends with END")
    ctx.cover("end")


def sequins(ctx, k, R):
    pe = ctx.pe
    ops = design(ctx, "SEJ", k, R, first="SE")
    p = build(ctx, ops, THREADS[:1])
    f = ctx.stream()
    pe.write_dst(p, f, {"sequin_contingency": pe.CONTINGENCY_SEQUIN_UTILIZE})
    blank_header(ctx, f, 512)
    f.seek(0)
    q = pe.read_dst(f, {"trim_at": 50})
    ctx.observe(ctx.stitches(q))
    exp = expect(ops)
    # a sequin sewn after a trimmed state is anchored by a penetration at the same place
    e2, fresh = [], True
    for g, kd, x, y in exp[0]:
        if kd == "E" and fresh:
            e2.append((g, "S", x, y))
            g = Gap()
        fresh = False
        e2.append((g, kd, x, y))
    compare(ctx, (e2, exp[1], exp[2]), meaning(ctx, q.stitches), "DST sequins", trims=None)
    on = False
    for s in q.stitches:
        c = s[2] & MASK
        if c == pe.SEQUIN_MODE:
            on = not on
        elif c == pe.SEQUIN_EJECT and not on or c == pe.JUMP and on:
            ctx.fail("DST sequins: %s with mode %s" % ("eject" if c == pe.SEQUIN_EJECT else "jump", "on" if on else "off"))
    ctx.cover("end")


def harnesses(tier):
    t = tier == "thorough"
    hs = [Harness("record", record, {}, ["end"])]
    hs.append(Harness("many", many, dict(fmt="dst", blocks=258, at=[256, 255, 3] if t else [256]), ["end"], weight=8))
    for k in range(1, 5 + t):
        hs.append(Harness("words%d" % k, words, dict(k=k, R=40), ["end"], weight=k))
    for ta in (4, 5, 6):
        hs.append(Harness("trim_at%d" % ta, words, dict(k=4, R=40, alphabet="ST", first="S", last="S", trim_at=ta), ["end"]))
        hs.append(Harness("trim_at%dj" % ta, words, dict(k=5, R=20, alphabet="J", first="S", last="S", trim_at=ta), ["end"]))
    hs.append(Harness("far1", words, dict(k=1, R=1000 if t else 360, alphabet="SJ", trims=None), ["end"], weight=3))
    hs.append(Harness("far2", words, dict(k=2, R=300 if t else 120, alphabet="SJ", trims=None, Ry=300 if t else 60), ["end"], weight=5))
    hs.append(Harness("sequins", sequins, dict(k=4, R=40), ["end"], weight=4))
    hs.append(Harness("sequins_far", sequins, dict(k=2, R=60), ["end"], weight=4))
    return hs
