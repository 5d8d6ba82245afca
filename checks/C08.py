from .common import *

BOUNDS = ("designs of up to 4 (thorough 5) commands over stitch/jump/trim/colour change/stop with every coordinate in [-40,40], 4 over stitch/jump/fast/slow/stop, "
          "3 (thorough 4) with breaks and frame ejects; needle counts 1, 2 and 5; explicit needles 1..60 (above 14 only that they stay a needle change to one the code can name); single moves in [-400,400]^2 (thorough 1000), pairs in "
          "[-140,140]x[-60,60]; every record displacement in [-127,127]^2; a design of 258 colour blocks with one symbolic stitch.")
OUTSIDE = "longer designs and distances; sequins (written as jumps)."
DEADLINE = 110


def speeds_at(pe, m, ops):
    """speed in force at every penetration"""
    out, cur = [], None
    for o in ops:
        if o[0] in "FL":
            cur = o[0]
        elif o[0] in "SAW":
            out.append(cur)
    got, cur = [], None
    for s in m:
        c = s[2] & MASK
        if c == pe.FAST:
            cur = "F"
        elif c == pe.SLOW:
            cur = "L"
        elif c == pe.STITCH:
            got.append(cur)
    return out, got


def needles(pe, q):
    return [((s[2] >> 16) & 0xFF) - 1 for s in q.stitches if (s[2] & MASK) == pe.NEEDLE_SET]


def check(ctx, ops, n, count=None):
    pe = ctx.pe
    p = build(ctx, ops, THREADS[:n])
    q, f = roundtrip(ctx, "u01", p, None if count is None else {"needle_count": count})
    if count == 1:
        # one needle: the machine stops for the operator to change the thread
        exp = expect(ops, lead_needle=True)
        for g in [g for g, _, _, _ in exp[0]] + [exp[1]]:
            g.ev = ["X" if e == "C" else e for e in g.ev]
    else:
        exp = expect(ops, lead_needle=True)
    got = meaning(ctx, q.stitches)
    # a speed switch on a jump of no length leaves only the switch
    compare(ctx, exp, got, "U01", jumps=not any(o[0] in "FL" for o in ops))
    ends(ctx, q, "U01")
    want, have = speeds_at(pe, q.stitches, ops)
    if want != have:
        ctx.fail("U01: speeds %r became %r" % (want, have))
    if count != 1:
        c = count or 5
        nd = needles(pe, q)
        if nd != [i % c + 1 for i in range(len(nd))]:
            ctx.fail("U01: needles %r" % nd)
    ctx.cover("end")


def record(ctx):
    kind = ctx.choose("kind", ["S", "J", "FS", "LS", "FJ", "LJ", "FLS", "LFS"])
    x, y = ctx.int("x", -127, 127), ctx.int("y", -127, 127)
    check(ctx, [("S", 0, 0)] + [(k, x, y) if k in "SJ" else (k,) for k in kind] + [("S", 0, 0)], 1)


def words(ctx, k, R, alphabet="SJTCX", first=None, last=None, Ry=None, count=None):
    check(ctx, design(ctx, alphabet, k, R, first, last, Ry=Ry), k + 1, count)


def explicit(ctx):
    """needles the design names itself"""
    pe = ctx.pe
    p = pe.EmbPattern()
    n = []
    for i in range(3):
        v = ctx.int("n%d" % i, 1, 14 if i else 60)
        n.append(v)
        p.add_stitch_absolute(pe.EmbFunctions.encode_thread_change(pe.NEEDLE_SET, None, v), 5 * i, 0)
        p.add_stitch_absolute(pe.STITCH, 5 * i + 5, 0)
    p.add_stitch_absolute(pe.END, 15, 0)
    q, f = roundtrip(ctx, "u01", p)
    got = needles(pe, q)
    if len(got) != 3:
        ctx.fail("U01: %d needle changes for 3" % len(got))
    # the codes reach to needle 15, further ones share them
    ctx.check(ctx.all([ctx.any([ctx.eq(a, b), ctx.all([a > 14, b >= 1, b <= 15])]) for a, b in zip(n, got)]), "U01: named needles")
    m = meaning(ctx, q.stitches)
    if [g.key() for g, _, _, _ in m[0]] != ["C"] * 3:
        ctx.fail("U01: needle changes misplaced")
    ctx.check(ctx.all([ctx.eq((a[2], a[3]), (5 * i + 5, 0)) for i, a in enumerate(m[0])]), "U01: penetrations")
    ctx.cover("end")


def harnesses(tier):
    t = tier == "thorough"
    hs = [Harness("record", record, {}, ["end"]), Harness("explicit", explicit, {}, ["end"])]
    hs.append(Harness("many", many, dict(fmt="u01", blocks=258, at=[256, 255, 3] if t else [256], lead=True), ["end"], weight=8))
    for k in range(1, 5 + t):
        hs.append(Harness("words%d" % k, words, dict(k=k, R=40), ["end"], weight=k))
    hs.append(Harness("speeds", words, dict(k=4 + t, R=40, alphabet="SJFLX", last="S"), ["end"], weight=4))
    hs.append(Harness("wide", words, dict(k=3 + t, R=40, alphabet="SJBQARW"), ["end"], weight=3))
    for c in (1, 2):
        hs.append(Harness("needles%d" % c, words, dict(k=4 + t, R=40, alphabet="SCX", count=c), ["end"], weight=3))
    hs.append(Harness("far1", words, dict(k=1, R=1000 if t else 400, alphabet="SJ"), ["end"], weight=3))
    hs.append(Harness("far2", words, dict(k=2, R=300 if t else 140, alphabet="SJ", Ry=300 if t else 60), ["end"], weight=5))
    return hs
