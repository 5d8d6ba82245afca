from .common import *

BOUNDS = ("designs of up to 4 (thorough 5) commands over stitch/jump/trim/colour change/stop with every coordinate in [-40,40], "
          "3 (thorough 4) commands with colour breaks; single moves in [-360,360]^2 (thorough [-800,800]^2), pairs in [-140,140]x[-60,60]; every record displacement in "
          "[-127,127]^2; 5 fixed thread lists (distinct, repeated, sharing a palette entry), every order of 6 (thorough 7) blocks in three colours of which two share their nearest entry and of 4 (5) with stops inside the blocks; a design of 258 colour blocks with one symbolic stitch.")
OUTSIDE = "symbolic thread colours (palette search is C23), jumps too short for the format (C21), longer designs."
DEADLINE = 110
# neighbouring blocks that share a nearest palette entry, equal blocks, a missing colour
LISTS = [THREADS, [0xFF0000, 0xFE0000, 0xFD0000, 0xFF0000, 0xFF0000], [0x123456] * 8, [0x808080, 0x818181, 0x808080, 0x000000, 0x000001], []]


def near(c, pal, skip=None):
    best = None
    for i, t in enumerate(pal):
        if t is None or i == skip:
            continue
        r = (((c >> 16) & 255) + ((t.color >> 16) & 255)) // 2
        d = [((c >> s) & 255) - ((t.color >> s) & 255) for s in (16, 8, 0)]
        dist = (((512 + r) * d[0] * d[0]) >> 8) + 4 * d[1] * d[1] + (((767 - r) * d[2] * d[2]) >> 8)
        if best is None or dist <= best[0]:
            best = (dist, i)
    return best[1]


def check(ctx, ops, threads=THREADS, trims=False, trim_at=None):
    pe = ctx.pe
    p = build(ctx, ops, threads)
    w = {"date": "20200101000000"}
    r = None
    if trims:
        w["trims"] = True
        r = {"trims": True}
        if trim_at is not None:
            w["trim_at"] = r["trim_at"] = trim_at
    q, f = roundtrip(ctx, "jef", p, w, r)
    exp, got = expect(ops), meaning(ctx, q.stitches)
    # JEF marks a stop by colour number 0; the number that resumes after a stop is the block's own colour, so a second
    # stop in a block comes back as a change to the same colour
    odd = False
    blocks = -1
    merged = []          # thread index of every block read back
    for g in [g for g, _, _, _ in exp[0]] + [exp[1]]:
        if blocks < 0:
            blocks = 0
            merged.append(0)
        ev = []
        for e in g.ev:
            if e == "X":
                odd = not odd
                ev.append("X" if odd else "C")
                if not odd:
                    merged.append(blocks)
            else:
                odd = False
                blocks += 1
                merged.append(blocks)
                ev.append("C")
        g.ev = ev
    compare(ctx, exp, got, "JEF", trims="atleast" if trims else None, jumps=not trims and not any(o[0] == "J" for o in ops))
    ends(ctx, q, "JEF")
    if threads and 0 < exp[2] <= len(threads):
        pal = pe.EmbThreadJef.get_thread_set()
        want, last = [], None
        for i in merged:
            if last is not None and i == last[0]:
                want.append(want[-1])
                continue
            c = threads[i]
            j = near(c, pal)
            if want and want[-1] == j and threads[last[0]] != c:
                j = near(c, pal, j)
            want.append(j)
            last = (i,)
        colors = [t.color for t in q.threadlist]
        if colors[:len(want)] != [pal[j].color for j in want] or len(colors) > max(len(want), 1):
            ctx.fail("JEF: block colours %r, expected %r" % (colors, [pal[j].color for j in want]))
    ctx.cover("end")


def record(ctx):
    kind = ctx.choose("kind", "SJ")
    x, y = ctx.int("x", -127, 127), ctx.int("y", -127, 127)
    check(ctx, [("S", 0, 0), (kind, x, y), ("S", 0, 0)])


def words(ctx, k, R, alphabet="SJTCX", first=None, last=None, Ry=None, threads=THREADS, trims=False, trim_at=None):
    check(ctx, design(ctx, alphabet, k, R, first, last, Ry=Ry), threads, trims, trim_at)


def lots(ctx, fmt, blocks, mod, **kw):
    """palette colours one after the other"""
    t = ctx.module(mod).get_thread_set()
    cols = [t[i % 60 + 2].color & 0xFFFFFF for i in range(blocks)]
    many(ctx, fmt, blocks, colours=cols, kept=blocks, **kw)


def palette(ctx, n, stops=False):
    """every order of three colours, two of them sharing their nearest palette entry"""
    cols = [ctx.choose("t%d" % i, [0xFF0000, 0xFE0000, 0x0000FF]) for i in range(n)]
    ops = [("S", 0, 0)]
    for i in range(n):
        if i:
            if stops and ctx.choose("stop%d" % i, [False, True]):
                ops += [("X", 0, 0), ("S", i, 2)]
            ops.append(("C", 0, 0))
        ops.append(("S", ctx.int("x%d" % i, -40, 40) if i == n - 1 else i, 1))
    check(ctx, ops, cols)


def harnesses(tier):
    t = tier == "thorough"
    hs = [Harness("record", record, {}, ["end"])]
    hs.append(Harness("many", lots, dict(fmt="jef", blocks=258, mod="EmbThreadJef", at=[256]), ["end"], weight=8))
    for k in range(1, 5 + t):
        hs.append(Harness("words%d" % k, words, dict(k=k, R=40), ["end"], weight=k))
    hs.append(Harness("wide", words, dict(k=3 + t, R=40, alphabet="SCXBQ"), ["end"], weight=3))
    hs.append(Harness("trims", words, dict(k=3 + t, R=30, alphabet="STC", trims=True), ["end"], weight=3))
    for ta in range(2, 9) if t else (2, 4, 8):
        hs.append(Harness("trim_at%d" % ta, words, dict(k=2 + t, R=30, alphabet="STC", first="S", last="S", trims=True, trim_at=ta), ["end"]))
    for i, l in enumerate(LISTS[1:]):
        hs.append(Harness("colors%d" % i, words, dict(k=5, R=20, alphabet="CX", first="S", last="S", threads=l), ["end"]))
    hs.append(Harness("palette", palette, dict(n=6 + t), ["end"], weight=4))
    hs.append(Harness("palette-stops", palette, dict(n=4 + t, stops=True), ["end"], weight=4))
    hs.append(Harness("stops", words, dict(k=5 + t, R=20, alphabet="SCX", first="S"), ["end"], weight=3))
    hs.append(Harness("far1", words, dict(k=1, R=800 if t else 360, alphabet="SJ"), ["end"], weight=3))
    hs.append(Harness("far2", words, dict(k=2, R=300 if t else 140, alphabet="SJ", Ry=300 if t else 60), ["end"], weight=5))
    return hs
