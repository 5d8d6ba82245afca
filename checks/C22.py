from .common import *
from .C19 import ctx_if

BOUNDS = ("patterns of 0..5 (thorough 7) records whose commands are any 24-bit codes (any command byte, any thread/needle bits), any coordinates in [-100,100], also 2 such records after 70 and 260 ordinary blocks, 0..3 threads of any colour; "
          "thread lists of up to 4 symbolic threads for the unique and singleton lists.")
OUTSIDE = "other longer patterns."
DEADLINE = 60


def pattern(ctx, n, ths, lead=0):
    pe = ctx.pe
    p = pe.EmbPattern()
    for i in range(ths):
        p.add_thread(0x100 + i)
    cs = []
    event = [pe.COLOR_CHANGE, pe.COLOR_BREAK, pe.NEEDLE_SET][ctx.choose("lead", [0, 1, 2])] if lead else None
    for i in range(2 * lead):  # ordinary blocks before
        cs.append(event if i % 2 else pe.STITCH)
        p.add_stitch_absolute(cs[-1], i, 5)
    for i in range(2 * lead, 2 * lead + n):
        c = ctx.int("c%d" % i, 0, 0xFFFFFF)
        cs.append(c)
        p.add_stitch_absolute(c, i, ctx.int("y%d" % i, -100, 100))
    return p, cs


def is_(c, k):
    return (c & MASK) == k


def record(ctx, p, blocks):
    """indices per block; every record returned unchanged"""
    out = []
    for b in blocks:
        ix = []
        for s in b:
            i = s[0]
            ctx.check(ctx.eq(list(s), list(p.stitches[i])), "record changed")
            ix.append(i)
        if not ix:
            ctx.fail("empty block")
        out.append(ix)
    flatx = [i for b in out for i in b]
    if flatx != sorted(set(flatx)):
        ctx.fail("records repeated or out of order: %r" % out)
    for b in out:
        if b != list(range(b[0], b[0] + len(b))):
            ctx.fail("block skips a record: %r" % out)
    return out, set(flatx)


def thread_is(ctx, p, t, index, what):
    """t is the index-th thread, a filler when there is none"""
    n = len(p.threadlist)
    for k in range(n):
        if t is p.threadlist[k]:
            ctx.check(index == k, what + ": another thread")
            return
    ctx.check(index >= n, what + ": filler instead of the thread")


def stitchblocks(ctx, n, ths, lead=0):
    pe = ctx.pe
    p, cs = pattern(ctx, n, ths, lead)
    n += 2 * lead
    res = list(p.get_as_stitchblock())
    bl, inc = record(ctx, p, [b for b, _ in res])
    for i in range(n):
        s = is_(cs[i], pe.STITCH)
        ctx.check(s if i in inc else ctx.neg(s), "stitch %d missing or another command included" % i)
    for a, b in zip(bl, bl[1:]):
        if b[0] == a[-1] + 1:
            ctx.fail("run of stitches split")
    for b, (_, t) in zip(bl, res):
        k = 0
        for c in cs[:b[0]]:
            k = k + ctx_if(ctx, is_(c, pe.COLOR_CHANGE))
        thread_is(ctx, p, t, k, "stitch block")
    ctx.cover("end")


def colorblocks(ctx, n, ths, lead=0):
    pe = ctx.pe
    p, cs = pattern(ctx, n, ths, lead)
    n += 2 * lead
    res = list(p.get_as_colorblocks())
    bl, inc = record(ctx, p, [b for b, _ in res])
    B = [is_(c, pe.COLOR_BREAK) for c in cs]
    C = [is_(c, pe.COLOR_CHANGE) for c in cs]
    N = [is_(c, pe.NEEDLE_SET) for c in cs]
    for i in range(n):
        ctx.check(ctx.neg(B[i]) if i in inc else B[i], "record %d missing from the colour blocks or a break included" % i)
    for b in bl:
        ctx.check(ctx.all([ctx.neg(C[i]) for i in b[:-1]] + [ctx.neg(N[i]) for i in b[1:]]), "colour block crosses a change")
    for a, b in zip(bl, bl[1:]):
        if b[0] == a[-1] + 1:
            ctx.check(C[a[-1]] | N[b[0]] if not isinstance(C[a[-1]], bool) else ctx.any([C[a[-1]], N[b[0]]]), "colour block split without a change")
    for k, (_, t) in enumerate(res):
        thread_is(ctx, p, t, k, "colour block %d" % k)
    ctx.cover("end")


def commandblocks(ctx, n, lead=0):
    p, cs = pattern(ctx, n, 0, lead)
    n += 2 * lead
    bl, inc = record(ctx, p, list(p.get_as_command_blocks()))
    if len(inc) != n:
        ctx.fail("records missing from the command blocks")
    for b in bl:
        for i, j in zip(b, b[1:]):
            ctx.check((cs[i] & MASK) == (cs[j] & MASK), "command block mixes commands")
    for a, b in zip(bl, bl[1:]):
        ctx.check((cs[a[-1]] & MASK) != (cs[b[0]] & MASK), "run of one command split")
    ctx.cover("end")


def rows(ctx, n):
    pe = ctx.pe
    p, cs = pattern(ctx, n, 0)
    res = list(p.get_as_stitches())
    if len(res) != n:
        ctx.fail("rows")
    for i, r in enumerate(res):
        ctx.check(ctx.eq(list(r[:3]), [i, i, p.stitches[i][1]]) & (r[3] == (cs[i] & MASK)), "row of record %d" % i)
        t, nd = (cs[i] >> 8) & 255, (cs[i] >> 16) & 255
        for have, byte, w in ((r[4], t, "thread"), (r[5], nd, "needle")):
            ctx.check(byte == 0 if have is None else byte == have + 1, "%s index of record %d" % (w, i))
        if r[6] is not None:
            ctx.fail("order invented")
    w = ctx.int("want", 0, 255)
    m = list(p.get_match_commands(w))
    ix = [s[0] for s in m]
    if ix != sorted(set(ix)):
        ctx.fail("matching records repeated or out of order")
    for i in range(n):
        ctx.check(is_(cs[i], w) if i in ix else ctx.neg(is_(cs[i], w)), "matching records")
    ctx.cover("end")


def threadlists(ctx, n):
    pe = ctx.pe
    p = pe.EmbPattern()
    k = ctx.choose("k", range(n + 1))
    for i in range(k):
        t = pe.EmbThread()
        t.color = ctx.int("col%d" % i, 0, 0xFFFFFF)
        t.description = ctx.choose("d%d" % i, [None, "a"])
        p.threadlist.append(t)
    s = p.get_singleton_threadlist()
    def same(a, b):
        return ctx.all([a.color == b.color, a.description == b.description])
    j = 0
    for i, t in enumerate(p.threadlist):
        rep = same(t, p.threadlist[i - 1]) if i else False
        taken = j < len(s) and s[j] is t
        ctx.check(ctx.neg(rep) if taken else rep, "singleton list keeps a repeat or drops a thread")
        j += taken
    if j != len(s):
        ctx.fail("singleton list")
    u = list(p.get_unique_threadlist())
    for t in p.threadlist:
        ctx.check(ctx.any([same(t, x) for x in u]), "unique list misses a thread")
    for i, a in enumerate(u):
        for b in u[:i]:
            ctx.check(ctx.neg(same(a, b)), "unique list repeats a thread")
    ctx.cover("end")


def harnesses(tier):
    t = tier == "thorough"
    top = 7 if t else 5
    hs = []
    for n in range(top + 1):
        for ths in ((1, 3) if n < top else (2,)):
            hs.append(Harness("stitchblocks_%d_%d" % (n, ths), lambda ctx, n=n, k=ths: stitchblocks(ctx, n, k), {}, ("end",)))
            hs.append(Harness("colorblocks_%d_%d" % (n, ths), lambda ctx, n=n, k=ths: colorblocks(ctx, n, k), {}, ("end",)))
        hs.append(Harness("commandblocks_%d" % n, lambda ctx, n=n: commandblocks(ctx, n), {}, ("end",)))
    for lead in (70, 260):
        hs.append(Harness("stitchblocks_after_%d" % lead, stitchblocks, dict(n=2, ths=lead + 2, lead=lead), ("end",)))
        hs.append(Harness("colorblocks_after_%d" % lead, colorblocks, dict(n=2, ths=lead + 2, lead=lead), ("end",)))
        hs.append(Harness("commandblocks_after_%d" % lead, commandblocks, dict(n=2, lead=lead), ("end",)))
    hs.append(Harness("rows", lambda ctx: rows(ctx, 3), {}, ("end",)))
    hs.append(Harness("threadlists", lambda ctx: threadlists(ctx, 4 if t else 3), {}, ("end",)))
    return hs
