import copy as _copy
from .common import *

BOUNDS = ("operands of up to 3 commands each (thorough 4) over stitch/needle-at/sew-to/sequin/jump/trim/colour change/stop/colour break/needle set with symbolic coordinates in [-40,40] (the content harness), with and without END, with "
          "0..as many threads as blocks, the joining threads' colours symbolic; +, +=, add_pattern with translation and needle-centred scaling; copies by copy(), copy.copy, copy.deepcopy, EmbPattern(p) and "
          "+ with 9 follow-up mutations on either side; metadata maps that overlap; += thread and += text pair.")
OUTSIDE = ("operands listing more threads than the blocks they sew, colour changes not separated by sewing; thread objects (shared by design, deepcopy excepted); rotation in add_pattern (C14).")
DEADLINE = 60
EVENTS = "CBU"


def separated(ops):
    """every colour change of an operand has sewing on both sides (leading ones are allowed)"""
    pend = False
    for o in ops:
        if o[0] in EVENTS:
            if pend:
                return False
            pend = True
        elif o[0] in "SAWE":
            pend = False
    return not pend


def sews(ops):
    return any(o[0] in "SAWE" for o in ops)


def body(ops):
    """without the leading changes"""
    out, lead = [], True
    for o in ops:
        if o[0] in "SAWE":
            lead = False
        if lead and o[0] in EVENTS:
            continue
        out.append(o)
    return out


def blocks(ops):
    n, open_ = 0, False
    for o in ops:
        if o[0] in "SAWE" and not open_:
            n, open_ = n + 1, True
        elif o[0] in EVENTS:
            open_ = False
    return n


def operand(ctx, pre, k, alphabet, colour, end):
    ops = design(ctx, alphabet, k, 40, pre=pre)
    if not separated(ops):
        ctx.stop()
    n = blocks(ops)
    have = ctx.choose(pre + "threads%d" % n, list(range(n + 1)))
    th = []
    for i in range(have):
        t = ctx.pe.EmbThread()
        t.color = colour if (pre == "a" and i == n - 1) or (pre == "b" and i == 0) else THREADS[i + (0 if pre == "a" else 4)]
        th.append(t)
    return ops, th, n, build(ctx, ops, th, end=end)


def snap(p):
    return [list(s) for s in p.stitches], list(p.threadlist), [(t.color, t.description) for t in p.threadlist], dict(p.extras)


def unchanged(ctx, p, s, what):
    st, th, tv, ex = s
    if len(p.stitches) != len(st) or len(p.threadlist) != len(th) or set(p.extras) != set(ex):
        ctx.fail(what + ": records, threads or metadata changed")
    ctx.check(ctx.eq([list(x) for x in p.stitches], st), what + ": records changed")
    ctx.check(ctx.eq([(t.color, t.description) for t in p.threadlist], tv), what + ": threads changed")
    if p.extras != ex:
        ctx.fail(what + ": metadata changed")


def content(ctx, ka, kb, form, ab="SJTCXB", bb="SJTCXB"):
    pe = ctx.pe
    ca = ctx.int("ca", 0, 0xFFFFFF)
    cb = ctx.int("cb", 0, 0xFFFFFF)
    a, ta, na, p = operand(ctx, "a", ka, ab, ca, ctx.choose("aend", [0, 1]))
    b, tb, nb, q = operand(ctx, "b", kb, bb, cb, True)
    p.metadata("name", "first")
    p.metadata("author", "someone")
    q.metadata("name", "second")
    sp, sq = snap(p), snap(q)
    f = None
    r = p
    if form == "+":
        r = p + q
    elif form == "+=":
        r += q
    elif form == "add":
        p.add_pattern(q)
    elif form == "move":
        dx, dy = ctx.choose("only", [(1, 1), (1, 0), (0, 1)])
        mx, my = ctx.int("mx", -30, 30) if dx else None, ctx.int("my", -30, 30) if dy else None
        p.add_pattern(q, mx, my)
        f = lambda x, y: (x + (mx if dx else 0), y + (my if dy else 0))
    else:
        sx, sy = ctx.choose("scale", [(2, None), (None, 2), (2, 3)])
        p.add_pattern(q, sx=sx, sy=sy)
        kx, ky = sx or sy, sy or sx
        nx, ny = p.stitches[0][:2] if False else needle(a)
        f = lambda x, y: ((x - nx) * kx + nx, (y - ny) * ky + ny)
    unchanged(ctx, q, sq, "operand")
    if form == "+":
        unchanged(ctx, p, sp, "left operand")
    if r.extras != {"name": "second", "author": "someone"}:
        ctx.fail("metadata %r" % r.extras)
    # threads: A's blocks (fillers where it names none), then B's
    th = list(ta) + [None] * (na - len(ta))
    same = False
    if tb and th:
        same = th[-1] is not None and bool(th[-1].color == cb)
    sep = [("C", None, None)] if tb and th and not same else []
    thr = th + (list(tb)[1:] if same else list(tb))
    bb_ = body(b)
    if f:
        bb_ = [(o[0],) + tuple(f(o[1], o[2])) if o[0] in MOVING else o for o in bb_]
    ops = list(a) + sep + bb_
    if len(r.threadlist) < len(thr):
        ctx.fail("%d threads for %d" % (len(r.threadlist), len(thr)))
    got = r.get_normalized_pattern({"long_stitch_contingency": pe.CONTINGENCY_LONG_STITCH_NONE, "sequin_contingency": pe.CONTINGENCY_SEQUIN_UTILIZE})
    compare(ctx, expect(ops), unanchored(ctx, expect(ops), meaning(ctx, got.stitches)), "combined", jumps=True)
    for i, t in enumerate(thr[:len(got.threadlist)]):
        if t is not None:
            ctx.check(got.threadlist[i].color == t.color, "block %d sewn with another thread" % i)
    ctx.cover("end")


def unanchored(ctx, exp, got):
    """without the stitch that anchors a block which starts with a sequin (at the sequin's place)"""
    m, i = list(got[0]), 0
    while i < len(m) - 1 and i < len(exp[0]):
        if exp[0][i][1] == "E" and m[i][1] == "S" and m[i + 1][1] == "E":
            ctx.check(ctx.eq(m[i][2:], m[i + 1][2:]), "combined: anchor away from the sequin")
            m[i + 1] = (m[i][0],) + tuple(m[i + 1][1:])
            del m[i]
        i += 1
    return (m,) + tuple(got[1:])


def needle(ops):
    x = y = 0
    for o in ops:
        if o[0] in MOVING:
            x, y = o[1], o[2]
    return x, y


MUT = ["translate", "record", "command", "delete", "append", "thread", "threadlist", "metadata", "clear", "block"]


def mutate(ctx, p, how, i):
    pe = ctx.pe
    if how == "translate":
        p.translate(ctx.int("tx", 1, 50), 3)
    elif how == "record":
        p.stitches[i][0] = 777
    elif how == "command":
        for s in p.stitches:
            s[2] = pe.TRIM
    elif how == "delete":
        del p.stitches[i]
    elif how == "append":
        p.stitch_abs(5, 5)
    elif how == "thread":
        p.add_thread("green")
    elif how == "threadlist":
        p.threadlist[:] = []
    elif how == "metadata":
        p.metadata("name", "changed")
    elif how == "clear":
        p.clear()
    elif how == "block":
        p.interpolate_stop_as_duplicate_color()
        p.stitches.sort(key=lambda s: -1)
        p.stitches[0][1] = -777


COPIES = ["copy", "copy.copy", "deepcopy", "EmbPattern", "+", "+=", "0+", "0+="]


def copies(ctx, how):
    pe = ctx.pe
    p = build(ctx, design(ctx, "SJTCX", 2, 40) + [("S", 3, 4)], THREADS[:2])
    p.metadata("name", "first")
    p.stop()
    q = None
    extra = pe.EmbPattern()
    if how == "copy":
        q = p.copy()
    elif how == "copy.copy":
        q = _copy.copy(p)
    elif how == "deepcopy":
        q = _copy.deepcopy(p)
    elif how == "EmbPattern":
        q = pe.EmbPattern(p)
    elif how == "+":
        extra = build(ctx, [("S", 9, 9), ("C", None, None), ("S", 8, 8)], THREADS[2:4])
        q = p + extra
    elif how == "0+":
        q = pe.EmbPattern() + p
    else:
        q = pe.EmbPattern()
        if how == "+=":
            q.stitch_abs(1, 1)
        q += p
    src = p
    if how == "+" and ctx.choose("which", [0, 1]):
        src = extra
    s0, s1 = snap(src), snap(q)
    if "+" not in how:
        unchanged(ctx, q, s0, "copy")
        if not (q == p) or q != p:
            ctx.fail("a copy differs from its source")
        q.stitch(1, 2)
        p.stitch(1, 2)
        ctx.check(ctx.eq(q.stitches[-1], p.stitches[-1]), "copy has another running position")
        s0, s1 = snap(src), snap(q)
    m = ctx.choose("mutation", MUT)
    if ctx.choose("side", [0, 1]):
        i = ctx.choose("i", range(2))
        mutate(ctx, src, m, i)
        unchanged(ctx, q, s1, "copy after its source changed")
    else:
        i = ctx.choose("j", range(4))
        mutate(ctx, q, m, i)
        unchanged(ctx, src, s0, "source after its copy changed")
    ctx.cover("end")


def additions(ctx):
    """+= of a thread, a text pair, a command"""
    pe = ctx.pe
    ops = design(ctx, "SJTC", 2, 40)
    p = build(ctx, ops, [], end=False)
    n = len(p.stitches)
    form = ctx.choose("form", ["thread", "name", "pair", "command"])
    if form == "thread":
        t = pe.EmbThread()
        t.color = ctx.int("color", 0, 0xFFFFFF)
        p += t
        ctx.check(p.threadlist[-1].color == t.color, "thread colour")
    elif form == "name":
        p += "blue"
        ctx.check(ctx.eq(p.threadlist[-1].color, 0x0000FF), "thread colour")
    elif form == "pair":
        p += ("name", "x")
        if p.extras != {"name": "x"}:
            ctx.fail("metadata pair")
    else:
        p += pe.TRIM
    want = n + (1 if form == "command" or form in ("thread", "name") and sews(ops) else 0)
    if len(p.stitches) != want:
        ctx.fail("%d records, expected %d" % (len(p.stitches), want))
    if want > n:
        ctx.check(ctx.eq(p.stitches[-1][2], pe.TRIM if form == "command" else pe.COLOR_CHANGE), "record added")
    ctx.cover("end")


def harnesses(tier):
    t = tier == "thorough"
    hs = []
    for form in ("+", "+=", "add", "move", "scale"):
        k = (2, 2) if form in ("+=", "add", "move", "scale") else (3, 2)
        if t:
            k = (k[0] + 1, k[1] + 1)
        ab = "SJTC" if k[0] > 2 else "SJTCXB"
        hs.append(Harness("content" + form, lambda ctx, f=form, k=k, ab=ab: content(ctx, k[0], k[1], f, ab), {}, ("end",), weight=3))
    hs.append(Harness("content_kinds", lambda ctx: content(ctx, 1, 4 if t else 3, "+", "SU", "SAWECU"), {}, ("end",), weight=3))
    hs.append(Harness("content_b3", lambda ctx: content(ctx, 1, 4 if t else 3, "+", "SC", "SCBJX"), {}, ("end",), weight=3))
    for how in COPIES:
        hs.append(Harness("copies_" + how, lambda ctx, h=how: copies(ctx, h), {}, ("end",)))
    hs.append(Harness("additions", additions, {}, ("end",)))
    return hs
