from .common import *
from .C20 import separated, blocks

BOUNDS = ("designs of 5 (thorough 6) commands over stitch/jump/trim/colour change/stop/eject with every coordinate in [-60,60], jump thresholds 1..5 (thorough 1..6) or none, distance thresholds any "
          "integer 0..100 or none, clipping on and off; the jump merges over 5 (6) commands; the stop conversions over 6 (7) commands (also with needle-at, sew-to and sequins as the sewing) with symbolic thread colours; frame ejects over 6 (7); "
          "stabilising and thread filling over 5 (6).")
OUTSIDE = "trim commands directly after a run of jumps when clipping; stop/colour conversions where changes are not separated by sewing; needle sets with indices; designs with middle-level commands."
DEADLINE = 60


def pens(ctx, p, what, ops):
    """penetrations and the colour blocks they lie in are those of ops"""
    pe = ctx.pe
    want, b = [], 0
    for o in ops:
        if o[0] in "SE":
            want.append((b, o[0], o[1], o[2]))
        elif o[0] in "CU":
            b += 1
    have, b = [], 0
    for s in p.stitches:
        c = s[2] & MASK
        if c in (pe.STITCH, pe.SEQUIN_EJECT):
            have.append((b, "S" if c == pe.STITCH else "E", s[0], s[1]))
        elif c in (pe.COLOR_CHANGE, pe.COLOR_BREAK, pe.NEEDLE_SET):
            b += 1
    if [h[:2] for h in have] != [w[:2] for w in want]:
        ctx.fail("%s: penetrations or their colour blocks changed" % what)
    ctx.check(ctx.eq([h[2:] for h in have], [w[2:] for w in want]), "%s: penetration positions" % what)


def shift(ctx, p):
    """commands that do not sew need not stand where the needle is"""
    d = ctx.int("shift", 0, 9)
    for s in p.stitches:
        if s[2] & MASK in (ctx.pe.STOP, ctx.pe.COLOR_CHANGE, ctx.pe.COLOR_BREAK, ctx.pe.TRIM):
            s[0] += d


def runs(recs, pe):
    """(start, end) of the maximal runs of jumps"""
    out, i = [], 0
    while i < len(recs):
        if (recs[i][2] & MASK) == pe.JUMP:
            j = i
            while j < len(recs) and (recs[j][2] & MASK) == pe.JUMP:
                j += 1
            out.append((i, j))
            i = j
        else:
            i += 1
    return out


def trims(ctx, k, clipping, alphabet, nmax):
    pe = ctx.pe
    ops = design(ctx, alphabet, k, 60, first="SJ", last="SJC")
    if clipping and any(a[0] == "J" and b[0] == "T" for a, b in zip(ops, ops[1:])):
        ctx.stop()      # a clipped run would leave its own and the design's trim indistinguishable
    p = build(ctx, ops, end=ctx.choose("end", [True, False]))
    n = ctx.choose("n", [None] + list(range(1, nmax + 1)))
    d = ctx.int("d", 0, 100) if ctx.choose("dist", [0, 1]) else None
    src = [list(s) for s in p.stitches]
    p.interpolate_trims(n, d, clipping)
    pens(ctx, p, "trims", ops)
    # which runs need a trim
    need, trimmed, x, y, i = {}, True, 0, 0, 0
    for a, b in runs(src, pe):
        for r in src[i:a]:
            c = r[2] & MASK
            trimmed = False if c in (pe.STITCH, pe.SEQUIN_EJECT) else True if c in (pe.COLOR_CHANGE, pe.NEEDLE_SET, pe.TRIM) else trimmed
        ox, oy = (src[a - 1][0], src[a - 1][1]) if a else (0, 0)
        w = False
        if trimmed is not True:
            w = n is not None and b - a >= n
            if d is not None:
                w = ctx.any([w] + [ctx.any([r[0] - ox > d, ox - r[0] > d, r[1] - oy > d, oy - r[1] > d]) for r in src[a:b]])
            if trimmed is not False:
                w = ctx.all([w, ctx.neg(trimmed)])
        need[a] = w
        if w is not False:
            trimmed = w if trimmed is False else ctx.any([trimmed, w])
        i = b
    # walk the result along the source
    got, j = p.stitches, 0
    i = 0
    while i < len(src):
        if i in need:
            b = [e for s, e in runs(src, pe) if s == i][0]
            ins = j < len(got) and (got[j][2] & MASK) == pe.TRIM
            ctx.check(need[i] if ins else ctx.neg(need[i]), "run of %d jumps %s" % (b - i, "trimmed below the thresholds" if ins else "not trimmed"))
            if ins:
                ctx.check(ctx.eq(got[j][:2], src[i - 1][:2] if i else [0, 0]), "trim away from the needle")
                j += 1
            m = j
            while m < len(got) and (got[m][2] & MASK) == pe.JUMP:
                m += 1
            if not clipping:
                if m - j != b - i:
                    ctx.fail("%d jumps became %d" % (b - i, m - j))
                ctx.check(ctx.eq([list(r) for r in got[j:m]], src[i:b]), "jumps changed")
            else:
                # what is left of the run still ends where the run ended, and consists of jumps of the run
                if m > j:
                    ctx.check(ctx.eq([list(r) for r in got[j:m]], src[b - (m - j):b]), "clipped run ends elsewhere")
                if m - j < b - i:
                    cut = src[b - (m - j) - 1]
                    ctx.check(ctx.eq(list(cut[:2]), list(src[i - 1][:2]) if i else [0, 0]), "jumps with a displacement removed")
            j, i = m, b
            continue
        if j >= len(got):
            ctx.fail("records lost")
        ctx.check(ctx.eq(list(got[j]), src[i]), "record changed")
        i, j = i + 1, j + 1
    if j != len(got):
        ctx.fail("records added")
    ctx.cover("end")


def merged(ctx, k, which, alphabet="SJTCXE"):
    pe = ctx.pe
    ops = design(ctx, alphabet, k, 60, first="SJ", last="SJ")
    p = build(ctx, ops, THREADS[:3], end=ctx.choose("end", [True, False]))
    p.metadata("name", "x")
    flag = ctx.choose("flag", [0, 0x100])
    for s in p.stitches:
        s[2] |= flag
    src = [list(s) for s in p.stitches]
    if which == "merge":
        q = p.get_pattern_merge_jumps()
        want = []
        for s in src:
            if (s[2] & MASK) != pe.JUMP:
                want.append(s)
            elif not want or want[-1] is not None:
                want.append(None)
    else:
        n = ctx.choose("n", range(1, 6))
        q = p.get_pattern_interpolate_trim(n)
        want, trimmed, i = [], True, 0
        while i < len(src):
            c = src[i][2] & MASK
            trimmed = False if c in (pe.STITCH, pe.SEQUIN_EJECT) else True if c in (pe.COLOR_CHANGE, pe.NEEDLE_SET, pe.TRIM) else trimmed
            if c != pe.JUMP or trimmed:
                want.append(src[i])
                i += 1
                continue
            j = i
            while j < len(src) and (src[j][2] & MASK) == pe.JUMP:
                j += 1
            if j - i >= n:
                want.append([src[i - 1][0], src[i - 1][1], pe.TRIM])
            want.append(src[j - 1])
            i = j
    ctx.check(ctx.eq([list(s) for s in p.stitches], src), "source changed")
    if len(q.stitches) != len(want):
        ctx.fail("%s: %d records, expected %d" % (which, len(q.stitches), len(want)))
    for a, b in zip(q.stitches, want):
        if b is None:
            ctx.check(ctx.eq(a[2], pe.STITCH_BREAK), "run of jumps without a break")
        else:
            ctx.check(ctx.eq(list(a), b), "record changed")
    if q.extras != p.extras or [t.color for t in q.threadlist] != [t.color for t in p.threadlist]:
        ctx.fail("threads or metadata changed")
    ctx.cover("end")


def stops(ctx, k, alphabet="SJTCX"):
    """stop -> repeated colour -> stop"""
    pe = ctx.pe
    ops = design(ctx, alphabet, k, 60, first="SAE" if "A" in alphabet else "S", last="S")
    pend = False
    for o in ops:
        if o[0] in "CXUB":
            if pend:
                ctx.stop()
            pend = True
        elif o[0] in "SAWE":
            pend = False
    n = blocks(ops)
    p = build(ctx, ops)
    cols = [ctx.int("col%d" % i, 0, 0xFFFFFF) for i in range(n)]
    for i, c in enumerate(cols):
        t = pe.EmbThread()
        t.color = c
        p.threadlist.append(t)
    for i in range(n - 1):
        ctx.assume(cols[i] != cols[i + 1])
    shift(ctx, p)
    src = [list(s) for s in p.stitches]
    p.interpolate_stop_as_duplicate_color()
    if any((s[2] & MASK) == pe.STOP for s in p.stitches):
        ctx.fail("stop left")
    ns = sum(o[0] == "X" for o in ops)
    if len(p.threadlist) != n + ns:
        ctx.fail("%d threads for %d blocks and %d stops" % (len(p.threadlist), n, ns))
    ctx.check(ctx.eq([[s[0], s[1]] for s in p.stitches], [[s[0], s[1]] for s in src]), "positions changed")
    # every penetration keeps its thread
    b0 = b1 = 0
    for s0, s1 in zip(src, p.stitches):
        c0, c1 = s0[2] & MASK, s1[2] & MASK
        b0 += c0 in (pe.COLOR_CHANGE, pe.NEEDLE_SET, pe.COLOR_BREAK)
        b1 += c1 in (pe.COLOR_CHANGE, pe.NEEDLE_SET, pe.COLOR_BREAK)
        if c0 in (pe.STITCH, pe.NEEDLE_AT, pe.SEW_TO, pe.SEQUIN_EJECT):
            ctx.check(p.threadlist[b1].color == cols[b0], "penetration sewn with another colour")
    p.interpolate_duplicate_color_as_stop()
    if len(p.stitches) != len(src) or len(p.threadlist) != n:
        ctx.fail("records or threads not restored")
    ctx.check(ctx.eq([list(s) for s in p.stitches], src), "stops not restored")
    ctx.check(ctx.eq([t.color for t in p.threadlist], cols), "threads not restored")
    ctx.cover("end")


def ejects(ctx, k, last, alphabet="SJXCT"):
    pe = ctx.pe
    ops = design(ctx, alphabet, k, 60, first="SJ", last=last)
    p = build(ctx, ops, end=ctx.choose("end", [True, False]))
    shift(ctx, p)
    src = [list(s) for s in p.stitches]
    p.interpolate_frame_eject()
    got = p.stitches
    if "A" not in alphabet:
        pens(ctx, p, "frame eject", ops)
    # reference: gaps between sewing/changes; J.. X .. J.. (or to the end) becomes one eject at the stop
    want, i = [], 0
    fixed = (pe.STITCH, pe.COLOR_CHANGE, pe.NEEDLE_SET, pe.COLOR_BREAK, pe.NEEDLE_AT, pe.SEW_TO, pe.SEQUIN_EJECT)
    while i < len(src):
        j = i
        while j < len(src) and (src[j][2] & MASK) not in fixed:
            j += 1
        gap = src[i:j]
        kinds = "".join("J" if (s[2] & MASK) == pe.JUMP else "X" if (s[2] & MASK) == pe.STOP else "-" for s in gap)
        a = kinds.find("J")
        b = kinds.find("X", a) if a >= 0 else -1
        c = kinds.find("J", b) if b >= 0 else -1
        if c >= 0 or b >= 0 and j == len(src):
            want += gap[:a] + [[gap[b][0], gap[b][1], pe.FRAME_EJECT]]
        else:
            want += gap
        if j < len(src):
            want.append(src[j])
        i = j + 1
    if len(got) != len(want):
        ctx.fail("frame eject: %d records, expected %d" % (len(got), len(want)))
    ctx.check(ctx.eq([list(s) for s in got], want), "frame eject: wrong record")
    ctx.cover("end")


def stable(ctx, k, alphabet="SJTCX"):
    """get_stable_pattern and fix_color_count"""
    pe = ctx.pe
    ops = design(ctx, alphabet, k, 60)
    n = blocks(ops)
    p = build(ctx, ops)
    have = ctx.choose("have%d" % n, range(n + 2))
    for i in range(have):
        p.add_thread(THREADS[i])
    q = p.get_stable_pattern()
    want = [(o[1], o[2]) for o in ops if o[0] == "S"]
    got = [(s[0], s[1]) for s in q.stitches if (s[2] & MASK) == pe.STITCH]
    if len(want) != len(got):
        ctx.fail("stable pattern: %d penetrations from %d" % (len(got), len(want)))
    ctx.check(ctx.eq(got, want), "stable pattern moves penetrations")
    # blocks: broken exactly where the design changes colour
    a, b, x, y = [], [], 0, 0
    for o in ops:
        if o[0] == "S":
            a.append(x)
        x += o[0] == "C"
    for s in q.stitches:
        c = s[2] & MASK
        if c == pe.STITCH:
            b.append(y)
        y += c in (pe.COLOR_BREAK, pe.COLOR_CHANGE)
    if [i - j for i, j in zip(a, a[1:])].count(0) != [i - j for i, j in zip(b, b[1:])].count(0) or [i == j for i, j in zip(a, a[1:])] != [i == j for i, j in zip(b, b[1:])]:
        ctx.fail("stable pattern: colour blocks %r became %r" % (a, b))
    src = [list(s) for s in p.stitches]
    p.fix_color_count()
    if len(p.threadlist) != max(have, n):
        ctx.fail("%d threads for %d blocks" % (len(p.threadlist), n))
    for i in range(have):
        if p.threadlist[i].color != THREADS[i]:
            ctx.fail("named thread replaced")
    ctx.check(ctx.eq([list(s) for s in p.stitches], src), "records changed")
    ctx.cover("end")


def counted(ctx, k):
    """filling the thread list up to the blocks sewn"""
    ops = design(ctx, "SAWEUCBX", k, 60)
    n = blocks(ops)
    p = build(ctx, ops)
    have = ctx.choose("have%d" % n, range(n + 2))
    for i in range(have):
        p.add_thread(THREADS[i])
    src = [list(s) for s in p.stitches]
    p.fix_color_count()
    if len(p.threadlist) != max(have, n):
        ctx.fail("%d threads for %d blocks" % (len(p.threadlist), n))
    if [t.color for t in p.threadlist[:have]] != THREADS[:have]:
        ctx.fail("named thread replaced")
    ctx.check(ctx.eq([list(s) for s in p.stitches], src), "records changed")
    ctx.cover("end")


def harnesses(tier):
    t = tier == "thorough"
    k = 6 if t else 5
    return [Harness("trims", lambda ctx: trims(ctx, k - 1, False, "SJCTX", 6 if t else 5), {}, ("end",), weight=3),
            Harness("trims_clip", lambda ctx: trims(ctx, k - 1, True, "SJCTX", 6 if t else 5), {}, ("end",), weight=3),
            Harness("trims_jumps", lambda ctx: trims(ctx, k, False, "JS", 6 if t else 5), {}, ("end",), weight=3),
            Harness("trims_jumps_clip", lambda ctx: trims(ctx, k, True, "JSX", 4), {}, ("end",), weight=3),
            Harness("trims_ejects", lambda ctx: trims(ctx, k - 1, True, "SEJT", 4), {}, ("end",), weight=3),
            Harness("merge", lambda ctx: merged(ctx, k, "merge"), {}, ("end",)), Harness("interpolate", lambda ctx: merged(ctx, k, "interpolate"), {}, ("end",)),
            Harness("stops", lambda ctx: stops(ctx, k + 1), {}, ("end",)), Harness("ejects", lambda ctx: ejects(ctx, k + 1, "SXJ"), {}, ("end",)),
            Harness("trims_needle", lambda ctx: trims(ctx, k - 1, False, "SJU", 3), {}, ("end",), weight=3),
            Harness("interpolate_needle", lambda ctx: merged(ctx, k - 1, "interpolate", "SJUT"), {}, ("end",)),
            Harness("stops_kinds", lambda ctx: stops(ctx, k, "SAEUBX"), {}, ("end",)),
            Harness("ejects_kinds", lambda ctx: ejects(ctx, k, "SXJ", "AWEUBJX"), {}, ("end",)),
            Harness("counted", lambda ctx: counted(ctx, k - 1), {}, ("end",)),
            Harness("stable", lambda ctx: stable(ctx, k), {}, ("end",))]
