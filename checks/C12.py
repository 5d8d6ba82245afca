from .common import *

BOUNDS = ("designs of up to 5 (thorough 6) commands over stitch, colour change, needle set, colour break and stop, 4 (thorough 5) with explicitly named threads and needles "
          "(symbolic 0..2 resp. 1..9), with trims, jumps, needle-at, sew-to and sequins, and with up to two change-sequence entries (leading, and in between the sewing) with and "
          "without an order; after 13, 40 and 199 ordinary blocks; colour-change, stop and needle-set modes, needle counts 1 to 5, 7 and 15; alternative-flagged stitches; symbolic positions.")
OUTSIDE = "other designs of more blocks; tie-on commands after a colour break."
DEADLINE = 110
NT = 3
SEW = "SAWEZ"


def plan(ops):
    """(order -> {thread, needle}), per op the order it starts (or None)"""
    names, starts = {}, []
    order, la = -1, 0

    def name(o, th, nd):
        d = names.setdefault(o, {})
        if th is not None:
            d["t"] = th
        if nd is not None:
            d["n"] = nd
    for i, op in enumerate(ops):
        k, th, nd, od = op[0], op[3], op[4], op[5]
        st = None
        if k == "G":
            if od is None:
                name(la, th, nd)
                la += 1
            else:
                name(od, th, nd)
        elif k in SEW:
            if order < 0:
                order = st = 0
        elif k in "CN" or (k == "B" and order >= 0 and any(o[0] in SEW for o in ops[i:])):
            order += 1
            st = order
            name(order, th, nd)
            if order >= la:
                la = order + 1
        starts.append(st)
    return names, starts, order + 1


def run(ctx, ops, mode, count=None):
    pe = ctx.pe
    enc = pe.EmbFunctions.encode_thread_change
    p = pe.EmbPattern()
    for c in range(NT):
        p.add_thread(THREADS[c])
    cmd = dict(S=pe.STITCH, J=pe.JUMP, T=pe.TRIM, C=pe.COLOR_CHANGE, X=pe.STOP, B=pe.COLOR_BREAK, E=pe.SEQUIN_EJECT, A=pe.NEEDLE_AT, W=pe.SEW_TO,
               N=pe.NEEDLE_SET, G=pe.SET_CHANGE_SEQUENCE, Z=pe.STITCH | pe.ALTERNATIVE)
    x = y = 0
    for k, ox, oy, th, nd, od in ops:
        if ox is not None:
            x, y = ox, oy
        c = cmd[k]
        if th is not None or nd is not None or od is not None:
            c = enc(c, th, nd, od)
        p.add_stitch_absolute(c, x, y)
    p.add_stitch_absolute(pe.END, x, y)
    st = {"sequin_contingency": pe.CONTINGENCY_SEQUIN_UTILIZE}
    if mode == "needle":
        st["thread_change_command"] = pe.NEEDLE_SET
    elif mode == "stop":
        st["thread_change_command"] = pe.STOP
    if count is not None:
        st["needle_count"] = count
    if count == 1 and mode == "needle":
        mode = "stop"
    count = count or 5
    e = p.get_normalized_pattern(st)
    ctx.observe([s[2] for s in e.stitches])
    names, starts, n = plan(ops)
    # threads and needles of the blocks: named ones, the others in order
    th, nd, ti, ni = [], [], 0, 0
    for o in range(n):
        d = names.get(o, {})
        if d.get("t") is not None:
            th.append(d["t"])
        else:
            th.append(ti)
            ti += 1
        if d.get("n") is not None:
            nd.append(d["n"])
        else:
            nd.append(ni % count + 1)
            ni += 1
    want = []
    code = dict(color=pe.COLOR_CHANGE, needle=pe.NEEDLE_SET, stop=pe.STOP)[mode]
    for op, st_ in zip(ops, starts):
        if st_ is not None and (st_ > 0 or mode != "color"):
            want.append((code, th[st_], nd[st_]))
        if op[0] in "SAWZ":
            want.append(("S", op[1], op[2]))
        elif op[0] == "E":
            want.append(("E", op[1], op[2]))
        elif op[0] == "X":
            want.append(("X", None, None))
    got = []
    needled = False
    for s in e.stitches:
        c = s[2] & MASK
        f, t, d, _ = pe.EmbFunctions.decode_embroidery_command(s[2])
        if c == pe.STITCH:
            got.append(("S", s[0], s[1]))
        elif c == pe.SEQUIN_EJECT:
            got.append(("E", s[0], s[1]))
        elif c == pe.STOP and (mode != "stop" or (t is None and d is None)):
            got.append(("X", None, None))
        elif c in (pe.COLOR_CHANGE, pe.NEEDLE_SET, pe.STOP):
            got.append((c, t, d))
    # a sequin that starts a block is anchored by a stitch at the same place
    gi = 0
    conds = []
    trimmed = True
    for j, w in enumerate(want):
        if w[0] == "E" and gi + 1 < len(got) and got[gi][0] == "S" and got[gi + 1][0] == "E":
            conds.append(ctx.eq(got[gi][1:], w[1:]))
            gi += 1
        if gi >= len(got) or got[gi][0] != w[0]:
            ctx.fail("blocks: %r became %r" % ([a[0] for a in want], [a[0] for a in got]))
        conds.append(ctx.eq(got[gi][1:], w[1:]))
        gi += 1
    if gi != len(got):
        ctx.fail("blocks: %r became %r" % ([a[0] for a in want], [a[0] for a in got]))
    ctx.check(ctx.all(conds), "block positions, threads or needles")
    tl = e.threadlist
    if mode == "needle":
        if [t.color for t in tl] != [t.color for t in p.threadlist]:
            ctx.fail("thread list changed in needle mode")
    else:
        if len(tl) != n:
            ctx.fail("%d threads for %d blocks" % (len(tl), n))
        cs = []
        for t, i in zip(tl, th):
            cs.append(ctx.any([ctx.all([ctx.eq(i, k), t.color == p.threadlist[k].color]) for k in range(NT)] + [i >= NT]))
        ctx.check(ctx.all(cs), "thread of a block")
    ctx.cover("end")


def words(ctx, k, alphabet, mode, count=None, first=None, last=None, named=False, seqs=0, R=30, lead=0):
    ops = []
    how = ctx.choose("how", "CB") if lead else None
    for i in range(lead):  # ordinary blocks before
        ops += [("S", i, 2, None, None, None), (how, None, None, None, None, None)]
    for i in range(seqs):
        od = ctx.choose("o%d" % i, [None, 0, 1, 2, 3] if seqs < 2 else [None, 1, 2])
        what = ctx.choose("g%d" % i, ["t", "n", "tn"])
        ops.append(("G", None, None, ctx.int("gt%d" % i, 0, NT - 1) if "t" in what else None, ctx.int("gn%d" % i, 1, 9) if "n" in what else None, od))
    for i in range(k):
        c = ctx.choose("c%d" % i, first if first and i == 0 else last if last and i == k - 1 else alphabet)
        if c in SEW + "J":
            ops.append((c, ctx.int("x%d" % i, -R, R), 3 + i, None, None, None))
        elif c == "V":  # a colour change naming its thread
            ops.append(("C", None, None, ctx.int("t%d" % i, 0, NT - 1), None, None))
        elif c == "U":  # a needle set naming its needle
            ops.append(("N", None, None, None, ctx.int("n%d" % i, 1, 9), None))
        elif c == "H":  # a needle set naming both
            ops.append(("N", None, None, ctx.int("t%d" % i, 0, NT - 1), ctx.int("n%d" % i, 1, 9), None))
        elif c in "YyO":  # a change-sequence entry among the sewing
            ops.append(("G", None, None, None if c == "y" else ctx.int("t%d" % i, 0, NT - 1), ctx.int("n%d" % i, 1, 9) if c == "y" else None, ctx.choose("od%d" % i, range(4)) if c == "O" else None))
        elif c == "P":  # a colour break naming its thread
            ops.append(("B", None, None, ctx.int("t%d" % i, 0, NT - 1), None, None))
        else:
            ops.append((c, None, None, None, None, None))
    run(ctx, ops, mode, count)


def harnesses(tier):
    t = tier == "thorough"
    hs = []
    for mode in ("color", "stop", "needle"):
        hs.append(Harness("plain-" + mode, words, dict(k=5 + t, alphabet="SCB", mode=mode), ["end"], weight=3))
        hs.append(Harness("kinds-" + mode, words, dict(k=3 + t, alphabet="SAWEZJTCNBX", mode=mode), ["end"], weight=3))
        hs.append(Harness("named-" + mode, words, dict(k=4 + t, alphabet="SCBVU", mode=mode), ["end"], weight=3))
        hs.append(Harness("named2-" + mode, words, dict(k=4 + t, alphabet="SHPC", mode=mode), ["end"], weight=3))
        hs.append(Harness("seq1-" + mode, words, dict(k=4 + t, alphabet="SCBV" if t else "SCV", mode=mode, seqs=1, first="SC"), ["end"], weight=3))
        hs.append(Harness("seqlate-" + mode, words, dict(k=4 + t, alphabet="SCY" if mode != "needle" else "SCy", mode=mode, first="SC"), ["end"], weight=3))
        hs.append(Harness("seqorder-" + mode, words, dict(k=4, alphabet="SCO", mode=mode, first="SC", last="SC"), ["end"], weight=3))
        hs.append(Harness("seq2-" + mode, words, dict(k=3 + t, alphabet="SC", mode=mode, seqs=2), ["end"], weight=3))
    for c in (1, 2, 3):
        hs.append(Harness("count%d" % c, words, dict(k=5 + t, alphabet="SCU", mode="needle", count=c, last="S"), ["end"], weight=3))
    for lead in (13, 40, 199):
        for mode, count in (("color", None), ("stop", 4), ("needle", 4), ("needle", 7), ("needle", 15)):
            if lead < 100 or mode == "needle" or t:
                hs.append(Harness("after%d-%s%s" % (lead, mode, count or ""), words, dict(k=3, alphabet="SCBV" if lead < 100 else "SC", mode=mode, count=count, lead=lead), ["end"], weight=2))
    hs.append(Harness("long", words, dict(k=7 + t, alphabet="SC", mode="color"), ["end"], weight=2))
    return hs
