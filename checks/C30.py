from .common import *

BOUNDS = ("every design of up to 5 (thorough 6) commands over stitch, needle-at, sew-to, jump, trim, stop, colour change, colour break, sequence break, alternative-flagged "
          "stitch and the explicit tie commands (these after a penetration), up to 4 with sequins, with ties on, off or only one of them, switched by setting or by command; symbolic integer "
          "positions in [-200,200], no stitch limit or anchors within it; a symbolic translation by setting and by command; for anchors beyond the limit all real "
          "positions and every positive real limit.")
OUTSIDE = "needle positions and anchors under a rotated or scaled matrix; locks written to a file (the writers' own checks cover any stitches)."
DEADLINE = 120
PEN = "SAWEZ"
TOL = 1e-6


def ops_of(ctx, k, alphabet, R, first=None, last=None):
    ops = []
    for i in range(k):
        al = first if first and i == 0 else last if last and i == k - 1 else alphabet
        c = ctx.choose("c%d" % i, al)
        if c in "io" and (not ops or ops[-1][0] not in PEN):
            ctx.stop()
        if c in PEN + "J":
            ops.append((c, ctx.int("x%d" % i, -R, R), ctx.int("y%d" % i, -R, R)))
        else:
            ops.append((c, None, None))
    return ops


def make(ctx, ops, pre=()):
    pe = ctx.pe
    cmd = dict(S=pe.STITCH, J=pe.JUMP, T=pe.TRIM, C=pe.COLOR_CHANGE, X=pe.STOP, B=pe.COLOR_BREAK, Q=pe.SEQUENCE_BREAK, E=pe.SEQUIN_EJECT, A=pe.NEEDLE_AT,
               W=pe.SEW_TO, Z=pe.STITCH | pe.ALTERNATIVE, i=pe.TIE_ON, o=pe.TIE_OFF)
    p = pe.EmbPattern()
    for t in THREADS:
        p.add_thread(t)
    for c, x, y in pre:
        p.add_stitch_absolute(c, x, y)
    x = y = 0
    for k, ox, oy in ops:
        if ox is not None:
            x, y = ox, oy
        p.add_stitch_absolute(cmd[k], x, y)
    p.add_stitch_absolute(pe.END, x, y)
    return p


def locks(ops, on, off):
    """index among the penetrations written -> anchors (op indices) of the locks that follow it, and how many penetrations are written"""
    out = {}
    n = -1
    trimmed = True
    sewn = False
    isp = lambda i: 0 <= i < len(ops) and ops[i][0] in PEN
    for i, o in enumerate(ops):
        k = o[0]
        if k in PEN:
            n += 1
            if trimmed:
                trimmed = False
                if on and isp(i + 1):
                    out.setdefault(n, []).append(i + 1)
                if k == "E":
                    n += 1
            sewn = True
        elif k == "i":
            if on and isp(i + 1):
                out.setdefault(n, []).append(i + 1)
        elif k == "o":
            if off and isp(i - 1) and isp(i - 2):
                out.setdefault(n, []).append(i - 2)
        elif k in "TCQB":
            if not trimmed and off and isp(i - 1) and isp(i - 2):
                out.setdefault(n, []).append(i - 2)
            trimmed = trimmed or k != "B" or any(isp(j) or ops[j][0] == "i" for j in range(i, len(ops)))
        elif k == "X":
            trimmed = True
    return out, n + 1


def judge(ctx, ops, on, off, e1, e0, d=(0, 0), limit=None):
    pe = ctx.pe
    want, n = locks(ops, on, off)
    pen = lambda s: (s[2] & MASK) in (pe.STITCH, pe.SEQUIN_EJECT)
    nl = sum(len(v) for v in want.values())
    extra = len(e1) - len(e0)
    if nl == 0 and extra:
        ctx.fail("stitches added where no lock belongs")
    if nl and (extra % nl or extra // nl < 3):
        ctx.fail("%d stitches added for %d locks" % (extra, nl))
    per = extra // nl if nl else 0
    conds, i, pi = [], 0, -1
    for s in e0:
        if i >= len(e1):
            ctx.fail("commands lost")
        conds.append(ctx.eq(list(s), list(e1[i])))
        i += 1
        if not pen(s):
            continue
        pi += 1
        for a in want.get(pi, ()):
            ax, ay = ops[a][1] + d[0], ops[a][2] + d[1]
            run = e1[i:i + per]
            i += per
            if len(run) != per or any((t[2] & MASK) != pe.STITCH for t in run):
                ctx.fail("lock is not made of stitches")
            ctx.cover("lock")
            conds.append(lock(ctx, s, (ax, ay), run, limit))
    if i != len(e1):
        ctx.fail("a lock is missing or out of place")
    if pi + 1 != n:
        ctx.fail("%d penetrations became %d" % (n, pi + 1))
    ctx.check(ctx.all(conds), "ties changed the design, or a lock does not run from the needle towards the neighbouring stitch and back")


def lock(ctx, s, anchor, run, limit=None):
    """the run of stitches leaves s towards anchor, stays between them and ends at s"""
    cs = []
    away = []
    for j, q in enumerate(run):
        for c in (0, 1):
            u, v = anchor[c] - s[c], q[c] - s[c]
            cs.append(ctx.any([ctx.all([u >= 0, v >= -TOL, v <= u + TOL]), ctx.all([u <= 0, v <= TOL, v >= u - TOL])]))
        if limit is None:
            u, w = (anchor[0] - s[0], anchor[1] - s[1]), (q[0] - s[0], q[1] - s[1])
            cs.append(ctx.any([ctx.all([w[c] * 100 >= u[c] * f - 1e-3 for c in (0, 1)] + [w[c] * 100 <= u[c] * f + 1e-3 for c in (0, 1)])
                               for f in (33, 66, 0)]))
        away.append(ctx.any([q[0] != s[0], q[1] != s[1]]))
    cs.append(ctx.all([abs(run[-1][c] - s[c]) <= TOL for c in (0, 1)]))
    cs.append(ctx.implies(ctx.any([anchor[0] != s[0], anchor[1] != s[1]]), ctx.any(away)))
    return ctx.all(cs)


def ties(ctx, k, alphabet, how="setting", which=("both", "on", "off", "none"), R=200, first=None, last=None, translate=None, limit=None):
    pe = ctx.pe
    w = ctx.choose("w", which)
    on, off = w in ("both", "on"), w in ("both", "off")
    ops = ops_of(ctx, k, alphabet, R, first, last)
    base = {"sequin_contingency": pe.CONTINGENCY_SEQUIN_UTILIZE}
    if limit:
        base["max_stitch"] = base["max_jump"] = limit
    d = (0, 0)
    pre = []
    if translate:
        d = (ctx.int("dx", -50, 50), ctx.int("dy", -50, 50))
        if translate == "setting":
            base["translate"] = d
        else:
            pre.append((pe.MATRIX_TRANSLATE, d[0], d[1]))
    st = dict(base)
    if how == "setting":
        st["tie_on"] = pe.CONTINGENCY_TIE_ON_THREE_SMALL if on else pe.CONTINGENCY_TIE_ON_NONE
        st["tie_off"] = pe.CONTINGENCY_TIE_OFF_THREE_SMALL if off else pe.CONTINGENCY_TIE_OFF_NONE
    elif how == "bool":
        st["tie_on"] = on
        st["tie_off"] = off
    p1 = make(ctx, ops, pre + ([(pe.CONTINGENCY_TIE_ON_THREE_SMALL if on else pe.CONTINGENCY_TIE_ON_NONE, 0, 0),
                                (pe.CONTINGENCY_TIE_OFF_THREE_SMALL if off else pe.CONTINGENCY_TIE_OFF_NONE, 0, 0)] if how == "command" else []))
    if how == "command":
        st["tie_on"], st["tie_off"] = not on, not off
    p0 = make(ctx, ops, pre)
    e1 = p1.get_normalized_pattern(st)
    e0 = p0.get_normalized_pattern(base)
    ctx.observe([[s[2], s[0], s[1]] for s in e1.stitches])
    ctx.check(ctx.eq([t.color for t in e1.threadlist], [t.color for t in e0.threadlist]), "ties changed the threads")
    judge(ctx, ops, on, off, e1.stitches, e0.stitches, d)
    ctx.cover("end")


def far(ctx, word, which):
    """real positions and limit: the lock stays within the limit even when the neighbour is further away"""
    pe = ctx.pe
    m = ctx.real("m")
    ctx.assume(m > 0)
    ops = [(c, ctx.real("x%d" % i), ctx.real("y%d" % i)) if c in PEN else (c, None, None) for i, c in enumerate(word)]
    base = {"max_stitch": m, "max_jump": float("inf"), "long_stitch_contingency": pe.CONTINGENCY_LONG_STITCH_NONE}
    e1 = make(ctx, ops).get_normalized_pattern(dict(base, tie_on=which == "on", tie_off=which == "off")).stitches
    e0 = make(ctx, ops).get_normalized_pattern(base).stitches
    i = 0
    while i < len(e0) and i < len(e1) and (e0[i][2] & MASK) == (e1[i][2] & MASK) == pe.JUMP:
        i += 1
    at = 0 if which == "on" else 1
    j = i + at + 1
    n = len(e1) - len(e0)
    if n < 3:
        ctx.fail("no lock")
    s = e0[i + at]
    ctx.check(ctx.close([list(t[:2]) for t in e1[:j] + e1[j + n:]], [list(t[:2]) for t in e0]), "ties changed the design")
    a = ops[1 - at]
    last = s
    eps = 0 if ctx.symbolic else 1e-6
    for q in e1[j:j + n]:
        dx, dy = q[0] - last[0], q[1] - last[1]
        ctx.check(dx * dx + dy * dy <= m * m + eps, "lock stitch longer than the limit")
        last = q
    ctx.check(ctx.close(list(last[:2]), list(s[:2])), "lock does not end where it began")
    q = e1[j]
    ux, uy, vx, vy = a[1] - s[0], a[2] - s[1], q[0] - s[0], q[1] - s[1]
    if ctx.symbolic:
        ctx.check(ux * vy == uy * vx, "lock not towards the neighbouring stitch")
    ctx.check(ux * vx + uy * vy >= -eps, "lock away from the neighbouring stitch")
    ctx.check(ctx.implies(ctx.any([ux != 0, uy != 0]), ctx.any([vx != 0, vy != 0])), "lock of length zero")
    ctx.cover("end")


def harnesses(tier):
    T = tier == "thorough"
    hs = []
    H = lambda n, f=ties, cov=("end", "lock"), w=1.0, real=False, **p: hs.append(Harness(n, f, p, list(cov), weight=w, real=real))
    A = ["S", "A", "W", "J", "T", "C", "B", "Q", "X"]
    B = ["S", "T", "C", "J", "B", "X"]
    for k in (1, 2, 3):
        H("all-%d" % k, k=k, alphabet=A, cov=("end", "lock") if k > 1 else ("end",))
    H("all-4", k=4, alphabet=A if T else B + ["A"], which=("both",), w=4)
    H("all-5", k=5, alphabet=["S", "T", "C", "J", "B"] if not T else B, which=("both",), first=["S", "J"], w=6)
    if T:
        H("all-6", k=6, alphabet=["S", "T", "C", "J", "B"], which=("both",), first=["S"], w=9)
    H("flagged", k=3, alphabet=["S", "Z", "T"], which=("both",))
    H("explicit-4", k=4, alphabet=["S", "i", "o", "T"], first=["S", "A"], w=2)
    H("sequin-3", k=3, alphabet=["S", "E", "T"], which=("both", "on", "off"))
    H("sequin-4", k=4, alphabet=["S", "E", "T"], which=("both",), w=2)
    H("bool", k=3, alphabet=["S", "T", "C"], how="bool")
    H("command", k=4, alphabet=["S", "T", "C"], how="command", w=2)
    for t in ("setting", "command"):
        H("translate-" + t, k=4, alphabet=["S", "T", "C"], which=("both",), translate=t, first=["S"])
    for lim in ([121] if not T else [30, 121, 255]):
        H("limit-%d" % lim, k=4, alphabet=["S", "T", "C"], which=("both",), limit=lim, R=lim // 3, first=["S"], w=3)
    H("far-on", far, ("end",), w=2, real=True, word="SS", which="on")
    H("far-off", far, ("end",), w=2, real=True, word="SST", which="off")
    return hs
