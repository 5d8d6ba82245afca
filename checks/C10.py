from .common import *

BOUNDS = ("designs of up to 3 (thorough 4) commands over stitch/needle-at/sew-to/jump/trim/stitch break/frame eject with every coordinate in [-36,36] "
          "(thorough [-60,60]) and (max stitch, max jump) among (12,12) (7,20) (20,7) (12,inf), single commands in [-400,400]^2 with limits 121, 127, 255; single moves of 258 to 261 (thorough 500) steps; long-stitch "
          "handling default, sew-to and none, chosen by setting or by command; rounding on and off with half-unit coordinates; sequins in every contingency.")
OUTSIDE = ("floating-point error of interpolated fractional positions (floats are treated as exact rationals; C26 covers the drift in the file); "
           "translated/rotated designs (C14).")
DEADLINE = 120
INF = float("inf")


def steps(ctx, pe, e, ms, mj, what):
    """every stitch step within ms and every jump step within mj in either axis"""
    px = py = 0
    bad = []
    for s in e:
        c = s[2] & MASK
        lim = ms if c in (pe.STITCH, pe.SEQUIN_EJECT) else mj if c == pe.JUMP else 0
        if lim != INF:
            if not ctx.symbolic:
                lim += EPS
            for d in (s[0] - px, s[1] - py):
                bad.append(d <= lim)
                bad.append(d >= -lim)
        px, py = s[0], s[1]
    ctx.check(ctx.all(bad), what + ": step beyond the limit")


EPS = 1e-6  # interpolated positions are floats when the real code runs


def near(ctx, d):
    return ctx.eq(d, 0) if ctx.symbolic else -EPS <= d <= EPS


def on_line(ctx, a, b, pts):
    """pts lie on the straight way from a to b, in order"""
    cs = []
    eps = 0 if ctx.symbolic else EPS
    dx, dy = b[0] - a[0], b[1] - a[1]
    last = a
    for q in list(pts) + [b]:
        ux, uy = q[0] - a[0], q[1] - a[1]
        cs.append(near(ctx, ux * dy - uy * dx))
        # moving on towards b, never back
        for i in (0, 1):
            cs.append(ctx.any([ctx.all([b[i] >= a[i], q[i] - last[i] >= -eps]), ctx.all([b[i] <= a[i], q[i] - last[i] <= eps])]))
        last = q
    return ctx.all(cs)


def coords(ctx, ops, half):
    return [o if o[1] is None else (o[0], o[1], o[2]) for o in ops]


def penetrations(ctx, k, R, limits, alphabet, half=False, rnd=False, first=None):
    pe = ctx.pe
    ms, mj = ctx.choose("limits", limits)
    ops = []
    for i in range(k):
        c = ctx.choose("c%d" % i, first if first and i == 0 else alphabet)
        if c in MOVING:
            if half:
                ops.append((c, ctx.half("x%d" % i, -2 * R, 2 * R), ctx.half("y%d" % i, -2 * R, 2 * R)))
            else:
                ops.append((c, ctx.int("x%d" % i, -R, R), ctx.int("y%d" % i, -R, R)))
        else:
            ops.append((c, None, None))
    p = build(ctx, ops, THREADS[:1])
    st = {"max_stitch": ms, "max_jump": mj, "round": rnd}
    e = p.get_normalized_pattern(st).stitches
    ctx.observe([[s[0], s[1], s[2]] for s in e])
    steps(ctx, pe, e, ms, mj, "encode")
    want = [(o[1], o[2]) for o in ops if o[0] in "SAW"]
    got = [(s[0], s[1]) for s in e if (s[2] & MASK) == pe.STITCH]
    if "W" in [o[0] for o in ops]:
        if len(got) < len(want):
            ctx.fail("encode: penetration lost")
    else:
        if len(got) != len(want):
            ctx.fail("encode: %d penetrations became %d" % (len(want), len(got)))
        for a, b in zip(want, got):
            if rnd:
                ctx.check(ctx.all([b[i] - a[i] <= 0.5 for i in (0, 1)] + [a[i] - b[i] <= 0.5 for i in (0, 1)]), "encode: rounded penetration position")
            else:
                ctx.check(ctx.eq(a, b), "encode: penetration position")
    ctx.cover("end")


def veryfar(ctx, far, ms):
    """hundreds of steps to one place"""
    pe = ctx.pe
    p = pe.EmbPattern()
    c = ctx.choose("kind", [pe.STITCH, pe.JUMP, pe.NEEDLE_AT, pe.SEW_TO])
    v = ctx.choose("sign", [1, -1]) * (far + ctx.int("d", 0, 3 * ms))
    u = ctx.int("u", -3, 3)
    x, y = ctx.choose("axis", [(u, v), (v, u)])
    p.add_stitch_absolute(pe.STITCH, 0, 0)
    p.add_stitch_absolute(c, x, y)
    p.add_stitch_absolute(pe.STITCH, x, y)
    e = p.get_normalized_pattern({"max_stitch": ms, "max_jump": ms}).stitches
    steps(ctx, pe, e, ms, ms, "far")
    got = [(s[0], s[1]) for s in e if (s[2] & MASK) == pe.STITCH]
    want = [(0, 0), (x, y)] + [(x, y)] * (c != pe.JUMP)
    if c == pe.SEW_TO:
        if len(got) < 3:
            ctx.fail("far: %d penetrations" % len(got))
        got = [got[0]] + got[-2:]
    if len(got) != len(want):
        ctx.fail("far: %d penetrations became %d" % (len(want), len(got)))
    ctx.check(ctx.all([ctx.eq(a, b) for a, b in zip(want, got)]), "far: penetration position")
    ctx.cover("end")


def sewto(ctx, R, ms, how, k):
    """long stitches under sew-to: extra penetrations only on the way"""
    pe = ctx.pe
    p = pe.EmbPattern()
    pts = []
    if how == "command":
        p.add_stitch_absolute(pe.CONTINGENCY_LONG_STITCH_SEW_TO, 0, 0)
    p.add_stitch_absolute(pe.STITCH, 0, 0)
    for i in range(k):
        # the exactness of the way needs products of coordinates; one axis at a time keeps them linear
        x = ctx.int("x%d" % i, -R, R)
        y = ctx.choose("slope%d" % i, [0, 1, -1]) * x
        pts.append((x, y))
        p.add_stitch_absolute(pe.SEW_TO if how == "sew" else pe.STITCH, x, y)
    p.add_stitch_absolute(pe.END, 0, 0)
    st = {"max_stitch": ms, "max_jump": ms}
    if how == "setting":
        st["long_stitch_contingency"] = pe.CONTINGENCY_LONG_STITCH_SEW_TO
    e = p.get_normalized_pattern(st).stitches
    ctx.observe([[s[0], s[1], s[2]] for s in e])
    steps(ctx, pe, e, ms, ms, "sew to")
    if any((s[2] & MASK) == pe.JUMP for s in e):
        ctx.fail("sew to: jumped")
    got = [(s[0], s[1]) for s in e if (s[2] & MASK) == pe.STITCH]
    spread(ctx, (0, 0), pts, got, "sew to")
    ctx.cover("end")


def spread(ctx, start, pts, got, what):
    """got = start, then for every point some penetrations on the way and the point itself"""
    from itertools import combinations
    extra = len(got) - 1 - len(pts)
    if extra < 0:
        ctx.fail(what + ": penetration lost")
    alts = []
    for ends_ in combinations(range(1, len(got)), len(pts)):
        if ends_ and ends_[-1] != len(got) - 1:
            continue
        cs, a, j = [ctx.eq(got[0], start)], start, 1
        for b, m in zip(pts, ends_):
            cs.append(ctx.eq(got[m], b))
            cs.append(on_line(ctx, a, b, got[j:m]))
            a, j = b, m + 1
        alts.append(ctx.all(cs))
    ctx.check(ctx.any(alts), what + ": penetrations off the straight way")


def free(ctx, R, ms):
    """one sew-to move in any direction"""
    pe = ctx.pe
    p = pe.EmbPattern()
    x, y = ctx.int("x", -R, R), ctx.int("y", -R, R)
    p.add_stitch_absolute(pe.STITCH, 0, 0)
    p.add_stitch_absolute(pe.SEW_TO, x, y)
    e = p.get_normalized_pattern({"max_stitch": ms, "max_jump": ms}).stitches
    ctx.observe([[s[0], s[1], s[2]] for s in e])
    steps(ctx, pe, e, ms, ms, "sew to")
    got = [(s[0], s[1]) for s in e if (s[2] & MASK) == pe.STITCH]
    n = len(got) - 1
    if n < 1:
        ctx.fail("sew to: penetration lost")
    ctx.check(ctx.eq(got[-1], (x, y)), "sew to: penetration position")
    # on the way: dividing a segment of n equal or unequal steps, cross product against the target
    ctx.check(ctx.all([near(ctx, g[0] * y - g[1] * x) for g in got]), "sew to: off the straight way")
    ctx.cover("end")


def none(ctx, R, ms):
    """long-stitch handling off: one stitch, however long"""
    pe = ctx.pe
    p = pe.EmbPattern()
    x, y = ctx.int("x", -R, R), ctx.int("y", -R, R)
    how = ctx.choose("how", ["setting", "command", "default again"])
    if how != "setting":
        p.add_stitch_absolute(pe.CONTINGENCY_LONG_STITCH_NONE, 0, 0)
    if how == "default again":
        p.add_stitch_absolute(pe.CONTINGENCY_LONG_STITCH_JUMP_NEEDLE, 0, 0)
    p.add_stitch_absolute(pe.STITCH, 0, 0)
    p.add_stitch_absolute(pe.STITCH, x, y)
    p.add_stitch_absolute(pe.END, x, y)
    st = {"max_stitch": ms, "max_jump": ms}
    if how == "setting":
        st["long_stitch_contingency"] = pe.CONTINGENCY_LONG_STITCH_NONE
    e = p.get_normalized_pattern(st).stitches
    ctx.observe([[s[0], s[1], s[2]] for s in e])
    got = [(s[0], s[1]) for s in e if (s[2] & MASK) == pe.STITCH]
    if len(got) != 2:
        ctx.fail("long stitch: %d penetrations" % len(got))
    ctx.check(ctx.eq(got[1], (x, y)), "long stitch position")
    if how == "default again":
        steps(ctx, pe, e, ms, ms, "default again")
    elif len(e) != 3:
        ctx.fail("long stitch: broken up although the handling is off")
    ctx.cover("end")


def options(ctx, R):
    """limits set by a command in the design hold from there on"""
    pe = ctx.pe
    p = pe.EmbPattern()
    p.add_stitch_absolute(pe.STITCH, 0, 0)
    x, y = ctx.int("x", -R, R), ctx.int("y", -R, R)
    kind = ctx.choose("kind", ["S", "J"])
    p.add_stitch_absolute(pe.OPTION_MAX_STITCH_LENGTH, 9, 0)
    p.add_stitch_absolute(pe.OPTION_MAX_JUMP_LENGTH, 9, 0)
    p.add_stitch_absolute(pe.STITCH if kind == "S" else pe.JUMP, x, y)
    p.add_stitch_absolute(pe.STITCH, 0, 0)
    p.add_stitch_absolute(pe.END, 0, 0)
    st = {"max_stitch": 30, "max_jump": 30}
    f = lambda x, y: (x, y)
    w = ctx.choose("move", [None, "translate", "scale"])
    if w == "translate":
        st["translate"] = (5, -4)
        f = lambda x, y: (x + 5, y - 4)
    elif w == "scale":
        st["scale"] = 2
        f = lambda x, y: (2 * x, 2 * y)
    e = p.get_normalized_pattern(st).stitches
    ctx.observe([[s[0], s[1], s[2]] for s in e])
    steps(ctx, pe, e, 9, 9, "limits set in the design")
    got = [(s[0], s[1]) for s in e if (s[2] & MASK) == pe.STITCH]
    want = [(0, 0), (x, y), (0, 0)] if kind == "S" else [(0, 0), (0, 0)]
    if len(got) != len(want):
        ctx.fail("limits set in the design: penetrations")
    ctx.check(ctx.all([ctx.eq(a, f(*b)) for a, b in zip(got, want)]), "limits set in the design: positions")
    ctx.cover("end")


def one_option(ctx, R):
    """each limit set in the design changes that limit only"""
    pe = ctx.pe
    lim = dict(zip("sj", ctx.choose("limits", [(12, 7), (7, 12)])))
    st = {"max_stitch": lim["s"], "max_jump": lim["j"]}
    p = pe.EmbPattern()
    p.add_stitch_absolute(pe.STITCH, 0, 0)
    for n in (0, 1):
        w, v = ctx.choose("option%d" % n, [(None, 0), ("s", 20), ("s", 5), ("j", 20), ("j", 5)])
        if w:
            lim[w] = v
            p.add_stitch_absolute(pe.OPTION_MAX_STITCH_LENGTH if w == "s" else pe.OPTION_MAX_JUMP_LENGTH, v, 3)
    x, y = ctx.int("x", -R, R), ctx.int("y", -9, 9)
    kind = ctx.choose("kind", "SJW")
    p.add_stitch_absolute({"S": pe.STITCH, "J": pe.JUMP, "W": pe.SEW_TO}[kind], x, y)
    p.add_stitch_absolute(pe.END, 0, 0)
    e = p.get_normalized_pattern(st).stitches
    ctx.observe([[s[0], s[1], s[2]] for s in e])
    moves = [s for s in e if s[2] & MASK in (pe.STITCH, pe.JUMP)]
    steps(ctx, pe, moves, lim["s"], lim["j"], "limit set in the design")
    ctx.check(ctx.eq(moves[-1][:2], [x, y]), "limit set in the design: position")
    ctx.cover("end")


def sequins(ctx, R, ms):
    pe = ctx.pe
    cont = ctx.choose("contingency", [pe.CONTINGENCY_SEQUIN_UTILIZE, pe.CONTINGENCY_SEQUIN_JUMP, pe.CONTINGENCY_SEQUIN_STITCH, pe.CONTINGENCY_SEQUIN_REMOVE])
    ops = design(ctx, "SE", 2, R, last="E")
    p = build(ctx, [("S", 0, 0)] + ops, THREADS[:1])
    e = p.get_normalized_pattern({"max_stitch": ms, "max_jump": ms, "sequin_contingency": cont}).stitches
    ctx.observe([[s[0], s[1], s[2]] for s in e])
    steps(ctx, pe, e, ms, ms, "sequins")
    ej = [(s[0], s[1]) for s in e if (s[2] & MASK) == pe.SEQUIN_EJECT]
    want = [(o[1], o[2]) for o in ops if o[0] == "E"] if cont == pe.CONTINGENCY_SEQUIN_UTILIZE else []
    if len(ej) != len(want):
        ctx.fail("sequins: %d ejects for %d" % (len(ej), len(want)))
    ctx.check(ctx.all([ctx.eq(a, b) for a, b in zip(ej, want)]), "sequins: eject position")
    visits = [(s[0], s[1]) for s in e if (s[2] & MASK) in (pe.STITCH, pe.SEQUIN_EJECT, pe.JUMP)]
    if cont != pe.CONTINGENCY_SEQUIN_REMOVE:
        ctx.check(embeds(ctx, [(o[1], o[2]) for o in ops], visits), "sequins: position not visited")
    ctx.cover("end")


def harnesses(tier):
    t = tier == "thorough"
    R = 60 if t else 36
    lims = [(12, 12), (7, 20), (20, 7), (12, INF)]
    hs = []
    for k in range(1, 4):
        hs.append(Harness("words%d" % k, penetrations, dict(k=k, R=R, limits=lims if k < 3 else lims[:3], alphabet="SJTK" if k > 2 else "SAJTKR", first="SJ" if k > 2 else None), ["end"], weight=2 * k))
    if t:
        hs.append(Harness("words4", penetrations, dict(k=4, R=24, limits=[(12, 12)], alphabet="SJT"), ["end"], weight=8))
    hs.append(Harness("jumpy", penetrations, dict(k=3, R=24, limits=[(12, 12)], alphabet="SAJKTR"), ["end"], weight=4))
    hs.append(Harness("sewto-words", penetrations, dict(k=2, R=R, limits=[(12, 12)], alphabet="SWJ"), ["end"], weight=2))
    hs.append(Harness("far", penetrations, dict(k=1, R=1000 if t else 400, limits=[(121, 121), (127, 127), (255, 255)], alphabet="SJA"), ["end"], weight=3))
    hs.append(Harness("veryfar", veryfar, dict(far=6000 if t else 3100, ms=12), ["end"], weight=3))
    hs.append(Harness("rounded", penetrations, dict(k=2, R=24, limits=[(12, 12)], alphabet="SJ", half=True, rnd=True), ["end"], weight=3))
    hs.append(Harness("halves", penetrations, dict(k=2, R=24, limits=[(12, 12)], alphabet="SJ", half=True), ["end"], weight=3))
    for how in ("sew", "setting", "command"):
        hs.append(Harness("sewto-" + how, sewto, dict(R=R, ms=12, how=how, k=2), ["end"], weight=2))
    hs.append(Harness("sewto-free", free, dict(R=R, ms=12), ["end"], weight=2))
    hs.append(Harness("none", none, dict(R=R, ms=12), ["end"]))
    hs.append(Harness("options", options, dict(R=40 if t else 24), ["end"], weight=2))
    hs.append(Harness("one-option", one_option, dict(R=70 if t else 42), ["end"], weight=2))
    hs.append(Harness("sequins", sequins, dict(R=24, ms=12), ["end"], weight=2))
    return hs
