from .common import *

BOUNDS = ("2 to 3 (thorough 4) stitches with coordinates in quarter units in [-60,60], with a colour change or trim between them; steps up to 600 units that need "
          "interpolated jumps; chains of 24 (thorough 60; DST 8) stitches with the same symbolic step in eighths of a unit; a return to the first point after any others; "
          "DST, EXP, JEF, PEC, PES, TBF, XXX, U01, VP3, PMV.")
OUTSIDE = ("float rounding of the coordinates themselves (exact arithmetic), exactly half-way coordinates for the return in U01 and VP3, which round the difference; "
           "PMV designs taller than 35 units, which are scaled to fit.")
DEADLINE = 100
ROUNDED = ["dst", "exp", "jef", "pec", "pes", "tbf", "xxx"]
FREE = ["u01", "vp3"]


def rt(ctx, fmt, ops, n=0):
    p = build(ctx, ops, THREADS)
    if fmt in ("pec", "pes"):
        q, _ = pec_roundtrip(ctx, fmt, p)
    else:
        q, _ = roundtrip(ctx, fmt, p, blank={"dst": 512, "tbf": 0x600, "u01": 0x80}.get(fmt, 0))
    return [(x, y) for _, _, x, y in meaning(ctx, q.stitches)[0]]


def within(ctx, exp, got, what, num=1, den=2):
    if len(exp) != len(got):
        ctx.fail("%s: %d penetrations became %d" % (what, len(exp), len(got)))
    ctx.check(ctx.all([ctx.all([den * (g[i] - e[i]) <= num, den * (e[i] - g[i]) <= num]) for e, g in zip(exp, got) for i in (0, 1)]), what + ": position off")


def frac(ctx, name, R, den=4, tie=True):
    """a coordinate in 1/den units"""
    n = ctx.int(name, -R * den, R * den)
    if not tie:
        ctx.assume(n % den != den // 2)
    return n / den


def steps(ctx, fmt, k, R, between, Ry=None, den=4, num=1, dn=2):
    ops, exp = [("S", 0, 0)], [(0, 0)]
    for i in range(k):
        c = ctx.choose("b%d" % i, between)
        if c:
            ops.append((c, None, None))
        x, y = frac(ctx, "x%d" % i, R, den), frac(ctx, "y%d" % i, R if Ry is None else Ry, den)
        ops.append(("S", x, y))
        exp.append((x, y))
    got = rt(ctx, fmt, ops)
    if fmt in ("pec", "pes") and k == 1:
        got = [got[0], got[-1]]     # an anchor may end a run of jumps
    if fmt == "vp3":
        num, dn = 13, 25            # blocks start on a grid of hundredths
    within(ctx, exp, got, fmt, num, dn)
    ctx.cover("end")


def back(ctx, fmt, k, R, tie, between=""):
    """away and back: the same place"""
    x0, y0 = frac(ctx, "x", R, tie=tie), frac(ctx, "y", R, tie=tie)
    ops = [("S", x0, y0)]
    for i in range(k):
        if between:
            ops.append((between, None, None))
        ops.append(("S", frac(ctx, "x%d" % i, R), frac(ctx, "y%d" % i, R)))
    ops.append(("S", x0, y0))
    n = sum(o[0] == "S" for o in ops)
    got = rt(ctx, fmt, ops)
    if len(got) != n:
        ctx.fail("%s: %d penetrations became %d" % (fmt, n, len(got)))
    ctx.check(ctx.eq(got[0], got[-1]), fmt + ": returning to a point ends elsewhere")
    ctx.cover("end")


def chain(ctx, fmt, n, den):
    d = ctx.int("d", -3 * den, 3 * den)
    e = ctx.int("e", -3, 3)
    ops, exp = [], []
    for i in range(n):
        x, y = d * i / den, e * i
        ops.append(("S", x, y))
        exp.append((x, y))
    within(ctx, exp, rt(ctx, fmt, ops), "%s after %d steps" % (fmt, n))
    ctx.cover("end")


def pmv(ctx, k, R, jump):
    """the grid is 2.5 units; heights are relative to the middle"""
    ops, exp = [("S", 0, 0)], [(0, 0)]
    for i in range(k):
        x, y = frac(ctx, "x%d" % i, R), frac(ctx, "y%d" % i, 30)
        ops.append((ctx.choose("c%d" % i, jump), x, y))
        exp.append((x, y))
    pe = ctx.pe
    f = ctx.stream()
    pe.EmbPattern.write_embroidery(ctx.module("PmvWriter"), build(ctx, ops), f)
    f.seek(0)
    q = pe.EmbPattern.read_embroidery(ctx.module("PmvReader"), f)
    got = [(s[0], s[1]) for s in q.stitches if s[2] & MASK == pe.STITCH]
    if len(got) < len(exp):
        ctx.fail("PMV: %d points became %d" % (len(exp), len(got)))
    lo = hi = 0
    for _, y in exp[1:]:
        lo, hi = ctx.ite(y < lo, y, lo), ctx.ite(y > hi, y, hi)
    glo = ghi = got[0][1]
    for _, y in got[1:]:
        glo, ghi = ctx.ite(y < glo, y, glo), ctx.ite(y > ghi, y, ghi)
    e = exp[-1]
    ctx.check(ctx.all([4 * (got[-1][0] - e[0]) <= 5, 4 * (e[0] - got[-1][0]) <= 5]), "PMV: final x off")
    mid2 = lo + hi
    ctx.check(ctx.all([2 * (2 * g[1] - (2 * e[1] - mid2)) <= 5 for g, e in ((got[0], exp[0]), (got[-1], exp[-1]))] +
                      [2 * ((2 * e[1] - mid2) - 2 * g[1]) <= 5 for g, e in ((got[0], exp[0]), (got[-1], exp[-1]))]), "PMV: height off")
    ctx.cover("end")


def pmv_tall(ctx):
    """heights beyond the machine's range are scaled to it about the middle"""
    pe = ctx.pe
    H = ctx.choose("H", [60, 70, 71, 75, 140, 150, 500])
    base = ctx.choose("base", [0, -40, 25, 300])
    y = ctx.int("y%d" % H, 0, H)
    pts = [(0, 0), (20, H), (40, y), (60, 0)]
    f = ctx.stream()
    pe.EmbPattern.write_embroidery(ctx.module("PmvWriter"), build(ctx, [("S", a, b + base) for a, b in pts]), f, {"max_stitch": 1000, "max_jump": 1000})
    f.seek(0)
    q = pe.EmbPattern.read_embroidery(ctx.module("PmvReader"), f)
    got = [(s[0], s[1]) for s in q.stitches if s[2] & MASK == pe.STITCH]
    if len(got) != len(pts):
        ctx.fail("PMV: %d points became %d" % (len(pts), len(got)))
    n, d = (1, 1) if H <= 70 else (70, H)         # scale
    # twice the height above the middle, in the file's unit of 2.5
    ctx.check(ctx.all([abs(d * 2 * g[1] - n * (2 * b - H)) * 2 <= 5 * d for (a, b), g in zip(pts, got)]), "PMV: height off")
    ctx.check(ctx.all([abs(g[0] - a) * 4 <= 5 for (a, b), g in zip(pts, got)]), "PMV: x off")
    ctx.cover("end")


def harnesses(tier):
    t = tier == "thorough"
    hs = []

    def add(name, fn, weight=1, **kw):
        hs.append(Harness(name, fn, kw, ["end"], weight=weight))
    for fmt in ROUNDED + FREE:
        bt = {"u01": ["", "C", "T"], "vp3": ["", "C"], "pec": ["", "C"], "pes": ["", "C"]}.get(fmt, ["", "C", "T"])
        far = {"dst": 250, "exp": 260, "jef": 260, "pec": 2200, "pes": 2200, "tbf": 260, "xxx": 260, "u01": 260, "vp3": 600}[fmt]
        add(fmt + "_steps", steps, 3, fmt=fmt, k=2, R=60, between=bt, Ry=None if fmt != "dst" else 8)
        add(fmt + "_far", steps, 3, fmt=fmt, k=1, R=far, between=[""], Ry=3)
        add(fmt + "_back", back, 3, fmt=fmt, k=1 + t, R=30, tie=fmt not in FREE)
        add(fmt + "_chain", chain, 2, fmt=fmt, n=(60 if t else 24) if fmt != "dst" else 8, den=8)
    add("pmv_stitch", pmv, 2, k=1 + t, R=70, jump=["S"])
    add("pmv_tall", pmv_tall, 2)
    add("pmv_far", pmv, 2, k=1 + t, R=200, jump=["S"])
    return hs
