from .common import *
from .C24 import bytes_of

BOUNDS = ("designs of up to 3 (thorough 4) commands over stitch, jump, trim, colour change, stop and colour break at symbolic positions in [-300,300] (half-units in single stitches, and near +-123456000 in SVG) as G-code, TXT (both "
          "versions) and SVG, with and without translation, scale and stitch travel settings; G-code read back; G-code lines of other programs with symbolic numbers in every "
          "combination of unit mode, absolute and relative mode, word order, case, spacing, comment style and line end.")
OUTSIDE = "metadata or thread names with parentheses or line breaks in G-code comments; the comment statistics; needle sets and speed commands (not produced for these formats by default)."
DEADLINE = 110
NUM = "0123456789.-"


def lines(ctx, f):
    """what was written, as lines of words and numbers; a number is (n, decimals)"""
    if hasattr(f, "buf"):
        items = list(f.buf)
    else:
        v = f.getvalue()
        items = list(v.encode("utf8") if isinstance(v, str) else v)
    out, cur = [], []
    for x in items:
        if isinstance(x, int) and x == 10:
            out.append(words(cur))
            cur = []
        else:
            cur.append(x)
    if cur:
        out.append(words(cur))
    return out


def isnum(x):
    return not isinstance(x, int) or chr(x) in NUM


def words(cs):
    out, i = [], 0
    while i < len(cs):
        j = i
        if isnum(cs[i]):
            while j < len(cs) and isnum(cs[j]):
                j += 1
            out.append(number(cs[i:j]))
        else:
            while j < len(cs) and not isnum(cs[j]):
                j += 1
            out.append("".join(chr(c) for c in cs[i:j]))
        i = j
    return out


def number(cs):
    if len(cs) == 1 and type(cs[0]).__name__ == "Tok":
        return cs[0].v, 0
    neg, n, p = False, 0, None
    for c in cs:
        if isinstance(c, int) and c == 45:
            neg = True
        elif isinstance(c, int) and c == 46:
            p = 0
        else:
            n = n * 10 + (c - 48)
            if p is not None:
                p += 1
    return (-n if neg else n), p or 0


def equals(ctx, num, v):
    """the written number is v to its last decimal"""
    n, p = num
    d = n - v * 10 ** p
    e = 0.5 if ctx.symbolic else 0.5 + 1e-6
    return ctx.all([d <= e, d >= -e])


def skeleton(line):
    return "".join(w if isinstance(w, str) else "#" for w in line)


def place(ctx, how):
    """settings moving the design, and the same as a function"""
    if how == "translate":
        a, b = ctx.int("tx", -50, 50), ctx.int("ty", -50, 50)
        return {"translate": (a, b)}, lambda x, y: (x + a, y + b)
    if how == "scale":
        return {"scale": (2, 3)}, lambda x, y: (2 * x, 3 * y)
    return {}, lambda x, y: (x, y)


def gcode(ctx, k, alphabet, how="plain", R=300, half=False, first=None):
    pe = ctx.pe
    ops = design(ctx, alphabet, k, R, first=first)
    if half:
        ops = [(o[0], ctx.half("hx%d" % i, -2 * R, 2 * R), ctx.half("hy%d" % i, -2 * R, 2 * R)) if o[1] is not None else o for i, o in enumerate(ops)]
    p = build(ctx, ops, THREADS[:6])
    st, f = place(ctx, how)
    flip = -1
    if how == "scale":  # replaces the default flip
        flip = 1
    inc = 10.0
    if how == "travel":
        inc = ctx.choose("inc", [2.5, 7, 0, -1.5])
        st["stitch_z_travel"] = inc
    s = ctx.stream()
    pe.write_gcode(p, s, st) if st else pe.write_gcode(p, s)
    got = [l for l in lines(ctx, s) if l and not (isinstance(l[0], str) and l[0].startswith("("))]
    e, tail, _ = expect(ops)
    i = 0
    conds = []

    def want(text):
        nonlocal i
        if i >= len(got):
            ctx.fail("gcode: %r missing" % text)
        if skeleton(got[i]) != text:
            ctx.fail("gcode: %r instead of %r" % (skeleton(got[i]), text))
        i += 1
        return [w for w in got[i - 1] if not isinstance(w, str)]
    z = 0.0
    for g, _, x, y in e:
        for _ in g.key():
            ctx.check(want("M#")[0] == (0, 0), "gcode: stop word")
        x, y = f(flip * x, flip * y)
        w = want("G# X# Y#")
        conds += [w[0][0] == 0, equals(ctx, w[1], x / 10), equals(ctx, w[2], y / 10)]
        if w[1][1] < 3 or w[2][1] < 3:
            ctx.fail("gcode: fewer than three decimals")
        w = want("G# Z#")
        conds += [w[0][0] == 0, equals(ctx, w[1], z)]
        z += inc
    for _ in tail.key():
        ctx.check(want("M#")[0] == (0, 0), "gcode: stop word")
    ctx.check(want("M#")[0] == (30, 0), "gcode: end word")
    if i != len(got):
        ctx.fail("gcode: lines after the end")
    ctx.check(ctx.all(conds), "gcode: coordinates")
    ctx.cover("end")


def gcode_back(ctx, k, alphabet, R=40, sym=False, first=None):
    """what the G-code reader makes of it"""
    pe = ctx.pe
    ops = design(ctx, alphabet, k, R, first=first)
    cols = [ctx.int("col%d" % i, 0, 0xFFFFFF) for i in range(2)] if sym else THREADS[:6]
    p = pe.EmbPattern()
    for c in cols:
        t = pe.EmbThread()
        t.color = c
        t.description = "Red"
        p.add_thread(t)
    build(ctx, ops, (), p)
    p.metadata("name", "ab cd")
    s = ctx.stream()
    pe.write_gcode(p, s)
    s.seek(0)
    q = pe.read_gcode(s)
    m = meaning(ctx, q.stitches)
    exp = expect(ops)
    compare(ctx, exp, m, "gcode read back", stop_as_change=True, trims=None, pos=lambda x, y: (x, y)) if ctx.symbolic else \
        compare(ctx, exp, (([(g, k, round(x, 3), round(y, 3)) for g, k, x, y in m[0]],) + m[1:]), "gcode read back", stop_as_change=True, trims=None)
    if not m[2]:
        ctx.fail("gcode: no end")
    n = max(exp[2], 0)
    got = [t.color & 0xFFFFFF for t in q.threadlist]
    ctx.check(ctx.eq(got[:n], list(cols[:n])), "gcode: thread colours read back")
    ctx.cover("end")


def digits(ctx, name, n, p):
    """a signed number with n digits before and p after the point: its text and its value times 10^p"""
    neg = ctx.choose(name + "s", [False, True])
    ds = [ctx.int("%s%d" % (name, i), 48, 57) for i in range(n + p)]
    v = 0
    for d in ds:
        v = v * 10 + (d - 48)
    cs = ([45] if neg else []) + ds[:n] + ([46] + ds[n:] if p else [])
    return cs, (-v if neg else v), p


def gcode_lines(ctx, n, modes=None):
    pe = ctx.pe
    style = ctx.choose("style", ["upper", "lower", "spaced", "comments"]) if not modes else "upper"
    eol = ctx.choose("eol", ["\n", "\r\n"]) if not modes else "\n"
    data, want = [], []
    scale, absolute = 10, True
    x = y = 0
    o = lambda s: data.extend(ord(c) for c in (s.lower() if style == "lower" else s))
    for i in range(n):
        k = ("move" if modes[i] == "m" else ctx.choose("k%d" % i, ["G20", "G21", "G70", "G71", "G90", "G91"])) if modes else ctx.choose("k%d" % i, ["move", "moveX", "moveY", "G20", "G21", "G90", "G91", "M0", "F"] if i < n - 1 else ["move", "moveX", "moveY", "M0", "G1X"])
        if style == "comments":
            o(ctx.choose("cm%d" % i, ["(note M30)", "; G00 X1 Y2" + eol, "/"]))
        if k[:4] == "move":  # an axis that is not given stays
            ax, vx, p = digits(ctx, "x%d" % i, 1, 1)
            ay, vy, _ = digits(ctx, "y%d" % i, 1, 1)
            sp = " " if style == "spaced" else ""
            o("G" + sp + ("00" if i else "1"))
            if k != "moveY":
                o(" X" + sp)
                data.extend(ax)
                dx = -vx * scale / 10 ** p
                x = dx if absolute else x + dx
            if k != "moveX":
                o("  Y" if style == "spaced" else "Y")
                data.extend(ay)
                dy = -vy * scale / 10 ** p
                y = dy if absolute else y + dy
            want.append(("S", x, y))
        elif k == "M0":
            o(ctx.choose("m%d" % i, ["M0", "M00", "M01"]))
            want.append(("C", x, y))
        elif k == "G1X":  # a move of other axes only
            o(ctx.choose("g%d" % i, ["G1 F100", "G01 Z5", "G0 Z-1.5"]))
        elif k == "F":
            o("F100")
        else:
            o(k)
            if k in ("G20", "G21", "G70", "G71"):
                scale = 254 if k in ("G20", "G70") else 10
            else:
                absolute = k == "G90"
        o(eol)
    o(ctx.choose("fin", ["M30", "M2"]) + eol)
    q = pe.EmbPattern()
    ctx.module("GcodeReader").read(ctx.stream(bytes_of(ctx, data)), q)
    got = [({pe.STITCH: "S", pe.COLOR_CHANGE: "C"}.get(s[2] & MASK, "?"), s[0], s[1]) for s in q.stitches]
    if [g[0] for g in got] != [w[0] for w in want] + ["?"] or (q.stitches[-1][2] & MASK) != pe.END:
        ctx.fail("gcode lines: commands")
    e = 1e-6
    ctx.check(ctx.all([ctx.all([g[c] - w[c] <= e, g[c] - w[c] >= -e]) for g, w in zip(got, want) for c in (1, 2)]), "gcode lines: positions")
    ctx.cover("end")


def txt(ctx, k, alphabet, mimic, how="plain", R=300, half=False, first=None):
    pe = ctx.pe
    ops = design(ctx, alphabet, k, R, first=first)
    if half:
        ops = [(o[0], ctx.half("hx%d" % i, -half * R, half * R, half), ctx.half("hy%d" % i, -half * R, half * R, half)) if o[1] is not None else o for i, o in enumerate(ops)]
    p = build(ctx, ops, THREADS[:6])
    st, f = place(ctx, how)
    if mimic:
        st["mimic" if ctx.choose("by", [0, 1]) else "version"] = "embroidermodder"
    s = ctx.stream()
    pe.EmbPattern.write_embroidery(ctx.module("TxtWriter"), p, s, st)
    names = {"STITCH": pe.STITCH, "JUMP": pe.JUMP, "TRIM": pe.TRIM, "COLOR_CHANGE": pe.COLOR_CHANGE, "STOP": pe.STOP, "END": pe.END}
    codes = {0: pe.STITCH, 1: pe.JUMP, 2: pe.TRIM, 4: pe.COLOR_CHANGE, 16: pe.END}
    cmds, conds, block = [], [], 0
    xs = []
    for l in lines(ctx, s):
        sk = skeleton(l)
        nums = [w for w in l if not isinstance(w, str)]
        if mimic:
            if sk != "#,# color:# flags:#":
                ctx.fail("txt: line %r" % sk)
            c = codes[nums[3][0]]
        else:
            name = sk.split("command:")[1].split(" ")[0]
            if sk != "#,# color:# command:%s flags:#" % name or name not in names:
                ctx.fail("txt: line %r" % sk)
            c = names[name]
            conds.append(nums[3][0] == c)
        if c == pe.COLOR_CHANGE:
            block += 1
        if not mimic and c == pe.STITCH:
            conds.append(nums[2][0] == THREADS[block])
        xs.append((nums[0], nums[1], nums[2][0]))
        cmds.append((len(cmds), 0, c))
    exp = expect(ops)
    m = meaning(ctx, cmds)
    if not m[2] or (cmds[-1][2] != pe.END):
        ctx.fail("txt: no end line")
    compare(ctx, ([(g, k, 0, 0) for g, k, _, _ in exp[0]],) + exp[1:], ([(g, k, 0, 0) for g, k, _, _ in m[0]],) + m[1:], "txt", stop_as_change=mimic)
    unit = 10 if mimic else 1
    colour = 0
    for (g, _, x, y), (_, _, i, _) in zip(exp[0], m[0]):
        x, y = f(x, y)
        conds += [equals(ctx, xs[i][0], x / unit), equals(ctx, xs[i][1], y / unit)]
        if xs[i][0][1] != 1 or xs[i][1][1] != 1:
            ctx.fail("txt: coordinates without their decimal")
        if mimic:
            colour += g.key().count("C")
            if "X" not in alphabet:
                conds.append(xs[i][2] == colour)
    ctx.check(ctx.all(conds), "txt: coordinates, colours or codes")
    ctx.cover("end")


def paths(ctx, s):
    """stroke, points of each path, and the view box"""
    if hasattr(s, "buf"):
        items = list(s.buf)
    else:
        items = list(s.getvalue())
    # attribute values between quotes
    tags, i, cur, quote, vals = [], 0, [], False, []
    name = ""
    for x in items:
        c = chr(x) if isinstance(x, int) else None
        if quote:
            if c == '"':
                quote = False
                vals.append((name.split()[-1].rstrip("="), cur))
            else:
                cur.append(x)
        elif c == '"':
            quote, cur = True, []
        elif c == "<":
            name, vals = "", []
        elif c == ">":
            tags.append((name.split()[0] if name.split() else "", dict(vals)))
        else:
            name += c or "?"
    return tags


def nums(cs):
    return [w for w in words(cs) if not isinstance(w, str)]


def svg(ctx, k, alphabet, how="plain", R=300, half=False, first=None, off=0):
    pe = ctx.pe
    ops = [(o[0], o[1] + off, o[2] - off) if o[1] is not None else o for o in design(ctx, alphabet, k, R, first=first)]
    if half:
        ops = [(o[0], ctx.half("hx%d" % i, -2 * R, 2 * R), ctx.half("hy%d" % i, -2 * R, 2 * R)) if o[1] is not None else o for i, o in enumerate(ops)]
    p = build(ctx, ops, THREADS[:6])
    st, f = place(ctx, how)
    s = ctx.stream()
    pe.write_svg(p, s, st)
    tags = paths(ctx, s)
    e, tail, _ = expect(ops)
    want, block = [], 0
    for i, (g, _, x, y) in enumerate(e):
        block += g.key().count("C")
        if i == 0 or g.key() or g.trim or g.jumps:
            want.append((block, []))
        want[-1][1].append(f(x, y))
    got = [v for n, v in tags if n == "path"]
    if len(got) != len(want):
        ctx.fail("svg: %d paths for %d stitch blocks" % (len(got), len(want)))
    conds = []
    for g, (b, pts) in zip(got, want):
        if "".join(chr(c) if isinstance(c, int) else "?" for c in g["stroke"]).lower() != "#%06x" % THREADS[b]:
            ctx.fail("svg: stroke colour")
        xs = nums(g["d"])
        if len(xs) != 2 * len(pts):
            ctx.fail("svg: %d numbers for %d points" % (len(xs), len(pts)))
        if not (isinstance(g["d"][0], int) and chr(g["d"][0]) == "M"):
            ctx.fail("svg: path does not start with a move")
        for j, (x, y) in enumerate(pts):
            conds += [exact(ctx, xs[2 * j], x), exact(ctx, xs[2 * j + 1], y)]
    if want:
        vb = [v for n, v in tags if n == "svg"][0]["viewBox"]
        b = nums(vb)
        if len(b) != 4:
            ctx.fail("svg: view box")
        b = [n * 1.0 / 10 ** p if p else n for n, p in b]
        for _, pts in want:
            for x, y in pts:
                conds += [b[0] <= x, x <= b[0] + b[2], b[1] <= y, y <= b[1] + b[3]]
    ctx.check(ctx.all(conds), "svg: coordinates")
    ctx.cover("end")


def exact(ctx, num, v):
    n, p = num
    return n == v * 10 ** p if ctx.symbolic else abs(n - v * 10 ** p) < 1e-6


def harnesses(tier):
    T = tier == "thorough"
    hs = []
    H = lambda nm, f, w=1.0, **p: hs.append(Harness(nm, f, p, ["end"], weight=w))
    A = ["S", "J", "T", "C", "X", "B"]
    for k in (1, 2, 3):
        H("gcode-%d" % k, gcode, w=k, k=k, alphabet=A if k < 3 or T else ["S", "C", "X", "T"], R=300 if k < 3 else 80)
        H("txt-%d" % k, txt, w=k, k=k, alphabet=A if k < 3 or T else ["S", "C", "X", "T"], mimic=False, R=300 if k < 3 else 8)
        H("mimic-%d" % k, txt, w=k, k=k, alphabet=A if k < 3 or T else ["S", "C", "T"], mimic=True, R=300 if k < 3 else 80)
        H("svg-%d" % k, svg, k=k, alphabet=A)
    for off in (123400, 1234500, 123456000):
        H("svg-far%d" % off, svg, k=1, alphabet=["S"], R=60, off=off)
    H("svg-4", svg, k=4, alphabet=["S", "C", "T", "J"], w=3)
    for n, f, p in (("gcode", gcode, {}), ("txt", txt, dict(mimic=False)), ("mimic", txt, dict(mimic=True)), ("svg", svg, {})):
        H(n + "-half", f, k=1, alphabet=["S"], half=True if f is not txt else 2, **p)
        if f is txt:
            H(n + "-quarter", f, k=1, alphabet=["S"], half=4, **p)
        for how in ("translate", "scale") + (("travel",) if n == "gcode" else ()):
            H(n + "-" + how, f, k=2 if how != "travel" else 3, alphabet=["S", "C"], how=how, R=60 if how != "travel" else 5, **p)
    H("back-1", gcode_back, k=1, alphabet=A, R=300)
    H("back-2", gcode_back, k=2, alphabet=A)
    H("back-3", gcode_back, k=3, alphabet=["S", "C", "X"], R=9, w=2)
    H("back-threads", gcode_back, k=2, alphabet=["C", "S"], R=5, sym=True)
    H("lines-1", gcode_lines, n=1)
    for m in ("..m", ".m.m", "m..m") + (("...m", ".m..m") if T else ()):
        H("lines-modes-" + m.replace(".", "o"), gcode_lines, n=len(m), modes=m, w=2)
    H("lines-2", gcode_lines, n=2, w=2)
    if T:
        H("lines-3", gcode_lines, n=3, w=9)
    return hs
