from .common import *
from .css import CSS

BOUNDS = ("every 24-bit colour, its channels also given with bits above the low byte, as number, tuple, dictionary, six, eight, three and four digit hex text with any mix of upper and lower "
          "case digits; every pair of colours for the distance; threads with any one or two attributes absent or one of two texts on either side, the others absent or shared, for equality; the 147 CSS colour names in three spellings.")
OUTSIDE = "hex texts of other lengths; the colour 'random'; colours of more than 32 bits."
DEADLINE = 60


def digit(ctx, n, upper=False):
    return ctx.ite(n < 10, n + 48, n + (55 if upper else 87))


def text(ctx, codes, lead="#"):
    """the text with these character codes"""
    if ctx.symbolic:
        from engine.symstr import SymStr
        return SymStr([ord(c) for c in lead] + list(codes)).norm()
    return lead + "".join(chr(c) for c in codes)


def channels(ctx, tag=""):
    r, g, b = (ctx.int(tag + c, 0, 255) for c in "rgb")
    return r, g, b, r * 65536 + g * 256 + b


def agree(ctx, t, r, g, b, what):
    ctx.check(ctx.all([ctx.eq((t.get_red(), t.get_green(), t.get_blue()), (r, g, b)), ctx.eq(t.color & 0xFFFFFF, r * 65536 + g * 256 + b)]), what)


def make(ctx, how):
    pe = ctx.pe
    r, g, b, v = channels(ctx)
    if how == "set_color":
        t = pe.EmbThread()
        hi = [ctx.int("hi%d" % i, -2, 2) for i in range(3)]
        t.set_color(r + 256 * hi[0], g + 256 * hi[1], b + 256 * hi[2])
    elif how == "int":
        t = pe.EmbThread(v)
    elif how == "opaque":
        t = pe.EmbThread(v + 0xFF000000)
    elif how == "thread":
        t = pe.EmbThread(pe.EmbThread(v))
    elif how in ("color", "rgb"):
        t = pe.EmbThread({how: v})
    elif how in ("tuple", "list"):
        t = pe.EmbThread({"color" if how == "tuple" else "rgb": (r, g, b) if how == "tuple" else [r, g, b]})
    agree(ctx, t, r, g, b, how + ": components")
    ctx.check(ctx.eq(t.get_opaque_color() % 0x100000000, v + 0xFF000000), how + ": opaque colour")
    ctx.check(ctx.any([t == v]), how + ": equal to its number")
    ctx.check(ctx.any([t == v + 0xFF000000]), how + ": equal to its opaque number")
    o = (v + ctx.int("d", 1, 0xFFFFFF)) & 0xFFFFFF
    ctx.check(ctx.neg(t == o), how + ": equal to another number")
    p = pe.EmbPattern()
    p.add_thread(t)
    p.add_thread(v)
    ctx.check(ctx.eq(p.threadlist[0].color & 0xFFFFFF, p.threadlist[1].color & 0xFFFFFF), how + ": in a thread list")
    ctx.cover("end")


def hexes(ctx, upper):
    """the hex text holds the six digits, and each way of reading it gives the colour back"""
    pe = ctx.pe
    M = ctx.module("EmbThread")
    r, g, b, v = channels(ctx)
    t = pe.EmbThread(v)
    h = t.hex_color()
    want = text(ctx, [digit(ctx, c) for n in (r, g, b) for c in (n >> 4, n & 15)])
    ctx.check(h == want, "hex text")
    s = h.upper() if upper == 1 else h
    if upper == 2:
        s = text(ctx, [digit(ctx, c, i % 2) for i, c in enumerate(c for n in (r, g, b) for c in (n >> 4, n & 15))])
    how = ctx.choose("how", ["thread", "dict", "set", "parse", "function", "bare", "alpha", "eq"])
    if how == "eq":
        ctx.check(ctx.any([t == s]), "thread equals its text")
    elif how == "function":
        ctx.check(ctx.eq(M.color_hex(s), v), "color_hex")
    elif how == "bare":
        ctx.check(ctx.eq(M.color_hex(s[1:]), v), "color_hex without #")
    elif how == "alpha":
        ctx.check(ctx.eq(M.color_hex(s + "80"), v), "color_hex with alpha")
    elif how == "parse":
        ctx.check(ctx.eq(pe.EmbThread.parse_string_color(s), v), "parse_string_color")
    else:
        if how == "thread":
            u = pe.EmbThread(s)
        elif how == "dict":
            u = pe.EmbThread({"hex": s})
        else:
            u = pe.EmbThread()
            u.set_hex_color(s)
        agree(ctx, u, r, g, b, "thread from hex text (%s)" % how)
        ctx.check(ctx.any([t == u]), "threads of the same text equal (%s)" % how)
    ctx.cover("end")


def short(ctx, n, upper):
    M = ctx.module("EmbThread")
    ds = [ctx.int("d%d" % i, 0, 15) for i in range(n)]
    s = text(ctx, [digit(ctx, d, upper) for d in ds], "#" if ctx.choose("lead", [0, 1]) else "")
    ctx.check(ctx.eq(M.color_hex(s), ds[0] * 17 * 65536 + ds[1] * 17 * 256 + ds[2] * 17), "short hex colour")
    ctx.cover("end")


def distance(ctx, part):
    M = ctx.module("EmbThread")
    a = channels(ctx, "a")
    diff = [ctx.int("d" + c, -255, 255) for c in "rgb"]
    b = tuple(x - d for x, d in zip(a, diff))
    ctx.assume(ctx.all([ctx.all([v >= 0, v <= 255]) for v in b]))
    d = M.color_distance_red_mean(*(a[:3] + b[:3]))
    if part == "sym":
        ctx.check(ctx.eq(d, M.color_distance_red_mean(*(b[:3] + a[:3]))), "distance is not symmetric")
    elif part == "pos":
        ctx.check(d >= 0, "distance negative")
    elif part == "zero":
        ctx.check(ctx.eq(M.color_distance_red_mean(*(a[:3] + a[:3])), 0), "distance of a colour to itself")
    else:
        ch = ctx.choose("differs", [0, 1, 2])
        ctx.assume(diff[ch] != 0)
        ctx.check(d > 0, "different colours at distance zero")
    ctx.cover("end")


def equality(ctx, which):
    """equal exactly when the colour and every attribute agree"""
    pe = ctx.pe
    a, b = channels(ctx, "a"), channels(ctx, "b")
    t, u = pe.EmbThread(a[3]), pe.EmbThread(b[3])
    agree_attrs = True
    rest = ctx.choose("rest", [None, "x"])
    for k in ATTRS:
        if k in which:
            va = ctx.choose("a" + k, [None, "x", ""] if len(which) == 1 else [None, "x"])
            vb = ctx.choose("b" + k, [None, "x", "y"])
        else:
            va = vb = rest
        setattr(t, k, va)
        setattr(u, k, vb)
        agree_attrs = agree_attrs and va == vb
    e, n = t == u, t != u
    same = ctx.eq(a[3], b[3])
    want = same if agree_attrs else False
    ctx.check(iff(ctx, e, want), "equality of threads")
    ctx.check(iff(ctx, n, ctx.neg(want)), "inequality of threads")
    ctx.check(ctx.implies(e, ctx.eq(hash_of(t), hash_of(u))), "equal threads hash differently")
    ctx.check(ctx.any([t == t]), "a thread differs from itself")
    c = pe.EmbThread(t)
    ctx.check(ctx.any([c == t]), "a copy differs")
    for k in ATTRS:
        if getattr(c, k) != getattr(t, k):
            ctx.fail("copy loses " + k)
    if any([t == None, not (t != None), t == (1, 2)]):     # noqa
        ctx.fail("a thread equals something else")
    ctx.cover("end")


def hash_of(t):
    return type(t).__hash__(t)


def iff(ctx, a, b):
    return ctx.all([ctx.implies(a, b), ctx.implies(b, a)])


def names(ctx):
    pe = ctx.pe
    name = ctx.choose("name", sorted(CSS))
    how = ctx.choose("how", [str, str.upper, str.title])
    r, g, b = CSS[name]
    agree(ctx, pe.EmbThread(how(name)), r, g, b, name)
    ctx.check(pe.EmbThread({"color": how(name)}) == r * 65536 + g * 256 + b, name + " in a dictionary")
    ctx.cover("end")


def attributes(ctx):
    """each key of a thread dictionary sets its attribute"""
    pe = ctx.pe
    v = channels(ctx)[3]
    keys = dict(name="description", description="description", desc="description", brand="brand", manufacturer="brand", id="catalog_number",
                catalog="catalog_number", details="details", chart="chart", weight="weight")
    k = ctx.choose("key", sorted(keys))
    t = pe.EmbThread({"color": v, k: "text"})
    for a in ATTRS:
        if getattr(t, a) != ("text" if a == keys[k] else None):
            ctx.fail("%s sets %s to %r" % (k, a, getattr(t, a)))
    ctx.check(ctx.eq(t.color, v), "colour of a dictionary")
    u = pe.EmbThread(v, description="d", catalog_number="c", details="t", brand="b", chart="h", weight="w")
    if [getattr(u, a) for a in ATTRS] != ["d", "c", "t", "b", "h", "w"]:
        ctx.fail("constructor attributes")
    # every attribute at once, over what the thread had before
    full = dict(description="d", brand="b", catalog="c", details="t", chart="h", weight="w")
    full[ctx.choose("under", ["color", "rgb"])] = v
    w = pe.EmbThread(0x123456, description="0", catalog_number="1", details="2", brand="3", chart="4", weight="5")
    w.set(full)
    x = pe.EmbThread(0x654321, description="0", details="2")
    x.set(w)
    for z in (w, x, pe.EmbThread(full)):
        if [getattr(z, a) for a in ATTRS] != [getattr(u, a) for a in ATTRS]:
            ctx.fail("attributes set over others")
        ctx.check(ctx.all([ctx.eq(z.color, v), z == u]), "colour set over another")
    z.set(v ^ 0xFF)
    if [getattr(z, a) for a in ATTRS] != [getattr(u, a) for a in ATTRS]:
        ctx.fail("a colour set alone changes attributes")
    ctx.check(ctx.eq(z.color, v ^ 0xFF), "colour set alone")
    # nothing is left out of the written form
    h = ctx.choose("shown", [0, 0xABCDEF, 0x00000F])
    y = pe.EmbThread(h, **{a: a + "." for a in ATTRS if a != k})
    if not (eval(repr(y), {"EmbThread": pe.EmbThread}) == y) or ("#%06x" % h) not in str(y):
        ctx.fail("thread shown as %r, %s" % (y, y))
    ctx.cover("end")


def harnesses(tier):
    hs = []
    for how in ("set_color", "int", "opaque", "thread", "color", "rgb", "tuple", "list"):
        hs.append(Harness("make_" + how, make, dict(how=how), ["end"]))
    for u in range(3):
        hs.append(Harness("hex%d" % u, hexes, dict(upper=u), ["end"]))
    for n in (3, 4):
        for u in range(2):
            hs.append(Harness("short%d_%d" % (n, u), short, dict(n=n, upper=u), ["end"]))
    for p in ("sym", "pos", "zero", "differ"):
        hs.append(Harness("distance_" + p, distance, dict(part=p), ["end"], weight=2))
    for k in ATTRS:
        hs.append(Harness("equal_" + k, equality, dict(which=[k]), ["end"]))
    for i, k in enumerate(ATTRS):
        for j in ATTRS[i + 1:]:
            hs.append(Harness("equal_%s_%s" % (k, j), equality, dict(which=[k, j]), ["end"]))
    if tier == "thorough":
        for i, k in enumerate(ATTRS):
            hs.append(Harness("equal3_" + k, equality, dict(which=[k, ATTRS[(i + 1) % 6], ATTRS[(i + 3) % 6]]), ["end"]))
    hs.append(Harness("names", names, {}, ["end"]))
    hs.append(Harness("attributes", attributes, {}, ["end"]))
    return hs
