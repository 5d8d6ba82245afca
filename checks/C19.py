from .common import *

BOUNDS = ("histories of up to 3 (thorough 4) builder calls out of relative and absolute stitch/move, the command methods with displacements, add_command, prepend, insert (absolute and relative "
          "at every position incl. negative, start and end), needle changes, +=, add_block and clear, with every coordinate in [-1000,1000]; bounds, translate, move_center_to_origin and count functions on up to 4 records with "
          "coordinates in [-1000,1000] (integers and half units) and any command code; one call or record after 300 others; indexing by number, slice and key; list forms of += and add_block with up to 3 points as pairs, triples, plain or complex numbers.")
OUTSIDE = "places in the pattern beyond the end of the pattern; relative additions after translate (the running position is where the last addition ended)."
DEADLINE = 60
R = 1000
NAMED = dict(move="JUMP", stitch="STITCH", stop="STOP", trim="TRIM", color_change="COLOR_CHANGE", sequin_eject="SEQUIN_EJECT", sequin_mode="SEQUIN_MODE", end="END")


def agree(ctx, p, model, what):
    if len(p.stitches) != len(model):
        ctx.fail("%s: %d records, expected %d" % (what, len(p.stitches), len(model)))
    ctx.check(ctx.eq([list(s) for s in p.stitches], [list(m) for m in model]), "%s: wrong record" % what)


def places(m, low=0):
    """every place in a short pattern, the borders and the middle of a long one"""
    ps = list(range(low, len(m) + 1))
    return ps if len(m) < 20 else ps[:2] + [-257, 257, len(m) // 2] * (low < 0) + ps[-2:]


def access(ctx, n):
    """indexing, slices and keys; blocks with their threads"""
    pe = ctx.pe
    p = pe.EmbPattern()
    m = []
    for i in range(n):
        m.append([ctx.int("x%d" % i, -R, R), ctx.int("y%d" % i, -R, R), pe.STITCH])
        p += [tuple(m[-1])]
    i = ctx.choose("i", list(range(-n, n)))
    ctx.check(ctx.eq(list(p[i]), m[i]), "record by index")
    if len(p[:]) != n or len(p[1:3]) != min(2, n - 1):
        ctx.fail("slice of records")
    ctx.check(ctx.eq([list(s) for s in p[1:3]], m[1:3]), "slice of records")
    new = [ctx.int("nx", -R, R), ctx.int("ny", -R, R), pe.JUMP]
    p[i] = list(new)
    m[i] = new
    agree(ctx, p, m, "record set by index")
    p["name"] = "a"
    p += ("author", "b")
    p += ["brand", "c"]
    if [p["name"], p["author"], p["brand"], p.get_metadata("name"), p.get_metadata("none"), p.get_metadata("none", 5)] != ["a", "b", "c", "a", None, 5] or len(p.extras) != 3:
        ctx.fail("metadata by key: %r" % p.extras)
    agree(ctx, p, m, "after metadata")
    p += pe.EmbThread(0x112233)
    m.append([p._previousX, p._previousY, pe.COLOR_CHANGE])
    if len(p.threadlist) != 1 or p.get_thread(0).color != 0x112233 or p.get_thread(0) is not p.threadlist[0] or p.get_thread_or_filler(0) is not p.threadlist[0]:
        ctx.fail("thread added")
    if any(s[2] == pe.STITCH for s in m):      # a change after sewing only
        agree(ctx, p, m, "thread added after sewing")
    else:
        agree(ctx, p, m[:-1], "thread added before sewing")
    f = p.get_thread_or_filler(4)
    if len(p.threadlist) != 1 or f is None:
        ctx.fail("a filler joins the thread list")
    ctx.cover("end")


def history(ctx, k, first=None, lead=0):
    pe = ctx.pe
    p = pe.EmbPattern()
    m = []
    px = py = 0
    p.stitch_abs(7, -3)
    m.append([7, -3, pe.STITCH])
    px, py = 7, -3
    for i in range(lead):
        if i % 3:
            p.stitch(2, 1)
            px, py = px + 2, py + 1
        else:
            p.trim()
        m.append([px, py, pe.STITCH if i % 3 else pe.TRIM])
    for i in range(k):
        op = ctx.choose("op%d" % i, first if (i == 0 and first) else OPS)
        a, b = ctx.int("a%d" % i, -R, R), ctx.int("b%d" % i, -R, R)
        if op in NAMED or op == "needle":
            pos = ctx.choose("pos%d_%d" % (i, len(m)), [None] + places(m, -len(m)))
            if op == "needle":
                n = ctx.int("n%d" % i, 0, 254)
                code = pe.encode_thread_change(pe.NEEDLE_SET, None, n)
                p.needle_change(n, a, b) if pos is None else p.needle_change(n, a, b, position=pos)
            else:
                code = getattr(pe, NAMED[op])
                getattr(p, op)(a, b) if pos is None else getattr(p, op)(a, b, position=pos)
            at = None if pos is None else pos + len(m) if pos < 0 else pos
            if at is None or at == len(m) and at > 0:
                px, py = px + a, py + b
                m.append([px, py, code])
            else:
                q = m[at - 1] if at > 0 else [0, 0]
                m.insert(at, [q[0] + a, q[1] + b, code])
        elif op in ("stitch_abs", "move_abs"):
            code = pe.STITCH if op == "stitch_abs" else pe.JUMP
            pos = ctx.choose("apos%d_%d" % (i, len(m)), [None] + places(m))
            if pos is None:
                getattr(p, op)(a, b)
                px, py = a, b
                m.append([a, b, code])
            else:
                getattr(p, op)(a, b, position=pos)
                m.insert(pos, [a, b, code])
        elif op == "rel":
            code = ctx.int("cmd%d" % i, 0, 255)
            p.add_stitch_relative(code, a, b)
            px, py = px + a, py + b
            m.append([px, py, code])
        elif op == "abs":
            code = ctx.int("cmd%d" % i, 0, 255)
            p.add_stitch_absolute(code, a, b)
            px, py = a, b
            m.append([a, b, code])
        elif op == "command":
            code = ctx.int("cmd%d" % i, 0, 255)
            w = ctx.choose("how%d" % i, ["add", "prepend", "+="])
            if w == "add":
                p.add_command(code, a, b)
                m.append([a, b, code])
            elif w == "prepend":
                p.prepend_command(code, a, b)
                m.insert(0, [a, b, code])
            else:
                p += pe.TRIM
                m.append([0, 0, pe.TRIM])
        elif op == "clear":
            p.clear()
            m, px, py = [], 0, 0
            if p.threadlist or p.extras:
                ctx.fail("clear keeps threads or metadata")
    agree(ctx, p, m, "after %d calls" % k)
    # the next relative addition shows the running position
    p.stitch(3, 4)
    m.append([px + 3, py + 4, pe.STITCH])
    agree(ctx, p, m, "running position")
    ctx.cover("end")


OPS = list(NAMED) + ["needle", "stitch_abs", "move_abs", "rel", "abs", "command", "clear"]


class Plane(complex):
    """a complex number whose parts may be symbolic"""
    real = property(lambda z: z.parts[0])
    imag = property(lambda z: z.parts[1])


def point(x, y):
    z = Plane(0)
    z.parts = (x, y)
    return z


def lists(ctx):
    """the list forms of += and add_block"""
    pe = ctx.pe
    p = pe.EmbPattern()
    n = ctx.choose("n", range(4))
    form = ctx.choose("form", ["pairs", "triples", "flat", "mixed", "complex"])
    how = ctx.choose("how", ["+=", "block", "block_thread", "tuple"])
    pts = [[ctx.int("x%d" % i, -R, R), ctx.int("y%d" % i, -R, R), ctx.choose("c%d" % i, [pe.STITCH, pe.JUMP, pe.COLOR_BREAK])] for i in range(n)]
    val, m = [], []
    for i, (x, y, c) in enumerate(pts):
        if form == "flat":
            val += [x, y]
            c = pe.STITCH
        elif form == "complex":
            val.append(point(x, y))
            c = pe.STITCH
        elif form == "pairs" or form == "mixed" and i % 2:
            val.append([x, y])
            c = pe.STITCH
        else:
            val.append((x, y, c))
        m.append([x, y, c])
    if how == "tuple":
        val = tuple(val)
    if how in ("+=", "tuple"):
        p += val
        if p is None:
            ctx.fail("+= lost the pattern")
    else:
        p.add_block(val, "red" if how == "block_thread" else None)
        if n:
            m.append([0, 0, pe.COLOR_BREAK])
        if len(p.threadlist) != (how == "block_thread"):
            ctx.fail("add_block threads")
    agree(ctx, p, m, "list form")
    p.stitch(1, 2)
    px, py = (pts[-1][0], pts[-1][1]) if n else (0, 0)
    m.append([px + 1, py + 2, pe.STITCH])
    agree(ctx, p, m, "running position after a list")
    ctx.cover("end")


def shift(ctx, kind, half, top, lead=0):
    pe = ctx.pe
    p = pe.EmbPattern()
    n = ctx.choose("n", range(1, top + 1))
    num = (lambda s: ctx.half(s, -R, R)) if half else (lambda s: ctx.int(s, -R, R))
    m = []
    for i in range(lead):
        m.append([5 + i % 7, i % 3 - 1, [pe.STITCH, pe.TRIM, pe.COLOR_CHANGE][i % 3]])
        p.add_stitch_absolute(m[-1][2], m[-1][0], m[-1][1])
    n += lead
    for i in range(lead, n):
        m.append([num("x%d" % i), num("y%d" % i), ctx.int("c%d" % i, 0, 0xFFFF)])
        p.add_stitch_absolute(m[-1][2], m[-1][0], m[-1][1])
    xs, ys = [r[0] for r in m], [r[1] for r in m]
    if kind == "bounds":
        b = p.bounds()
        ctx.check(ctx.all([b[0] <= x for x in xs] + [b[1] <= y for y in ys] + [b[2] >= x for x in xs] + [b[3] >= y for y in ys]), "a record lies outside the bounds")
        ctx.check(ctx.all([ctx.any([b[k] == v for v in vs]) for k, vs in ((0, xs), (1, ys), (2, xs), (3, ys))]), "bounds are not touched by a record")
        ctx.check(ctx.eq(list(p.extents()), list(b)) & ctx.eq(list(p.extends()), list(b)), "extents differ from bounds")
        if p.count_stitches() != n or len(p) != n:
            ctx.fail("record count")
        want = 0
        for r in m:
            want = want + ctx_if(ctx, (r[2] & 255) == pe.COLOR_CHANGE)
        ctx.check(p.count_color_changes() == want, "colour change count")
        ctx.check(ctx.eq([list(s) for s in p.get_match_commands(pe.TRIM)], [r for r in m if (r[2] & 255) == pe.TRIM]), "matching commands")
    elif kind == "translate":
        a, c = num("a"), num("b")
        p.translate(a, c)
        m = [[x + a, y + c, k] for x, y, k in m]
        agree(ctx, p, m, "translate")
    else:
        b0 = p.bounds()
        p.move_center_to_origin()
        dx, dy = p.stitches[0][0] - m[0][0], p.stitches[0][1] - m[0][1]
        agree(ctx, p, [[x + dx, y + dy, k] for x, y, k in m], "centring")
        b = p.bounds()
        lim = 1
        ctx.check((b[0] + b[2] <= lim) & (b[0] + b[2] >= -lim) & (b[1] + b[3] <= lim) & (b[1] + b[3] >= -lim), "centre is more than half a unit from the origin")
        ctx.check((b[2] - b[0] == b0[2] - b0[0]) & (b[3] - b[1] == b0[3] - b0[1]), "size changed by centring")
    ctx.cover("end")


def ctx_if(ctx, c):
    if not ctx.symbolic:
        return 1 if c else 0
    from engine.values import as_int, SymBool
    return as_int(c) if isinstance(c, SymBool) else int(c)


def harnesses(tier):
    t = tier == "thorough"
    hs = []
    for i in range(0, len(OPS), 3):
        hs.append(Harness("history_%d" % i, lambda ctx, f=OPS[i:i + 3]: history(ctx, 3 if t else 2, f), {}, ("end",), weight=3))
    hs.append(Harness("history_short", lambda ctx: history(ctx, 3, ["move_abs", "rel"]) if t else history(ctx, 3, ["abs"]), {}, ("end",), weight=3))
    for i in range(0, len(OPS), 5):
        hs.append(Harness("history_after_%d" % i, lambda ctx, f=OPS[i:i + 5]: history(ctx, 1, f, 300), {}, ("end",), weight=2))
    for kind in ("bounds", "translate", "centre"):
        hs.append(Harness(kind + "_after", lambda ctx, k=kind: shift(ctx, k, False, 1, 300), {}, ("end",)))
    for n in (1, 3):
        hs.append(Harness("access_%d" % n, access, dict(n=n), ("end",)))
    hs.append(Harness("lists", lists, {}, ("end",)))
    for kind in ("bounds", "translate", "centre"):
        for half in (False, True):
            hs.append(Harness(kind + ("_half" if half else ""), lambda ctx, k=kind, h=half: shift(ctx, k, h, (4 if t else 3)), {}, ("end",)))
    return hs
