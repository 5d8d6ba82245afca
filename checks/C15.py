from .common import *

BOUNDS = ("every command code 0..255 and any 32-bit command whose higher bits are replaced, every thread, needle and order index 0..254 or absent, "
          "any two combinations (injectivity); every command name of the vocabulary; needle_change with every needle 0..254; get_as_stitches over two records.")
OUTSIDE = "what an index above 254 (up to 4000: it leaves the others alone) becomes itself."
DEADLINE = 60


def combo(ctx, tag=""):
    out = []
    for n in ("thread", "needle", "order"):
        out.append(ctx.int(tag + n, 0, 254) if ctx.choose(tag + "has_" + n, [0, 1]) else None)
    return out


def same(ctx, a, b):
    if (a is None) != (b is None):
        return False
    return True if a is None else a == b


def pack(ctx, wide):
    pe = ctx.pe
    cmd = ctx.int("cmd", 0, 2 ** 32 - 1 if wide else 255)
    t, n, o = combo(ctx)
    code = pe.encode_thread_change(cmd, t, n, o)
    f, t2, n2, o2 = pe.decode_embroidery_command(code)
    ctx.check(f == (cmd & 255), "command byte changed by packing")
    for nm, a, b in (("thread", t, t2), ("needle", n, n2), ("order", o, o2)):
        ctx.check(same(ctx, a, b), "%s index %s" % (nm, "lost or invented" if (a is None) != (b is None) else "changed"))
    ctx.check((code & pe.COMMAND_MASK) == (cmd & 255), "low byte altered")
    ctx.check((code >= 0) & (code < 2 ** 32), "code exceeds 32 bits")
    # each index lives in its own byte: leaving one out only clears that byte
    ctx.check((pe.encode_thread_change(cmd, t, n, None) == (code & ~pe.ORDER_MASK)) & (pe.encode_thread_change(cmd, None, n, o) == (code & ~pe.THREAD_MASK))
              & (pe.encode_thread_change(cmd, t, None, o) == (code & ~pe.NEEDLE_MASK)), "an index leaks into another's byte")
    ctx.cover("end")


def beyond(ctx):
    """an index without a code leaves the others alone"""
    pe = ctx.pe
    cmd = ctx.int("cmd", 0, 255)
    idx = combo(ctx)
    k = ctx.choose("which", [0, 1, 2])
    idx[k] = ctx.int("big", 255, 4000)
    code = pe.encode_thread_change(cmd, *idx)
    ctx.check((code >= 0) & (code < 2 ** 32), "code exceeds 32 bits")
    got = pe.decode_embroidery_command(code)
    ctx.check(got[0] == cmd, "command byte changed by an index beyond the range")
    for i in range(3):
        if i != k:
            ctx.check(same(ctx, idx[i], got[i + 1]), "an index beyond the range changes another")
    ctx.cover("end")


def inject(ctx):
    pe = ctx.pe
    c1, c2 = ctx.int("c1", 0, 255), ctx.int("c2", 0, 255)
    a, b = combo(ctx, "a"), combo(ctx, "b")
    e1, e2 = pe.encode_thread_change(c1, *a), pe.encode_thread_change(c2, *b)
    eq = ctx.all([c1 == c2] + [same(ctx, x, y) for x, y in zip(a, b)])
    ctx.check(ctx.implies(e1 == e2, eq), "two different combinations share a code")
    ctx.check(ctx.implies(eq, e1 == e2), "one combination has two codes")
    ctx.cover("end")


def vocabulary(ctx):
    """every name denotes its own low byte, and packing indices around it keeps the name"""
    pe = ctx.pe
    d = pe.get_command_dictionary()
    names = pe.get_common_name_dictionary()
    seen = {}
    for k, v in d.items():
        if names.get(v) != k:
            ctx.fail("name table: %s" % k)
        if (v & 255) in seen:
            ctx.fail("%s and %s share a code" % (k, seen[v & 255]))
        seen[v & 255] = k
    name = ctx.choose("name", sorted(k for k in d if d[k] >= 0))
    t, n, o = combo(ctx)
    f, t2, n2, o2 = pe.decode_embroidery_command(pe.encode_thread_change(d[name], t, n, o))
    ctx.check(names.get(f) == name, "%s renamed" % name)
    ctx.check(ctx.all([same(ctx, a, b) for a, b in ((t, t2), (n, n2), (o, o2))]), "indices of %s" % name)
    ctx.cover("end")


def accessor(ctx):
    pe = ctx.pe
    p = pe.EmbPattern()
    n = ctx.int("n", 0, 254)
    p.stitch_abs(ctx.int("x", -50, 50), 7)
    p.needle_change(n, ctx.int("dx", -9, 9))
    t, nn, o = combo(ctx)
    cmd = ctx.int("cmd", 0, 255)
    p.add_command(pe.encode_thread_change(cmd, t, nn, o), 3, 4)
    rows = list(p.get_as_stitches())
    if len(rows) != 3:
        ctx.fail("rows")
    ctx.check(ctx.eq(rows[1][3], pe.NEEDLE_SET) & ctx.eq(rows[1][5], n), "needle change names another needle")
    if rows[1][4] is not None or rows[1][6] is not None:
        ctx.fail("needle change carries a thread or order")
    ctx.check(rows[2][3] == cmd, "command of the record")
    ctx.check(ctx.all([same(ctx, a, b) for a, b in zip((t, nn, o), rows[2][4:7])]), "indices of the record")
    for i, r in enumerate(rows):
        ctx.check(ctx.eq(list(r[:3]), [i, p.stitches[i][0], p.stitches[i][1]]), "position of the record")
    ctx.cover("end")


def harnesses(tier):
    return [Harness("pack", lambda ctx: pack(ctx, False), {}, ("end",)), Harness("pack_wide", lambda ctx: pack(ctx, True), {}, ("end",)),
            Harness("beyond", beyond, {}, ["end"]), Harness("inject", inject, {}, ("end",)), Harness("vocabulary", vocabulary, {}, ("end",)), Harness("accessor", accessor, {}, ("end",))]
