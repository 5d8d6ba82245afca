from .common import *
from .C32 import chars

BOUNDS = ("two records with symbolic integer, half-unit or quarter-unit coordinates in [-2000,2000]; the command any of the 41 named ones with every combination of thread/needle/order "
          "indices 0..254 or absent, any code 0..255 with none or all of them, or NO_COMMAND; plain, delta and displacement layouts; a thread of any 24-bit colour with one attribute any text of 1..2 "
          "(thorough 4) characters from newline and printable ASCII (or fixed non-ASCII samples), the others fixed or absent; a metadata text of 1..3 (thorough 4) such characters; 3 threads in order; a preview image of stride 1 or 6 in the metadata with 4 symbolic bits; rows of other programs with two-digit positions, colours as three numbers or columns left out.")
OUTSIDE = "carriage returns in text, empty attribute texts (read back as absent), metadata that is not text, thread charts (CSV has no column), coordinates printed with an exponent."
DEADLINE = 60
VERSIONS = ["default", "delta", "full"]
CSV_ATTRS = [a for a in ATTRS if a != "chart"]


def trip(ctx, p, st=None):
    f = ctx.stream()
    # the length and direction columns of the displacement layout are not read back
    with ctx.stub("CsvWriter", "distance", lambda dx, dy: 0.0), ctx.stub("CsvWriter", "angle", lambda dx, dy: 0.0):
        ctx.pe.write_csv(p, f, st) if st else ctx.pe.write_csv(p, f)
    q = ctx.pe.EmbPattern()
    ctx.module("CsvReader").read(ctx.text_of(f), q)
    return q


def records(ctx, trip, versions, kind, den=1):
    pe = ctx.pe
    p = pe.EmbPattern()
    num = (lambda n: ctx.int(n, -2000, 2000)) if den == 1 else (lambda n: ctx.half(n, -2000, 2000, den))
    if kind == "pos":
        base = ctx.choose("command", [pe.STITCH, pe.COLOR_CHANGE])
    elif kind == "name":
        base = getattr(pe, ctx.choose("name", VOCAB))
    else:
        base = ctx.int("code", 0, 255)
        if ctx.bool("none"):
            base = pe.NO_COMMAND
    if kind == "name":
        cmd = pe.encode_thread_change(base, *indices(ctx))
    elif kind == "code" and ctx.choose("indexed", [0, 1]):
        cmd = pe.encode_thread_change(base, ctx.int("thread", 0, 254), ctx.int("needle", 0, 254), ctx.int("order", 0, 254))
    else:
        cmd = base
    if kind == "pos":
        p.add_stitch_absolute(cmd, num("x"), num("y"))
        p.add_stitch_absolute(pe.STITCH, num("u"), num("v"))
    else:
        p.add_stitch_absolute(cmd, 3, -4)
        p.add_stitch_absolute(pe.JUMP, 12, 0)
    v = ctx.choose("version", versions) if versions else None
    q = trip(ctx, p, {"version": v} if v else None)
    if len(q.stitches) != 2:
        ctx.fail("%d records from 2" % len(q.stitches))
    for a, b in zip(p.stitches, q.stitches):
        ctx.check(ctx.eq(list(a[:2]), list(b[:2])), "coordinates changed")
        ctx.check(ctx.eq(a[2], b[2]), "command or its indices changed")
    if q.threadlist or q.extras:
        ctx.fail("threads or metadata invented")
    ctx.cover("end")


def record_harnesses(trip, versions):
    return [Harness("positions", lambda ctx: records(ctx, trip, versions, "pos"), {}, ("end",)),
            Harness("halves", lambda ctx: records(ctx, trip, versions, "pos", 2), {}, ("end",)),
            Harness("quarters", lambda ctx: records(ctx, trip, versions, "pos", 4), {}, ("end",)),
            Harness("names", lambda ctx: records(ctx, trip, versions, "name"), {}, ("end",), weight=3),
            Harness("codes", lambda ctx: records(ctx, trip, versions, "code"), {}, ("end",), weight=3)]


def same_thread(ctx, a, b, attrs):
    ctx.check((a.color & 0xFFFFFF) == (b.color & 0xFFFFFF), "thread colour changed")
    for at in attrs:
        x, y = getattr(a, at), getattr(b, at)
        if (x is None) != (y is None):
            ctx.fail("thread %s: %r became %r" % (at, x if x is None else "text", y if y is None else "text"))
        if x is not None:
            ctx.check(x == y, "thread %s changed" % at)


SAMPLES = ["Gütermann", "a,b", 'say "hi"', "two\nlines", "日本", "None", "#", "random", "-1"]


def text(ctx, name, top):
    n = ctx.choose(name + "_len", range(top + 1))
    if n == 0:
        return ctx.choose(name + "_fixed", SAMPLES)
    if top >= 3:
        # the separators and quotes wherever they stand
        cs = [ctx.choose("%s_k%d" % (name, i), ["sym", '"', ",", "\n"]) for i in range(n)]
        out = [sym_text(ctx, "%s%d" % (name, i), 1) if c == "sym" else c for i, c in enumerate(cs)]
        r = out[0]
        for x in out[1:]:
            r = r + x
        return r
    return sym_text(ctx, name, n)


def threads(ctx, trip, attrs, top):
    pe = ctx.pe
    p = pe.EmbPattern()
    at = ctx.choose("attr", attrs)
    t = pe.EmbThread()
    t.color = ctx.int("color", 0, 0xFFFFFF)
    fixed = ctx.choose("others", [0, 1])
    for i, a in enumerate(attrs):
        if a == at:
            setattr(t, a, text(ctx, "text", top))
        elif fixed:
            setattr(t, a, "attr%d" % i)
    p.add_thread(t)
    p.add_stitch_absolute(pe.STITCH, 1, 2)
    q = trip(ctx, p, None)
    if len(q.threadlist) != 1:
        ctx.fail("%d threads from 1" % len(q.threadlist))
    same_thread(ctx, t, q.threadlist[0], attrs)
    if len(q.stitches) != 1 or q.extras:
        ctx.fail("thread text leaked into other rows")
    ctx.cover("end")


def order(ctx, trip):
    """several threads, repeated colours, in order"""
    pe = ctx.pe
    p = pe.EmbPattern()
    n = ctx.choose("n", range(4))
    for i in range(n):
        t = pe.EmbThread()
        t.color = ctx.int("color%d" % i, 0, 0xFFFFFF)
        t.description = ["one", "two", "one"][i]
        p.add_thread(t)
    k = ctx.choose("k", range(4))
    for i in range(k):
        p.add_stitch_absolute(pe.COLOR_CHANGE if i == 1 else pe.STITCH, i * 3, 4 - i)
    for i in range(ctx.choose("m", range(3))):
        p.metadata(["name", "author"][i], ["x", "y"][i])
    q = trip(ctx, p, None)
    if len(q.threadlist) != n or len(q.stitches) != k:
        ctx.fail("%d threads, %d records from %d, %d" % (len(q.threadlist), len(q.stitches), n, k))
    for a, b in zip(p.threadlist, q.threadlist):
        same_thread(ctx, a, b, ("description", "brand"))
    ctx.check(ctx.eq(p.stitches, [list(s) for s in q.stitches]), "records changed")
    if q.extras != p.extras:
        ctx.fail("metadata %r became %r" % (p.extras, q.extras))
    ctx.cover("end")


def metadata(ctx, trip, top):
    pe = ctx.pe
    p = pe.EmbPattern()
    key = ctx.choose("key", ["name", "my key", "*", "#k", 'q"k', "$", "@x"])
    v = text(ctx, "text", top)
    p.metadata(key, v)
    p.metadata("other", "z")
    p.add_stitch_absolute(pe.STITCH, 1, 2)
    q = trip(ctx, p, None)
    if set(q.extras) != {key, "other"}:
        ctx.fail("metadata keys %r became %r" % ([key, "other"], sorted(q.extras)))
    ctx.check(q.extras[key] == v, "metadata text changed")
    if q.extras["other"] != "z" or len(q.stitches) != 1 or q.threadlist:
        ctx.fail("metadata text leaked into other rows")
    ctx.cover("end")


def preview(ctx, stride):
    """a preview image among the metadata is written as rows of characters"""
    pe = ctx.pe
    bits = [ctx.int("bit%d" % i, 0, 1) for i in range(4)]
    b = [0x05, 0x80] * stride
    at = ctx.choose("at", [0, stride, 2 * stride - 1])
    base = b[at] & ~0x3C
    b[at] = base + sum(v << (i + 2) for i, v in enumerate(bits))
    p = pe.EmbPattern()
    p.metadata("pec_graphic_0", (b, stride, None))
    p.metadata("other", "z")
    p.add_stitch_absolute(pe.STITCH, 1, 2)
    q = trip(ctx, p, None)
    if set(q.extras) != {"pec_graphic_0", "other"}:
        ctx.fail("preview keys %r" % sorted(q.extras))
    want = ""
    for i, v in enumerate(b):
        if i % stride == 0:
            want += "\n"
        for k in range(8):
            on = bool(bits[k - 2] == 1) if i == at and 2 <= k < 6 else (base if i == at else v) >> k & 1
            want += "#" if on else " "
    ctx.check(q.extras["pec_graphic_0"] == want, "preview rows")
    if q.extras["other"] != "z" or len(q.stitches) != 1:
        ctx.fail("the preview leaked into other rows")
    ctx.cover("end")


def foreign(ctx, kind):
    """rows other programs write: threads as numbers, columns left out"""
    pe = ctx.pe
    q = pe.EmbPattern()
    f = ctx.stream(text=True)
    x = ctx.int("x", 10, 99)
    dx = chars(ctx, [48 + x // 10, 48 + x % 10])
    want = []
    if kind == "thread":
        c = [ctx.int("c%d" % j, 0, 9) for j in range(3)]
        k = [ctx.choose("tens%d" % j, ["", "1", "23"]) for j in range(3)]
        cat = sym_text(ctx, "cat", 1, 48, 122)
        f.write('"#","comment","*"\n"$","1",')
        for a, v in zip(k, c):
            f.write('"' + chars(ctx, [ord(t) for t in a] + [48 + v]) + '",')
        f.write('"Red","' + cat + '"\n')
        v = [int((a or "0")) * 10 + b if a else b for a, b in zip(k, c)]
        f.write('"$","2","#112233"\n"$","3","#445566","Name","Brand"\n')
        want = [(v[0] * 65536 + v[1] * 256 + v[2], "Red", None, cat), (0x112233, None, None, None), (0x445566, "Name", "Brand", None)]
    f.write('"*","0","STITCH","' + dx + '","-4"\n')
    rows = [(x, -4, pe.STITCH)]
    if kind == "command":
        n = ctx.choose("name", [v for v in VOCAB if v not in ("STITCH", "JUMP", "SEW_TO", "NEEDLE_AT", "SEQUIN_EJECT")])
        i = ctx.int("i", 0, 9)
        t = ctx.choose("index", ["", " n", " t", " o"])
        f.write('"*","1","' + n + t + (chars(ctx, [48 + i]) if t else "") + '"\n"*","2","JUMP","7","8.5"\n')
        rows += [(0, 0, getattr(pe, n) | ((i + 1) << {" n": 16, " t": 8, " o": 24}[t] if t else 0)), (7, 8.5, pe.JUMP)]
    f.seek(0)
    ctx.module("CsvReader").read(f, q)
    if len(q.stitches) != len(rows) or len(q.threadlist) != len(want):
        ctx.fail("%d records and %d threads read" % (len(q.stitches), len(q.threadlist)))
    ctx.check(ctx.eq([list(s) for s in q.stitches], [list(r) for r in rows]), "records")
    for t, (c, d, b, n) in zip(q.threadlist, want):
        ctx.check(ctx.all([t.color & 0xFFFFFF == c, t.description == d, t.brand == b, t.catalog_number == n]), "thread of another program's file")
    ctx.cover("end")


def harnesses(tier):
    t = tier == "thorough"
    return record_harnesses(trip, VERSIONS) + [
            Harness("foreign-thread", lambda ctx: foreign(ctx, "thread"), {}, ("end",)), Harness("foreign-command", lambda ctx: foreign(ctx, "command"), {}, ("end",)),
            Harness("threads", lambda ctx: threads(ctx, trip, CSV_ATTRS, 2), {}, ("end",)),
            Harness("threads3", lambda ctx: threads(ctx, trip, CSV_ATTRS[:1], 4 if t else 3), {}, ("end",)),
            Harness("preview1", lambda ctx: preview(ctx, 1), {}, ("end",)), Harness("preview6", lambda ctx: preview(ctx, 6), {}, ("end",)),
            Harness("order", lambda ctx: order(ctx, trip), {}, ("end",)), Harness("metadata", lambda ctx: metadata(ctx, trip, 4 if t else 3), {}, ("end",))]
