from .common import *
from .C34 import lines

BOUNDS = ("lists of 0 to 3 (thorough 5) threads of any 24-bit colour through COL, EDR and INF, and lists of 300 (thorough 600) with five symbolic; COL files with up to 2 (thorough 3) records numbered by any digits, either line end; INF names and charts of up to 3 (thorough 5) symbolic characters, non-ASCII samples, empty or absent; "
          "patterns with and without stitches.")
OUTSIDE = "names holding the character NUL."
DEADLINE = 60


def trip(ctx, fmt, p):
    f = ctx.stream()
    ctx.last = f
    getattr(ctx.pe, "write_" + fmt)(p, f) if hasattr(ctx.pe, "write_" + fmt) else ctx.pe.EmbPattern.write_embroidery(ctx.module(fmt.title() + "Writer"), p, f)
    q = ctx.pe.EmbPattern()
    if fmt == "col":
        ctx.module("ColReader").read(ctx.text_of(f), q)
        return q
    f.seek(0)
    ctx.module(fmt.title() + "Reader").read(f, q)
    return q


def colours(ctx, fmt, n, stitches=False):
    pe = ctx.pe
    p = pe.EmbPattern()
    cols = []
    for i in range(n):
        c = ctx.int("c%d" % i, 0, 0xFFFFFF)
        t = pe.EmbThread()
        t.color = c
        if ctx.choose("named", [False, True]):
            t.name = t.description = "t%d" % i
        p.add_thread(t)
        cols.append(c)
    if stitches:
        for i in range(n):
            p.add_stitch_absolute(pe.STITCH, 5, 5 * i)
            p.add_command(pe.COLOR_CHANGE)
        p.add_command(pe.END)
    q = trip(ctx, fmt, p)
    got = [t.color & 0xFFFFFF for t in q.threadlist]
    ctx.observe(got)
    if len(got) != n:
        ctx.fail("%s: %d threads became %d" % (fmt, n, len(got)))
    ctx.check(ctx.eq(got, cols), "%s: thread colours changed or moved" % fmt)
    ctx.check(ctx.eq([t.color for t in p.threadlist], cols), "%s: writing changed the threads" % fmt)
    if fmt == "col":
        # count, then one numbered record per thread
        rows = [[w[0] for w in r if not isinstance(w, str)] for r in lines(ctx, ctx.last)]
        if [len(r) for r in rows] != [1] + [4] * n:
            ctx.fail("col: %r" % (rows,))
        ctx.check(ctx.eq([r[0] for r in rows], [n] + list(range(n))), "col: the count and the numbers of the records")
        ctx.check(ctx.eq([str(t.catalog_number) for t in q.threadlist], [str(i) for i in range(n)]), "col: the number of a record is lost")
    if fmt == "inf":
        # the number and the needle of each record, its own length before them
        b = ctx.last.getvalue()
        at = 16
        for i in range(n):
            two = [b[at + k] * 256 + b[at + k + 1] for k in (0, 2, 7)]
            ctx.check(ctx.eq(two[1:], [i, i + 1]), "inf: the record's number and needle")
            at += int(two[0])
        if at != len(b) or int(two[0] if n else 0) < 0:
            ctx.fail("inf: lengths of the records")
    ctx.cover("end")


def many(ctx, fmt, n):
    """more threads than a byte counts, symbolic ones among them"""
    pe = ctx.pe
    p = pe.EmbPattern()
    cols = [ctx.int("c%d" % i, 0, 0xFFFFFF) if i in (0, 1, n // 2, n - 2, n - 1) else 0x10101 * (i % 251) for i in range(n)]
    for c in cols:
        t = pe.EmbThread()
        t.color = c
        p.add_thread(t)
    q = trip(ctx, fmt, p)
    got = [t.color & 0xFFFFFF for t in q.threadlist]
    if len(got) != n:
        ctx.fail("%s: %d threads became %d" % (fmt, n, len(got)))
    ctx.check(ctx.eq(got, cols), "%s: thread colours changed or moved" % fmt)
    if fmt == "col":
        ctx.check(ctx.eq([str(t.catalog_number) for t in q.threadlist], [str(i) for i in range(n)]), "col: the number of a record is lost")
    if fmt == "inf":
        b = ctx.last.getvalue()
        at = 16
        for i in range(n):
            ctx.check(ctx.eq([b[at + k] * 256 + b[at + k + 1] for k in (2, 7)], [i, i + 1]), "inf: the record's number and needle")
            at += int(b[at] * 256 + b[at + 1])
    ctx.cover("end")


def chars(ctx, codes):
    if not ctx.symbolic:
        return "".join(chr(c) for c in codes)
    from engine.symstr import SymStr
    return SymStr(list(codes)).norm()


def numbered(ctx, n):
    """a palette by another program: its own numbers"""
    pe = ctx.pe
    t = "%d\n" % n
    want = []
    for i in range(n):
        k = sym_text(ctx, "k%d" % i, 1 + i % 3, 48, 57)
        t, c = t + k, []
        for j in range(3):
            u, v = ctx.int("u%d%d" % (i, j), 0, 9), ctx.int("v%d%d" % (i, j), 0, 9)
            h = ctx.choose("h%d" % j, [0, 1]) if i == 0 else 0
            t = t + "," + chars(ctx, ([48 + h] if h else []) + [48 + u, 48 + v])
            c.append(100 * h + 10 * u + v)
        t = t + ("\n" if i % 2 else "\r\n")
        want.append((k, c))
    q = pe.EmbPattern()
    f = ctx.stream(text=True)
    f.write(t)
    f.seek(0)
    ctx.module("ColReader").read(f, q)
    if len(q.threadlist) != n:
        ctx.fail("col: %d threads from %d records" % (len(q.threadlist), n))
    for th, (k, c) in zip(q.threadlist, want):
        ctx.check(th.catalog_number == k, "col: the number of a record is lost")
        ctx.check(th.color & 0xFFFFFF == c[0] * 65536 + c[1] * 256 + c[2], "col: colour")
    ctx.cover("end")


def names(ctx, k, kind):
    pe = ctx.pe
    p = pe.EmbPattern()
    want = []
    for i in range(2):
        t = pe.EmbThread()
        t.color = ctx.int("c%d" % i, 0, 0xFFFFFF)
        if i == 0 and kind == "sym":
            d, c = sym_text(ctx, "d", k, 1, 126), sym_text(ctx, "h", k, 1, 126)
        elif kind == "sym":
            d, c = "Zw\u00f6lf", "\u4e2d"
        else:
            d, c = ctx.choose("d%d" % i, ["", None, "x", "\u00df"]), ctx.choose("h%d" % i, ["", None, "y z", "\u00e9e"])
        t.description, t.chart = d, c
        want.append((d, c))
        p.add_thread(t)
    q = trip(ctx, "inf", p)
    if len(q.threadlist) != 2:
        ctx.fail("inf: 2 threads became %d" % len(q.threadlist))
    for t, (d, c), o in zip(q.threadlist, want, p.threadlist):
        ctx.check(t.color == o.color, "inf: colour")
        if d is not None:
            ctx.check(t.description == d, "inf: thread name")
        if c is not None:
            ctx.check(t.chart == c, "inf: thread chart")
    ctx.cover("end")


def harnesses(tier):
    T = tier == "thorough"
    hs = []
    for fmt in ("col", "edr", "inf"):
        for n in range(0, 6 if T else 4):
            hs.append(Harness("%s-%d" % (fmt, n), colours, dict(fmt=fmt, n=n), ["end"]))
        hs.append(Harness("%s-many" % fmt, many, dict(fmt=fmt, n=600 if T else 300), ["end"]))
        hs.append(Harness("%s-stitches" % fmt, colours, dict(fmt=fmt, n=2, stitches=True), ["end"]))
    for n in range(4 if T else 3):
        hs.append(Harness("numbered-%d" % n, numbered, dict(n=n), ["end"]))
    for k in (1, 2, 3) if not T else (1, 2, 3, 4, 5):
        hs.append(Harness("names-%d" % k, names, dict(k=k, kind="sym"), ["end"]))
    hs.append(Harness("names-absent", names, dict(k=0, kind="some"), ["end"]))
    return hs
