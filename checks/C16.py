from .common import *

BOUNDS = ("every value in [-2^33, 2^33] for the 8, 16, 24 and 32-bit writers in both byte orders followed by another value; every byte string of length 0..n+1 for each "
          "n-byte reader; every argument in [-2^33,2^33] of the sign helpers (signed8: every byte); int arrays of 3; strings of up to 6 (thorough 9) printable ASCII characters and fixed "
          "multi-byte samples in fields of 0..12 bytes.")
OUTSIDE = "write_float_32le (a struct.pack call with no reader); utf16 strings."
DEADLINE = 60
FIX = [(8, None), (16, "le"), (16, "be"), (24, "le"), (24, "be"), (32, "le"), (32, "be")]


def nm(bits, order):
    return "int_%d%s" % (bits, order or "")


def pair(ctx, bits, order):
    R, W = ctx.module("ReadHelper"), ctx.module("WriteHelper")
    v = ctx.int("v", -2 ** 33, 2 ** 33)
    w = ctx.int("w", 0, 2 ** bits - 1)
    s = ctx.stream()
    wr, rd = getattr(W, "write_" + nm(bits, order)), getattr(R, "read_" + nm(bits, order))
    wr(s, v)
    wr(s, w)
    raw = s.getvalue()
    n = bits // 8
    if len(raw) != 2 * n:
        ctx.fail("write_%s wrote %d bytes for two values" % (nm(bits, order), len(raw)))
    ks = range(n) if order != "be" else range(n - 1, -1, -1)
    ctx.check(ctx.all([raw[i] == (v >> (8 * k)) & 255 for i, k in enumerate(ks)]), "byte order of write_%s" % nm(bits, order))
    s.seek(0)
    a, b, c = rd(s), rd(s), rd(s)
    if a is None or b is None:
        ctx.fail("value reported as absent")
    ctx.check(a == v % 2 ** bits, "%s: first value read back wrong" % nm(bits, order))
    ctx.check(b == w, "%s: second value read back wrong" % nm(bits, order))
    if c is not None:
        ctx.fail("a value read past the end")
    # two's complement view
    sg = {8: "signed8", 16: "signed16", 24: "signed24"}.get(bits)
    if sg:
        x = ctx.int("sv", -2 ** (bits - 1), 2 ** (bits - 1) - 1)
        t = ctx.stream()
        wr(t, x)
        t.seek(0)
        ctx.check(getattr(R, sg)(rd(t)) == x, "%s of a written negative value" % sg)
    ctx.cover("end")


def short(ctx, bits, order):
    R = ctx.module("ReadHelper")
    n = bits // 8
    k = ctx.choose("len", range(n + 2))
    data = ctx.bytes("d", k) if k else b""
    s = ctx.stream(data)
    got = getattr(R, "read_" + nm(bits, order))(s)
    if k < n:
        if got is not None:
            ctx.fail("short data read as a value")
    else:
        if got is None:
            ctx.fail("complete data reported as absent")
        exp = 0
        for i in range(n):
            exp = exp + data[i] * 256 ** (i if order != "be" else n - 1 - i)
        ctx.check(got == exp, "value misread")
        if len(s.read()) != k - n:
            ctx.fail("reader consumed another length")
    ctx.cover("end")


def sint(ctx):
    R, W = ctx.module("ReadHelper"), ctx.module("WriteHelper")
    k = ctx.choose("len", range(6))
    xs = [ctx.int("x%d" % i, -128, 127) for i in range(k)]
    s = ctx.stream()
    W.write_int_array_8(s, xs)
    if len(s.getvalue()) != k:
        ctx.fail("int array length")
    n = ctx.choose("n", range(6))
    s.seek(0)
    got = R.read_signed(s, n)
    if len(got) != min(n, k):
        ctx.fail("read_signed returned %d of %d values" % (len(got), n))
    ctx.check(ctx.eq(list(got), xs[:n]), "read_signed values")
    s.seek(0)
    got = R.read_sint_8(s)
    if k == 0:
        if got is not None:
            ctx.fail("read_sint_8 invents a value")
    else:
        ctx.check(ctx.eq(got, xs[0]), "read_sint_8")
    ctx.cover("end")


def signs(ctx):
    R = ctx.module("ReadHelper")
    v = ctx.int("v", -2 ** 33, 2 ** 33)
    for bits in (16, 24):
        g = getattr(R, "signed%d" % bits)(v)
        h = 2 ** (bits - 1)
        ctx.check((g >= -h) & (g < h) & ((g - v) % 2 ** bits == 0), "signed%d is not the two's-complement value" % bits)
    b = ctx.int("b", 0, 255)
    g = R.signed8(b)
    ctx.check((g >= -128) & (g < 128) & ((g - b) % 256 == 0), "signed8 is not the two's-complement value")
    ctx.cover("end")


def chars(ctx, n):
    if not ctx.symbolic:
        return "".join(chr(ctx.int("ch%d" % i, 32, 126)) for i in range(n))
    from engine.symstr import SymStr
    return SymStr([ctx.int("ch%d" % i, 32, 126) for i in range(n)])


SAMPLES = ["", "é", "aé", "日本", "x" * 13, "€uro", "\U0001F9F5 thread"]


def strings(ctx, top):
    R, W = ctx.module("ReadHelper"), ctx.module("WriteHelper")
    n = ctx.choose("n", range(top + 1))
    text = chars(ctx, n)
    s = ctx.stream()
    if ctx.choose("w", [0, 1]):
        W.write_string_utf8(s, text)
    else:
        W.write_string(s, text, "utf8")
    if len(s.getvalue()) != n:
        ctx.fail("text written in %d bytes for %d characters" % (len(s.getvalue()), n))
    s.seek(0)
    back = R.read_string_8(s, n)
    ctx.check(back == text, "text read back differs")
    ctx.cover("end")


def padded(ctx):
    R, W = ctx.module("ReadHelper"), ctx.module("WriteHelper")
    if not hasattr(W, "write_string_padded"):
        ctx.check(True, "absent")
        ctx.cover("end")
        return
    text = ctx.choose("text", SAMPLES)
    size = ctx.choose("size", range(13))
    s = ctx.stream()
    W.write_string_padded(s, text, size)
    if len(s.getvalue()) != size:
        ctx.fail("field of %d bytes for size %d" % (len(s.getvalue()), size))
    s.seek(0)
    back = R.read_string_8(s, size)
    if back is None:
        ctx.fail("a character was split")
    enc = text.encode("utf8")
    want = enc[:size].decode("utf8", "ignore")
    if back != want + " " * (size - len(want.encode("utf8"))):
        ctx.fail("field holds %r" % back)
    ctx.cover("end")


def harnesses(tier):
    t = tier == "thorough"
    hs = []
    for b, o in FIX:
        hs.append(Harness("pair_" + nm(b, o), lambda ctx, b=b, o=o: pair(ctx, b, o), {}, ("end",)))
        hs.append(Harness("short_" + nm(b, o), lambda ctx, b=b, o=o: short(ctx, b, o), {}, ("end",)))
    return hs + [Harness("sint", sint, {}, ("end",)), Harness("signs", signs, {}, ("end",)),
                 Harness("strings", lambda ctx: strings(ctx, 9 if t else 6), {}, ("end",)), Harness("padded", padded, {}, ("end",))]
