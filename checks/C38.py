import random
import zlib
from .common import *
from .C24 import FORMATS, bytes_of

BOUNDS = ("every supported format by its extension, each letter of it in either case (symbolic), behind a base name of 1 to 2 symbolic printable characters (dots included); "
          "file contents with a symbolic coordinate in the formats the library writes, fixed records in the others; names with any other extension of 1 to 3 symbolic characters, "
          "without extension or beginning with the only dot; every access path (module functions, constructor, methods, convert); settings by position and by keyword; "
          "stitch and jump limits and the round switch given by the caller or left to the format, moves up to 300 units.")
OUTSIDE = "the file system itself (names are looked up in an in-memory folder, the replay uses a real one); aliases such as u00 or svgz, which the list mentions and nothing dispatches on."
DEADLINE = 120

# extension: reader module, writer module
TABLE = {
    "pec": ("PecReader", "PecWriter"), "pes": ("PesReader", "PesWriter"), "exp": ("ExpReader", "ExpWriter"), "dst": ("DstReader", "DstWriter"),
    "jef": ("JefReader", "JefWriter"), "vp3": ("Vp3Reader", "Vp3Writer"), "svg": (None, "SvgWriter"), "csv": ("CsvReader", "CsvWriter"),
    "xxx": ("XxxReader", "XxxWriter"), "sew": ("SewReader", None), "u01": ("U01Reader", "U01Writer"), "shv": ("ShvReader", None),
    "10o": ("A10oReader", None), "100": ("A100Reader", None), "bro": ("BroReader", None), "dat": ("DatReader", None), "dsb": ("DsbReader", None),
    "dsz": ("DszReader", None), "emd": ("EmdReader", None), "exy": ("ExyReader", None), "fxy": ("FxyReader", None), "gt": ("GtReader", None),
    "inb": ("InbReader", None), "tbf": ("TbfReader", "TbfWriter"), "ksm": ("KsmReader", None), "tap": ("TapReader", None), "spx": ("SpxReader", None),
    "stx": ("StxReader", None), "phb": ("PhbReader", None), "phc": ("PhcReader", None), "new": ("NewReader", None), "max": ("MaxReader", None),
    "mit": ("MitReader", None), "pcd": ("PcdReader", None), "pcq": ("PcqReader", None), "pcm": ("PcmReader", None), "pcs": ("PcsReader", None),
    "jpx": ("JpxReader", None), "stc": ("StcReader", None), "zhs": ("ZhsReader", None), "zxy": ("ZxyReader", None), "pmv": ("PmvReader", "PmvWriter"),
    "png": (None, "PngWriter"), "txt": (None, "TxtWriter"), "gcode": ("GcodeReader", "GcodeWriter"), "hus": ("HusReader", None),
    "edr": ("EdrReader", "EdrWriter"), "col": ("ColReader", "ColWriter"), "inf": ("InfReader", "InfWriter"), "json": ("JsonReader", "JsonWriter"),
}
TEXT = ("csv", "col", "json")


def name(ctx, ext, n, base=None):
    """base name of n symbolic characters, a dot, the extension in any case"""
    if base is None:
        base = sym_text(ctx, "base", n, 33, 126)
        for c in base:
            ctx.assume(c != "/")
        ctx.assume(ctx.any([c != "." for c in base]))
    t = base + "."
    for i, c in enumerate(ext):
        if c.isalpha():
            v = ctx.int("case%d" % i, 0, 1)
            t = t + letter(ctx, ord(c) - 32 * v)
        else:
            t = t + c
    return t


class Zlib:
    """stands for zlib in the encoding: stores, and a checksum of the (concrete) data"""
    error = zlib.error

    def compress(self, data, *a, **k):
        return data

    def crc32(self, data, start=0):
        b = getattr(data, "b", None)
        return zlib.crc32(bytes([int(x) for x in (b if b is not None else data)]), start)


def letter(ctx, v):
    if ctx.symbolic:
        from engine.symstr import SymStr
        return SymStr([v]).norm()
    return chr(v)


def sample(ctx, x=None):
    pe = ctx.pe
    p = pe.EmbPattern()
    if x is None:
        x = ctx.int("x", -30, 30)
    for t in (0x112233, 0xCC8844):
        th = pe.EmbThread()
        th.color = t
        th.description = "d%x" % t
        th.catalog_number = "7"
        p.add_thread(th)
    p.add_stitch_absolute(pe.STITCH, 0, 0)
    p.add_stitch_absolute(pe.STITCH, 10, 4)
    p.add_command(pe.COLOR_CHANGE)
    p.add_stitch_absolute(pe.STITCH, x, 20)
    p.add_command(pe.END)
    return p


def content(ctx, ext, x=None):
    """bytes of a file of the format"""
    r, w = TABLE[ext]
    if w is not None:
        f = ctx.stream(text=(ext == "json"))
        with ctx.stub("PecWriter", "draw_scaled", lambda *a, **k: None), ctx.stub("PngWriter", "zlib", Zlib()):
            ctx.pe.EmbPattern.write_embroidery(ctx.module(w), sample(ctx, x), f)
        return f
    fmt = {"dat": "barudan"}.get(ext, ext)
    if fmt in FORMATS:
        size, head = FORMATS[fmt][1], FORMATS[fmt][2](0)
        data = head + [(0x85 if fmt == "barudan" and i % size == 0 else 3 + 2 * i) & 0x7F if fmt != "barudan" else (0x80 if i % size == 0 else 3 + 2 * i) for i in range(2 * size)]
    elif ext == "tap":
        data = [1, 0, 3, 0, 1, 3]
    else:
        data = [0] * 0x180
    return ctx.stream(bytes_of(ctx, data))


def raw_of(ctx, f, ext):
    """the file's bytes; the JEF header states when it was written"""
    v = f.getvalue()
    return v[:8] + v[22:] if ext == "jef" else v


class Calls:
    """which module's read or write is called first"""

    def __init__(self, ctx, which):
        self.log = []
        self.saved = []
        for r, w in TABLE.values():
            m = r if which == "read" else w
            if m is None:
                continue
            mod = ctx.module(m)
            fn = getattr(mod, which, None)
            if fn is None:
                continue
            self.saved.append((mod, which, fn))
            setattr(mod, which, self.wrap(m, fn))

    def wrap(self, m, fn):
        def call(*a, **k):
            self.log.append(m)
            return fn(*a, **k)
        return call

    def done(self):
        for mod, which, fn in self.saved:
            setattr(mod, which, fn)


def outcome(ctx, fn):
    from engine.sym import Abort, PathCut, PathDead
    try:
        return fn(), None
    except Exception as e:
        return None, type(e).__name__


def shape(p):
    if p is None:
        return None
    def thread(t):
        return None if t is None else [t.color & 0xFFFFFF] + [getattr(t, a) for a in ATTRS]
    return [[list(s) for s in p.stitches], [thread(t) for t in p.threadlist], sorted(str(k) for k in p.extras)]


def reads(ctx, ext, how, n):
    pe = ctx.pe
    r = TABLE[ext][0]
    src = content(ctx, ext)
    folder = ctx.folder()
    nm = name(ctx, ext, n)
    folder.put(nm, src)
    path = folder.path(nm)
    settings = ctx.choose("settings", [None, {"trim_at": 1, "trims": True}]) if how != "convert" else None
    if settings is not None:
        settings = dict(settings)
    calls = Calls(ctx, "read")
    random.seed(1)
    try:
        if how == "read":
            got, err = outcome(ctx, lambda: pe.read(path, settings) if settings is not None else pe.read(path))
        elif how == "new":
            got, err = outcome(ctx, lambda: pe.EmbPattern(path, settings) if settings is not None else pe.EmbPattern(path))
        elif how == "kw":
            got, err = outcome(ctx, lambda: pe.EmbPattern(path, **(settings or {})))
        elif how == "method":
            got = pe.EmbPattern()
            err = outcome(ctx, lambda: got.read(path, **(settings or {})))[1]
            got = None if err else got
        else:
            got = pe.EmbPattern()
            same, err = outcome(ctx, lambda: pe.EmbPattern.static_read(path, settings=settings, pattern=got))
            if err is None and same is not got:
                ctx.fail("%s: reading into a given pattern returned another one" % ext)
            got = None if err else got
    finally:
        calls.done()
    if calls.log and calls.log[0] != r:
        ctx.fail("%s: read by %s" % (ext, calls.log[0]))
    q = pe.EmbPattern()
    f = ctx.text_of(src) if ext in TEXT else src
    f.seek(0)
    random.seed(1)
    _, want_err = outcome(ctx, lambda: ctx.module(r).read(f, q, settings))
    if err != want_err:
        ctx.fail("%s: %s by name, %s by its reader" % (ext, err, want_err))
    if err is None:
        ctx.observe(len(got.stitches))
        ctx.check(ctx.eq(shape(got), shape(q)), "%s: reading by name differs from the format's reader" % ext)
        if TABLE[ext][1] is not None and ext not in ("edr", "col", "inf", "pmv") and len(got.stitches) < 4:
            ctx.fail("%s: nothing read" % ext)
    ctx.cover("end")


def writes(ctx, ext, how, n):
    pe = ctx.pe
    w = TABLE[ext][1]
    folder = ctx.folder()
    nm = name(ctx, ext, n)
    path = folder.path(nm)
    x = 7 if ext in ("png",) else None
    p = sample(ctx, x)
    settings = ctx.choose("settings", [None, {"max_stitch": 8, "max_jump": 8, "translate": (3, 4)}])
    if settings is not None:
        settings = dict(settings)
    before = None if settings is None else dict(settings)
    calls = Calls(ctx, "write")
    with ctx.stub("PecWriter", "draw_scaled", lambda *a, **k: None), ctx.stub("PngWriter", "zlib", Zlib()):
        try:
            if how == "write":
                pe.write(p, path, settings) if settings is not None else pe.write(p, path)
            elif how == "method":
                p.write(path, **(settings or {}))
            else:
                pe.EmbPattern.static_write(p, path, settings=settings)
        finally:
            calls.done()
        if calls.log and calls.log[0] != w:
            ctx.fail("%s: written by %s" % (ext, calls.log[0]))
        f = ctx.stream(text=ext == "json")
        pe.EmbPattern.write_embroidery(ctx.module(w), sample(ctx, x), f, settings)
    got = folder.file(nm)
    if got is None:
        ctx.fail("%s: no file of that name" % ext)
    if folder.count() != 1:
        ctx.fail("%s: %d files" % (ext, folder.count()))
    if before is not None and settings != before:
        ctx.fail("%s: the settings given were changed" % ext)
    if ext == "json":
        a, b = pe.EmbPattern(), pe.EmbPattern()
        ctx.module("JsonReader").read(ctx.text_of(got), a)
        ctx.module("JsonReader").read(ctx.text_of(f), b)
        ctx.check(ctx.eq(shape(a), shape(b)), "json: writing by name differs")
    else:
        ctx.check(raw_of(ctx, got, ext) == raw_of(ctx, f, ext), "%s: writing by name differs from the format's writer" % ext)
    ctx.cover("end")


def unknown(ctx, n, kind):
    """names with no extension the library reads or writes"""
    pe = ctx.pe
    folder = ctx.folder()
    if kind == "ext":
        e = sym_text(ctx, "e", n, 33, 126)
        for c in e:
            ctx.assume(ctx.all([c != "/", c != "."]))
        low = e.lower()
        for k in TABLE:
            if len(k) == n:
                ctx.assume(low != k)
        nm = "design." + e
    elif kind == "none":
        nm = sym_text(ctx, "e", n, 33, 126)
        for c in nm:
            ctx.assume(ctx.all([c != "/", c != "."]))
    else:
        nm = "." + ctx.choose("hidden", ["dst", "pes", "csv"])
    folder.put(nm, content(ctx, "dst", 5))
    path = folder.path(nm)
    if pe.read(path) is not None:
        ctx.fail("a file of unknown type was read")
    p = pe.EmbPattern(path)
    if len(p.stitches) or len(p.threadlist):
        ctx.fail("a file of unknown type was read by the constructor")
    before = folder.get(nm)
    _, err = outcome(ctx, lambda: pe.write(sample(ctx, 5), path))
    if err not in ("OSError", "IOError"):
        ctx.fail("writing an unknown type: %s" % err)
    if folder.count() != 1 or not ctx.eq(folder.get(nm), before):
        ctx.fail("writing an unknown type touched a file")
    ctx.cover("end")


def oneway(ctx, ext):
    """formats only read cannot be written, and the other way round"""
    pe = ctx.pe
    folder = ctx.folder()
    nm = name(ctx, ext, 0, base="a")
    r, w = TABLE[ext]
    if w is None:
        _, err = outcome(ctx, lambda: pe.write(sample(ctx), folder.path(nm)))
        if err not in ("OSError", "IOError"):
            ctx.fail("%s: writing a format without writer: %s" % (ext, err))
        if folder.count():
            ctx.fail("%s: a file was left behind" % ext)
    else:
        folder.put(nm, b"12345678")
        if pe.read(folder.path(nm)) is not None:
            ctx.fail("%s: read a format without reader" % ext)
    ctx.cover("end")


def converts(ctx, a, b):
    pe = ctx.pe
    folder = ctx.folder()
    x = ctx.int("x", -30, 30)
    src = content(ctx, a, x)
    na, nb = name(ctx, a, 0, base="in"), "out." + b
    folder.put(na, src)
    st = ctx.choose("settings", [None, {"max_stitch": 9}])
    st = None if st is None else dict(st)
    with ctx.stub("PecWriter", "draw_scaled", lambda *a, **k: None), ctx.stub("PngWriter", "zlib", Zlib()):
        random.seed(1)  # threads a file lacks are made up at random
        pe.convert(folder.path(na), folder.path(nb), st)
        q = pe.EmbPattern()
        f = ctx.text_of(src) if a in TEXT else src
        f.seek(0)
        ctx.module(TABLE[a][0]).read(f, q, st)
        g = ctx.stream(text=b == "json")
        random.seed(1)
        pe.EmbPattern.write_embroidery(ctx.module(TABLE[b][1]), q, g, st)
    got = folder.file(nb)
    if got is None or folder.count() != 2:
        ctx.fail("convert %s %s: no file" % (a, b))
    if b == "json":
        u, v = pe.EmbPattern(), pe.EmbPattern()
        ctx.module("JsonReader").read(ctx.text_of(got), u)
        ctx.module("JsonReader").read(ctx.text_of(g), v)
        ctx.check(ctx.eq(shape(u), shape(v)), "convert to json differs")
    else:
        ctx.check(raw_of(ctx, got, b) == raw_of(ctx, g, b), "convert %s %s differs from reading and writing" % (a, b))
    ctx.cover("end")


NAMED = ("dst", "pec", "pes", "exp", "vp3", "jef", "u01", "csv", "json", "gcode", "xxx", "tbf", "txt", "svg", "png")


def functions(ctx, ext):
    """read_x and write_x use the reader and writer of x, on streams and on names without a known extension"""
    pe = ctx.pe
    r, w = TABLE[ext]
    x = 7 if ext == "png" else ctx.int("x", -30, 30)
    for owner in (pe, pe.EmbPattern):
        fn = getattr(owner, "write_" + ext)
        calls = Calls(ctx, "write")
        with ctx.stub("PecWriter", "draw_scaled", lambda *a, **k: None), ctx.stub("PngWriter", "zlib", Zlib()):
            try:
                f = ctx.stream(text=ext == "json")
                fn(sample(ctx, x), f)
                folder = ctx.folder()
                fn(sample(ctx, x), folder.path("plain"))
            finally:
                calls.done()
        if [m for m in calls.log if m != w]:
            ctx.fail("write_%s wrote with %s" % (ext, calls.log))
        got = folder.file("plain")
        if got is None:
            ctx.fail("write_%s: no file" % ext)
        if ext != "json":
            ctx.check(raw_of(ctx, got, ext) == raw_of(ctx, f, ext), "write_%s: name and stream differ" % ext)
        if r is None:
            continue
        fn = getattr(owner, "read_" + ext)
        calls = Calls(ctx, "read")
        try:
            a = fn(folder.path("plain"))
            f = ctx.text_of(f) if ext in TEXT else f
            f.seek(0)
            b = fn(f)
        finally:
            calls.done()
        if [m for m in calls.log if m != r]:
            ctx.fail("read_%s read with %s" % (ext, calls.log))
        ctx.check(ctx.eq(shape(a), shape(b)), "read_%s: name and stream differ" % ext)
        if len(a.stitches) < 4:
            ctx.fail("read_%s: nothing read" % ext)
    ctx.cover("end")


def listing(ctx):
    """the list of formats names every reader and writer once"""
    pe = ctx.pe
    seen = {}
    for e in pe.supported_formats():
        for k in ("description", "extension", "extensions", "mimetype", "category"):
            if k not in e:
                ctx.fail("an entry without %s" % k)
        x = e["extension"]
        if not isinstance(e["extensions"], (tuple, list)):
            ctx.fail("%s: the extensions are no list" % x)
        if x in seen:
            ctx.fail("%s is listed twice" % x)
        seen[x] = e
        if "reader" not in e and "writer" not in e:
            ctx.fail("%s has neither reader nor writer" % x)
    for x, (r, w) in TABLE.items():
        if x not in seen:
            ctx.fail("%s is not listed" % x)
        for k, m in (("reader", r), ("writer", w)):
            if (m is None) != (seen[x].get(k) is None):
                ctx.fail("%s: %s" % (x, k))
            if m is not None and not hasattr(seen[x][k], k[:4] if k == "reader" else "write"):
                ctx.fail("%s: %s cannot be used" % (x, k))
    i = ctx.int("i", 0, 3)
    ctx.check(i <= 3, "counts")
    ctx.cover("end")


LIMIT = {"dst": (121, 121), "exp": (127, 127), "jef": (127, 127), "xxx": (124, 124), "u01": (127, 127), "tbf": (127, 127), "pec": (2047, 2047)}


def limits(ctx, ext, given):
    """the caller's limits rule, the format's own apply otherwise"""
    pe = ctx.pe
    p = pe.EmbPattern()
    p.add_thread(0x112233)
    x, y = ctx.int("x", -300, 300), ctx.int("y", -40, 40)
    p.add_stitch_absolute(pe.STITCH, 0, 0)
    p.add_stitch_absolute(pe.STITCH, x, y)
    p.add_command(pe.END)
    st = {k: v for k, v in zip(("max_stitch", "max_jump"), given) if v is not None}
    top = [g if g is not None else l for g, l in zip(given, LIMIT[ext])]
    seen = []
    w = ctx.module(TABLE[ext][1])
    real = w.write

    def spy(pattern, f, settings=None):
        seen.append([list(s) for s in pattern.stitches])
        seen.append(dict(settings))
    w.write = spy
    try:
        pe.EmbPattern.write_embroidery(w, p, ctx.stream(), dict(st))
    finally:
        w.write = real
    if len(seen) != 2:
        ctx.fail("%s: the writer was not called once" % ext)
    px = py = 0
    conds = []
    for s in seen[0]:
        c = s[2] & 0xFF
        lim = top[0] if c == pe.STITCH else top[1]
        for d in (s[0] - px, s[1] - py):
            conds += [d <= lim, d >= -lim]
        px, py = s[0], s[1]
    ctx.observe(len(seen[0]))
    ctx.check(ctx.all(conds), "%s: a move is longer than the limit in force" % ext)
    ctx.cover("end")


def harnesses(tier):
    H = []
    n = 1 if tier == "quick" else 2
    hows = ("read", "new", "kw", "method", "static")
    for ext, (r, w) in sorted(TABLE.items()):
        if r is not None:
            for how in (hows):
                H.append(Harness("read_%s_%s" % (ext, how), lambda c, e=ext, h=how: reads(c, e, h, n), covers=("end",)))
        if w is not None:
            for how in ("write", "method", "static"):
                H.append(Harness("write_%s_%s" % (ext, how), lambda c, e=ext, h=how: writes(c, e, h, n), covers=("end",)))
        if r is None or w is None:
            H.append(Harness("oneway_" + ext, lambda c, e=ext: oneway(c, e), covers=("end",)))
    for i in (1, 2, 3):
        H.append(Harness("unknown_%d" % i, lambda c, i=i: unknown(c, i, "ext"), covers=("end",)))
    H.append(Harness("unknown_none", lambda c: unknown(c, 3, "none"), covers=("end",)))
    H.append(Harness("unknown_hidden", lambda c: unknown(c, 3, "hidden"), covers=("end",)))
    both = sorted(e for e, (r, w) in TABLE.items() if r and w and e not in ("edr", "col", "inf", "pmv"))
    pairs = [(a, b) for a in both for b in both] if tier != "quick" else [(a, both[(i * 5 + 3) % len(both)]) for i, a in enumerate(both)]
    for a, b in pairs:
        H.append(Harness("convert_%s_%s" % (a, b), lambda c, a=a, b=b: converts(c, a, b), covers=("end",)))
    for e in NAMED:
        H.append(Harness("named_" + e, lambda c, e=e: functions(c, e), covers=("end",)))
    H.append(Harness("listing", listing, covers=("end",)))
    for e in LIMIT:
        for given in ((None, None), (20, None), (None, 20), (20, 30)):
            H.append(Harness("limits_%s_%s_%s" % ((e,) + given), lambda c, e=e, g=given: limits(c, e, g), covers=("end",)))
    return H
