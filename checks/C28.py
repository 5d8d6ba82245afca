from .common import *
from .C25 import flat

BOUNDS = ("designs of 1 (two of the commoner; thorough 2 and 3) commands after a first stitch over the whole vocabulary (stitch, jump, trim, colour change, colour break, sequence break, stop, sequins, speeds, needle commands, "
          "flagged commands), coordinates in [-60,60], 4 threads (colours with and without their alpha byte set) or none, metadata, settings absent, empty, with the encode flag, with transformations and ties; 17 writers, each written twice with "
          "another format written in between; normalising, stabilising and the other get_ methods.")
OUTSIDE = "PNG (n/a, see C35); writing with encoding switched off ('encode': False) in formats that otherwise encode; previews' pixels (C27)."
DEADLINE = 100
FORMATS = ["PecWriter", "PesWriter", "ExpWriter", "Vp3Writer", "JefWriter", "U01Writer", "PmvWriter", "DstWriter", "JsonWriter", "CsvWriter", "TbfWriter",
           "XxxWriter", "GcodeWriter", "TxtWriter", "SvgWriter", "ColWriter", "EdrWriter", "InfWriter"]
TEXT = ["JsonWriter", "CsvWriter", "GcodeWriter", "TxtWriter", "SvgWriter"]


def snapshot(p):
    return ([(s, list(s)) for s in p.stitches], [(t, dict(vars(t))) for t in p.threadlist], dict(p.extras),
            {k: v for k, v in vars(p).items() if k not in ("stitches", "threadlist", "extras")}, (p.stitches, p.threadlist, p.extras))


def same(ctx, p, snap, what):
    st, th, ex, rest, ids = snap
    if p.stitches is not ids[0] or p.threadlist is not ids[1] or p.extras is not ids[2]:
        ctx.fail(what + ": the pattern's lists were replaced")
    if len(p.stitches) != len(st):
        ctx.fail("%s: %d commands became %d" % (what, len(st), len(p.stitches)))
    if any(len(s) != len(v) for s, (_, v) in zip(p.stitches, st)):
        ctx.fail(what + ": a command changed")
    ctx.check(ctx.all([ctx.eq(tuple(s), tuple(v)) for s, (_, v) in zip(p.stitches, st)]), what + ": commands changed")
    if len(p.threadlist) != len(th) or any(t is not o or vars(t) != v for t, (o, v) in zip(p.threadlist, th)):
        ctx.fail(what + ": threads changed")
    if p.extras != ex:
        ctx.fail(what + ": metadata changed")
    for k, v in rest.items():
        if k in vars(p):
            if vars(p)[k] is not v:
                ctx.check(ctx.eq(vars(p)[k], v), "%s: %s changed" % (what, k))


def rich(ctx, k, alphabet, R=200, nt=4, flagged=False):
    pe = ctx.pe
    ops = [("S", 0, 0)] + design(ctx, alphabet, k, R)
    p = build(ctx, ops, THREADS[:nt])
    if flagged:
        p.stitches[-2][2] |= 0x200
    p.metadata("name", "n")
    p.metadata("author", "a")
    for t in p.threadlist:
        t.description = "d"
        if flagged:     # as some readers leave them
            t.color |= 0xFF000000
    return p


SETTINGS = [{}, {"encode": True, "max_jump": 90}, {"translate": [3, 4], "scale": [2, 2], "date": "20200101000000", "tie_on": True, "max_stitch": 100}]


def parts(ctx, f):
    """what was written; numbers not yet split into characters stay numbers"""
    if not hasattr(f, "buf"):
        v = f.getvalue()
        return list(v)
    return [x.v if type(x).__name__ == "Tok" else x for x in f.buf]


def output(ctx, name, p, settings):
    f = ctx.stream(text=name in TEXT) if name in ("JsonWriter",) else ctx.stream()
    with ctx.stub("PecWriter", "draw_scaled", lambda *a, **k: None):
        ctx.pe.EmbPattern.write_embroidery(ctx.module(name), p, f, settings)
    if name == "JefWriter":
        b = flat(ctx, f)
        return b[:8] + b[22:]        # the date
    return parts(ctx, f)


def writer(ctx, name, other, k, alphabet, R=200, fillers=False, settings=None):
    nt, fl = (0, False) if fillers else (4, ctx.choose("flagged", [0, 1]))
    p = rich(ctx, k, alphabet, R, nt, fl)
    if settings == "any":
        settings = ctx.choose("settings", SETTINGS)
    if settings is not None:
        settings = {k: list(v) if isinstance(v, list) else v for k, v in settings.items()}
    keep = None if settings is None else {k: list(v) if isinstance(v, list) else v for k, v in settings.items()}
    snap = snapshot(p)
    what = name
    a = output(ctx, name, p, settings)
    same(ctx, p, snap, what)
    if settings != keep:
        ctx.fail(what + ": the settings changed")
    if other:
        output(ctx, other, p, settings)
        same(ctx, p, snap, other)
    b = output(ctx, name, p, settings)
    if not fillers:     # colours filled in are random
        if len(a) != len(b):
            ctx.fail("%s: %d bytes, then %d" % (what, len(a), len(b)))
        ctx.check(ctx.all([ctx.eq(u, v) for u, v in zip(a, b)]), what + ": written differently the second time")
    ctx.cover("end")


GETS = {"get_normalized_pattern": 1, "get_stable_pattern": 0, "get_pattern_interpolate_trim": 3, "get_unique_threadlist": 0, "get_singleton_threadlist": 0,
        "bounds": 0, "count_color_changes": 0, "copy": 0, "get_metadata": "name", "get_as_stitchblock": 0, "get_as_command_blocks": 0,
        "get_as_colorblocks": 0, "get_pattern_merge_jumps": 0}


def getter(ctx, name, k, alphabet):
    p = rich(ctx, k, alphabet, 60, nt=ctx.choose('threads', [0, 4]), flagged=True)
    snap = snapshot(p)
    arg = GETS[name]
    fn = getattr(p, name, None)
    if fn is None:
        ctx.check(True, "absent")
        ctx.cover("end")
        return
    settings = {"translate": [3, 4], "tie_on": True, "tie_off": True, "max_stitch": 90, "max_jump": 90}
    keep = {k: list(v) if isinstance(v, list) else v for k, v in settings.items()}
    r = fn(settings) if arg == 1 else fn(arg) if arg else fn()
    if name.startswith("get_as"):
        r = list(r)
    same(ctx, p, snap, name)
    if settings != keep:
        ctx.fail(name + ": the settings changed")
    if isinstance(r, ctx.pe.EmbPattern):
        # the result is the caller's to change
        for s in r.stitches:
            s[0] = s[0] + 1
        r.extras["name"] = "other"
        r.extras["added"] = "other"
        r.add_thread(0x123456)
        same(ctx, p, snap, name + ", result edited")
    ctx.cover("end")


def harnesses(tier):
    t = tier == "thorough"
    hs = []
    k = 1 + t
    for i, n in enumerate(FORMATS):
        other = FORMATS[(i + 5) % 8] if not t else FORMATS[(i + 1) % len(FORMATS)]
        al = "SJTCBXQEFAWKM"

        def add(tag, **kw):
            a = dict(name=n, other=None, k=k, alphabet=al, R=60)
            a.update(kw)
            hs.append(Harness(n + tag, writer, a, ["end"], weight=2))
        add("_plain", other=other if n not in TEXT else None)
        add("_two", k=2 + t, alphabet="STXB" if t else "SQX", R=5)
        add("_fillers", fillers=True, alphabet="SCBX", R=20)
        add("_settings", settings="any", alphabet="STCX", R=20)
        if n not in TEXT:
            add("_blocks", k=2 + t, alphabet="SCBX", R=30 if t else 5)
    for n in GETS:
        hs.append(Harness(n, getter, dict(name=n, k=1 + t, alphabet="SJTCBXQEFLAWKMRN"), ["end"]))
    return hs
