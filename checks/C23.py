from .common import *

BOUNDS = ("nearest: palettes of 0..3 (thorough 4) entries, any of them taken out (None), every colour of the wanted thread and of the entries symbolic in all three channels, wanted "
          "given as thread or integer; palette building: 1..3 threads over 1..3 entries, one symbolic channel each (thorough: two), with equal, different and same-coloured threads.")
OUTSIDE = "larger palettes (the search is the same loop), the colour values of the built-in charts."
DEADLINE = 60


def thread(ctx, name, chans="rgb", base=(40, 90, 200)):
    pe = ctx.pe
    v = [ctx.int(name + c, 0, 255) if c in chans else b for c, b in zip("rgb", base)]
    t = pe.EmbThread()
    t.color = v[0] * 65536 + v[1] * 256 + v[2]
    return t, v


def dist(ctx, a, b):
    return ctx.module("EmbThread").color_distance_red_mean(a[0], a[1], a[2], b[0], b[1], b[2])


def is_nearest(ctx, idx, want, entries, what, tie=True):
    """entries: channel triples or None"""
    left = [i for i, e in enumerate(entries) if e is not None]
    if not left:
        ctx.check(idx is None, what + ": entry chosen from an empty palette")
        return
    if idx is None:
        ctx.fail(what + ": no entry although some remain")
    if idx not in left:
        ctx.fail(what + ": entry %r is not available" % idx)
    d = dist(ctx, want, entries[idx])
    for i in left:
        e = dist(ctx, want, entries[i])
        # ties go to the later entry
        ctx.check(d < e if i > idx and tie else d <= e, what + ": entry %d is closer than %d" % (i, idx))


def nearest(ctx, n, chans="rgb"):
    m = ctx.module("EmbThread")
    hole = ctx.choose("hole", range(n + 1))
    es, vs = [], []
    for i in range(n):
        t, v = thread(ctx, "e%d" % i, chans)
        es.append(None if i + 1 == hole else t)
        vs.append(None if i + 1 == hole else v)
    w, wv = thread(ctx, "w", chans)
    how = ctx.choose("how", ["method", "thread", "int"])
    idx = w.find_nearest_color_index(es) if how == "method" else m.find_nearest_color_index(w if how == "thread" else w.color, es)
    is_nearest(ctx, idx, wv, vs, "nearest")
    ctx.cover("end")


GREENS = {1: [(100,)], 2: [(100, 111), (255, 0), (7, 7)], 3: [(0, 100, 111), (200, 100, 0), (40, 40, 60)]}


def setup(ctx, n, m, chans):
    es, vs, ts, tv = [], [], [], []
    for i, g in enumerate(ctx.choose("entries", GREENS[m])):
        t, v = thread(ctx, "e%d" % i, "", (40, g, 200))
        es.append(t)
        vs.append(v)
    for i in range(n):
        t, v = thread(ctx, "t%d" % i, "" if i == 2 else chans, (40, 105, 200))
        t.description = ctx.choose("name%d" % i, [None, "n"]) if i else None
        ts.append(t)
        tv.append(v)
    return es, vs, ts, tv


def plain(ctx, n, m, chans):
    es, vs, ts, tv = setup(ctx, n, m, chans)
    out = ctx.module("EmbThread").build_palette(list(es), ts)
    ctx.check(len(out) == n, "one entry per thread")
    for i, k in enumerate(out):
        is_nearest(ctx, k, tv[i], vs, "thread %d" % i)
    ctx.cover("end")


def unique(ctx, n, m, chans):
    es, vs, ts, tv = setup(ctx, n, m, chans)
    out = ctx.module("EmbThread").build_unique_palette(list(es), ts)
    ctx.check(len(out) == n, "one entry per thread")
    for k in out:
        if k is None or not 0 <= k < m:
            ctx.fail("entry %r" % (k,))
    same = lambda i, j: ctx.eq(tv[i], tv[j])
    for i in range(n):
        for j in range(i):
            if out[i] != out[j]:
                ctx.check(ctx.neg(same(i, j)), "one colour in two palette entries")
    # distinct threads: their number is bounded below by the distinct colours
    firsts = []
    for i in range(n):
        new = True
        for j in range(i):
            if bool(same(i, j)) and ts[i].description == ts[j].description:
                new = False
        firsts.append(new)
    if sum(firsts) <= m:
        # every distinct thread found an entry of its own: different colours stay apart
        for i in range(n):
            for j in range(i):
                if out[i] == out[j]:
                    ctx.check(same(i, j), "two colours share a palette entry although entries remain")
    # the thread served first gets its nearest entry
    ctx.check(ctx.any([best(ctx, k, tv[i], vs) for i, k in enumerate(out)]), "no thread got its nearest entry")
    if n == 1:
        is_nearest(ctx, out[0], tv[0], vs, "only thread")
    ctx.cover("end")


def best(ctx, k, want, vs):
    d = dist(ctx, want, vs[k])
    return ctx.all([d <= dist(ctx, want, e) for e in vs])


def nonrepeat(ctx, n, m, chans):
    es, vs, ts, tv = setup(ctx, n, m, chans)
    pal = list(es)
    out = ctx.module("EmbThread").build_nonrepeat_palette(pal, ts)
    ctx.check(len(out) == n, "one entry per thread")
    if any(a is not b for a, b in zip(pal, es)):
        ctx.fail("palette not restored")
    for i, k in enumerate(out):
        if k is None:
            ctx.fail("no entry for thread %d" % i)
        if i and out[i - 1] == k:
            ctx.check(ctx.eq(tv[i], tv[i - 1]), "neighbouring threads of different colours share an entry")
        # the nearest, or the nearest of the others when the neighbour has taken it
        ok = best(ctx, k, tv[i], vs)
        if i and out[i - 1] != k:
            rest = [e for j, e in enumerate(vs) if j != out[i - 1]]
            alt = ctx.all([best(ctx, out[i - 1], tv[i], vs)] + [dist(ctx, tv[i], vs[k]) <= dist(ctx, tv[i], e) for e in rest])
            ok = ctx.any([ok, alt])
        ctx.check(ok, "thread %d did not get its nearest available entry" % i)
    ctx.cover("end")


def harnesses(tier):
    t = tier == "thorough"
    hs = []
    for n, ch in [(0, "rgb"), (1, "rgb"), (2, "rgb"), (3, "g"), (3, "b"), (3, "r")] + ([(4, "g"), (4, "b"), (3, "rg"), (3, "gb"), (3, "rb")] if t else []):
        hs.append(Harness("nearest_%d%s" % (n, ch), lambda ctx, n=n, ch=ch: nearest(ctx, n, ch), {}, ("end",)))
    for f in (plain, unique, nonrepeat):
        for n in (1, 2, 3):
            for m in (1, 2, 3):
                if (f is nonrepeat and m == 1) or (n == 3 and m == 3 and not t):
                    continue
                ch = "g"
                hs.append(Harness("%s_%d_%d" % (f.__name__, n, m), lambda ctx, f=f, n=n, m=m, ch=ch: f(ctx, n, m, ch), {}, ("end",)))
    return hs
