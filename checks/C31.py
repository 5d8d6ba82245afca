from .common import *
from .C24 import bytes_of, le32, Z, s8, num, sign, FORMATS, STATE, run, scaled, shv, compare_decoded

BOUNDS = ("DST, EXP, JEF, PEC, PES, XXX, U01 and TBF files of up to 2 (thorough 3) records every byte of which is symbolic (so every command and displacement, in every order), cut at every byte of "
          "the stitch section, and files of the reader-only record formats (10O, 100, BRO, DAT, DSB, DSZ, EMD, FXY, GT, INB, JPX, KSM, MIT, NEW, SEW, SHV, SPX, STC, ZHS, ZXY, PCD, PCM, PCQ, PCS, "
          "MAX) of one whole record and every shorter part of the next; VP3 files of up to 3 blocks cut in any block's records and PMV files of up to 3 blocks cut anywhere; headers with one, two and four threads; the readers' trim settings on and off.")
OUTSIDE = ("files cut inside the header; formats without an end record of their own or the text formats; VP3 files cut in a block's header; "
           "control codes a format leaves undefined (the reader stops or skips there).")
DEADLINE = 110


def sizes(fmt, ctx, data):
    """where each record of the byte list ends (the last ones only if complete)"""
    out, i = [], 0
    d = data
    while i < len(d):
        if fmt in ("dst", "u01", "tbf"):
            n = 3
        elif fmt in ("exp", "jef"):
            n = 4 if bool(d[i] == 0x80) else 2
        elif fmt == "xxx":
            n = 5 if bool(ctx.any([d[i] == 0x7D, d[i] == 0x7E])) else 4 if bool(d[i] == 0x7F) else 2
        else:
            if i + 1 < len(d) and bool(ctx.all([d[i] == 0xFE, d[i + 1] == 0xB0])):
                n = 3
            elif i + 1 < len(d) and bool(ctx.all([d[i] == 0xFF, d[i + 1] == 0])):
                n = 2
            else:
                n = 2 if bool(d[i] >= 0x80) else 1
                if i + n < len(d):
                    n += 2 if bool(d[i + n] >= 0x80) else 1
                else:
                    n += 1
        i += n
        if i <= len(d):
            out.append(i)
    return out


END = {"dst": [0, 0, 0xF3], "exp": [], "jef": [0x80, 0x10, 0, 0], "pec": [0xFF, 0], "pes": [0xFF, 0], "xxx": [0x7F, 0x7F, 2, 0x14], "u01": [0xF8, 0, 0], "tbf": [0, 0, 0x8F]}


def header(ctx, fmt, nt, room):
    """a file's bytes before the stitches, and after them"""
    if fmt == "dst":
        return list(b"LA:x               \rST:      1\r".ljust(512)), []
    if fmt == "exp":
        return [], []
    if fmt == "jef":
        cols = [1, 5, 0, 7][:nt]
        h = le32(0x74 + 4 * nt) + le32(20) + [48] * 16 + le32(nt) + Z * 88
        assert len(h) == 0x74
        for c in cols:
            h += le32(c)
        return h, []
    if fmt in ("pec", "pes"):
        h = list(b"#PEC0001" if fmt == "pec" else b"")
        body = list(b"LA:" + b"x".ljust(16) + b"\r" + b" " * 12 + b"\xff\x00") + [6, 38] + [32] * 12 + [nt - 1] + [1, 5, 5, 7][:nt]
        body += [32] * (0x1D0 - (nt - 1)) + [room + 16, 0, 0] + [0x31, 0xFF, 0xF0] + Z * 8
        if fmt == "pes":
            h = list(b"#PES0001") + le32(12)
        return h + body, Z * (6 * 38 * (nt + 1))
    if fmt == "xxx":
        h = Z * 0x27 + [nt, 0] + Z * (0x100 - 0x29)
        return h, [0, 0] + sum(([0, 10 * i, 20, 30] for i in range(nt)), [])
    if fmt == "u01":
        return Z * 256, []
    h = Z * 3 + Z * 0x80 + list(b"x".ljust(16)) + Z * (0x10A - 0x93)
    h += ([1, 3, 0, 2][:nt] + Z * 0x100)[:0x100] + Z * 4
    for i in range(nt):
        h += [0x45, i, 2, 3, 0x20]
    h += [0] * (0x600 - len(h))
    return h, []


def read(ctx, fmt, data, rset):
    f = ctx.stream(bytes_of(ctx, data))
    if rset is None:
        return getattr(ctx.pe, "read_" + fmt)(f)
    return getattr(ctx.pe, "read_" + fmt)(f, rset)


def cut(ctx, fmt, n, nt, rset=None, raw=True):
    pe = ctx.pe
    data = list(ctx.bytes("rec", n))
    h, tail = header(ctx, fmt, nt, n + 2)
    ends = [0] + sizes(fmt, ctx, data)
    c = ctx.choose("cut", list(range(n + 1)))
    full = ends[-1]
    if c > full:
        ctx.stop()
    done = max(e for e in ends if e <= c)
    if fmt in ("pec", "pes") and c == done + 2 and c + 1 in ends and bool(ctx.all([data[done] == 0xFE, data[done + 1] == 0xB0])):
        done = c + 1  # the last byte of a colour change (an alternating 2 or 1) says nothing
    k = len([e for e in ends if 0 < e <= c])
    # ground truth: the complete records, properly ended
    a = read(ctx, fmt, h + data[:done] + END[fmt] + tail, rset)
    b = read(ctx, fmt, h + data[:c], rset)
    whole = read(ctx, fmt, h + data[:full] + END[fmt] + tail, rset)
    ctx.observe([[s[0], s[1], s[2]] for s in b.stitches])
    sa, sb, sw = ([list(s) for s in q.stitches] for q in (a, b, whole))
    for s, what in ((sb, "truncated"), (sw, "whole")):
        if not s:
            ctx.fail("%s: the %s file has no end" % (fmt, what))
        ctx.check((s[-1][2] & MASK) == pe.END, "%s: the %s file's design does not end with END" % (fmt, what))
        for t in s[:-1]:
            ctx.check((t[2] & MASK) != pe.END, "%s: END amid the %s file's design" % (fmt, what))
    if len(sa) != len(sb):
        ctx.fail("%s: cut at %d of %d bytes: %d commands instead of %d" % (fmt, c, n, len(sb) - 1, len(sa) - 1))
    ctx.check(ctx.eq(sa, sb), "%s: a cut changes the complete records before it" % fmt)
    if raw:
        if len(sw) < len(sb):
            ctx.fail("%s: the truncated file has more commands than the whole one" % fmt)
        ctx.check(ctx.eq(sw[:len(sb) - 1], sb[:-1]), "%s: the truncated design is no prefix of the whole one" % fmt)
    if fmt not in ("xxx",):
        if len(a.threadlist) != len(b.threadlist):
            ctx.fail("%s: threads lost" % fmt)
    if done and k == len(ends) - 1:
        ctx.cover("complete")
    ctx.cover("end")


def vp3cut(ctx, blocks, where, free, lead):
    """a VP3 file ending among the records of one block"""
    from .C40 import sim, be, text8
    pe = ctx.pe
    h = [ord(c) for c in "%vsm%"] + [0] + text8("ab") + Z * 7 + text8("") + Z * 32 + be(0, 4) + be(0, 4) + Z * 27 + text8("") + Z * 24 + text8("xyz") + be(blocks, 2)
    s = sim(ctx, [])
    size = None
    for i in range(blocks):
        s.at("J", 3 + i, -2 * i)
        rec = list(lead) + list(ctx.bytes("rec", free)) if i == where else [5, 6]
        head = be(300 + 100 * i, 4) + be(200 * i, 4) + [1, 0, 9, 8, 7, 0, 0, 0, 5, 40] + text8("7") + text8("d") + text8("") + Z * 15 + [0x0A, 0xF6, 0]
        c = ctx.choose("cut", list(range(len(rec) + 1))) if i == where else len(rec)
        j = 0
        while j + 1 < c:
            x, y = rec[j], rec[j + 1]
            if bool(x != 0x80):
                s("S", s8(ctx, x), s8(ctx, y))
                j += 2
                continue
            ctx.assume(ctx.any([y == v for v in (1, 2, 3)]))
            if y == 1:
                if j + 8 > c:
                    if j + 6 <= c:
                        ctx.stop()              # the displacement is there, the mark after it is not
                    break
                s("S", num(ctx, rec[j + 2:j + 4], False), num(ctx, rec[j + 4:j + 6], False))
                j += 8
            else:
                if y == 3:
                    s("T")
                j += 2
        h += [0, 5, 0] + be(len(head) + len(rec), 4) + head + rec[:c]
        if i == where:
            break
        if i + 1 < blocks:
            s("C")
    p = pe.EmbPattern()
    ctx.module("Vp3Reader").read(ctx.stream(bytes_of(ctx, h)), p)
    n = len(p.stitches)
    if n > 1 and (p.stitches[-2][2] & MASK) == pe.COLOR_CHANGE:
        if where == blocks - 1:
            ctx.fail("vp3: colour change after the last block")
        del p.stitches[-2]                      # the block was whole; the next one is missing
    compare_decoded(ctx, p, s, "vp3")
    if len(p.threadlist) != where + 1:
        ctx.fail("vp3: %d threads" % len(p.threadlist))
    ctx.cover("end")


def pmvcut(ctx, counts):
    from .C40 import sim
    data = []
    pens = []
    for k, n in enumerate(counts):
        data += [n, 0, 2 * n, 0]
        for i in range(n):
            x, y = ctx.int("x%d_%d" % (k, i), 0, 31), ctx.int("y%d_%d" % (k, i), 0, 15)
            data += [x, y]
            pens.append((len(data), x, y))
    c = ctx.choose("cut", list(range(len(data) + 4)))
    s = sim(ctx, [])
    px = 0
    for at, x, y in pens:
        if at <= c:
            px = px + x
            s.at("S", px, -y)
    p = ctx.pe.EmbPattern()
    ctx.module("PmvReader").read(ctx.stream(bytes_of(ctx, (Z * 0x64 + data + [0, 0, 0, 1])[:0x64 + c])), p)
    compare_decoded(ctx, p, s, "pmv", 2.5)
    ctx.cover("end")


def harnesses(tier):
    T = tier == "thorough"
    hs = []

    def H(fmt, n, nt=2, w=1.0, **p):
        hs.append(Harness("%s-%d-%dt%s" % (fmt, n, nt, "-" + p.pop("tag") if "tag" in p else ""), cut, dict(p, fmt=fmt, n=n, nt=nt), ["end", "complete"], weight=w))
    raw = {"clipping": False, "trim_at": None, "trim_distance": None}
    for n in (3, 6) if not T else (3, 6, 9):
        H("dst", n, 1, rset=raw)
        H("u01", n, 1)
        H("tbf", n, 4)
    H("dst", 3, 1, raw=False, tag="trims")
    for n in (2, 4, 5) if not T else (2, 4, 5, 6):
        H("exp", n, 1)
        H("jef", n, 4, rset=raw)
    H("jef", 5, 2, raw=False, rset={"trims": True}, tag="trims")
    for n in (2, 4) if not T else (2, 4, 6):
        H("pec", n, 4)
    H("pec", 5, 2)
    H("pec", 3, 1)
    H("pes", 4, 2)
    for n in (2, 4, 5) if not T else (2, 4, 5, 6, 7):
        H("xxx", n, 2)
    # the formats that are only read: the records before the cut, decoded as C24 defines them
    for fmt, spec in FORMATS.items():
        for c in range(1, spec[1]):
            hs.append(Harness("%s-cut%d" % (fmt, c), run, dict(fmt=fmt, n=2, cut=c), ["end"]))
    for fmt in ("pcd", "pcq", "pcs", "pcm", "max"):
        for c in range(1, 8 + (fmt != "max")) if T else (1, 4, 7):
            hs.append(Harness("%s-cut%d" % (fmt, c), scaled, dict(fmt=fmt, n=2, cut=c), ["end"]))
    for b, w in ((1, 0), (2, 0), (2, 1), (3, 1)):
        for n in (2, 4, 6) if T else (2, 4):
            hs.append(Harness("vp3-%d-%d-%d" % (b, w, n), vp3cut, dict(blocks=b, where=w, free=n, lead=()), ["end"]))
        hs.append(Harness("vp3-%d-%d-long" % (b, w), vp3cut, dict(blocks=b, where=w, free=6, lead=(0x80, 1)), ["end"]))
    for c in ((1,), (2,), (0, 2), (1, 0, 1), (1, 1)):
        hs.append(Harness("pmv-%s" % "_".join(map(str, c)), pmvcut, dict(counts=c), ["end"]))
    hs.append(Harness("shv-cut", shv, dict(n=3, cut=1), ["end"]))
    return hs
