"""Oracles shared by the checks: symbolic designs as operation lists, what they mean, and how to read the meaning back
from a pattern. Independent of the library's encoder: only the public command constants are used."""
from engine.ctx import Harness

MASK = 0xFF


def build(ctx, ops, threads=(), p=None, end=True):
    """ops: list of (kind, x, y); kinds: S stitch, J jump, T trim, C colour change, X stop, B colour break, Q sequence
    break, E sequin eject, F fast, L slow, A needle_at, W sew_to, K stitch break, N no command, R frame eject, U needle set"""
    pe = ctx.pe
    cmd = dict(S=pe.STITCH, J=pe.JUMP, T=pe.TRIM, C=pe.COLOR_CHANGE, X=pe.STOP, B=pe.COLOR_BREAK, Q=pe.SEQUENCE_BREAK,
               E=pe.SEQUIN_EJECT, F=pe.FAST, L=pe.SLOW, A=pe.NEEDLE_AT, W=pe.SEW_TO, K=pe.STITCH_BREAK, N=pe.NO_COMMAND,
               R=pe.FRAME_EJECT, M=pe.SEQUIN_MODE, D=pe.END, U=pe.NEEDLE_SET)
    if p is None:
        p = pe.EmbPattern()
    for t in threads:
        p.add_thread(t)
    x = y = 0
    for op in ops:
        k = op[0]
        if len(op) > 1 and op[1] is not None:
            x, y = op[1], op[2]
        p.add_stitch_absolute(cmd[k], x, y)
    if end:
        p.add_stitch_absolute(pe.END, x, y)
    return p


MOVING = "SJEAWR"


def design(ctx, alphabet, k, R, first=None, last=None, pre="", Ry=None):
    """k operations chosen from alphabet; moving ones get fresh symbolic coordinates in [-R, R]"""
    ops = []
    for i in range(k):
        al = first if (i == 0 and first) else last if (i == k - 1 and last) else alphabet
        c = ctx.choose("%sc%d" % (pre, i), al)
        if c in MOVING:
            ops.append((c, ctx.int("%sx%d" % (pre, i), -R, R), ctx.int("%sy%d" % (pre, i), -(Ry or R), Ry or R)))
        else:
            ops.append((c, None, None))
    return ops


def nblocks(ops):
    """number of colour blocks an encoded design has (threads used)"""
    n = 0
    for o in expect(ops)[0]:
        pass
    return n


class Gap:
    """what lies between two consecutive penetrations"""

    def __init__(self):
        self.ev = []      # C (colour/needle change), X (stop), F, L in order
        self.trim = False
        self.jumps = 0    # explicit jumps
        self.jp = []      # where they go

    def key(self):
        return "".join(self.ev)


def expect(ops, needle=False, explicit_trim=False, speeds=False, lead_needle=False):
    """the design's meaning: list of (Gap, kind, x, y) for penetrations S / ejects E, the tail Gap, and number of thread
    blocks. Colour changes before the first penetration select the thread without a change (the first one), as the
    library documents; colour breaks only when sewing precedes and follows."""
    out = []
    g = Gap()
    trimmed = True
    order = -1
    for i, op in enumerate(ops):
        k = op[0]
        if k in "SAWE":
            if order == -1:
                order = 0
                if lead_needle:
                    g.ev.append("C")
            trimmed = False
            out.append((g, "E" if k == "E" else "S", op[1], op[2]))
            g = Gap()
        elif k == "J":
            g.jumps += 1
            g.jp.append((op[1], op[2]))
        elif k in "TQ":
            if not trimmed:
                g.trim = True
            trimmed = True
        elif k in "CU" or (k == "B" and order >= 0 and any(o[0] in "SAWE" for o in ops[i:])):
            if explicit_trim and not trimmed:
                g.trim = True
            order += 1
            if order > 0 or lead_needle:
                g.ev.append("C")
            trimmed = True
        elif k == "B":
            if order >= 0 and explicit_trim and not trimmed:
                g.trim = True
        elif k == "X":
            g.ev.append("X")
            trimmed = True
        elif k == "R":
            if not trimmed:
                g.trim = True
            g.jumps += 1
            g.ev.append("X")
            trimmed = True
        elif k in "FL" and speeds:
            g.ev.append(k)
        elif k == "D":
            break
    return out, g, order + 1


def meaning(ctx, stitches, speeds=False):
    """the same, read back from a (decoded or encoded) command list"""
    pe = ctx.pe
    out = []
    g = Gap()
    ended = False
    for s in stitches:
        c = s[2] & MASK
        if c == pe.STITCH:
            out.append((g, "S", s[0], s[1]))
            g = Gap()
        elif c == pe.SEQUIN_EJECT:
            out.append((g, "E", s[0], s[1]))
            g = Gap()
        elif c == pe.JUMP:
            g.jumps += 1
            g.jp.append((s[0], s[1]))
        elif c == pe.TRIM:
            g.trim = True
        elif c == pe.COLOR_CHANGE or c == pe.NEEDLE_SET:
            g.ev.append("C")
        elif c == pe.STOP:
            g.ev.append("X")
        elif c == pe.FAST and speeds:
            g.ev.append("F")
        elif c == pe.SLOW and speeds:
            g.ev.append("L")
        elif c == pe.END:
            ended = True
            break
    return out, g, ended


def show(m):
    return ["%s%s%s" % (g.key(), "T" if g.trim else "", k) for g, k, _, _ in m[0]] + [m[1].key()]


def embeds(ctx, a, b):
    """the positions a appear in order among the positions b"""
    if len(a) > len(b):
        return False
    if not a:
        return True
    return ctx.any([ctx.all([ctx.eq(a[0], b[i]), embeds(ctx, a[1:], b[i + 1:])]) for i in range(len(b) - len(a) + 1)])


def compare(ctx, exp, got, what, stop_as_change=False, trims="exact", tail=True, pos=None, ignore_stop=False, jumps=False):
    """jumps: every explicit jump's target is reached by a jump in the same gap. trims: 'exact' (in gaps without changes), 'atleast' (requested trims are there), None"""
    e, etail, _ = exp
    m, mtail, _ = got

    def key(g):
        k = g.key()
        if stop_as_change:
            k = k.replace("X", "C")
        if ignore_stop:
            k = k.replace("X", "")
        return k
    if len(e) != len(m):
        ctx.fail("%s: %d penetrations became %d" % (what, len(e), len(m)))
    for i, ((ge, ke, _, _), (gm, km, _, _)) in enumerate(zip(e, m)):
        if ke != km:
            ctx.fail("%s: penetration %d changed kind" % (what, i))
        if key(ge) != key(gm):
            ctx.fail("%s: changes before penetration %d: %r became %r" % (what, i, key(ge), key(gm)))
        if trims and i > 0 and not key(ge):
            want = ge.trim
            if trims == "exact":
                if want != gm.trim:
                    ctx.fail("%s: trim before penetration %d: %r became %r" % (what, i, want, gm.trim))
            elif want and not gm.trim:
                ctx.fail("%s: trim before penetration %d lost" % (what, i))
    if jumps:
        ctx.check(ctx.all([embeds(ctx, ge.jp, gm.jp) for ge, gm in
                           [(a[0], b[0]) for a, b in zip(e, m)] + [(etail, mtail)]]), what + ": jump targets")
    if tail and key(etail) != key(mtail):
        ctx.fail("%s: changes after the last penetration: %r became %r" % (what, key(etail), key(mtail)))
    f = pos or (lambda x, y: (x, y))
    ctx.check(ctx.all([ctx.eq(f(a[2], a[3]), (b[2], b[3])) for a, b in zip(e, m)]), what + ": penetration positions")


THREADS = [0x112233, 0xCC2200, 0x00AA44, 0x2244EE, 0xEEDD00, 0x880088, 0x000000, 0xFFFFFF]


def blank_header(ctx, f, n):
    """replace the symbolic bytes of the first n bytes of a stream by '0' (the textual header is not the subject here)"""
    if ctx.symbolic:
        from engine.values import SymInt
        f._flat()
        for i in range(min(n, len(f.buf))):
            if isinstance(f.buf[i], SymInt):
                f.buf[i] = 48


def roundtrip(ctx, fmt, p, wset=None, rset=None, blank=0):
    pe = ctx.pe
    f = ctx.stream()
    getattr(pe, "write_" + fmt)(p, f, wset)
    if blank:
        blank_header(ctx, f, blank)
    f.seek(0)
    q = getattr(pe, "read_" + fmt)(f, rset)
    ctx.observe(ctx.stitches(q))
    return q, f


def many(ctx, fmt, blocks, per=1, colours=None, wset=None, kept=None, what=None, lead=False, at=None):
    """a design of many colour blocks of `per` stitches each, a symbolic stitch in one of them. colours: those of the threads;
    kept: how many of them the format keeps (None: none, or not exactly)"""
    pe = ctx.pe
    what = what or fmt.upper()
    n = blocks * per
    k = ctx.choose("at", at or sorted({0, n // 2, n - 1} | {v for v in (254, 255, 256) if v < n}))
    p = pe.EmbPattern()
    cols = colours or [0x10307 * (i + 1) & 0xFFFFFF for i in range(blocks)]
    for c in cols:
        p.add_thread(c)
    want = []
    for i in range(n):
        x, y = i % 9 * 3, i % 7 * 2
        if i == k:
            x, y = ctx.int("x", -30, 30), ctx.int("y", -30, 30)
        if i and i % per == 0:
            p.color_change()
        p.add_stitch_absolute(pe.STITCH, x, y)
        want.append((x, y))
    p.end()
    q, f = roundtrip(ctx, fmt, p, wset)
    pos, blk, b = [], [], 0
    sewn = False
    for s in q.stitches:
        c = s[2] & MASK
        if c == pe.STITCH:
            pos.append((s[0], s[1]))
            blk.append(b)
            sewn = True
        elif c in (pe.COLOR_CHANGE, pe.NEEDLE_SET, pe.STOP):
            b += sewn or not lead
    if len(pos) != n:
        ctx.fail("%s: %d penetrations became %d" % (what, n, len(pos)))
    if blk != [i // per for i in range(n)]:
        ctx.fail("%s: colour changes misplaced in %d blocks" % (what, blocks))
    ends(ctx, q, what)
    ctx.check(ctx.all([ctx.eq(a, b) for a, b in zip(want, pos) if a is want[k] or not isinstance(b[0], int) or a != b]), what + ": penetration positions")
    if kept is not None:
        got = [t.color & 0xFFFFFF for t in q.threadlist]
        if got != [c & 0xFFFFFF for c in cols[:kept]]:
            ctx.fail("%s: %d threads became %d, or their colours changed" % (what, len(cols), len(got)))
    ctx.cover("end")


def ends(ctx, q, what):
    pe = ctx.pe
    n = len([1 for s in q.stitches if (s[2] & MASK) == pe.END])
    if not (n == 1 and (q.stitches[-1][2] & MASK) == pe.END):
        ctx.fail(what + ": does not end with exactly one END")


def pec_roundtrip(ctx, fmt, p, wset=None, rset=None):
    """PEC/PES: the preview bitmaps are not the subject here (C27)"""
    with ctx.stub("PecWriter", "draw_scaled", lambda *a, **k: None):
        return roundtrip(ctx, fmt, p, wset, rset)


def compare_anchored(ctx, exp, got, what):
    """like compare, but a run of jumps may be ended by an extra penetration exactly where the last jump ends"""
    from itertools import combinations
    e, etail, _ = exp
    m, mtail, _ = got
    extra = len(m) - len(e)
    if extra < 0:
        ctx.fail("%s: %d penetrations became %d" % (what, len(e), len(m)))
    cand = [i for i, (g, _, _, _) in enumerate(m) if g.jumps]
    alts = []
    for drop in combinations(cand, extra):
        keys, cur, conds, kept = [], "", [], []
        for i, (g, k, x, y) in enumerate(m):
            cur += g.key()
            if i in drop:
                conds.append(ctx.eq((x, y), g.jp[-1]))
            else:
                keys.append(cur)
                cur = ""
                kept.append((x, y))
        keys.append(cur + mtail.key())
        if keys != [g.key() for g, _, _, _ in e] + [etail.key()]:
            continue
        alts.append(ctx.all(conds + [ctx.eq((a[2], a[3]), b) for a, b in zip(e, kept)]))
    if not alts:
        ctx.fail("%s: %r became %r" % (what, show(exp), show(got)))
    ctx.check(ctx.any(alts), what + ": penetration positions (anchored jumps)")


def pec_trims(ctx, exp, got, what):
    """PEC stores a trim as a trimming jump: a requested trim is there whenever the needle moves, and none is invented in a
    gap without jumps"""
    e, m = exp[0], got[0]
    for i in range(1, len(e)):
        ge, gm = e[i][0], m[i][0]
        if ge.ev:
            continue
        if ge.trim and not gm.trim:
            ctx.check(ctx.eq((e[i][2], e[i][3]), (e[i - 1][2], e[i - 1][3])), "%s: trim before penetration %d lost" % (what, i))
        if not ge.trim and gm.trim and not ge.jumps:
            ctx.fail("%s: trim invented before penetration %d" % (what, i))


def sym_text(ctx, name, n, lo=32, hi=126):
    """a text of n characters with codes lo..hi"""
    cs = [ctx.int("%s.ch%d" % (name, i), lo, hi) for i in range(n)]
    if not ctx.symbolic:
        return "".join(chr(c) for c in cs)
    from engine.symstr import SymStr
    return SymStr(cs)


def indices(ctx, tag=""):
    """thread, needle and order index, each absent or 0..254"""
    return [ctx.int(tag + n, 0, 254) if ctx.choose(tag + "has_" + n, [0, 1]) else None for n in ("thread", "needle", "order")]


VOCAB = ("STITCH JUMP TRIM STOP END SLOW FAST COLOR_CHANGE NEEDLE_SET SET_CHANGE_SEQUENCE SEQUIN_MODE SEQUIN_EJECT SEW_TO NEEDLE_AT STITCH_BREAK "
         "SEQUENCE_BREAK COLOR_BREAK TIE_ON TIE_OFF FRAME_EJECT MATRIX_TRANSLATE MATRIX_SCALE_ORIGIN MATRIX_ROTATE_ORIGIN MATRIX_SCALE MATRIX_ROTATE "
         "MATRIX_RESET CONTINGENCY_TIE_ON_THREE_SMALL CONTINGENCY_TIE_OFF_THREE_SMALL CONTINGENCY_TIE_ON_NONE CONTINGENCY_TIE_OFF_NONE "
         "OPTION_MAX_STITCH_LENGTH OPTION_MAX_JUMP_LENGTH OPTION_IMPLICIT_TRIM OPTION_EXPLICIT_TRIM CONTINGENCY_LONG_STITCH_NONE "
         "CONTINGENCY_LONG_STITCH_JUMP_NEEDLE CONTINGENCY_LONG_STITCH_SEW_TO CONTINGENCY_SEQUIN_UTILIZE CONTINGENCY_SEQUIN_JUMP "
         "CONTINGENCY_SEQUIN_STITCH CONTINGENCY_SEQUIN_REMOVE").split()
ATTRS = ("description", "catalog_number", "details", "brand", "chart", "weight")
