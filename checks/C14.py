from .common import *
from .C13 import ap

BOUNDS = ("designs of up to 4 (thorough 5) commands over stitches, jumps and the six matrix commands with every position, translation, non-zero scale and angle a real number "
          "(no numeric bound), ended by two stitches; translate, scale (pair, object with x and y, or for scale one number) and rotate settings with the same ranges, alone and combined; with finite length "
          "limits: matrix commands of every kind that add up to nothing in any place among up to 4 commands of every kind, integer translations and positions in [-36,36], 12-unit limits.")
OUTSIDE = "floating-point rounding; scale factors of zero; rotations and scales under length limits (C10 decides the limits on the transformed positions)."
DEADLINE = 120


class Point(object):
    def __init__(self, x, y):
        self.x, self.y = x, y


def compose(ctx, k, alphabet, setting=()):
    pe = ctx.pe
    p, plain = pe.EmbPattern(), pe.EmbPattern()
    p.add_thread("red"), plain.add_thread("red")
    st = {}
    fs = []          # the transformation: functions, the last one acts first

    def img(q):
        for f in reversed(fs):
            q = f(q)
        return q

    def inv(q):
        for g in gs:
            q = g(q)
        return q
    gs = []          # inverses in the order that undoes fs

    def push(f, g):
        fs.append(f)
        gs.append(g)

    def tr(u, v):
        push(lambda q: [q[0] + u, q[1] + v], lambda q: [q[0] - u, q[1] - v])

    def sc(u, v, c=(0, 0)):
        push(lambda q: [(q[0] - c[0]) * u + c[0], (q[1] - c[1]) * v + c[1]],
             lambda q: [(q[0] - c[0]) / u + c[0], (q[1] - c[1]) / v + c[1]])

    def ro(th, o=(0, 0)):
        c, s = ctx.cossin(th)
        push(lambda q: [(q[0] - o[0]) * c - (q[1] - o[1]) * s + o[0], (q[0] - o[0]) * s + (q[1] - o[1]) * c + o[1]],
             lambda q: [(q[0] - o[0]) * c + (q[1] - o[1]) * s + o[0], -(q[0] - o[0]) * s + (q[1] - o[1]) * c + o[1]])

    def factor(n):
        v = ctx.real(n)
        ctx.assume(v != 0) if ctx.symbolic else ctx.assume(abs(v) > 1e-3)
        return v
    for s in setting:
        if s == "translate":
            st[s] = (ctx.real("stx"), ctx.real("sty"))
            tr(*st[s])
        elif s == "scale":
            st[s] = (factor("ssx"), factor("ssy"))
            sc(*st[s])
        elif s == "translate.xy":
            st["translate"] = Point(ctx.real("stx"), ctx.real("sty"))
            tr(st["translate"].x, st["translate"].y)
        elif s == "scale.xy":
            st["scale"] = Point(factor("ssx"), factor("ssy"))
            sc(st["scale"].x, st["scale"].y)
        elif s == "scale1":
            st["scale"] = factor("ss")
            sc(st["scale"], st["scale"])
        else:
            st[s] = ctx.angle("sr")
            ro(st[s])
    want = []
    needle = [0, 0]
    cmd = dict(S=pe.STITCH, J=pe.JUMP, A=pe.NEEDLE_AT, t=pe.MATRIX_TRANSLATE, s=pe.MATRIX_SCALE_ORIGIN, r=pe.MATRIX_ROTATE_ORIGIN, Z=pe.MATRIX_SCALE,
               Y=pe.MATRIX_ROTATE, o=pe.MATRIX_RESET)
    for i in range(k + 2):
        c = ctx.choose("c%d" % i, alphabet) if i < k else "S"
        if c in "SJA":
            q = [ctx.real("x%d" % i), ctx.real("y%d" % i)]
            plain.add_stitch_absolute(cmd[c], q[0], q[1])
            needle = img(q)
            want.append(needle)
            a = q
        elif c == "t":
            a = [ctx.real("tx%d" % i), ctx.real("ty%d" % i)]
            tr(*a)
        elif c == "s":
            a = [factor("sx%d" % i), factor("sy%d" % i)]
            sc(*a)
        elif c == "Z":
            a = [factor("sx%d" % i), factor("sy%d" % i)]
            sc(*a, c=inv(needle))
        elif c == "r":
            a = [ctx.angle("r%d" % i), 0]
            ro(a[0])
        elif c == "Y":
            a = [ctx.angle("r%d" % i), 0]
            ro(a[0], inv(needle))
        else:
            a = [0, 0]
            del fs[:], gs[:]
        p.add_stitch_absolute(cmd[c], a[0], a[1])
        if c in "ZY":
            # by definition the needle's position stays where it is
            pass
    p.add_stitch_absolute(pe.END, 0, 0)
    plain.add_stitch_absolute(pe.END, 0, 0)
    e = p.get_normalized_pattern(dict(st))
    f = plain.get_normalized_pattern({})
    if [s[2] for s in e.stitches] != [s[2] for s in f.stitches]:
        ctx.fail("matrix commands changed the commands: %r" % [s[2] for s in e.stitches])
    got = [[s[0], s[1]] for s in e.stitches if (s[2] & MASK) in (pe.STITCH, pe.JUMP)]
    if len(got) != len(want):
        ctx.fail("%d positions for %d" % (len(got), len(want)))
    for i, (a, b) in enumerate(zip(want, got)):
        ctx.check(ctx.close(a[0], b[0]), "x of position %d" % i)
        ctx.check(ctx.close(a[1], b[1]), "y of position %d" % i)
    ctx.check(True, "reached")


def limited(ctx, k, R, how):
    """a translation moves the whole encoding"""
    pe = ctx.pe
    tx, ty = ctx.int("tx", -R, R), ctx.int("ty", -R, R)
    ops = design(ctx, "SJTA", k, R)
    p = pe.EmbPattern()
    q = pe.EmbPattern()
    st = {"max_stitch": 12, "max_jump": 12}
    su = dict(st)
    if how == "setting":
        st["translate"] = (tx, ty)
    else:
        p.add_stitch_absolute(pe.MATRIX_TRANSLATE, tx, ty)
    build(ctx, ops, THREADS[:1], p=p)
    build(ctx, [(o[0], o[1] + tx, o[2] + ty) if o[1] is not None else o for o in ops], THREADS[:1], p=q)
    a, b = p.get_normalized_pattern(st).stitches, q.get_normalized_pattern(su).stitches
    ctx.observe([s[2] for s in a])
    if [s[2] for s in a] != [s[2] for s in b]:
        ctx.fail("translated encoding differs from the encoding of the translated design")
    ctx.check(ctx.all([ctx.close(s[i], r[i]) for s, r in zip(a, b) for i in (0, 1)]), "translated encoding: positions")
    ctx.cover("end")


def neutral(ctx, k, alphabet, R=30, first=None, names=None, full=False):
    """matrix commands that add up to nothing change nothing: not the commands, not where they stand, not what is in progress"""
    pe = ctx.pe
    cmd = dict(S=pe.STITCH, J=pe.JUMP, T=pe.TRIM, C=pe.COLOR_CHANGE, X=pe.STOP, A=pe.NEEDLE_AT, W=pe.SEW_TO, E=pe.SEQUIN_EJECT, M=pe.SEQUIN_MODE, K=pe.STITCH_BREAK,
               F=pe.FRAME_EJECT, Q=pe.SEQUENCE_BREAK, B=pe.COLOR_BREAK)
    u, v = ctx.int("u", -R, R), ctx.int("v", -R, R)
    kinds = dict(t=[(pe.MATRIX_TRANSLATE, 0, 0)], s=[(pe.MATRIX_SCALE_ORIGIN, 1, 1)], Z=[(pe.MATRIX_SCALE, 1, 1)], r=[(pe.MATRIX_ROTATE_ORIGIN, 0, 0)], Y=[(pe.MATRIX_ROTATE, 0, 0)],
                 o=[(pe.MATRIX_RESET, u, v)], to=[(pe.MATRIX_TRANSLATE, u, v), (pe.MATRIX_RESET, 0, 0)], tt=[(pe.MATRIX_TRANSLATE, u, v), (pe.MATRIX_TRANSLATE, -u, -v)])
    ops = []
    for i in range(k):
        c = first if first and i == 0 else ctx.choose("c%d" % i, alphabet)
        ops.append((cmd[c], ctx.int("x%d" % i, -R, R), 3 * i))
    ops.append((pe.STITCH, 5, 1))
    at = ctx.choose("at", list(range(len(ops))))
    ins = kinds[ctx.choose("kind", names or list(kinds))]
    st = {"max_stitch": 12, "max_jump": 12, "sequin_contingency": pe.CONTINGENCY_SEQUIN_UTILIZE, "full_jump": full}
    out = []
    for w in (False, True):
        p = pe.EmbPattern()
        for c in THREADS[:4]:
            p.add_thread(c)
        for i, o in enumerate(ops):
            if w and i == at:
                for n in ins:
                    p.add_stitch_absolute(*n)
            p.add_stitch_absolute(*o)
        out.append(p.get_normalized_pattern(dict(st)).stitches)
    a, b = out
    ctx.observe([s[2] for s in a])
    if [s[2] for s in a] != [s[2] for s in b]:
        ctx.fail("matrix commands that change no position change the commands: %r, %r" % ([s[2] for s in a], [s[2] for s in b]))
    ctx.check(ctx.all([ctx.close(s[i], r[i]) for s, r in zip(a, b) for i in (0, 1)]), "matrix commands that change no position move commands")
    ctx.cover("end")


def harnesses(tier):
    t = tier == "thorough"
    hs = []
    R = lambda n, **p: hs.append(Harness(n, compose, p, [], real=True, weight=3))
    R("translate", k=3 + t, alphabet="Sto")
    R("scale", k=3 + t, alphabet="Sso")
    R("rotate", k=2 + t, alphabet="Sro")
    R("needle-scale", k=3, alphabet="SJZ")
    R("needle-rotate", k=3, alphabet="SY")
    R("mixed", k=2 + t, alphabet="StsrZYoA")
    R("mixed3", k=3 + t, alphabet="Stso")
    for s in (("translate",), ("scale",), ("scale1",), ("rotate",), ("translate", "scale"), ("translate", "rotate"), ("scale", "rotate"), ("translate", "scale", "rotate"),
              ("translate.xy",), ("scale.xy",), ("translate.xy", "scale.xy", "rotate")):
        R("set-" + "-".join(s), k=1 + t, alphabet="StZo", setting=s)
    for i, al in enumerate(("SJT", "SKJ", "SCX", "AWF", "SEMJ", "SQBE", "FTC")):
        hs.append(Harness("neutral-%d" % i, neutral, dict(k=3, alphabet=al, first="S" if not t else None, R=14 if not t else 20, names=["t", "Z", "Y", "o", "to"] if not t else None, full=i % 3 == 2), ["end"], weight=3))
    for h in ("setting", "command"):
        hs.append(Harness("limited-" + h, limited, dict(k=2 + t, R=36, how=h), ["end"], weight=3))
    return hs
