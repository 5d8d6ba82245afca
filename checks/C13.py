from .common import *

BOUNDS = ("no bound on the numbers: all real matrix entries, points, centres, scales and translations, every angle (any point of the unit circle); products of three "
          "matrices, operation sequences of length 3, patterns of 4 records with any command.")
OUTSIDE = "floating-point rounding (entries are exact reals; the angle's cosine and sine are any c, s with c^2+s^2=1)."
DEADLINE = 120


def mat(ctx, n, affine=True):
    r = [ctx.real("%s%d" % (n, i)) for i in range(9)]
    if affine:
        r[2] = r[5] = 0
        r[8] = 1
    return r


def pt(ctx, n="p"):
    return [ctx.real(n + "x"), ctx.real(n + "y")]


def ap(m, p):
    """row vector times matrix"""
    return [p[0] * m[0] + p[1] * m[3] + m[6], p[0] * m[1] + p[1] * m[4] + m[7]]


def compose(ctx):
    pe = ctx.pe
    a, b = mat(ctx, "a"), mat(ctx, "b")
    p = pt(ctx)
    A, B = pe.EmbMatrix(list(a)), pe.EmbMatrix(list(b))
    ctx.check(ctx.close((A @ B).point_in_matrix_space(p), ap(a, ap(b, p))), "A @ B is not A after B")
    ctx.check(ctx.close([A.m, B.m], [a, b]), "A @ B changed an operand")
    C = pe.EmbMatrix(list(a))
    C @= B
    if C is None:
        ctx.fail("A @= B lost the matrix")
    ctx.check(ctx.close(C.point_in_matrix_space(p), ap(a, ap(b, p))), "A @= B is not A after B")
    str(C) if not ctx.symbolic else None
    ctx.check(True, "reached")


def associative(ctx):
    pe = ctx.pe
    a, b, c = (mat(ctx, n, False) for n in "abc")
    mul = pe.EmbMatrix.matrix_multiply
    ctx.check(ctx.close(mul(mul(a, b), c), mul(a, mul(b, c))), "product is not associative")
    i = pe.EmbMatrix.get_identity()
    ctx.check(ctx.close(mul(a, i), a), "A * identity")
    ctx.check(ctx.close(mul(i, a), a), "identity * A")


def apply(ctx):
    """the three ways of mapping a point agree"""
    pe = ctx.pe
    a = mat(ctx, "a")
    p = pt(ctx)
    A = pe.EmbMatrix(list(a))
    want = ap(a, p)
    ctx.check(ctx.close(A.point_in_matrix_space(p[0], p[1]), want), "point_in_matrix_space(x, y)")
    ctx.check(ctx.close(A.point_in_matrix_space((p[0], p[1])), want), "point_in_matrix_space((x, y))")
    r = A.point_in_matrix_space([p[0], p[1], 0x201])
    ctx.check(ctx.close(r[:2], want), "point_in_matrix_space(stitch)")
    if len(r) != 3 or r[2] != 0x201:
        ctx.fail("point_in_matrix_space(stitch) changed the command")
    v = [p[0], p[1], 7]
    A.apply(v)
    ctx.check(ctx.close(v[:2], want), "apply")
    if v[2] != 7:
        ctx.fail("apply changed the command")
    ctx.check(ctx.close(list(A.get_matrix()), a), "mapping a point changed the matrix")


def elementary(ctx, sequence=False):
    """each operation on any matrix acts as defined"""
    pe = ctx.pe
    a = mat(ctx, "a")
    p = pt(ctx)
    sx, sy, tx, ty = (ctx.real(n) for n in ("sx", "sy", "tx", "ty"))
    cx, cy = ctx.real("cx"), ctx.real("cy")
    th = ctx.angle("th")
    c, s = ctx.cossin(th)

    def scale(q):
        return [q[0] * sx, q[1] * sy]

    def trans(q):
        return [q[0] + tx, q[1] + ty]

    def rot(q):
        return [q[0] * c - q[1] * s, q[0] * s + q[1] * c]

    def about(f):
        return lambda q: [u + v for u, v in zip(f([q[0] - cx, q[1] - cy]), (cx, cy))]
    ops = dict(
        post_translate=(lambda M: M.post_translate(tx, ty), lambda q: ap(a, trans(q))),
        pre_translate=(lambda M: M.pre_translate(tx, ty), lambda q: trans(ap(a, q))),
        post_scale=(lambda M: M.post_scale(sx, sy), lambda q: ap(a, scale(q))),
        post_scale1=(lambda M: M.post_scale(sx), lambda q: ap(a, [q[0] * sx, q[1] * sx])),
        post_scale_at=(lambda M: M.post_scale(sx, sy, cx, cy), lambda q: ap(a, about(scale)(q))),
        post_scale_none=(lambda M: M.post_scale(sx, None, None, cy), lambda q: ap(a, [q[0] * sx, (q[1] - cy) * sx + cy])),
        pre_scale=(lambda M: M.pre_scale(sx, sy), lambda q: scale(ap(a, q))),
        pre_scale1=(lambda M: M.pre_scale(sx), lambda q: [v * sx for v in ap(a, q)]),
        post_rotate=(lambda M: M.post_rotate(th), lambda q: ap(a, rot(q))),
        post_rotate_at=(lambda M: M.post_rotate(th, cx, cy), lambda q: ap(a, about(rot)(q))),
        post_rotate_x=(lambda M: M.post_rotate(th, cx), lambda q: ap(a, [u + v for u, v in zip(rot([q[0] - cx, q[1]]), (cx, 0))])),
        pre_rotate=(lambda M: M.pre_rotate(th), lambda q: rot(ap(a, q))),
        reset=(lambda M: M.reset(), lambda q: q),
    )
    k = ctx.choose("op", sorted(ops))
    M = pe.EmbMatrix(list(a))
    ops[k][0](M)
    ctx.check(ctx.close(M.point_in_matrix_space(p), ops[k][1](p)), k + " maps points wrongly")
    # the centre stays where the matrix had it
    if k.endswith("_at"):
        ctx.check(ctx.close(M.point_in_matrix_space(cx, cy), ap(a, (cx, cy))), k + " moved its centre")


def statics(ctx):
    """the plain matrices the class hands out"""
    E = ctx.pe.EmbMatrix
    p = pt(ctx)
    sx, sy = ctx.real("sx"), ctx.real("sy")
    th = ctx.angle("th")
    c, s = ctx.cossin(th)
    at = lambda m: E(m).point_in_matrix_space(p)
    ctx.check(ctx.close(at(E.get_scale(sx)), [p[0] * sx, p[1] * sx]), "get_scale of one factor")
    ctx.check(ctx.close(at(E.get_scale(sx, sy)), [p[0] * sx, p[1] * sy]), "get_scale")
    ctx.check(ctx.close(at(E.get_translate(sx, sy)), [p[0] + sx, p[1] + sy]), "get_translate")
    ctx.check(ctx.close(at(E.get_rotate(th)), [p[0] * c - p[1] * s, p[0] * s + p[1] * c]), "get_rotate")
    ctx.check(ctx.close(at(E.get_identity()), list(p)), "get_identity")
    ctx.check(ctx.close(at(E().get_matrix()), list(p)), "a new matrix")


def catenate(ctx):
    pe = ctx.pe
    a, b, c = mat(ctx, "a"), mat(ctx, "b"), mat(ctx, "c")
    p = pt(ctx)
    M = pe.EmbMatrix(list(a))
    M.post_cat([list(b), list(c)])
    ctx.check(ctx.close(M.point_in_matrix_space(p), ap(a, ap(b, ap(c, p)))), "post_cat")
    M = pe.EmbMatrix(list(a))
    M.pre_cat([list(b), list(c)])
    ctx.check(ctx.close(M.point_in_matrix_space(p), ap(c, ap(b, ap(a, p)))), "pre_cat")


def invert(ctx, affine, apart=False):
    pe = ctx.pe
    a = mat(ctx, "a", affine)
    det = a[0] * (a[4] * a[8] - a[7] * a[5]) - a[1] * (a[3] * a[8] - a[6] * a[5]) + a[2] * (a[3] * a[7] - a[6] * a[4])
    if ctx.symbolic:
        # apart: counterexamples far enough from a singular matrix to be seen in floating point too
        ctx.assume(det >= 1 if apart else det != 0)
    else:
        ctx.assume(abs(det) > 1e-3)
    A = pe.EmbMatrix(list(a))
    A.inverse()
    I = [1, 0, 0, 0, 1, 0, 0, 0, 1]
    mul = pe.EmbMatrix.matrix_multiply
    # u = 1/det makes the products polynomial
    for i, (got, want) in enumerate(zip(mul(a, A.m), I)):
        ctx.check(ctx.close(got, want), "inverse: entry %d of the product" % i)
    for i, (got, want) in enumerate(zip(mul(A.m, a), I)):
        ctx.check(ctx.close(got, want), "inverse: entry %d of the other product" % i)
    if affine:
        p = pt(ctx)
        ctx.check(ctx.close(A.point_in_matrix_space(ap(a, p)), p), "the inverse does not undo the mapping")


def sequence(ctx, k):
    """a history of operations: the later ones act first on a point"""
    pe = ctx.pe
    M = pe.EmbMatrix()
    fs = []
    for i in range(k):
        o = ctx.choose("o%d" % i, ["t", "s", "r", "S", "R"])
        u, v = ctx.real("u%d" % i), ctx.real("v%d" % i)
        x, y = (ctx.real("x%d" % i), ctx.real("y%d" % i)) if o in "SR" else (0, 0)
        if o == "t":
            M.post_translate(u, v)
            fs.append(lambda q, u=u, v=v: [q[0] + u, q[1] + v])
        elif o in "sS":
            M.post_scale(u, v, x, y)
            fs.append(lambda q, u=u, v=v, x=x, y=y: [(q[0] - x) * u + x, (q[1] - y) * v + y])
        else:
            th = ctx.angle("a%d" % i)
            c, s = ctx.cossin(th)
            M.post_rotate(th, x, y)
            fs.append(lambda q, c=c, s=s, x=x, y=y: [(q[0] - x) * c - (q[1] - y) * s + x, (q[0] - x) * s + (q[1] - y) * c + y])
    p = pt(ctx)
    q = p
    for f in reversed(fs):
        q = f(q)
    ctx.check(ctx.close(M.point_in_matrix_space(p), q), "sequence of operations")


def equality(ctx):
    pe = ctx.pe
    a = mat(ctx, "a", False)
    A, B = pe.EmbMatrix(list(a)), pe.EmbMatrix(list(a))
    if not (A == B) or A != B:
        ctx.fail("equal matrices differ")
    if ctx.symbolic:
        b = mat(ctx, "b", False)
        i = ctx.choose("i", range(9))
        ctx.assume(a[i] != b[i])
        if A == pe.EmbMatrix(list(b)):
            ctx.fail("different matrices are equal")
    M = pe.EmbMatrix()
    M.post_translate(0, 0)
    if M != pe.EmbMatrix():
        ctx.fail("the identity differs from the identity")
    ctx.check(True, "reached")


def pattern(ctx):
    """transforming a pattern maps every position and leaves every command"""
    pe = ctx.pe
    a = mat(ctx, "a")
    p = pe.EmbPattern()
    cmds = [pe.STITCH, pe.JUMP, pe.COLOR_CHANGE | 0x20100, pe.STITCH | 0x100, pe.END]
    pts = []
    for i, c in enumerate(cmds):
        q = pt(ctx, "q%d" % i)
        pts.append(q)
        p.add_stitch_absolute(c, q[0], q[1])
    p.transform(pe.EmbMatrix(list(a)))
    if [s[2] for s in p.stitches] != cmds:
        ctx.fail("transform changed a command")
    for s, q in zip(p.stitches, pts):
        ctx.check(ctx.close([s[0], s[1]], ap(a, q)), "transform maps a position wrongly")


def harnesses(tier):
    t = tier == "thorough"
    H = lambda n, f, p={}: Harness(n, f, p, [], real=True)
    hs = [H("compose", compose), H("associative", associative), H("apply", apply), H("elementary", elementary), H("catenate", catenate), H("statics", statics),
          H("invert-affine", invert, dict(affine=True)), H("invert", invert, dict(affine=False)),
          H("invert-apart", invert, dict(affine=False, apart=True)), H("equality", equality), H("pattern", pattern)]
    for k in range(1, 4 + t):
        hs.append(H("sequence%d" % k, sequence, dict(k=k)))
    return hs
