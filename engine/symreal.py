"""Real-number values (z3 Real terms) for the matrix algebra: exact real arithmetic, sin/cos as a point on the unit
circle.  Used only by harnesses that ask for it."""
import math
from fractions import Fraction
import z3
from . import sym
from .sym import PathCut


def rval(v):
    if isinstance(v, SymReal):
        return v.e
    from .values import SymFloat, SymInt, SymNum, frac
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return z3.RealVal(v)
    if isinstance(v, float):
        if v != v or v in (math.inf, -math.inf):
            return None
        f = frac(v)
        return z3.RealVal("%d/%d" % (f.numerator, f.denominator))
    return None


_rc = {}


def rcond(e):
    e = z3.simplify(e, som=True)
    if z3.is_true(e):
        return sym.TRUE
    if z3.is_false(e):
        return sym.FALSE
    k = e.get_id()
    c = _rc.get(k)
    if c is None:
        c = sym.mk_cond("real", (e, k))
        _rc[k] = c
    return c


# Rational functions: polynomials are {monomial: coefficient}, a monomial a tuple of (variable, exponent). sin^2 of a named
# angle is rewritten to 1 - cos^2, so equal functions have equal numerators after cross-multiplication.
_vars = {}
MAXTERMS = 3000


def _reduce(p):
    out = {}
    todo = list(p.items())
    while todo:
        m, k = todo.pop()
        for i, (v, e) in enumerate(m):
            if e >= 2 and v.startswith("sin!"):
                rest = m[:i] + ((v, e - 2),) * (e > 2) + m[i + 1:]
                todo.append((rest, k))
                todo.append((_mmul(rest, (("cos!" + v[4:], 2),)), -k))
                break
        else:
            n = out.get(m, 0) + k
            if n:
                out[m] = n
            else:
                out.pop(m, None)
    return out


def _mmul(a, b):
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def padd(a, b, k=1):
    out = dict(a)
    for m, c in b.items():
        n = out.get(m, 0) + k * c
        if n:
            out[m] = n
        else:
            out.pop(m, None)
    return out


def pmul(a, b):
    out = {}
    for m, c in a.items():
        for n, d in b.items():
            q = _mmul(m, n)
            out[q] = out.get(q, 0) + c * d
    return _reduce(out)


def _norm(n, d):
    """cancel common monomial factors and a constant denominator"""
    if not n:
        return {}, {(): Fraction(1)}
    if n == d:
        return {(): Fraction(1)}, {(): Fraction(1)}
    if len(d) == 1:
        (m, c), = d.items()
        cut = dict(m)
        for q in n:
            dq = dict(q)
            for v in list(cut):
                cut[v] = min(cut[v], dq.get(v, 0))
                if not cut[v]:
                    del cut[v]
            if not cut:
                break

        def sub(q):
            return tuple((v, e - cut.get(v, 0)) for v, e in q if e > cut.get(v, 0))
        return {sub(q): k / c for q, k in n.items()}, {sub(m): Fraction(1)}
    return n, d


def _fn(a, b, op):
    if a is None or b is None:
        return None
    (n1, d1), (n2, d2) = a, b
    if len(n1) * len(n2) > MAXTERMS * 20:
        return None
    if op == "*":
        if n1 == d2:
            r = n2, d1
        elif n2 == d1:
            r = n1, d2
        else:
            r = pmul(n1, n2), pmul(d1, d2)
    elif op == "/":
        r = pmul(n1, d2), pmul(d1, n2)
        if not r[1]:
            return None
    else:
        k = 1 if op == "+" else -1
        if d1 == d2:
            r = padd(n1, n2, k), d1
        else:
            r = padd(pmul(n1, d2), pmul(n2, d1), k), pmul(d1, d2)
    if len(r[0]) > MAXTERMS or len(r[1]) > MAXTERMS:
        return None
    return _norm(*r)


def rfun(v):
    if isinstance(v, SymReal):
        return v.f
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, (int, float)):
        from .values import frac
        q = Fraction(v) if isinstance(v, int) else frac(v)
        return ({(): Fraction(q)} if q else {}), {(): Fraction(1)}
    return None


def poly_z3(p):
    t = []
    for m, c in p.items():
        fs = [z3.RealVal("%d/%d" % (c.numerator, c.denominator))] if c != 1 or not m else []
        for v, e in m:
            fs.extend([z3.Real(v)] * e)
        t.append(z3.Product(*fs) if len(fs) > 1 else fs[0])
    return z3.Sum(*t) if len(t) > 1 else t[0] if t else z3.RealVal(0)


class SymReal:
    __slots__ = ("e", "ang", "f")

    def __init__(self, e, ang=None, f=None):
        self.e = e
        self.ang = ang  # (cos, sin, factor) if the value is a named angle in degrees times factor
        if f is None and z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            f = {((e.decl().name(), 1),): Fraction(1)}, {(): Fraction(1)}
        self.f = f

    def __repr__(self):
        return "<symreal>"

    def _b(self, o, f, op, rev=False):
        r = rval(o)
        if r is None:
            return NotImplemented
        g = _fn(rfun(o), self.f, op) if rev else _fn(self.f, rfun(o), op)
        if g is not None:
            n, d = g
            if not n:
                return 0.0
            e = poly_z3(n)
            if d != {(): Fraction(1)}:
                e = e / poly_z3(d)
            return SymReal(e, None, g)
        return SymReal(z3.simplify(f(self.e, r)))

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b, "+")

    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b, "-")

    def __rsub__(self, o):
        return self._b(o, lambda a, b: b - a, "-", True)

    def __mul__(self, o):
        r = self._b(o, lambda a, b: a * b, "*")
        if self.ang is not None and isinstance(o, (int, float)) and isinstance(r, SymReal):
            r.ang = (self.ang[0], self.ang[1], self.ang[2] * o)
        return r

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, SymReal):
            if bool(o == 0):
                raise ZeroDivisionError("float division by zero")
        elif o == 0:
            raise ZeroDivisionError("float division by zero")
        r = self._b(o, lambda a, b: a / b, "/")
        if self.ang is not None and isinstance(o, (int, float)) and isinstance(r, SymReal):
            r.ang = (self.ang[0], self.ang[1], self.ang[2] / o)
        return r

    def __rtruediv__(self, o):
        if bool(self == 0):
            raise ZeroDivisionError("float division by zero")
        return self._b(o, lambda a, b: b / a, "/", True)

    def __neg__(self):
        return SymReal(-self.e, None if self.ang is None else (self.ang[0], self.ang[1], -self.ang[2]),
                       None if self.f is None else ({m: -k for m, k in self.f[0].items()}, self.f[1]))

    def __pos__(self):
        return self

    def __abs__(self):
        return SymReal(z3.If(self.e < 0, -self.e, self.e))

    def __pow__(self, n):
        if isinstance(n, int) and 0 <= n <= 4:
            r = 1
            for _ in range(n):
                r = self * r
            return r
        raise PathCut("power of a real")

    def _c(self, o, f):
        r = rval(o)
        if r is None:
            return NotImplemented
        from .values import mkb
        return mkb(rcond(f(self.e, r)))

    def __eq__(self, o):
        d = self - o if isinstance(o, (int, float, SymReal)) else NotImplemented
        if isinstance(d, float):
            return True
        if isinstance(d, SymReal) and d.f is not None:
            n = d.f[0]
            if set(n) == {()}:
                return False
            from .values import mkb
            return mkb(rcond(poly_z3(n) == 0))
        r = self._c(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        from .values import not_
        return not_(self == o)

    def _ord(self, o, f, below):
        if isinstance(o, float) and o in (math.inf, -math.inf):
            return below == (o > 0)
        return self._c(o, f)

    def __lt__(self, o):
        return self._ord(o, lambda a, b: a < b, True)

    def __le__(self, o):
        return self._ord(o, lambda a, b: a <= b, True)

    def __gt__(self, o):
        return self._ord(o, lambda a, b: a > b, False)

    def __ge__(self, o):
        return self._ord(o, lambda a, b: a >= b, False)

    def __hash__(self):
        raise PathCut("hash of a real")

    def __float__(self):
        raise PathCut("float() of a real")

    __int__ = __index__ = __round__ = __floor__ = __ceil__ = __trunc__ = __float__

    def __bool__(self):
        r = self != 0
        return bool(r)


def real_ite(c, a, b):
    x, y = rval(a), rval(b)
    if x is None or y is None:
        raise sym.Abort()
    return SymReal(z3.If(sym.zcond(c), x, y))


_aux = {}


def rsqrt(x):
    """the square root of a number known not to be negative (sums of squares)"""
    k = ("sqrt", x.e.get_id())
    if k not in _aux:
        _aux[k] = (x, z3.Real("sqrt!%d" % len(_aux)))
    r = _aux[k][1]
    sym.CUR.assume(rcond(z3.And(r >= 0, r * r == x.e)))
    return SymReal(r)


def ratan2(y, x):
    """the angle of a direction: its cosine c and sine s have c*L = x, s*L = y for the length L (0 for no direction)"""
    y, x = rval(y), rval(x)
    k = ("atan2", y.get_id(), x.get_id())
    if k not in _aux:
        n = len(_aux)
        _aux[k] = (y, x, [z3.Real("%s!%d" % (a, n)) for a in ("cosd", "sind", "len", "rad")])
    c, s, l, a = _aux[k][2]
    sym.CUR.assume(rcond(z3.And(c * c + s * s == 1, l >= 0, c * l == x, s * l == y, z3.Implies(l == 0, c == 1))))
    return SymReal(a, (c, s, math.pi / 180))


def angle(name):
    """an arbitrary angle in degrees: its cosine and sine are an arbitrary point of the unit circle"""
    c, s = z3.Real("cos!" + name), z3.Real("sin!" + name)
    return SymReal(z3.Real("deg!" + name), (c, s, 1))


def mathfn(name, *a):
    x = a[0]
    if name == "atan2":
        return ratan2(*a)
    if name == "radians":
        return x * (math.pi / 180)
    if name == "degrees":
        return x * (180 / math.pi)
    if name in ("cos", "sin", "tan") and x.ang is not None:
        c, s, f = x.ang
        k = f / (math.pi / 180)
        if abs(abs(k) - 1) < 1e-9:  # in radians
            if k < 0:
                s = -s
            return SymReal(c) if name == "cos" else SymReal(s) if name == "sin" else SymReal(s) / SymReal(c)
    raise PathCut("math.%s of a real" % name)
