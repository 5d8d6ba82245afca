"""Symbolic values and the path explorer.

Integers are linear forms  const + sum(coeff * atom)  over hash-consed atoms, every one with a sound interval.
They denote mathematical integers (Python ints never wrap); the translation to SMT uses bit-vectors wide enough
that no operation can overflow, the width being computed from the intervals.
Floats that depend on inputs are exact rationals (integer linear form / positive constant denominator).
"""
from fractions import Fraction
from math import gcd
import hashlib
import time
import math
import z3

INF = float("inf")


class Abort(BaseException):
    """speculative (merged) evaluation is impossible here: fork instead"""


class PathDead(BaseException):
    """the path condition is unsatisfiable (an assumption failed)"""


class PathCut(BaseException):
    """the path was given up (bound or unsupported operation): inconclusive"""


class StopPath(BaseException):
    """the harness is done with this path"""


# ------------------------------------------------------------------ expression DAG

class Atom:
    __slots__ = ("op", "args", "lo", "hi", "id", "z", "zi")


class Lin:
    __slots__ = ("c", "t", "lo", "hi", "id", "z", "zi")


class Cond:
    __slots__ = ("op", "args", "id", "z", "zi", "neg")


_atoms = {}
_lins = {}
_conds = {}
_hexd = {}      # formatted hexadecimal digit -> its value


def reset_tables():
    _atoms.clear()
    _lins.clear()
    _lemmas.clear()
    _bylemma.clear()
    _nests.clear()
    _conds.clear()
    _hexd.clear()
    _cvars.clear()
    _init_consts()


def _u(n):
    """injective map of ints to non-negative ints (hash(-1) == hash(-2) in CPython)"""
    return 2 * n if n >= 0 else -2 * n - 1


_opc = {}


def _op(s):
    v = _opc.get(s)
    if v is None:
        v = _opc[s] = int.from_bytes(hashlib.blake2b(s.encode(), digest_size=7).digest(), "big")
    return v


def _sid(tag, *parts):
    """structural identity: the same in every process and on every re-execution, so that orderings are repeatable"""
    return hash((_op(tag),) + parts)


def mk_atom(op, args, lo, hi):
    k = (op,) + args
    a = _atoms.get(k)
    if a is None:
        a = Atom()
        a.op, a.args, a.lo, a.hi, a.z, a.zi = op, args, lo, hi, None, None
        a.id = _sid(op, *[_u(x) if isinstance(x, int) else _op("s" + x) if isinstance(x, str) else x.id for x in args])
        _atoms[k] = a
    return a


def mk_lin(c, terms):
    """terms: dict atom -> coeff (nonzero)"""
    t = tuple(sorted(((a, k) for a, k in terms.items() if k), key=lambda p: p[0].id))
    key = (c,) + tuple((a.id, k) for a, k in t)
    l = _lins.get(key)
    if l is None:
        l = Lin()
        lo = hi = c
        for a, k in t:
            if k > 0:
                lo += k * a.lo
                hi += k * a.hi
            else:
                lo += k * a.hi
                hi += k * a.lo
        l.c, l.t, l.lo, l.hi, l.z, l.zi = c, t, lo, hi, None, None
        l.id = _sid("lin", _u(c), *[x for a, k in t for x in (a.id, _u(k))])
        if len(t) > 1:
            _refine(l)
        _lins[key] = l
    return l


_nests = {}


def _nest(a):
    """depth of if-then-else terms inside if-then-else values (structural)"""
    r = _nests.get(a.id)
    if r is None:
        r = 1 + max([0] + [_nest(b) for b, _ in a.args[1].t if b.op == "ite"])
        n = sum(1 for b, _ in a.args[1].t if b.op == "ite")
        if n > 1:
            r += 1
        _nests[a.id] = r
    return r


class _plain:
    """a sum that is only an intermediate result: no interval of its own"""

    def __init__(self, c, t):
        self.c, self.t = c, tuple(t.items())


def _refine(l):
    """tighter interval from the shape alone (never from what happened before, so that re-execution is repeatable):
    K*floor(r/m) with |K| dividing m is +-(floor(r/(m/|K|)) - rem); an if-then-else term is one of two sums"""
    n = sum(1 for a, k in l.t if a.op == "ite" or a.op == "fdiv")
    if n > 4:
        # only the terms that cancel against another one; the rest would be exponential work
        for a, k in l.t:
            if a.op == "fdiv":
                r, m = a.args
                ak = abs(k)
                s = 1 if k > 0 else -1
                b0, j0 = r.t[0]
                kk = dict(l.t).get(b0, 0)
                if ak % m == 0 and kk == -s * (ak // m) * j0:
                    rest = ladd(_plain(l.c, {b: j for b, j in l.t if b is not a}), r, k // m)
                    rem = (ak // m) * (m - 1)
                    lo, hi = (rest.lo - rem, rest.hi) if s > 0 else (rest.lo, rest.hi + rem)
                    l.lo, l.hi = max(l.lo, lo), min(l.hi, hi)
            elif a.op == "b2i" and a.args[0].op == "le0":
                s = _sides(l, a, k)
                if s is not None:
                    l.lo, l.hi = max(l.lo, min(x for x, y in s)), min(l.hi, max(y for x, y in s))
        return
    for a, k in l.t:
        if a.op == "fdiv":
            r, m = a.args
            ak = abs(k)
            if ak > 1 and m % ak == 0:
                s = 1 if k > 0 else -1
                d = {b: j for b, j in l.t if b is not a}
                rest = ladd(mk_lin(l.c, d), lfdiv(r, m // ak), s)
                rem = ak - 1
            elif ak > m and ak % m == 0:
                s = 1 if k > 0 else -1
                d = {b: j for b, j in l.t if b is not a}
                rest = ladd(mk_lin(l.c, d), r, k // m)
                rem = (ak // m) * (m - 1)
            else:
                continue
            lo, hi = (rest.lo - rem, rest.hi) if s > 0 else (rest.lo, rest.hi + rem)
        elif a.op == "ite" and len(l.t) < 12 and _nest(a) <= 2:
            d = {b: j for b, j in l.t if b is not a}
            rest = mk_lin(l.c, d)
            other = ladd(rest, a.args[1], k)
            lo, hi = min(rest.lo, other.lo), max(rest.hi, other.hi)
        elif a.op == "b2i" and a.args[0].op == "le0":
            s = _sides(l, a, k)
            if s is None:
                continue
            lo, hi = min(x for x, y in s), max(y for x, y in s)
        else:
            continue
        if lo > l.lo:
            l.lo = lo
        if hi < l.hi:
            l.hi = hi


def lconst(v):
    return mk_lin(v, {})


def latom(a):
    return mk_lin(0, {a: 1})


def ladd(x, y, ky=1):
    if not y.t:
        if not y.c:
            return x
        d = {a: k for a, k in x.t}
        return mk_lin(x.c + ky * y.c, d)
    d = {a: k for a, k in x.t}
    for a, k in y.t:
        d[a] = d.get(a, 0) + ky * k
    r = mk_lin(x.c + ky * y.c, d)
    return r


def lscale(x, k):
    if k == 1:
        return x
    if k == 0:
        return lconst(0)
    return mk_lin(x.c * k, {a: q * k for a, q in x.t})


def lvar(name, lo, hi):
    if lo == hi:
        return lconst(lo)
    a = mk_atom("var", (name,), lo, hi)
    if (a.lo, a.hi) != (lo, hi):
        raise SystemError("input %s has range %d..%d on one path and %d..%d on another" % (name, a.lo, a.hi, lo, hi))
    return latom(a)


def lfdiv(x, m):
    """floor(x / m), m a positive int constant"""
    if m == 1:
        return x
    if not x.t:
        return lconst(x.c // m)
    if x.lo // m == x.hi // m:
        return lconst(x.lo // m)
    if len(x.t) == 1 and x.t[0][0].op == "b2i":
        a, k = x.t[0]
        return mk_lin(x.c // m, {a: (x.c + k) // m - x.c // m})
    q = {}
    r = {}
    for a, k in x.t:
        if k % m == 0:
            q[a] = k // m
        else:
            # split big coefficients: k = (k//m)*m + k%m keeps the residual small
            kq, kr = divmod(k, m)
            if abs(k) > m:
                q[a] = kq
                r[a] = kr
            else:
                r[a] = k
    qc, rc = divmod(x.c, m)
    ql = mk_lin(qc, q)
    if not r:
        return ql
    rl = mk_lin(rc, r)
    if rl.lo // m == rl.hi // m:
        return ladd(ql, lconst(rl.lo // m))
    # common factor
    g = m
    for a, k in rl.t:
        g = gcd(g, k)
    if g > 1:
        rl = mk_lin(rl.c // g, {a: k // g for a, k in rl.t})
        m2 = m // g
    else:
        m2 = m
    if m2 == 1:
        res = ladd(ql, rl)
    else:
        if len(rl.t) == 1 and rl.t[0][1] == 1 and rl.t[0][0].op == "fdiv" and rl.c == 0:
            a = rl.t[0][0]
            inner, m1 = a.args
            return ladd(ql, lfdiv(inner, m1 * m2))
        if rl.lo // m2 == rl.hi // m2:
            res = ladd(ql, lconst(rl.lo // m2))
        else:
            if rl.lo // m2 == -1 and rl.hi // m2 == 0:
                at = lscale(lite(cle0(ladd(rl, lconst(1))), lconst(1), lconst(0)), -1)
            else:
                at = latom(mk_atom("fdiv", (rl, m2), rl.lo // m2, rl.hi // m2))
            res = ladd(ql, at)
    return res


def lmod(x, m):
    if m == 1:
        return lconst(0)
    if not x.t:
        return lconst(x.c % m)
    q = lfdiv(x, m)
    return ladd(x, q, -m)


def lmask(x, mask):
    """x & mask, mask an int constant"""
    if not x.t:
        return lconst(x.c & mask)
    if mask == 0:
        return lconst(0)
    if mask == -1:
        return x
    if mask < 0:
        return ladd(x, lmask(x, ~mask), -1)
    res = lconst(0)
    pos = 0
    mm = mask
    if x.lo >= 0:
        # drop mask bits beyond x
        bl = x.hi.bit_length()
        mm &= (1 << bl) - 1
        if mm == (1 << bl) - 1:
            return x
        if mm == 0:
            return lconst(0)
    mask = mm
    while mm:
        while not mm & 1:
            mm >>= 1
            pos += 1
        st = pos
        while mm & 1:
            mm >>= 1
            pos += 1
        part = lmod(lfdiv(x, 1 << st), 1 << (pos - st))
        res = ladd(res, lscale(part, 1 << st))
    if res.lo < 0 or res.hi > mask:
        return latom(mk_atom("and", (x, lconst(mask)), 0, mask))
    return res


def _lowzeros(x):
    """largest k such that 2^k divides x for every value (64 if x == 0)"""
    g = x.c
    for a, k in x.t:
        g = gcd(g, k)
    if g == 0:
        return 64
    g = abs(g)
    return (g & -g).bit_length() - 1


def land(x, y):
    if not x.t:
        return lmask(y, x.c)
    if not y.t:
        return lmask(x, y.c)
    if x is y:
        return x
    if x.id > y.id:
        x, y = y, x
    for p, q in ((x, y), (y, x)):
        if q.lo >= 0 and q.hi < (1 << _lowzeros(p)):
            return lconst(0)
        k = _lowzeros(mk_lin(0, dict(p.t)))
        if q.lo >= 0 and q.hi < (1 << k):
            return lmask(q, p.c % (1 << k))  # the low bits of p are known
    w = max(_bits(x.lo, x.hi), _bits(y.lo, y.hi))
    lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    if x.lo >= 0:
        lo, hi = 0, x.hi
    if y.lo >= 0:
        lo, hi = 0, min(hi, y.hi)
    return latom(mk_atom("and", (x, y), lo, hi))


def lor(x, y):
    return ladd(ladd(x, y), land(x, y), -1)


def lxor(x, y):
    return ladd(ladd(x, y), land(x, y), -2)


def _content(x):
    g = math.gcd(x.c, *(k for _, k in x.t))
    if x.t[0][1] < 0:
        g = -g
    return (x, 1) if g == 1 else (mk_lin(x.c // g, {a: k // g for a, k in x.t}), g)


_squares = {}
_sq_of = {}


def lmul(x, y):
    if not x.t:
        return lscale(y, x.c)
    if not y.t:
        return lscale(x, y.c)
    # factor out constants
    x, i = _content(x)
    y, j = _content(y)
    if i * j != 1:
        return lscale(lmul(x, y), i * j)
    if x.id > y.id:
        x, y = y, x
    # distribute over small forms to keep products canonical
    if len(x.t) * len(y.t) <= 16:
        res = lconst(x.c * y.c)
        for a, k in x.t:
            if y.c:
                res = ladd(res, mk_lin(0, {a: k * y.c}))
            for b, j in y.t:
                res = ladd(res, mk_lin(0, {_prod(a, b): k * j}))
        for b, j in y.t:
            if x.c:
                res = ladd(res, mk_lin(0, {b: j * x.c}))
        if x is y and len(x.t) > 1 and x.id not in _squares:
            _squares[x.id] = (res, x)
            for m, k in res.t:
                if m.op == "mul" and m.args[0] is not m.args[1]:
                    _sq_of.setdefault(m.id, []).append((res, x))
    else:
        res = latom(_prodl(x, y))
    return res


def _factors(a):
    if a.op != "mul":
        return [a]
    fs = []
    for l in a.args:
        if l.c or len(l.t) != 1 or l.t[0][1] != 1:
            return [a]
        fs += _factors(l.t[0][0])
    return fs


def _prod(a, b):
    fs = _factors(a) + _factors(b)
    if len(fs) > 2:
        # one form for a monomial: single factors, then squares
        fs.sort(key=lambda f: f.id)
        single, squares, i = [], [], 0
        while i < len(fs):
            if i + 1 < len(fs) and fs[i] is fs[i + 1]:
                squares.append(_prodl(latom(fs[i]), latom(fs[i])))
                i += 2
            else:
                single.append(fs[i])
                i += 1
        fs = single + squares
        r = fs[0]
        for f in fs[1:]:
            x, y = latom(r), latom(f)
            r = _prodl(x, y) if x.id <= y.id else _prodl(y, x)
        return r
    if a.id > b.id:
        a, b = b, a
    return _prodl(latom(a), latom(b))


def _prodl(x, y):
    cs = (x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi)
    lo, hi = min(cs), max(cs)
    if x is y:
        lo = max(lo, 0)
    return mk_atom("mul", (x, y), lo, hi)


def lite(c, x, y):
    if c is TRUE or x is y:
        return x
    if c is FALSE:
        return y
    if c.op == "not":
        c, x, y = c.args[0], y, x
    d = ladd(x, y, -1)
    if not d.t:
        r = ladd(y, mk_lin(0, {mk_atom("b2i", (c,), 0, 1): d.c}))
    else:
        r = ladd(y, latom(mk_atom("ite", (c, d), min(0, d.lo), max(0, d.hi))))
        if c.op == "le0" and _minmax(c.args[0], d) and any(_nest(a) > 1 if a.op == "ite" else a.op == "def" for a, _ in d.t + y.t):
            # an extreme of extremes: one opaque term, so that sums with it stay small
            r = latom(mk_atom("def", (r,), r.lo, r.hi))
    return r


def _minmax(l, d):
    """is the condition l <= 0 a comparison of the two values whose difference is d"""
    return len(l.t) == len(d.t) and (all(p == q for p, q in zip(l.t, d.t)) or
                                     all(p[0] is q[0] and p[1] == -q[1] for p, q in zip(l.t, d.t)))


def labs(x):
    if x.lo >= 0:
        return x
    if x.hi <= 0:
        return lscale(x, -1)
    if x.t[0][1] < 0:
        x = lscale(x, -1)
    return latom(mk_atom("abs", (x,), 0, max(-x.lo, x.hi)))


# ---- conditions

def mk_cond(op, args):
    k = (op,) + args
    c = _conds.get(k)
    if c is None:
        c = Cond()
        c.op, c.args, c.z, c.zi, c.neg = op, args, None, None, None
        if op == "real":
            c.id = _sid("real", _op(args[0].sexpr()))
        else:
            c.id = _sid(op, *[x.id for x in args])
        _conds[k] = c
    return c


TRUE = FALSE = None


def _init_consts():
    global TRUE, FALSE
    TRUE = mk_cond("true", ())
    FALSE = mk_cond("false", ())
    TRUE.neg = FALSE
    FALSE.neg = TRUE


_init_consts()


def cnot(c):
    if c.neg is not None:
        return c.neg
    if c.op == "not":
        return c.args[0]
    n = mk_cond("not", (c,))
    c.neg = n
    n.neg = c
    return n


def cand(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    if cnot(a) is b:
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk_cond("and", (a, b))


def cor(a, b):
    return cnot(cand(cnot(a), cnot(b)))


def cle0(l):
    """l <= 0"""
    if l.hi <= 0:
        return TRUE
    if l.lo > 0:
        return FALSE
    g = 0
    for a, k in l.t:
        g = gcd(g, k)
    if g > 1:
        # g*s + c <= 0  <=>  s + ceil(c/g) <= 0
        l = mk_lin(-((-l.c) // g), {a: k // g for a, k in l.t})
        if l.hi <= 0:
            return TRUE
        if l.lo > 0:
            return FALSE
    if len(l.t) == 1 and l.t[0][0].op == "b2i":
        a, k = l.t[0]
        v0, v1 = l.c <= 0, l.c + k <= 0
        if v0 and v1:
            return TRUE
        if not v0 and not v1:
            return FALSE
        return a.args[0] if v1 else cnot(a.args[0])
    for a, k in l.t:
        if a.op == "b2i" and a.args[0].op == "le0":
            r = _sign_split(l, a, k)
            if r is not None:
                return r
    # canonical orientation: l <= 0 or not(-l+1 <= 0)
    if l.t[0][1] < 0:
        n = mk_lin(1 - l.c, {a: -k for a, k in l.t})
        return cnot(_le_raw(n))
    return _le_raw(l)


def _sides(l, a, k):
    """ranges of l = f*X + k*[T + mc <= 0] + c, X being T or floor((g*T + rc)/m1), where the bracket holds and where it does
    not; None if not of that form"""
    m = a.args[0].args[0]
    t = {b: j for b, j in l.t if b is not a}
    if len(t) == 1 and len(m.t) >= 1 and next(iter(t)).op == "fdiv" and not (len(m.t) == 1 and m.t[0][0] in t):
        q = next(iter(t))
        f = t[q]
        r, m1 = q.args
        rc, t = r.c, dict(r.t)
    else:
        q = None
    if len(m.t) != len(t):
        return None
    b0, j0 = m.t[0]
    g, r = divmod(t.get(b0, 0), j0)
    if r or not g or any(t.get(b) != g * j for b, j in m.t):
        return None
    lo, hi = m.lo - m.c, m.hi - m.c
    res = []
    for extra, x, y in ((k, lo, min(hi, -m.c)), (0, max(lo, 1 - m.c), hi)):
        x, y = sorted((g * x, g * y))
        if q is not None:
            x, y = sorted((f * ((x + rc) // m1), f * ((y + rc) // m1)))
        res.append((l.c + extra + x, l.c + extra + y))
    return res


def _sign_split(l, a, k):
    """l <= 0 decided on either side of its bracket, or None"""
    s = _sides(l, a, k)
    if s is None or any(x <= 0 < y for x, y in s):
        return None
    r = [y <= 0 for x, y in s]
    c = a.args[0]
    if r[0] == r[1]:
        return TRUE if r[0] else FALSE
    return c if r[0] else cnot(c)


def _le_raw(l):
    return mk_cond("le0", (l,))


def ceq0(l):
    if not l.t:
        return TRUE if l.c == 0 else FALSE
    if l.lo > 0 or l.hi < 0:
        return FALSE
    g = 0
    for a, k in l.t:
        g = gcd(g, k)
    if g > 1:
        if l.c % g:
            return FALSE
        l = mk_lin(l.c // g, {a: k // g for a, k in l.t})
    if len(l.t) == 1:
        a, k = l.t[0]
        if a.op == "b2i":
            if l.c == 0:
                return cnot(a.args[0])
            if l.c + k == 0:
                return a.args[0]
            return FALSE
        if l.lo == 0:
            return cle0(l)
        if l.hi == 0:
            return cle0(lscale(l, -1))
    if l.t[0][1] < 0:
        l = lscale(l, -1)
    return mk_cond("eq0", (l,))


# ------------------------------------------------------------------ translation to z3 bit-vectors

def _bits(lo, hi):
    """bits of a signed bit-vector holding [lo, hi]"""
    b = 1
    if hi > 0:
        b = max(b, hi.bit_length() + 1)
    if lo < 0:
        b = max(b, (-lo - 1).bit_length() + 1)
    return b


def _ext(e, w):
    n = e.size()
    if n == w:
        return e
    if n < w:
        return z3.SignExt(w - n, e)
    return z3.Extract(w - 1, 0, e)


def zlin(l):
    if l.z is not None:
        return l.z
    m = abs(l.c)
    for a, k in l.t:
        m += abs(k) * max(abs(a.lo), abs(a.hi))
    w = _bits(-m, m)
    e = None
    for a, k in l.t:
        x = _ext(zatom(a), w)
        if k == 1:
            pass
        elif k == -1:
            x = -x
        elif k & (k - 1) == 0:
            x = x << (k.bit_length() - 1)
        elif k < 0 and (-k) & (-k - 1) == 0:
            x = -(x << ((-k).bit_length() - 1))
        else:
            x = x * z3.BitVecVal(k, w)
        e = x if e is None else e + x
    if l.c or e is None:
        cc = z3.BitVecVal(l.c, w)
        e = cc if e is None else e + cc
    nw = _bits(l.lo, l.hi)
    if nw < w:
        e = z3.Extract(nw - 1, 0, e)
    l.z = e
    return e


def zatom(a):
    if a.z is not None:
        return a.z
    op = a.op
    if op == "var":
        e = z3.BitVec("v!" + a.args[0], _bits(a.lo, a.hi))
    elif op == "fdiv":
        l, m = a.args
        e = zlin(l)
        if m & (m - 1) == 0:
            k = m.bit_length() - 1
            n = e.size()
            if k >= n:
                e = _ext(z3.Extract(n - 1, n - 1, e), _bits(a.lo, a.hi))
            else:
                e = z3.Extract(n - 1, k, e)
                e = _ext(e, _bits(a.lo, a.hi))
        else:
            kk = -(l.lo // m) if l.lo < 0 else 0
            w = _bits(min(l.lo, -kk - 1), l.hi + kk * m + m)
            e = _ext(e, w)
            if kk:
                e = e + z3.BitVecVal(kk * m, w)
            e = z3.UDiv(e, z3.BitVecVal(m, w))
            if kk:
                e = e - z3.BitVecVal(kk, w)
            e = _ext(e, _bits(a.lo, a.hi))
    elif op == "mul":
        x, y = a.args
        w = _bits(a.lo, a.hi)
        e = _ext(zlin(x), w) * _ext(zlin(y), w)
    elif op == "and":
        x, y = a.args
        w = max(_bits(x.lo, x.hi), _bits(y.lo, y.hi))
        e = _ext(_ext(zlin(x), w) & _ext(zlin(y), w), _bits(a.lo, a.hi))
    elif op == "def":
        e = zlin(a.args[0])
    elif op == "b2i":
        e = z3.If(zcond(a.args[0]), z3.BitVecVal(1, 2), z3.BitVecVal(0, 2))
    elif op == "abs":
        w = _bits(min(a.args[0].lo, 0), a.hi)
        e = _ext(zlin(a.args[0]), w)
        e = _ext(z3.If(e < 0, -e, e), _bits(a.lo, a.hi))
    elif op == "ite":
        c, d = a.args
        w = _bits(a.lo, a.hi)
        e = z3.If(zcond(c), _ext(zlin(d), w), z3.BitVecVal(0, w))
    else:
        raise AssertionError(op)
    a.z = e
    return e


def zcond(c):
    if c.z is not None:
        return c.z
    op = c.op
    if op == "true":
        e = z3.BoolVal(True)
    elif op == "false":
        e = z3.BoolVal(False)
    elif op == "not":
        e = z3.Not(zcond(c.args[0]))
    elif op == "and":
        e = z3.And(zcond(c.args[0]), zcond(c.args[1]))
    elif op == "le0":
        x = zlin(c.args[0])
        e = x <= z3.BitVecVal(0, x.size())
    elif op == "eq0":
        x = zlin(c.args[0])
        e = x == z3.BitVecVal(0, x.size())
    elif op == "real":
        e = c.args[0]
    else:
        raise AssertionError(op)
    c.z = e
    return e


# ------------------------------------------------------------------ translation to z3 integers (linear)

def ilin(l):
    if l.zi is not None:
        return l.zi
    ts = [iatom(a) if k == 1 else z3.IntVal(k) * iatom(a) for a, k in l.t]
    if l.c or not ts:
        ts.append(z3.IntVal(l.c))
    e = ts[0] if len(ts) == 1 else z3.Sum(ts)
    l.zi = e
    return e


def iatom(a):
    if a.zi is not None:
        return a.zi
    op = a.op
    if op == "var":
        e = z3.Int("i!" + a.args[0])
    elif op == "fdiv":
        e = ilin(a.args[0]) / z3.IntVal(a.args[1])
    elif op == "abs":
        x = ilin(a.args[0])
        e = z3.If(x < 0, -x, x)
    elif op == "def":
        e = ilin(a.args[0])
    elif op == "b2i":
        e = z3.If(icond(a.args[0]), z3.IntVal(1), z3.IntVal(0))
    elif op == "ite":
        e = z3.If(icond(a.args[0]), ilin(a.args[1]), z3.IntVal(0))
    elif op == "mul" or (op == "and" and a.args[0].t and a.args[1].t):
        e = z3.Int("n!%d" % a.id)
    elif op == "and":
        x, y = a.args
        mask = x.c if not x.t else y.c
        x = y if not x.t else x
        assert not (a.args[0].t and a.args[1].t)
        res = lconst(0)
        pos = 0
        mm = mask
        while mm:
            while not mm & 1:
                mm >>= 1
                pos += 1
            st = pos
            while mm & 1:
                mm >>= 1
                pos += 1
            res = ladd(res, lscale(lmod(lfdiv(x, 1 << st), 1 << (pos - st)), 1 << st))
        e = ilin(res)
    else:
        raise AssertionError(op)
    a.zi = e
    return e


def icond(c):
    if c.zi is not None:
        return c.zi
    op = c.op
    if op == "true":
        e = z3.BoolVal(True)
    elif op == "false":
        e = z3.BoolVal(False)
    elif op == "not":
        e = z3.Not(icond(c.args[0]))
    elif op == "and":
        e = z3.And(icond(c.args[0]), icond(c.args[1]))
    elif op == "le0":
        l = c.args[0]
        e = ilin(mk_lin(0, {a: k for a, k in l.t})) <= z3.IntVal(-l.c)
    elif op == "eq0":
        l = c.args[0]
        e = ilin(mk_lin(0, {a: k for a, k in l.t})) == z3.IntVal(-l.c)
    elif op == "real":
        e = c.args[0]
    else:
        raise AssertionError(op)
    c.zi = e
    return e


def bounds(v):
    """what linear queries know about a variable or a product"""
    z = iatom(v)
    r = [z >= v.lo, z <= v.hi]
    if v.op == "mul":
        x, y = v.args
        p, q = ilin(x), ilin(y)
        if x is y:
            r += [z >= p, z >= -p]
        r += [z >= x.lo * q + y.lo * p - x.lo * y.lo, z >= x.hi * q + y.hi * p - x.hi * y.hi,
              z <= x.lo * q + y.hi * p - x.lo * y.hi, z <= x.hi * q + y.lo * p - x.hi * y.lo]
        for sq, l in _sq_of.get(v.id, ()):
            sq, l = ilin(sq), ilin(l)
            r += [sq >= l, sq >= -l]  # squares of integers
    return r


def vars_of(root, acc, seen):
    st = [root]
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if isinstance(n, Lin):
            st.extend(a for a, _ in n.t)
        elif isinstance(n, Atom):
            if n.op == "var":
                acc.add(n)
            else:
                if n.op == "mul" or (n.op == "and" and n.args[0].t and n.args[1].t):
                    acc.add(n)  # not linear: an unknown of its own in linear queries
                st.extend(x for x in n.args if not isinstance(x, int))
        else:
            if n.op != "real":
                st.extend(n.args)


_cvars = {}


def cond_vars(c):
    r = _cvars.get(c.id)
    if r is None:
        r = set()
        vars_of(c, r, set())
        _cvars[c.id] = r
    return r


def _vars_lin(l, acc, seen):
    r = _cvars.get(l.id)
    if r is None:
        r = set()
        vars_of(l, r, set())
        _cvars[l.id] = r
    acc |= r


def _vset(l):
    acc = set()
    vars_of(l, acc, set())
    return [a for a in acc if a.op == "var"]


def _simple(l):
    for a, _ in l.t:
        if a.op != "var":
            return False
    return True


# ---- lemmas about one-argument integer functions

class _NoSubst(Exception):
    pass


class _Subst:
    """rewrites terms with the linear combination D (dict atom -> coeff) named as one variable d"""

    def __init__(self, D, d):
        self.D, self.d = D, d
        self.memo = {}
        self.first = next(iter(D))

    def lin(self, l):
        r = self.memo.get(l.id)
        if r is not None:
            return r
        t = dict(l.t)
        k = 0
        if self.first in t and t[self.first] % self.D[self.first] == 0:
            k = t[self.first] // self.D[self.first]
            for a, c in self.D.items():
                if t.get(a) != k * c:
                    k = 0
                    break
            if k:
                for a in self.D:
                    del t[a]
        r = lconst(l.c)
        if k:
            r = ladd(r, lscale(self.d, k))
        for a, c in t.items():
            r = ladd(r, self.atom(a), c)
        self.memo[l.id] = r
        return r

    def atom(self, a):
        r = self.memo.get(a.id)
        if r is None:
            r = self.memo[a.id] = self._atom(a)
        return r

    def cond(self, c):
        r = self.memo.get(c.id)
        if r is None:
            r = self.memo[c.id] = self._cond(c)
        return r

    def _atom(self, a):
        op = a.op
        if op == "fdiv":
            return lfdiv(self.lin(a.args[0]), a.args[1])
        if op == "def":
            return self.lin(a.args[0])
        if op == "b2i":
            return lite(self.cond(a.args[0]), lconst(1), lconst(0))
        if op == "ite":
            return lite(self.cond(a.args[0]), self.lin(a.args[1]), lconst(0))
        if op == "abs":
            return labs(self.lin(a.args[0]))
        if op == "and" and not a.args[1].t:
            return lmask(self.lin(a.args[0]), a.args[1].c)
        if op == "and" and not a.args[0].t:
            return lmask(self.lin(a.args[1]), a.args[0].c)
        raise _NoSubst()

    def _cond(self, c):
        op = c.op
        if op == "not":
            return cnot(self.cond(c.args[0]))
        if op == "and":
            return cand(self.cond(c.args[0]), self.cond(c.args[1]))
        if op == "le0":
            return cle0(self.lin(c.args[0]))
        if op == "eq0":
            return ceq0(self.lin(c.args[0]))
        if op in ("true", "false"):
            return c
        raise _NoSubst()


def _arg_candidates(l):
    """linear combinations the non-variable atoms of l may be functions of, most promising first"""
    out = []
    seen = set()

    def add(lin, keep=None):
        d = {a: k for a, k in lin.t if keep is None or a.op in keep}
        if not d:
            return
        if next(iter(sorted(d.items(), key=lambda p: p[0].id)))[1] < 0:
            d = {a: -k for a, k in d.items()}
        g = 0
        for k in d.values():
            g = gcd(g, k)
        if g > 1:
            d = {a: k // g for a, k in d.items()}
        key = frozenset((a.id, k) for a, k in d.items())
        if key not in seen:
            seen.add(key)
            out.append(d)

    full = []
    st = [a for a, _ in l.t if a.op != "var"]
    vis = set()
    n = 0
    while st and n < 60:
        x = st.pop(0)
        if x.id in vis:
            continue
        vis.add(x.id)
        n += 1
        args = [y for y in x.args if not isinstance(y, (int, str))]
        for y in args:
            if isinstance(y, Lin):
                if y.t and all(a.op in ("var",) for a, _ in y.t):
                    add(y, ("var",))
                elif y.t and all(a.op in ("var", "fdiv") for a, _ in y.t):
                    add(y, ("var", "fdiv"))
                elif 2 <= len(y.t) <= 9:
                    full.append(y)
                st.extend(a for a, _ in y.t if a.op != "var")
            else:
                st.append(y)
    out = out[:3]
    full.sort(key=lambda y: (len(y.t), y.id))
    for y in full[:2]:
        add(y)
    return out


_lemmas = {}
_bylemma = {}


def _lemma(g, d, stats):
    """(a, b) with g == a*d + b for every value of d's range, proved by the solver; else None"""
    da = d.t[0][0]
    key = (g.id, da.lo, da.hi)
    if key in _lemmas:
        return _lemmas[key]
    res = None
    if not g.t:
        res = (0, g.c)
    else:
        pts = sorted({da.lo, da.hi, (da.lo + da.hi) // 2, min(da.hi, da.lo + 1), (3 * da.lo + da.hi) // 4, (da.lo + 3 * da.hi) // 4, max(da.lo, min(da.hi, 0))})
        v = [(p, Model({da.args[0]: p}).lin(g)) for p in pts]
        ok = len(v) > 1
        if ok:
            q, r = divmod(v[1][1] - v[0][1], v[1][0] - v[0][0])
            b = v[0][1] - q * v[0][0]
            ok = not r and all(y == q * p + b for p, y in v)
        if ok:
            e = ceq0(ladd(ladd(g, lscale(d, q), -1), lconst(-b)))
            if e is TRUE:
                res = (q, b)
            else:
                t = time.time()
                s = z3.SolverFor("QF_LIA")
                s.set("timeout", 5000)
                s.add(icond(cnot(e)))
                z = iatom(da)
                s.add(z >= da.lo, z <= da.hi)
                r = s.check()
                stats.queries += 1
                stats.lemmas += 1
                stats.solver_s += time.time() - t
                if r == z3.unsat:
                    stats.q_unsat += 1
                    res = (q, b)
                elif r == z3.sat:
                    stats.q_sat += 1
                else:
                    stats.q_unknown += 1
    _lemmas[key] = res
    return res


class Model:
    """values of input variables; evaluation of the DAG under them"""
    __slots__ = ("vals", "memo", "real")

    def __init__(self, vals, real=None):
        self.vals = vals
        self.memo = {}
        self.real = real

    def lin(self, l):
        m = self.memo
        v = m.get(l.id)
        if v is not None:
            return v
        v = l.c
        for a, k in l.t:
            v += k * self.atom(a)
        m[l.id] = v
        return v

    def atom(self, a):
        m = self.memo
        v = m.get(a.id)
        if v is not None:
            return v
        op = a.op
        if op == "var":
            v = self.vals.get(a.args[0])
            if v is None:
                v = min(max(0, a.lo), a.hi)
                self.vals[a.args[0]] = v
        elif op == "fdiv":
            v = self.lin(a.args[0]) // a.args[1]
        elif op == "mul":
            v = self.lin(a.args[0]) * self.lin(a.args[1])
        elif op == "and":
            v = self.lin(a.args[0]) & self.lin(a.args[1])
        elif op == "abs":
            v = abs(self.lin(a.args[0]))
        elif op == "def":
            v = self.lin(a.args[0])
        elif op == "b2i":
            v = 1 if self.cond(a.args[0]) else 0
        elif op == "ite":
            v = self.lin(a.args[1]) if self.cond(a.args[0]) else 0
        m[a.id] = v
        return v

    def cond(self, c):
        m = self.memo
        v = m.get(c.id)
        if v is not None:
            return v
        op = c.op
        if op == "true":
            v = True
        elif op == "false":
            v = False
        elif op == "not":
            v = not self.cond(c.args[0])
        elif op == "and":
            v = self.cond(c.args[0]) and self.cond(c.args[1])
        elif op == "le0":
            v = self.lin(c.args[0]) <= 0
        elif op == "eq0":
            v = self.lin(c.args[0]) == 0
        elif op == "real":
            v = None
            if self.real is not None:
                r = self.real.eval(c.args[0], model_completion=True)
                v = z3.is_true(r)
                if not v and not z3.is_false(r):
                    v = None
            if v is None:
                raise UnknownEval()
        m[c.id] = v
        return v


class UnknownEval(Exception):
    pass


# ------------------------------------------------------------------ the explorer

CUR = None  # the current Explorer path context


class Stats:
    def __init__(self):
        self.paths = 0
        self.dead = 0
        self.cut = 0
        self.forks = 0
        self.queries = 0
        self.bv_queries = 0
        self.q_sat = 0
        self.q_unsat = 0
        self.q_unknown = 0
        self.solver_s = 0.0
        self.checks = 0
        self.checks_static = 0
        self.checks_solver = 0
        self.merges = 0
        self.lemmas = 0
        self.affine = 0
        self.cut_reasons = {}
        self.max_decisions = 0

    def merge(self, o):
        for k, v in o.__dict__.items():
            if isinstance(v, dict):
                d = self.__dict__[k]
                for a, b in v.items():
                    d[a] = d.get(a, 0) + b
            elif k == "max_decisions":
                self.max_decisions = max(self.max_decisions, v)
            else:
                self.__dict__[k] += v


class Explorer:
    """depth-first exploration of all feasible paths of fn(self) by re-execution"""

    def __init__(self, fn, qtimeout_ms=20000, max_decisions=4000, real=False, max_ticks=300000):
        self.fn = fn
        self.real = real
        self.solver = z3.Solver() if real else z3.SolverFor("QF_LIA")
        self.qtimeout_ms = qtimeout_ms
        self.solver.set("timeout", qtimeout_ms if real else min(qtimeout_ms, 6000))
        self.asserted = []
        self.ranged = set()
        self.ranged_at = []
        self.stats = Stats()
        self.max_decisions = max_decisions
        self.max_ticks = max_ticks
        self.spec = 0
        self.violations = []
        self.samples = []
        self.covers = {}
        self.functions = set()
        self.on_path_end = None

    # --- path state
    def begin(self, prefix, model):
        self.prefix = prefix
        self.trail = []
        self.pos = 0
        self.pc = []
        self.known = {}
        self.iv = {}
        self.affs = {}
        self.bnds = {}
        self.model = model
        self.names = {}
        self.ticks = 0
        self.spec = 0
        self.obs = []
        self.path_covers = set()

    # --- solver
    def _sync(self):
        pc, asd = self.pc, self.asserted
        n = 0
        m = min(len(pc), len(asd))
        while n < m and pc[n] is asd[n]:
            n += 1
        if n < len(asd):
            self.solver.pop(len(asd) - n)
            del asd[n:]
            for x in self.ranged_at[n:]:
                self.ranged -= x
            del self.ranged_at[n:]
        for c in pc[n:]:
            self.solver.push()
            self.solver.add(icond(c))
            new = cond_vars(c) - self.ranged
            for v in new:
                self.solver.add(*bounds(v))
                if self.real and v.op == "mul":
                    self.solver.add(iatom(v) == ilin(v.args[0]) * ilin(v.args[1]))
            self.ranged |= new
            asd.append(c)
            self.ranged_at.append(new)

    def query(self, extra, timeout=None):
        """sat? of path condition and extra -> Model, None (unsat) or 'unknown'"""
        t = time.time()
        acc = set()
        for c in self.pc:
            acc |= cond_vars(c)
        acc |= cond_vars(extra)
        st = self.stats
        st.queries += 1
        self._sync()
        self.solver.push()
        self.solver.add(icond(extra))
        for v in acc - self.ranged:
            self.solver.add(*bounds(v))
            if self.real and v.op == "mul":
                self.solver.add(iatom(v) == ilin(v.args[0]) * ilin(v.args[1]))
        if timeout:
            self.solver.set("timeout", timeout)
        r = self.solver.check()
        if timeout:
            self.solver.set("timeout", self.qtimeout_ms if self.real else min(self.qtimeout_ms, 6000))
        if r == z3.sat:
            zm = self.solver.model()
            get = lambda v: zm.eval(iatom(v), model_completion=True).as_long()
        self.solver.pop()
        loose = any(v.op != "var" for v in acc)
        acc = [v for v in acc if v.op == "var"]
        if loose and r == z3.sat and not self.real:
            # products were unknowns of their own: a model counts only if it satisfies the real conditions
            m = Model({v.args[0]: get(v) for v in acc})
            if not (all(m.cond(c) for c in self.pc) and m.cond(extra)):
                r = z3.unknown
        if r == z3.unknown and not self.real and not timeout:
            # second back end: bit-vectors
            bv = z3.SolverFor("QF_BV")
            bv.set("timeout", self.qtimeout_ms)
            for c in self.pc:
                bv.add(zcond(c))
            bv.add(zcond(extra))
            for v in acc:
                z, w = zatom(v), _bits(v.lo, v.hi)
                bv.add(z >= z3.BitVecVal(v.lo, w), z <= z3.BitVecVal(v.hi, w))
            r = bv.check()
            st.bv_queries += 1
            if r == z3.sat:
                zm = bv.model()
                get = lambda v: zm.eval(zatom(v), model_completion=True).as_signed_long()
        res = None
        if r == z3.sat:
            st.q_sat += 1
            vals = {}
            for v in acc:
                vals[v.args[0]] = get(v)
            if self.model is not None:
                for k, x in self.model.vals.items():
                    vals.setdefault(k, x)
            if self.real:
                for d in zm.decls():
                    if d.range().kind() == z3.Z3_REAL_SORT and d.arity() == 0:
                        q = zm[d]
                        if z3.is_algebraic_value(q):
                            q = q.approx(20)
                        vals["real:" + d.name()] = "%s/%s" % (q.numerator_as_long(), q.denominator_as_long())
            res = Model(vals, zm if self.real else None)
        elif r == z3.unsat:
            st.q_unsat += 1
        else:
            st.q_unknown += 1
            res = "unknown"
        st.solver_s += time.time() - t
        return res

    # --- decisions
    def _note(self, c, val):
        """record c == val on the path; refine intervals of single atoms"""
        self.known[c.id] = val
        n = c.neg
        if n is not None:
            self.known[n.id] = not val
        if c.op == "not":
            self._note_raw(c.args[0], not val)
        else:
            self._note_raw(c, val)

    def _note_raw(self, c, val):
        self.known[c.id] = val
        if c.op == "and" and val:
            self._note(c.args[0], True)
            self._note(c.args[1], True)
            return
        if c.op in ("le0", "eq0"):
            l = c.args[0]
            if len(l.t) == 1:
                a, k = l.t[0]
                lo, hi = self.iv.get(a.id, (a.lo, a.hi))
                if c.op == "le0":
                    # k*a + c <= 0 (val)  or  k*a + c >= 1 (not val)
                    if val:
                        if k > 0:
                            hi = min(hi, (-l.c) // k)
                        else:
                            lo = max(lo, -((-l.c) // -k))
                    else:
                        if k > 0:
                            lo = max(lo, -((l.c - 1) // k))
                        else:
                            hi = min(hi, (l.c - 1) // -k)
                elif val:
                    if l.c % k == 0:
                        lo = hi = -l.c // k
                self.iv[a.id] = (lo, hi)

    def interval(self, l):
        iv = self.iv
        lo = hi = l.c
        for a, k in l.t:
            p = iv.get(a.id)
            if p is None:
                alo, ahi = a.lo, a.hi
                if a.op == "fdiv":
                    i = a.args[0]
                    if len(i.t) == 1 and i.t[0][0].id in iv:
                        ilo, ihi = self.interval(i)
                        alo, ahi = max(alo, ilo // a.args[1]), min(ahi, ihi // a.args[1])
                elif a.op == "b2i":
                    q = self.known.get(a.args[0].id)
                    if q is not None:
                        alo = ahi = 1 if q else 0
            else:
                alo, ahi = p
            if k > 0:
                lo += k * alo
                hi += k * ahi
            else:
                lo += k * ahi
                hi += k * alo
        return max(lo, l.lo), min(hi, l.hi)

    def quick(self, c):
        """truth of c on this path if cheaply known, else None"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        v = self.known.get(c.id)
        if v is not None:
            return v
        if c.op == "not":
            v = self.quick(c.args[0])
            return None if v is None else not v
        if c.op == "and":
            a = self.quick(c.args[0])
            if a is False:
                return False
            b = self.quick(c.args[1])
            if b is False:
                return False
            if a and b:
                return True
            return None
        if c.op == "le0":
            lo, hi = self.interval(c.args[0])
            if hi <= 0:
                return True
            if lo > 0:
                return False
        elif c.op == "eq0":
            lo, hi = self.interval(c.args[0])
            if lo > 0 or hi < 0:
                return False
            if lo == hi == 0:
                return True
        return None

    def decide(self, c):
        v = self.quick(c)
        if v is not None:
            return v
        if self.spec:
            raise Abort()
        return self._decide(c, None)

    def _push(self, c, val):
        self.pc.append(c if val else cnot(c))
        self._note(c, val)

    def _decide(self, c, val_hint):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            taken = d[0]
            if taken == "bnd":
                raise PathCut("replay misalignment")
            self.trail.append(d)
            if d[2]:
                self._note(c, taken)
            else:
                self._push(c, taken)
            return taken
        self.pos += 1
        if len(self.trail) >= self.max_decisions:
            raise PathCut("decision bound")
        st = self.stats
        try:
            mv = self.model.cond(c)
        except UnknownEval:
            mv = None
        if mv is None:
            m = self.query(c)
            if isinstance(m, Model):
                self.model = m
                mv = True
            elif m is None:
                mv = False
            else:
                raise PathCut("solver unknown")
        other = self.query(cnot(c) if mv else c)
        if other is not None:
            if other == "unknown":
                # cannot exclude the other side: keep it, with no model (it is checked when taken up)
                st.cut += 1
                st.cut_reasons["solver unknown at a branch"] = st.cut_reasons.get("solver unknown at a branch", 0) + 1
            else:
                st.forks += 1
                self.work.append((self.trail + [(not mv, val_hint, False)], other.vals))
            self.trail.append((mv, val_hint, False))
            self._push(c, mv)
        else:
            # implied: no decision needed, but remember it
            self.trail.append((mv, val_hint, True))
            self._note(c, mv)
        return mv

    def concretize(self, l, limit=600):
        """fork over the feasible values of l; returns an int"""
        if not l.t:
            return l.c
        lo, hi = self.interval(l)
        if lo == hi:
            return lo
        if self.spec:
            raise Abort()
        n = 0
        while True:
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos][1]
                if v is None:
                    raise PathCut("replay misalignment")
            else:
                v = self.model.lin(l)
            c = ceq0(ladd(l, lconst(v), -1))
            q = self.quick(c)
            if q is True:
                self.pos += 1
                self.trail.append((True, v, True))
                return v
            if q is False:
                raise PathCut("concretize misalignment")
            if self._decide(c, v):
                return v
            n += 1
            if n > limit:
                raise PathCut("concretisation bound")

    # --- rewriting of involved terms that are affine in the inputs on this path
    def affine(self, l):
        """an affine combination of input variables equal to l on this path if one is found and proved, else l.
        The outcome is part of the decision trail, so re-execution repeats it."""
        if self.spec or self.real or _simple(l):
            return l
        done = self.affs.get(l.id)
        if done is not None:
            return done
        l0 = l
        for D in _arg_candidates(l):
            lo, hi = self._range_of(D)
            if lo >= hi:
                continue
            r = self._by_lemma(l, D, lo, hi)
            if r is l and hi - lo > 242:
                M = self._bound(D, lo, hi)
                if M is not None:
                    r = self._by_lemma(l, D, max(lo, -M), min(hi, M))
            if r is not l:
                l = r
                if _simple(l):
                    break
        if not _simple(l) and l0.lo >= 0 and l0.hi <= 255 and any(a.op == "fdiv" for a, _ in l0.t):
            l = l0      # a byte of a larger field: half-done rewriting would keep related terms from cancelling
        self.affs[l0.id] = l
        return l

    def _bound(self, D, lo, hi):
        """M in (121, 127) with -M <= D <= M proved on this path, or None. Recorded in the trail."""
        key = tuple(sorted((a.id, k) for a, k in D.items()))
        if key in self.bnds:
            return self.bnds[key]
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if d[0] != "bnd":
                raise PathCut("replay misalignment")
            res = d[1]
        else:
            res = None
            dl = mk_lin(0, D)
            v = abs(self.model.lin(dl))
            for M in (121, 127):
                if v > M:
                    continue
                hi_ok = self.query(cle0(ladd(lconst(M + 1), dl, -1)), 1500) is None
                if hi_ok and self.query(cle0(ladd(dl, lconst(M + 1))), 1500) is None:
                    res = M
                    break
        self.pos += 1
        self.trail.append(("bnd", res, True))
        self.bnds[key] = res
        return res

    def _range_of(self, D):
        """range of the combination D on this path, from intervals and from path conditions about D itself"""
        dl = mk_lin(0, D)
        lo, hi = self.interval(dl)
        first = next(iter(D))
        for c0 in self.pc:
            neg = False
            st = [(c0, False)]
            while st:
                c, neg = st.pop()
                if c.op == "not":
                    st.append((c.args[0], not neg))
                    continue
                if c.op == "and" and not neg:
                    st.extend((x, False) for x in c.args)
                    continue
                if c.op != "le0":
                    continue
                l = c.args[0]
                if len(l.t) != len(D):
                    continue
                t = dict(l.t)
                k, r = divmod(t.get(first, 0), D[first])
                if k not in (1, -1) or r or any(t.get(a) != k * x for a, x in D.items()):
                    continue
                # k*d + c <= 0, or its negation k*d + c >= 1
                if k == 1:
                    if neg:
                        lo = max(lo, 1 - l.c)
                    else:
                        hi = min(hi, -l.c)
                else:
                    if neg:
                        hi = min(hi, l.c - 1)
                    else:
                        lo = max(lo, l.c)
        return lo, hi

    def _by_lemma(self, l, D, lo, hi):
        dn = "$d%d_%d" % (lo, hi)
        key = (l.id, lo, hi) + tuple(sorted((a.id, k) for a, k in D.items()))
        r = _bylemma.get(key)
        if r is None:
            r = _bylemma[key] = self._by_lemma2(l, D, dn, lo, hi)
        return r

    def _by_lemma2(self, l, D, dn, lo, hi):
        d = lvar(dn, lo, hi)
        sub = _Subst(D, d)
        g = lconst(0)
        out = {}
        n = 0
        for a, k in l.t:
            if a.op == "var" or a in D:
                out[a] = k
                continue
            try:
                x = sub.atom(a)
                if any(b.args[0] != dn for b in _vset(x)):
                    raise _NoSubst()
                g = ladd(g, x, k)
                n += 1
            except (_NoSubst, RecursionError):
                out[a] = k
        if not n:
            return l
        # D itself may be part of the function (sign extension); fold it in so that cancellation shows
        r = _lemma(g, d, self.stats)
        if r is None:
            return l
        self.stats.affine += 1
        return ladd(mk_lin(l.c + r[1], out), mk_lin(0, D), r[0])

    # --- harness interface pieces
    def assume(self, c):
        v = self.quick(c)
        if v is True:
            return
        if v is False:
            raise PathDead()
        if self.spec:
            raise Abort()
        if self.pos >= len(self.prefix):
            try:
                ok = self.model.cond(c)
            except UnknownEval:
                ok = False
            if not ok:
                m = self.query(c)
                if m is None:
                    raise PathDead()
                if m == "unknown":
                    raise PathCut("solver unknown at an assumption")
                self.model = m
        self.pc.append(c)
        self._note(c, True)

    def tick(self):
        self.ticks += 1
        if self.ticks > self.max_ticks:
            raise PathCut("step bound")

    def run_path(self, prefix, vals):
        global CUR
        CUR = self
        self.begin(prefix, Model(dict(vals)))
        st = self.stats
        try:
            self.fn(self)
            st.paths += 1
        except StopPath:
            st.paths += 1
        except PathDead:
            st.dead += 1
        except PathCut as e:
            st.cut += 1
            k = str(e)
            if k == "step bound":
                self.violations.append(("does not terminate within the step bound", dict(self.model.vals), None))
            elif len(self.cutmodels) < 30:
                self.cutmodels.append(dict(self.model.vals))
            st.cut_reasons[k] = st.cut_reasons.get(k, 0) + 1
        st.max_decisions = max(st.max_decisions, len(self.trail))
        for k in self.path_covers:
            self.covers[k] = self.covers.get(k, 0) + 1
        if self.on_path_end:
            self.on_path_end(self)

    def explore(self, work=None, time_limit=None, stop=None):
        self.cutmodels = []
        self.work = work if work is not None else [([], {})]
        t0 = time.time()
        while self.work:
            if time_limit is not None and time.time() - t0 > time_limit:
                break
            p, vals = self.work.pop()
            self.run_path(p, vals)
            if stop is not None and stop(self):
                break
        return self.work
