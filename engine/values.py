"""Python-visible symbolic values: they stand in for int, float, bool, bytes and str inside the code under test."""
from fractions import Fraction
from math import gcd
import math as _math

from . import sym
from .sym import (Lin, ladd, lscale, lconst, lfdiv, lmod, land, lor, lxor, lmul, lite, cle0, ceq0, cnot, cand, cor,
                  Abort, PathCut)

INF = float("inf")


def cur():
    return sym.CUR


_frac_cache = {}


def frac(f):
    """the exact rational a Python float constant stands for"""
    r = _frac_cache.get(f)
    if r is None:
        e = Fraction(f)
        r = e.limit_denominator(100000)
        if float(r) != f:
            r = Fraction(repr(f))
            if float(r) != f or r.denominator > 10 ** 12:
                r = e
        _frac_cache[f] = r
    return r


class SymBool:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return cur().decide(self.c)

    def __eq__(self, o):
        if o is True:
            return self
        if o is False:
            return mkb(cnot(self.c))
        if isinstance(o, SymBool):
            a, b = self.c, o.c
            return mkb(cor(cand(a, b), cand(cnot(a), cnot(b))))
        return as_int(self) == o

    def __ne__(self, o):
        return not_(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __invert__(self):
        return ~as_int(self)

    def __and__(self, o):
        if isinstance(o, bool):
            return self if o else False
        if isinstance(o, SymBool):
            return mkb(cand(self.c, o.c))
        return as_int(self) & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return True if o else self
        if isinstance(o, SymBool):
            return mkb(cor(self.c, o.c))
        return as_int(self) | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return self != o
        return as_int(self) ^ o

    __rxor__ = __xor__

    def __index__(self):
        return 1 if bool(self) else 0

    __int__ = __index__

    def __float__(self):
        return float(int(bool(self)))

    def __repr__(self):
        return "<symbool>"

    def __str__(self):
        return str(bool(self))


def _arith(name):
    def f(self, *a):
        return getattr(as_int(self), name)(*a)

    f.__name__ = name
    return f


for _n in ("add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod lshift rlshift rshift rrshift "
           "neg pos abs lt le gt ge pow").split():
    setattr(SymBool, "__%s__" % _n, _arith("__%s__" % _n))


def mkb(c):
    if c is sym.TRUE:
        return True
    if c is sym.FALSE:
        return False
    k = cur()
    if k is not None:
        v = k.quick(c)
        if v is not None:
            return v
    return SymBool(c)


def not_(b):
    if isinstance(b, SymBool):
        return mkb(cnot(b.c))
    return not b


def cond_of(b):
    """Cond of a bool / SymBool"""
    if isinstance(b, SymBool):
        return b.c
    return sym.TRUE if b else sym.FALSE


def as_int(b):
    return mki(lite(b.c, lconst(1), lconst(0)))


def mki(l):
    if not l.t:
        return l.c
    return SymInt(l)


def lin_of(v):
    """Lin of an int-like, or None"""
    if isinstance(v, SymInt):
        return v.l
    if isinstance(v, bool):
        return lconst(int(v))
    if isinstance(v, int):
        return lconst(v)
    if isinstance(v, SymBool):
        return lite(v.c, lconst(1), lconst(0))
    return None


class SymNum:
    __slots__ = ()

    def __radd__(self, o):
        return self.__add__(o)

    def __rmul__(self, o):
        return self.__mul__(o)

    def __pos__(self):
        return self

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __abs__(self):
        neg = self < 0
        if neg is True:
            return -self
        if neg is False:
            return self
        return ite(neg, -self, self)

    def __bool__(self):
        r = self != 0
        return r if isinstance(r, bool) else cur().decide(r.c)

    def __pow__(self, n, mod=None):
        if isinstance(n, float) and n == int(n):
            n = int(n)
        if isinstance(n, int) and 0 <= n <= 4 and mod is None:
            r = 1
            for _ in range(n):
                r = r * self
            return r
        if isinstance(n, float) and n == 0.5:
            from .shims import sym_sqrt
            return sym_sqrt(self)
        return pow(self.concrete(), n)

    def __rpow__(self, b):
        return b ** self.concrete()

    def __divmod__(self, o):
        return self // o, self % o

    def __hash__(self):
        return hash(self.concrete())

    def __str__(self):
        return str(self.concrete())

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def conjugate(self):
        return self


class SymInt(SymNum):
    __slots__ = ("l",)

    def __init__(self, l):
        self.l = l

    def concrete(self):
        return cur().concretize(self.l)

    def __repr__(self):
        return "<symint %d..%d>" % (self.l.lo, self.l.hi)

    __hash__ = SymNum.__hash__
    __index__ = concrete
    __int__ = concrete

    def __float__(self):
        return float(self.concrete())

    def bit_length(self):
        return self.concrete().bit_length()

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        from . import symstr
        lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if signed else (0, (1 << (8 * length)) - 1)
        if not (self >= lo):
            raise OverflowError("can't convert negative int to unsigned" if not signed else "int too big to convert")
        if not (self <= hi):
            raise OverflowError("int too big to convert")
        bs = [(self >> (8 * k)) & 255 for k in range(length)]
        return symstr.SymBytes(bs if byteorder == "little" else bs[::-1])

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def is_integer(self):
        return True

    def _bin(self, o, f, ff):
        l = lin_of(o)
        if l is not None:
            return f(self.l, l)
        if isinstance(o, (float, SymFloat, Fraction)):
            return ff(SymFloat(self.l, 1), o)
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: mki(ladd(a, b)), lambda a, b: a + b)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: mki(ladd(a, b, -1)), lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: mki(ladd(b, a, -1)), lambda a, b: b - a)

    def __mul__(self, o):
        l = lin_of(o)
        if l is None and isinstance(o, (list, tuple, str, bytes)):
            return o * self.concrete()
        return self._bin(o, lambda a, b: mki(lmul(a, b)), lambda a, b: a * b)

    __rmul__ = __mul__
    __radd__ = __add__

    def __neg__(self):
        return mki(lscale(self.l, -1))

    def __abs__(self):
        return mki(sym.labs(self.l))

    def __invert__(self):
        return mki(ladd(lconst(-1), self.l, -1))

    def __truediv__(self, o):
        return SymFloat(self.l, 1) / o

    def __rtruediv__(self, o):
        return o / self.concrete()

    def __floordiv__(self, o):
        if isinstance(o, (float, SymFloat)):
            return SymFloat(self.l, 1) // o
        if isinstance(o, SymNum):
            o = o.concrete()
        if not isinstance(o, int):
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if o < 0:
            return mki(lfdiv(lscale(self.l, -1), -o))
        return mki(lfdiv(self.l, o))

    def __rfloordiv__(self, o):
        return o // self.concrete()

    def __mod__(self, o):
        if isinstance(o, (float, SymFloat)):
            return SymFloat(self.l, 1) % o
        if isinstance(o, SymNum):
            o = o.concrete()
        if not isinstance(o, int):
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if o < 0:
            return mki(lscale(lmod(lscale(self.l, -1), -o), -1))
        return mki(lmod(self.l, o))

    def __rmod__(self, o):
        return o % self.concrete()

    def _bit(self, o, f):
        l = lin_of(o)
        if l is None:
            return NotImplemented
        return mki(f(self.l, l))

    def __and__(self, o):
        return self._bit(o, land)

    def __or__(self, o):
        return self._bit(o, lor)

    def __xor__(self, o):
        return self._bit(o, lxor)

    __rand__ = __and__
    __ror__ = __or__
    __rxor__ = __xor__

    def __lshift__(self, o):
        if isinstance(o, SymNum):
            o = o.concrete()
        if o < 0:
            raise ValueError("negative shift count")
        return mki(lscale(self.l, 1 << o))

    def __rlshift__(self, o):
        return o << self.concrete()

    def __rshift__(self, o):
        if isinstance(o, SymNum):
            o = o.concrete()
        if o < 0:
            raise ValueError("negative shift count")
        return mki(lfdiv(self.l, 1 << o))

    def __rrshift__(self, o):
        return o >> self.concrete()

    def _cmp(self, o, f, ff):
        l = lin_of(o)
        if l is not None:
            return mkb(f(ladd(self.l, l, -1)))
        if isinstance(o, (float, SymFloat, Fraction)):
            return ff(SymFloat(self.l, 1), o)
        return NotImplemented

    def __le__(self, o):
        return self._cmp(o, cle0, lambda a, b: a <= b)

    def __lt__(self, o):
        return self._cmp(o, lambda d: cle0(ladd(d, lconst(1))), lambda a, b: a < b)

    def __ge__(self, o):
        return self._cmp(o, lambda d: cle0(lscale(d, -1)), lambda a, b: a >= b)

    def __gt__(self, o):
        return self._cmp(o, lambda d: cle0(ladd(lconst(1), d, -1)), lambda a, b: a > b)

    def __eq__(self, o):
        r = self._cmp(o, ceq0, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __round__(self, n=None):
        if n is None or n >= 0:
            return self
        return round(self.concrete(), n)

    def __floor__(self):
        return self

    __ceil__ = __floor__
    __trunc__ = __floor__


def mkf(l, d):
    """float-typed value l/d"""
    g = d
    if g != 1:
        g = gcd(g, l.c)
        for _, k in l.t:
            if g == 1:
                break
            g = gcd(g, k)
        if g > 1:
            l = sym.mk_lin(l.c // g, {a: k // g for a, k in l.t}) if l.t else lconst(l.c // g)
            d //= g
    if not l.t:
        return l.c / d
    return SymFloat(l, d)


def ratio_of(o):
    """(Lin, den) of a number or None; infinities give ('inf', sign)"""
    if isinstance(o, SymFloat):
        return o.n, o.d
    l = lin_of(o)
    if l is not None:
        return l, 1
    if isinstance(o, float):
        if o != o:
            return "nan", 0
        if o in (INF, -INF):
            return "inf", 1 if o > 0 else -1
        f = frac(o)
        return lconst(f.numerator), f.denominator
    if isinstance(o, Fraction):
        return lconst(o.numerator), o.denominator
    return None


class SymFloat(SymNum):
    """an input-dependent float, idealised as the exact rational n/d"""
    __slots__ = ("n", "d")

    def __init__(self, n, d=1):
        self.n = n
        self.d = d

    def concrete(self):
        return cur().concretize(self.n) / self.d

    def __repr__(self):
        return "<symfloat %d..%d/%d>" % (self.n.lo, self.n.hi, self.d)

    __hash__ = SymNum.__hash__
    __float__ = concrete

    def __int__(self):
        r = self.trunc()
        return r if isinstance(r, int) else r.concrete()

    @property
    def real(self):
        return self

    def is_integer(self):
        return (self.floor() == self)

    def _bin(self, o, f):
        r = ratio_of(o)
        if r is None:
            return NotImplemented
        if r[1] == 0 or r[0] == "inf":
            raise PathCut("arithmetic with a non-finite float")
        return f(self.n, self.d, r[0], r[1])

    def __add__(self, o):
        return self._bin(o, _fadd)

    def __sub__(self, o):
        return self._bin(o, lambda a, p, b, q: _fadd(a, p, lscale(b, -1), q))

    def __rsub__(self, o):
        return self._bin(o, lambda a, p, b, q: _fadd(b, q, lscale(a, -1), p))

    def __mul__(self, o):
        return self._bin(o, lambda a, p, b, q: mkf(lmul(a, b), p * q))

    __rmul__ = __mul__
    __radd__ = __add__

    def __neg__(self):
        return mkf(lscale(self.n, -1), self.d)

    def __abs__(self):
        return mkf(sym.labs(self.n), self.d)

    def __truediv__(self, o):
        if isinstance(o, SymNum):
            o = o.concrete()
        if isinstance(o, float) and o in (INF, -INF):
            return 0.0
        r = ratio_of(o)
        if r is None:
            return NotImplemented
        v, q = r
        v = v.c
        if v == 0:
            raise ZeroDivisionError("float division by zero")
        if v < 0:
            return mkf(lscale(self.n, -q), self.d * -v)
        return mkf(lscale(self.n, q), self.d * v)

    def __rtruediv__(self, o):
        return o / self.concrete()

    def floor(self):
        return mki(lfdiv(self.n, self.d))

    def ceil(self):
        return mki(lscale(lfdiv(lscale(self.n, -1), self.d), -1))

    def trunc(self):
        if self.d == 1:
            return mki(self.n)
        f = self.floor()
        neg = self < 0
        if neg is False:
            return f
        c = self.ceil()
        if neg is True:
            return c
        return ite(neg, c, f)

    __floor__ = floor
    __ceil__ = ceil
    __trunc__ = trunc

    def __round__(self, nd=None):
        if nd is None:
            return self.round0()
        if nd == 0:
            r = self.round0()
            return SymFloat(r.l, 1) if isinstance(r, SymInt) else float(r)
        s = (self * (10 ** nd)).__round__() if nd > 0 else None
        if s is None:
            return round(self.concrete(), nd)
        return s / (10 ** nd)

    def round0(self):
        """round half to even"""
        if self.d == 1:
            return mki(self.n)
        # h = floor(x + 1/2); ties (x + 1/2 integral) with h odd -> h - 1
        n2, d2 = ladd(lscale(self.n, 2), lconst(self.d)), 2 * self.d
        h = lfdiv(n2, d2)
        if self.d % 2 and self.d > 1:
            return mki(h)  # a tie needs an even denominator
        tie = ceq0(lmod(n2, d2))
        if tie is sym.FALSE:
            return mki(h)
        odd = cnot(ceq0(lmod(h, 2)))
        return mki(lite(cand(tie, odd), ladd(h, lconst(-1)), h))

    def __floordiv__(self, o):
        r = (self / o)
        if isinstance(r, float):
            return float(_math.floor(r))
        f = r.floor()
        return SymFloat(f.l, 1) if isinstance(f, SymInt) else float(f)

    def __rfloordiv__(self, o):
        return o // self.concrete()

    def __mod__(self, o):
        return self - (self // o) * o

    def __rmod__(self, o):
        return o % self.concrete()

    def _cmp(self, o, f, inf):
        r = ratio_of(o)
        if r is None:
            return NotImplemented
        if r[0] == "inf":
            return inf(r[1])
        if r[0] == "nan":
            return False
        return mkb(f(ladd(lscale(self.n, r[1]), lscale(r[0], self.d), -1)))

    def __le__(self, o):
        return self._cmp(o, cle0, lambda s: s > 0)

    def __lt__(self, o):
        return self._cmp(o, lambda d: cle0(ladd(d, lconst(1))), lambda s: s > 0)

    def __ge__(self, o):
        return self._cmp(o, lambda d: cle0(lscale(d, -1)), lambda s: s < 0)

    def __gt__(self, o):
        return self._cmp(o, lambda d: cle0(ladd(lconst(1), d, -1)), lambda s: s < 0)

    def __eq__(self, o):
        r = self._cmp(o, ceq0, lambda s: False)
        return False if r is NotImplemented else r


def _fadd(a, p, b, q):
    if p == q:
        return mkf(ladd(a, b), p)
    g = gcd(p, q)
    return mkf(ladd(lscale(a, q // g), lscale(b, p // g)), p // g * q)


def is_sym(v):
    return isinstance(v, (SymNum, SymBool))


class MergeFail(Exception):
    pass


def ite(c, a, b):
    """value that is a where SymBool c holds, else b; Abort if the two cannot be merged"""
    if c is True:
        return a
    if c is False:
        return b
    r = _ite(c.c, a, b)
    return r


def _ite(c, a, b):
    if a is b:
        return a
    isb = isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool))
    if isb:
        ca, cb = cond_of(a), cond_of(b)
        return mkb(cor(cand(c, ca), cand(cnot(c), cb)))
    if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)):
        return mki(lite(c, lin_of(a), lin_of(b)))
    if isinstance(a, (int, float, SymNum)) and isinstance(b, (int, float, SymNum)):
        fa, fb = isinstance(a, (float, SymFloat)), isinstance(b, (float, SymFloat))
        if fa != fb:
            raise Abort()  # int on one side and float on the other: keep the types apart
        ra, rb = ratio_of(a), ratio_of(b)
        if isinstance(ra[0], str) or isinstance(rb[0], str):
            raise Abort()
        (n, p), (m, q) = ra, rb
        g = gcd(p, q)
        return mkf(lite(c, lscale(n, q // g), lscale(m, p // g)), p // g * q)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and type(a) is type(b) is tuple:
        return tuple(_ite(c, x, y) for x, y in zip(a, b))
    from .symreal import SymReal, real_ite
    if isinstance(a, SymReal) or isinstance(b, SymReal):
        return real_ite(c, a, b)
    try:
        if type(a) is type(b) and isinstance(a, (str, bytes, float, int)) and a == b:
            return a
    except Exception:
        pass
    raise Abort()


def smin(*a):
    r = a[0]
    for x in a[1:]:
        c = x < r
        if isinstance(c, SymBool):
            r = _ite_or_fork(c, x, r)
        elif c:
            r = x
    return r


def smax(*a):
    r = a[0]
    for x in a[1:]:
        c = x > r
        if isinstance(c, SymBool):
            r = _ite_or_fork(c, x, r)
        elif c:
            r = x
    return r


def _ite_or_fork(c, a, b):
    try:
        return ite(c, a, b)
    except Abort:
        return a if c else b


# ------------------------------------------------------------------ bytes

class SymBytes:
    """bytes / bytearray holding symbolic bytes"""
    __slots__ = ("b",)

    def __init__(self, items):
        self.b = items

    def __len__(self):
        return len(self.b)

    def __bool__(self):
        return bool(self.b)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymBytes(self.b[slice(*(None if x is None else _ix(x) for x in (i.start, i.stop, i.step)))])
        if isinstance(i, SymInt):
            return index_list(self.b, i)
        return self.b[i]

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            self.b[slice(*(None if x is None else _ix(x) for x in (i.start, i.stop, i.step)))] = \
                [check_byte(x) for x in v]
        else:
            self.b[_ix(i)] = check_byte(v)

    def __delitem__(self, i):
        del self.b[i]

    def __iter__(self):
        return iter(list(self.b)) if False else iter(self.b)

    def __add__(self, o):
        return SymBytes(self.b + list(byte_items(o)))

    def __radd__(self, o):
        return SymBytes(list(byte_items(o)) + self.b)

    def __iadd__(self, o):
        self.b = self.b + list(byte_items(o))
        return self

    def __mul__(self, n):
        return SymBytes(self.b * _ix(n))

    __rmul__ = __mul__

    def append(self, v):
        self.b.append(check_byte(v))

    def extend(self, vs):
        self.b.extend(check_byte(x) for x in vs)

    def reverse(self):
        self.b.reverse()

    def pop(self, *a):
        return self.b.pop(*a)

    def insert(self, i, v):
        self.b.insert(_ix(i), check_byte(v))

    def __eq__(self, o):
        if isinstance(o, (bytes, bytearray, SymBytes)):
            if len(o) != len(self.b):
                return False
            r = True
            for x, y in zip(self.b, byte_items(o)):
                e = x == y
                if e is False:
                    return False
                r = e if r is True else (r if e is True else r & e)
            return r
        return False

    def __ne__(self, o):
        return not_(self == o)

    __hash__ = None

    def __contains__(self, v):
        if isinstance(v, (bytes, bytearray, SymBytes)):
            return self.find(v) >= 0
        for x in self.b:
            if x == v:
                return True
        return False

    def concrete(self):
        return bytes(x if isinstance(x, int) else x.concrete() for x in self.b)

    def isconc(self):
        for x in self.b:
            if not isinstance(x, int):
                return False
        return True

    def decode(self, encoding="utf-8", errors="strict"):
        if self.isconc():
            return bytes(self.b).decode(encoding, errors)
        e = encoding.lower().replace("-", "").replace("_", "")
        if e in ("utf8", "ascii", "latin1", "iso88591"):
            # symbolic text: only ASCII is modelled symbolically
            from .symstr import SymStr
            if e in ("latin1", "iso88591"):
                return SymStr(list(self.b)).norm()
            out = []
            for x in self.b:
                if isinstance(x, int) and x < 128:
                    out.append(x)
                    continue
                if x < 128:
                    out.append(x)
                else:
                    return self.concrete().decode(encoding, errors)
            return SymStr(out).norm()
        return self.concrete().decode(encoding, errors)

    def hex(self):
        return self.concrete().hex()

    def startswith(self, p, *a):
        if isinstance(p, tuple):
            return any(self.startswith(q, *a) for q in p)
        if a:
            return SymBytes(self.b[slice(*a) if len(a) > 1 else slice(a[0], None)]).startswith(p)
        return len(self.b) >= len(p) and bool(SymBytes(self.b[:len(p)]) == p)

    def clear(self):
        self.b.clear()

    def remove(self, v):
        for i, x in enumerate(self.b):
            if bool(x == v):
                del self.b[i]
                return
        raise ValueError("value not found in bytearray")

    # the searching methods are those of a text with the same character codes
    _TEXT = frozenset(("strip", "lstrip", "rstrip", "split", "rsplit", "find", "rfind", "index", "rindex", "count", "endswith", "join", "replace",
                       "partition", "rpartition", "removeprefix", "removesuffix", "ljust", "rjust", "center", "zfill"))

    def __getattr__(self, name):
        if name in SymBytes._TEXT:
            def f(*a, **k):
                from .symstr import SymStr

                def to(v):
                    if isinstance(v, (bytes, bytearray)):
                        return bytes(v).decode("latin1")
                    if isinstance(v, SymBytes):
                        return SymStr(list(v.b)).norm()
                    if isinstance(v, int) and name in ("find", "rfind", "index", "rindex", "count") and v is a[0]:
                        return chr(v)
                    return type(v)(map(to, v)) if isinstance(v, (tuple, list)) else v

                def back(v):
                    if isinstance(v, str):
                        return v.encode("latin1")
                    if isinstance(v, SymStr):
                        return SymBytes(list(v.s))
                    return type(v)(map(back, v)) if isinstance(v, (tuple, list)) else v
                return back(getattr(SymStr(list(self.b)), name)(*map(to, a), **k))
            return f
        if not name.startswith("_") and hasattr(bytes, name):
            return getattr(self.concrete(), name)
        raise AttributeError(name)

    def copy(self):
        return SymBytes(list(self.b))

    def __repr__(self):
        return "<symbytes %d>" % len(self.b)


def _ix(i):
    return i if isinstance(i, int) else i.__index__()


def check_byte(v):
    if isinstance(v, int):
        if 0 <= v <= 255:
            return int(v)
        raise ValueError("byte must be in range(0, 256)")
    if isinstance(v, SymBool):
        return as_int(v)
    if isinstance(v, SymInt):
        if v.l.lo >= 0 and v.l.hi <= 255:
            return v
        ok = (v >= 0) & (v <= 255) if not isinstance(v >= 0, bool) else ((v <= 255) if (v >= 0) else False)
        if isinstance(ok, SymBool):
            ok = bool(ok)
        if ok:
            return v
        raise ValueError("byte must be in range(0, 256)")
    if isinstance(v, (float, SymFloat)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    raise TypeError("'%s' object cannot be interpreted as an integer" % type(v).__name__)


def byte_items(o):
    if isinstance(o, SymBytes):
        return o.b
    if isinstance(o, (bytes, bytearray, memoryview)):
        return bytes(o)
    raise TypeError("a bytes-like object is required, not '%s'" % type(o).__name__)


def index_list(lst, i):
    """lst[i] for symbolic i without forking where the elements can be merged"""
    n = len(lst)
    k = cur()
    lo, hi = k.interval(i.l)
    if lo == hi:
        return lst[lo]
    if lo < 0 or hi >= n:
        # Python's own index rules decide; fork on them
        if lo < 0 and bool(i < 0):
            i = i + n
            if not isinstance(i, SymInt):
                return lst[i]
            if bool(i < 0):
                raise IndexError("list index out of range")
            lo, hi = k.interval(i.l)
        if hi >= n and bool(i >= n):
            raise IndexError("list index out of range")
        lo, hi = k.interval(i.l)
        lo, hi = max(lo, 0), min(hi, n - 1)
    if hi - lo <= 4096:
        try:
            r = lst[hi]
            if not isinstance(r, (int, float, SymNum, SymBool, tuple)):
                raise Abort()
            for j in range(hi - 1, lo - 1, -1):
                c = ceq0(ladd(i.l, lconst(j), -1))
                r = _ite(c, lst[j], r)
            return r
        except Abort:
            if k.spec:
                raise
    return lst[i.concrete()]
