"""Text with symbolic characters, and exact number formatting / parsing on it."""
from . import sym
from .sym import lconst, lfdiv, lmod, ladd, Abort, PathCut
from .values import (SymInt, SymFloat, SymBool, SymBytes, SymNum, mki, ite, lin_of, mkf, is_sym)


NUMERIC = set(b"0123456789+-.e")


class Tok:
    """the text of a number, not yet split into characters: str(int) or repr(float)"""
    __slots__ = ("v", "x")

    def __init__(self, v):
        self.v = v
        self.x = None

    def expand(self):
        if self.x is None and __import__("os").environ.get("TOKT"):
            __import__("traceback").print_stack(limit=7)
        if self.x is None:
            self.x = fmt_int(self.v) if isinstance(self.v, SymInt) else fmt_float(self.v)
        return self.x

    def __eq__(self, o):
        raise TypeError("unexpanded number")

    __hash__ = None


def flat(t):
    out = []
    for x in t:
        if type(x) is Tok:
            out.extend(x.expand())
        else:
            out.append(x)
    return out


def has_tok(t):
    for x in t:
        if type(x) is Tok:
            return True
    return False


class LazyLen:
    """length of a text holding unexpanded numbers (at least one character each)"""

    def __init__(self, s):
        self.o = s

    def _lo(self):
        return len(self.o.t)

    def __index__(self):
        return len(self.o.s)

    __int__ = __index__

    def __bool__(self):
        return True

    def __hash__(self):
        return hash(int(self))

    def __gt__(self, n):
        return True if isinstance(n, int) and n < self._lo() else int(self) > n

    def __ge__(self, n):
        return True if isinstance(n, int) and n <= self._lo() else int(self) >= n

    def __lt__(self, n):
        return False if isinstance(n, int) and n <= self._lo() else int(self) < n

    def __le__(self, n):
        return False if isinstance(n, int) and n < self._lo() else int(self) <= n

    def __eq__(self, n):
        return False if isinstance(n, int) and n < self._lo() else int(self) == n

    def __ne__(self, n):
        return not self == n


def _lazy(op):
    def f(self, *a):
        return getattr(int(self), op)(*[int(x) if isinstance(x, LazyLen) else x for x in a])
    return f


for _op in ("add", "radd", "sub", "rsub", "mul", "rmul", "floordiv", "rfloordiv", "mod", "rmod", "neg", "abs", "truediv", "lshift", "rshift", "and", "or", "xor",
            "rand", "ror", "rxor", "str", "repr", "format"):
    setattr(LazyLen, "__%s__" % _op, _lazy("__%s__" % _op))


class SymStr:
    """items: code points, int or SymInt; t may also hold unexpanded numbers (Tok), which .s expands"""
    __slots__ = ("t", "k")

    def __init__(self, s):
        self.t = s
        self.k = has_tok(s)

    @property
    def s(self):
        if self.k:
            self.t = flat(self.t)
            self.k = False
        return self.t

    def norm(self):
        for x in self.t:
            if not isinstance(x, int):
                return self
        return "".join(map(chr, self.t))

    def __len__(self):
        return len(self.s)

    def __bool__(self):
        return bool(self.t)

    def __add__(self, o):
        return SymStr(self.t + raw(o)).norm()

    def __radd__(self, o):
        return SymStr(raw(o) + self.t).norm()

    def __mul__(self, n):
        return SymStr(self.s * n)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if self.k and i.stop is None and i.step in (None, 1) and (i.start is None or i.start >= 0 and not has_tok(self.t[:i.start])):
                return SymStr(self.t[i]).norm()
            return SymStr(self.s[i]).norm()
        if self.k and isinstance(i, int) and 0 <= i < len(self.t) and not has_tok(self.t[:i + 1]):
            return SymStr([self.t[i]]).norm()
        return SymStr([self.s[i]]).norm()

    def __iter__(self):
        for x in self.s:
            yield SymStr([x]).norm()

    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)):
            return False
        if self.k and isinstance(o, SymStr) and o.k and len(self.t) == len(o.t):
            r = True
            for x, y in zip(self.t, o.t):
                if type(x) is Tok and type(y) is Tok and isinstance(x.v, SymInt) == isinstance(y.v, SymInt):
                    e = x.v == y.v
                elif type(x) is Tok or type(y) is Tok:
                    r = None
                    break
                else:
                    e = x == y
                if e is False:
                    # the texts may still agree when numbers differ in length
                    r = None
                    break
                r = e if r is True else (r if e is True else r & e)
            if r is not None and _aligned(self.t):
                return r
        o = items(o)
        if len(o) != len(self.s):
            return False
        r = True
        for x, y in zip(self.s, o):
            e = x == y
            if e is False:
                return False
            r = e if r is True else (r if e is True else r & e)
        return r

    def __ne__(self, o):
        from .values import not_
        return not_(self == o)

    def concrete(self):
        return "".join(chr(x if isinstance(x, int) else x.concrete()) for x in self.s)

    def __hash__(self):
        return hash(self.concrete())

    def __str__(self):
        return self.concrete()

    def __repr__(self):
        return "<symstr %d>" % len(self.s)

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __contains__(self, sub):
        sub = items(sub)
        n = len(sub)
        if self.k and not any(not isinstance(c, int) or c in NUMERIC for c in sub):
            ss = [-1 if type(x) is Tok else x for x in self.t]
        else:
            ss = self.s
        for i in range(len(ss) - n + 1):
            if bool(SymStr(ss[i:i + n]) == SymStr(sub)):
                return True
        return False

    def find(self, sub, *a):
        sub = items(sub)
        n = len(sub)
        lo, hi, _ = slice(*(a or (None,)) if len(a) != 1 else (a[0], None)).indices(len(self.s))
        for i in range(lo, hi - n + 1):
            if bool(SymStr(self.s[i:i + n]) == SymStr(sub)):
                return i
        return -1

    def rfind(self, sub, *a):
        sub = items(sub)
        n = len(sub)
        lo, hi, _ = slice(*(a or (None,)) if len(a) != 1 else (a[0], None)).indices(len(self.s))
        for i in range(hi - n, lo - 1, -1):
            if bool(SymStr(self.s[i:i + n]) == SymStr(sub)):
                return i
        return -1

    def rpartition(self, sep):
        i = self.rfind(sep)
        return (SymStr(self.s[:i]).norm(), sep, SymStr(self.s[i + len(sep):]).norm()) if i >= 0 else ("", "", self)

    def partition(self, sep):
        i = self.find(sep)
        return (SymStr(self.s[:i]).norm(), sep, SymStr(self.s[i + len(sep):]).norm()) if i >= 0 else (self, "", "")

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit != 1 or sep is None:
            return self.split(sep) if sep is not None and maxsplit < 0 else self.concrete().rsplit(sep, maxsplit)
        i = self.rfind(sep)
        return [SymStr(self.s[:i]).norm(), SymStr(self.s[i + len(sep):]).norm()] if i >= 0 else [self]

    def startswith(self, p, *a):
        if isinstance(p, tuple):
            return any(self.startswith(q, *a) for q in p)
        if a:
            return SymStr(self.s[slice(*a) if len(a) > 1 else slice(a[0], None)]).startswith(p)
        p = items(p)
        return len(p) <= len(self.s) and bool(SymStr(self.s[:len(p)]) == SymStr(p))

    def endswith(self, p, *a):
        if isinstance(p, tuple):
            return any(self.endswith(q, *a) for q in p)
        if a:
            return SymStr(self.s[slice(*a) if len(a) > 1 else slice(a[0], None)]).endswith(p)
        p = items(p)
        return len(p) <= len(self.s) and bool(SymStr(self.s[len(self.s) - len(p):]) == SymStr(p))

    def split(self, sep=None, maxsplit=-1):
        if sep is None and maxsplit < 0:
            out, cur = [], []
            for x in self.t:
                if _inset(x, None):
                    if cur:
                        out.append(SymStr(cur).norm())
                    cur = []
                else:
                    cur.append(x)
            if cur:
                out.append(SymStr(cur).norm())
            return out
        if sep is None or isinstance(sep, SymStr) or len(sep) == 0:
            return self.concrete().split(sep, maxsplit)
        out, cur = [], []
        if len(sep) > 1:
            t = self.s if any(ord(c) in NUMERIC for c in sep) else self.t
            i = 0
            while i < len(t):
                w = t[i:i + len(sep)]
                if (len(w) == len(sep) and (maxsplit < 0 or len(out) < maxsplit)
                        and all(type(x) is not Tok and bool(x == ord(c)) for x, c in zip(w, sep))):
                    out.append(SymStr(cur).norm())
                    cur = []
                    i += len(sep)
                else:
                    cur.append(t[i])
                    i += 1
            out.append(SymStr(cur).norm())
            return out
        o = ord(sep)
        for x in (self.s if o in NUMERIC else self.t):
            if type(x) is not Tok and (maxsplit < 0 or len(out) < maxsplit) and bool(x == o):
                out.append(SymStr(cur).norm())
                cur = []
            else:
                cur.append(x)
        out.append(SymStr(cur).norm())
        return out

    def strip(self, chars=None):
        l = self.lstrip(chars)
        return l.rstrip(chars)

    def lstrip(self, chars=None):
        i = 0
        t = self.t if self.k and (chars is None or not any(ord(c) in NUMERIC for c in chars)) else self.s
        while i < len(t) and _inset(t[i], chars):
            i += 1
        return SymStr(t[i:]).norm()

    def rstrip(self, chars=None):
        t = self.t if self.k and (chars is None or not any(ord(c) in NUMERIC for c in chars)) else self.s
        j = len(t)
        while j > 0 and _inset(t[j - 1], chars):
            j -= 1
        return SymStr(t[:j]).norm()

    def replace(self, a, b, count=-1):
        a, b = items(a), raw(b)
        if len(a) == 0 or any(not isinstance(c, int) for c in a):
            return self.concrete().replace("".join(map(chr, a)), "".join(map(chr, b)), count)
        if len(a) > 1 or count != -1:
            t = self.s if any(c in NUMERIC for c in a) else self.t
            out, i, n = [], 0, 0
            while i < len(t):
                w = t[i:i + len(a)]
                if (len(w) == len(a) and (count < 0 or n < count)
                        and all(type(x) is not Tok and bool(x == c) for x, c in zip(w, a))):
                    out.extend(b)
                    i += len(a)
                    n += 1
                else:
                    out.append(t[i])
                    i += 1
            return SymStr(out).norm()
        out = []
        for x in (self.s if a[0] in NUMERIC else self.t):
            if type(x) is not Tok and bool(x == a[0]):
                out.extend(b)
            else:
                out.append(x)
        return SymStr(out).norm()

    def _case(self, name):
        out = []
        for x in self.s:
            if isinstance(x, SymInt):
                if x.l.hi > 127 and not bool(x < 128):
                    x = x.concrete()
                else:
                    lo, d = (65, 32) if name == "lower" else (97, -32)
                    out.append(x + ite((x >= lo) & (x <= lo + 25), d, 0))
                    continue
            out.extend(ord(c) for c in getattr(chr(x), name)())
        return SymStr(out).norm()

    def lower(self):
        return self._case("lower")

    def upper(self):
        return self._case("upper")

    # the remaining methods of str; characters above 127 are fixed to a value first

    def _ascii(self):
        out = []
        for x in self.s:
            if isinstance(x, SymInt) and x.l.hi > 127 and not bool(x < 128):
                x = x.concrete()
            out.append(x)
        return out

    def _all(self, name, ranges):
        if not self.s:
            return name in ("isascii", "isprintable")
        for x in self._ascii():
            if isinstance(x, SymInt):
                c = False
                for lo, hi in ranges:
                    c = ((x >= lo) & (x <= hi)) | c
                if not bool(c):
                    return False
            elif not getattr(chr(x), name)():
                return False
        return True

    def isdigit(self):
        return self._all("isdigit", [(48, 57)])

    isdecimal = isnumeric = isdigit

    def isalpha(self):
        return self._all("isalpha", [(65, 90), (97, 122)])

    def isalnum(self):
        return self._all("isalnum", [(48, 57), (65, 90), (97, 122)])

    def isspace(self):
        return self._all("isspace", [(9, 13), (28, 32)])

    def isascii(self):
        return self._all("isascii", [(0, 127)])

    def isprintable(self):
        return self._all("isprintable", [(32, 126)])

    def _cased(self, lo, other):
        seen = False
        for x in self._ascii():
            if isinstance(x, SymInt):
                if bool((x >= other) & (x <= other + 25)):
                    return False
                seen = seen or bool((x >= lo) & (x <= lo + 25))
            else:
                c = chr(x)
                if c.isupper() or c.islower():
                    if c.isupper() != (lo == 65):
                        return False
                    seen = True
        return seen

    def isupper(self):
        return self._cased(65, 97)

    def islower(self):
        return self._cased(97, 65)

    def casefold(self):
        return self.lower()

    def swapcase(self):
        out = []
        for x in self._ascii():
            if isinstance(x, SymInt):
                out.append(x + ite((x >= 65) & (x <= 90), 32, ite((x >= 97) & (x <= 122), -32, 0)))
            else:
                out.extend(ord(c) for c in chr(x).swapcase())
        return SymStr(out).norm()

    def capitalize(self):
        return SymStr(items(SymStr(self.s[:1]).upper()) + items(SymStr(self.s[1:]).lower())).norm()

    def title(self):
        out, inside = [], False
        for x in self._ascii():
            c = SymStr([x])
            out += items(c.lower() if inside else c.upper())
            inside = c.isalpha()
        return SymStr(out).norm()

    def _pad(self, w, fill, left):
        n = w - len(self.s)
        return self if n <= 0 else SymStr((self.s + items(fill) * n) if left else (items(fill) * n + self.s)).norm()

    def ljust(self, w, fill=" "):
        return self._pad(w, fill, True)

    def rjust(self, w, fill=" "):
        return self._pad(w, fill, False)

    def zfill(self, w):
        if self.s and bool((self.s[0] == 43) | (self.s[0] == 45)):
            return SymStr(self.s[:1] + items(SymStr(self.s[1:])._pad(w - 1, "0", False))).norm()
        return self._pad(w, "0", False)

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, sub, *a):
        i = self.rfind(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub, *a):
        if a or len(sub) == 0:
            return self.concrete().count(sub, *a)
        return len(self.split(sub)) - 1 if isinstance(sub, str) else self.concrete().count(str(sub))

    def removeprefix(self, p):
        return SymStr(self.s[len(p):]).norm() if self.startswith(p) else self

    def removesuffix(self, p):
        return SymStr(self.s[:len(self.s) - len(p)]).norm() if len(p) and self.endswith(p) else self

    def splitlines(self, keepends=False):
        out, cur, i = [], [], 0
        t = self.t
        while i < len(t):
            x = t[i]
            i += 1
            if type(x) is not Tok and bool(SymStr([x]) == "\r"):
                end = [x]
                if i < len(t) and type(t[i]) is not Tok and bool(SymStr([t[i]]) == "\n"):
                    end.append(t[i])
                    i += 1
            elif _inset(x, "\n\x0b\x0c\x1c\x1d\x1e"):
                end = [x]
            else:
                cur.append(x)
                continue
            out.append(SymStr(cur + (end if keepends else [])).norm())
            cur = []
        if cur:
            out.append(SymStr(cur).norm())
        return out

    def join(self, parts):
        out = []
        for i, q in enumerate(parts):
            if i:
                out += self.s
            out += raw(q)
        return SymStr(out).norm()

    def __getattr__(self, name):
        if not name.startswith("_") and hasattr(str, name):
            return getattr(self.concrete(), name)
        raise AttributeError(name)

    def encode(self, encoding="utf-8", errors="strict"):
        e = encoding.lower().replace("-", "").replace("_", "")
        out = []
        keep = self.k and e in ("utf8", "ascii", "latin1", "iso88591", "cp1252")
        for x in (self.t if keep else self.s):
            if type(x) is Tok:
                out.append(x)
                continue
            if isinstance(x, SymInt):
                if x.l.hi > 127 and not bool(x < 128):
                    x = x.concrete()
                else:
                    if e not in ("utf8", "ascii", "latin1", "iso88591", "cp1252"):
                        raise PathCut("symbolic text in encoding " + encoding)
                    out.append(x)
                    continue
            out.extend(chr(x).encode(encoding, errors))
        return TokBytes(out) if keep else SymBytes(out)

    def __lt__(self, o):
        return self.concrete() < str(o)

    def __gt__(self, o):
        return self.concrete() > str(o)


class TokBytes(SymBytes):
    """encoded text with unexpanded numbers in t; any use of the bytes expands them"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def b(self):
        if has_tok(self.t):
            self.t = flat(self.t)
        return self.t

    @b.setter
    def b(self, v):
        self.t = v


def _aligned(t):
    """no number touches another one or a symbolic or numeric character: equal texts have equal numbers"""
    for i, x in enumerate(t):
        if type(x) is Tok:
            for j in (i - 1, i + 1):
                if 0 <= j < len(t) and (not isinstance(t[j], int) or t[j] in NUMERIC):
                    return False
    return True


def _inset(x, chars):
    if type(x) is Tok:
        return False
    if isinstance(x, int):
        return chr(x) in chars if chars is not None else chr(x).isspace()
    for c in (chars if chars is not None else " \t\n\r\x0b\x0c"):
        if bool(x == ord(c)):
            return True
    return False


def items(o):
    if isinstance(o, SymStr):
        return list(o.s)
    if isinstance(o, str):
        return [ord(c) for c in o]
    raise TypeError("must be str, not " + type(o).__name__)


def raw(o):
    return list(o.t) if isinstance(o, SymStr) else items(o)


# ------------------------------------------------------------------ formatting

def _digits(v, n):
    """n decimal digit code points of v (0 <= v < 10**n), most significant first"""
    if isinstance(v, int):
        return [ord(c) for c in str(v).zfill(n)]
    out = []
    for k in range(n - 1, -1, -1):
        d = lmod(lfdiv(v.l, 10 ** k), 10)
        out.append(mki(ladd(d, lconst(48))))
    return out


def fmt_int(v):
    """str(v) of a SymInt: forks on the sign and the number of digits"""
    if isinstance(v, int):
        return [ord(c) for c in str(v)]
    sign = []
    if bool(v < 0):
        sign = [45]
        v = -v
        if isinstance(v, int):
            return sign + [ord(c) for c in str(v)]
    n = 1
    while not bool(v < 10 ** n):
        n += 1
    return sign + _digits(v, n)


def fmt_int_padded(v, width, zero=False, left=False, plus=False):
    """'%{width}d' % v ; stays fork-free when v is known to be non-negative and to fit the width"""
    lo, hi = sym.CUR.interval(v.l) if isinstance(v, SymInt) else (v, v)
    if not left and not plus and lo >= 0 and hi < 10 ** width and width <= 12 and isinstance(v, SymInt):
        dg = _digits(v, width)
        if zero:
            return dg
        out = []
        for i, d in enumerate(dg):
            k = width - 1 - i
            if k == 0:
                out.append(d)
            else:
                out.append(ite(v >= 10 ** k, d, 32) if not isinstance(v >= 10 ** k, bool) else (d if v >= 10 ** k else 32))
        return out
    s = fmt_int(v)
    if plus and not bool(v < 0):
        s = [43] + s
    if len(s) < width:
        if left:
            s = s + [32] * (width - len(s))
        elif zero:
            sg = s[:1] if s and s[0] in (45, 43) else []
            s = sg + [48] * (width - len(s)) + s[len(sg):]
        else:
            s = [32] * (width - len(s)) + s
    return s


def fmt_float(v):
    """repr(float) of a SymFloat whose denominator divides a power of ten"""
    if not isinstance(v, SymFloat):
        return [ord(c) for c in repr(float(v))]
    k = 0
    while 10 ** k % v.d and k < 7:
        k += 1
    if 10 ** k % v.d:
        return [ord(c) for c in repr(v.concrete())]
    scaled = mki(sym.lscale(v.n, 10 ** k // v.d))
    # strip trailing zeros (forks)
    while k > 1 and bool((scaled % 10) == 0):
        scaled = scaled // 10
        k -= 1
    sign = []
    if bool(scaled < 0):
        sign = [45]
        scaled = -scaled
    ip = scaled // 10 ** k if k else scaled
    if bool(ip >= 10 ** 15):
        raise PathCut("float formatting range")
    if k == 0:
        return sign + fmt_int(ip) + [46, 48]
    fp = scaled % 10 ** k
    return sign + fmt_int(ip) + [46] + _digits(fp, k)


def to_str(v):
    if isinstance(v, SymInt):
        return SymStr([Tok(v)])
    if isinstance(v, SymFloat):
        return SymStr([Tok(v)] if 10 ** 7 % v.d == 0 else fmt_float(v)).norm()
    if isinstance(v, SymBool):
        return "True" if bool(v) else "False"
    if isinstance(v, SymStr):
        return v
    return str(v)


def parse_int(s):
    """int(SymStr)"""
    x = s.strip()
    if isinstance(x, str):
        return int(x)
    if x.k and len(x.t) == 1 and isinstance(x.t[0].v, SymInt):
        return x.t[0].v
    it = list(x.s)
    neg = False
    if it and not isinstance(it[0], SymInt):
        if it[0] in (43, 45):
            neg = it[0] == 45
            it = it[1:]
    elif it:
        if bool(it[0] == 45):
            neg = True
            it = it[1:]
        elif bool(it[0] == 43):
            it = it[1:]
    if not it:
        raise ValueError("invalid literal for int() with base 10")
    v = 0
    for c in it:
        ok = (c >= 48)
        ok = ok & (c <= 57) if not isinstance(ok, bool) else (c <= 57 if ok else False)
        if not (ok if isinstance(ok, bool) else bool(ok)):
            return int(x.concrete())
        v = v * 10 + (c - 48)
    return -v if neg else v


def parse_hex(s):
    """int(SymStr, 16) of digits"""
    x = s.strip()
    if isinstance(x, str):
        return int(x, 16)
    v = 0
    if not x.s:
        raise ValueError("invalid literal for int() with base 16: ''")
    for c in x.s:
        if isinstance(c, SymInt):
            d = sym._hexd.get(c.l.id)
            if d is None:
                if bool(c <= 57):
                    if bool(c < 48):
                        return int(x.concrete(), 16)
                    d = c - 48
                elif bool(c >= 97):
                    if bool(c > 102):
                        return int(x.concrete(), 16)
                    d = c - 87
                else:
                    if bool(c < 65) or bool(c > 70):
                        return int(x.concrete(), 16)
                    d = c - 55
        else:
            if chr(c) not in "0123456789abcdefABCDEF":
                return int(x.concrete(), 16)
            d = int(chr(c), 16)
        v = v * 16 + d
    return v


def parse_float(s):
    x = s.strip()
    if isinstance(x, str):
        return float(x)
    if x.k and len(x.t) == 1:
        v = x.t[0].v
        return SymFloat(v.l, 1) if isinstance(v, SymInt) else v
    it = list(x.s)
    dot = [i for i, c in enumerate(it) if isinstance(c, int) and c == 46]
    if len(dot) > 1:
        return float(x.concrete())
    try:
        if not dot:
            v = parse_int(x)
            return SymFloat(v.l, 1) if isinstance(v, SymInt) else float(v)
        i = dot[0]
        k = len(it) - i - 1
        v = parse_int(SymStr(it[:i] + it[i + 1:]))
        return mkf(v.l, 10 ** k) if isinstance(v, SymInt) else v / 10 ** k
    except ValueError:
        return float(x.concrete())


def percent(fmt, args):
    """fmt % args with symbolic arguments; fmt a concrete str"""
    if not isinstance(args, tuple):
        args = (args,)
    out = []
    ai = 0
    i = 0
    n = len(fmt)
    while i < n:
        c = fmt[i]
        if c != "%":
            out.append(ord(c))
            i += 1
            continue
        i += 1
        flags = ""
        while fmt[i] in "-+ #0":
            flags += fmt[i]
            i += 1
        w = ""
        while fmt[i].isdigit():
            w += fmt[i]
            i += 1
        prec = None
        if fmt[i] == ".":
            i += 1
            prec = ""
            while fmt[i].isdigit():
                prec += fmt[i]
                i += 1
        conv = fmt[i]
        i += 1
        if conv == "%":
            out.append(37)
            continue
        a = args[ai]
        ai += 1
        width = int(w) if w else 0
        if not isinstance(a, (SymNum, SymBool, SymStr)):
            spec = "%" + flags + w + ("." + prec if prec is not None else "") + conv
            out.extend(ord(x) for x in spec % (a,))
            continue
        if conv in "di" and prec is None:
            if isinstance(a, SymFloat):
                a = a.trunc()
            if isinstance(a, SymBool):
                a = 1 if a else 0
            if isinstance(a, SymInt) and not width and not flags:
                out.append(Tok(a))
                continue
            out.extend(fmt_int_padded(a, width, "0" in flags, "-" in flags, "+" in flags))
            continue
        if conv == "s":
            if not width and prec is None:
                out.extend(raw(to_str(a)))
                continue
            s = items(to_str(a))
            if prec is not None and prec != "":
                s = s[:int(prec)]
            if len(s) < width:
                s = s + [32] * (width - len(s)) if "-" in flags else [32] * (width - len(s)) + s
            out.extend(s)
            continue
        if conv in "fF" and prec is not None and not isinstance(a, SymBool):
            s = fmt_fixed(a, int(prec or 0))
            if len(s) < width:
                s = s + [32] * (width - len(s)) if "-" in flags else [32] * (width - len(s)) + s
            out.extend(s)
            continue
        if conv in "xX" and isinstance(a, SymInt):
            out.extend(fmt_hex(a, width, "0" in flags, conv == "X"))
            continue
        spec = "%" + flags + w + ("." + prec if prec is not None else "") + conv
        out.extend(ord(x) for x in spec % (a.concrete(),))
    if ai != len(args):
        raise TypeError("not all arguments converted during string formatting")
    return SymStr(out).norm()


def fmt_fixed(a, p):
    s = a * 10 ** p
    r = round(s) if not isinstance(s, (int,)) else s
    if isinstance(r, int):
        return [ord(c) for c in "%.*f" % (p, r / 10 ** p)]
    sign = []
    if bool(r < 0):
        sign = [45]
        r = -r
    elif bool(a < 0):
        sign = [45]
    ip = r // 10 ** p
    o = sign + fmt_int(ip)
    if p:
        o = o + [46] + _digits(r % 10 ** p, p)
    return o


def fmt_hex(v, width, zero, upper):
    neg = bool(v < 0)
    if neg:
        v = -v
    n = 1
    if zero and isinstance(v, SymInt) and v.l.hi < 16 ** max(width, 1) and not neg:
        n = max(width, 1)
    else:
        while not bool(v < 16 ** n):
            n += 1
    out = []
    for k in range(n - 1, -1, -1):
        d = (v >> (4 * k)) & 15
        if isinstance(d, int):
            out.append(ord("0123456789ABCDEF"[d] if upper else "0123456789abcdef"[d]))
        else:
            out.append(d + ite(d > 9, (55 if upper else 87), 48) if not isinstance(d > 9, bool)
                       else d + ((55 if upper else 87) if d > 9 else 48))
            if isinstance(out[-1], SymInt):
                sym._hexd[out[-1].l.id] = d
    s = ([45] if neg else []) + out
    if len(s) < width:
        s = ([48] if zero else [32]) * (width - len(s)) + s
    return s
