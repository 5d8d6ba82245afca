"""Replacements for builtins and library modules, injected into the code under test only."""
import builtins
import itertools
import math as _math
import struct as _struct
import types
from fractions import Fraction

from . import sym
from .sym import Abort, PathCut, ladd, lscale, lconst
from .values import (SymInt, SymFloat, SymBool, SymBytes, SymNum, mki, mkf, ite, is_sym, smin, smax, byte_items,
                     check_byte, as_int, ratio_of, not_)
from .symstr import SymStr, to_str, parse_int, parse_float, parse_hex, percent, items as str_items, raw, Tok, TokBytes, LazyLen, flat, has_tok
from . import symreal
from .symreal import SymReal

_len = len
_list = list
_ord = ord
_set = set
_int, _float, _str, _bytes, _bytearray, _bool = int, float, str, bytes, bytearray, bool


class _Meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls._real) or isinstance(o, cls._sym)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._real) or (isinstance(c, type) and issubclass(c, cls._sym))

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __call__(cls, *a, **k):
        return cls._conv(*a, **k)

    def __getattr__(cls, n):
        return getattr(cls._real, n)

    def __repr__(cls):
        return repr(cls._real)


def _to_int(x=0, *a, **k):
    if a or k:
        if isinstance(x, SymStr):
            if a == (16,) or k == {"base": 16}:
                return parse_hex(x)
            x = x.concrete()
        return _int(x, *a, **k)
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymFloat):
        return x.trunc()
    if isinstance(x, SymBool):
        return as_int(x)
    if isinstance(x, SymStr):
        return parse_int(x)
    if isinstance(x, SymBytes):
        return _int(x.concrete())
    if isinstance(x, SymReal):
        raise PathCut("int() of a real")
    return _int(x)


def _to_float(x=0.0):
    if isinstance(x, SymInt):
        return SymFloat(x.l, 1)
    if isinstance(x, SymBool):
        return _to_float(as_int(x))
    if isinstance(x, (SymFloat, SymReal)):
        return x
    if isinstance(x, SymStr):
        return parse_float(x)
    return _float(x)


def _to_str(x="", *a, **k):
    if isinstance(x, (SymNum, SymBool, SymStr)):
        return to_str(x)
    if isinstance(x, SymBytes):
        if a or k:
            return x.decode(*a, **k)
        return _str(x.concrete())
    return _str(x, *a, **k)


def _to_bytes(*a, **k):
    if a and isinstance(a[0], SymStr):
        if len(a) < 2 and "encoding" not in k:
            raise TypeError("string argument without an encoding")
        r = a[0].encode(a[1] if len(a) > 1 else k["encoding"])
        return _nb(r)
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, SymBytes):
            return _nb(x)
        if isinstance(x, (list, tuple, types.GeneratorType, map, filter, range)) or hasattr(x, "__next__"):
            return _nb(SymBytes([check_byte(v) for v in x]))
        if isinstance(x, SymInt):
            return _bytes(x.concrete())
    return _bytes(*a, **k)


def _nb(sb):
    """bytes if all concrete"""
    if isinstance(sb, TokBytes) and has_tok(sb.t):
        return sb
    if sb.isconc():
        return _bytes(sb.b)
    return SymBytes(list(sb.b))


def _to_bytearray(*a, **k):
    if not a:
        return SymBytes([])
    x = a[0]
    if isinstance(x, str):
        return SymBytes(list(_bytearray(*a, **k)))
    if isinstance(x, SymStr):
        return SymBytes(list(byte_items(_to_bytes(*a, **k))))
    if isinstance(x, (bytes, bytearray, memoryview)):
        return SymBytes(list(x))
    if isinstance(x, SymBytes):
        return SymBytes(list(x.b))
    if isinstance(x, SymInt):
        x = x.concrete()
    if isinstance(x, int):
        return SymBytes([0] * x)
    return SymBytes([check_byte(v) for v in x])


def _to_bool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymNum):
        return x != 0
    return _bool(x)


def _from_bytes(b, byteorder="big", *, signed=False):
    it = list(byte_items(b)) if isinstance(b, (SymBytes, bytes, bytearray)) else list(b)
    if not any(is_sym(x) for x in it):
        return _int.from_bytes(_bytes(it), byteorder, signed=signed)
    if byteorder == "big":
        it = it[::-1]
    v = 0
    for k, x in enumerate(it):
        v = v + (x << (8 * k))
    if signed and it:
        v = v - ((it[-1] >> 7) << (8 * len(it)))
    return v


class s_int(metaclass=_Meta):
    _real, _sym, _conv = int, (SymInt,), staticmethod(_to_int)
    from_bytes = staticmethod(_from_bytes)


class s_float(metaclass=_Meta):
    _real, _sym, _conv = float, (SymFloat, SymReal), staticmethod(_to_float)


class s_str(metaclass=_Meta):
    _real, _sym, _conv = str, (SymStr,), staticmethod(_to_str)


class s_bytes(metaclass=_Meta):
    _real, _sym, _conv = bytes, (SymBytes,), staticmethod(_to_bytes)


class s_bytearray(metaclass=_Meta):
    _real, _sym, _conv = bytearray, (SymBytes,), staticmethod(_to_bytearray)


class s_bool(metaclass=_Meta):
    _real, _sym, _conv = bool, (SymBool,), staticmethod(_to_bool)


def s_min(*a, key=None, **k):
    if key is None:
        it = list(a[0]) if len(a) == 1 else list(a)
        if any(is_sym(x) for x in it):
            return smin(*it)
        if len(a) == 1:
            return builtins.min(it, **k)
    return builtins.min(*a, key=key, **k)


def s_max(*a, key=None, **k):
    if key is None:
        it = list(a[0]) if len(a) == 1 else list(a)
        if any(is_sym(x) for x in it):
            return smax(*it)
        if len(a) == 1:
            return builtins.max(it, **k)
    return builtins.max(*a, key=key, **k)


def s_chr(x):
    if isinstance(x, SymInt):
        return SymStr([x]).norm()
    return chr(x)


def s_ord(x):
    if isinstance(x, SymStr):
        if len(x) != 1:
            raise TypeError("ord() expected a character")
        return x.s[0]
    if isinstance(x, SymBytes):
        return x.b[0]
    return ord(x)


def s_pow(a, b, *m):
    if m:
        return pow(*(x.concrete() if isinstance(x, SymNum) else x for x in (a, b) + m))
    return a ** b


def s_hex(x):
    return hex(x)


def s_any(it):
    r = False
    for x in it:
        x = s_bool(x)
        if x is True:
            return True
        if x is not False:
            r = x if r is False else r | x
    return r


def s_all(it):
    r = True
    for x in it:
        x = s_bool(x)
        if x is False:
            return False
        if x is not True:
            r = x if r is True else r & x
    return r


def s_type(*a):
    if len(a) == 1:
        t = type(a[0])
        return {SymInt: int, SymFloat: float, SymReal: float, SymBool: bool, SymBytes: bytes, SymStr: str}.get(t, t)
    return type(*a)


def s_sorted(it, **k):
    return builtins.sorted(it, **k)


def s_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def s_isinstance(o, c):
    if isinstance(c, tuple):
        return any(s_isinstance(o, x) for x in c)
    if c is int:
        return isinstance(o, s_int)
    if c is float:
        return isinstance(o, s_float)
    if c is str:
        return isinstance(o, s_str)
    if c is bytes or c is bytearray:
        return isinstance(o, (c, SymBytes))
    return isinstance(o, c)


def s_callable(x):
    return callable(x)


# ------------------------------------------------------------------ math

def sym_sqrt(x):
    if isinstance(x, SymReal):
        return symreal.rsqrt(x)
    if isinstance(x, (SymInt, SymFloat)):
        return SymSqrt(x)
    return _math.sqrt(x)


class SymSqrt(SymNum):
    """sqrt of a non-negative symbolic number: only comparisons are exact; anything else concretises"""
    __slots__ = ("r",)

    def __init__(self, r):
        self.r = r

    def concrete(self):
        return _math.sqrt(self.r.concrete())

    __float__ = concrete
    __hash__ = SymNum.__hash__

    def __int__(self):
        return _int(self.concrete())

    def __repr__(self):
        return "<symsqrt>"

    def _c(self, o, op):
        if isinstance(o, SymSqrt):
            return op(self.r, o.r)
        if isinstance(o, SymNum):
            neg = o < 0
            if neg is False:
                return op(self.r, o * o)
            if bool(neg):
                return op(1, -1)
            return op(self.r, o * o)
        if isinstance(o, (int, float)):
            if o < 0:
                return op(1, -1)
            if o == float("inf"):
                return op(0, 1)
            return op(self.r, o * o)
        return NotImplemented

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._c(o, lambda a, b: a == b)

    def _con(name):
        def f(self, *a):
            return getattr(self.concrete(), name)(*[x.concrete() if isinstance(x, SymNum) else x for x in a])
        return f

    for _n in ("__add__ __sub__ __rsub__ __mul__ __truediv__ __rtruediv__ __floordiv__ __mod__ __neg__ __round__ "
               "__floor__ __ceil__ __trunc__").split():
        locals()[_n] = _con(_n)
    __radd__ = __add__
    __rmul__ = __mul__
    del _con, _n

    def __abs__(self):
        return self


def _m(name):
    real = getattr(_math, name)

    def f(*a):
        if builtins.any(isinstance(x, SymReal) for x in a):
            return symreal.mathfn(name, *a)
        if builtins.any(isinstance(x, SymNum) for x in a):
            a = [x.concrete() if isinstance(x, SymNum) else x for x in a]
        return real(*a)

    f.__name__ = name
    return f


math = types.ModuleType("math")
for _n in dir(_math):
    if _n.startswith("_"):
        continue
    _v = getattr(_math, _n)
    setattr(math, _n, _m(_n) if callable(_v) else _v)


def _ceil(x):
    return x.__ceil__() if isinstance(x, SymNum) else _math.ceil(x)


def _floor(x):
    return x.__floor__() if isinstance(x, SymNum) else _math.floor(x)


math.ceil = _ceil
math.floor = _floor
math.trunc = lambda x: x.__trunc__() if isinstance(x, SymNum) else _math.trunc(x)
math.sqrt = sym_sqrt
math.fabs = lambda x: abs(s_float(x))
math.hypot = lambda *a: sym_sqrt(s_sum(x * x for x in a)) if builtins.any(is_sym(x) for x in a) else _math.hypot(*a)
math.isinf = lambda x: False if isinstance(x, (SymNum, SymReal)) else _math.isinf(x)
math.isnan = lambda x: False if isinstance(x, (SymNum, SymReal)) else _math.isnan(x)
math.isfinite = lambda x: True if isinstance(x, (SymNum, SymReal)) else _math.isfinite(x)
math.copysign = lambda a, b: (abs(a) if b >= 0 else -abs(a)) if is_sym(a) or is_sym(b) else _math.copysign(a, b)

# ------------------------------------------------------------------ struct

_SZ = {"b": (1, True), "B": (1, False), "h": (2, True), "H": (2, False), "i": (4, True), "I": (4, False),
       "l": (4, True), "L": (4, False), "q": (8, True), "Q": (8, False)}


def _codes(fmt):
    end = "<"
    if fmt and fmt[0] in "<>=!@":
        end = ">" if fmt[0] in ">!" else "<"
        fmt = fmt[1:]
    out, n = [], ""
    for c in fmt:
        if c.isdigit():
            n += c
        elif not c.isspace():
            if c == "s":
                out.append(("s", _int(n or 1)))
            else:
                out.extend([(c, 1)] * (_int(n) if n else 1))
            n = ""
    return end, out


def s_pack(fmt, *a):
    if not builtins.any(is_sym(x) or isinstance(x, SymBytes) for x in a):
        return _struct.pack(fmt, *a)
    end, codes = _codes(fmt)
    out = SymBytes([])
    ai = 0
    for c, n in codes:
        if c == "x":
            out = out + b"\0"
            continue
        v = a[ai]
        ai += 1
        if c == "s":
            it = list(byte_items(v))[:n]
            out = out + SymBytes(it + [0] * (n - len(it)))
        elif c in _SZ:
            sz, sg = _SZ[c]
            if isinstance(v, SymBool):
                v = as_int(v)
            if isinstance(v, (float, SymFloat)):
                raise _struct.error("required argument is not an integer")
            lo, hi = (-(1 << (8 * sz - 1)), (1 << (8 * sz - 1)) - 1) if sg else (0, (1 << (8 * sz)) - 1)
            if not (v >= lo and v <= hi):
                raise _struct.error("argument out of range")
            bs = [(v >> (8 * k)) & 255 for k in range(sz)]
            out = out + SymBytes(bs if end == "<" else bs[::-1])
        elif c in "fd" and isinstance(v, (SymInt, SymFloat)):
            # IEEE bytes are left uninterpreted (any bytes; the same for the same number)
            key = "f%s!%d" % (c, (v.l if isinstance(v, SymInt) else v.n).id) + ("" if isinstance(v, SymInt) else "/%d" % v.d)
            bs = [mki(sym.lvar("%s.%d" % (key, k), 0, 255)) for k in range(4 if c == "f" else 8)]
            out = out + SymBytes(bs if end == "<" else bs[::-1])
        else:
            out = out + _struct.pack(end + c, v.concrete() if isinstance(v, SymNum) else v)
    return _nb(out)


def s_unpack(fmt, b):
    if not isinstance(b, SymBytes):
        return _struct.unpack(fmt, b)
    if b.isconc():
        return _struct.unpack(fmt, bytes(b.b))
    if _struct.calcsize(fmt if fmt[:1] in "<>=!" else "<" + fmt) != len(b):
        raise _struct.error("unpack requires a buffer of the right size")
    end, codes = _codes(fmt)
    out = []
    p = 0
    for c, n in codes:
        if c == "x":
            p += 1
        elif c == "s":
            out.append(_nb(b[p:p + n]))
            p += n
        elif c in _SZ:
            sz, sg = _SZ[c]
            bs = b.b[p:p + sz]
            if end == ">":
                bs = bs[::-1]
            p += sz
            v = 0
            for k, x in enumerate(bs):
                v = v + (x << (8 * k))
            if sg:
                v = ite(v >= (1 << (8 * sz - 1)), v - (1 << (8 * sz)), v) if is_sym(v >= 0) or is_sym(
                    v >= (1 << (8 * sz - 1))) else (v - (1 << (8 * sz)) if v >= (1 << (8 * sz - 1)) else v)
            out.append(v)
        else:
            sz = _struct.calcsize(end + c)
            out.append(_struct.unpack(end + c, b[p:p + sz].concrete())[0])
            p += sz
    return tuple(out)


struct = types.ModuleType("struct")
for _n in dir(_struct):
    if not _n.startswith("__"):
        setattr(struct, _n, getattr(_struct, _n))
struct.pack = s_pack
struct.unpack = s_unpack


def _unpack_from(fmt, buffer, offset=0):
    n = _struct.calcsize(fmt)
    if len(buffer) - offset < n:
        raise _struct.error("unpack_from requires a buffer of at least %d bytes" % (offset + n))
    return s_unpack(fmt, buffer[offset:offset + n])


def _iter_unpack(fmt, buffer):
    n = _struct.calcsize(fmt)
    if len(buffer) % n:
        raise _struct.error("iterative unpacking requires a buffer of a multiple of %d bytes" % n)
    return iter([s_unpack(fmt, buffer[i:i + n]) for i in range(0, len(buffer), n)])


def _pack_into(fmt, buffer, offset, *v):
    b = list(byte_items(s_pack(fmt, *v)))
    for i, x in enumerate(b):
        buffer[offset + i] = x


class _Struct:
    def __init__(self, fmt):
        self.format, self.size = fmt, _struct.calcsize(fmt)

    def pack(self, *v):
        return s_pack(self.format, *v)

    def unpack(self, b):
        return s_unpack(self.format, b)

    def unpack_from(self, b, offset=0):
        return _unpack_from(self.format, b, offset)

    def iter_unpack(self, b):
        return _iter_unpack(self.format, b)

    def pack_into(self, buffer, offset, *v):
        return _pack_into(self.format, buffer, offset, *v)


struct.unpack_from, struct.iter_unpack, struct.pack_into, struct.Struct = _unpack_from, _iter_unpack, _pack_into, _Struct

# ------------------------------------------------------------------ random: a fixed function (never relied upon)

random = types.ModuleType("random")
random.randint = lambda a, b: (a + b) // 2
random.random = lambda: 0.5
random.randrange = lambda *a: a[0]
random.choice = lambda s: s[0]
random.seed = lambda *a: None

# ------------------------------------------------------------------ json: structural (the json module is trusted)

json = types.ModuleType("json")
import json as _json


class JsonDoc:
    def __init__(self, obj):
        self.obj = obj


def _jcopy(o):
    if isinstance(o, (list, tuple)):
        return [_jcopy(x) for x in o]
    if isinstance(o, dict):
        r = {}
        for k, v in o.items():
            if isinstance(k, (str, SymStr)):
                k2 = k
            elif k is True:
                k2 = "true"
            elif k is False:
                k2 = "false"
            elif k is None:
                k2 = "null"
            elif isinstance(k, (int, float)):
                k2 = _json.dumps(k)
            else:
                raise TypeError("keys must be str, int, float, bool or None, not " + type(k).__name__)
            r[k2] = _jcopy(v)
        return r
    if o is None or isinstance(o, (str, int, float, bool, SymNum, SymBool, SymStr, SymReal)):
        return o
    raise TypeError("Object of type %s is not JSON serializable" % type(o).__name__)


def _jdump(obj, f, **k):
    f.write(JsonDoc(_jcopy(obj)))


def _jdumps(obj, **k):
    return JsonDoc(_jcopy(obj))


def _jload(f, **k):
    d = f.read()
    return _jloads(d)


def _jloads(d, **k):
    if isinstance(d, JsonDoc):
        return _jcopy(d.obj)
    return _json.loads(d, **k)


json.dump, json.load, json.dumps, json.loads = _jdump, _jload, _jdumps, _jloads
json.JSONDecodeError = _json.JSONDecodeError

# ------------------------------------------------------------------ csv reader over symbolic lines

csv = types.ModuleType("csv")
import csv as _csv


def _csv_reader(f, delimiter=",", quotechar='"', **k):
    """the csv module's default dialect (doublequote, not strict), over lines with symbolic characters"""
    def eqc(x, ch):
        o = ord(ch)
        if type(x) is Tok:
            return False
        if isinstance(x, int):
            return x == o
        return bool(x == o)

    st = "start"
    row, cell = [], []
    for line in f:
        for x in raw(line):
            if st == "start":
                if eqc(x, quotechar):
                    st = "q"
                elif eqc(x, delimiter):
                    row.append("")
                elif eqc(x, "\n") or eqc(x, "\r"):
                    if row or st == "after":
                        pass
                    st = "eol"
                else:
                    cell = [x]
                    st = "f"
            elif st == "f":
                if eqc(x, delimiter):
                    row.append(SymStr(cell).norm())
                    cell = []
                    st = "start2"
                elif eqc(x, "\n") or eqc(x, "\r"):
                    row.append(SymStr(cell).norm())
                    cell = []
                    st = "eol"
                else:
                    cell.append(x)
            elif st == "q":
                if eqc(x, quotechar):
                    st = "qq"
                else:
                    cell.append(x)
            elif st == "qq":
                if eqc(x, quotechar):
                    cell.append(x)
                    st = "q"
                elif eqc(x, delimiter):
                    row.append(SymStr(cell).norm())
                    cell = []
                    st = "start2"
                elif eqc(x, "\n") or eqc(x, "\r"):
                    row.append(SymStr(cell).norm())
                    cell = []
                    st = "eol"
                else:
                    cell.append(x)
                    st = "f"
            elif st == "start2":
                if eqc(x, quotechar):
                    st = "q"
                elif eqc(x, delimiter):
                    row.append("")
                elif eqc(x, "\n") or eqc(x, "\r"):
                    row.append("")
                    st = "eol"
                else:
                    cell = [x]
                    st = "f"
            elif st == "eol":
                pass
        if st == "q":
            continue
        if st in ("f", "qq"):
            row.append(SymStr(cell).norm())
        elif st == "start2":
            row.append("")
        yield row
        row, cell, st = [], [], "start"
    if st == "q":
        row.append(SymStr(cell).norm())
        yield row


csv.reader = _csv_reader
csv.writer = _csv.writer
csv.QUOTE_ALL = _csv.QUOTE_ALL
csv.QUOTE_MINIMAL = _csv.QUOTE_MINIMAL

# ------------------------------------------------------------------ streams


class SymStream:
    """a seekable binary (or text) in-memory file whose content may be symbolic"""

    def __init__(self, data=None, text=False):
        self.buf = list(byte_items(data)) if data is not None else []
        self.pos = 0
        self.closed = False
        self.text = text
        self.doc = None
        self.name = "symbolic"

    def _spec(self):
        if sym.CUR is not None and sym.CUR.spec:
            raise Abort()

    def write(self, b):
        self._spec()
        if isinstance(b, JsonDoc):
            self.doc = b
            return 0
        if self.text:
            if not isinstance(b, (str, SymStr)):
                raise TypeError("write() argument must be str")
            it = [ord(c) for c in b] if isinstance(b, str) else list(b.t)
        else:
            if isinstance(b, (str, SymStr)):
                raise TypeError("a bytes-like object is required, not 'str'")
            it = list(b.t) if isinstance(b, TokBytes) else list(byte_items(b))
        p = self.pos
        if p != len(self.buf):
            self._flat()
            it = flat(it)
            p = self.pos
        if p > len(self.buf):
            self.buf.extend([0] * (p - len(self.buf)))
        self.buf[p:p + len(it)] = it
        self.pos = p + len(it)
        return len(it)

    def _flat(self):
        """split unexpanded numbers into characters"""
        if has_tok(self.buf):
            self.pos = len(flat(self.buf[:self.pos]))
            self.buf = flat(self.buf)

    def read(self, n=-1):
        self._spec()
        if self.doc is not None:
            return self.doc
        if isinstance(n, SymNum):
            n = n.concrete()
        if n is None or n < 0:
            it = self.buf[self.pos:]
        else:
            self._flat()
            it = self.buf[self.pos:self.pos + n]
        self.pos += len(it)
        if self.text:
            return SymStr(it).norm()
        return TokBytes(it) if has_tok(it) else _nb(SymBytes(it))

    def readline(self):
        self._spec()
        it = []
        while self.pos < len(self.buf):
            x = self.buf[self.pos]
            self.pos += 1
            it.append(x)
            if type(x) is not Tok and bool(x == 10):
                break
        return SymStr(it).norm() if self.text else TokBytes(it) if has_tok(it) else _nb(SymBytes(it))

    def __iter__(self):
        while True:
            l = self.readline()
            if not l:
                return
            yield l

    def seek(self, o, whence=0):
        self._spec()
        if isinstance(o, SymNum):
            o = o.concrete()
        if o is None:
            raise TypeError("an integer is required")
        if o != 0 or whence:
            self._flat()
        if whence == 1:
            o += self.pos
        elif whence == 2:
            o += len(self.buf)
        if o < 0:
            if whence == 0:
                raise ValueError("negative seek value %r" % (o,))
            o = 0
        self.pos = o
        return o

    def tell(self):
        self._flat()
        return self.pos

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def seekable(self):
        return True

    readable = writable = seekable

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def truncate(self, n=None):
        self._spec()
        self._flat()
        del self.buf[self.pos if n is None else n:]

    def getvalue(self):
        if self.text:
            return SymStr(list(self.buf)).norm()
        return TokBytes(list(self.buf)) if has_tok(self.buf) else _nb(SymBytes(list(self.buf)))

    getbuffer = getvalue


MODULES = {"math": math, "struct": struct, "random": random, "json": json, "csv": csv}

_io = types.ModuleType("io")
import io as _rio

for _n in dir(_rio):
    if not _n.startswith("__"):
        setattr(_io, _n, getattr(_rio, _n))


def _BytesIO(data=None):
    return SymStream(data)


_io.BytesIO = _BytesIO
MODULES["io"] = _io


class _Element:
    """xml.etree elements as far as the package uses them: tag, attributes in order, children"""

    def __init__(self, tag, attrib={}, **extra):
        self.tag, self.attrib, self.kids, self.text, self.tail = tag, dict(attrib, **extra), [], None, None

    def set(self, k, v):
        self.attrib[k] = v

    def get(self, k, d=None):
        return self.attrib.get(k, d)

    def append(self, e):
        self.kids.append(e)

    def __len__(self):
        return _len(self.kids)

    def __iter__(self):
        return iter(self.kids)


def _SubElement(parent, tag, attrib={}, **extra):
    e = _Element(tag, attrib, **extra)
    parent.append(e)
    return e


_ESC = {38: "&amp;", 60: "&lt;", 62: "&gt;"}
_ESC_ATTR = {38: "&amp;", 60: "&lt;", 62: "&gt;", 34: "&quot;", 13: "&#13;", 10: "&#10;", 9: "&#09;"}


def _xml(v, table):
    from .symstr import raw
    if not isinstance(v, (_str, SymStr)):
        raise TypeError("cannot serialize %r (type %s)" % (v, type(v).__name__))
    out = []
    for c in raw(v):
        if type(c) is Tok:
            out.append(c)
            continue
        if isinstance(c, SymInt):
            for k in table:
                if bool(c == k):
                    c = k
                    break
            else:
                if bool(c > 127):
                    c = c.concrete()
        if isinstance(c, _int) and (c in table or c > 127):
            out.extend(_ord(x) for x in table.get(c, "&#%d;" % c))
        else:
            out.append(c)
    return out


class _ElementTree:
    def __init__(self, element=None):
        self._root = element

    def getroot(self):
        return self._root

    def write(self, f, encoding="us-ascii", xml_declaration=None):
        if encoding != "us-ascii" or xml_declaration:
            raise PathCut("xml declaration")
        out = []

        def put(s):
            out.extend(_ord(c) for c in s)

        def emit(e):
            put("<" + e.tag)
            for k, v in e.attrib.items():
                put(' %s="' % k)
                out.extend(_xml(v, _ESC_ATTR))
                put('"')
            if e.text or e.kids:
                put(">")
                if e.text:
                    out.extend(_xml(e.text, _ESC))
                for c in e.kids:
                    emit(c)
                put("</%s>" % e.tag)
            else:
                put(" />")
            if e.tail:
                out.extend(_xml(e.tail, _ESC))
        emit(self._root)
        f.write(TokBytes(out) if has_tok(out) else _nb(SymBytes(out)))


import xml.etree.ElementTree as _ret
_et = types.ModuleType("xml.etree.cElementTree")
for _n in dir(_ret):
    if not _n.startswith("__"):
        setattr(_et, _n, getattr(_ret, _n))
_et.Element, _et.SubElement, _et.ElementTree = _Element, _SubElement, _ElementTree
MODULES["xml.etree.cElementTree"] = MODULES["xml.etree.ElementTree"] = _et


# ------------------------------------------------------------------ files by name: an in-memory folder (ctx.folder())

class Folder:
    """names (possibly symbolic) to streams; handed out by open() while it is the current one"""
    ROOT = "/verif-folder"

    def __init__(self):
        self.files = []

    def path(self, name):
        return SymStr(str_items(self.ROOT + "/") + list(str_items(name))).norm()

    def _find(self, name):
        for k, s in self.files:
            if k is name or bool(k == name):
                return s
        return None

    def put(self, name, data):
        if isinstance(data, SymStream):
            st = SymStream(None, text=data.text)
            st.doc, st.buf = data.doc, list(data.buf)
            self.files.append((self.path(name), st))
            return
        st = SymStream(None, text=isinstance(data, (_str, SymStr)))
        st.write(data)
        self.files.append((self.path(name), st))

    def get(self, name):
        s = self._find(self.path(name))
        return None if s is None else s.getvalue()

    def file(self, name):
        """the file reopened for reading (None if absent)"""
        s = self._find(self.path(name))
        return None if s is None else _reopen(s, False)

    def count(self):
        return len(self.files)

    def open(self, name, mode):
        text, m = "b" not in mode, mode.replace("b", "").replace("t", "")
        st = self._find(name)
        if m == "r":
            if st is None:
                raise FileNotFoundError(2, "No such file or directory")
            return _reopen(st, text)
        if m != "w":
            raise sym.PathCut("open mode " + mode)
        new = SymStream(None, text=text)
        self.files = [(k, s) for k, s in self.files if s is not st] + [(name, new)]
        return new


def _reopen(st, text):
    r = SymStream(None, text=text)
    r.doc = st.doc
    if text and not st.text:
        from .ctx import decoded
        r.buf = decoded(st)
    elif st.text and not text:
        for x in st.buf:
            r.buf.extend([x] if not isinstance(x, int) or x < 128 else chr(x).encode("utf8"))
    else:
        r.buf = list(st.buf)
    if text:
        # newline translation of text mode
        out = []
        for i, x in enumerate(r.buf):
            if isinstance(x, int) and x == 10 and out and isinstance(r.buf[i - 1], int) and r.buf[i - 1] == 13:
                continue
            out.append(10 if isinstance(x, int) and x == 13 else x)
        r.buf = out
    return r


FOLDER = [None]


def s_open(name, mode="r", *a, **k):
    f = FOLDER[0]
    if f is not None and isinstance(name, (_str, SymStr)):
        if sym.CUR is not None and sym.CUR.spec:
            raise Abort()
        return f.open(name, mode)
    return builtins.open(name, mode, *a, **k)


import os as _os
import os.path as _ospath

_path = types.ModuleType("os.path")
for _n in dir(_ospath):
    if not _n.startswith("__"):
        setattr(_path, _n, getattr(_ospath, _n))


def _splitext(p):
    if not isinstance(p, SymStr):
        return _ospath.splitext(p)
    sep, dot = p.rfind("/"), p.rfind(".")
    if dot > sep:
        i = sep + 1
        while i < dot:
            if bool(p[i] != "."):
                return p[:dot], p[dot:]
            i += 1
    return p, ""


def _split(p):
    if not isinstance(p, SymStr):
        return _ospath.split(p)
    i = p.rfind("/") + 1
    return (p[:i] if i <= 1 else p[:i - 1]), p[i:]


_path.splitext, _path.split = _splitext, _split
_path.basename = lambda p: _split(p)[1]
_path.dirname = lambda p: _split(p)[0]
_osm = types.ModuleType("os")
for _n in dir(_os):
    if not _n.startswith("__"):
        setattr(_osm, _n, getattr(_os, _n))
_osm.path = _path
_osm.fspath = lambda p: p if isinstance(p, SymStr) else _os.fspath(p)
MODULES["os"] = _osm


def s_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name == "os.path":
        return _path if fromlist else _osm
    if level == 0 and name in MODULES:
        return MODULES[name]
    return builtins.__import__(name, globals, locals, fromlist, level)


def s_len(o):
    if isinstance(o, SymStr) and o.k:
        return LazyLen(o)
    return _len(o)


class SymSet(_list):
    """a set of elements with symbolic hashes: distinct elements by (forking) hash and equality, in any order"""
    def add(self, x):
        if x not in self:
            self.append(x)

    def __contains__(self, x):
        return any(_same_element(x, y) for y in self)


def _hash_of(x):
    h = type(x).__hash__
    return h(x) if h is not None and not isinstance(x, (int, float, str, bytes, tuple)) else hash(x)


def _same_element(x, y):
    if x is y:
        return True
    return bool(_hash_of(x) == _hash_of(y)) and bool(x == y)


def _mk_set(xs=()):
    xs = _list(xs)
    if not any(is_sym(_hash_of(x)) for x in xs):
        return _set(xs)
    u = SymSet()
    for x in xs:
        u.add(x)
    n = _len(u)
    if n < 2:
        return u
    if n > 4:
        raise PathCut("set of more than 4 symbolic elements")
    perms = _list(itertools.permutations(range(n)))
    # the order a set is iterated in is not part of the language: every order is explored
    k = mki(sym.lvar("#set%d_%d" % (_len(sym.CUR.trail), n), 0, _len(perms) - 1))
    p = perms[k.concrete() if isinstance(k, SymInt) else k]
    return SymSet([u[i] for i in p])


class s_set(metaclass=_Meta):
    _real = set
    _sym = SymSet
    _conv = staticmethod(_mk_set)


def make_builtins():
    d = dict(builtins.__dict__)
    d.update(int=s_int, float=s_float, str=s_str, bytes=s_bytes, bytearray=s_bytearray, bool=s_bool, min=s_min,
             max=s_max, chr=s_chr, ord=s_ord, pow=s_pow, any=s_any, all=s_all, type=s_type, sum=s_sum, len=s_len,
             isinstance=s_isinstance, set=s_set, open=s_open, __import__=s_import)
    return d
