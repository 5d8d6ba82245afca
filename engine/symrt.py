"""Run-time support called by the rewritten code."""
import builtins
from . import sym
from .sym import Abort, PathCut
from .values import (SymInt, SymFloat, SymBool, SymBytes, SymNum, ite, _ite, is_sym, not_, index_list, mkb, SymBool,
                     cond_of, mki)
from .symstr import SymStr, percent, to_str
from .symreal import SymReal


class _Unbound:
    def __repr__(self):
        return "<unbound>"


UNBOUND = _Unbound()


def enter(q):
    k = sym.CUR
    if k is not None:
        k.functions.add(q)


def tick():
    k = sym.CUR
    if k is not None:
        k.ticks += 1
        if k.ticks > k.max_ticks:
            raise PathCut("step bound")


def mklist(v):
    """list display: involved integers are replaced by proved-equal affine terms"""
    k = sym.CUR
    if k is not None:
        for i, x in enumerate(v):
            if isinstance(x, SymInt):
                l = k.affine(x.l)
                if l is not x.l:
                    v[i] = mki(l)
    return v


def get(f):
    try:
        return f()
    except NameError:
        return UNBOUND


def _undecided(c):
    if isinstance(c, SymBool):
        v = sym.CUR.quick(c.c)
        return c if v is None else v
    if isinstance(c, SymNum):
        r = c != 0
        if isinstance(r, SymBool):
            v = sym.CUR.quick(r.c)
            return r if v is None else v
        return r
    return c


def _spec(f):
    """run f speculatively: no forks, no side effects; Abort on any trouble"""
    k = sym.CUR
    k.spec += 1
    try:
        return f()
    except Exception:
        raise Abort()
    finally:
        k.spec -= 1


def ifmerge(c, a, b, save, load):
    c = _undecided(c)
    if not isinstance(c, SymBool):
        if c:
            a()
        else:
            b()
        return
    s = save()
    try:
        _spec(a)
        t1 = save()
        load(s)
        _spec(b)
        t2 = save()
        out = []
        for x, y in zip(t1, t2):
            if x is y:
                out.append(x)
            elif x is UNBOUND or y is UNBOUND:
                raise Abort()
            else:
                out.append(_ite(c.c, x, y))
        load(tuple(out))
        sym.CUR.stats.merges += 1
        return
    except Abort:
        load(s)
        if sym.CUR.spec:
            raise
    if c:
        a()
    else:
        b()


def retmerge(c, a, b, save, load):
    c = _undecided(c)
    if not isinstance(c, SymBool):
        return a() if c else b()
    s = save()
    try:
        x = _spec(a)
        load(s)
        y = _spec(b)
        load(s)
        r = x if x is y else _ite(c.c, x, y)
        sym.CUR.stats.merges += 1
        return r
    except Abort:
        load(s)
        if sym.CUR.spec:
            raise
    return a() if c else b()


def ifexp(c, a, b, pure):
    c = _undecided(c)
    if not isinstance(c, SymBool):
        return a() if c else b()
    if pure:
        try:
            x = _spec(a)
            y = _spec(b)
            return x if x is y else _ite(c.c, x, y)
        except Abort:
            if sym.CUR.spec:
                raise
    return a() if c else b()


def and_(x, y, pure):
    if isinstance(x, SymBool):
        v = sym.CUR.quick(x.c)
        if v is None:
            if pure:
                try:
                    b = _spec(y)
                    if isinstance(b, (bool, SymBool)):
                        return x & b
                except Abort:
                    if sym.CUR.spec:
                        raise
            v = bool(x)
        return y() if v else False
    return y() if x else x


def or_(x, y, pure):
    if isinstance(x, SymBool):
        v = sym.CUR.quick(x.c)
        if v is None:
            if pure:
                try:
                    b = _spec(y)
                    if isinstance(b, (bool, SymBool)):
                        return x | b
                except Abort:
                    if sym.CUR.spec:
                        raise
            v = bool(x)
        return True if v else y()
    return x if x else y()


def in_(x, c):
    if isinstance(c, SymStr) or isinstance(c, SymBytes):
        return x in c
    if isinstance(x, SymStr) and isinstance(c, str):
        return SymStr([ord(k) for k in c]).__contains__(x)
    if isinstance(x, (SymNum, SymBool)):
        if isinstance(c, range):
            if c.step == 1:
                r = (x >= c.start)
                r2 = (x < c.stop)
                return r & r2 if not (isinstance(r, bool) and isinstance(r2, bool)) else (r and r2)
        if isinstance(c, (list, tuple, set, frozenset, dict)) and all(isinstance(k, (int, float)) for k in c):
            r = False
            for k in c:
                e = x == k
                if e is True:
                    return True
                if e is not False:
                    r = e if r is False else r | e
            return r
    return x in c


def idx(o, k):
    if isinstance(k, SymInt):
        if isinstance(o, (list, tuple)):
            return index_list(o, k)
        if isinstance(o, (bytes, bytearray)):
            return index_list(list(o), k)
        if isinstance(o, SymBytes):
            return index_list(o.b, k)
        if isinstance(o, str):
            r = index_list([ord(c) for c in o], k)
            return SymStr([r]).norm()
    elif isinstance(k, SymStr) and isinstance(o, dict):
        for key in o:
            if isinstance(key, str) and len(key) == len(k) and bool(k == key):
                return o[key]
        raise KeyError(k)
    return o[k]


def setidx(o, k, v):
    kk = sym.CUR
    if isinstance(k, SymInt) and isinstance(o, (list, SymBytes)) and kk is not None:
        lst = o.b if isinstance(o, SymBytes) else o
        n = len(lst)
        lo, hi = kk.interval(k.l)
        if lo != hi:
            if lo < 0 or hi >= n:
                if lo < 0 and bool(k < 0):
                    k = k + n
                    if not isinstance(k, SymInt):
                        o[k] = v
                        return
                    if bool(k < 0):
                        raise IndexError("list assignment index out of range")
                if bool(k >= n):
                    raise IndexError("list assignment index out of range")
                lo, hi = kk.interval(k.l)
                lo, hi = max(lo, 0), min(hi, n - 1)
            if isinstance(o, SymBytes):
                from .values import check_byte
                v = check_byte(v)
            try:
                if hi - lo > 5000:
                    raise Abort()
                if kk.spec:
                    raise Abort()
                new = {}
                for j in range(lo, hi + 1):
                    c = k == j
                    if c is False:
                        continue
                    new[j] = v if c is True else _ite(c.c, v, lst[j])
                for j, x in new.items():
                    lst[j] = x
                return
            except Abort:
                if kk.spec:
                    raise
    o[k] = v


_OPS = {
    "Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b, "Div": lambda a, b: a / b,
    "FloorDiv": lambda a, b: a // b, "Mod": lambda a, b: mod_(a, b), "BitOr": lambda a, b: a | b,
    "BitAnd": lambda a, b: a & b, "BitXor": lambda a, b: a ^ b, "LShift": lambda a, b: a << b,
    "RShift": lambda a, b: a >> b, "Pow": lambda a, b: a ** b, "MatMult": lambda a, b: a @ b,
}
import operator as _op

_IOPS = {
    "Add": _op.iadd, "Sub": _op.isub, "Mult": _op.imul, "Div": _op.itruediv, "FloorDiv": _op.ifloordiv,
    "Mod": _op.imod, "BitOr": _op.ior, "BitAnd": _op.iand, "BitXor": _op.ixor, "LShift": _op.ilshift,
    "RShift": _op.irshift, "Pow": _op.ipow, "MatMult": _op.imatmul,
}


def augidx(o, k, op, v):
    if isinstance(k, SymInt) and isinstance(o, (list, SymBytes)):
        setidx(o, k, _OPS[op](idx(o, k), v))
        return
    o[k] = _IOPS[op](o[k], v)


def mod_(a, b):
    if isinstance(a, str):
        t = b if isinstance(b, tuple) else (b,)
        if any(isinstance(x, (SymNum, SymBool, SymStr)) for x in t):
            return percent(a, b)
        return a % b
    return a % b


def fstr(parts):
    out = ""
    for p in parts:
        if isinstance(p, str):
            out = out + p
            continue
        v, conv, spec = p
        if conv == 114:
            v = repr(v)
        elif conv == 115:
            v = to_str(v)
        elif conv == 97:
            v = ascii(v)
        if isinstance(v, (SymNum, SymBool, SymStr)):
            out = out + _fmt(v, spec)
        else:
            out = out + builtins.format(v, spec)
    return out


def _fmt(v, spec):
    if spec == "":
        return to_str(v)
    if isinstance(spec, str) and isinstance(v, (SymInt, SymFloat)) and spec[-1:] in "dfx":
        try:
            if isinstance(v, SymInt) and spec[-1] in "dx" and "<" not in spec and ">" not in spec:
                return percent("%" + spec, v)
            if spec[-1] == "f":
                return percent("%" + spec, v)
        except (ValueError, IndexError):
            pass
    return builtins.format(v, spec)


def join(sep, it):
    if isinstance(sep, (str, SymStr)):
        it = list(it)
        if isinstance(sep, SymStr) or any(isinstance(x, SymStr) for x in it):
            r = ""
            for i, x in enumerate(it):
                if i:
                    r = r + sep
                r = r + x
            return r
        return sep.join(it)
    if isinstance(sep, bytes):
        it = list(it)
        if any(isinstance(x, SymBytes) for x in it):
            r = SymBytes([])
            for i, x in enumerate(it):
                if i:
                    r = r + sep
                r = r + x
            return r
        return sep.join(it)
    return sep.join(it)


def format_map(s, m):
    if isinstance(s, str) and isinstance(m, dict) and all(isinstance(x, str) for x in m) and any(
            isinstance(x, (SymNum, SymBool, SymStr)) for x in m.values()):
        return format(s, **m)
    return s.format_map(m)


def format(s, *a, **k):
    import builtins
    if isinstance(s, str) and any(isinstance(x, (SymNum, SymBool, SymStr)) for x in list(a) + list(k.values())):
        import string
        out = ""
        auto = 0
        for lit, fld, spec, conv in string.Formatter().parse(s):
            out = out + lit
            if fld is None:
                continue
            if fld == "":
                v = a[auto]
                auto += 1
            elif fld.isdigit():
                v = a[int(fld)]
            elif fld in k:
                v = k[fld]
            else:
                return s.format(*a, **k)
            if isinstance(v, (SymNum, SymBool, SymStr)):
                out = out + _fmt(v, spec)
            else:
                out = out + builtins.format(v, spec)
        return out
    return s.format(*a, **k)
