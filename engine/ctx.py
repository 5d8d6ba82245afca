"""The two contexts a harness runs in: symbolic (SymCtx) and concrete replay on the unmodified package (ConcCtx)."""
import io
import json
import os
from . import sym


class Violation(Exception):
    pass


class AssumeFailed(BaseException):
    pass


class Harness:
    def __init__(self, name, fn, params=None, covers=(), real=False, weight=1.0, max_decisions=4000, bounds=""):
        self.name = name
        self.fn = fn
        self.params = params or {}
        self.covers = tuple(covers)
        self.real = real
        self.weight = weight
        self.max_decisions = max_decisions
        self.bounds = bounds


def decoded(stream):
    """the characters of the utf-8 bytes of a stream"""
    out, b, i = [], stream.buf, 0
    while i < len(b):
        x = b[i]
        n = 1
        if isinstance(x, int) and x >= 0x80:
            n = 2 if x < 0xE0 else 3 if x < 0xF0 else 4
            out.extend(ord(c) for c in bytes(b[i:i + n]).decode("utf8"))
        else:
            out.append(x)
        i += n
    return out


class BaseCtx:
    symbolic = False

    def all(self, xs):
        r = True
        for x in xs:
            if x is False:
                return False
            if x is not True:
                r = x if r is True else r & x
        return r

    def any(self, xs):
        r = False
        for x in xs:
            if x is True:
                return True
            if x is not False:
                r = x if r is False else r | x
        return r

    def neg(self, x):
        from .values import not_
        return not_(x) if self.symbolic else (not x)

    def ite(self, c, a, b):
        """a where c, else b, without a fork"""
        if isinstance(c, bool):
            return a if c else b
        from .values import ite
        return ite(c, a, b)

    def implies(self, a, b):
        return self.any([self.neg(a), b])

    def eq(self, a, b):
        """structural equality as one boolean, no forks"""
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            return self.all([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, dict) and isinstance(b, dict):
            if set(a) != set(b):
                return False
            return self.all([self.eq(a[k], b[k]) for k in a])
        if a is None or b is None:
            return a is b
        r = a == b
        if r is NotImplemented:
            return False
        return r

    def le(self, a, b):
        return a <= b

    def stub(self, module, name, fn):
        """context manager: replace pyembroidery.<module>.<name> in the encoding only (the real code runs unstubbed)"""
        import contextlib

        @contextlib.contextmanager
        def cm():
            m = None
            if self.symbolic:
                try:
                    m = self.module(module)
                    old = getattr(m, name)
                except (ImportError, AttributeError):
                    m = None
            if m is None:
                yield
                return
            setattr(m, name, fn)
            try:
                yield
            finally:
                setattr(m, name, old)
        return cm()

    def stitches(self, p):
        return [(s[0], s[1], s[2]) for s in p.stitches]


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, ex, pe, known):
        self.ex = ex
        self.pe = pe
        self.known_ids = known
        self.loaded = {}

    # inputs
    def int(self, name, lo, hi):
        from .values import mki
        return mki(sym.lvar(name, lo, hi))

    def choose(self, name, seq):
        seq = list(seq)
        if len(seq) == 1:
            return seq[0]
        from .values import SymInt
        v = self.int(name, 0, len(seq) - 1)
        return seq[v.concrete() if isinstance(v, SymInt) else v]

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    def half(self, name, lo, hi, den=2):
        """a float with denominator den"""
        from .values import SymFloat, mkf
        return mkf(sym.lvar(name, lo * den, hi * den), den)

    def bytes(self, name, n):
        from .values import SymBytes
        return SymBytes([self.int("%s.%d" % (name, i), 0, 255) for i in range(n)])

    def real(self, name):
        import z3
        from .symreal import SymReal
        return SymReal(z3.Real(name))

    def angle(self, name):
        from .symreal import angle
        import z3
        a = angle(name)
        c, s = a.ang[:2]
        from .symreal import rcond
        self.ex.assume(rcond(c * c + s * s == 1))
        return a

    def cossin(self, a):
        """cosine and sine of an angle made by angle()"""
        from .symreal import SymReal
        return SymReal(a.ang[0]), SymReal(a.ang[1])

    def close(self, a, b):
        """equal; up to floating-point error when the real code runs"""
        return self.eq(a, b)

    def tofloat(self, v):
        from .shims import s_float
        return s_float(v)

    def stream(self, data=None, text=False):
        from .shims import SymStream
        if isinstance(data, str):
            s = SymStream(None, text=True)
            s.buf = [ord(c) for c in data]
            return s
        return SymStream(data, text)

    def folder(self):
        """an empty folder that open() by name works in; put, get, file, path, count"""
        from . import shims
        shims.FOLDER[0] = shims.Folder()
        return shims.FOLDER[0]

    def text_of(self, stream):
        """reopen the bytes of a stream as text"""
        from .shims import SymStream
        s = SymStream(None, text=True)
        if stream.doc is not None:
            s.doc = stream.doc
        if stream.text:
            s.buf = list(stream.buf)
            return s
        s.buf = decoded(stream)
        return s

    def module(self, name):
        import importlib
        return importlib.import_module("pyembroidery." + name)

    # claims
    def assume(self, b):
        from .values import SymBool
        if isinstance(b, SymBool):
            self.ex.assume(b.c)
        elif not b:
            raise sym.PathDead()

    def cover(self, label):
        self.ex.path_covers.add(label)

    def check(self, b, msg, known=()):
        """known: [(finding id, condition identifying it)]"""
        from .values import SymBool, cond_of, mkb
        ex = self.ex
        st = ex.stats
        st.checks += 1
        ex.path_checked = True
        if b is True:
            st.checks_static += 1
            return
        if b is None or isinstance(b, (int, float)) and not isinstance(b, bool):
            b = bool(b)
        c0 = cond_of(b)
        if not known and c0.op == "and" and ex.pos >= len(ex.prefix):
            parts, st_ = [], [c0]
            while st_:
                q = st_.pop()
                if q.op == "and":
                    st_.extend(reversed(q.args))
                else:
                    parts.append(q)
            st.checks -= 1
            for q in parts:
                self.check(mkb(q), msg)
            return
        bad = sym.cnot(c0)
        for fid, kc in known:
            if fid not in self.known_ids:
                continue
            k = cond_of(kc)
            c = sym.cand(bad, k)
            m = self._sat(c) if ex.pos >= len(ex.prefix) else None
            if isinstance(m, sym.Model):
                ex.violations.append((msg, dict(m.vals), fid))
            bad = sym.cand(bad, sym.cnot(k))
        v = ex.quick(bad)
        if v is False:
            st.checks_static += 1
            return
        if ex.pos < len(ex.prefix):
            # already discharged on the path this one branched off from, under a weaker path condition
            if isinstance(b, SymBool):
                ex._note(sym.cnot(bad), True)
            return
        m = self._sat(bad)
        if m is None:
            st.checks_solver += 1
            # bad is false on this path: continue with that knowledge
            if isinstance(b, SymBool):
                ex._note(sym.cnot(bad), True)
            return
        if m == "unknown":
            raise sym.PathCut("solver unknown at a check")
        ex.violations.append((msg, dict(m.vals), None))
        raise sym.StopPath()

    def _sat(self, c):
        ex = self.ex
        v = ex.quick(c)
        if v is False:
            return None
        try:
            if ex.pos >= len(ex.prefix) and ex.model.cond(c):
                return ex.model
        except sym.UnknownEval:
            pass
        return ex.query(c)

    def fail(self, msg, known=()):
        self.check(False, msg, known)
        raise sym.StopPath()

    def stop(self):
        raise sym.StopPath()

    def observe(self, *vals):
        self.ex.obs.extend(vals)


def evalv(v, m):
    """concrete value of a (possibly symbolic) value under a model, in JSON-able form"""
    from .values import SymInt, SymFloat, SymBool, SymBytes
    from .symstr import SymStr, Tok, TokBytes
    if isinstance(v, TokBytes):
        return [y for x in v.t for y in ([ord(c) for c in str(evalv(x.v, m))] if type(x) is Tok else [evalv(x, m)])]
    if isinstance(v, SymInt):
        return m.lin(v.l)
    if isinstance(v, SymFloat):
        return m.lin(v.n) / v.d
    if isinstance(v, SymBool):
        return m.cond(v.c)
    if isinstance(v, SymBytes):
        return [evalv(x, m) for x in v.b]
    if isinstance(v, (bytes, bytearray)):
        return list(v)
    if isinstance(v, SymStr):
        return "".join(str(evalv(x.v, m)) if type(x) is Tok else chr(evalv(x, m)) for x in v.t)
    if isinstance(v, (list, tuple)):
        return [evalv(x, m) for x in v]
    if isinstance(v, dict):
        return {str(k): evalv(x, m) for k, x in v.items()}
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    return str(type(v).__name__)


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))
    return a == b


class RealFolder:
    """the scratch folder of one replay, removed with this object"""

    def __init__(self):
        import tempfile
        self.tmp = tempfile.TemporaryDirectory(prefix="verif-folder-", ignore_cleanup_errors=True)

    def path(self, name):
        if "/" in name or "\0" in name or name in ("", ".", ".."):
            raise ValueError("not a file name: %r" % name)
        return self.tmp.name + "/" + name

    def put(self, name, data):
        if hasattr(data, "getvalue"):
            data = data.getvalue()
        with open(self.path(name), "wb") as f:
            f.write(data.encode("utf8") if isinstance(data, str) else bytes(data))

    def get(self, name):
        import os
        if not os.path.isfile(self.path(name)):
            return None
        with open(self.path(name), "rb") as f:
            return f.read()

    def file(self, name):
        b = self.get(name)
        return None if b is None else io.BytesIO(b)

    def count(self):
        import os
        return len(os.listdir(self.tmp.name))


class ConcCtx(BaseCtx):
    symbolic = False

    def __init__(self, vals, pe, known=()):
        self.vals = vals
        self.pe = pe
        self.known_ids = known
        self.obs = []
        self.covers = set()

    def int(self, name, lo, hi):
        v = self.vals.get(name)
        if v is None:
            v = min(max(0, lo), hi)
        return v

    def choose(self, name, seq):
        seq = list(seq)
        return seq[self.int(name, 0, len(seq) - 1)] if len(seq) > 1 else seq[0]

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    def half(self, name, lo, hi, den=2):
        return self.int(name, lo * den, hi * den) / den

    def bytes(self, name, n):
        return bytes(self.int("%s.%d" % (name, i), 0, 255) for i in range(n))

    def real(self, name):
        from fractions import Fraction
        v = self.vals.get("real:" + name)
        if v is None:
            import random
            v = Fraction(random.Random(name).randint(-60, 60), 4)
        return float(Fraction(v))

    def angle(self, name):
        import math
        c, s = self.vals.get("real:cos!" + name), self.vals.get("real:sin!" + name)
        if c is None and s is None:
            return self.real(name) * 3
        from fractions import Fraction
        c, s = Fraction(c or 0), Fraction(s or 0)
        return math.degrees(math.atan2(s, c))

    def cossin(self, a):
        import math
        return math.cos(math.radians(a)), math.sin(math.radians(a))

    def close(self, a, b):
        if isinstance(a, (list, tuple)):
            return len(a) == len(b) and all(self.close(x, y) for x, y in zip(a, b))
        return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))

    def tofloat(self, v):
        return float(v)

    def stream(self, data=None, text=False):
        if isinstance(data, str):
            return io.StringIO(data)
        if text:
            return io.StringIO()
        return io.BytesIO(bytes(data)) if data is not None else io.BytesIO()

    def folder(self):
        return RealFolder()

    def text_of(self, stream):
        v = stream.getvalue()
        return io.StringIO(v if isinstance(v, str) else v.decode("utf8"), newline="")

    def module(self, name):
        import importlib
        return importlib.import_module("pyembroidery." + name)

    def assume(self, b):
        if not b:
            raise AssumeFailed()

    def cover(self, label):
        self.covers.add(label)

    def check(self, b, msg, known=()):
        if not b:
            for fid, kc in known:
                if fid in self.known_ids and kc:
                    raise Violation("[known %s] %s" % (fid, msg))
            raise Violation(msg)

    def fail(self, msg, known=()):
        self.check(False, msg, known)

    def stop(self):
        raise sym.StopPath()

    def observe(self, *vals):
        self.obs.extend(vals)
