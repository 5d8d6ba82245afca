"""Loads the package under test from its current source, rewritten so that it can run on symbolic values.

The rewriting keeps Python's semantics; it only (1) evaluates side-effect-free branches on both sides and merges them
with if-then-else instead of forking, (2) turns and/or/not/in/chained comparisons into non-forking forms where both
operands are side-effect free, (3) lets subscripts by symbolic indices and %-formatting be merged, (4) reports function
entry and loop iterations to the explorer."""
import ast
import importlib.abc
import importlib.util
import os
import sys

from . import shims
from . import symrt

PURE_BUILTINS = {"int", "float", "abs", "min", "max", "round", "len", "ord", "bool", "isinstance", "pow"}
PURE_METHODS = {"get", "bit_length"}


class Purity:
    """module-level functions whose calls have no side effects (by name, over the whole package)"""

    def __init__(self, trees):
        self.funcs = {}
        for t in trees:
            for n in t.body:
                if isinstance(n, ast.FunctionDef):
                    self.funcs.setdefault(n.name, []).append(n)
        self.pure = set()
        changed = True
        while changed:
            changed = False
            for name, defs in self.funcs.items():
                if name not in self.pure and all(self.fn(d) for d in defs):
                    self.pure.add(name)
                    changed = True

    def fn(self, d):
        if d.decorator_list or d.args.vararg or d.args.kwarg:
            return False
        return self.block(d.body)

    def block(self, b):
        return all(self.stmt(s) for s in b)

    def stmt(self, s):
        if isinstance(s, ast.Assign):
            return all(self.target(t) for t in s.targets) and self.expr(s.value)
        if isinstance(s, ast.AugAssign):
            return isinstance(s.target, ast.Name) and self.expr(s.value)
        if isinstance(s, ast.AnnAssign):
            return isinstance(s.target, ast.Name) and s.value is not None and self.expr(s.value)
        if isinstance(s, ast.If):
            return self.expr(s.test) and self.block(s.body) and self.block(s.orelse)
        if isinstance(s, ast.Return):
            return s.value is None or self.expr(s.value)
        if isinstance(s, (ast.Pass, ast.Raise)):
            return True
        if isinstance(s, ast.Expr):
            return isinstance(s.value, ast.Constant)
        return False

    def target(self, t):
        if isinstance(t, ast.Name):
            return True
        if isinstance(t, ast.Tuple):
            return all(isinstance(x, ast.Name) for x in t.elts)
        return False

    def expr(self, e):
        if e is None or isinstance(e, (ast.Constant, ast.Name)):
            return True
        if isinstance(e, ast.BinOp):
            return self.expr(e.left) and self.expr(e.right)
        if isinstance(e, ast.UnaryOp):
            return self.expr(e.operand)
        if isinstance(e, ast.BoolOp):
            return all(self.expr(v) for v in e.values)
        if isinstance(e, ast.Compare):
            return self.expr(e.left) and all(self.expr(v) for v in e.comparators)
        if isinstance(e, ast.IfExp):
            return self.expr(e.test) and self.expr(e.body) and self.expr(e.orelse)
        if isinstance(e, ast.Subscript):
            return self.expr(e.value) and self.expr(e.slice)
        if isinstance(e, ast.Attribute):
            return self.expr(e.value)
        if isinstance(e, ast.Tuple):
            return all(self.expr(v) for v in e.elts)
        if isinstance(e, ast.Call):
            if e.keywords or not all(self.expr(a) for a in e.args):
                return False
            f = e.func
            if isinstance(f, ast.Name):
                return f.id in PURE_BUILTINS or f.id in self.pure
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
                return f.value.id == "math" or (f.attr in PURE_METHODS)
        return False


def assigned(stmts, acc):
    for s in stmts:
        if isinstance(s, ast.Assign):
            for t in s.targets:
                for x in ([t] if isinstance(t, ast.Name) else t.elts):
                    if x.id not in acc:
                        acc.append(x.id)
        elif isinstance(s, (ast.AugAssign, ast.AnnAssign)):
            if s.target.id not in acc:
                acc.append(s.target.id)
        elif isinstance(s, ast.If):
            assigned(s.body, acc)
            assigned(s.orelse, acc)
    return acc


def has_return(stmts):
    return any(isinstance(n, (ast.Return, ast.Raise)) for s in stmts for n in ast.walk(s))


def always_returns(b):
    if not b:
        return False
    s = b[-1]
    if isinstance(s, ast.Return):
        return True
    if isinstance(s, ast.Raise):
        return True
    if isinstance(s, ast.If):
        return always_returns(s.body) and always_returns(s.orelse)
    return False


def name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def rt(fn):
    return ast.Attribute(value=name("__sym__"), attr=fn, ctx=ast.Load())


def call(fn, *a):
    return ast.Call(func=rt(fn), args=list(a), keywords=[])


def lam(e):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)


def noargs():
    return ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])


def walrus(e):
    return any(isinstance(n, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(e))


class Rewriter(ast.NodeTransformer):
    def __init__(self, purity, modname):
        self.p = purity
        self.mod = modname
        self.k = 0
        self.fstack = []
        self.cls = []
        self.globals = []

    # ---- expressions
    def visit_BoolOp(self, n):
        pure = [self.p.expr(v) for v in n.values]
        w = any(walrus(v) for v in n.values) or not self.fstack
        vals = [self.visit(v) for v in n.values]
        if w:
            n.values = vals
            return n
        fn = "and_" if isinstance(n.op, ast.And) else "or_"
        r = vals[-1]
        rp = pure[-1]
        for v, p in zip(vals[-2::-1], pure[-2::-1]):
            r = call(fn, v, lam(r), ast.Constant(rp))
            rp = rp and p
        return ast.copy_location(r, n)

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return ast.copy_location(call("not_", n.operand), n)
        return n

    def visit_Compare(self, n):
        pure = self.p.expr(n)
        self.generic_visit(n)
        if len(n.ops) == 1:
            if isinstance(n.ops[0], ast.In):
                return ast.copy_location(call("in_", n.left, n.comparators[0]), n)
            if isinstance(n.ops[0], ast.NotIn):
                return ast.copy_location(call("not_", call("in_", n.left, n.comparators[0])), n)
            return n
        simple = all(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)) for o in n.ops)
        if not simple or not pure or not self.fstack:
            return n
        # all operands are pure: a < b < c == (a < b) and (b < c)
        import copy
        parts = []
        left = n.left
        for o, c in zip(n.ops, n.comparators):
            parts.append(ast.Compare(left=copy.deepcopy(left), ops=[o], comparators=[copy.deepcopy(c)]))
            left = c
        r = parts[-1]
        for p in parts[-2::-1]:
            r = call("and_", p, lam(r), ast.Constant(True))
        return ast.copy_location(r, n)

    def visit_IfExp(self, n):
        pure = self.p.expr(n.body) and self.p.expr(n.orelse)
        w = walrus(n) or not self.fstack
        self.generic_visit(n)
        if w:
            return n
        return ast.copy_location(call("ifexp", n.test, lam(n.body), lam(n.orelse), ast.Constant(pure)), n)

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not isinstance(n.slice, ast.Slice):
            if isinstance(n.slice, ast.Constant):
                return n
            return ast.copy_location(call("idx", n.value, n.slice), n)
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and self.fstack and 2 <= len(n.elts) <= 4 and not any(
                isinstance(e, (ast.Constant, ast.Starred)) for e in n.elts[:2]):
            return ast.copy_location(call("mklist", ast.List(elts=n.elts, ctx=ast.Load())), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(call("mod_", n.left, n.right), n)
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion), spec], ctx=ast.Load()))
            else:
                parts.append(v)
        return ast.copy_location(call("fstr", ast.List(elts=parts, ctx=ast.Load())), n)

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in ("join", "format") and not any(
                isinstance(a, ast.Starred) for a in n.args):
            if f.attr == "join" and len(n.args) == 1 and not n.keywords:
                return ast.copy_location(call("join", f.value, n.args[0]), n)
            if f.attr == "format":
                return ast.copy_location(ast.Call(func=rt("format"), args=[f.value] + n.args, keywords=n.keywords), n)
        if isinstance(f, ast.Attribute) and f.attr == "format_map" and len(n.args) == 1 and not n.keywords:
            return ast.copy_location(call("format_map", f.value, n.args[0]), n)
        return n

    # ---- statements
    def visit_Assign(self, n):
        self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and not isinstance(
                n.targets[0].slice, (ast.Slice, ast.Constant)):
            t = n.targets[0]
            return ast.copy_location(ast.Expr(call("setidx", t.value, t.slice, n.value)), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Name) and isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Assign(targets=[name(n.target.id, ast.Store())],
                                                value=call("mod_", name(n.target.id), n.value)), n)
        if isinstance(n.target, ast.Subscript) and not isinstance(n.target.slice, (ast.Slice, ast.Constant)):
            t = n.target
            op = ast.Constant(type(n.op).__name__)
            return ast.copy_location(ast.Expr(call("augidx", t.value, t.slice, op, n.value)), n)
        return n

    def visit_FunctionDef(self, n):
        qual = ".".join([self.mod] + self.cls + [n.name])
        for d in n.decorator_list:
            pass
        gl = set()
        for x in ast.walk(n):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                gl.update(x.names)
        self.fstack.append(n.name)
        self.globals.append(gl)
        cls, self.cls = self.cls, self.cls + [n.name]
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n))
        n.body = self.block(n.body, tail=not gen)
        self.cls = cls
        self.globals.pop()
        self.fstack.pop()
        enter = ast.Expr(call("enter", ast.Constant(qual)))
        i = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body.insert(i, enter)
        return n

    def visit_ClassDef(self, n):
        cls, self.cls = self.cls, self.cls + [n.name]
        fs, self.fstack = self.fstack, []
        n.body = [self.visit(s) for s in n.body]
        self.fstack = fs
        self.cls = cls
        return n

    def visit_Lambda(self, n):
        self.fstack.append("<lambda>")
        self.globals.append(set())
        self.generic_visit(n)
        self.globals.pop()
        self.fstack.pop()
        return n

    def loop(self, n):
        n.body = self.block(n.body)
        n.orelse = self.block(n.orelse)
        if isinstance(n, ast.For):
            n.iter = self.visit(n.iter)
            n.target = self.visit(n.target)
        else:
            n.test = self.visit(n.test)
        n.body.insert(0, ast.Expr(call("tick")))
        return n

    visit_For = loop
    visit_While = loop

    def visit_With(self, n):
        n.items = [self.visit(i) for i in n.items]
        n.body = self.block(n.body)
        return n

    def visit_Try(self, n):
        n.body = self.block(n.body)
        for h in n.handlers:
            h.body = self.block(h.body)
        n.orelse = self.block(n.orelse)
        n.finalbody = self.block(n.finalbody)
        return n

    def visit_If(self, n):
        r = self.block([n])
        return r[0] if len(r) == 1 else r

    def block(self, b, tail=False):
        out = []
        for i, s in enumerate(b):
            if isinstance(s, ast.If):
                if self.fstack:
                    rest = b[i + 1:]
                    if tail and has_return([s]) and self.p.expr_ok_test(s.test) and self.p.block(s.body) \
                            and self.p.block(s.orelse) and self.p.block(rest) \
                            and not self.touches_globals([s] + rest):
                        out.extend(self.retmerge(s, rest))
                        return out
                    if not has_return([s]) and self.p.block(s.body) and self.p.block(s.orelse) \
                            and not self.touches_globals([s]):
                        out.extend(self.ifmerge(s))
                        continue
                s.test = self.visit(s.test)
                s.body = self.block(s.body, tail and i == len(b) - 1)
                s.orelse = self.block(s.orelse, tail and i == len(b) - 1)
                out.append(s)
            else:
                r = self.visit(s)
                if isinstance(r, list):
                    out.extend(r)
                elif r is not None:
                    out.append(r)
        return out

    def touches_globals(self, stmts):
        gl = self.globals[-1]
        return any(v in gl for v in assigned(stmts, []))

    def fresh(self, base):
        self.k += 1
        return "__%s_%d" % (base, self.k)

    def mkdef(self, nm, body, vs):
        body = list(body) or [ast.Pass()]
        if vs:
            body = [ast.Nonlocal(names=list(vs))] + body
        return ast.FunctionDef(name=nm, args=noargs(), body=body, decorator_list=[], type_params=[])

    def savers(self, vs, s):
        sv, ld = self.fresh("s"), self.fresh("l")
        get = ast.Tuple(elts=[call("get", lam(name(v))) for v in vs], ctx=ast.Load())
        d1 = self.mkdef(sv, [ast.Return(get)], [])
        if vs:
            asn = ast.Assign(targets=[ast.Tuple(elts=[name(v, ast.Store()) for v in vs], ctx=ast.Store())],
                             value=name("__t"))
            d2 = self.mkdef(ld, [asn], vs)
        else:
            d2 = self.mkdef(ld, [ast.Pass()], vs)
        d2.args.args = [ast.arg(arg="__t")]
        return sv, ld, d1, d2

    def ensure_bound(self, vs):
        # `nonlocal v` needs v to be a local of the enclosing function: it is, because a dead assignment says so
        if not vs:
            return []
        return [ast.If(test=ast.Constant(False), body=[
            ast.Assign(targets=[name(v, ast.Store())], value=ast.Constant(None)) for v in vs], orelse=[])]

    def ifmerge(self, s):
        vs = assigned([s], [])
        if not vs:
            s.test = self.visit(s.test)
            s.body = self.block(s.body)
            s.orelse = self.block(s.orelse)
            return [s]
        a, b = self.fresh("a"), self.fresh("b")
        sv, ld, d1, d2 = self.savers(vs, s)
        test = self.visit(s.test)
        da = self.mkdef(a, self.block(s.body), vs)
        db = self.mkdef(b, self.block(s.orelse), vs)
        c = ast.Expr(call("ifmerge", test, name(a), name(b), name(sv), name(ld)))
        r = self.ensure_bound(vs) + [da, db, d1, d2, c]
        for x in r:
            ast.copy_location(x, s)
        return r

    def retmerge(self, s, rest):
        allb = [s] + rest
        vs = assigned(allb, [])
        a, b = self.fresh("a"), self.fresh("b")
        sv, ld, d1, d2 = self.savers(vs, s)
        test = self.visit(s.test)
        ba = list(s.body) + ([] if always_returns(s.body) else rest)
        bb = list(s.orelse) + ([] if always_returns(s.orelse) else rest)
        import copy
        ba, bb = copy.deepcopy(ba), copy.deepcopy(bb)
        da = self.mkdef(a, self.block(ba, True), vs)
        db = self.mkdef(b, self.block(bb, True), vs)
        c = ast.Return(call("retmerge", test, name(a), name(b), name(sv), name(ld)))
        r = self.ensure_bound(vs) + [da, db, d1, d2, c]
        for x in r:
            ast.copy_location(x, s)
        return r


Purity.expr_ok_test = lambda self, e: True


class Loader(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, repo, pkg="pyembroidery"):
        self.root = repo
        self.pkg = pkg
        self.trees = {}
        self.bi = shims.make_builtins()
        base = os.path.join(repo, pkg)
        for dp, dn, fn in os.walk(base):
            for f in sorted(fn):
                if f.endswith(".py"):
                    p = os.path.join(dp, f)
                    with open(p, "rb") as fh:
                        src = fh.read()
                    self.trees[p] = ast.parse(src, p)
        self.purity = Purity(self.trees.values())

    def find_spec(self, fullname, path=None, target=None):
        if fullname != self.pkg and not fullname.startswith(self.pkg + "."):
            return None
        rel = fullname.split(".")
        base = os.path.join(self.root, *rel)
        if os.path.isfile(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(fullname, p, loader=self,
                                                          submodule_search_locations=[base])
        p = base + ".py"
        if os.path.isfile(p):
            return importlib.util.spec_from_file_location(fullname, p, loader=self)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        p = module.__spec__.origin
        tree = self.trees[p]
        tree = Rewriter(self.purity, module.__name__.split(".", 1)[-1]).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, p, "exec", dont_inherit=True)
        module.__dict__["__builtins__"] = self.bi
        module.__dict__["__sym__"] = symrt
        exec(code, module.__dict__)


def load(repo, pkg="pyembroidery"):
    for m in [m for m in sys.modules if m == pkg or m.startswith(pkg + ".")]:
        del sys.modules[m]
    sys.dont_write_bytecode = True
    l = Loader(repo, pkg)
    sys.meta_path.insert(0, l)
    return importlib.import_module(pkg)
