"""Import hook: loads neural_graph_composer from /repo's current source with call-site
rewriting so that the real functions can run on symbolic numbers.

Rewrites (semantics preserving on concrete values):
  * int(x), float(x), max(..), min(..), hash(x), str(x), len(x) -> hooks (identical on concrete values)
  * `a if c else b` with side-effect free operands       -> merge hook (z3 If) when c is symbolic
  * print(...) / logging calls: arguments are evaluated, text is not produced
  * f-strings inside `raise X(f"...")`: operands are evaluated, text is not produced
  * modules math / torch are replaced by wrappers that fall through to the real module
"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

from . import core

REPO = os.environ.get("SX_REPO", "/repo")
PKG = "neural_graph_composer"
HOOKED_CALLS = {"int", "float", "max", "min", "hash", "str", "len"}
LOG_METHODS = {"debug", "info", "warning", "error", "critical", "exception", "warn", "log"}


class _Hooks:
    int = staticmethod(core.to_int)

    @staticmethod
    def float(*a):
        if len(a) == 1 and core.is_sym(a[0]):
            return core.to_float(a[0])
        return float(*a)

    @staticmethod
    def hash(x):
        if type(x) in (core.SymInt, core.SymReal):
            return core.engine().hash_value(x)
        if type(x) is frozenset and core.engine() is not None:
            return core.engine().set_hash(x)
        return hash(x)

    @staticmethod
    def len(x):
        f = getattr(x, "sx_len", None)
        return len(x) if f is None else f()

    @staticmethod
    def str(*a, **k):
        return str(*a, **k)

    @staticmethod
    def _fold(native, better, a, k):
        if k or len(a) == 0:
            return native(*a, **k)
        seq = list(a[0]) if len(a) == 1 else list(a)
        if not seq or not any(core.is_sym(x) for x in seq):
            return native(seq) if len(a) == 1 else native(*seq)
        r = seq[0]
        for x in seq[1:]:
            r = core.ite(better(x, r), x, r)
        return r

    @staticmethod
    def max(*a, **k):
        return _Hooks._fold(max, lambda x, r: x > r, a, k)

    @staticmethod
    def min(*a, **k):
        return _Hooks._fold(min, lambda x, r: x < r, a, k)

    ite = staticmethod(core.ite)

    @staticmethod
    def quiet(*a, **k):
        return None


HOOKS = _Hooks()


def _root_name(n):
    while isinstance(n, (ast.Attribute, ast.Call, ast.Subscript)):
        n = n.value if not isinstance(n, ast.Call) else n.func
    return n.id if isinstance(n, ast.Name) else ""


class _StripText(ast.NodeTransformer):
    """f-string -> tuple of its operand expressions."""

    def visit_JoinedStr(self, node):
        vals = [self.visit(v.value) for v in node.values if isinstance(v, ast.FormattedValue)]
        return ast.copy_location(ast.Tuple(elts=vals, ctx=ast.Load()), node)


class Rewriter(ast.NodeTransformer):
    def __init__(self, shadowed):
        self.shadowed = shadowed

    @staticmethod
    def _is_log(call):
        f = call.func
        if isinstance(f, ast.Name) and f.id == "print":
            return True
        if isinstance(f, ast.Attribute):
            root = _root_name(f).lower()
            if f.attr in LOG_METHODS and ("log" in root or root == "warnings" or
                                          "log" in ast.dump(f.value).lower()):
                return True
        return False

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Call) and self._is_log(node.value):
            node = _StripText().visit(node)
            self.generic_visit(node)
            args = list(node.value.args) + [k.value for k in node.value.keywords]
            args = [a.value if isinstance(a, ast.Starred) else a for a in args]
            new = ast.Expr(ast.Tuple(elts=args, ctx=ast.Load()))
            return ast.copy_location(new, node)
        return self.generic_visit(node)

    def visit_Raise(self, node):
        node = _StripText().visit(node)
        return self.generic_visit(node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in HOOKED_CALLS \
                and node.func.id not in self.shadowed:
            node.func = ast.copy_location(
                ast.Attribute(ast.Name("__sx__", ast.Load()), node.func.id, ast.Load()), node.func)
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)

        def pure(n):
            if isinstance(n, ast.Constant) or isinstance(n, ast.Name):
                return True
            if isinstance(n, ast.UnaryOp):
                return pure(n.operand)
            return False
        if pure(node.body) and pure(node.orelse):
            return ast.copy_location(ast.Call(
                ast.Attribute(ast.Name("__sx__", ast.Load()), "ite", ast.Load()),
                [node.test, node.body, node.orelse], []), node)
        return node


def rewrite(src, filename):
    tree = ast.parse(src, filename)
    shadowed = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            shadowed.add(n.id)
        elif isinstance(n, ast.arg):
            shadowed.add(n.arg)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            pass
        elif isinstance(n, ast.alias):
            shadowed.add((n.asname or n.name).split(".")[0])
    for n in tree.body:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            shadowed.add(n.name)
    tree = Rewriter(shadowed).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class SymLoader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as f:
            src = f.read()
        return rewrite(src, path)

    def exec_module(self, module):
        module.__dict__["__sx__"] = HOOKS
        module.__dict__["print"] = HOOKS.quiet
        super().exec_module(module)
        from . import shims
        shims.patch_module(module)


class SymFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != PKG and not fullname.startswith(PKG + "."):
            return None
        parts = fullname.split(".")
        base = os.path.join(REPO, *parts)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            fn = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(
                fullname, fn, loader=SymLoader(fullname, fn), submodule_search_locations=[base])
        if os.path.exists(base + ".py"):
            return importlib.util.spec_from_file_location(
                fullname, base + ".py", loader=SymLoader(fullname, base + ".py"))
        return None


def install():
    sys.dont_write_bytecode = True
    if not any(isinstance(f, SymFinder) for f in sys.meta_path):
        sys.meta_path.insert(0, SymFinder())


# ------------------------------------------------------------- state shared between paths
class StateGuard:
    """Snapshots module / class level mutable containers and default arguments of the package and
    restores them between executions; clears functools caches."""

    def __init__(self, prefix=PKG):
        self.slots = []
        self.caches = []
        seen = set()

        def reg(c):
            if isinstance(c, (list, dict, set)) and id(c) not in seen:
                seen.add(id(c))
                self.slots.append((c, self._copy(c)))

        def func(f):
            f = getattr(f, "__func__", f)
            if isinstance(f, property):
                for g in (f.fget, f.fset, f.fdel):
                    if g is not None:
                        func(g)
                return
            if hasattr(f, "cache_clear"):
                self.caches.append(f)
                f = getattr(f, "__wrapped__", f)
            if isinstance(f, types.FunctionType):
                for d in (f.__defaults__ or ()):
                    reg(d)
                for d in (f.__kwdefaults__ or {}).values():
                    reg(d)

        self.attrs = []
        for name, mod in list(sys.modules.items()):
            if name != prefix and not name.startswith(prefix + "."):
                continue
            for k, v in list(vars(mod).items()):
                if k.startswith("__"):
                    continue
                reg(v)
                if isinstance(v, type) and v.__module__.startswith(prefix):
                    if id(v) in seen:
                        continue
                    seen.add(id(v))
                    keep = {}
                    for ck, cv in list(vars(v).items()):
                        if ck.startswith("__") and ck != "__init__":
                            if callable(cv):
                                func(cv)
                            continue
                        reg(cv)
                        func(cv)
                        if not callable(cv) and not isinstance(
                                cv, (property, classmethod, staticmethod)):
                            keep[ck] = cv
                    self.attrs.append((v, keep))
                elif callable(v) or hasattr(v, "cache_clear"):
                    if getattr(v, "__module__", "").startswith(prefix) or hasattr(v, "cache_clear"):
                        func(v)

    @staticmethod
    def _copy(c):
        return dict(c) if isinstance(c, dict) else set(c) if isinstance(c, set) else list(c)

    @staticmethod
    def _same(c, s):
        if len(c) != len(s):
            return False
        if isinstance(c, dict):
            return all(a is b and x is y for (a, x), (b, y) in zip(c.items(), s.items()))
        return all(a is b for a, b in zip(c, s))

    def restore(self):
        for f in self.caches:
            try:
                f.cache_clear()
            except Exception:
                pass
        for c, s in self.slots:
            if not self._same(c, s):
                if isinstance(c, dict):
                    dict.clear(c)
                    dict.update(c, s)
                elif isinstance(c, set):
                    c.clear()
                    c.update(s)
                else:
                    c[:] = s
        for cls, keep in self.attrs:
            for k, v in keep.items():
                if vars(cls).get(k) is not v:
                    try:
                        setattr(cls, k, v)
                    except Exception:
                        pass
