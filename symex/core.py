"""Symbolic execution core: z3-backed Python number proxies and a path explorer.

The real functions of /repo run unmodified (apart from the call-site rewriting of
loader.py) on SymInt / SymReal / SymBool values.  Whenever Python needs a concrete truth
value, SymBool.__bool__ asks the Engine, which asks z3 which outcomes are feasible under
the current path condition and explores each of them by re-execution.
"""
import math
import os
import sys
import time
from fractions import Fraction

import z3

HASH_P = (1 << 61) - 1
INF = float("inf")


PROF = {} if os.environ.get("SX_PROF") else None


def _prof():
    """counts forks per source line (SX_PROF=1, for tuning a harness)"""
    f = sys._getframe(2)
    while f and "/symex/" in f.f_code.co_filename:
        f = f.f_back
    k = f"{os.path.basename(f.f_code.co_filename)}:{f.f_lineno}" if f else "?"
    PROF[k] = PROF.get(k, 0) + 1


class EngineSignal(BaseException):
    """Control flow of the engine: never caught by `except Exception` in the code under test."""


class PathInfeasible(EngineSignal):
    pass


class PathAbort(EngineSignal):
    """The path hit a limit of the engine (not of the code)."""

    def __init__(self, why):
        super().__init__(why)
        self.why = why


class CheckFailed(EngineSignal):
    """Raised after a violated assertion so the path ends."""

    def __init__(self, label):
        super().__init__(label)
        self.label = label


_ENGINE = None


def engine():
    return _ENGINE


def set_engine(e):
    global _ENGINE
    _ENGINE = e


# --------------------------------------------------------------------------- values
def _q(v):
    """python number -> z3 Real value"""
    f = Fraction(v)
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


def is_sym(x):
    t = type(x)
    return t is SymInt or t is SymReal or t is SymBool


def has_sym(x, depth=3):
    if is_sym(x):
        return True
    if depth and isinstance(x, (list, tuple, set, frozenset)):
        return any(has_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in x.items())
    return False


def _num(x):
    """Concrete python numbers (bool, int, float, numpy scalars) -> python int/float, or None."""
    t = type(x)
    if t is int or t is float:
        return x
    if t is bool:
        return int(x)
    mod = t.__module__
    if mod == "numpy" and hasattr(x, "item") and getattr(x, "ndim", 1) == 0:
        v = x.item()
        if isinstance(v, (bool, int, float)):
            return int(v) if isinstance(v, bool) else v
        return None
    if t is Fraction:
        return float(x)
    if isinstance(x, int) and not is_sym(x):
        return int(x)
    if isinstance(x, float) and not is_sym(x):
        return float(x)
    return None


def mk_bool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


class SymBool:
    __slots__ = ("e",)
    __class__ = property(lambda self: bool)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return _ENGINE.branch(self.e)

    def _asint(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def _b(self, o):
        if type(o) is SymBool:
            return o.e
        if isinstance(o, bool) or type(o).__name__ in ("bool_", "bool"):
            return z3.BoolVal(bool(o))
        return None

    def __and__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else mk_bool(z3.And(self.e, b))

    __rand__ = __and__

    def __or__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else mk_bool(z3.Or(self.e, b))

    __ror__ = __or__

    def __xor__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else mk_bool(z3.Xor(self.e, b))

    __rxor__ = __xor__

    def __invert__(self):
        return mk_bool(z3.Not(self.e))  # only used by array code (numpy/torch semantics)

    def __eq__(self, o):
        b = self._b(o)
        if b is None:
            if is_sym(o) or _num(o) is not None:
                return self._asint() == o
            return False
        return mk_bool(self.e == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool(z3.Not(r.e)) if type(r) is SymBool else not r

    def __hash__(self):
        return hash(bool(self))

    def __add__(self, o): return self._asint() + o
    def __radd__(self, o): return o + self._asint()
    def __sub__(self, o): return self._asint() - o
    def __rsub__(self, o): return o - self._asint()
    def __mul__(self, o): return self._asint() * o
    def __rmul__(self, o): return o * self._asint()
    def __lt__(self, o): return self._asint() < o
    def __le__(self, o): return self._asint() <= o
    def __gt__(self, o): return self._asint() > o
    def __ge__(self, o): return self._asint() >= o
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def __repr__(self): return "<symbool>"

    def item(self):
        return self


class _SymNum:
    """n/d with an integer expression n and a constant d > 0 when possible, else a Real e."""
    __slots__ = ("n", "d", "_e", "_h")

    @property
    def e(self):
        if self._e is None:
            self._e = self.re()
        return self._e

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce_ex__(self, proto):
        raise PathAbort("pickling of a symbolic value")

    # -- comparison
    def _cmp(self, o, op):
        n = _num(o)
        if n is not None:
            if type(n) is float and (n != n):
                return op == "ne"
            if n == INF:
                return op in ("lt", "le", "ne")
            if n == -INF:
                return op in ("gt", "ge", "ne")
            if self.n is not None:
                f = Fraction(n)
                g = math.gcd(f.denominator, self.d)
                if f.denominator != g:      # constant is off the grid of self
                    if op == "eq":
                        return False
                    if op == "ne":
                        return True
                    c = f.numerator * self.d // f.denominator
                    a, b = self.n, z3.IntVal(c)
                    op = "le" if op in ("lt", "le") else "gt"
                else:
                    a, b = self.n, z3.IntVal(f.numerator * (self.d // f.denominator))
            else:
                a, b = self.e, _q(n)
        elif type(o) is SymInt or type(o) is SymReal:
            a, b, _ = _pair(self, o)
        elif type(o) is SymBool:
            return self._cmp(o._asint(), op)
        else:
            return NotImplemented
        if op == "lt": r = a < b
        elif op == "le": r = a <= b
        elif op == "gt": r = a > b
        elif op == "ge": r = a >= b
        elif op == "eq": r = a == b
        else: r = a != b
        return mk_bool(z3.simplify(r))

    def __lt__(self, o): return self._cmp(o, "lt")
    def __le__(self, o): return self._cmp(o, "le")
    def __gt__(self, o): return self._cmp(o, "gt")
    def __ge__(self, o): return self._cmp(o, "ge")
    def __eq__(self, o): return self._cmp(o, "eq")
    def __ne__(self, o): return self._cmp(o, "ne")

    def __hash__(self):
        return _ENGINE.sym_hash(self)

    def __bool__(self):
        return bool(self != 0)

    # -- arithmetic
    def _arith(self, o, op, rev=False):
        n = _num(o)
        if n is not None:
            if type(n) is float and (n != n or n in (INF, -INF)):
                return self._arith_special(n, op, rev)
            o = _const(n)
        elif type(o) is SymBool:
            o = o._asint()
        elif not (type(o) is SymInt or type(o) is SymReal):
            return NotImplemented
        x, y = (o, self) if rev else (self, o)
        isint = type(x) is SymInt and type(y) is SymInt
        if op in ("+", "-"):
            a, b, d = _pair(x, y)
            return _mk(a + b if op == "+" else a - b, d, isint)
        if op == "*":
            if x.n is not None and y.n is not None:
                return _mk(x.n * y.n, x.d * y.d, isint)
            return _mk(x.e * y.e, None, False) if not isint else _mk(x.n * y.n, 1, True)
        if bool(y == 0):
            raise ZeroDivisionError("division by zero")
        if op == "/":
            if x.n is not None and y.n is not None and z3.is_int_value(y.n):
                c = y.n.as_long()
                return _mk(x.n * y.d if c > 0 else -x.n * y.d, x.d * abs(c), False)
            return _mk(x.re() / y.re(), None, False)
        # // and %
        if x.n is not None and y.n is not None:
            a, b, d = _pair(x, y)
            if z3.is_int_value(b):
                pos = b.as_long() > 0
            else:
                pos = bool(_mk(b, 1, True) > 0)
            q = a / b if pos else (-a) / (-b)
            if op == "//":
                return _mk(q, 1, isint)
            return _mk(a % b if pos else a - b * q, d, isint)
        a, b = x.re(), y.re()
        q = z3.ToReal(z3.ToInt(a / b))
        return _mk(q if op == "//" else a - b * q, None, False)

    def _arith_special(self, n, op, rev):
        if n != n:
            return n
        if op == "+":
            return n
        if op == "-":
            return n if rev else -n
        if op == "*":
            if bool(self == 0):
                return float("nan")
            return n if bool(self > 0) else -n
        if op == "/":
            if rev:
                if bool(self == 0):
                    raise ZeroDivisionError
                return n if bool(self > 0) else -n
            return 0.0
        raise PathAbort("inf arithmetic")

    def __add__(self, o): return self._arith(o, "+")
    def __radd__(self, o): return self._arith(o, "+", True)
    def __sub__(self, o): return self._arith(o, "-")
    def __rsub__(self, o): return self._arith(o, "-", True)

    def __mul__(self, o):
        if isinstance(o, (list, str, tuple)):
            return o * self.__index__()
        return self._arith(o, "*")

    def __rmul__(self, o):
        if isinstance(o, (list, str, tuple)):
            return o * self.__index__()
        return self._arith(o, "*", True)

    def __truediv__(self, o): return self._arith(o, "/")
    def __rtruediv__(self, o): return self._arith(o, "/", True)
    def __floordiv__(self, o): return self._arith(o, "//")
    def __rfloordiv__(self, o): return self._arith(o, "//", True)
    def __mod__(self, o): return self._arith(o, "%")
    def __rmod__(self, o):
        if isinstance(o, str):
            return o.__mod__(self)
        return self._arith(o, "%", True)

    def __divmod__(self, o): return (self // o, self % o)
    def __rdivmod__(self, o): return (o // self, o % self)
    def __neg__(self):
        if self.n is not None:
            return _mk(-self.n, self.d, type(self) is SymInt)
        return _mk(-self.e, None, False)

    def __pos__(self): return self

    def __abs__(self):
        if self.n is not None:
            return _mk(z3.If(self.n >= 0, self.n, -self.n), self.d, type(self) is SymInt)
        return _mk(z3.If(self.e >= 0, self.e, -self.e), None, False)

    def re(self):
        """as a z3 Real expression"""
        if self.n is not None:
            r = z3.ToReal(self.n)
            return r if self.d == 1 else r / z3.RealVal(self.d)
        return self.e

    def __pow__(self, o, mod=None):
        if is_sym(o):
            o = o.__index__() if type(o) is SymInt else o.__float__()
        if mod is None and isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        return pow(_ENGINE.concretize_py(self), o, mod)

    def __rpow__(self, o):
        return o ** _ENGINE.concretize_py(self)

    def __repr__(self):
        return _ENGINE.sym_str(self)

    __str__ = __repr__

    def __format__(self, spec):
        return _ENGINE.sym_str(self, spec)

    def item(self):
        return self

    def astype(self, t, *a, **k):
        return to_float(self) if t is float else self

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    # numpy object-dtype ufuncs look these up by name
    def floor(self): return self.__floor__()
    def ceil(self): return self.__ceil__()
    def rint(self): return self.__round__()
    def sqrt(self): return math.sqrt(self.__float__())
    def log2(self): return math.log2(self.__float__())
    def log(self): return math.log(self.__float__())
    def exp(self): return math.exp(self.__float__())


class SymInt(_SymNum):
    __slots__ = ()
    __class__ = property(lambda self: int)

    def __init__(self, e):
        self._e = self.n = e
        self.d = 1
        self._h = None

    def __int__(self):
        return _ENGINE.concretize_py(self)

    __index__ = __int__
    __trunc__ = lambda self: self
    __floor__ = lambda self: self
    __ceil__ = lambda self: self

    def __round__(self, n=None):
        return self if n is None or n >= 0 else round(int(self), n)

    def __float__(self):
        return float(_ENGINE.concretize_py(self))

    def __invert__(self):
        return -self - 1

    def is_integer(self):
        return True

    def bit_length(self):
        return int(self).bit_length()

    def to_bytes(self, *a, **k):
        return int(self).to_bytes(*a, **k)

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def __and__(self, o):
        n = _num(o)
        if isinstance(n, int) and n >= 0 and (n & (n + 1)) == 0:
            return _wrap(z3.simplify(self.e % (n + 1)))
        return int(self) & int(o)

    def __rand__(self, o): return self & o
    def __or__(self, o): return int(self) | int(o)
    def __ror__(self, o): return int(o) | int(self)
    def __xor__(self, o): return int(self) ^ int(o)
    def __rxor__(self, o): return int(o) ^ int(self)

    def __lshift__(self, o):
        return self * (1 << int(o))

    def __rlshift__(self, o): return int(o) << int(self)

    def __rshift__(self, o):
        return self // (1 << int(o))

    def __rrshift__(self, o): return int(o) >> int(self)


class SymReal(_SymNum):
    __slots__ = ()
    __class__ = property(lambda self: float)

    def __init__(self, e, n=None, d=None):
        self._e = e
        self.n = n
        self.d = d
        self._h = None

    def __float__(self):
        return _ENGINE.concretize_py(self)

    def __int__(self):
        return int(self.__trunc__())

    def __floor__(self):
        if self.n is not None:
            return _mk(self.n / self.d, 1, True)
        return _mk(z3.ToInt(self.e), 1, True)

    def __ceil__(self):
        if self.n is not None:
            return _mk(-((-self.n) / self.d), 1, True)
        return _mk(-z3.ToInt(-self.e), 1, True)

    def __trunc__(self):
        if self.n is not None:
            return _mk(z3.If(self.n >= 0, self.n / self.d, -((-self.n) / self.d)), 1, True)
        return _mk(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)), 1, True)

    def is_integer(self):
        if self.n is not None:
            return mk_bool(z3.simplify(self.n % self.d == 0))
        return mk_bool(z3.simplify(self.e == z3.ToReal(z3.ToInt(self.e))))

    def __round__(self, n=None):
        if n is None or n == 0:
            if self.n is not None:
                h = (2 * self.n + self.d) / (2 * self.d)
                tie = (2 * self.n + self.d) % (2 * self.d) == 0
            else:
                h = z3.ToInt(self.e + _q(Fraction(1, 2)))
                tie = z3.ToReal(h) == self.e + _q(Fraction(1, 2))
            r = _mk(z3.If(z3.And(tie, h % 2 == 1), h - 1, h), 1, True)
            return r if n is None else to_float(r)
        s = 10 ** int(n)
        return to_float((self * s).__round__()) / s


def _const(n):
    if type(n) is float:
        f = Fraction(n)
        return SymReal(None, z3.IntVal(f.numerator), f.denominator)
    return SymInt(z3.IntVal(n))


def _mk(n, d, isint):
    """n/d (d constant) or, with d None, the Real n -> value"""
    n = z3.simplify(n)
    if d is None:
        return _wrap(n)
    if isint:
        return n.as_long() if z3.is_int_value(n) else SymInt(n)
    if z3.is_int_value(n):
        fr = Fraction(n.as_long(), d)
        f = float(fr)
        if Fraction(f) == fr:
            return f
        return SymReal(None, z3.IntVal(fr.numerator), fr.denominator)
    if d != 1 and n.decl().kind() == z3.Z3_OP_MUL and z3.is_int_value(n.arg(0)):
        c = n.arg(0).as_long()
        g = math.gcd(c, d)
        if g > 1 and n.num_args() == 2:
            d //= g
            c //= g
            n = n.arg(1) if c == 1 else z3.IntVal(c) * n.arg(1)
    return SymReal(None, n, d)


def _wrap(e):
    if z3.is_int(e):
        if z3.is_int_value(e):
            return e.as_long()
        return SymInt(e)
    if z3.is_rational_value(e):
        fr = Fraction(e.numerator_as_long(), e.denominator_as_long())
        f = float(fr)
        if Fraction(f) == fr:
            return f
        return SymReal(e)
    return SymReal(e)


def _pair(x, y):
    """common representation: (a, b, d) meaning a/d and b/d, d None for Reals"""
    if x.n is not None and y.n is not None:
        if x.d == y.d:
            return x.n, y.n, x.d
        d = x.d * y.d // math.gcd(x.d, y.d)
        fx, fy = d // x.d, d // y.d
        return (x.n if fx == 1 else x.n * fx), (y.n if fy == 1 else y.n * fy), d
    return x.re(), y.re(), None


def to_float(x):
    """float(x) without concretising"""
    if type(x) is SymInt:
        return SymReal(None, x.n, 1)
    if type(x) is SymReal:
        return x
    if type(x) is SymBool:
        return to_float(x._asint())
    return float(x)


def to_int(x, *a):
    if not a:
        if type(x) is SymReal:
            return x.__trunc__()
        if type(x) is SymInt:
            return x
        if type(x) is SymBool:
            return x._asint()
    return int(x, *a)


def expr(x, want_real=False):
    """value -> z3 expression"""
    if type(x) is SymInt:
        return x.re() if want_real else x.e
    if type(x) in (SymReal, SymBool):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    n = _num(x)
    if n is None:
        raise PathAbort(f"no expression for {type(x)}")
    if isinstance(n, int) and not want_real:
        return z3.IntVal(n)
    return _q(n)


def ite(c, a, b):
    """c ? a : b without forking when both are numbers"""
    if type(c) is not SymBool:
        return a if c else b
    if (is_sym(a) or _num(a) is not None) and (is_sym(b) or _num(b) is not None):
        ra = type(a) is SymReal or type(_num(a)) is float
        rb = type(b) is SymReal or type(_num(b)) is float
        if any(type(_num(v)) is float and not math.isfinite(_num(v)) for v in (a, b)):
            return a if c else b
        if ra == rb and type(a) is not SymBool and type(b) is not SymBool:
            x = a if is_sym(a) else _const(_num(a))
            y = b if is_sym(b) else _const(_num(b))
            p, q, d = _pair(x, y)
            return _mk(z3.If(c.e, p, q), d, not ra)
    return a if c else b


# --------------------------------------------------------------------------- engine
class Violation:
    def __init__(self, label, inputs, detail, kind):
        self.label = label
        self.inputs = inputs
        self.detail = detail
        self.kind = kind  # 'assert' | 'exception'


class Engine:
    def __init__(self, max_paths=20000, time_budget=600.0, hash_constants=(0,), grid_bits=None,
                 str_mode="opaque", query_timeout_ms=20000):
        self.max_paths = max_paths
        self.deadline = time.monotonic() + time_budget
        self.base_hash_constants = tuple(hash_constants)
        self.grid_bits = grid_bits
        self.str_mode = str_mode
        self.hash_mode = "const"
        self.solver = z3.Solver()
        self.solver.set("timeout", query_timeout_ms)
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.decisions = 0
        self.paths = 0
        self.infeasible = 0
        self.aborted = []
        self.concretised = 0
        self.complete = True
        self.assert_queries = 0
        self.worklist = [[]]
        self.vars = {}

    # ---- path life cycle
    def start_path(self, prefix):
        self.solver.reset()
        self.prefix = prefix
        self.trace = []
        self.pos = 0
        self.model = None
        self.vars = {}
        self.known = {}
        self.set_ids = []
        self.hash_constants = self.base_hash_constants
        self.steps = 0

    def _check(self, *extra):
        self.queries += 1
        t = time.monotonic()
        if t > self.deadline:
            self.complete = False
            raise PathAbort("time budget")
        r = self.solver.check(*extra)
        self.solver_s += time.monotonic() - t
        if r == z3.unknown:
            self.unknown += 1
        return r

    def ensure_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise PathInfeasible()
            if r == z3.unknown:
                self.complete = False
                raise PathAbort("solver returned unknown")
            self.model = self.solver.model()
        return self.model

    def _add(self, c):
        self.solver.add(c)
        if self.model is not None and not z3.is_true(self.model.eval(c, model_completion=True)):
            self.model = None

    def assume(self, c):
        if type(c) is SymBool:
            self._add(c.e)
            if self.pos >= len(self.prefix):
                self.ensure_model()
        elif not c:
            raise PathInfeasible()

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = c.get_id()
        hit = self.known.get(k)
        if hit is not None:
            return hit[0]
        if self.pos < len(self.prefix):
            kind, taken = self.prefix[self.pos]
            if kind != "b":
                raise PathAbort("non-deterministic re-execution")
            self.pos += 1
            self.trace.append(("b", taken))
            self._add(c if taken else z3.Not(c))
            self.known[k] = (taken, c)
            return taken
        m = self.ensure_model()
        v = m.eval(c, model_completion=True)
        if z3.is_true(v):
            first = True
        elif z3.is_false(v):
            first = False
        else:
            first = True
            if self._check(c) != z3.sat:
                first = False
        other = z3.Not(c) if first else c
        r = self._check(other)
        if r == z3.sat:
            self.worklist.append(self.trace + [("b", not first)])
        elif r == z3.unknown:
            self.complete = False
        self.trace.append(("b", first))
        if r != z3.unsat:
            self.decisions += 1
            if PROF is not None:
                _prof()
            self._add(c if first else z3.Not(c))
        self.known[k] = (first, c)
        return first

    def concretize(self, e):
        """Fork over the values of e; returns a z3 value."""
        e = z3.simplify(e)
        if z3.is_int_value(e) or z3.is_rational_value(e):
            return e
        while True:
            if self.pos < len(self.prefix):
                kind, taken = self.prefix[self.pos]
                if kind == "b":
                    raise PathAbort("non-deterministic re-execution")
                v = kind[1]
                self.pos += 1
                self.trace.append((kind, taken))
                self._add(e == v if taken else e != v)
                if taken:
                    return v
                continue
            self.concretised += 1
            v = self.ensure_model().eval(e, model_completion=True)
            if z3.is_algebraic_value(v):
                raise PathAbort("algebraic value")
            r = self._check(e != v)
            if r == z3.sat:
                self.worklist.append(self.trace + [(("v", v), False)])
            elif r == z3.unknown:
                self.complete = False
            self.trace.append((("v", v), True))
            if r != z3.unsat:
                self.decisions += 1
                if PROF is not None:
                    _prof()
                self._add(e == v)
            return v

    def concretize_py(self, x):
        if x.n is not None:
            v = self.concretize(x.n).as_long()
            return v if type(x) is SymInt else float(Fraction(v, x.d))
        return self._py(self.concretize(x.e))

    @staticmethod
    def _py(v):
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        raise PathAbort(f"value {v}")

    # ---- hashing and text
    def sym_hash(self, x):
        if x._h is not None:
            return x._h
        if self.hash_mode == "concrete":
            x._h = hash(self.concretize_py(x))
            return x._h
        for c in self.hash_constants:
            if bool(x == c):
                x._h = hash(c)
                return x._h
        x._h = 0x5A5A5A
        return x._h

    def hash_value(self, x):
        """hash(x) as a value (exact for ints below 2^61-1 and dyadic rationals)."""
        if type(x) is SymInt:
            r = z3.simplify(z3.If(x.e == -1, z3.IntVal(-2), x.e))
            return _wrap(r)
        m = self.grid_bits if self.grid_bits is not None else 4
        sc = x * (1 << m)
        if bool(sc.is_integer()):
            scaled = sc.__floor__()
            if not is_sym(scaled):
                return hash(scaled / (1 << m))
            scaled = scaled.e
            a = z3.If(scaled >= 0, scaled, -scaled)
            hi = (a * (1 << (61 - m))) % HASH_P if m else a % HASH_P
            r = z3.If(scaled >= 0, hi, -hi)
            r = z3.If(r == -1, z3.IntVal(-2), r)
            return _wrap(z3.simplify(r))
        return hash(self.concretize_py(x))

    def set_hash(self, x):
        """hash() of a frozenset as an injective function of its elements: one number per distinct
        set of the path (the real hash is assumed free of collisions, as the code does)."""
        if not all(is_sym(v) or type(v) in (int, float) for v in x):
            return hash(x)
        for s, h in self.set_ids:
            if len(s) == len(x) and bool(s == x):
                return h
        h = 1000003 + 17 * len(self.set_ids)
        self.set_ids.append((x, h))
        return h

    def sym_str(self, x, spec=""):
        if self.str_mode == "concrete":
            return format(self.concretize_py(x), spec)
        return f"<{x.e.get_id()}>"

    # ---- inputs
    def new_int(self, name, lo, hi):
        if lo == hi:
            self.vars[name] = lo
            return lo
        v = z3.Int(name)
        self._add(v >= lo)
        self._add(v <= hi)
        s = SymInt(v)
        self.vars[name] = s
        return s

    def new_bool(self, name):
        s = SymBool(z3.Bool(name))
        self.vars[name] = s
        return s

    def inputs_from(self, model):
        out = {}
        for n, s in self.vars.items():
            if is_sym(s):
                out[n] = self._py(model.eval(s.e, model_completion=True))
            else:
                out[n] = s
        return out

    def eval_py(self, x, model):
        """Evaluate an observation (nested containers of values) under a model."""
        if is_sym(x):
            if type(x) is SymReal and x.n is not None:
                return float(Fraction(model.eval(x.n, model_completion=True).as_long(), x.d))
            v = model.eval(x.e, model_completion=True)
            return self._py(v)
        if isinstance(x, dict):
            return {str(k): self.eval_py(v, model) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [self.eval_py(v, model) for v in x]
        n = _num(x)
        if n is not None and not isinstance(x, bool):
            return n
        if x is None or isinstance(x, (bool, str)):
            return x
        return str(type(x).__name__)
