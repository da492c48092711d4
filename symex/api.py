"""What a harness sees.  The same harness function runs
  * symbolically (SymCtx) on the rewritten functions of /repo, and
  * concretely (ConcCtx) on the untouched package, to replay counterexamples and witnesses.
"""
import re

from . import core

REGISTRY = {}


class Harness:
    def __init__(self, fn, name, prop, params, thorough, bounds, opts):
        self.fn, self.name, self.prop = fn, name, prop
        self.params = params
        self.thorough = thorough
        self.bounds = bounds
        self.narrow = opts.pop("narrow", False)
        self.opts = opts


WIDE = 1000     # how much longer times are than the bounds written at a harness say


def widened(text):
    """the bounds as they are explored: k/8 in [-1,4] -> k/8 in [-1000,4000]"""
    def f(m):
        lo = m[2] if not m[2].startswith("-") else str(int(m[2]) * WIDE)
        return f"{m[1]}{lo},{int(m[3]) * WIDE}{m[4]}"
    return re.sub(r"(k/[\d^]+ in [\[(])(-?[\d/]+), ?(\d+)([\])])", f, text)


def harness(prop, bounds, params=({},), thorough=None, **opts):
    """Registers fn(sx, **param) for property `prop`; `thorough` replaces params in that tier."""
    props = [prop] if isinstance(prop, str) else list(prop)

    def deco(fn):
        h = Harness(fn, fn.__name__, props[0], list(params), list(thorough) if thorough is not None else list(params),
                    bounds if opts.get("narrow") else widened(bounds), opts)
        assert fn.__name__ not in REGISTRY, fn.__name__
        REGISTRY[fn.__name__] = h
        return fn
    return deco


class Refused(Exception):
    pass


def _isb(x):
    return type(x) is core.SymBool


class BaseCtx:
    symbolic = False
    narrow = False

    # boolean connectives that do not fork
    @staticmethod
    def and_(*xs):
        r = True
        for x in xs:
            if _isb(x):
                r = x if r is True else (r & x if _isb(r) else r)
            elif not x:
                return False
        return r

    @staticmethod
    def or_(*xs):
        r = False
        for x in xs:
            if _isb(x):
                r = x if r is False else (r | x if _isb(r) else r)
            elif x:
                return True
        return r

    @staticmethod
    def not_(x):
        return ~x if _isb(x) else not x

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    @staticmethod
    def iff(a, b):
        if _isb(a):
            return a == b if _isb(b) else (a if b else ~a)
        if _isb(b):
            return b if a else ~b
        return bool(a) == bool(b)

    def all_(self, xs):
        return self.and_(*list(xs))

    def any_(self, xs):
        return self.or_(*list(xs))

    @staticmethod
    def ite(c, a, b):
        return core.ite(c, a, b)

    @staticmethod
    def fixed(x):
        """the concrete value of x where the path leaves it only one, else x"""
        if not core.is_sym(x):
            return x
        eng = core.engine()
        v = eng.eval_py(x, eng.ensure_model())
        same = core.z3.simplify((x == v).e)
        return v if core.z3.is_true(same) or eng._check(core.z3.Not(same)) == core.z3.unsat else x

    def max(self, *xs):
        xs = list(xs[0]) if len(xs) == 1 else xs
        r = xs[0]
        for x in xs[1:]:
            r = core.ite(x > r, x, r)
        return r

    def min(self, *xs):
        xs = list(xs[0]) if len(xs) == 1 else xs
        r = xs[0]
        for x in xs[1:]:
            r = core.ite(x < r, x, r)
        return r

    def count(self, conds):
        n = 0
        for c in conds:
            n = n + core.ite(c, 1, 0)
        return n

    def time(self, name, hi, den=8, lo=0):
        """A float k/den with lo <= k/den <= hi (times WIDE, unless the harness is narrow): exactly representable, so real arithmetic on it
        coincides with double arithmetic."""
        wide = 1 if self.narrow else WIDE
        return self.int(name, int(lo * den) * (wide if lo < 0 else 1), int(hi * den) * wide) * (1.0 / den)

    def choice(self, name, seq):
        return seq[int(self.int(name, 0, len(seq) - 1))]

    def flag(self, name):
        return bool(self.int(name, 0, 1) == 1)

    def multiset_eq(self, xs, ys):
        """Equality of two multisets of tuples of numbers, as one condition."""
        xs, ys = list(xs), list(ys)
        if len(xs) != len(ys):
            return False
        return self.all_(self.count(self.tup_eq(x, z) for z in xs) ==
                         self.count(self.tup_eq(x, z) for z in ys) for x in xs)

    def tup_eq(self, a, b):
        a = a if isinstance(a, (tuple, list)) else (a,)
        b = b if isinstance(b, (tuple, list)) else (b,)
        if len(a) != len(b):
            return False
        return self.and_(*[self.eq(x, y) for x, y in zip(a, b)])

    @staticmethod
    def eq(x, y):
        if x is None or y is None:
            return x is y
        return x == y

    def member(self, t, ys):
        return self.any_(self.tup_eq(t, y) for y in ys)

    def attempt(self, fn, *excs):
        """(value, None) or (None, exception) when fn raises one of excs."""
        try:
            return fn(), None
        except (excs or (Exception,)) as e:
            return None, e


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, eng, labels):
        self.eng = eng
        self.obs = {}
        self.labels = labels
        self.violations = []
        self.checks = 0

    def int(self, name, lo, hi):
        return self.eng.new_int(name, lo, hi)

    def assume(self, c):
        self.eng.assume(c)

    def check(self, c, label):
        self.checks += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        eng = self.eng
        if type(c) is core.SymBool:
            import z3
            neg = z3.simplify(z3.Not(c.e))
            if z3.is_false(neg):
                return
            eng.assert_queries += 1
            r = eng._check(neg)
            if r == z3.sat:
                m = eng.solver.model()
                self.violations.append((label, eng.inputs_from(m), "assert"))
                eng._add(c.e)
                eng.ensure_model()
            elif r == z3.unknown:
                eng.complete = False
            return
        if not c:
            m = eng.ensure_model()
            self.violations.append((label, eng.inputs_from(m), "assert"))
            raise core.CheckFailed(label)

    def observe(self, key, value):
        self.obs[key] = value


class ConcCtx(BaseCtx):
    def __init__(self, inputs):
        self.inputs = inputs
        self.failed = []
        self.obs = {}
        self.infeasible = False

    def int(self, name, lo, hi):
        v = self.inputs.get(name, lo)
        return v

    def assume(self, c):
        if not c:
            raise core.PathInfeasible()

    def check(self, c, label):
        if not c:
            self.failed.append(label)

    def observe(self, key, value):
        self.obs[key] = value


def plain(x):
    """Observation -> JSON-able value (concrete mode)."""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    n = core._num(x)
    if n is not None and not isinstance(x, bool):
        return n
    if x is None or isinstance(x, (bool, str)):
        return x
    return str(type(x).__name__)


def run_concrete(h, param, inputs):
    """Run harness h on concrete inputs against the already imported (untouched) package."""
    ctx = ConcCtx(inputs)
    ctx.narrow = h.narrow
    exc = None
    tb = None
    try:
        h.fn(ctx, **param)
    except core.PathInfeasible:
        ctx.infeasible = True
    except Exception as e:
        exc = type(e).__name__
        import traceback
        tb = traceback.format_exc(limit=-4)
    return {"failed": ctx.failed, "exc": exc, "tb": tb, "infeasible": ctx.infeasible,
            "obs": {k: plain(v) for k, v in ctx.obs.items()}}
