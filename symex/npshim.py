"""The few numpy operations that package modules without torch apply to symbolic values: one
dimensional arrays that may have a symbolic length, filled by slices of arithmetic ramps.
Everything else falls through to numpy."""
import numpy as _np

from . import core


def _scalar(v):
    """element as numpy would hand it out"""
    if core.is_sym(v):
        return v
    if isinstance(v, float):
        return _np.float64(v)
    return v


class Ramp:
    """i -> base + step * i for 0 <= i < n (np.arange and its affine images)"""

    __array_ufunc__ = None  # a numpy scalar leaves the arithmetic to the ramp

    def __init__(self, n, base=0, step=1):
        self.n, self.base, self.step = n, base, step

    def at(self, i):
        return self.base + self.step * i

    def __mul__(self, k): return Ramp(self.n, self.base * k, self.step * k)
    __rmul__ = __mul__
    def __truediv__(self, k): return Ramp(self.n, self.base / k, self.step / k)
    def __add__(self, k): return Ramp(self.n, self.base + k, self.step)
    __radd__ = __add__
    def __sub__(self, k): return Ramp(self.n, self.base - k, self.step)
    def __rsub__(self, k): return Ramp(self.n, k - self.base, -self.step)
    def __neg__(self): return Ramp(self.n, -self.base, -self.step)
    def sx_len(self): return self.n
    def __len__(self): return int(self.n)

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise core.PathAbort("slice of a ramp")
        if bool(i < 0):
            i = i + self.n
        if not bool(core.SymBool(core.z3.And(core.expr(i) >= 0, core.expr(i) < core.expr(self.n)))):
            raise IndexError("index out of bounds")
        return self.at(i)

    @property
    def shape(self): return (self.n,)


def _ramp(v):
    """a concrete vector whose elements are an arithmetic ramp, exactly"""
    if type(v) is not _np.ndarray or v.ndim != 1 or len(v) < 8 or v.dtype.kind not in "fi":
        return None
    base, step = v[0].item(), (v[1] - v[0]).item()
    if not (base + step * _np.arange(len(v)) == v).all() or (step * 1048576) % 1 or (base * 1048576) % 1:
        return None
    return Ramp(len(v), base, step)


class SArr:
    """a float or int vector; n may be symbolic.  Writes are kept newest last."""
    __class__ = property(lambda self: _np.ndarray)

    def __init__(self, n, fill=0.0):
        self.n = n
        self.fill = fill
        self.writes = []

    def sx_len(self):
        return self.n

    def __len__(self):
        return int(self.n)

    @property
    def shape(self):
        return (self.n,)

    @property
    def size(self):
        return self.n

    def _index(self, i):
        if not core.is_sym(i):
            i = int(i)
        if bool(i < 0):
            i = i + self.n
            if bool(i < 0):
                raise IndexError("index out of bounds")
        if bool(i >= self.n):
            raise IndexError("index out of bounds")
        return i

    def _bounds(self, s):
        if s.step not in (None, 1):
            raise core.PathAbort("strided slice")
        a = 0 if s.start is None else s.start
        b = self.n if s.stop is None else s.stop
        if bool(a < 0):
            a = a + self.n
        if bool(b < 0):
            b = b + self.n
        if bool(b > self.n):
            b = self.n
        if bool(a > b):
            a = b
        return a, b

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            a, b = self._bounds(i)
            if isinstance(v, Ramp):
                if bool(v.n != b - a):
                    raise ValueError("could not broadcast input array")
            elif _ramp(v) is not None:
                v = _ramp(v)
                if bool(b - a != v.n):
                    raise ValueError("could not broadcast input array")
            elif hasattr(v, "__len__"):
                v = list(v)
                if bool(b - a != len(v)):
                    raise ValueError("could not broadcast input array")
            self.writes.append((a, b, v))
            return
        i = self._index(i)
        self.writes.append((i, i + 1, v))

    def at(self, i):
        r = self.fill
        for a, b, v in self.writes:
            if isinstance(v, Ramp):
                x = v.at(i - a)
            elif isinstance(v, list):
                x = v[int(i - a)] if bool(i >= a) and bool(i < b) else None
            else:
                x = v
            c1, c2 = i >= a, i < b
            if not core.is_sym(c1) and not core.is_sym(c2):
                if c1 and c2:
                    r = x
                continue
            c = core.SymBool(core.z3.simplify(core.z3.And(core.expr(bool(c1)) if not core.is_sym(c1) else c1.e,
                                                          core.expr(bool(c2)) if not core.is_sym(c2) else c2.e)))
            if isinstance(v, list):
                if bool(c):
                    r = x
                continue
            r = core.ite(c, _f(x), _f(r)) if isinstance(self.fill, float) else core.ite(c, x, r)
        return r

    def __getitem__(self, i):
        if isinstance(i, slice):
            a, b = self._bounds(i)
            return SArr.of([self.at(k) for k in range(int(a), int(b))])
        return _scalar(self.at(self._index(i)))

    @staticmethod
    def of(xs):
        r = SArr(len(xs))
        for k, x in enumerate(xs):
            r.writes.append((k, k + 1, x))
        return r

    def __iter__(self):
        return iter([_scalar(self.at(k)) for k in range(int(self.n))])

    def tolist(self):
        return [self.at(k) for k in range(int(self.n))]

    def __repr__(self):
        return "<sarr>"


def _f(x):
    return core.to_float(x) if core.is_sym(x) else float(x)


class LArr:
    """a vector of known length whose elements may be symbolic"""
    __class__ = property(lambda self: _np.ndarray)

    def __init__(self, xs):
        self.xs = list(xs)

    def sx_len(self): return len(self.xs)
    def __len__(self): return len(self.xs)
    def __iter__(self): return iter([_scalar(x) for x in self.xs])
    def tolist(self): return list(self.xs)

    @property
    def shape(self): return (len(self.xs),)

    @property
    def size(self): return len(self.xs)

    @property
    def dtype(self): return _np.dtype(float)

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*[None if v is None else int(v) for v in (i.start, i.stop, i.step)])
            return LArr(self.xs[i])
        if isinstance(i, (list, _np.ndarray, LArr)) or type(i) is LArr:
            m = list(i)
            if m and all(isinstance(v, (bool, _np.bool_)) or type(v) is core.SymBool for v in m):
                if len(m) != len(self.xs):
                    raise IndexError("boolean index did not match")
                return LArr([x for x, c in zip(self.xs, m) if bool(c)])
            return LArr([self.xs[int(k)] for k in m])
        return _scalar(self.xs[int(i)])

    def _map(self, o, f):
        if type(o) in (LArr, list, tuple) or isinstance(o, _np.ndarray):
            return LArr([f(a, b) for a, b in zip(self.xs, list(o), strict=True)])
        return LArr([f(a, o) for a in self.xs])

    def __lt__(self, o): return self._map(o, lambda a, b: a < b)
    def __le__(self, o): return self._map(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._map(o, lambda a, b: a > b)
    def __ge__(self, o): return self._map(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._map(o, lambda a, b: a == b)
    def __ne__(self, o): return self._map(o, lambda a, b: a != b)
    __hash__ = None
    def __add__(self, o): return self._map(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._map(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._map(o, lambda a, b: b - a)
    def __mul__(self, o): return self._map(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._map(o, lambda a, b: a / b)
    def __or__(self, o): return self._map(o, lambda a, b: a | b)
    def __and__(self, o): return self._map(o, lambda a, b: a & b)
    __ror__, __rand__ = __or__, __and__
    def any(self): return any(bool(x) for x in self.xs)
    def all(self): return all(bool(x) for x in self.xs)
    def __neg__(self): return LArr([-x for x in self.xs])
    def __abs__(self): return LArr([abs(x) for x in self.xs])
    def __rtruediv__(self, o): return self._map(o, lambda a, b: b / a)
    def __floordiv__(self, o): return self._map(o, lambda a, b: a // b)
    def __mod__(self, o): return self._map(o, lambda a, b: a % b)
    def __pow__(self, o): return self._map(o, lambda a, b: a ** b)
    def __invert__(self): return LArr([not bool(x) for x in self.xs])

    def __setitem__(self, i, v):
        if isinstance(i, slice) or type(i) is LArr or isinstance(i, (list, _np.ndarray)):
            ks = _np.arange(len(self.xs))
            ks = ks[i] if isinstance(i, slice) else [j for j, c in enumerate(i) if bool(c)] if \
                _mask(list(i), len(self.xs)) else [int(j) for j in i]
            many = type(v) in (LArr, list, tuple) or isinstance(v, _np.ndarray)
            for k, x in zip(ks, list(v) if many else [v] * len(ks), strict=True):
                self.xs[int(k)] = x
        else:
            self.xs[int(i)] = v

    def max(self, *a, **k): return _Np.max(self)
    def min(self, *a, **k): return _Np.min(self)
    def sum(self, *a, **k): return _Np.sum(self)
    def mean(self, *a, **k): return _Np.mean(self)
    def cumsum(self, *a, **k): return _Np.cumsum(self)
    def clip(self, lo=None, hi=None, **k): return _Np.clip(self, lo, hi)
    def round(self, decimals=0): return _Np.round(self, decimals)
    def argsort(self, *a, **k): return _Np.argsort(self)
    def nonzero(self): return (_Np.flatnonzero(self),)
    def copy(self, *a): return LArr(self.xs)
    def flatten(self, *a): return LArr(self.xs)
    ravel = flatten
    ndim = 1

    def sort(self, *a, **k):
        self.xs.sort()

    def astype(self, dt, *a, **k):
        if dt in (int, _np.int64, _np.int32, "int", "int64"):
            return LArr([core.to_int(x) if hasattr(core, "to_int") and core.is_sym(x) else _int(x) for x in self.xs])
        if dt in (bool, _np.bool_):
            return LArr([bool(x) for x in self.xs])
        return LArr([_f(x) for x in self.xs])

    def __repr__(self): return "<larr>"


def _mask(m, n):
    return bool(m) and len(m) == n and all(isinstance(v, (bool, _np.bool_)) or type(v) is core.SymBool for v in m)


def _int(x):
    return x.__trunc__() if core.is_sym(x) else int(x)


def _vec(x):
    """list of the elements if x is a symbolic vector, else None"""
    if type(x) is LArr:
        return x.xs
    if type(x) is SArr:
        return x.tolist()
    if isinstance(x, (list, tuple)) and core.has_sym(list(x), 1):
        return list(x)
    if type(x) is _np.ndarray and x.dtype == object and x.ndim == 1:
        return list(x)
    return None


class _F64Meta(type):
    def __call__(cls, x=0.0): return core.to_float(x) if core.is_sym(x) else _np.float64(x)
    def __instancecheck__(cls, x): return isinstance(x, _np.float64)


class F64(metaclass=_F64Meta):
    """stands for numpy.float64 as a conversion"""


class _Np:
    """stands for the numpy module"""
    float64 = F64

    def __getattr__(self, name):
        return getattr(_np, name)

    @staticmethod
    def zeros(n, dtype=float, *a, **k):
        if isinstance(n, (int, _np.integer)) or core.is_sym(n):
            n = n if core.is_sym(n) else int(n)
            return SArr(n, 0.0 if dtype in (float, F64, _np.float64, _np.float32) else 0)
        return _np.zeros(n, _np.float64 if dtype is F64 else dtype, *a, **k)

    @staticmethod
    def arange(*a, **k):
        if len(a) == 1 and not k and core.is_sym(a[0]):
            return Ramp(a[0] if bool(a[0] > 0) else 0)
        return _np.arange(*a, **k)

    @staticmethod
    def searchsorted(arr, v, side="left", sorter=None):
        xs = arr if isinstance(arr, SArr) else None
        if type(arr) is not SArr:
            if isinstance(arr, (list, tuple, _np.ndarray)) and not core.is_sym(v) \
                    and not core.has_sym(list(arr)):
                return _np.searchsorted(arr, v, side, sorter)
            xs = SArr.of(list(arr))
        if not core.is_sym(v) and not core.is_sym(xs.n):
            lo, hi = 0, xs.n
            while lo < hi:
                mid = (lo + hi) // 2
                x = xs.at(mid)
                if core.is_sym(x):
                    break
                if x < v or (side == "right" and x == v):
                    lo = mid + 1
                else:
                    hi = mid
            else:
                return lo
        eng = core.engine()
        k = core.SymInt(core.z3.FreshInt("pos"))
        n = xs.n
        eng._add(core.z3.And(k.e >= 0, k.e <= core.expr(n)))
        eng.model = None
        # the array is taken to be ascending (numpy's precondition)
        if bool(k < n):
            x = _f(xs.at(k))
            eng.assume(x >= v if side == "left" else x > v)
        if bool(k > 0):
            x = _f(xs.at(k - 1))
            eng.assume(x < v if side == "left" else x <= v)
        return k

    @staticmethod
    def clip(x, lo=None, hi=None, *a, **k):
        v = _vec(x)
        if v is not None or (type(x) is _np.ndarray and (core.is_sym(lo) or core.is_sym(hi))):
            return LArr([_Np.clip(e, lo, hi) for e in (v if v is not None else x.tolist())])
        lo, hi = k.pop("a_min", lo), k.pop("a_max", hi)
        if core.is_sym(x) or core.is_sym(lo) or core.is_sym(hi):
            if lo is not None and lo != -core.INF:
                x = core.ite(x < lo, _f(lo), _f(x)) if type(x) is not core.SymInt or \
                    isinstance(lo, float) else core.ite(x < lo, lo, x)
            if hi is not None and hi != core.INF:
                x = core.ite(x > hi, hi, x)
            return x
        return _np.clip(x, lo, hi, *a, **k)

    @staticmethod
    def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        v = _vec(a)
        if v is None and type(a) is _np.ndarray and core.is_sym(b):
            v = a.tolist()
        if v is not None:
            return LArr([_Np.isclose(x, b, rtol, atol) for x in v])
        if core.is_sym(a) or core.is_sym(b):
            return abs(a - b) <= atol + rtol * abs(b)
        return _np.isclose(a, b, rtol, atol, equal_nan)

    @staticmethod
    def array(x, *a, **k):
        v = _vec(x)
        return LArr([float(y) if not core.is_sym(y) else core.to_float(y) for y in v]) if v is not None else _np.array(x, *a, **k)

    @staticmethod
    def asarray(x, *a, **k):
        return x if type(x) in (LArr, SArr) else _Np.array(x, *a, **k)

    @staticmethod
    def flatnonzero(x):
        v = _vec(x)
        return _np.array([i for i, c in enumerate(v) if bool(c)], dtype=int) if v is not None else _np.flatnonzero(x)

    @staticmethod
    def concatenate(xs, *a, **k):
        vs = [_vec(x) for x in xs]
        if any(v is not None for v in vs):
            return LArr([e for x, v in zip(xs, vs) for e in (v if v is not None else list(x))])
        return _np.concatenate(xs, *a, **k)

    @staticmethod
    def append(a, b, *r, **k):
        va, vb = _vec(a), _vec(b)
        if va is not None or vb is not None or core.is_sym(b):
            bs = vb if vb is not None else [b] if core.is_sym(b) or not hasattr(b, "__len__") else list(b)
            return LArr((va if va is not None else list(a)) + bs)
        return _np.append(a, b, *r, **k)

    @staticmethod
    def sort(x, *a, **k):
        v = _vec(x)
        return LArr(sorted(v)) if v is not None else _np.sort(x, *a, **k)


    @staticmethod
    def diff(x, n=1, **k):
        v = _vec(x)
        return LArr([b - a for a, b in zip(v, v[1:])]) if v is not None and n == 1 else _np.diff(x, n, **k)

    @staticmethod
    def cumsum(x, *a, **k):
        v = _vec(x)
        if v is None:
            return _np.cumsum(x, *a, **k)
        out = []
        for e in v:
            out.append(out[-1] + e if out else e)
        return LArr(out)

    @staticmethod
    def sum(x, *a, **k):
        v = _vec(x)
        if v is None:
            return _np.sum(x, *a, **k)
        r = 0.0
        for e in v:
            r = r + e
        return r

    @staticmethod
    def mean(x, *a, **k):
        v = _vec(x)
        return _Np.sum(v) / len(v) if v is not None else _np.mean(x, *a, **k)

    @staticmethod
    def interp(x, xp, fp, *a, **k):
        one = core.is_sym(x)
        v = [x] if one else _vec(x)
        ks, vs = _vec(xp), _vec(fp)
        if v is None and ks is None and vs is None:
            return _np.interp(x, xp, fp, *a, **k)
        ks = ks if ks is not None else [float(e) for e in xp]
        vs = vs if vs is not None else [float(e) for e in fp]
        if v is None:
            one = not hasattr(x, "__len__")
            v = [x] if one else list(x)

        def at(t):
            if bool(t >= ks[-1]):
                return _f(vs[-1])
            if bool(t < ks[0]):
                return _f(vs[0])
            for j in range(len(ks) - 1):
                if bool(t < ks[j + 1]):
                    break
            return vs[j] + (t - ks[j]) * ((vs[j + 1] - vs[j]) / (ks[j + 1] - ks[j]))
        out = [at(t) for t in v]
        return out[0] if one else LArr(out)

    @staticmethod
    def unique(x, return_index=False, **k):
        v = _vec(x)
        if v is None or k:
            return _np.unique(x, return_index, **k)
        idx = []
        for i in sorted(range(len(v)), key=lambda i: v[i]):
            if not idx or not bool(v[i] == v[idx[-1]]):
                idx.append(i)
        u = LArr([v[i] for i in idx])
        return (u, _np.array(idx, dtype=int)) if return_index else u

    @staticmethod
    def argsort(x, *a, **k):
        v = _vec(x)
        return _np.array(sorted(range(len(v)), key=lambda i: v[i]), dtype=int) if v is not None else _np.argsort(x, *a, **k)

    @staticmethod
    def where(c, *ab):
        v = _vec(c)
        if not ab:
            return (_Np.flatnonzero(c),)
        if core.is_sym(c):
            return core.ite(c, *ab)
        n = len(v if v is not None else c) if hasattr(c, "__len__") else None
        if n is None or (v is None and all(_vec(e) is None and not core.is_sym(e) for e in ab)):
            return _np.where(c, *ab)
        a, b = [list(_vec(e) or e) if hasattr(e, "__len__") else [e] * n for e in ab]
        return LArr([core.ite(t, p, q) if core.is_sym(t) else p if t else q for t, p, q in zip(list(v or c), a, b, strict=True)])

    @staticmethod
    def any(x, *a, **k):
        v = _vec(x)
        return any(bool(e) for e in v) if v is not None else bool(x) if core.is_sym(x) else _np.any(x, *a, **k)

    @staticmethod
    def all(x, *a, **k):
        v = _vec(x)
        return all(bool(e) for e in v) if v is not None else bool(x) if core.is_sym(x) else _np.all(x, *a, **k)

    @staticmethod
    def round(x, decimals=0, *a, **k):
        v = _vec(x)
        if v is not None:
            return LArr([round(e, decimals) if decimals else _f(round(e)) for e in v])
        if core.is_sym(x):
            return round(x, decimals) if decimals else _f(round(x))
        return _np.round(x, decimals, *a, **k)

    around = rint = round


def _elementwise(name, f):
    real = getattr(_np, name)

    def g(x, *a, **k):
        v = _vec(x)
        if v is not None:
            return LArr([f(e) for e in v])
        return f(x) if core.is_sym(x) else real(x, *a, **k)
    setattr(_Np, name, staticmethod(g))


def _pairwise(name, f):
    real = getattr(_np, name)

    def g(a, b, *r, **k):
        va, vb = _vec(a), _vec(b)
        if va is None and vb is None and not core.is_sym(a) and not core.is_sym(b):
            return real(a, b, *r, **k)
        if va is not None or (vb is not None and hasattr(a, "__len__")):
            return LArr(va if va is not None else list(a))._map(b, f)
        if vb is not None:
            return LArr(vb)._map(a, lambda p, q: f(q, p))
        if hasattr(a, "__len__"):
            return LArr(list(a))._map(b, f)
        if hasattr(b, "__len__"):
            return LArr(list(b))._map(a, lambda p, q: f(q, p))
        return f(a, b)

    def accumulate(x, *r, **k):
        v = _vec(x)
        if v is None:
            return real.accumulate(x, *r, **k)
        out = []
        for e in v:
            out.append(f(out[-1], e) if out else e)
        return LArr(out)

    def reduce(x, *r, **k):
        v = _vec(x)
        return accumulate(x).xs[-1] if v is not None else real.reduce(x, *r, **k)
    if hasattr(real, "accumulate"):
        g.accumulate, g.reduce = accumulate, reduce
    setattr(_Np, name, staticmethod(g))


def _extreme(name, better):
    real = getattr(_np, name)

    def g(x, *a, **k):
        v = _vec(x)
        if v is None:
            return x if core.is_sym(x) else real(x, *a, **k)
        if not v:
            raise ValueError("zero-size array to reduction operation which has no identity")
        r = v[0]
        for e in v[1:]:
            c = better(e, r)
            r = core.ite(c, e, r) if core.is_sym(c) else e if c else r
        return r
    setattr(_Np, name, staticmethod(g))


def _pick(c, a, b):
    return core.ite(c, a, b) if core.is_sym(c) else a if c else b


for _n, _g in {"floor": lambda x: _f(x.__floor__()) if core.is_sym(x) else float(_np.floor(x)),
               "ceil": lambda x: _f(x.__ceil__()) if core.is_sym(x) else float(_np.ceil(x)),
               "trunc": lambda x: _f(x.__trunc__()) if core.is_sym(x) else float(_np.trunc(x)),
               "abs": abs, "absolute": abs, "fabs": abs, "negative": lambda x: -x, "square": lambda x: x * x,
               "isnan": lambda x: False if core.is_sym(x) else bool(_np.isnan(x)),
               "isinf": lambda x: False if core.is_sym(x) else bool(_np.isinf(x)),
               "isfinite": lambda x: True if core.is_sym(x) else bool(_np.isfinite(x)),
               "sign": lambda x: _pick(x > 0, 1.0, _pick(x < 0, -1.0, 0.0)),
               "logical_not": lambda x: not bool(x)}.items():
    _elementwise(_n, _g)
for _n, _g in {"maximum": lambda a, b: _pick(a >= b, a, b), "minimum": lambda a, b: _pick(a <= b, a, b),
               "fmax": lambda a, b: _pick(a >= b, a, b), "fmin": lambda a, b: _pick(a <= b, a, b),
               "add": lambda a, b: a + b, "subtract": lambda a, b: a - b, "multiply": lambda a, b: a * b,
               "divide": lambda a, b: a / b, "less": lambda a, b: a < b, "less_equal": lambda a, b: a <= b,
               "greater": lambda a, b: a > b, "greater_equal": lambda a, b: a >= b, "equal": lambda a, b: a == b,
               "not_equal": lambda a, b: a != b, "logical_and": lambda a, b: bool(a) and bool(b),
               "logical_or": lambda a, b: bool(a) or bool(b)}.items():
    _pairwise(_n, _g)
for _n, _g in {"max": lambda e, r: e > r, "amax": lambda e, r: e > r, "min": lambda e, r: e < r,
               "amin": lambda e, r: e < r}.items():
    _extreme(_n, _g)


NP = _Np()
