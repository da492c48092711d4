"""Symbolic stand-ins for the few torch / numpy / torch_geometric operations the code under test
uses.  A tensor is an object array of numbers or symbolic values; every operation follows the
documented semantics of the library function it replaces.  Names not listed fall through to the
real library.  (Their agreement with the real libraries is exercised on every run: witnesses and
counterexamples are replayed on the real torch / numpy.)"""
import numpy as _np
import torch as _torch

from . import core

FLOAT, LONG, BOOL = "float", "long", "bool"


def _kind(dtype):
    if dtype is None:
        return None
    if dtype in (FLOAT, LONG, BOOL):
        return dtype
    s = str(dtype)
    if "bool" in s:
        return BOOL
    if "float" in s or "double" in s:
        return FLOAT
    return LONG


def _cast(x, kind):
    if kind == FLOAT:
        return core.to_float(x)
    if kind == LONG:
        return core.to_int(x)
    if kind == BOOL:
        if type(x) is core.SymBool or isinstance(x, (bool, _np.bool_)) and not core.is_sym(x):
            return x if core.is_sym(x) else bool(x)
        return x != 0
    return x


def bite(c, a, b):
    """c ? a : b, without forking, for numbers and for truth values"""
    def isb(v):
        return type(v) is core.SymBool or v is True or v is False or isinstance(v, _np.bool_)
    if type(c) is not core.SymBool:
        return a if c else b
    if isb(a) and isb(b):
        import z3
        e = z3.simplify(z3.If(c.e, core.expr(a if core.is_sym(a) else bool(a)),
                              core.expr(b if core.is_sym(b) else bool(b))))
        return core.mk_bool(e)
    return core.ite(c, a, b)


def _not(x):
    return ~x if type(x) is core.SymBool else not x


def _and(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return a & b


def _or(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return a | b


def _guess(a):
    for x in a.flat:
        t = type(x)
        if t is core.SymReal or t is float or isinstance(x, (float, _np.floating)) and not core.is_sym(x):
            return FLOAT
    for x in a.flat:
        t = type(x)
        if not (t is core.SymBool or t is bool or isinstance(x, _np.bool_)):
            return LONG
    return BOOL if a.size else FLOAT


def _arr(x):
    """nested python data -> object array"""
    if isinstance(x, ST):
        return x.a
    if isinstance(x, _np.ndarray):
        return _obj(x.tolist(), x.shape)
    if isinstance(x, _torch.Tensor):
        return _obj(x.tolist(), tuple(x.shape))
    if isinstance(x, (list, tuple)) and not core.is_sym(x):
        subs = [_arr(v) for v in x]
        if not subs:
            return _np.empty((0,), dtype=object)
        sh = subs[0].shape
        if any(s.shape != sh for s in subs):
            raise ValueError("expected sequences of equal length")
        out = _np.empty((len(subs),) + sh, dtype=object)
        for i, s in enumerate(subs):
            out[i] = s if sh else s.item()
        return out
    out = _np.empty((), dtype=object)
    out[()] = x
    return out


def _obj(lst, shape):
    out = _np.empty(shape, dtype=object)
    if out.ndim == 0:
        out[()] = lst
        return out
    flat = []

    def rec(v, d):
        if d == 0:
            flat.append(v)
        else:
            for w in v:
                rec(w, d - 1)
    rec(lst, len(shape))
    out.reshape(-1)[:] = flat if flat else []
    return out


def has_sym(x, depth=4):
    if isinstance(x, ST):
        return True
    if core.is_sym(x):
        return True
    if depth and isinstance(x, (list, tuple)) and not core.is_sym(x):
        return any(has_sym(y, depth - 1) for y in x)
    return False


class Shape(tuple):
    def numel(self):
        n = 1
        for x in self:
            n *= x
        return n


class ST:
    """tensor / array with symbolic elements"""
    __array_priority__ = 1000
    __hash__ = object.__hash__

    def __init__(self, a, dtype=None):
        k = _kind(dtype)
        self.a = a
        self.kind = k or _guess(a)
        if k is not None:
            self.a = _map(a, lambda v: _cast(v, k))

    # -- structure
    @property
    def dtype(self):
        return {FLOAT: _torch.float32, LONG: _torch.int64, BOOL: _torch.bool}[self.kind]

    @property
    def shape(self):
        return Shape(self.a.shape)

    @property
    def ndim(self):
        return self.a.ndim

    def dim(self):
        return self.a.ndim

    def size(self, d=None):
        return self.shape if d is None else self.a.shape[d]

    def numel(self):
        return self.a.size

    def _n(self, a):
        r = ST.__new__(ST)
        r.a = a if isinstance(a, _np.ndarray) else _arr(a)
        r.kind = self.kind
        return r

    def unsqueeze(self, d):
        return self._n(_np.expand_dims(self.a, d if d >= 0 else self.a.ndim + 1 + d))

    def squeeze(self, d=None):
        if d is None:
            return self._n(_np.squeeze(self.a))
        return self._n(_np.squeeze(self.a, d)) if self.a.shape[d] == 1 else self

    def view(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        return self._n(self.a.reshape(tuple(int(v) for v in s)))

    reshape = view

    def flatten(self):
        return self._n(self.a.reshape(-1))

    def t(self):
        return self._n(self.a.T)

    T = property(t)

    def contiguous(self):
        return self

    def clone(self):
        return self._n(self.a.copy())

    copy = clone

    def detach(self):
        return self

    cpu = detach

    def numpy(self):
        return self

    def to(self, dt, *a, **k):
        return self._as(_kind(dt)) if "dtype" in type(dt).__name__ else self

    def _as(self, k):
        return ST(self.a, k)

    def long(self): return self._as(LONG)
    int = long

    def float(self): return self._as(FLOAT)
    double = float

    def bool(self): return self._as(BOOL)

    def astype(self, dt):
        return self._as(_kind(dt) if dt not in (int, float, bool) else
                        {int: LONG, float: FLOAT, bool: BOOL}[dt])

    def item(self):
        if self.a.size != 1:
            raise RuntimeError("a Tensor with several elements cannot be converted to Scalar")
        return self.a.reshape(-1)[0]

    def tolist(self):
        if self.a.ndim == 0:
            return self.a.item()
        return [self._n(v).tolist() if isinstance(v, _np.ndarray) else v for v in self.a] \
            if self.a.ndim > 1 else list(self.a)

    def __len__(self):
        if self.a.ndim == 0:
            raise TypeError("len() of a 0-d tensor")
        return self.a.shape[0]

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __bool__(self):
        return bool(self.item())

    def __index__(self):
        return self.item().__index__()

    def __int__(self):
        return core.to_int(self.item()).__int__()

    def __float__(self):
        return core.to_float(self.item()).__float__()

    def __deepcopy__(self, memo):
        return self.clone()

    def __repr__(self):
        return f"ST{self.shape}"

    # -- indexing
    def _key(self, k, axis_len):
        """one component of an index -> something numpy understands, or a list of symbolic ints"""
        if isinstance(k, ST):
            if k.kind == BOOL:
                if k.a.ndim != 1 or k.a.shape[0] != axis_len:
                    raise IndexError("mask shape")
                return _np.array([i for i, b in enumerate(k.a) if bool(b)], dtype=int)
            if any(core.is_sym(v) for v in k.a.flat):
                return k
            return k.a.astype(int) if k.a.size else _np.zeros(k.a.shape, dtype=int)
        if isinstance(k, _np.ndarray) and k.dtype == object:
            return self._key(ST(k), axis_len)
        if isinstance(k, list):
            return self._key(ST(_arr(k)), axis_len)
        if type(k) is core.SymInt:
            return k.__index__()
        if isinstance(k, slice):
            f = lambda v: v.__index__() if v is not None and not isinstance(v, ST) and hasattr(v, "__index__") else v
            return slice(f(k.start), f(k.stop), f(k.step))
        return k

    def __getitem__(self, k):
        ks = k if isinstance(k, tuple) else (k,)
        out, ax = [], 0
        symk = None
        for x in ks:
            if x is None or x is Ellipsis:
                out.append(x)
                continue
            y = self._key(x, self.a.shape[ax] if ax < self.a.ndim else 0)
            if isinstance(y, ST):
                symk = (ax, y)
            out.append(y)
            ax += 1
        if symk is None:
            r = self.a[tuple(out)]
            return self._n(r)
        if len(ks) != 1:
            out = [y.__class__ and _conc(y) if isinstance(y, ST) else y for y in out]
            return self._n(self.a[tuple(out)])
        idx = symk[1]
        rows = []
        n = self.a.shape[0]
        for i in idx.a.reshape(-1):
            i = _inrange(i, n)
            if self.a.ndim == 1:
                v = self.a[n - 1]
                for j in range(n - 2, -1, -1):
                    v = bite(i == j, self.a[j], v)
                rows.append(v)
            else:
                rows.append(self.a[int(i)])
        res = _np.empty(idx.a.shape + self.a.shape[1:], dtype=object)
        flat = res.reshape((-1,) + self.a.shape[1:])
        for r, v in enumerate(rows):
            flat[r] = v
        return self._n(res)

    def __setitem__(self, k, v):
        if isinstance(v, ST):
            v = v.a
        elif isinstance(v, (list, tuple, _np.ndarray)):
            v = _arr(v)
        kind = self.kind
        if isinstance(v, _np.ndarray):
            v = _map(v, lambda x: _cast(x, kind))
        else:
            v = _cast(v, kind)
        ks = k if isinstance(k, tuple) else (k,)
        out = [self._key(x, self.a.shape[i] if i < self.a.ndim else 0) for i, x in enumerate(ks)]
        if any(isinstance(y, ST) for y in out):
            if len(out) == 1 and self.a.ndim == 1:
                idx = list(out[0].a.reshape(-1))
                vals = list(v.reshape(-1)) if isinstance(v, _np.ndarray) and v.ndim else \
                    [v.item() if isinstance(v, _np.ndarray) else v] * len(idx)
                n = self.a.shape[0]
                for i, w in zip(idx, vals):
                    i = _inrange(i, n)
                    for j in range(n):
                        self.a[j] = bite(i == j, w, self.a[j])
                return
            out = [_conc(y) if isinstance(y, ST) else y for y in out]
        if isinstance(v, _np.ndarray):
            tgt = self.a[tuple(out)]
            if isinstance(tgt, _np.ndarray) and v.ndim and v.shape != tgt.shape:
                v = _np.broadcast_to(v, tgt.shape)       # raises like torch does
            self.a[tuple(out)] = v if v.ndim else v.item()
        else:
            self.a[tuple(out)] = v

    # -- elementwise
    def _bin(self, o, f, kind=None):
        b = o.a if isinstance(o, ST) else _arr(o)
        x, y = _np.broadcast_arrays(self.a, b)
        res = _np.empty(x.shape, dtype=object)
        fr, xf, yf = res.reshape(-1), x.reshape(-1), y.reshape(-1)
        for i in range(fr.size):
            fr[i] = f(xf[i], yf[i])
        r = ST.__new__(ST)
        r.a = res
        r.kind = kind or _guess(res)
        return r

    def __add__(self, o): return self._bin(o, lambda x, y: x + y)
    def __radd__(self, o): return self._bin(o, lambda x, y: y + x)
    def __sub__(self, o): return self._bin(o, lambda x, y: x - y)
    def __rsub__(self, o): return self._bin(o, lambda x, y: y - x)
    def __mul__(self, o): return self._bin(o, lambda x, y: x * y)
    def __rmul__(self, o): return self._bin(o, lambda x, y: y * x)
    def __truediv__(self, o): return self._bin(o, lambda x, y: x / y)
    def __rtruediv__(self, o): return self._bin(o, lambda x, y: y / x)
    def __floordiv__(self, o): return self._bin(o, lambda x, y: x // y)
    def __mod__(self, o): return self._bin(o, lambda x, y: x % y)
    def __neg__(self): return self._n(_map(self.a, lambda x: -x))
    def __lt__(self, o): return self._bin(o, lambda x, y: x < y, BOOL)
    def __le__(self, o): return self._bin(o, lambda x, y: x <= y, BOOL)
    def __gt__(self, o): return self._bin(o, lambda x, y: x > y, BOOL)
    def __ge__(self, o): return self._bin(o, lambda x, y: x >= y, BOOL)
    def __eq__(self, o): return self._bin(o, lambda x, y: x == y, BOOL)
    def __ne__(self, o): return self._bin(o, lambda x, y: x != y, BOOL)

    def __and__(self, o):
        return self._bin(o, lambda x, y: _and(_cast(x, BOOL), _cast(y, BOOL)), BOOL)

    def __or__(self, o):
        return self._bin(o, lambda x, y: _or(_cast(x, BOOL), _cast(y, BOOL)), BOOL)

    def __invert__(self):
        r = self._n(_map(self.a, _not))
        return r

    def _red(self, f, a, k):
        """f folds the listed values; over all elements, or along the axis given"""
        dim = k.get("dim", k.get("axis", a[0] if a else None))
        if dim is None or isinstance(dim, ST):
            return _arr(f(list(self.a.reshape(-1))))
        if isinstance(dim, (tuple, list)):
            dim, = dim
        m = _np.moveaxis(self.a, int(dim), -1)
        out = _np.empty(m.shape[:-1], dtype=object)
        for i in _np.ndindex(*out.shape):
            out[i] = f(list(m[i]))
        if k.get("keepdim", k.get("keepdims", len(a) > 1 and a[1] is True)):
            out = _np.expand_dims(out, int(dim))
        return out

    def _ext(self, name, a, k):
        from collections import namedtuple
        better = (lambda x, r: x > r) if name == "max" else (lambda x, r: x < r)
        if a and isinstance(a[0], ST):
            return self._bin(a[0], lambda x, y: core.ite(better(x, y), x, y))
        r = self._n(self._red(lambda xs: _fold(_arr(xs), better), a, k))
        if not a and not {"dim", "axis"} & set(k):
            return r

        def pos(xs):
            b = 0
            for i in range(1, len(xs)):
                if bool(better(xs[i], xs[b])):
                    b = i
            return b
        return namedtuple(name, "values indices")(r, ST(self._red(pos, a, k), LONG))

    def max(self, *a, **k): return self._ext("max", a, k)
    def min(self, *a, **k): return self._ext("min", a, k)
    def amax(self, *a, **k): return self._n(self._red(lambda xs: _fold(_arr(xs), lambda x, r: x > r), a, k))
    def amin(self, *a, **k): return self._n(self._red(lambda xs: _fold(_arr(xs), lambda x, r: x < r), a, k))

    def argmax(self, *a, **k):
        return self._ext("max", a or (() if k else (0,)), k).indices if self.a.ndim == 1 or a or k else self.flatten().argmax()

    def argmin(self, *a, **k):
        return self._ext("min", a or (() if k else (0,)), k).indices if self.a.ndim == 1 or a or k else self.flatten().argmin()

    def sum(self, *a, **k):
        def add(xs):
            r = 0
            for x in xs:
                r = r + (core.to_int(x) if self.kind == BOOL else x)
            return r
        o = self._n(self._red(add, a, k))
        o.kind = LONG if self.kind == BOOL else self.kind
        return o

    def mean(self, *a, **k):
        n = self.a.size if not a and "dim" not in k else self.a.shape[int(k.get("dim", a[0] if a else 0))]
        return self.sum(*a, **k).float() / n

    def count_nonzero(self, *a, **k): return self.bool().sum(*a, **k)

    def cumsum(self, dim=0, **k):
        m = _np.moveaxis(self.a, int(dim), 0).copy()
        for i in range(1, m.shape[0]):
            m[i] = m[i] + m[i - 1]
        return self._n(_np.moveaxis(m, 0, int(dim)))

    def all(self, *a, **k):
        def f(xs):
            r = True
            for x in xs:
                r = _and(r, _cast(x, BOOL))
            return r
        return ST(self._red(f, a, k), BOOL)

    def any(self, *a, **k):
        def f(xs):
            r = False
            for x in xs:
                r = _or(r, _cast(x, BOOL))
            return r
        return ST(self._red(f, a, k), BOOL)

    def eq(self, o): return self == o
    def ne(self, o): return self != o
    def lt(self, o): return self < o
    def le(self, o): return self <= o
    def gt(self, o): return self > o
    def ge(self, o): return self >= o
    def add(self, o): return self + o
    def sub(self, o): return self - o
    def mul(self, o): return self * o
    def div(self, o): return self / o
    def logical_not(self): return ~self.bool()
    def logical_and(self, o): return self.bool() & o
    def logical_or(self, o): return self.bool() | o
    __rand__, __ror__ = __and__, __or__
    def __xor__(self, o): return self._bin(o, lambda x, y: _cast(x, BOOL) != _cast(y, BOOL), BOOL)
    logical_xor = __xor__
    def __abs__(self): return self._n(_map(self.a, abs))
    abs = __abs__
    def __pow__(self, o): return self._bin(o, lambda x, y: x ** y)
    def clamp(self, min=None, max=None): return NumpyShim.clip(self, min, max)
    clip = clamp
    def round(self, decimals=0, **k): return NumpyShim.round(self, decimals)
    def floor(self): return NumpyShim.floor(self)
    def ceil(self): return NumpyShim.ceil(self)
    def type(self, dt=None): return self.to(dt) if dt is not None else str(self.dtype)
    def equal(self, o): return TorchShim.equal(self, o)
    def unique(self, *a, **k): return TorchShim.unique(self)
    def diff(self, *a, **k): return NumpyShim.diff(self)
    def new_zeros(self, *s, dtype=None, **k): return TorchShim.zeros(*s, dtype=dtype or self.dtype)
    def new_ones(self, *s, dtype=None, **k): return TorchShim.ones(*s, dtype=dtype or self.dtype)
    def new_tensor(self, x, **k): return TorchShim.tensor(x, dtype=self.dtype)
    def new_full(self, s, v, **k): return TorchShim.full(s, v, dtype=self.dtype)
    def nelement(self): return self.a.size
    def is_floating_point(self): return self.kind == FLOAT

    def nonzero(self, as_tuple=False):
        ix = [i for i in _np.ndindex(*self.a.shape) if bool(_cast(self.a[i], BOOL))]
        if as_tuple:
            return tuple(ST(_arr([i[d] for i in ix]), LONG) for d in range(self.a.ndim))
        return ST(_obj([list(i) for i in ix], (len(ix), self.a.ndim)), LONG)

    def masked_fill(self, mask, v):
        mm, _ = _np.broadcast_arrays(mask.a, self.a)
        out = _np.empty(self.a.shape, dtype=object)
        for i in _np.ndindex(*out.shape):
            out[i] = bite(mm[i], _cast(v, self.kind), self.a[i])
        return self._n(out)

    def masked_fill_(self, mask, v):
        self.a[...] = self.masked_fill(mask, v).a
        return self

    def fill_(self, v):
        self.a[...] = _cast(v, self.kind)
        return self

    def zero_(self): return self.fill_(0)

    def copy_(self, o):
        self.a[...] = o.a if isinstance(o, ST) else _arr(o)
        return self

    def sort(self, dim=-1, descending=False, **k):
        if self.a.ndim != 1:
            raise core.PathAbort("sort of a matrix")
        ix = sorted(range(len(self.a)), key=lambda i: self.a[i], reverse=bool(descending))
        return self[ST(_arr(ix), LONG)], ST(_arr(ix), LONG)

    def argsort(self, *a, **k): return self.sort(*a, **k)[1]

    def __getattr__(self, name):
        # operations that only move elements: done on element numbers by the real library
        if name not in _MOVES:
            raise AttributeError(f"Tensor.{name} is not modelled")

        def f(*a, **k):
            src = _torch.arange(self.a.size).reshape(tuple(self.a.shape))

            def back(r):
                if isinstance(r, _torch.Tensor):
                    flat = self.a.reshape(-1)
                    out = _np.empty(tuple(r.shape), dtype=object)
                    out.reshape(-1)[:] = [flat[i] for i in r.reshape(-1).tolist()]
                    return self._n(out)
                return type(r)(back(x) for x in r)
            return back(getattr(src, name)(*[_plain(x) for x in a], **{n: _plain(x) for n, x in k.items()}))
        return f


_MOVES = {"permute", "transpose", "swapaxes", "repeat", "expand", "expand_as", "flip", "roll", "narrow", "chunk", "split",
          "unbind", "tile", "movedim", "select", "index_select", "gather", "take", "masked_select", "diagonal", "ravel",
          "view_as", "reshape_as", "repeat_interleave", "unflatten", "tensor_split", "take_along_dim", "fliplr", "flipud"}


def _plain(x):
    """a real tensor or number in place of a symbolic one (forks over its values)"""
    if isinstance(x, ST):
        if x.kind == BOOL:
            return _torch.tensor([bool(v) for v in x.a.reshape(-1)], dtype=_torch.bool).reshape(tuple(x.a.shape))
        return _torch.tensor([int(v) for v in x.a.reshape(-1)], dtype=_torch.int64).reshape(tuple(x.a.shape))
    if type(x) is core.SymInt:
        return int(x)
    if isinstance(x, (tuple, list)):
        return type(x)(_plain(v) for v in x)
    return x


def _conc(st):
    return _np.array([int(v) for v in st.a.reshape(-1)], dtype=int).reshape(st.a.shape)


def _inrange(i, n):
    if not core.is_sym(i):
        i = int(i)
        if i < -n or i >= n:
            raise IndexError("index out of range")
        return i % n
    if bool(i < 0):
        i = i + n
    if bool(i < 0) or bool(i >= n):
        raise IndexError("index out of range")
    return i


def _map(a, f):
    r = _np.empty(a.shape, dtype=object)
    fr, fa = r.reshape(-1), a.reshape(-1)
    for i in range(fr.size):
        fr[i] = f(fa[i])
    return r


def _fold(a, better):
    xs = list(a.reshape(-1))
    if not xs:
        raise RuntimeError("reduction of an empty tensor")
    r = xs[0]
    for x in xs[1:]:
        r = core.ite(better(x, r), x, r)
    return r


def _shape(s):
    s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
    return tuple(int(v) for v in s)


class _Sources:
    """random sources supplied by the harness"""
    perm = None
    rand = None


SOURCES = _Sources()


class _Functional:
    def __getattr__(self, name):
        return getattr(_torch.nn.functional, name)

    @staticmethod
    def one_hot(t, num_classes=-1):
        if t.kind != LONG:
            raise RuntimeError("one_hot is only applicable to index tensor")
        flat = list(t.a.reshape(-1))
        if num_classes == -1:
            num_classes = int(_fold(t.a, lambda x, r: x > r)) + 1 if flat else 0
        out = _np.empty((len(flat), num_classes), dtype=object)
        for r, v in enumerate(flat):
            if bool(v < 0) or bool(v >= num_classes):
                raise RuntimeError("Class values must be smaller than num_classes.")
            for c in range(num_classes):
                out[r, c] = bite(v == c, 1, 0) if core.is_sym(v) else int(v == c)
        return ST(out.reshape(t.a.shape + (num_classes,)), LONG)


    @staticmethod
    def pad(t, pad, mode="constant", value=None):
        if not isinstance(t, ST):
            return _torch.nn.functional.pad(t, pad, mode, value)
        if mode != "constant":
            raise NotImplementedError(mode)
        a, v = t.a, _cast(0 if value is None else value, t.kind)
        for i in range(len(pad) // 2):
            ax = a.ndim - 1 - i
            for side, k in ((0, int(pad[2 * i])), (1, int(pad[2 * i + 1]))):
                if k < 0:
                    sl = [slice(None)] * a.ndim
                    sl[ax] = slice(-k, None) if side == 0 else slice(None, k)
                    a = a[tuple(sl)]
                elif k > 0:
                    shape = list(a.shape)
                    shape[ax] = k
                    z = _np.empty(shape, dtype=object)
                    z[...] = v
                    a = _np.concatenate([z, a] if side == 0 else [a, z], axis=ax)
        return ST(a.copy(), t.kind)

    @staticmethod
    def relu(t, inplace=False):
        return t.clamp(min=0) if isinstance(t, ST) else _torch.nn.functional.relu(t)


class _NN:
    functional = _Functional()

    def __getattr__(self, name):
        return getattr(_torch.nn, name)


class TorchShim:
    Tensor = ST
    nn = _NN()

    def __getattr__(self, name):
        return getattr(_torch, name)

    @staticmethod
    def tensor(x, dtype=None, **k):
        try:
            a = _arr(x)
        except ValueError:
            raise
        for v in a.flat:
            if not (core.is_sym(v) or core._num(v) is not None):
                raise TypeError(f"not a number: {type(v)}")
        return ST(a.copy(), dtype)

    as_tensor = tensor
    from_numpy = tensor

    @staticmethod
    def FloatTensor(x=()):
        return ST(_arr(list(x) if not isinstance(x, ST) else x).copy(), FLOAT)

    @staticmethod
    def LongTensor(x=()):
        return ST(_arr(list(x) if not isinstance(x, ST) else x).copy(), LONG)

    @staticmethod
    def zeros(*s, dtype=None, **k):
        a = _np.empty(_shape(s), dtype=object)
        a[...] = 0
        return ST(a, dtype or FLOAT)

    @staticmethod
    def ones(*s, dtype=None, **k):
        a = _np.empty(_shape(s), dtype=object)
        a[...] = 1
        return ST(a, dtype or FLOAT)

    @staticmethod
    def arange(*a, dtype=None, **k):
        return ST(_arr(list(range(*[int(v) for v in a]))), dtype or LONG)

    @staticmethod
    def cat(ts, dim=0):
        ts = list(ts)
        r = ST(_np.concatenate([t.a for t in ts], axis=dim))
        if any(t.kind == FLOAT for t in ts):
            return ST(r.a, FLOAT)
        r.kind = ts[0].kind
        return r

    @staticmethod
    def stack(ts, dim=0):
        ts = list(ts)
        if any(t.a.shape != ts[0].a.shape for t in ts):
            raise RuntimeError("stack expects each tensor to be equal size")
        r = ST(_np.stack([t.a for t in ts], axis=dim))
        r.kind = ts[0].kind
        return r

    @staticmethod
    def zeros_like(t, dtype=None, **k): return TorchShim.zeros(*t.shape, dtype=dtype or t.dtype)

    @staticmethod
    def ones_like(t, dtype=None, **k): return TorchShim.ones(*t.shape, dtype=dtype or t.dtype)

    @staticmethod
    def full_like(t, v, dtype=None, **k): return TorchShim.full(tuple(t.shape), v, dtype=dtype or t.dtype)

    @staticmethod
    def empty(*s, dtype=None, **k): return TorchShim.zeros(*s, dtype=dtype)

    @staticmethod
    def full(s, v, dtype=None, **k):
        a = _np.empty(_shape((s,) if not isinstance(s, (tuple, list)) else s), dtype=object)
        a[...] = v
        return ST(a, dtype or _guess(a))

    @staticmethod
    def is_tensor(x): return isinstance(x, (ST, _torch.Tensor))

    @staticmethod
    def numel(t): return t.numel()

    concat = concatenate = cat

    @staticmethod
    def bincount(t, minlength=0, **k):
        n = max(int(_fold(t.a, lambda x, r: x > r)) + 1 if t.a.size else 0, int(minlength))
        out = []
        for j in range(n):
            c = 0
            for v in t.a.reshape(-1):
                c = c + bite(v == j, 1, 0)
            out.append(c)
        return ST(_arr(out), LONG)

    @staticmethod
    def isin(a, b):
        xs = list(b.a.reshape(-1))

        def f(v):
            r = False
            for x in xs:
                r = _or(r, v == x)
            return r
        return ST(_map(a.a, f), BOOL)

    @staticmethod
    def where(c, a=None, b=None):
        if a is None:
            return (ST(_arr([i for i, v in enumerate(c.a) if bool(v)]), LONG),)
        x, y = a if isinstance(a, ST) else ST(_arr(a)), b if isinstance(b, ST) else ST(_arr(b))
        cc, xx, yy = _np.broadcast_arrays(c.a, x.a, y.a)
        out = _np.empty(cc.shape, dtype=object)
        for i in _np.ndindex(*cc.shape):
            out[i] = bite(cc[i], xx[i], yy[i])
        return ST(out)

    @staticmethod
    def unique(t):
        out = []
        for v in t.a.reshape(-1):
            if not any(bool(v == w) for w in out):
                out.append(v)
        out.sort()
        r = ST(_arr(out))
        r.kind = t.kind
        return r

    @staticmethod
    def equal(a, b):
        return a.shape == b.shape and bool((a == b).all())

    @staticmethod
    def randperm(n, **k):
        return ST(_arr(list(SOURCES.perm(n))), LONG)

    @staticmethod
    def rand(n, **k):
        return ST(_arr(list(SOURCES.rand(int(n)))), FLOAT)

    @staticmethod
    def save(*a, **k):
        raise core.PathAbort("torch.save")

    @staticmethod
    def load(*a, **k):
        raise core.PathAbort("torch.load")


def _delegate(name):
    real = getattr(_torch, name)

    def f(t, *a, **k):
        if not isinstance(t, ST) and not any(isinstance(x, ST) for x in a):
            return real(t, *a, **k)
        return getattr(t if isinstance(t, ST) else ST(_arr(t)), name)(*a, **k)
    setattr(TorchShim, name, staticmethod(f))


for _n in sorted(_MOVES - {"expand", "repeat", "expand_as", "view_as", "reshape_as"}) + [
        "all", "any", "max", "min", "sum", "mean", "abs", "clamp", "round", "floor", "ceil", "nonzero", "cumsum", "sort", "argsort",
        "eq", "ne", "lt", "le", "gt", "ge", "add", "sub", "mul", "div", "logical_not", "logical_and", "logical_or", "logical_xor",
        "masked_fill", "flatten", "reshape", "squeeze", "unsqueeze", "clone", "amax", "amin", "argmax", "argmin",
        "count_nonzero", "diff", "t"]:
    if hasattr(_torch, _n):
        _delegate(_n)
TORCH = TorchShim()


# ------------------------------------------------------------------ numpy
class _Random:
    def __getattr__(self, name):
        return getattr(_np.random, name)

    @staticmethod
    def permutation(n):
        if SOURCES.perm is None:
            return _np.random.permutation(n)
        return ST(_arr(list(SOURCES.perm(n))), LONG)


class NumpyShim:
    random = _Random()

    def __getattr__(self, name):
        return getattr(_np, name)

    @staticmethod
    def array(x, dtype=None, **k):
        if not has_sym(x):
            return _np.array(x, dtype=dtype, **k)
        return ST(_arr(x).copy(), dtype)

    asarray = array

    @staticmethod
    def _red(name, better):
        def f(x, *a, **k):
            if not has_sym(x):
                return getattr(_np, name)(x, *a, **k)
            return _fold(_arr(x), better)
        return staticmethod(f)

    @staticmethod
    def round(x, decimals=0):
        if core.is_sym(x):
            return core.to_float(x).__round__(decimals)
        if not has_sym(x):
            return _np.round(x, decimals)
        return ST(_map(_arr(x), lambda v: core.to_float(v).__round__(decimals) if core.is_sym(v)
                       else _np.round(v, decimals)))

    @staticmethod
    def _ew(name, f):
        def g(x, *a, **k):
            if core.is_sym(x):
                return f(x)
            if not has_sym(x):
                return getattr(_np, name)(x, *a, **k)
            return ST(_map(_arr(x), lambda v: f(v) if core.is_sym(v) else getattr(_np, name)(v)))
        return staticmethod(g)

    @staticmethod
    def clip(x, lo, hi):
        def f(v):
            if lo is not None:
                v = core.ite(v < lo, lo, v)
            if hi is not None:
                v = core.ite(v > hi, hi, v)
            return v
        if core.is_sym(x) or core.is_sym(lo) or core.is_sym(hi):
            return f(x)
        if not has_sym(x):
            return _np.clip(x, lo, hi)
        return ST(_map(_arr(x), lambda v: f(v) if core.is_sym(v) else _np.clip(v, lo, hi)))

    @staticmethod
    def full_like(x, v, **k):
        if not isinstance(x, ST):
            return _np.full_like(x, v, **k)
        a = _np.empty(x.a.shape, dtype=object)
        a[...] = v
        return ST(a, x.kind)

    @staticmethod
    def diff(x, *a, **k):
        if not has_sym(x):
            return _np.diff(x, *a, **k)
        v = _arr(x)
        return ST(_arr([v[i + 1] - v[i] for i in range(len(v) - 1)]))

    @staticmethod
    def percentile(x, q, **k):
        if not has_sym(x):
            return _np.percentile(x, q, **k)
        v = sorted(_arr(x).reshape(-1))
        pos = q / 100 * (len(v) - 1)
        i = int(pos)
        if i + 1 >= len(v):
            return v[-1]
        r = v[i] + (v[i + 1] - v[i]) * (pos - i)
        # the value decides how a whole piece is grouped: fork over it
        return float(r) if core.is_sym(r) else r

    @staticmethod
    def mean(x, *a, **k):
        if not has_sym(x):
            return _np.mean(x, *a, **k)
        v = list(_arr(x).reshape(-1))
        s = v[0]
        for y in v[1:]:
            s = s + y
        return core.to_float(s) / len(v)

    @staticmethod
    def sum(x, *a, **k):
        if not has_sym(x):
            return _np.sum(x, *a, **k)
        return _arr(x).sum() if not isinstance(x, ST) else x.sum().item()

    @staticmethod
    def unique(x, *a, **k):
        if not has_sym(x):
            return _np.unique(x, *a, **k)
        return TorchShim.unique(ST(_arr(x)))

    @staticmethod
    def isscalar(x):
        return core.is_sym(x) or _np.isscalar(x)


def _np_ew(name, f):
    real = getattr(_np, name)

    def g(*a, **k):
        if not any(has_sym(x) for x in a):
            return real(*a, **k)
        if not any(isinstance(x, (ST, list, tuple, _np.ndarray)) for x in a):
            return f(*a)
        xs = _np.broadcast_arrays(*[_arr(x) for x in a])
        out = _np.empty(xs[0].shape, dtype=object)
        for i in _np.ndindex(*out.shape):
            out[i] = f(*[x[i] for x in xs])
        return ST(out)
    setattr(NumpyShim, name, staticmethod(g))


def _ite(c, a, b):
    return bite(c, a, b)


for _n, _g in {"maximum": lambda a, b: _ite(a >= b, a, b), "minimum": lambda a, b: _ite(a <= b, a, b), "fabs": abs, "absolute": abs,
               "isnan": lambda a: False, "isfinite": lambda a: True, "isinf": lambda a: False, "where": _ite,
               "rint": lambda v: core.to_float(v).__round__(0), "trunc": lambda v: core.to_float(v.__trunc__()),
               "add": lambda a, b: a + b, "subtract": lambda a, b: a - b, "multiply": lambda a, b: a * b, "divide": lambda a, b: a / b,
               "equal": lambda a, b: a == b, "not_equal": lambda a, b: a != b, "less": lambda a, b: a < b, "greater": lambda a, b: a > b,
               "less_equal": lambda a, b: a <= b, "greater_equal": lambda a, b: a >= b, "logical_not": lambda a: _not(_cast(a, BOOL)),
               "logical_and": lambda a, b: _and(_cast(a, BOOL), _cast(b, BOOL)),
               "logical_or": lambda a, b: _or(_cast(a, BOOL), _cast(b, BOOL)), "square": lambda a: a * a, "negative": lambda a: -a,
               "isclose": lambda a, b, rtol=1e-05, atol=1e-08: abs(a - b) <= atol + rtol * abs(b)}.items():
    _np_ew(_n, _g)


def _np_st(name, m=None):
    real = getattr(_np, name)

    def g(x, *a, **k):
        return getattr(ST(_arr(x)), m or name)(*a, **k) if has_sym(x) else real(x, *a, **k)
    setattr(NumpyShim, name, staticmethod(g))


for _n in ("cumsum", "argsort", "any", "all", "argmax", "argmin", "count_nonzero", "transpose", "ravel", "squeeze", "reshape"):
    _np_st(_n, "view" if _n == "reshape" else None)


def _np_join(name):
    real = getattr(_np, name)

    def g(xs, axis=0, **k):
        return ST(getattr(_np, name)([_arr(x) for x in xs], **({"axis": axis} if name in ("concatenate", "stack") else {}))) \
            if any(has_sym(x) for x in xs) else real(xs, **({"axis": axis} if name in ("concatenate", "stack") else {}), **k)
    setattr(NumpyShim, name, staticmethod(g))


for _n in ("concatenate", "stack", "hstack", "vstack"):
    _np_join(_n)


def _np_sort(x, *a, **k):
    return ST(_arr(sorted(_arr(x).reshape(-1)))) if has_sym(x) else _np.sort(x, *a, **k)


def _np_isin(a, b, **k):
    return TorchShim.isin(ST(_arr(a)), ST(_arr(b))) if has_sym(a) or has_sym(b) else _np.isin(a, b, **k)


def _np_median(x, *a, **k):
    return NumpyShim.percentile(x, 50) if has_sym(x) else _np.median(x, *a, **k)


NumpyShim.sort, NumpyShim.isin, NumpyShim.median = map(staticmethod, (_np_sort, _np_isin, _np_median))
NumpyShim.min = NumpyShim.amin = NumpyShim._red("min", lambda x, r: x < r)
NumpyShim.max = NumpyShim.amax = NumpyShim._red("max", lambda x, r: x > r)
NumpyShim.floor = NumpyShim._ew("floor", lambda v: core.to_float(v.__floor__()))
NumpyShim.ceil = NumpyShim._ew("ceil", lambda v: core.to_float(v.__ceil__()))
NumpyShim.abs = NumpyShim._ew("abs", abs)
NUMPY = NumpyShim()


# ------------------------------------------------------------------ torch_geometric
def degree(index, num_nodes=None, dtype=None):
    n = int(num_nodes) if num_nodes is not None else int(_fold(index.a, lambda x, r: x > r)) + 1
    out = []
    for j in range(n):
        c = 0
        for v in index.a.reshape(-1):
            c = c + bite(v == j, 1, 0)
        out.append(c)
    return ST(_arr(out), FLOAT)


class _Utils:
    def __getattr__(self, name):
        import torch_geometric
        return getattr(torch_geometric.utils, name)

    degree = staticmethod(degree)


class PygShim:
    utils = _Utils()

    def __getattr__(self, name):
        import torch_geometric
        return getattr(torch_geometric, name)


PYG = PygShim()
_symdata = None


def symdata():
    """torch_geometric's Data, counting nodes of symbolic tensors too"""
    global _symdata
    if _symdata is None:
        from torch_geometric.data import Data

        class SymData(Data):
            @property
            def num_nodes(self):
                m = self._store._mapping
                if "num_nodes" in m:
                    return m["num_nodes"]
                for k in ("x", "y", "pos", "node_hash"):
                    v = m.get(k)
                    if v is not None:
                        return v.size(0) if isinstance(v, (ST, _torch.Tensor)) else len(v)
                v = m.get("edge_index")
                return None if v is None else int(v.max().item()) + 1

            @num_nodes.setter
            def num_nodes(self, n):
                self._store["num_nodes"] = n
        _symdata = SymData
    return _symdata
