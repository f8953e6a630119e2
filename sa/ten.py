"""Abstract tensors: arrays of abstract scalars with a concrete (small) shape, and the
transfer functions of the keras.ops / numpy primitives on them."""
from __future__ import annotations

import itertools
import math
from fractions import Fraction

import numpy as np

from . import alg
from .alg import Poly, const, ZERO, ONE


class Unsupported(Exception):
    """The analysis has no model for this construct: the obligation is left undecided."""


class Prog(Exception):
    """An exception the analysed program itself would raise."""

    def __init__(self, exc, msg=""):
        super().__init__(msg)
        self.exc = exc
        self.msg = msg


def is_scalar(x):
    return isinstance(x, (int, float, Fraction, Poly)) or isinstance(x, (np.integer, np.floating))


ORIGIN = [None]  # updated by the interpreter: (file, line, function)


def recorded(f):
    """remember the operation symbolic results come from, so that graphs made of raw operations can be run again"""

    def g(*args, **kwargs):
        r = f(*args, **kwargs)
        if isinstance(r, T):
            if r.sym and not any(r is x for x in args):
                r.op = (g, args, kwargs, None)
        elif isinstance(r, (list, tuple)):
            for i, t in enumerate(r):
                if isinstance(t, T) and t.sym and not any(t is x for x in args):
                    t.op = (g, args, kwargs, i)
        return r

    g.__name__ = getattr(f, "__name__", "op")
    return g


class T:
    __slots__ = ("a", "dtype", "np_", "sym", "parents", "hist", "origin", "name", "extra", "static_shape", "owner", "op")

    def __init__(self, a, dtype="float32", np_=False, parents=()):
        if not isinstance(a, np.ndarray) or a.dtype != object:
            src = np.asarray(a)
            b = np.empty(src.shape, dtype=object)
            for i in np.ndindex(src.shape):
                v = src[i]
                b[i] = v if isinstance(v, Poly) else const(v.item() if hasattr(v, "item") else v)
            a = b
        self.a = a
        self.dtype = dtype
        self.np_ = np_
        self.sym = False
        self.parents = ()
        for p in parents:
            if isinstance(p, T) and p.sym:
                self.sym = True
                self.parents = tuple(q for q in parents if isinstance(q, T))
                break
        self.hist = None
        self.origin = ORIGIN[0]
        self.name = None
        self.extra = None
        self.static_shape = None
        self.owner = None
        self.op = None

    @property
    def shape(self):
        if self.static_shape is not None:
            return self.static_shape
        return tuple(int(s) for s in self.a.shape)

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def size(self):
        return int(self.a.size)

    def __len__(self):
        if self.a.ndim == 0:
            raise TypeError("len() of a 0-d tensor")
        return int(self.a.shape[0])

    def __iter__(self):
        if self.a.ndim == 0:
            raise TypeError("iteration over a 0-d tensor")
        for i in range(self.a.shape[0]):
            yield self[i]

    @recorded
    def __getitem__(self, idx):
        idx = _index(idx)
        try:
            r = self.a[idx]
        except IndexError as e:
            raise Prog("IndexError", str(e))
        if self.np_ and isinstance(r, np.ndarray):
            return T(r, self.dtype, self.np_, (self,))
        return mk(r, self, np_=self.np_)

    def __setitem__(self, idx, v):
        if not self.np_:
            raise Prog("TypeError", "tensor does not support item assignment")
        idx = _index(idx)
        v = raw(v) if isinstance(v, (T, list, tuple)) else const(v)
        if isinstance(v, np.ndarray) and v.ndim == 0:
            v = v[()]
        try:
            self.a[idx] = v
        except (IndexError, ValueError) as e:
            raise Prog(type(e).__name__, str(e))

    # arithmetic
    @recorded
    def _bin(self, o, f, swap=False):
        if not (isinstance(o, T) or is_scalar(o) or isinstance(o, (list, tuple))):
            return NotImplemented
        b = raw(o)
        try:
            r = f(b, self.a) if swap else f(self.a, b)
        except ValueError as e:
            raise Prog("ValueError", str(e))
        return mk(r, self, o, np_=self.np_ and (not isinstance(o, T) or o.np_))

    def __add__(self, o):
        return self._bin(o, lambda x, y: x + y)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda x, y: x - y)

    def __rsub__(self, o):
        return self._bin(o, lambda x, y: x - y, True)

    def __mul__(self, o):
        return self._bin(o, lambda x, y: x * y)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, vdiv)

    def __rtruediv__(self, o):
        return self._bin(o, vdiv, True)

    def __pow__(self, o):
        return self._bin(o, vpow)

    def __rpow__(self, o):
        return self._bin(o, vpow, True)

    def __mod__(self, o):
        return self._bin(o, vmod)

    def __floordiv__(self, o):
        return self._bin(o, vfloordiv)

    @recorded
    def __neg__(self):
        return mk(-self.a, self, np_=self.np_)

    def __pos__(self):
        return self

    def __matmul__(self, o):
        return KOPS["matmul"](self, o)

    def _inplace(self, o, f):
        if not self.np_:
            return NotImplemented
        r = f(self.a, raw(o))
        self.a[...] = r
        return self

    def __iadd__(self, o):
        return self._inplace(o, lambda x, y: x + y) if self.np_ else self + o

    def __isub__(self, o):
        return self._inplace(o, lambda x, y: x - y) if self.np_ else self - o

    def __imul__(self, o):
        return self._inplace(o, lambda x, y: x * y) if self.np_ else self * o

    def __itruediv__(self, o):
        return self._inplace(o, vdiv) if self.np_ else self / o

    # comparisons give 0/1 tensors
    @recorded
    def _cmp(self, o, f):
        if not (isinstance(o, T) or is_scalar(o)):
            return NotImplemented
        return mk(_vec2(f)(self.a, raw(o)), self, o, dtype="bool", np_=self.np_)

    def __gt__(self, o):
        return self._cmp(o, c_gt)

    def __lt__(self, o):
        return self._cmp(o, lambda x, y: c_gt(y, x))

    def __ge__(self, o):
        return self._cmp(o, c_ge)

    def __le__(self, o):
        return self._cmp(o, lambda x, y: c_ge(y, x))

    def __eq__(self, o):
        if not (isinstance(o, T) or is_scalar(o)):
            return NotImplemented
        return self._cmp(o, c_eq)

    def __ne__(self, o):
        if not (isinstance(o, T) or is_scalar(o)):
            return NotImplemented
        return self._cmp(o, lambda x, y: ONE - c_eq(x, y))

    @recorded
    def __invert__(self):
        return mk(ONE - self.a if False else _vec1(lambda x: ONE - x)(self.a), self, dtype="bool", np_=self.np_)

    def __and__(self, o):
        return self._bin(o, lambda x, y: x * y)

    def __or__(self, o):
        return self._bin(o, lambda x, y: x + y - x * y)

    __hash__ = object.__hash__

    def scalar(self):
        if self.a.size != 1:
            raise Prog("ValueError", "truth value of an array is ambiguous")
        p = self.a.reshape(-1)[0]
        if not p.is_const():
            v = alg.decided(p)
            if v is not None:
                return v
            raise Unsupported(f"branch on an abstract value {p!r}")
        return p.cval()

    def __bool__(self):
        return bool(self.scalar())

    def __int__(self):
        return int(self.scalar())

    def __index__(self):
        return int(self.scalar())

    def __float__(self):
        return float(self.scalar())

    def __repr__(self):
        if self.a.size <= 4:
            return f"T{self.shape}{[repr(x) for x in self.a.reshape(-1)]}"
        return f"T{self.shape}"

    # methods numpy arrays / variables offer
    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = shape[0]
        return KOPS["reshape"](self, shape)

    def flatten(self):
        return KOPS["reshape"](self, (-1,))

    ravel = flatten

    def numpy(self):
        return T(self.a.copy(), self.dtype, True)

    def detach(self):
        return self

    def copy(self):
        r = T(self.a.copy(), self.dtype, self.np_, (self,))
        return r

    def astype(self, dtype):
        return T(self.a.copy(), str(dtype), self.np_, (self,))

    def sum(self, axis=None, keepdims=False):
        return k_sum(self, axis, keepdims)

    def min(self, axis=None, keepdims=False):
        return k_min(self, axis, keepdims)

    def max(self, axis=None, keepdims=False):
        return k_max(self, axis, keepdims)

    def mean(self, axis=None, keepdims=False):
        return k_mean(self, axis, keepdims)

    def argmax(self, axis=None):
        return k_argmax(self, axis)

    def argmin(self, axis=None):
        return k_argmin(self, axis)

    def dot(self, o):
        return k_dot(self, o)

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = axes[0]
        return k_transpose(self, list(axes) or None)

    @property
    def T(self):
        return k_transpose(self)

    def tolist(self):
        return _tolist(self.a)

    def item(self):
        return self.scalar()

    def assign(self, v):
        a = raw(v)
        if a.shape != self.a.shape:
            raise Prog("ValueError", "assign: shape mismatch")
        self.a = a
        return self


def _tolist(a):
    if a.ndim == 0:
        p = a.item() if not isinstance(a, Poly) else a
        return p.cval() if p.is_const() else p
    return [_tolist(x) if isinstance(x, np.ndarray) else (x.cval() if x.is_const() else x) for x in a]


def _index(idx):
    def one(i):
        if isinstance(i, T):
            if i.dtype == "bool":
                return np.array([[bool(x.cval())] for x in _constarr(i)]).reshape(i.a.shape)
            if i.a.ndim == 0:
                return int(i)
            return np.array([int(x.cval()) for x in _constarr(i)]).reshape(i.a.shape)
        if isinstance(i, Poly):
            if not i.is_const():
                raise Unsupported("abstract index")
            return int(i.cval())
        if isinstance(i, slice):
            f = lambda v: int(v) if isinstance(v, (T, Poly)) else v
            return slice(f(i.start), f(i.stop), f(i.step))
        if isinstance(i, list):
            return [one(k) for k in i]
        return i

    if isinstance(idx, tuple):
        return tuple(one(i) for i in idx)
    return one(idx)


def _constarr(t):
    out = []
    for x in t.a.reshape(-1):
        if not x.is_const():
            raise Unsupported("abstract value used as an index")
        out.append(x)
    return out


def raw(x):
    """object ndarray of Poly"""
    if isinstance(x, T):
        return x.a
    if isinstance(x, Poly):
        r = np.empty((), dtype=object)
        r[()] = x
        return r
    if is_scalar(x) or isinstance(x, bool):
        try:
            c = const(x.item() if hasattr(x, "item") else x)
        except OverflowError:
            raise Unsupported("infinite constant in tensor arithmetic")
        r = np.empty((), dtype=object)
        r[()] = c
        return r
    if isinstance(x, (list, tuple)):
        parts = [raw(e) for e in x]
        if not parts:
            return np.empty((0,), dtype=object)
        if len({p.shape for p in parts}) != 1:
            raise Prog("ValueError", "inhomogeneous shape")
        out = np.empty((len(parts),) + parts[0].shape, dtype=object)
        for i, p in enumerate(parts):
            out[i] = p if p.ndim else p[()]
        return out
    raise Unsupported(f"not a tensor: {type(x).__name__} {x!r}"[:120])


def mk(r, *parents, dtype=None, np_=False):
    if not isinstance(r, np.ndarray):
        b = np.empty((), dtype=object)
        b[()] = r if isinstance(r, Poly) else const(r)
        r = b
    if dtype is None:
        dtype = "float32"
        for p in parents:
            if isinstance(p, T):
                dtype = p.dtype
                break
    return T(r, dtype, np_, parents)


def _vec1(f):
    def g(a):
        out = np.empty(a.shape, dtype=object)
        fo, fa = out.reshape(-1), a.reshape(-1)
        for i in range(fa.size):
            fo[i] = f(fa[i])
        return fo.reshape(a.shape)

    return g


def _vec2(f):
    def g(a, b):
        a, b = raw(a) if not isinstance(a, np.ndarray) else a, raw(b) if not isinstance(b, np.ndarray) else b
        try:
            a, b = np.broadcast_arrays(a, b)
        except ValueError as e:
            raise Prog("ValueError", str(e))
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            out[i] = f(a[i], b[i])
        return out

    return g


def _div1(x, y):
    if not y.t:
        raise Unsupported("division by an abstract zero")
    return alg.div(x, y)


vdiv = _vec2(_div1)


def _pow1(x, y):
    if y.is_const() and x.is_const():
        c, e = x.cval(), y.cval()
        if isinstance(e, int):
            if e < 0 and c == 0:
                raise Unsupported("0 ** negative")
            return const(Fraction(c) ** e)
    if y.is_const():
        e = y.cval()
        if e == Fraction(1, 2):
            return alg.apply_fn("sqrt", x)
        if isinstance(e, int):
            return x**e
    return alg.apply_fn("power", x, y)


vpow = _vec2(_pow1)


def _c(x):
    if not x.is_const():
        raise Unsupported("integer operation on an abstract value")
    return x.cval()


vmod = _vec2(lambda x, y: const(_c(x) % _c(y)))
vfloordiv = _vec2(lambda x, y: const(_c(x) // _c(y)))


def c_gt(x, y):
    return alg.ind_pos(x - y)


def c_ge(x, y):
    d = x - y
    s = alg.sign(d)
    if s in ("0", "+", "0+"):
        return ONE
    if s == "-":
        return ZERO
    return ONE - alg.ind_pos(-d)


def c_eq(x, y):
    d = x - y
    if not d.t:
        return ONE
    if d.is_const():
        return ZERO
    s = alg.sign(d)
    if s in ("+", "-"):
        return ZERO
    return ONE - alg.ind_pos(d) - alg.ind_pos(-d)


def where1(c, a, b):
    if c == ONE:
        return a
    if c == ZERO:
        return b
    return c * a + (ONE - c) * b


# ------------------------------------------------------------------ primitives
def A(x):
    return raw(x)


def _out(r, *parents, **kw):
    np_ = any(isinstance(p, T) and p.np_ for p in parents) and not any(
        isinstance(p, T) and not p.np_ for p in parents
    )
    return mk(r, *parents, np_=np_, **kw)


def _axis(axis):
    if isinstance(axis, T):
        return int(axis)
    if isinstance(axis, (list, tuple)):
        return tuple(int(i) for i in axis)
    return axis


def unary(f):
    v = _vec1(f)

    def g(x, **kw):
        return _out(v(A(x)), x)

    return g


def binary(f):
    v = _vec2(f)

    def g(x, y, **kw):
        a, b = A(x), A(y)
        return _out(v(a, b), x, y)

    return g


k_add = lambda x, y, **k: _out(_bc(lambda a, b: a + b, x, y), x, y)
k_sub = lambda x, y, **k: _out(_bc(lambda a, b: a - b, x, y), x, y)
k_mul = lambda x, y, **k: _out(_bc(lambda a, b: a * b, x, y), x, y)


def _bc(f, x, y):
    try:
        return f(A(x), A(y))
    except ValueError as e:
        raise Prog("ValueError", str(e))


k_div = binary(_div1)
k_maximum = binary(alg.pmax)
k_minimum = binary(alg.pmin)
k_power = binary(_pow1)
k_abs = unary(alg.pabs)
k_neg = unary(lambda x: -x)
k_relu = unary(alg.pos)
k_square = unary(lambda x: x * x)


def _sqrt(x):
    if not x.t:
        return ZERO
    return alg.apply_fn("sqrt", x)


def fn1(name):
    return unary(lambda x: alg.apply_fn(name, x))


k_exp = fn1("exp")
k_log = fn1("log")
k_tanh = fn1("tanh")
k_sigmoid = fn1("sigmoid")
k_softplus = fn1("softplus")
k_softsign = fn1("softsign")
k_selu = fn1("selu")
k_hard_sigmoid = fn1("hard_sigmoid")
k_sqrt = unary(_sqrt)
k_log1p = unary(lambda x: alg.apply_fn("log", x + 1))


def k_elu(x, alpha=1.0):
    if alpha != 1.0:
        raise Unsupported("elu alpha")
    return fn1("elu")(x)


def _sign1(x):
    s = alg.sign(x)
    if s == "+":
        return ONE
    if s == "-":
        return -ONE
    if s == "0":
        return ZERO
    return alg.ind_pos(x) - alg.ind_pos(-x)


k_sign = unary(_sign1)


def k_clip(x, lo=None, hi=None, x_min=None, x_max=None, a_min=None, a_max=None):
    for v in (x_min, a_min):
        if v is not None:
            lo = v
    for v in (x_max, a_max):
        if v is not None:
            hi = v
    r = x
    if lo is not None:
        r = k_maximum(r, lo)
    if hi is not None:
        if isinstance(hi, float) and hi == math.inf:
            return r
        r = k_minimum(r, hi)
    return r


def k_reduce(f, init=None):
    def g(x, axis=None, keepdims=False, initial=None, dtype=None, **kw):
        a = A(x)
        axis = _axis(axis)
        if axis is None:
            axes = tuple(range(a.ndim))
        elif isinstance(axis, tuple):
            axes = tuple(i % a.ndim for i in axis)
        else:
            if not -a.ndim <= axis < a.ndim:
                raise Prog("ValueError", "axis out of range")
            axes = (axis % a.ndim,)
        keep = [i for i in range(a.ndim) if i not in axes]
        b = np.transpose(a, keep + list(axes)).reshape([a.shape[i] for i in keep] + [-1])
        out = np.empty(b.shape[:-1], dtype=object)
        for i in np.ndindex(out.shape):
            out[i] = f(list(b[i]))
        if keepdims:
            out = out.reshape([1 if i in axes else a.shape[i] for i in range(a.ndim)])
        return _out(out if isinstance(out, np.ndarray) else np.array(out, dtype=object), x)

    return g


def _fsum(l):
    d = {}
    for p in l:
        for m, c in p.t.items():
            d[m] = d.get(m, 0) + c
    return Poly({m: alg._norm(c) for m, c in d.items() if c != 0})


def _fmax(l):
    if not l:
        raise Prog("ValueError", "zero-size array to reduction")
    return alg.nmax(l)


def _fmin(l):
    if not l:
        raise Prog("ValueError", "zero-size array to reduction")
    if alg.NARY[0]:
        return -alg.nmax([-p for p in l])
    r = l[0]
    for p in l[1:]:
        r = alg.pmin(r, p)
    return r


def _fprod(l):
    r = ONE
    for p in l:
        r = r * p
    return r


k_sum = k_reduce(_fsum)
k_max = k_reduce(_fmax)
k_min = k_reduce(_fmin)
k_prod = k_reduce(_fprod)
k_mean = k_reduce(lambda l: _fsum(l) * const(Fraction(1, len(l))))
k_any = k_reduce(lambda l: ONE - _fprod([ONE - p for p in l]))
k_all = k_reduce(_fprod)


def k_norm(x, ord=None, axis=None, keepdims=False):
    if ord in (None, 2):
        return k_sqrt(k_sum(k_square(x), axis=axis, keepdims=keepdims))
    if ord == 1:
        return k_sum(k_abs(x), axis=axis, keepdims=keepdims)
    if ord == math.inf:
        return k_max(k_abs(x), axis=axis, keepdims=keepdims)
    raise Unsupported("norm")


def _order(l):
    """total order of abstract scalars when the signs of differences decide it"""
    import functools

    def cmp(i, j):
        d = l[i] - l[j]
        s = alg.sign(d) or alg.choose(d)
        if s in ("+", "0+"):
            return 1
        if s in ("-", "0-"):
            return -1
        if s == "0":
            return 0
        raise Unsupported("ordering of abstract values is not determined")

    return sorted(range(len(l)), key=functools.cmp_to_key(cmp))


def _argx(last):
    def f(l):
        if len(l) == 1:
            return ZERO
        best = 0
        for i in range(1, len(l)):
            d = l[i] - l[best] if last else l[best] - l[i]
            s = alg.sign(d) or alg.choose(d)
            if s is None:
                raise Unsupported("argmax of abstract values")
            if s in ("+", "0+"):
                best = i
        return const(best)

    return k_reduce(f)


def k_argmax(x, axis=None, **kw):
    return mk(_argx(True)(x, axis).a, x, dtype="int64", np_=isinstance(x, T) and x.np_)


def k_argmin(x, axis=None, **kw):
    return mk(_argx(False)(x, axis).a, x, dtype="int64", np_=isinstance(x, T) and x.np_)


def k_sort(x, axis=-1):
    a = A(x)
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape, dtype=object)
    for i in np.ndindex(b.shape[:-1]):
        l = list(b[i])
        o = _order(l)
        for k, j in enumerate(o):
            out[i + (k,)] = l[j]
    return _out(np.moveaxis(out, -1, axis), x)


def k_argsort(x, axis=-1):
    a = A(x)
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape, dtype=object)
    for i in np.ndindex(b.shape[:-1]):
        for k, j in enumerate(_order(list(b[i]))):
            out[i + (k,)] = const(j)
    return mk(np.moveaxis(out, -1, axis), x, dtype="int64", np_=True)


def k_reshape(x, newshape=None, **kw):
    if newshape is None:
        newshape = kw.get("shape")
    if isinstance(newshape, T):
        newshape = newshape.tolist()
    if isinstance(newshape, int):
        newshape = (newshape,)
    a = A(x)
    sh = []
    for s in newshape:
        if s is None:
            raise Prog("TypeError", "None in reshape")
        if isinstance(s, float):
            raise Prog("TypeError", "float in reshape")
        sh.append(int(s))
    try:
        r = a.reshape(sh)
    except ValueError as e:
        raise Prog("ValueError", str(e))
    return _out(r, x)


def k_expand_dims(x, axis):
    a = A(x)
    axis = _axis(axis)
    try:
        return _out(np.expand_dims(a, axis), x)
    except Exception as e:
        raise Prog("ValueError", str(e))


def k_squeeze(x, axis=None):
    a = A(x)
    try:
        return _out(np.squeeze(a, _axis(axis)), x)
    except ValueError as e:
        raise Prog("ValueError", str(e))


def k_transpose(x, axes=None):
    a = A(x)
    if axes is not None:
        axes = [int(i) for i in axes]
        if sorted(i % a.ndim for i in axes) != list(range(a.ndim)):
            raise Prog("ValueError", "axes don't match tensor")
    return _out(np.transpose(a, axes), x)


def k_concatenate(xs, axis=-1):
    xs = list(xs)
    arrs = [A(x) for x in xs]
    try:
        return _out(np.concatenate(arrs, axis=_axis(axis)), *xs)
    except Exception as e:
        raise Prog("ValueError", str(e))


def np_concatenate(xs, axis=0):
    return k_concatenate(xs, axis)


def k_stack(xs, axis=0):
    xs = list(xs)
    try:
        return _out(np.stack([A(x) for x in xs], axis=_axis(axis)), *xs)
    except Exception as e:
        raise Prog("ValueError", str(e))


def k_split(x, indices_or_sections, axis=0):
    a = A(x)
    s = indices_or_sections
    if isinstance(s, T):
        s = s.tolist()
    try:
        if isinstance(s, (list, tuple)):
            parts = np.split(a, [int(i) for i in s], axis=_axis(axis))
        else:
            parts = np.split(a, int(s), axis=_axis(axis))
    except ValueError as e:
        raise Prog("ValueError", str(e))
    return [_out(p, x) for p in parts]


def k_unstack(x, num=None, axis=0):
    a = np.moveaxis(A(x), axis, 0)
    return [_out(p if isinstance(p, np.ndarray) else np.array(p, dtype=object), x) for p in a]


def k_dot(x, y):
    a, b = A(x), A(y)
    try:
        if a.ndim == 0 or b.ndim == 0:
            return _out(a * b, x, y)
        if b.ndim == 1:
            return _out(np.tensordot(a, b, axes=([-1], [0])), x, y)
        return _out(np.tensordot(a, b, axes=([a.ndim - 1], [b.ndim - 2])), x, y)
    except ValueError as e:
        raise Prog("ValueError", str(e))


def k_matmul(x, y):
    a, b = A(x), A(y)
    try:
        return _out(np.matmul(a, b), x, y)
    except ValueError as e:
        raise Prog("ValueError", str(e))


def k_tensordot(x, y, axes=2):
    try:
        return _out(np.tensordot(A(x), A(y), axes=axes), x, y)
    except ValueError as e:
        raise Prog("ValueError", str(e))


def k_einsum(spec, *ops):
    spec = spec.replace(" ", "")
    arrs = [A(o) for o in ops]
    ins, out = spec.split("->")
    ins = ins.split(",")
    if any("." in i for i in ins):
        raise Unsupported("einsum ellipsis")
    dims = {}
    for i, a in zip(ins, arrs):
        for c, n in zip(i, a.shape):
            dims[c] = n
    rest = [c for c in dims if c not in out]
    res = np.empty([dims[c] for c in out], dtype=object)
    for io in np.ndindex(res.shape):
        env = dict(zip(out, io))
        tot = ZERO
        for ir in itertools.product(*[range(dims[c]) for c in rest]):
            env.update(zip(rest, ir))
            p = ONE
            for i, a in zip(ins, arrs):
                p = p * a[tuple(env[c] for c in i)]
            tot = tot + p
        res[io] = tot
    return _out(res, *ops)


def k_batch_dot(x, y, axes=None, normalize=False):
    a, b = A(x), A(y)
    if axes is None:
        axes = [a.ndim - 1, b.ndim - 2 if b.ndim > 2 else b.ndim - 1]
    if isinstance(axes, int):
        axes = [axes, axes]
    ax, ay = int(axes[0]) % a.ndim, int(axes[1]) % b.ndim
    if ax == 0 or ay == 0:
        raise Prog("ValueError", "cannot perform batch_dot over axis 0")
    if a.shape[0] != b.shape[0] or a.shape[ax] != b.shape[ay]:
        raise Prog("ValueError", f"cannot do batch_dot on shapes {a.shape} {b.shape} axes {axes}")
    parts = [np.tensordot(a[i], b[i], axes=([ax - 1], [ay - 1])) for i in range(a.shape[0])]
    parts = [p if isinstance(p, np.ndarray) else _arr0(p) for p in parts]
    r = np.stack(parts)
    if r.ndim == 1:
        r = r[:, None]
    return _out(r, x, y)


def _arr0(p):
    b = np.empty((), dtype=object)
    b[()] = p
    return b


def k_where(c, a=None, b=None):
    if a is None:
        idx = np.argwhere(np.array([bool(_c(v)) for v in A(c).reshape(-1)]).reshape(A(c).shape))
        return tuple(mk(np.array([const(int(v)) for v in idx[:, k]], dtype=object), dtype="int64", np_=True) for k in range(idx.shape[1]))
    ca, aa, ba = A(c), A(a), A(b)
    try:
        ca, aa, ba = np.broadcast_arrays(ca, aa, ba)
    except ValueError as e:
        raise Prog("ValueError", str(e))
    out = np.empty(ca.shape, dtype=object)
    for i in np.ndindex(ca.shape):
        out[i] = where1(ca[i], aa[i], ba[i])
    return _out(out, c, a, b)


def k_repeat(x, repeats, axis=None):
    a = A(x)
    return _out(np.repeat(a, int(repeats), axis=_axis(axis)), x)


def k_tile(x, reps):
    return _out(np.tile(A(x), tuple(int(r) for r in (reps if isinstance(reps, (list, tuple)) else [reps]))), x)


def _full(shape, v):
    if isinstance(shape, T):
        shape = shape.tolist()
    if isinstance(shape, (int, T)):
        shape = (int(shape),)
    out = np.empty(tuple(int(s) for s in shape), dtype=object)
    out.fill(const(v) if not isinstance(v, T) else v.a.reshape(-1)[0])
    return out


def k_zeros(shape, dtype="float32", **kw):
    return mk(_full(shape, 0), dtype=str(dtype))


def k_ones(shape, dtype="float32", **kw):
    return mk(_full(shape, 1), dtype=str(dtype))


def k_full(shape, v, dtype="float32"):
    return mk(_full(shape, v), dtype=str(dtype))


def k_zeros_like(x, dtype=None, **kw):
    return _out(_full(A(x).shape, 0), x)


def k_ones_like(x, dtype=None, **kw):
    return _out(_full(A(x).shape, 1), x)


def k_full_like(x, v, dtype=None):
    return _out(_full(A(x).shape, v), x)


def _eye(n, m=None, k=0):
    m = n if m is None else m
    out = _full((n, m), 0)
    for i in range(n):
        if 0 <= i + k < m:
            out[i, i + k] = ONE
    return out


def k_identity(n, dtype="float32"):
    return mk(_eye(int(n)), dtype=str(dtype))


def k_eye(n, M=None, k=0, dtype="float32"):
    return mk(_eye(int(n), M, k))


def k_diag(x, k=0):
    a = A(x)
    if a.ndim == 1:
        n = a.shape[0] + abs(k)
        out = _full((n, n), 0)
        for i in range(a.shape[0]):
            out[i + max(-k, 0), i + max(k, 0)] = a[i]
        return _out(out, x)
    if a.ndim != 2:
        raise Prog("ValueError", "diag needs 1 or 2 dims")
    return _out(np.array([a[i, i + k] for i in range(min(a.shape[0], a.shape[1] - k))], dtype=object), x)


def k_cumsum(x, axis=None, dtype=None):
    a = A(x)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    out = a.copy()
    b = np.moveaxis(out, axis, 0)
    for i in range(1, b.shape[0]):
        b[i] = b[i - 1] + b[i]
    return _out(out, x)


def k_one_hot(x, num_classes, axis=-1, dtype="float32", **kw):
    a = A(x)
    n = int(num_classes)
    if GRID[0] and n >= 10:
        n = GRID[0]
    out = np.empty(a.shape + (n,), dtype=object)
    for i in np.ndindex(a.shape):
        k = int(_c(a[i]))
        for j in range(n):
            out[i + (j,)] = ONE if j == k else ZERO
    if axis not in (-1, a.ndim):
        out = np.moveaxis(out, -1, axis)
    return _out(out, x)


def k_cast(x, dtype=None, **kw):
    if isinstance(x, T):
        r = T(x.a, str(dtype), x.np_, (x,))
        return r
    return mk(raw(x), dtype=str(dtype))


def k_convert(x, dtype=None, **kw):
    if isinstance(x, T):
        r = T(x.a, x.dtype, False, (x,))
        return r
    return mk(raw(x))


def k_to_numpy(x):
    return T(A(x).copy(), "float32", True)


def np_array(x, dtype=None, **kw):
    if isinstance(x, T):
        return T(x.a.copy(), x.dtype, True)
    return T(raw(x).copy(), str(dtype or "float32"), True)


def np_asarray(x, dtype=None, **kw):
    if isinstance(x, T) and x.np_:
        return x
    return np_array(x, dtype)


def k_arange(*a, dtype=None, **kw):
    vals = [int(v) if not isinstance(v, float) else v for v in a]
    seq = _frange(*vals)
    if GRID[0] and len(seq) >= 10:
        seq = seq[: GRID[0]]
    return mk(np.array([const(v) for v in seq], dtype=object), dtype="int64")


def _frange(*a):
    return [x.item() for x in np.arange(*a)]


def k_flip(x, axis=None):
    return _out(np.flip(A(x), _axis(axis)), x)


def k_broadcast_to(x, shape):
    try:
        return _out(np.array(np.broadcast_to(A(x), tuple(shape)), dtype=object), x)
    except ValueError as e:
        raise Prog("ValueError", str(e))


def k_take(x, indices, axis=None):
    idx = _index(indices) if not isinstance(indices, (list, tuple)) else [int(i) for i in indices]
    return _out(np.take(A(x), idx, axis=_axis(axis)), x)


def k_moveaxis(x, s, d):
    return _out(np.moveaxis(A(x), s, d), x)


def k_swapaxes(x, s, d):
    return _out(np.swapaxes(A(x), s, d), x)


def k_softmax(x, axis=-1):
    e = k_exp(x)
    return e / k_sum(e, axis=axis, keepdims=True)


def k_logsumexp(x, axis=None, keepdims=False):
    return k_log(k_sum(k_exp(x), axis=axis, keepdims=keepdims))


def k_solve(a, b):
    raise Unsupported("solve")


def k_pad(x, pad_width, mode="constant", constant_values=None):
    a = A(x)
    pw = [tuple(int(v) for v in p) for p in pad_width]
    out = _full([s + p[0] + p[1] for s, p in zip(a.shape, pw)], 0)
    out[tuple(slice(p[0], p[0] + s) for s, p in zip(a.shape, pw))] = a
    return _out(out, x)


def conv_pad(n, k, s, d, padding):
    ke = (k - 1) * d + 1
    if padding == "same":
        out = -(-n // s)
        tot = max((out - 1) * s + ke - n, 0)
        return out, tot // 2, tot - tot // 2
    if padding != "valid":
        raise Unsupported(f"padding {padding}")
    return (n - ke) // s + 1, 0, 0


def _two(v):
    if isinstance(v, (tuple, list)):
        return tuple(int(i) for i in v)
    return (int(v), int(v))


def k_conv(inputs, kernel, strides=1, padding="valid", data_format=None, dilation_rate=1):
    a, w = A(inputs), A(kernel)
    n = a.ndim - 2
    if n not in (1, 2, 3) or w.ndim != n + 2:
        raise Unsupported("conv rank")
    if data_format == "channels_first":
        a = np.moveaxis(a, 1, -1)

    def per_dim(v):
        v = list(_axes_list(v)) if isinstance(v, (list, tuple)) else [int(v)] * n
        if len(v) != n:
            raise Prog("ValueError", f"{len(v)} values for {n} spatial dimensions")
        return [int(x) for x in v]

    st, di = per_dim(strides), per_dim(dilation_rate)
    c, ci, co = a.shape[-1], w.shape[-2], w.shape[-1]
    if not c:
        raise Unsupported("convolution without channels")
    if c % ci or co % (c // ci):
        raise Prog("ValueError", "conv channel mismatch")
    per_group = co // (c // ci)
    pads = [conv_pad(a.shape[1 + d], w.shape[d], st[d], di[d], padding) for d in range(n)]
    out = np.empty((a.shape[0], *[p[0] for p in pads], co), dtype=object)
    for idx in np.ndindex(out.shape):
        terms = []
        for k in np.ndindex(*w.shape[:n]):
            pos_ = tuple(idx[1 + d] * st[d] + k[d] * di[d] - pads[d][1] for d in range(n))
            if any(not 0 <= pos_[d] < a.shape[1 + d] for d in range(n)):
                continue
            for m in range(ci):
                v = a[(idx[0],) + pos_ + (m + ci * (idx[-1] // per_group),)]
                if v.t:
                    terms.append(v * w[k + (m, idx[-1])])
        out[idx] = _fsum(terms)
    if data_format == "channels_first":
        out = np.moveaxis(out, -1, 1)
    return _out(out, inputs, kernel)


def _axes_list(v):
    return [x for x in v]


def k_conv_transpose(inputs, kernel, strides=1, padding="valid", output_padding=None, data_format=None, dilation_rate=1):
    raise Unsupported("conv_transpose")


def k_pool(reduce):
    def g(inputs, pool_size, strides=None, padding="valid", data_format=None):
        a = A(inputs)
        if a.ndim != 4:
            raise Unsupported("pool rank")
        if data_format == "channels_first":
            a = np.transpose(a, (0, 2, 3, 1))
        p1, p2 = _two(pool_size)
        s1, s2 = _two(strides if strides is not None else pool_size)
        n, h, w, c = a.shape
        oh, pt, _ = conv_pad(h, p1, s1, 1, padding)
        ow, pl, _ = conv_pad(w, p2, s2, 1, padding)
        out = np.empty((n, oh, ow, c), dtype=object)
        for b, i, j, k in np.ndindex(out.shape):
            vals = []
            for p in range(p1):
                for q in range(p2):
                    y, x = i * s1 + p - pt, j * s2 + q - pl
                    if 0 <= y < h and 0 <= x < w:
                        vals.append(a[b, y, x, k])
            out[b, i, j, k] = reduce(vals)
        if data_format == "channels_first":
            out = np.transpose(out, (0, 3, 1, 2))
        return _out(out, inputs)

    return g


k_max_pool = k_pool(_fmax)
k_average_pool = k_pool(lambda l: _fsum(l) * const(Fraction(1, len(l))))


def k_extract_patches(image, size, strides=None, dilation_rate=1, padding="valid", data_format="channels_last"):
    a = A(image)
    if data_format == "channels_first":
        a = np.transpose(a, (0, 2, 3, 1))
    p1, p2 = _two(size)
    s1, s2 = _two(strides if strides else size)
    d1, d2 = _two(dilation_rate)
    n, h, w, c = a.shape
    oh, pt, _ = conv_pad(h, p1, s1, d1, padding)
    ow, pl, _ = conv_pad(w, p2, s2, d2, padding)
    out = np.empty((n, oh, ow, p1 * p2 * c), dtype=object)
    for b, i, j in np.ndindex((n, oh, ow)):
        k = 0
        for p in range(p1):
            for q in range(p2):
                for ch in range(c):
                    y, x = i * s1 + p * d1 - pt, j * s2 + q * d2 - pl
                    out[b, i, j, k] = a[b, y, x, ch] if 0 <= y < h and 0 <= x < w else ZERO
                    k += 1
    if data_format == "channels_first":
        out = np.transpose(out, (0, 3, 1, 2))
    return _out(out, image)


def k_rnn(step_function, inputs, initial_states, go_backwards=False, mask=None, constants=None, unroll=False, input_length=None, time_major=False, zero_output_for_mask=False, return_all_outputs=True):
    outs = []
    states = list(initial_states)
    nt = inputs.a.shape[1]
    for t in range(nt):
        o, states = step_function(inputs[:, t], states + list(constants or []))
        outs.append(o)
    if not outs:
        raise Unsupported("empty rnn")
    return outs[-1], k_stack(outs, axis=1), states


def k_shape(x):
    return tuple(A(x).shape)


def k_cmp(f):
    v = _vec2(f)

    def g(x, y):
        return _out(v(A(x), A(y)), x, y, dtype="bool")

    return g


k_greater = k_cmp(c_gt)
k_less = k_cmp(lambda x, y: c_gt(y, x))
k_greater_equal = k_cmp(c_ge)
k_less_equal = k_cmp(lambda x, y: c_ge(y, x))
k_equal = k_cmp(c_eq)
k_not_equal = k_cmp(lambda x, y: ONE - c_eq(x, y))


def k_vstack(xs):
    return k_concatenate([x if len(A(x).shape) > 1 else k_expand_dims(x, 0) for x in xs], 0)


def np_delete(x, obj, axis=None):
    if axis is None:
        return _out(np.delete(A(x).reshape(-1), _index(obj)), x)
    return _out(np.delete(A(x), _index(obj), axis=axis), x)


def np_insert(x, obj, values, axis=None):
    if isinstance(x, (list, tuple)):
        x = np_array(list(x))
    return _out(np.insert(A(x), _index(obj), A(values), axis=axis), x)


GRID = [None]  # search grids are cut down to this number of points


def np_linspace(a, b, n=50, num=None, dtype=None, **kw):
    n = n if num is None else num
    if kw or isinstance(a, T) or isinstance(b, T):
        raise Unsupported("linspace")
    if GRID[0] and n >= 10:
        n = GRID[0]
    return mk(np.array([const(Fraction(i, n - 1) * Fraction(b - a) + Fraction(a)) for i in range(n)], dtype=object), np_=True)


def _struct(f):
    """numpy function which only moves elements"""

    def g(x, *a, **k):
        return _out(np.array(f(A(x), *a, **k), dtype=object), x)

    g.__name__ = f.__name__
    return g


def k_hstack(xs):
    xs = list(xs)
    return _out(np.hstack([A(x) for x in xs]), *xs)


def k_append(x1, x2, axis=None):
    if axis is None:
        return k_concatenate([k_reshape(x1, (-1,)), k_reshape(x2, (-1,))], axis=0)
    return k_concatenate([x1, x2], axis=axis)


def k_var(x, axis=None, keepdims=False):
    d = x - k_mean(x, axis=axis, keepdims=True)
    return k_mean(d * d, axis=axis, keepdims=keepdims)


def k_outer(x1, x2):
    return k_reshape(x1, (-1, 1)) * k_reshape(x2, (1, -1))


def k_tri_(f):
    def g(x, k=0):
        a = A(x)
        m = f(np.ones(a.shape[-2:]), k)
        r = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            r[i] = a[i] if m[i[-2:]] else const(0)
        return _out(r, x)

    return g


def k_take_along_axis(x, indices, axis=None):
    idx = A(indices)
    v = np.array([int(_c(p)) for p in idx.reshape(-1)]).reshape(idx.shape)
    a = A(x)
    if axis is None:
        a, axis = a.reshape(-1), 0
    return _out(np.take_along_axis(a, v, axis), x)


def k_cond(pred, true_fn, false_fn):
    return true_fn() if bool(pred) else false_fn()


def k_slice(inputs, start_indices, shape):
    st = [int(v) for v in (A(start_indices).reshape(-1) if isinstance(start_indices, T) else start_indices)]
    return _out(A(inputs)[tuple(slice(b, b + int(n)) for b, n in zip(st, shape))], inputs)


def k_leaky_relu(x, negative_slope=0.2):
    return k_relu(x) - negative_slope * k_relu(-x)


def k_false(x):
    return k_zeros_like(x) > 0


def k_divide_no_nan(x1, x2):
    for p in A(x2).reshape(-1):
        if isinstance(p, Poly) and all(not m for m in p.t):
            if not p.t.get((), 0):
                raise Unsupported("division by zero")
        elif alg.quick_sign(p) not in ("+", "-"):
            raise Unsupported("division by a value which may be zero")
    return x1 / x2


def k_fori(lower, upper, body_fun, init_val):
    v = init_val
    for i in range(int(lower), int(upper)):
        v = body_fun(i, v)
    return v


def k_average(x, axis=None, weights=None):
    if weights is None:
        return k_mean(x, axis=axis)
    w = weights if isinstance(weights, T) else np_array(weights)
    if w.ndim != x.ndim:
        raise Unsupported("average")
    return k_sum(x * w, axis=axis) / k_sum(w, axis=axis)


KOPS = {
    "add": k_add, "subtract": k_sub, "multiply": k_mul, "divide": k_div, "true_divide": k_div,
    "maximum": k_maximum, "minimum": k_minimum, "power": k_power, "abs": k_abs, "absolute": k_abs,
    "negative": k_neg, "relu": k_relu, "square": k_square, "exp": k_exp, "log": k_log, "tanh": k_tanh,
    "sigmoid": k_sigmoid, "softplus": k_softplus, "softsign": k_softsign, "selu": k_selu, "elu": k_elu,
    "hard_sigmoid": k_hard_sigmoid, "sqrt": k_sqrt, "log1p": k_log1p, "sign": k_sign, "clip": k_clip,
    "sum": k_sum, "max": k_max, "min": k_min, "prod": k_prod, "mean": k_mean, "any": k_any, "all": k_all,
    "amax": k_max, "amin": k_min, "norm": k_norm, "argmax": k_argmax, "argmin": k_argmin, "sort": k_sort,
    "argsort": k_argsort, "reshape": k_reshape, "expand_dims": k_expand_dims, "squeeze": k_squeeze,
    "transpose": k_transpose, "concatenate": k_concatenate, "stack": k_stack, "split": k_split,
    "unstack": k_unstack, "dot": k_dot, "matmul": k_matmul, "tensordot": k_tensordot, "einsum": k_einsum,
    "where": k_where, "repeat": k_repeat, "tile": k_tile, "zeros": k_zeros, "ones": k_ones, "full": k_full,
    "zeros_like": k_zeros_like, "ones_like": k_ones_like, "full_like": k_full_like, "identity": k_identity,
    "eye": k_eye, "diag": k_diag, "cumsum": k_cumsum, "one_hot": k_one_hot, "cast": k_cast,
    "convert_to_tensor": k_convert, "convert_to_numpy": k_to_numpy, "arange": k_arange, "flip": k_flip,
    "broadcast_to": k_broadcast_to, "take": k_take, "moveaxis": k_moveaxis, "swapaxes": k_swapaxes,
    "softmax": k_softmax, "logsumexp": k_logsumexp, "solve": k_solve, "pad": k_pad, "conv": k_conv,
    "max_pool": k_max_pool, "average_pool": k_average_pool, "shape": k_shape, "greater": k_greater,
    "less": k_less, "greater_equal": k_greater_equal, "less_equal": k_less_equal, "equal": k_equal,
    "not_equal": k_not_equal, "vstack": k_vstack, "ravel": lambda x: k_reshape(x, (-1,)),
    "ndim": lambda x: A(x).ndim, "size": lambda x: int(A(x).size), "stop_gradient": lambda x: x,
    "logical_not": lambda x: ~x, "logical_and": lambda x, y: x * y, "logical_or": lambda x, y: x + y - x * y,
    "hstack": k_hstack, "append": k_append, "var": k_var, "std": lambda x, axis=None, keepdims=False: k_sqrt(k_var(x, axis, keepdims)),
    "outer": k_outer, "triu": k_tri_(np.triu), "tril": k_tri_(np.tril), "diagonal": _struct(np.diagonal), "roll": _struct(np.roll),
    "take_along_axis": k_take_along_axis, "cond": k_cond, "slice": k_slice, "leaky_relu": k_leaky_relu, "average": k_average,
    "isnan": k_false, "isinf": k_false, "isfinite": lambda x: ~k_false(x), "is_tensor": lambda x: isinstance(x, T) and not x.np_,
    "rsqrt": lambda x: 1 / k_sqrt(x), "expm1": lambda x: k_exp(x) - 1, "silu": lambda x: x * k_sigmoid(x), "fori_loop": k_fori,
    "logical_xor": lambda x, y: x + y - 2 * x * y, "trace": lambda x, offset=0, axis1=0, axis2=1: k_sum(_struct(np.diagonal)(x, offset, axis1, axis2), axis=-1),
    "vdot": lambda x, y: k_sum(k_reshape(x, (-1,)) * k_reshape(y, (-1,))), "array": k_convert,
    "diff": lambda a, n=1, axis=-1: a if n == 0 else _struct(np.diff)(a, n, axis), "relu6": lambda x: k_minimum(k_relu(x), 6),
    "moments": lambda x, axes, keepdims=False, synchronized=False: (k_mean(x, axis=axes, keepdims=keepdims), k_var(x, axes, keepdims)),
    "log_softmax": lambda x, axis=-1: x - k_logsumexp(x, axis=axis, keepdims=True),
    "divide_no_nan": k_divide_no_nan,
    "linspace": np_linspace, "reciprocal": lambda x: 1 / x, "copy": lambda x: x.copy(), "swish": None,
}
KOPS.pop("swish")
KOPS = {k: recorded(f) for k, f in KOPS.items()}
