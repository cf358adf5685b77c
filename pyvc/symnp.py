"""A numpy look-alike that pyGSTi's modules see while they run on symbolic scalars.  Float and complex arrays are
object arrays of RExpr; everything else is numpy's own."""
import sys
import types
import builtins
import numpy as np
from .ring import RExpr
from .core import SInt, SBool, Unsupported, ctx, cmp_rexpr


def is_sym(x):
    return isinstance(x, (RExpr, SInt, SBool))


def has_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(is_sym(e) for e in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(e) for e in x)
    return False


def lift(e):
    return e if isinstance(e, RExpr) else (e.to_rexpr() if isinstance(e, SInt) else RExpr.const(e))


def _unary(name, numf):
    def f(e):
        if isinstance(e, SInt):
            e = e.to_rexpr()
        if isinstance(e, RExpr):
            if e.is_const():
                c = e.const_value()
                return numf(complex(c) if isinstance(c, complex) else float(c))
            if name in ("abs", "absolute", "fabs"):
                return abs(e)
            if name == "square":
                return e * e
            if name == "sign":
                return 1 if e > 0 else (-1 if e < 0 else 0)
            if name == "negative":
                return -e
            if name in ("isnan", "isinf"):
                return False
            if name == "isfinite":
                return True
            if name == "log10":
                return e.log() * (1 / np.log(10))
            if name == "reciprocal":
                return 1 / e
            return getattr(e, name)()
        return numf(e)
    return f


_UN = {}
for _n in ("sqrt", "log", "exp", "sin", "cos", "abs", "absolute", "fabs", "square", "sign", "isnan", "isinf", "isfinite",
           "log10", "reciprocal"):
    _UN[_n] = _unary(_n, getattr(np, _n))
for _n, _m in (("conjugate", "conjugate"), ("conj", "conjugate")):
    _UN[_n] = lambda e: e.conjugate() if hasattr(e, "conjugate") else e


class SymArray(np.ndarray):
    __array_priority__ = 9000.0

    def _map(self, f, dtype=object):
        out = np.empty(self.shape, dtype=dtype)
        for i, e in np.ndenumerate(self):
            out[i] = f(e)
        return out.view(SymArray) if dtype is object else out

    @property
    def real(self):
        return self._map(lambda e: e.real)

    @real.setter
    def real(self, v):
        v = np.broadcast_to(v, self.shape)
        for i, e in np.ndenumerate(self):
            self[i] = v[i] + e.imag * 1j

    @property
    def imag(self):
        return self._map(lambda e: e.imag)

    @imag.setter
    def imag(self, v):
        v = np.broadcast_to(v, self.shape)
        for i, e in np.ndenumerate(self):
            self[i] = e.real + v[i] * 1j

    def conjugate(self, *a):
        return self._map(lambda e: e.conjugate())

    conj = conjugate

    def astype(self, dtype, *a, **k):
        dt = np.dtype(dtype)
        if dt.kind in "fc" or dt == object:
            return self.copy()
        if has_sym(self):
            raise Unsupported("astype(%s) of symbolic values" % dt)
        return np.asarray(self, dtype=object).astype(dt)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method == "__call__" and len(inputs) == 1 and ufunc.__name__ in _UN and not kw.get("out"):
            f = _UN[ufunc.__name__]
            if ufunc.__name__ in ("isnan", "isinf", "isfinite"):
                return self._map(f, bool)
            return self._map(f)
        if ufunc.__name__ in ("maximum", "minimum") and method == "__call__" and not kw.get("out"):
            return _minmax(inputs[0], inputs[1], ufunc.__name__ == "maximum")
        ins = [i.view(np.ndarray) if isinstance(i, SymArray) else i for i in inputs]
        out = kw.get("out")
        if out:
            kw["out"] = tuple(o.view(np.ndarray) if isinstance(o, SymArray) else o for o in out)
        kw.pop("casting", None) if kw.get("casting") == "same_kind" else None
        if ufunc.__name__ == "matmul":
            r = np.dot(ins[0], ins[1])
        elif ufunc.__name__ in ("divide", "true_divide") and method == "__call__" and "where" in kw:
            w = kw.pop("where")
            o = kw.pop("out", (None,))[0]
            a, b = np.broadcast_arrays(*[np.asarray(x, dtype=object) for x in ins])
            w = np.broadcast_to(w, a.shape)
            for i in np.ndindex(a.shape):
                if w[i]:
                    o[i] = a[i] / b[i]
            r = o
        else:
            r = getattr(ufunc, method)(*ins, **kw)
        if out:
            return out[0]
        if isinstance(r, np.ndarray) and r.dtype == object:
            return r.view(SymArray)
        return r

    def _inplace(self, o, f):
        if isinstance(o, RExpr) or (isinstance(o, SymArray) and self.dtype == object):
            self[...] = f(self, o)
            return self
        return NotImplemented

    def __iadd__(self, o):
        r = self._inplace(o, lambda a, b: a + b)
        return super().__iadd__(o) if r is NotImplemented else r

    def __isub__(self, o):
        r = self._inplace(o, lambda a, b: a - b)
        return super().__isub__(o) if r is NotImplemented else r

    def __imul__(self, o):
        r = self._inplace(o, lambda a, b: a * b)
        return super().__imul__(o) if r is NotImplemented else r

    def __itruediv__(self, o):
        r = self._inplace(o, lambda a, b: a / b)
        return super().__itruediv__(o) if r is NotImplemented else r

    def max(self, axis=None, **k): return _red(self, axis, True)
    def min(self, axis=None, **k): return _red(self, axis, False)

    def tolist(self):
        return np.asarray(self).view(np.ndarray).tolist()

    def dot(self, b, out=None):
        return np.dot(self, b)

    def __matmul__(self, o): return np.dot(self, o)
    def __rmatmul__(self, o): return np.dot(o, self)

    def __reduce__(self):
        return (_rebuild, (self.shape, [e for e in self.flat]))


def _rebuild(shape, flat):
    a = np.empty(len(flat), dtype=object)
    for i, e in enumerate(flat):
        a[i] = e
    return a.reshape(shape).view(SymArray)


def _pick(a, b, mx):
    if not is_sym(a) and not is_sym(b):
        return max(a, b) if mx else min(a, b)
    if mx:
        return a if bool(lift(a) >= lift(b)) else b
    return a if bool(lift(a) <= lift(b)) else b


def _minmax(a, b, mx):
    a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        out[i] = _pick(a[i], b[i], mx)
    return out.view(SymArray) if out.shape else out[()]


class Threshold:
    """a numeric threshold (x.max() < PSMALL) whose outcome the contract leaves open: ask() decides, on either side alike"""

    def __init__(self, ask, value):
        self.ask, self.value = ask, value

    def __neg__(self):
        return self


class LazyRed:
    """max or min of all entries, computed when it is compared with anything but a Threshold"""

    def __init__(self, a, mx):
        self.a, self.mx = a, mx

    def force(self):
        return _red_all(self.a, self.mx)

    def __lt__(self, o): return o.ask(self) if isinstance(o, Threshold) else self.force() < o
    def __gt__(self, o): return o.ask(self) if isinstance(o, Threshold) else self.force() > o
    def __le__(self, o): return self.force() <= o
    def __ge__(self, o): return self.force() >= o


LAZY_RED = [False]


def _red_all(a, mx):
    it = iter(np.asarray(a, dtype=object).ravel())
    r = next(it)
    for e in it:
        r = _pick(r, e, mx)
    return r


def _red(a, axis, mx):
    if axis is None and LAZY_RED[0]:
        return LazyRed(a, mx)
    if axis is None:
        it = iter(np.asarray(a, dtype=object).ravel())
        r = next(it)
        for e in it:
            r = _pick(r, e, mx)
        return r
    a = np.moveaxis(np.asarray(a, dtype=object), axis, 0)
    r = a[0]
    for e in a[1:]:
        r = _minmax(r, e, mx)
    return r


def to_sym(x):
    """object SymArray with the contents of x"""
    if isinstance(x, SymArray):
        return x
    a = np.asarray(x)
    out = np.empty(a.shape, dtype=object)
    for i, e in np.ndenumerate(a):
        out[i] = e.item() if hasattr(e, "item") and not is_sym(e) else e
    return out.view(SymArray)


def concrete(x):
    """float/complex array when nothing symbolic is left, else None"""
    a = np.asarray(x)
    if a.dtype != object:
        return a
    out = np.empty(a.shape, dtype=complex)
    for i, e in np.ndenumerate(a):
        if isinstance(e, RExpr):
            if not e.is_const():
                return None
            e = e.const_value()
        if is_sym(e):
            return None
        out[i] = e
    return out if np.any(out.imag != 0) else out.real.copy()


def _fkind(dtype):
    if dtype is None:
        return True
    try:
        return np.dtype(dtype).kind in "fc"
    except TypeError:
        return False


def _shape(s):
    if isinstance(s, SInt):
        return s.__index__()
    if isinstance(s, (tuple, list)):
        return tuple(_shape(x) for x in s)
    return s


def _filled(shape, val):
    a = np.empty(_shape(shape), dtype=object)
    a.fill(val)
    return a.view(SymArray)


HOOKS = {}


class ShadowLinalg:
    LinAlgError = np.linalg.LinAlgError

    def _num(self, name, *args, **kw):
        cs = [concrete(a) if isinstance(a, np.ndarray) else a for a in args]
        if any(c is None for c in cs):
            if name in HOOKS:       # the contract of a LAPACK routine, stated by the unit
                return HOOKS[name](*args, **kw)
            raise Unsupported("numpy.linalg.%s of symbolic values" % name)
        return getattr(np.linalg, name)(*cs, **kw)

    def __getattr__(self, name):
        obj = getattr(np.linalg, name)
        if not callable(obj) or isinstance(obj, type):
            return obj
        return lambda *a, **k: self._num(name, *a, **k)

    def norm(self, x, ord=None, axis=None, keepdims=False):
        if not has_sym(x):
            return self._num("norm", np.asarray(x), ord=ord, axis=axis, keepdims=keepdims)
        if ord not in (None, 2, "fro") or (ord == 2 and x.ndim != 1):
            raise Unsupported("norm")
        s = sum_abs2(np.asarray(x, dtype=object)) if axis is None else None
        if s is None:
            a = np.asarray(x, dtype=object)
            out = np.empty(np.delete(a.shape, axis), dtype=object)
            b = np.moveaxis(a, axis, -1)
            for i in np.ndindex(out.shape):
                out[i] = lift(sum_abs2(b[i])).sqrt()
            return out.view(SymArray)
        return lift(s).sqrt()

    def det(self, a):
        c = concrete(a)
        if c is not None:
            return np.linalg.det(c)
        return _det(np.asarray(a, dtype=object))

    def matrix_power(self, a, n):
        c = concrete(a)
        if c is not None:
            return np.linalg.matrix_power(c, n)
        b = to_sym(np.asarray(a, dtype=object)) if n >= 0 else to_sym(sym_inv(np.asarray(a, dtype=object)))
        r = to_sym(np.identity(a.shape[0]).astype(object))
        for _ in range(abs(int(n))):
            r = np.dot(r, b)
        return r

    def inv(self, a):
        c = concrete(a)
        if c is not None:
            return np.linalg.inv(c)
        return sym_inv(np.asarray(a, dtype=object))

    def solve(self, a, b):
        c, d = concrete(a), concrete(b)
        if c is not None and d is not None:
            return np.linalg.solve(c, d)
        inv = np.linalg.inv(c) if c is not None else sym_inv(np.asarray(a, dtype=object))
        return np.dot(to_sym(inv), b)


def sum_abs2(a):
    s = 0
    for e in a.flat:
        s = s + (e * e.conjugate() if hasattr(e, "conjugate") else e * e)
    return s.real if hasattr(s, "real") else s


def _det(a):
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    if n == 2:
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    if n > 5:
        raise Unsupported("determinant of a large symbolic matrix")
    s = 0
    for j in range(n):
        e = a[0, j]
        if not is_sym(e) and e == 0:
            continue
        m = np.delete(np.delete(a, 0, 0), j, 1)
        s = s + (e if j % 2 == 0 else -e) * _det(m)
    return s


def sym_inv(a):
    """inverse by block elimination of decoupled (block diagonal) structure, then adjugate/determinant"""
    n = a.shape[0]
    zero = lambda e: (isinstance(e, RExpr) and not e.p) or (not is_sym(e) and e == 0)
    comp = list(range(n))

    def find(i):
        while comp[i] != i:
            i = comp[i]
        return i
    for i in range(n):
        for j in range(n):
            if not zero(a[i, j]):
                comp[find(i)] = find(j)
    out = _filled((n, n), 0)
    for r in {find(i) for i in range(n)}:
        idx = [i for i in range(n) if find(i) == r]
        sub = a[np.ix_(idx, idx)]
        c = concrete(sub)
        if c is not None:
            res = np.linalg.inv(c)
        else:
            d = _det(sub)
            res = np.empty(sub.shape, dtype=object)
            for i in range(len(idx)):
                for j in range(len(idx)):
                    if len(idx) == 1:
                        res[i, j] = 1 / d
                        continue
                    m = _det(np.delete(np.delete(sub, j, 0), i, 1))
                    res[i, j] = (m if (i + j) % 2 == 0 else -m) / d
        for i, p in enumerate(idx):
            for j, q in enumerate(idx):
                out[p, q] = res[i, j]
    return out


class _FloatDtype:
    """np.dtype('d') or complex as compared with the dtype of an array that may hold symbolic entries"""
    def __init__(self, dt):
        self.dt = dt
        self.kind = dt.kind

    def __eq__(self, o):
        return o == self.dt or o == np.dtype(object)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.dt)


class ScalarType:
    """numpy scalar type that lets symbolic scalars through when called; also serves as a dtype and in isinstance"""
    def __init__(self, t):
        self.t, self.dtype = t, np.dtype(t)

    def __call__(self, x=0.0):
        if is_sym(x):
            return x
        if has_sym(x) if isinstance(x, np.ndarray) else False:
            return to_sym(x)
        return self.t(x)

    def __instancecheck__(self, x):
        return isinstance(x, self.t)

    def __getattr__(self, name):
        return getattr(self.t, name)


class ShadowNP:
    """stands in for the numpy module"""

    def __init__(self):
        self.linalg = ShadowLinalg()

    def __getattr__(self, name):
        return getattr(np, name)

    def __deepcopy__(self, memo):
        return self

    # creation
    def dtype(self, d, *a, **k):
        r = np.dtype(d, *a, **k)
        return _FloatDtype(r) if r.kind in "fc" else r

    def zeros(self, shape, dtype=None, order="C", **k):
        return _filled(shape, 0) if _fkind(dtype) else np.zeros(_shape(shape), dtype)

    def empty(self, shape, dtype=None, order="C", **k):
        return _filled(shape, 0) if _fkind(dtype) else np.empty(_shape(shape), dtype)

    def ones(self, shape, dtype=None, order="C", **k):
        return _filled(shape, 1) if _fkind(dtype) else np.ones(_shape(shape), dtype)

    def full(self, shape, v, dtype=None, **k):
        return _filled(shape, v)

    def zeros_like(self, a, dtype=None, **k):
        d = np.asarray(a).dtype if dtype is None else dtype
        return _filled(np.shape(a), 0) if _fkind(d) or d == object else np.zeros(np.shape(a), d)

    empty_like = zeros_like

    def ones_like(self, a, dtype=None, **k):
        d = np.asarray(a).dtype if dtype is None else dtype
        return _filled(np.shape(a), 1) if _fkind(d) or d == object else np.ones(np.shape(a), d)

    def eye(self, n, m=None, k=0, dtype=None, **kw):
        return to_sym(np.eye(_shape(n), m, k)) if _fkind(dtype) else np.eye(_shape(n), m, k, dtype)

    def identity(self, n, dtype=None):
        return self.eye(n, dtype=dtype)

    def array(self, x, dtype=None, *a, **k):
        if isinstance(x, SymArray):
            if dtype is not None and not _fkind(dtype):
                return x.astype(dtype)
            return x.copy()
        if has_sym(x):
            if dtype is not None and not _fkind(dtype) and np.dtype(dtype) != object:
                return np.array(x, dtype=object).astype(dtype)
            return _arr(x)
        return np.array(x, dtype, *a, **k)

    def asarray(self, x, dtype=None, *a, **k):
        if isinstance(x, SymArray) and (dtype is None or _fkind(dtype)):
            return x
        if has_sym(x):
            return self.array(x, dtype)
        return np.asarray(x, dtype, *a, **k)

    def ascontiguousarray(self, x, dtype=None):
        if has_sym(x) or isinstance(x, SymArray):
            return self.asarray(x, dtype)
        r = np.ascontiguousarray(x, dtype)
        return to_sym(r) if r.dtype.kind in "fc" else r

    def require(self, x, dtype=None, requirements=None):
        if isinstance(x, np.ndarray) and x.dtype.kind in "fcO":
            return to_sym(x).copy()
        return np.require(x, dtype, requirements)

    asfortranarray = ascontiguousarray

    def copy(self, x, *a, **k):
        return self.array(x)

    # element-wise
    def _un(self, name, x, *a, **k):
        if isinstance(x, np.ndarray) and x.shape != ():
            if x.dtype == object:
                return to_sym(x)._map(_UN[name], bool if name in ("isnan", "isinf", "isfinite") else object)
            return getattr(np, name)(x, *a, **k)
        if isinstance(x, np.ndarray):
            x = x[()]
        if is_sym(x):
            return _UN[name](x)
        if has_sym(x):
            return self._un(name, _arr(x))
        return getattr(np, name)(x, *a, **k)

    def real(self, x):
        if isinstance(x, (list, tuple)):
            x = self.array(x)
        return x.real if hasattr(x, "real") else np.real(x)

    def imag(self, x):
        if isinstance(x, (list, tuple)):
            x = self.array(x)
        return x.imag if hasattr(x, "imag") else np.imag(x)

    def real_if_close(self, x, tol=100):
        if has_sym(x):
            a = self.asarray(x)
            if all((not isinstance(e, RExpr)) and complex(e).imag == 0 or isinstance(e, RExpr) and e.is_real() for e in a.flat):
                return a.real
            return a
        return np.real_if_close(np.asarray(x, dtype=complex) if np.asarray(x).dtype == object else x, tol)

    def iscomplexobj(self, x):
        if has_sym(x):
            return any(isinstance(e, RExpr) and not e.is_real() for e in np.asarray(x, dtype=object).flat)
        return np.iscomplexobj(x)

    def isrealobj(self, x):
        return not self.iscomplexobj(x)

    def isreal(self, x):
        if has_sym(x):
            return to_sym(x)._map(lambda e: e.is_real() if isinstance(e, RExpr) else bool(np.isreal(e)), bool) \
                if isinstance(x, np.ndarray) else x.is_real()
        return np.isreal(x)

    def where(self, c, *ab):
        if not ab:
            if isinstance(c, np.ndarray) and c.dtype == object:
                c = np.array([bool(e) for e in c.flat]).reshape(c.shape)
            return np.where(c)
        c = np.asarray(c)
        if c.dtype == object:
            c = np.array([bool(e) for e in c.flat]).reshape(c.shape)
        a, b = ab
        if has_sym(a) or has_sym(b) or isinstance(a, SymArray) or isinstance(b, SymArray):
            c, a, b = np.broadcast_arrays(c, np.asarray(a, dtype=object), np.asarray(b, dtype=object))
            out = np.empty(c.shape, dtype=object)
            for i in np.ndindex(c.shape):
                out[i] = a[i] if c[i] else b[i]
            return out.view(SymArray)
        return np.where(c, a, b)

    def clip(self, a, lo, hi, **k):
        if has_sym(a):
            r = _minmax(a, lo, True) if lo is not None else a
            return _minmax(r, hi, False) if hi is not None else r
        return np.clip(a, lo, hi, **k)

    def maximum(self, a, b, **k):
        return _minmax(a, b, True) if has_sym(a) or has_sym(b) else np.maximum(a, b, **k)

    def minimum(self, a, b, **k):
        return _minmax(a, b, False) if has_sym(a) or has_sym(b) else np.minimum(a, b, **k)

    def max(self, a, axis=None, **k):
        return _red(a, axis, True) if has_sym(a) else np.max(a, axis, **k)

    def min(self, a, axis=None, **k):
        return _red(a, axis, False) if has_sym(a) else np.min(a, axis, **k)

    amax, amin = max, min

    def allclose(self, a, b, *r, **k):
        if has_sym(a) or has_sym(b):
            ctx().assumed.add("allclose/isclose on real values is read as equality")
            a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
            for i in np.ndindex(a.shape):
                if not bool(lift(a[i]) == lift(b[i])):
                    return False
            return True
        return np.allclose(concrete(a), concrete(b), *r, **k)

    def isclose(self, a, b, *r, **k):
        if has_sym(a) or has_sym(b):
            ctx().assumed.add("allclose/isclose on real values is read as equality")
            a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
            out = np.empty(a.shape, dtype=bool)
            for i in np.ndindex(a.shape):
                out[i] = bool(lift(a[i]) == lift(b[i]))
            return out if out.shape else bool(out[()])
        return np.isclose(a, b, *r, **k)

    def array_equal(self, a, b):
        if np.shape(a) != np.shape(b):
            return False
        return self.allclose(a, b)

    def dot(self, a, b, out=None):
        r = np.dot(a, b)
        if out is not None:
            out[...] = r
            return out
        return r

    def vdot(self, a, b):
        if has_sym(a) or has_sym(b):
            return np.dot(self._un("conjugate", np.asarray(a).ravel()), np.asarray(b).ravel())
        return np.vdot(a, b)

    def matmul(self, a, b):
        return np.dot(a, b)

    def einsum(self, spec, *ops, **k):
        if any(has_sym(o) or (isinstance(o, np.ndarray) and o.dtype == object) for o in ops):
            k.pop("optimize", None)
            out = k.pop("out", None)
            r = np.einsum(spec, *[np.asarray(o, dtype=object) for o in ops])
            r = r.view(SymArray) if isinstance(r, np.ndarray) and r.shape else r
            if out is not None:
                out[...] = r
                return out
            return r
        return np.einsum(spec, *ops, **k)

    def count_nonzero(self, a, axis=None, **k):
        if has_sym(a) and LAZY_RED[0]:
            return 1            # only whether a warning is printed depends on it
        if has_sym(a):
            return np.sum([1 if bool(e != 0) else 0 for e in np.asarray(a).flat])
        return np.count_nonzero(a, axis, **k)

    def nonzero(self, a):
        if has_sym(a):
            return np.nonzero(np.array([bool(e != 0) for e in a.flat]).reshape(a.shape))
        return np.nonzero(a)

    def isscalar(self, x):
        return is_sym(x) or np.isscalar(x)

    float64, complex128 = ScalarType(np.float64), ScalarType(np.complex128)
    float32, double, float_, cdouble, complex_ = float64, float64, float64, complex128, complex128


for _n in ("sqrt", "log", "exp", "sin", "cos", "abs", "absolute", "fabs", "square", "sign", "isnan", "isinf", "isfinite",
           "log10", "conjugate", "conj", "reciprocal"):
    def _mk(n):
        return lambda self, x, *a, **k: self._un(n, x, *a, **k)
    setattr(ShadowNP, _n, _mk(_n))


def _arr(x):
    """array from nested lists of symbolic scalars"""
    if is_sym(x):
        a = np.empty((), dtype=object)
        a[()] = x
        return a.view(SymArray)
    if isinstance(x, np.ndarray):
        return to_sym(x)
    parts = [_arr(e) if isinstance(e, (list, tuple, np.ndarray)) else e for e in x]
    if any(isinstance(p, np.ndarray) for p in parts):
        sh = parts[0].shape
        out = np.empty((len(parts),) + sh, dtype=object)
        for i, p in enumerate(parts):
            out[i] = p
        return out.view(SymArray)
    out = np.empty(len(parts), dtype=object)
    for i, p in enumerate(parts):
        out[i] = p.item() if hasattr(p, "item") and not is_sym(p) else p
    return out.view(SymArray)


SHADOW = ShadowNP()
_isinstance = builtins.isinstance


MISSING = object()


class patched:
    """replace numpy in the loaded pygsti modules (all of them, or the named ones)"""

    def __init__(self, only=None, extra=None):
        self.only, self.extra = only, extra or {}
        self.saved = []

    def __enter__(self):
        for name, mod in list(sys.modules.items()):
            if not isinstance(mod, types.ModuleType) or not (name == "pygsti" or name.startswith("pygsti.")):
                continue
            if self.only is not None and name not in self.only:
                continue
            for attr in ("_np", "np", "_numpy"):
                if mod.__dict__.get(attr) is np:
                    self.saved.append((mod, attr, np))
                    setattr(mod, attr, SHADOW)
        for (mod, attr), val in self.extra.items():
            self.saved.append((mod, attr, mod.__dict__.get(attr, MISSING)))
            setattr(mod, attr, val)
        return self

    def __exit__(self, *a):
        for mod, attr, val in reversed(self.saved):
            if val is MISSING:          # a builtin name that was shadowed in the module
                delattr(mod, attr)
            else:
                setattr(mod, attr, val)
        self.saved = []
