"""
Stand-ins for numpy / scipy.special / math / cmath under symbolic execution.

`SA` is an object-dtype ndarray subclass, so that indexing, reshaping, transposition, broadcasting and assignment are
numpy's own; only the arithmetic kernels (ufuncs, linear algebra, reductions in log space) are replaced by exact ones.
"""
import cmath as _cmath
import functools
import itertools
import math as _math
import types

import numpy as np
import scipy.special as _special

from . import core, pens
from .core import (EngineLimit, INF, LG, NAN, S, SB, as_real, c_and, close_sb, g_exp, g_log, g_sqrt, is_num, is_sym,
                   isclose_cond, mk_sb, rat_cmp, to_cond)

OBJ = np.dtype(object)


def has_sym(x, depth=0):
    if isinstance(x, (S, LG, SB, core.C)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == OBJ
    if isinstance(x, (list, tuple)) and depth < 5:
        return any(has_sym(y, depth + 1) for y in x)
    if isinstance(x, dict) and depth < 5:
        return any(has_sym(y, depth + 1) for y in x.values())
    return False


def lift_scalar(x):
    if isinstance(x, (float, np.floating)) and _math.isfinite(x):
        return S.of(x)
    if isinstance(x, np.floating):
        return float(x)
    return x


def lift(x):
    """Exact version of an array: float entries become constant S (non-finite entries stay floats)."""
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "fc":
            out = np.empty(x.shape, dtype=object)
            of, xf = out.reshape(-1), x.reshape(-1)
            for i in range(xf.shape[0]):
                v = xf[i]
                if x.dtype.kind == "c":
                    if v.imag != 0:
                        raise EngineLimit("complex array")
                    v = v.real
                of[i] = lift_scalar(float(v))
            return of.reshape(x.shape).view(SA)
        if x.dtype == OBJ:
            if not isinstance(x, SA):
                x = x.view(SA)
            return x
    return x


def base(x):
    return x.view(np.ndarray) if isinstance(x, SA) else x


def arr(x):
    """Any array-like as a plain object ndarray (no copy when possible)."""
    if isinstance(x, SA):
        return x.view(np.ndarray)
    a = x if isinstance(x, np.ndarray) else np_array(x)
    a = lift(a)
    if isinstance(a, np.ndarray) and a.dtype != OBJ:
        a = a.astype(object)
    return base(a)


def wrap(x):
    if isinstance(x, np.ndarray) and x.dtype == OBJ:
        flat = x.reshape(-1)
        if flat.size and all(isinstance(v, (bool, np.bool_)) for v in flat):
            return x.astype(bool)
        return x.view(SA)
    if isinstance(x, tuple):
        return tuple(wrap(v) for v in x)
    if isinstance(x, list):
        return [wrap(v) for v in x]
    return x


def emap(f, *xs):
    """Elementwise with broadcasting; scalars in, scalar out."""
    if all(not isinstance(x, (np.ndarray, list, tuple)) for x in xs):
        return f(*xs)
    bs = np.broadcast_arrays(*[arr(x) for x in xs])
    out = np.empty(bs[0].shape, dtype=object)
    of = out.reshape(-1)
    flats = [b.reshape(-1) for b in bs]
    for i in range(of.shape[0]):
        of[i] = f(*[b[i] for b in flats])
    out = of.reshape(out.shape)
    if out.shape == ():
        return out[()]
    return wrap(out)


def _isnan(x):
    return (not is_sym(x)) and x != x


def _isinf(x):
    if isinstance(x, LG):
        return x.zero()
    return (not is_sym(x)) and isinstance(x, (float, np.floating)) and _math.isinf(x)


def _isfinite(x):
    return not _isnan(x) and not _isinf(x)


def _max2(a, b):
    if _isnan(a) or _isnan(b):
        return NAN
    return a if bool(a >= b) else b


def _min2(a, b):
    if _isnan(a) or _isnan(b):
        return NAN
    return a if bool(a <= b) else b


def _sign(x):
    x = as_real(x)
    if not is_sym(x):
        return float(np.sign(x))
    if bool(x > 0):
        return S.of(1)
    if bool(x < 0):
        return S.of(-1)
    return S.of(0)


def _div(a, b):
    if is_sym(a) or is_sym(b):
        return a / b
    if is_num(a) and is_num(b):
        if b == 0:
            return S.of(a) / S.of(b) if _math.isfinite(a) else (a if a == a else NAN)
        if _math.isfinite(a) and _math.isfinite(b):
            return S.of(a) / S.of(b)
    return a / b


def _add(a, b):
    return lift_scalar(a) + lift_scalar(b)


def _pow(a, b):
    if is_sym(a) or is_sym(b):
        if is_sym(b) and not is_sym(a):
            return g_exp(as_real(b) * as_real(g_log(a)))
        return a ** b
    a, b = lift_scalar(a), b
    return a ** b


def _logaddexp(a, b):
    return lse([a, b])


def _abs(x):
    return abs(x)


def _cmpf(op):
    def f(a, b):
        r = op(lift_scalar(a), lift_scalar(b))
        return r
    return f


import operator as _op

UFUNCS = {
    "exp": core.rec_exp, "log": core.rec_log, "sqrt": g_sqrt, "absolute": _abs, "fabs": _abs,
    "isnan": _isnan, "isinf": _isinf, "isfinite": _isfinite,
    "maximum": _max2, "minimum": _min2, "fmax": _max2, "fmin": _min2, "sign": _sign,
    "square": lambda x: x * x, "true_divide": _div, "divide": _div, "power": _pow, "float_power": _pow,
    "reciprocal": lambda x: _div(1, x), "logaddexp": _logaddexp,
    "log1p": lambda x: g_log(as_real(x) + 1), "expm1": lambda x: g_exp(x) - 1,
    "exp2": lambda x: _pow(2, x), "log2": lambda x: as_real(g_log(x)) / as_real(g_log(2)),
    "log10": lambda x: as_real(g_log(x)) / as_real(g_log(10)),
    "conjugate": lambda x: x, "positive": lambda x: x,
    "equal": _cmpf(_op.eq), "not_equal": _cmpf(_op.ne), "less": _cmpf(_op.lt), "less_equal": _cmpf(_op.le),
    "greater": _cmpf(_op.gt), "greater_equal": _cmpf(_op.ge),
    "logical_not": lambda x: (~x if isinstance(x, SB) else not x),
    "logical_and": lambda a, b: (mk_sb(c_and([to_cond(a), to_cond(b)]))),
    "logical_or": lambda a, b: (mk_sb(core.c_or([to_cond(a), to_cond(b)]))),
    "invert": lambda x: (~x if isinstance(x, SB) else (not x if isinstance(x, (bool, np.bool_)) else ~x)),
    "heaviside": None,
}
_BOOL_RESULT = {"isnan", "isinf", "isfinite", "equal", "not_equal", "less", "less_equal", "greater", "greater_equal"}


def ufunc_call(name, *xs):
    f = UFUNCS[name]
    if f is None:
        raise EngineLimit(f"numpy.{name}")
    return emap(f, *xs)


class SA(np.ndarray):
    __array_priority__ = 1e6  # above the scalars: arithmetic with a symbolic scalar is elementwise

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kwargs):
        name = ufunc.__name__
        ins = [base(x) if isinstance(x, np.ndarray) else x for x in inputs]
        if method == "__call__" and name in UFUNCS and kwargs.get("where", True) is True:
            res = ufunc_call(name, *ins)
        elif method == "reduce" and name in ("logaddexp", "maximum", "minimum", "logical_and", "logical_or"):
            axis = kwargs.get("axis", 0)
            kd = kwargs.get("keepdims", False)
            f = {"logaddexp": lse, "maximum": lambda v: functools.reduce(_max2, v),
                 "minimum": lambda v: functools.reduce(_min2, v),
                 "logical_and": lambda v: mk_sb(c_and([to_cond(x) for x in v])),
                 "logical_or": lambda v: mk_sb(core.c_or([to_cond(x) for x in v]))}[name]
            res = _reduce_axes(f, ins[0], axis, kd)
        else:
            ins = [arr(x) if (isinstance(x, np.ndarray) and x.dtype.kind in "fc") else
                   (lift_scalar(x) if isinstance(x, (float, np.floating)) else x) for x in ins]
            kw = dict(kwargs)
            kw.pop("dtype", None)
            if out is not None:
                # in-place operations go through a fresh array and an assignment
                pass
            try:
                res = getattr(ufunc, method)(*ins, **kw)
            except TypeError as e:
                raise EngineLimit(f"numpy {name}.{method}: {e}")
            res = wrap(res)
        if out is not None:
            o = out[0]
            if o is None:
                return res
            if o.dtype != OBJ and has_sym(res):
                raise EngineLimit("in-place symbolic result into a float array")
            base(o)[...] = res
            return o
        return res

    def __array_function__(self, func, types_, args, kwargs):
        name = func.__name__
        mod = getattr(func, "__module__", "") or ""
        if "linalg" in mod and name in LINALG:
            return LINALG[name](*args, **kwargs)
        if name in OVERRIDES:
            return OVERRIDES[name](*args, **kwargs)
        return generic(func, args, kwargs)

    def astype(self, dtype, *a, **k):
        if dtype in (bool, np.bool_):
            return np.array([bool(v) for v in self.reshape(-1)], dtype=bool).reshape(self.shape)
        if dtype in (int, np.int64, np.int32):
            return base(self).astype(int)
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    @property
    def real(self):
        if any(isinstance(v, core.C) for v in base(self).reshape(-1)):
            return emap(lambda v: v.real, self)
        return self

    @property
    def imag(self):
        return emap(lambda v: v.imag, self)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return np_mean(self, axis=axis, keepdims=keepdims)

    def std(self, *a, **k):
        return np_std(self, *a, **k)

    def var(self, *a, **k):
        return np_var(self, *a, **k)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return _reduce_axes(lambda v: functools.reduce(_max2, v), base(self), axis, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return _reduce_axes(lambda v: functools.reduce(_min2, v), base(self), axis, keepdims)

    def all(self, axis=None, **k):
        return np_all(self, axis=axis)

    def any(self, axis=None, **k):
        return np_any(self, axis=axis)

    def clip(self, lo=None, hi=None, **k):
        return np_clip(self, lo, hi)

    def dot(self, other):
        r = base(self).dot(arr(other))
        return wrap(S.of(0) if r is None else r)

    def argmax(self, axis=None, **k):
        return _argbest(self, axis, _op.gt)

    def argmin(self, axis=None, **k):
        return _argbest(self, axis, _op.lt)

    def _inplace(self, res):
        base(self)[...] = base(res) if isinstance(res, np.ndarray) else res
        return self

    def __iadd__(self, o):
        return self._inplace(self + o)

    def __isub__(self, o):
        return self._inplace(self - o)

    def __imul__(self, o):
        return self._inplace(self * o)

    def __itruediv__(self, o):
        return self._inplace(self / o)

    def __ipow__(self, o):
        return self._inplace(self ** o)

    def __reduce__(self):
        raise EngineLimit("pickling a symbolic array")


def _argbest(a, axis, better):
    a = arr(a)
    if axis is not None:
        ax = axis % a.ndim
        moved = np.moveaxis(a, ax, -1)
        out = np.empty(moved.shape[:-1], dtype=int)
        for idx in np.ndindex(*moved.shape[:-1]):
            out[idx] = _argbest(moved[idx], None, better)
        return out
    flat = a.reshape(-1)
    best = 0
    for i in range(1, flat.shape[0]):
        if _isnan(flat[best]):
            break
        if _isnan(flat[i]) or bool(better(flat[i], flat[best])):
            best = i
    return best


def _reduce_axes(f, a, axis, keepdims=False):
    """Reduce with f(list of entries) over one axis, several, or all."""
    a = arr(a)
    if axis is None:
        axes = tuple(range(a.ndim))
    elif isinstance(axis, (int, np.integer)):
        axes = (axis % a.ndim,)
    else:
        axes = tuple(x % a.ndim for x in axis)
    keep = [i for i in range(a.ndim) if i not in axes]
    t = a.transpose(keep + list(axes))
    kshape = tuple(a.shape[i] for i in keep)
    t = t.reshape(kshape + (-1,))
    out = np.empty(kshape, dtype=object)
    for idx in np.ndindex(*kshape):
        out[idx] = f(list(t[idx]))
    if keepdims:
        shape = tuple(1 if i in axes else a.shape[i] for i in range(a.ndim))
        return wrap(out.reshape(shape))
    if out.shape == ():
        return out[()]
    return wrap(out)


def ssum(vals):
    tot = None
    for v in vals:
        v = lift_scalar(v)
        tot = v if tot is None else tot + v
    return S.of(0) if tot is None else tot


def lse(vals):
    """log(sum(exp(v)))"""
    ps = []
    nan = inf = False
    for v in vals:
        if is_sym(v):
            ps.append(g_exp(v))
        else:
            v = float(v)
            if v != v:
                nan = True
            elif v == INF:
                inf = True
            elif v != -INF:
                ps.append(g_exp(v))
    if nan:
        return NAN
    if inf:
        return INF
    if not ps:
        return -INF
    tot = ps[0]
    for p in ps[1:]:
        tot = tot + p
    if tot.r.sign() == "0":
        return -INF
    return LG(tot)


def logsumexp(a, axis=None, b=None, keepdims=False, return_sign=False):
    if return_sign:
        raise EngineLimit("logsumexp return_sign")
    aa = arr(a)
    if aa.ndim == 0:
        aa = aa.reshape(1)
    if aa.size == 0 and axis is None:
        raise ValueError("zero-size array to reduction operation maximum which has no identity")
    if b is not None:
        bb = np.broadcast_to(arr(b), aa.shape)
        pr = emap(lambda x, w: g_exp(x) * w, aa, bb)
        res = _reduce_axes(lambda v: g_log(ssum(v)), pr, axis, keepdims)
    else:
        res = _reduce_axes(lse, aa, axis, keepdims)
    return res


# ---------------------------------------------------------------------------------------------------------- creation
def _float_dtype(dtype):
    if dtype is None:
        return None
    if dtype is F64 or dtype is FLOAT:
        return True
    try:
        return np.dtype(dtype).kind in "fc"
    except TypeError:
        return None


def _real_dtype(dtype):
    if dtype is F64 or dtype is FLOAT:
        return np.float64
    return dtype


def np_array(x, dtype=None, copy=True, ndmin=0, **kw):
    if isinstance(x, SA):
        if dtype in (bool, int):
            return x.astype(dtype)
        r = x.copy() if copy else x
        if ndmin > r.ndim:
            r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
        return r
    dt = _real_dtype(dtype)
    if has_sym(x):
        r = np.array(_unwrap(x), dtype=object, ndmin=ndmin)
        # arrays nested in lists may have produced SA scalars
        return lift(_norm_obj(r))
    if dt is not None and np.dtype(dt).kind in "fc":
        return lift(np.array(x, dtype=dt, ndmin=ndmin))
    r = np.array(x, dtype=dt, ndmin=ndmin, **kw)
    return lift(r) if r.dtype.kind in "fc" else r


def _unwrap(x):
    if isinstance(x, SA):
        return x.view(np.ndarray)
    if isinstance(x, list):
        return [_unwrap(y) for y in x]
    if isinstance(x, tuple):
        return tuple(_unwrap(y) for y in x)
    return x


def _norm_obj(r):
    f = r.reshape(-1)
    for i in range(f.shape[0]):
        v = f[i]
        if isinstance(v, np.ndarray):
            if v.shape == ():
                f[i] = v[()]
            else:
                raise EngineLimit("ragged object array")
        elif isinstance(v, (float, np.floating)):
            f[i] = lift_scalar(v)
    return f.reshape(r.shape)


def np_asarray(x, dtype=None, **kw):
    return np_array(x, dtype=dtype, copy=False)


def _filled(shape, value, dtype):
    if dtype is not None and not _float_dtype(dtype):
        return np.full(shape, value, dtype=dtype)
    out = np.empty(shape, dtype=object)
    out.fill(lift_scalar(float(value)) if is_num(value) else value)
    return out.view(SA)


def np_zeros(shape, dtype=None, **k):
    return _filled(shape, 0, dtype)


def np_ones(shape, dtype=None, **k):
    return _filled(shape, 1, dtype)


def np_empty(shape, dtype=None, **k):
    return _filled(shape, 0, dtype)


def np_full(shape, fill_value, dtype=None, **k):
    if isinstance(fill_value, (int, bool, str)) and dtype is None:
        return np.full(shape, fill_value)
    return _filled(shape, fill_value, dtype)


def _like(f, fill=None):
    def g(a, *args, dtype=None, **k):
        a = np_array(a)
        kind = a.dtype.kind
        if dtype is None and kind in "iub":
            return getattr(np, f)(a, *args)
        sh = k.get("shape") or a.shape
        v = {"zeros_like": 0, "ones_like": 1, "empty_like": 0}.get(f)
        if v is None:
            v = args[0] if args else k["fill_value"]
        return _filled(sh, v, dtype)
    return g


def np_eye(n, m=None, k=0, dtype=None, **kw):
    return lift(np.eye(n, m, k)) if _float_dtype(dtype) is not False else np.eye(n, m, k, dtype=dtype)


def np_diag(v, k=0):
    a = arr(v)
    if a.ndim == 1:
        n = a.shape[0] + abs(k)
        out = base(np_zeros([n, n]))
        for i in range(a.shape[0]):
            out[(i, i + k) if k >= 0 else (i - k, i)] = a[i]
        return wrap(out)
    return wrap(np.diag(a, k))


# -------------------------------------------------------------------------------------------------------- reductions
def np_sum(a, axis=None, keepdims=False, dtype=None, out=None, initial=None, where=None, **k):
    if not isinstance(a, np.ndarray) and not isinstance(a, (list, tuple)):
        a = list(a) if hasattr(a, "__iter__") else a
    if isinstance(a, np.ndarray) and a.dtype != OBJ and a.dtype.kind in "iub":
        return np.sum(a, axis=axis, keepdims=keepdims)
    if where is not None:
        a = np_where(where, a, 0.0)
    r = _reduce_axes(ssum, a, axis, keepdims)
    return r if initial is None else r + initial


def np_mean(a, axis=None, keepdims=False, dtype=None, **k):
    a = arr(a)
    n = a.size if axis is None else (a.shape[axis] if isinstance(axis, int) else
                                     int(np.prod([a.shape[i] for i in axis])))
    return emap(lambda x: x / n, np_sum(a, axis=axis, keepdims=keepdims))


def np_var(a, axis=None, ddof=0, keepdims=False, **k):
    a = arr(a)
    m = np_mean(a, axis=axis, keepdims=True)
    n = a.size if axis is None else a.shape[axis]
    d = emap(lambda x, y: (x - y) * (x - y), a, m)
    return emap(lambda x: x / (n - ddof), np_sum(d, axis=axis, keepdims=keepdims))


def np_std(a, **k):
    return emap(g_sqrt, np_var(a, **k))


def np_average(a, axis=None, weights=None, **k):
    if weights is None:
        return np_mean(a, axis=axis)
    aa, w = arr(a), arr(weights)
    if w.ndim == 1 and aa.ndim > 1:
        sh = [1] * aa.ndim
        sh[axis] = -1
        w = w.reshape(sh)
    w = np.broadcast_to(w, aa.shape)
    num = np_sum(emap(lambda x, y: x * y, aa, w), axis=axis)
    return emap(_div, num, np_sum(w, axis=axis))


def np_prod(a, axis=None, keepdims=False, **k):
    if not has_sym(a):
        return lift_any(np.prod(a, axis=axis, keepdims=keepdims))

    def f(v):
        t = S.of(1)
        for x in v:
            t = t * x
        return t
    return _reduce_axes(f, a, axis, keepdims)


def np_cumsum(a, axis=None, **k):
    a = arr(a)
    return wrap(np.cumsum(a, axis=axis))


def np_all(a, axis=None, **k):
    if isinstance(a, (SB, bool, np.bool_)):
        return a
    a = np_array(a) if not isinstance(a, np.ndarray) else a
    if a.dtype != OBJ:
        return np.all(a, axis=axis)
    return _reduce_axes(lambda v: mk_sb(c_and([to_cond(x) for x in v])), a, axis)


def np_any(a, axis=None, **k):
    if isinstance(a, (SB, bool, np.bool_)):
        return a
    a = np_array(a) if not isinstance(a, np.ndarray) else a
    if a.dtype != OBJ:
        return np.any(a, axis=axis)
    return _reduce_axes(lambda v: mk_sb(core.c_or([to_cond(x) for x in v])), a, axis)


def np_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return emap(lambda x, y: close_sb(x, y, rtol=rtol, atol=atol, equal_nan=equal_nan), a, b)


def np_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    aa, bb = np.broadcast_arrays(arr(a), arr(b))
    cs = [isclose_cond(x, y, rtol=rtol, atol=atol, equal_nan=equal_nan)
          for x, y in zip(aa.reshape(-1), bb.reshape(-1))]
    return mk_sb(c_and(cs))


def np_array_equal(a, b, equal_nan=False):
    aa, bb = arr(a), arr(b)
    if aa.shape != bb.shape:
        return False
    cs = []
    for x, y in zip(aa.reshape(-1), bb.reshape(-1)):
        cs.append(to_cond(x == y))
    return mk_sb(c_and(cs))


def np_where(cond, x=None, y=None):
    if x is None and y is None:
        c = cond if isinstance(cond, np.ndarray) else np.asarray(cond)
        if c.dtype == OBJ:
            c = np.array([bool(v) for v in c.reshape(-1)], dtype=bool).reshape(c.shape)
        return np.where(c)
    return emap(lambda c, a, b: lift_scalar(a) if bool(c) else lift_scalar(b), cond, x, y)


def np_clip(a, lo=None, hi=None, out=None, **k):
    def f(x):
        if lo is not None and bool(x < lo):
            return lift_scalar(lo)
        if hi is not None and bool(x > hi):
            return lift_scalar(hi)
        return x
    return emap(f, a)


def np_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(v):
        if is_sym(v):
            if isinstance(v, LG) and v.zero():
                return S.of(neginf) if neginf is not None else S.of(-np.finfo(float).max)
            return v
        if v != v:
            return S.of(nan)
        if v == INF:
            return S.of(posinf) if posinf is not None else S.of(np.finfo(float).max)
        if v == -INF:
            return S.of(neginf) if neginf is not None else S.of(-np.finfo(float).max)
        return v
    return emap(f, x)


def np_cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None, **k):
    if y is not None or fweights is not None:
        raise EngineLimit("np.cov with y/fweights")
    a = arr(m)
    if a.ndim == 1:
        a = a.reshape(1, -1)
    if not rowvar and a.shape[0] != 1:
        a = a.T
    n = a.shape[1]
    if ddof is None:
        ddof = 0 if bias else 1
    if aweights is not None:
        w = list(arr(aweights).reshape(-1))
        wsum = ssum(w)
        if ddof:
            raise EngineLimit("np.cov with aweights and ddof")
        mean = [ssum([x * wi for x, wi in zip(row, w)]) / wsum for row in a]
        out = np.empty((a.shape[0],) * 2, dtype=object)
        for i in range(a.shape[0]):
            for j in range(a.shape[0]):
                out[i, j] = ssum([(x - mean[i]) * (z - mean[j]) * wi for x, z, wi in zip(a[i], a[j], w)]) / wsum
    else:
        mean = [ssum(row) / n for row in a]
        out = np.empty((a.shape[0],) * 2, dtype=object)
        for i in range(a.shape[0]):
            for j in range(a.shape[0]):
                out[i, j] = ssum([(x - mean[i]) * (z - mean[j]) for x, z in zip(a[i], a[j])]) / (n - ddof)
    out = np.squeeze(out)
    return out[()] if out.shape == () else wrap(out)


def np_concatenate(xs, axis=0, **k):
    return wrap(np.concatenate([arr(x) for x in xs], axis=axis)) if has_sym(list(xs)) else \
        lift_any(np.concatenate(xs, axis=axis))


def np_block(xs):
    def conv(x):
        if isinstance(x, list):
            return [conv(y) for y in x]
        return arr(x)
    return wrap(np.block(conv(xs))) if has_sym(xs) else lift_any(np.block(xs))


def np_apply_over_axes(func, a, axes):
    val = arr(a)
    if np.array(axes).ndim == 0:
        axes = (axes,)
    n = val.ndim
    for axis in axes:
        if axis < 0:
            axis = n + axis
        res = arr(func(wrap(val), axis))
        if res.ndim == val.ndim:
            val = res
        else:
            res = np.expand_dims(res, axis)
            if res.ndim == val.ndim:
                val = res
            else:
                raise ValueError("function is not returning an array of the correct shape")
    return wrap(val)


def np_trace(a, **k):
    a = arr(a)
    return ssum([a[i, i] for i in range(min(a.shape))])


def np_einsum(spec, *ops, **k):
    """Explicit evaluation (small operands only)."""
    if not isinstance(spec, str):
        raise EngineLimit("einsum operand form")
    spec = spec.replace(" ", "")
    if "..." in spec:
        raise EngineLimit("einsum ellipsis")
    ins, _, out = spec.partition("->")
    ins = ins.split(",")
    if "->" not in spec:
        flat = "".join(ins)
        out = "".join(sorted(c for c in set(flat) if flat.count(c) == 1))
    ops = [arr(o) for o in ops]
    dims = {}
    for s_, o in zip(ins, ops):
        for c, d in zip(s_, o.shape):
            dims[c] = d
    rest = [c for c in dims if c not in out]
    res = np.empty([dims[c] for c in out], dtype=object)
    for oi in itertools.product(*[range(dims[c]) for c in out]):
        env = dict(zip(out, oi))
        vals = []
        for ri in itertools.product(*[range(dims[c]) for c in rest]):
            env.update(zip(rest, ri))
            t = S.of(1)
            for s_, o in zip(ins, ops):
                t = t * o[tuple(env[c] for c in s_)]
            vals.append(t)
        res[oi] = ssum(vals)
    return res[()] if res.shape == () else wrap(res)


def lift_any(x):
    if isinstance(x, np.ndarray):
        return lift(x) if x.dtype.kind in "fc" else x
    if isinstance(x, (np.floating,)):
        return lift_scalar(x)
    if isinstance(x, tuple):
        return tuple(lift_any(v) for v in x)
    if isinstance(x, list):
        return [lift_any(v) for v in x]
    return x


def generic(func, args, kwargs):
    """numpy's own implementation on plain object arrays."""
    def un(x):
        if isinstance(x, SA):
            return x.view(np.ndarray)
        if isinstance(x, list):
            return [un(y) for y in x]
        if isinstance(x, tuple):
            return tuple(un(y) for y in x)
        if isinstance(x, np.ndarray) and x.dtype.kind == "f" and sym:
            return arr(x)
        return x
    sym = has_sym(list(args)) or has_sym(list(kwargs.values()))
    kw = {k: un(v) for k, v in kwargs.items()}
    if "dtype" in kw:
        kw["dtype"] = object if (sym and _float_dtype(kw["dtype"])) else _real_dtype(kw["dtype"])
    try:
        r = func(*[un(a) for a in args], **kw)
    except TypeError as e:
        if sym:
            raise EngineLimit(f"numpy.{getattr(func, '__name__', func)}: {e}")
        raise
    if r is None and getattr(func, "__name__", "") in ("vdot", "dot", "inner"):
        r = 0.0      # numpy's answer for object arrays without entries
    if sym:
        return wrap(_norm_res(r))
    return lift_any(r)


def _norm_res(r):
    return r


# ---------------------------------------------------------------------------------------------------- linear algebra
def _sq(a):
    a = arr(a)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    for v in a.reshape(-1):
        if not is_sym(v) and isinstance(v, float) and not _math.isfinite(v):
            return a, False
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        v = as_real(a[i])
        out[i] = v
    return out, True


def _det(a):
    n = a.shape[0]
    if n == 0:
        return S.of(1)
    if n == 1:
        return a[0, 0]
    if n == 2:
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    # Laplace along the sparsest row
    best = max(range(n), key=lambda i: sum(1 for j in range(n) if a[i, j].r.sign() == "0"))
    tot = S.of(0)
    for j in range(n):
        if a[best, j].r.sign() == "0":
            continue
        m = np.delete(np.delete(a, best, 0), j, 1)
        t = a[best, j] * _det(m)
        tot = tot + t if (best + j) % 2 == 0 else tot - t
    return tot


def la_det(a):
    a, ok = _sq(a)
    return _det(a) if ok else NAN


def _adj(a):
    n = a.shape[0]
    out = np.empty((n, n), dtype=object)
    if n == 1:
        out[0, 0] = S.of(1)
        return out
    for i in range(n):
        for j in range(n):
            m = np.delete(np.delete(a, i, 0), j, 1)
            d = _det(m)
            out[j, i] = d if (i + j) % 2 == 0 else -d
    return out


def la_inv(a):
    a, ok = _sq(a)
    if not ok:
        return wrap(np.full(a.shape, NAN, dtype=object))
    d = _det(a)
    if d.r.sign() not in ("+", "-") and bool(d == 0):
        raise np.linalg.LinAlgError("Singular matrix")
    adj = _adj(a)
    inv = S(d.r.inv())
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = adj[i] * inv
    return wrap(out)


def la_solve(a, b):
    return wrap(base(la_inv(a)).dot(arr(b)))


def la_slogdet(a):
    d = la_det(a)
    if not is_sym(d):
        return (NAN, NAN)
    if bool(d > 0):
        return (S.of(1), g_log(d))
    if bool(d < 0):
        return (S.of(-1), g_log(-d))
    return (S.of(0), -INF)


def la_cholesky(a, **k):
    a, ok = _sq(a)
    n = a.shape[0]
    L = base(np_zeros([n, n]))
    for j in range(n):
        d = a[j, j] - ssum([L[j, k] * L[j, k] for k in range(j)]) if j else a[j, j]
        if not bool(d > 0):
            raise np.linalg.LinAlgError("Matrix is not positive definite")
        L[j, j] = d.sqrt()
        for i in range(j + 1, n):
            t = a[i, j] - ssum([L[i, k] * L[j, k] for k in range(j)]) if j else a[i, j]
            L[i, j] = t / L[j, j]
    return wrap(L)


class Eig:
    """The k-th smallest eigenvalue of a symmetric matrix; only compared with zero."""

    def __init__(self, a, k):
        self.a = a
        self.k = k
        self.n = a.shape[0]

    def _pd(self, neg=False):
        a = -self.a if neg else self.a
        return c_and([to_cond(_det(a[:i, :i]) > 0) for i in range(1, self.n + 1)])

    def _psd(self, neg=False):
        a = -self.a if neg else self.a
        cs = []
        for r in range(1, self.n + 1):
            for idx in itertools.combinations(range(self.n), r):
                cs.append(to_cond(_det(a[np.ix_(idx, idx)]) >= 0))
        return c_and(cs)

    def _exact(self):
        if self.n == 2:
            t = self.a[0, 0] + self.a[1, 1]
            d = self.a[0, 0] - self.a[1, 1]
            s = (d * d + 4 * self.a[0, 1] * self.a[1, 0]).sqrt()
            return (t - s) / 2 if self.k == 0 else (t + s) / 2
        raise EngineLimit("eigenvalue of a large symbolic matrix used as a number")

    def _gt0(self):
        if self.k == 0:
            return self._pd()
        if self.k == self.n - 1:  # largest > 0  <=>  not (-A PSD)
            return core.c_not(self._psd(True))
        if bool(mk_sb(self._pd())):
            return True
        return bool(core.CTX.choose(2))

    def _ge0(self):
        if self.k == 0:
            return self._psd()
        if self.k == self.n - 1:
            return core.c_not(self._pd(True))
        if bool(mk_sb(self._psd())):
            return True
        return bool(core.CTX.choose(2))

    def __gt__(self, o):
        if is_num(o) and o == 0:
            return mk_sb(self._gt0())
        return self._exact() > o

    def __ge__(self, o):
        if is_num(o) and o == 0:
            return mk_sb(self._ge0())
        return self._exact() >= o

    def __lt__(self, o):
        if is_num(o) and o == 0:
            return mk_sb(core.c_not(self._ge0()))
        return self._exact() < o

    def __le__(self, o):
        if is_num(o) and o == 0:
            return mk_sb(core.c_not(self._gt0()))
        return self._exact() <= o

    @property
    def real(self):
        return self


def _eig_obj(x):
    out = np.empty(len(x), dtype=object)
    for i, e in enumerate(x):
        out[i] = e
    return out


class EigArr(list):
    """Eigenvalues; behaves like an array for comparisons with scalars."""

    def _c(self, o, op):
        out = np.empty(len(self), dtype=object)
        for i, e in enumerate(self):
            out[i] = op(e, o)
        return wrap(out)

    def __gt__(self, o):
        return self._c(o, _op.gt)

    def __ge__(self, o):
        return self._c(o, _op.ge)

    def __lt__(self, o):
        return self._c(o, _op.lt)

    def __le__(self, o):
        return self._c(o, _op.le)

    @property
    def real(self):
        return self

    def min(self):
        return self[0]

    def max(self):
        return self[-1]


def la_eigvals(a, **k):
    a, ok = _sq(a)
    if not ok:
        raise np.linalg.LinAlgError("Array must not contain infs or NaNs")
    n = a.shape[0]
    if n == 1:
        return wrap(np.array([a[0, 0]], dtype=object))
    for i in range(n):
        for j in range(i):
            if (a[i, j].r.add(a[j, i].r.neg())).num:
                raise EngineLimit("eigenvalues of a non-symmetric symbolic matrix")
    if all(a[i, j].r.sign() == "0" for i in range(n) for j in range(n) if i != j):
        return wrap(np.array([a[i, i] for i in range(n)], dtype=object))
    return EigArr([Eig(a, k) for k in range(n)])


def la_norm(a, ord=None, axis=None, **k):
    a = arr(a)
    if axis is not None or ord not in (None, 2, "fro"):
        raise EngineLimit("norm")
    return ssum([x * x for x in a.reshape(-1)]).sqrt()


def la_multi_dot(xs, **k):
    r = arr(xs[0])
    for x in xs[1:]:
        r = r.dot(arr(x))
    return wrap(r)


def la_matrix_power(a, n):
    a = arr(a)
    if n < 0:
        a = base(la_inv(a))
        n = -n
    r = base(np_eye(a.shape[0]))
    for _ in range(n):
        r = r.dot(a)
    return wrap(r)


def la_matrix_rank(a, *_a, **_k):
    """Exact rank by elimination; every pivot question is a branch."""
    if not has_sym(a):
        return np.linalg.matrix_rank(np.array(base(a), dtype=float) if isinstance(a, np.ndarray) else a)
    a = base(arr(a)).copy()
    if a.ndim < 2:
        return int(any(bool(x != 0) for x in a.reshape(-1)))
    n, m = a.shape
    if n == m and bool(_det(a) != 0):
        return n
    rank = 0
    for c in range(m):
        piv = next((r for r in range(rank, n) if bool(a[r, c] != 0)), None)
        if piv is None:
            continue
        a[[rank, piv]] = a[[piv, rank]]
        for r in range(rank + 1, n):
            f = a[r, c] / a[rank, c]
            for k in range(c, m):
                a[r, k] = a[r, k] - f * a[rank, k]
        rank += 1
        if rank == n:
            break
    return rank


def la_pinv(a, *_a, **_k):
    if not has_sym(a):
        return lift_any(np.linalg.pinv(a))
    a_, ok = _sq(a)
    if ok and bool(_det(a_) != 0):
        return la_inv(a)
    raise EngineLimit("pinv of a singular matrix")


def _la_limit(name):
    def f(*a, **k):
        if has_sym(list(a)):
            raise EngineLimit(f"numpy.linalg.{name}")
        return lift_any(getattr(np.linalg, name)(*a, **k))
    return f


LINALG = {
    "inv": la_inv, "det": la_det, "slogdet": la_slogdet, "cholesky": la_cholesky, "solve": la_solve,
    "eigvals": la_eigvals, "eigvalsh": la_eigvals, "norm": la_norm, "multi_dot": la_multi_dot,
    "matrix_power": la_matrix_power, "matrix_rank": la_matrix_rank, "pinv": la_pinv,
}

OVERRIDES = {
    "array": np_array, "asarray": np_asarray, "asanyarray": np_asarray, "ascontiguousarray": np_asarray,
    "zeros": np_zeros, "ones": np_ones, "empty": np_empty, "full": np_full,
    "zeros_like": _like("zeros_like"), "ones_like": _like("ones_like"), "empty_like": _like("empty_like"),
    "full_like": _like("full_like"), "eye": np_eye, "identity": lambda n, dtype=None, **k: np_eye(n, dtype=dtype),
    "diag": np_diag, "sum": np_sum, "mean": np_mean, "var": np_var, "std": np_std, "average": np_average,
    "nansum": np_sum, "prod": np_prod, "product": np_prod, "cumsum": np_cumsum,
    "all": np_all, "any": np_any, "alltrue": np_all, "sometrue": np_any,
    "isclose": np_isclose, "allclose": np_allclose, "array_equal": np_array_equal, "where": np_where,
    "clip": np_clip, "nan_to_num": np_nan_to_num, "cov": np_cov, "concatenate": np_concatenate, "block": np_block,
    "apply_over_axes": np_apply_over_axes, "trace": np_trace, "einsum": np_einsum,
    "max": lambda a, axis=None, keepdims=False, **k: _reduce_axes(lambda v: functools.reduce(_max2, v), a, axis, keepdims),
    "min": lambda a, axis=None, keepdims=False, **k: _reduce_axes(lambda v: functools.reduce(_min2, v), a, axis, keepdims),
    "argmax": lambda a, axis=None, **k: _argbest(a, axis, _op.gt),
    "argmin": lambda a, axis=None, **k: _argbest(a, axis, _op.lt),
    "abs": lambda x, **k: emap(_abs, x),
    "copy": lambda a, **k: np_array(a, copy=True),
    "iscomplexobj": lambda a: False, "isreal": lambda a: True, "iscomplex": lambda a: False,
    "real": lambda a: (a.real if isinstance(a, (SA, S, LG, core.C)) else (arr_real(a) if isinstance(a, (np.ndarray, list)) else a)), "real_if_close": lambda a, **k: a,
    "isneginf": lambda x, **k: emap(lambda v: (v == -INF) if is_sym(v) else float(v) == -INF, x),
    "isposinf": lambda x, **k: emap(lambda v: (not is_sym(v)) and float(v) == INF, x),
    "isscalar": lambda x: is_sym(x) or np.isscalar(x),
}


def np_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if pens.LOG is not None and pens.PLACES and endpoint and not retstep and num >= pens.PLACES:
        # as many points as asked for, at fewer places
        at = np_linspace_at(start, stop, pens.PLACES)
        return np_asarray([at[i * pens.PLACES // num] for i in range(num)])
    if pens.LOG is not None and pens.POINTS:
        num = min(num, pens.POINTS)
    if not has_sym([start, stop]):
        r = np.linspace(start, stop, num, endpoint=endpoint, retstep=retstep, axis=axis)
        return (lift_any(r[0]), r[1]) if retstep else lift_any(r)
    out = np_linspace_at(start, stop, num, endpoint)
    return (out, (stop - start) / max(num - 1 if endpoint else num, 1)) if retstep else out


def np_linspace_at(start, stop, num, endpoint=True):
    parts = num - 1 if endpoint else num
    out = np.empty(num, dtype=object)
    for i in range(num):
        out[i] = stop if endpoint and num > 1 and i == num - 1 else start + (stop - start) * i / max(parts, 1)
    return out.view(SA)


def ma_where(cond, a, copy=True):
    c, a = arr(cond), arr(a)
    if c.shape != a.shape:
        raise IndexError("Inconsistent shape between the condition and the input")
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = np.ma.masked if bool(c[i]) else a[i]
    return out


OVERRIDES["linspace"] = np_linspace
MASKED = {"masked_where": ma_where}
OVERRIDES["amax"] = OVERRIDES["max"]
OVERRIDES["amin"] = OVERRIDES["min"]
for _n in UFUNCS:
    if _n not in OVERRIDES:
        def _mk(n):
            def f(*xs, out=None, where=True, dtype=None, **k):
                if where is not True:
                    raise EngineLimit("ufunc where=")
                ys = [_eig_obj(x) if isinstance(x, EigArr) else x for x in xs]
                if not any(has_sym(x) for x in ys) and n in ("equal", "not_equal", "less", "less_equal", "greater",
                                                             "greater_equal", "isnan", "isinf", "isfinite",
                                                             "logical_not", "logical_and", "logical_or", "invert"):
                    return getattr(np, n)(*ys)
                r = ufunc_call(n, *ys)
                if out is not None:
                    o = out[0] if isinstance(out, tuple) else out
                    base(o)[...] = r
                    return o
                return r
            f.__name__ = n
            return f
        OVERRIDES[_n] = _mk(_n)


class _UfuncProxy:
    """A ufunc with .reduce/.outer/... attributes."""

    def __init__(self, name, fn):
        self.__name__ = name
        self._f = fn
        self._u = getattr(np, name)

    def __call__(self, *a, **k):
        return self._f(*a, **k)

    def reduce(self, a, axis=0, keepdims=False, **k):
        a = arr(a).view(SA)
        if self.__name__ in ("logaddexp", "maximum", "minimum", "logical_and", "logical_or"):
            return a.__array_ufunc__(self._u, "reduce", a, axis=axis, keepdims=keepdims)
        return wrap(self._u.reduce(base(a), axis=axis, keepdims=keepdims))

    def outer(self, a, b):
        a, b = arr(a), arr(b)
        return self._f(a.reshape(a.shape + (1,) * b.ndim).view(SA), b.view(SA))

    def __getattr__(self, n):
        return getattr(self._u, n)


for _n in UFUNCS:
    if isinstance(getattr(np, _n, None), np.ufunc):
        OVERRIDES[_n] = _UfuncProxy(_n, OVERRIDES[_n])


class _FMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, S, LG))

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __call__(cls, x=0.0):
        if is_sym(x):
            return x
        if isinstance(x, SA):
            if x.size == 1:
                v = x.reshape(-1)[0]
                return v
            raise TypeError("only size-1 arrays can be converted to Python scalars")
        return float(x)

    def __eq__(cls, o):
        return o is cls or o is float or o is np.float64

    def __hash__(cls):
        return hash(float)


class FLOAT(metaclass=_FMeta):
    """The name `float` inside the code under analysis."""
    fromhex = float.fromhex
    __name__ = "float"


class F64(metaclass=_FMeta):
    """numpy.float64 inside the code under analysis."""


class Proxy:
    """A module stand-in: overrides first, then the real attribute wrapped to accept symbolic arguments."""

    def __init__(self, real, overrides, consts=None, subs=None):
        self.__dict__["_real"] = real
        self.__dict__["_over"] = overrides
        self.__dict__["_consts"] = consts or {}
        self.__dict__["_subs"] = subs or {}
        self.__dict__["__name__"] = real.__name__
        self.__dict__["_cache"] = {}

    def __getattr__(self, n):
        d = self.__dict__
        if n in d["_subs"]:
            return d["_subs"][n]
        if n in d["_consts"]:
            return d["_consts"][n]()
        if n in d["_over"]:
            return d["_over"][n]
        v = getattr(d["_real"], n)
        if isinstance(v, (type, types.ModuleType)) or not callable(v):
            return v
        c = d["_cache"].get(n)
        if c is None:
            def c(*a, **k):
                return generic(v, a, k)
            c.__name__ = n
            c.__doc__ = getattr(v, "__doc__", None)
            for at in ("reduce", "accumulate", "outer", "at"):
                if isinstance(v, np.ufunc):
                    setattr(c, at, (lambda f: lambda *a, **k: generic(f, a, k))(getattr(v, at)))
            d["_cache"][n] = c
        return c

    def __setattr__(self, n, v):
        self.__dict__["_over"] = dict(self.__dict__["_over"])
        self.__dict__["_over"][n] = v

    def __dir__(self):
        return dir(self.__dict__["_real"])


class RNG:
    """
    numpy.random under analysis: the scenario installs handlers returning symbolic draws;
    without one, a call is outside what the engine represents.
    """
    handlers = {}


def _rng(name):
    def f(*a, **k):
        h = RNG.handlers.get(name)
        if h is None:
            raise EngineLimit(f"numpy.random.{name} without a handler")
        return h(*a, **k)
    f.__name__ = name
    return f


def _optimiser(*a, **k):
    h = RNG.handlers.get("minimize")
    if h is None:
        raise EngineLimit("scipy.optimize.minimize without a handler")
    return h(*a, **k)


def special_xlogy(x, y):
    def f(a, b):
        if bool(a == 0):
            return S.of(0)
        return a * g_log(b)
    return emap(f, x, y)


def special_rel_entr(x, y):
    def f(a, b):
        if bool(a == 0):
            return S.of(0)
        if bool(b == 0):
            return INF
        return a * (as_real(g_log(a)) - as_real(g_log(b)))
    return emap(f, x, y)


def special_softmax(x, axis=None):
    z = logsumexp(x, axis=axis, keepdims=True)
    return emap(lambda a, b: g_exp(a - b), x, z)


SPECIAL = {
    "logsumexp": logsumexp, "xlogy": special_xlogy, "rel_entr": special_rel_entr, "softmax": special_softmax,
    "log_softmax": lambda x, axis=None: emap(lambda a, b: a - b, x, logsumexp(x, axis=axis, keepdims=True)),
    "entr": lambda x: emap(lambda a: -a * as_real(g_log(a)) if bool(a > 0) else (S.of(0) if bool(a == 0) else -INF), x),
}


def _c_log(x, b=None):
    r = _math_log(x)
    if b is not None:
        r = as_real(r) / as_real(g_log(b))
    return r


def _math_log(x, b=None):
    if isinstance(x, np.ndarray):
        x = x.reshape(-1)[0] if x.size == 1 else x
    if is_sym(x):
        x = as_real(x)
        if is_sym(x):
            sg = x.r.sign()
            if sg not in ("+",):
                if bool(x <= 0):
                    raise ValueError("math domain error")
        r = g_log(x)
    else:
        if float(x) <= 0:
            raise ValueError("math domain error")
        r = g_log(x)
    if b is not None:
        r = as_real(r) / as_real(g_log(b))
    return r


def _cmath_log(x, b=None):
    if isinstance(x, np.ndarray):
        x = x.reshape(-1)[0] if x.size == 1 else x
    if isinstance(x, core.C):
        return x.log()
    x = as_real(x)
    if is_sym(x):
        if x.r.sign() != "+" and bool(x <= 0):
            if bool(x == 0):
                raise ValueError("math domain error")
            return core.C.make(g_log(-x), 0, 2)
        return g_log(x)
    return _cmath.log(x)


def arr_real(a):
    return emap(lambda v: v.real, a)


def _cmath_exp(x):
    if isinstance(x, np.ndarray):
        if x.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        x = x.reshape(-1)[0]
    return core.rec_exp(x)


MATH = {
    "log": _math_log, "exp": lambda x: core.rec_exp(x), "sqrt": lambda x: g_sqrt(x), "fabs": lambda x: abs(x),
    "isinf": lambda x: _isinf(x), "isnan": lambda x: _isnan(x), "isfinite": lambda x: _isfinite(x),
    "pow": lambda a, b: _pow(a, b), "fsum": lambda v: ssum(list(v)),
    "isclose": lambda a, b, rel_tol=1e-9, abs_tol=0.0: close_sb(a, b, rtol=rel_tol, atol=abs_tol),
    "prod": lambda v, start=1: functools.reduce(lambda a, b: a * b, v, start),
    "log2": lambda x: as_real(_math_log(x)) / as_real(g_log(2)), "log1p": lambda x: _math_log(x + 1),
}
CMATH = {"log": _cmath_log, "exp": _cmath_exp, "sqrt": lambda x: g_sqrt(x)}


def make_proxies():
    pi = lambda: S(core.pi_rat())
    linalg = Proxy(np.linalg, {**{n: _la_limit(n) for n in ("eigh", "eig", "svd", "qr", "lstsq", "cond")}, **LINALG},
                   consts={"LinAlgError": lambda: np.linalg.LinAlgError})
    rnd = Proxy(np.random, {n: _rng(n) for n in ("normal", "uniform", "choice", "rand", "randn", "random",
                                                 "standard_normal", "multivariate_normal", "randint", "random_sample",
                                                 "default_rng", "multinomial")})
    npx = Proxy(np, OVERRIDES, consts={"pi": pi, "float64": lambda: F64, "float_": lambda: F64,
                                       "e": lambda: S.of(1).exp()},
                subs={"linalg": linalg, "random": rnd, "ma": Proxy(np.ma, MASKED)})
    special = Proxy(_special, SPECIAL)
    import scipy
    import scipy.linalg as _sl
    slinalg = Proxy(_sl, {"inv": lambda a, **k: la_inv(a), "det": lambda a, **k: la_det(a),
                          "cholesky": lambda a, lower=False, **k: (la_cholesky(a) if lower else la_cholesky(a).T),
                          "solve": lambda a, b, **k: la_solve(a, b),
                          "eigvals": la_eigvals, "eigvalsh": la_eigvals,
                          "block_diag": _block_diag})
    import scipy.optimize as _opt
    opt = Proxy(_opt, {"minimize": _optimiser})
    sc = Proxy(scipy, {}, subs={"special": special, "linalg": slinalg, "optimize": opt})
    mth = Proxy(_math, MATH, consts={"pi": pi})
    cmth = Proxy(_cmath, CMATH, consts={"pi": pi})
    return {"numpy": npx, "numpy.linalg": linalg, "numpy.random": rnd, "scipy": sc, "scipy.special": special,
            "scipy.linalg": slinalg, "scipy.optimize": opt, "math": mth, "cmath": cmth}


def _block_diag(*ms):
    ms = [arr(m) for m in ms]
    n = sum(m.shape[0] for m in ms)
    k = sum(m.shape[1] for m in ms)
    out = base(np_zeros([n, k]))
    i = j = 0
    for m in ms:
        out[i:i + m.shape[0], j:j + m.shape[1]] = m
        i += m.shape[0]
        j += m.shape[1]
    return wrap(out)
