"""A numpy stand-in for symbolic execution.

``SA`` is a real ``numpy.ndarray`` subclass of dtype object whose elements are ``Sym`` (or non-finite
Python floats); ``SB`` is the mask variant (elements ``SymBool``/``bool``).  Indexing, views, broadcasting,
reshaping and concatenation are numpy's own.  Arithmetic, reductions, comparisons and ``linalg`` are
intercepted here, so that float arrays hold exact terms instead of rounded numbers.
"""
from __future__ import annotations

import itertools
import math
import types
from fractions import Fraction

import numpy as np

from vx import core
from vx.core import (ONE, ZERO, Ctx, EngineError, Sym, SymBool, band, bnot, bor, cval, const, frac,
                     is_num, ite, la, lift, nonfinite, pred, smax, smin, unary)

_obj = np.dtype(object)
_f8 = np.dtype(float)
_b1 = np.dtype(bool)


# ------------------------------------------------------------------ element level
def E(x):
    """One element, normalised: Sym, non-finite float, or SymBool/bool untouched."""
    t = type(x)
    if t is Sym or t is SymBool:
        return x
    if t is bool or t is np.bool_:
        return const(int(x))
    if isinstance(x, np.ndarray) and x.shape == ():
        return E(x[()])
    if x is None:
        return float("nan")
    if isinstance(x, (int, float, Fraction, np.integer, np.floating)):
        if nonfinite(x):
            return float(x)
        return const(x)
    if isinstance(x, str):
        return E(float(x))
    if hasattr(x, "__float__") and not hasattr(x, "__len__"):
        return E(x.__float__())
    raise TypeError(f"float() argument must be a string or a real number, not {t.__name__!r}")


def _nn(x):
    return type(x) is float and x != x


def e_add(a, b):
    a, b = E(a), E(b)
    return a + b


def e_sub(a, b):
    a, b = E(a), E(b)
    return a - b


def e_mul(a, b):
    a, b = E(a), E(b)
    return a * b


def e_div(a, b):
    a, b = E(a), E(b)
    if type(a) is Sym or type(b) is Sym:
        return a / b
    return float(np.divide(a, b))


def e_pow(a, b):
    a, b = E(a), E(b)
    if type(a) is float or type(b) is float:
        if type(a) is float and type(b) is float:
            return a ** b
        if type(b) is Sym and core.cval(b) is not None and core.cval(b) > 0 and (a != a or a > 0 or core.cval(b) == 2):
            return abs(a) if core.cval(b) == 2 else a
        raise EngineError("power with a non-finite operand")
    return core.power(a, b)


def e_neg(a):
    a = E(a)
    return -a


def e_sqrt(a):
    a = E(a)
    if type(a) is float:
        return a if a != a or a > 0 else float("nan")
    return core.sqrt(a)


def e_log(a):
    a = E(a)
    if type(a) is float:
        return a if a != a or a > 0 else float("nan")
    return core.log(a)


def e_exp(a):
    a = E(a)
    if type(a) is float:
        return a if a != a or a > 0 else ZERO
    return unary("exp", a)


def e_abs(a):
    a = E(a)
    if type(a) is float:
        return abs(a)
    return unary("abs", a)


def e_max(a, b):
    a, b = E(a), E(b)
    if type(a) is float or type(b) is float:
        if _nn(a) or _nn(b):
            return float("nan")
        if type(a) is float:
            return a if a > 0 else b
        return b if b > 0 else a
    return smax(a, b)


def e_min(a, b):
    a, b = E(a), E(b)
    if type(a) is float or type(b) is float:
        if _nn(a) or _nn(b):
            return float("nan")
        if type(a) is float:
            return b if a > 0 else a
        return a if b > 0 else b
    return smin(a, b)


def e_fmax(a, b):
    a, b = E(a), E(b)
    return b if _nn(a) else a if _nn(b) else e_max(a, b)


def e_fmin(a, b):
    a, b = E(a), E(b)
    return b if _nn(a) else a if _nn(b) else e_min(a, b)


def e_floor(a):
    a = E(a)
    return a if type(a) is float else unary("floor", a)


def e_ceil(a):
    a = E(a)
    return a if type(a) is float else unary("ceil", a)


def e_rint(a):
    a = E(a)
    return a if type(a) is float else a.__round__(0)


def e_trunc(a):
    a = E(a)
    return a if type(a) is float else E(core.trunc(a))


def e_sign(a):
    a = E(a)
    if type(a) is float:
        return a if a != a else const(1 if a > 0 else -1)
    return ite(core.lt(ZERO, a), ONE, ite(core.lt(a, ZERO), const(-1), ZERO))


def e_floordiv(a, b):
    return e_floor(e_div(a, b))


def e_mod(a, b):
    return e_sub(a, e_mul(e_floordiv(a, b), b))


def e_isnan(a):
    a = E(a)
    return type(a) is float and a != a


def e_isinf(a):
    a = E(a)
    return type(a) is float and a == a


def e_isfinite(a):
    return type(E(a)) is not float


def _cmp(name):
    def f(a, b):
        if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_)):
            a, b = core.blift(a), core.blift(b)
            r = bor(band(a, b), band(bnot(a), bnot(b)))
            if name == "__ne__":
                r = bnot(r)
        else:
            a, b = E(a), E(b)
            if isinstance(a, SymBool):
                a = lift(a)
            if isinstance(b, SymBool):
                b = lift(b)
            r = getattr(a, name)(b)
            if r is NotImplemented:
                rev = {"__lt__": "__gt__", "__gt__": "__lt__", "__le__": "__ge__",
                       "__ge__": "__le__", "__eq__": "__eq__", "__ne__": "__ne__"}[name]
                r = getattr(b, rev)(a)
        if isinstance(r, SymBool):
            if r.op == "true":
                return True
            if r.op == "false":
                return False
        return r
    return f


def e_and(a, b):
    return _pb(band(core.blift(a), core.blift(b)))


def e_or(a, b):
    return _pb(bor(core.blift(a), core.blift(b)))


def e_not(a):
    return _pb(bnot(core.blift(a)))


def e_xor(a, b):
    a, b = core.blift(a), core.blift(b)
    return _pb(bor(band(a, bnot(b)), band(bnot(a), b)))


def _pb(c):
    return True if c.op == "true" else False if c.op == "false" else c


def e_log1p(a):
    return e_log(e_add(1, a))


def e_expm1(a):
    return e_sub(e_exp(a), 1)


def e_hypot(a, b):
    return e_sqrt(e_add(e_mul(a, a), e_mul(b, b)))


def e_where(c, a, b):
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    return ite(core.blift(c), a if isinstance(a, (bool, SymBool)) else E(a),
               b if isinstance(b, (bool, SymBool)) else E(b))


def _uf(name):
    def f(a):
        a = E(a)
        if type(a) is float:
            return float(getattr(np, name)(a))
        c = cval(a)
        if c == 0 and name in ("sin", "tan", "arctan", "sinh", "tanh", "cbrt", "arcsin"):
            return ZERO
        return core._mk(Sym, "uf", (name, a))
    return f


MASK_OUT = {"less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "isnan",
            "isfinite", "isinf", "logical_and", "logical_or", "logical_not", "logical_xor",
            "bitwise_and", "bitwise_or", "invert", "bitwise_xor"}
ELEM = {
    "add": e_add, "subtract": e_sub, "multiply": e_mul, "true_divide": e_div, "divide": e_div,
    "negative": e_neg, "positive": E, "sqrt": e_sqrt, "log": e_log, "exp": e_exp,
    "absolute": e_abs, "fabs": e_abs, "maximum": e_max, "minimum": e_min, "fmax": e_fmax,
    "fmin": e_fmin, "floor": e_floor, "ceil": e_ceil, "rint": e_rint, "trunc": e_trunc,
    "sign": e_sign, "power": e_pow, "float_power": e_pow,
    "square": lambda a: e_mul(a, a), "reciprocal": lambda a: e_div(1, a),
    "isnan": e_isnan, "isfinite": e_isfinite, "isinf": e_isinf,
    "less": _cmp("__lt__"), "less_equal": _cmp("__le__"), "greater": _cmp("__gt__"),
    "greater_equal": _cmp("__ge__"), "equal": _cmp("__eq__"), "not_equal": _cmp("__ne__"),
    "logical_and": e_and, "logical_or": e_or, "logical_not": e_not, "logical_xor": e_xor,
    "bitwise_and": e_and, "bitwise_or": e_or, "invert": e_not, "bitwise_xor": e_xor,
    "floor_divide": e_floordiv, "remainder": e_mod, "conjugate": E, "conj": E,
    "log1p": e_log1p, "expm1": e_expm1, "hypot": e_hypot,
    "log2": lambda a: e_div(e_log(a), e_log(2)), "log10": lambda a: e_div(e_log(a), e_log(10)),
    "cbrt": _uf("cbrt"), "sin": _uf("sin"), "cos": _uf("cos"), "tan": _uf("tan"),
    "tanh": _uf("tanh"), "arctan": _uf("arctan"), "spacing": _uf("spacing"),
    "copysign": lambda a, b: e_where(_cmp("__lt__")(b, 0), e_neg(e_abs(a)), e_abs(a)),
    "heaviside": lambda a, b: e_where(_cmp("__lt__")(a, 0), 0,
                                      e_where(_cmp("__eq__")(a, 0), b, 1)),
}
_IDENT = {"add": ZERO, "multiply": ONE, "logical_and": True, "logical_or": False}
_FPF: dict = {}


def _fpf(name, nin):
    k = (name, nin)
    if k not in _FPF:
        _FPF[k] = np.errstate(all="ignore")(np.frompyfunc(ELEM[name], nin, 1).__call__)
    return _FPF[k]


# ------------------------------------------------------------------ arrays
def raw(x):
    """Plain object ndarray view / conversion of anything array-like (no element normalisation)."""
    if isinstance(x, SA):
        return x.view(np.ndarray)
    if isinstance(x, np.ndarray):
        return x if x.dtype == object else x.astype(object)
    if isinstance(x, (Sym, SymBool)) or is_num(x) or isinstance(x, bool):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    return _nested(x)


def _nested(x):
    """Nested sequences (possibly containing Syms / arrays) -> object ndarray."""
    if isinstance(x, np.ndarray):
        return raw(x)
    if hasattr(x, "__array__") and not isinstance(x, (Sym, SymBool)):
        return raw(x.__array__())
    if isinstance(x, (list, tuple)) or (hasattr(x, "__iter__") and not isinstance(x, (str, dict, set))
                                        and not isinstance(x, (Sym, SymBool))):
        items = [_nested(e) for e in x]
        if not items:
            return np.empty((0,), dtype=object)
        shp = items[0].shape
        for it in items:
            if it.shape != shp:
                raise ValueError("setting an array element with a sequence. The requested array has "
                                 "an inhomogeneous shape")
        out = np.empty((len(items),) + shp, dtype=object)
        for i, it in enumerate(items):
            out[i] = it if shp else it[()]
        return out
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def _norm(o):
    """Normalise the elements of an object ndarray (a new array if anything changed)."""
    flat = o.ravel() if o.flags.c_contiguous else o.flatten()
    for v in flat:
        if type(v) is not Sym:
            out = np.empty(o.shape, dtype=object)
            of = out.reshape(-1)
            for i, v in enumerate(flat):
                of[i] = E(v)
            return out
    return o


def _is_mask(o):
    return o.size > 0 and all(isinstance(v, (bool, np.bool_, SymBool)) for v in o.ravel())


def wrap(o, mask=False):
    """object ndarray -> SA / SB / plain bool array; scalars pass through."""
    if not isinstance(o, np.ndarray):
        return o
    if o.shape == () and not isinstance(o, SA):
        return o[()]
    if mask:
        if all(isinstance(v, (bool, np.bool_)) for v in o.ravel()):
            return o.astype(bool)
        return o.view(SB)
    return o.view(SA) if not isinstance(o, SA) else o


class SA(np.ndarray):
    """Symbolic float array."""

    __array_priority__ = 100

    @property
    def dtype(self):
        return _f8

    @property
    def itemsize(self):
        return 8

    @property
    def nbytes(self):
        return 8 * self.size

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return do_ufunc(ufunc, method, *inputs, **kw)

    def __array_function__(self, func, types_, args, kwargs):
        name = getattr(func, "__name__", "")
        mod = getattr(func, "__module__", "") or ""
        table = LINALG if mod.startswith("numpy.linalg") else OVER
        h = table.get(name)
        if h is not None:
            return h(*args, **kwargs)
        res = super().__array_function__(func, types_, args, kwargs)
        return fix(res)

    # indexing
    def __getitem__(self, key):
        r = np.ndarray.__getitem__(self, fixkey(key))
        return r

    def __setitem__(self, key, val):
        k = fixkey(key)
        if isinstance(val, np.ndarray):
            val = raw(val) if isinstance(self, SB) else _norm(raw(val))
        elif isinstance(val, (list, tuple)):
            val = _nested(val) if isinstance(self, SB) else _norm(_nested(val))
        elif not isinstance(self, SB):
            val = E(val)
        np.ndarray.__setitem__(self.view(np.ndarray), k, val)

    def __array_finalize__(self, obj):
        pass

    def __reduce__(self):
        return (_rebuild, (self.shape, list(self.view(np.ndarray).ravel()), isinstance(self, SB)))

    def __deepcopy__(self, memo):
        return self.copy()

    def __contains__(self, v):
        return any(bool(ELEM["equal"](e, v)) for e in self.view(np.ndarray).ravel())

    def __bool__(self):
        if self.size == 1:
            return bool(self.view(np.ndarray).ravel()[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous. "
                         "Use a.any() or a.all()")

    def __float__(self):
        if self.size == 1:
            return float(self.view(np.ndarray).ravel()[0])
        raise TypeError("only length-1 arrays can be converted to Python scalars")

    # methods
    def astype(self, dtype=float, order="K", casting="unsafe", subok=True, copy=True):
        return cast_array(self, dtype, copy=copy)

    def item(self, *a):
        return self.view(np.ndarray).item(*a)

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def copy(self, order="C"):
        return self.view(np.ndarray).copy().view(type(self))

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        return reduce_("add", self, axis, keepdims, initial, where, out)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        return reduce_("multiply", self, axis, keepdims, initial, where, out)

    def max(self, axis=None, out=None, keepdims=False, initial=None, where=True):
        return reduce_("maximum", self, axis, keepdims, initial, where, out)

    def min(self, axis=None, out=None, keepdims=False, initial=None, where=True):
        return reduce_("minimum", self, axis, keepdims, initial, where, out)

    def all(self, axis=None, out=None, keepdims=False, where=True):
        return reduce_("logical_and", self, axis, keepdims, None, where, out)

    def any(self, axis=None, out=None, keepdims=False, where=True):
        return reduce_("logical_or", self, axis, keepdims, None, where, out)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, where=True):
        return OVER["mean"](self, axis=axis, keepdims=keepdims, where=where, out=out)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return OVER["var"](self, axis=axis, ddof=ddof, keepdims=keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return OVER["std"](self, axis=axis, ddof=ddof, keepdims=keepdims)

    def clip(self, min=None, max=None, out=None, **k):
        return OVER["clip"](self, min, max, out=out)

    def dot(self, b, out=None):
        return OVER["dot"](self, b)

    def trace(self, offset=0, axis1=0, axis2=1, dtype=None, out=None):
        return OVER["trace"](self, offset)

    def round(self, decimals=0, out=None):
        return OVER["round"](self, decimals)

    def argmax(self, axis=None, out=None, **k):
        return OVER["argmax"](self, axis)

    def argmin(self, axis=None, out=None, **k):
        return OVER["argmin"](self, axis)

    def argsort(self, axis=-1, kind=None, order=None, **k):
        return OVER["argsort"](self, axis)

    def sort(self, axis=-1, kind=None, order=None):
        self[...] = OVER["sort"](self, axis)

    def nonzero(self):
        return OVER["nonzero"](self)

    def cumsum(self, axis=None, dtype=None, out=None):
        return OVER["cumsum"](self, axis)

    def conj(self):
        return self

    conjugate = conj

    @property
    def real(self):
        return self

    def __repr__(self):
        return "SA(" + repr(self.view(np.ndarray).tolist()) + ")"

    __str__ = __repr__

    def tobytes(self, order="C"):
        return b"".join(str(v.id if isinstance(v, (Sym, SymBool)) else v).encode() + b";"
                        for v in self.view(np.ndarray).ravel())


class SB(SA):
    @property
    def dtype(self):
        return _b1


def _rebuild(shape, items, mask):
    o = np.empty(shape, dtype=object)
    f = o.reshape(-1)
    for i, v in enumerate(items):
        f[i] = v
    return o.view(SB if mask else SA)


def fixkey(key):
    if isinstance(key, tuple):
        return tuple(_fk(k) for k in key)
    return _fk(key)


def _fk(k):
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, Sym):
        return k.__index__()
    if isinstance(k, SA):
        o = k.view(np.ndarray)
        if isinstance(k, SB) or _is_mask(o):
            out = np.empty(o.shape, dtype=bool)
            for ix in np.ndindex(o.shape):
                out[ix] = bool(o[ix])
            return out
        return np.array([int(v) for v in o.ravel()], dtype=int).reshape(o.shape)
    if isinstance(k, np.ndarray) and k.dtype == object:
        return _fk(k.view(SA))
    if isinstance(k, list) and any(isinstance(v, (Sym, SymBool)) for v in k):
        return _fk(_nested(k).view(SA))
    return k


def fix(res):
    if isinstance(res, tuple):
        return type(res)(fix(r) for r in res) if type(res) is tuple else res
    if isinstance(res, list):
        return [fix(r) for r in res]
    if isinstance(res, np.ndarray):
        if np.ndarray.dtype.__get__(res) == object:
            if res.shape == ():
                return res[()]
            if isinstance(res, SA):
                return res
            return res.view(SB) if _is_mask(res) else res.view(SA)
        return res
    return res


def do_ufunc(ufunc, method, *inputs, **kw):
    name = ufunc.__name__
    out = kw.pop("out", None)
    where = kw.pop("where", True)
    kw.pop("dtype", None), kw.pop("casting", None), kw.pop("order", None), kw.pop("subok", None)
    if isinstance(out, tuple):
        out = out[0]
    if name == "matmul" and method == "__call__":
        res = matmul(*inputs)
    elif name == "vecdot" and method == "__call__":
        res = wrap(np.sum(raw(inputs[0]) * raw(inputs[1]), axis=-1))
    elif name == "divmod":
        return do_ufunc(np.floor_divide, "__call__", *inputs), do_ufunc(np.remainder, "__call__", *inputs)
    elif name not in ELEM:
        raise EngineError(f"ufunc {name} is not modelled")
    elif method == "__call__":
        ins = [raw(i) for i in inputs]
        if where is not True:
            wh = raw(where)
            shape = np.broadcast_shapes(wh.shape, *[i.shape for i in ins])
            ins = [np.broadcast_to(i, shape) for i in ins]
            wh = np.broadcast_to(wh, shape)
            if out is not None:
                base = np.broadcast_to(raw(out), shape)
            else:
                base = np.full(shape, ZERO, dtype=object)   # uninitialised memory in numpy
            res = np.empty(shape, dtype=object)
            for ix in np.ndindex(shape):
                c = wh[ix]
                if bool(c):
                    res[ix] = ELEM[name](*[i[ix] for i in ins])
                else:
                    res[ix] = base[ix]
            res = wrap(res, name in MASK_OUT)
        else:
            res = _fpf(name, len(ins))(*ins)
            if isinstance(res, np.ndarray):
                if res.shape == ():
                    res = res[()]
                else:
                    res = wrap(res, name in MASK_OUT)
    elif method == "reduce":
        axis = kw.get("axis", 0)
        return reduce_(name, inputs[0], axis, kw.get("keepdims", False), kw.get("initial"), where, out)
    elif method == "outer":
        a, b = raw(inputs[0]), raw(inputs[1])
        A = a.reshape(a.shape + (1,) * b.ndim)
        res = wrap(_fpf(name, 2)(A, b), name in MASK_OUT)
    elif method == "accumulate":
        a = raw(inputs[0])
        ax = kw.get("axis", 0)
        m = np.moveaxis(a, ax, 0).copy()
        for i in range(1, m.shape[0]):
            if m.ndim == 1:
                m[i] = ELEM[name](E(m[i - 1]), E(m[i]))
            else:
                m[i] = _fpf(name, 2)(m[i - 1], m[i])
        res = wrap(np.moveaxis(m, 0, ax), name in MASK_OUT)
    elif method == "at":
        a, idx = inputs[0], inputs[1]
        b = raw(inputs[2]) if len(inputs) > 2 else None
        ar = a.view(np.ndarray) if isinstance(a, np.ndarray) else a
        idxs = np.arange(ar.size).reshape(ar.shape)[fixkey(idx)]
        bb = np.broadcast_to(b, idxs.shape) if b is not None else None
        fl = ar.reshape(-1)
        for n_, i in enumerate(idxs.ravel()):
            fl[i] = ELEM[name](fl[i], bb.ravel()[n_]) if b is not None else ELEM[name](fl[i])
        return None
    else:
        raise EngineError(f"ufunc method {name}.{method} is not modelled")
    if out is not None:
        if isinstance(out, np.ndarray):
            if np.ndarray.dtype.__get__(out) != object:
                rr = raw(res)
                if all(cval(E(v)) is not None if type(E(v)) is Sym else True for v in rr.ravel()):
                    out[...] = np.array([float(E(v)) for v in rr.ravel()]).reshape(rr.shape)
                    return out
                raise EngineError("in-place operation would put symbolic values in a numeric array")
            np.ndarray.__setitem__(out.view(np.ndarray), Ellipsis, raw(res))
            return out
    return res


def reduce_(name, a, axis=None, keepdims=False, initial=None, where=True, out=None):
    o = raw(a)
    f = ELEM[name]
    nov = initial is None or initial is np._NoValue
    if where is not True:
        wh = np.broadcast_to(raw(where), o.shape)
    if axis is None:
        axes = tuple(range(o.ndim))
    elif isinstance(axis, tuple):
        axes = tuple(ax % o.ndim for ax in axis)
    else:
        axes = (axis % o.ndim if o.ndim else 0,)
    keep = [i for i in range(o.ndim) if i not in axes]
    shape = tuple(o.shape[i] for i in keep)
    res = np.empty(shape, dtype=object)
    for ix in np.ndindex(shape):
        sel = [slice(None)] * o.ndim
        for i, k in zip(keep, ix):
            sel[i] = k
        items = o[tuple(sel)]
        items = list(items.ravel()) if isinstance(items, np.ndarray) else [items]
        if where is not True:
            ws = wh[tuple(sel)]
            ws = list(ws.ravel()) if isinstance(ws, np.ndarray) else [ws]
            items = [v for v, w_ in zip(items, ws) if bool(w_)]
        if nov:
            if not items:
                if name not in _IDENT:
                    raise ValueError("zero-size array to reduction operation "
                                     f"{name} which has no identity")
                res[ix] = _IDENT[name]
                continue
            acc = items[0]
            if name in ("add", "multiply", "maximum", "minimum"):
                acc = E(acc) if not isinstance(acc, (SymBool,)) else lift(acc)
                if isinstance(acc, (bool, np.bool_)):
                    acc = const(int(acc))
            elif name.startswith("logical"):
                acc = _pb(core.blift(acc))
            items = items[1:]
        else:
            acc = E(initial)
        for v in items:
            if name in ("add", "multiply") and isinstance(v, SymBool):
                v = lift(v)
            acc = f(acc, v)
        res[ix] = acc
    if keepdims and keepdims is not np._NoValue:
        res = res.reshape(tuple(1 if i in axes else o.shape[i] for i in range(o.ndim)))
    if out is not None and isinstance(out, np.ndarray):
        np.ndarray.__setitem__(out.view(np.ndarray), Ellipsis, res)
        return out
    if res.shape == ():
        return res[()]
    return wrap(res, name in MASK_OUT)


def matmul(a, b):
    A, B = _norm(raw(a)), _norm(raw(b))
    if A.ndim == 0 or B.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    if A.shape[-1] != B.shape[-2 if B.ndim > 1 else 0]:
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0")
    if A.shape[-1] == 0:
        sh = np.matmul(np.zeros(A.shape), np.zeros(B.shape)).shape
        r = np.full(sh, ZERO, dtype=object)
    else:
        r = np.matmul(A, B)
    return wrap(r) if isinstance(r, np.ndarray) else r


# dtype casts -----------------------------------------------------------------
def _kind(dtype):
    if dtype is None:
        return "f"
    t = getattr(dtype, "_vx_kind", None)
    if t:
        return t
    if dtype is SA or dtype is object:
        return "f"
    try:
        d = np.dtype(dtype)
    except TypeError:
        raise EngineError(f"dtype {dtype!r}") from None
    if d == np.float32 or d == np.float16:
        return "r" + d.name
    if d.kind in "fO":
        return "f"
    if d.kind in "iu":
        return "i"
    if d.kind == "b":
        return "b"
    if d.kind in "US":
        return "s"
    raise EngineError(f"dtype {d}")


def cast_scalar(x, dtype):
    k = _kind(dtype)
    if k == "f":
        return E(x)
    if k[0] == "r":
        x = E(x)
        if type(x) is float:
            return x
        return core._mk(Sym, "uf", ("as" + k[1:], x))
    if k == "i":
        x = E(x)
        return core.trunc(x) if type(x) is Sym else int(x)
    if k == "b":
        return _pb(core.blift(x)) if not isinstance(x, float) else True
    raise EngineError(f"cast to {dtype}")


def cast_array(a, dtype, copy=True):
    k = _kind(dtype)
    o = raw(a)
    if k == "f":
        r = _norm(o)
        if r is o and copy:
            r = o.copy()
        return r.view(SA)
    res = np.empty(o.shape, dtype=object)
    for ix in np.ndindex(o.shape):
        res[ix] = cast_scalar(o[ix], dtype)
    if k == "i":
        if all(isinstance(v, (int, np.integer)) or (type(v) is Sym and cval(v) is not None)
               for v in res.ravel()):
            return np.array([int(v) for v in res.ravel()], dtype=int).reshape(res.shape)
        return res.view(SA)
    if k == "b":
        return wrap(res, True) if res.shape else res[()]
    return res.view(SA)


def mk(x, dtype=None, copy=False, ndmin=0):
    """np.array / np.asarray."""
    if dtype is None:
        if isinstance(x, SA):
            return x.copy() if copy else x
        if isinstance(x, np.ndarray) and x.dtype != object:
            if x.dtype.kind == "f":
                return cast_array(x, float)
            return x.copy() if copy else x
        o = raw(x)
        vals = list(o.ravel())
        if not vals:
            return o.view(SA)
        if all(isinstance(v, (bool, np.bool_)) for v in vals):
            r = o.astype(bool)
        elif _is_mask(o):
            r = o.view(SB)
        elif all(isinstance(v, (int, np.integer)) and not isinstance(v, (bool, np.bool_))
                 for v in vals):
            r = o.astype(int)
        elif any(isinstance(v, str) for v in vals):
            return np.array(x)
        elif any(isinstance(v, dict) for v in vals):
            return np.array(x, dtype=object)
        else:
            r = _norm(o).view(SA)
    else:
        k = _kind(dtype)
        if k == "s":
            return np.array(x, dtype=dtype)
        if k == "f" and isinstance(x, SA) and not isinstance(x, SB) and not copy:
            r = x
        else:
            o = raw(x)
            if k == "f":
                if isinstance(x, SB) or _is_mask(o):
                    o = np.array([lift(v) if isinstance(v, SymBool) else v
                                  for v in o.ravel()], dtype=object).reshape(o.shape)
                n = _norm(o)
                if n is o and (copy or not isinstance(x, np.ndarray)):
                    n = n.copy()
                r = n.view(SA)
            else:
                r = cast_array(o, dtype)
                if not isinstance(r, np.ndarray):
                    r = np.asarray(r)
    while isinstance(r, np.ndarray) and r.ndim < ndmin:
        r = r[np.newaxis]
    return r


def filled(shape, val, dtype=None):
    if isinstance(shape, (Sym,)):
        shape = shape.__index__()
    if isinstance(shape, (tuple, list)):
        shape = tuple(int(s) if isinstance(s, Sym) else s for s in shape)
    k = _kind(dtype)
    if k == "f" or k[0] == "r":
        o = np.empty(shape, dtype=object)
        v = E(val)
        o.reshape(-1)[...] = v if type(v) is float else _cell(v)
        return o.view(SA)
    if k == "i":
        return np.full(shape, int(val), dtype=np.dtype(dtype) if not hasattr(dtype, "_vx_kind") else int)
    if k == "b":
        return np.full(shape, bool(val))
    raise EngineError("full dtype")


def _cell(v):
    a = np.empty((), dtype=object)
    a[()] = v
    return a


# ------------------------------------------------------------------ function overrides
OVER: dict = {}
LINALG: dict = {}


def over(*names, table=OVER):
    def deco(f):
        for n in names:
            table[n] = f
        return f
    return deco


@over("zeros")
def _zeros(shape, dtype=float, order="C", **k):
    return filled(shape, 0, dtype)


@over("ones")
def _ones(shape, dtype=None, order="C", **k):
    return filled(shape, 1, dtype)


@over("empty")
def _empty(shape, dtype=float, order="C", **k):
    if _kind(dtype) == "f":
        o = np.empty(shape if not isinstance(shape, Sym) else int(shape), dtype=object)
        f = o.reshape(-1)
        for i in range(f.size):
            f[i] = core.var("uninit!%d" % i) if Ctx.current is None else Ctx.current.fresh("uninit")
        return o.view(SA)
    return np.empty(shape, dtype=dtype if not hasattr(dtype, "_vx_kind") else
                    {"i": int, "b": bool}[dtype._vx_kind])


@over("full")
def _full(shape, fill_value, dtype=None, order="C", **k):
    if isinstance(fill_value, (list, tuple, np.ndarray)):
        o = np.empty(shape, dtype=object).view(SA)
        o[...] = fill_value
        return o
    if dtype is None and isinstance(fill_value, (bool, np.bool_)):
        return np.full(shape, fill_value)
    if dtype is None and isinstance(fill_value, (int, np.integer)):
        return np.full(shape, fill_value)
    return filled(shape, fill_value, dtype)


def _like(val):
    def f(a, dtype=None, order="K", subok=True, shape=None, **k):
        shape = np.shape(a) if shape is None else shape
        if dtype is None:
            dtype = a.dtype if isinstance(a, np.ndarray) else None
        if val is None:
            return _empty(shape, float if dtype is None else dtype)
        return filled(shape, val, dtype)
    return f


OVER["zeros_like"], OVER["ones_like"], OVER["empty_like"] = _like(0), _like(1), _like(None)


@over("full_like")
def _full_like(a, fill_value, dtype=None, **k):
    return filled(np.shape(a), fill_value, a.dtype if dtype is None and isinstance(a, np.ndarray) else dtype)


@over("eye", "identity")
def _eye(n, m=None, k=0, dtype=float, order="C", M=None, **kw):
    n = int(n)
    m = int(M if M is not None else (m if m is not None else n))
    e = np.eye(n, m, k, dtype=int)
    return cast_array(e, dtype) if _kind(dtype) == "f" else e.astype(np.dtype(
        {"i": int, "b": bool}.get(_kind(dtype), dtype)))


@over("array")
def _array(x, dtype=None, copy=True, order="K", subok=False, ndmin=0, **k):
    return _laid(mk(x, dtype, copy=copy is not False and copy is not None, ndmin=ndmin), order)


def _laid(r, order):
    """The same array in the requested memory layout."""
    if order in ("F", "C") and isinstance(r, np.ndarray) and r.ndim > 1 and not r.flags[order + "_CONTIGUOUS"]:
        o = np.array(r.view(np.ndarray), order=order)
        return o.view(type(r)) if isinstance(r, SA) else o
    return r


@over("asarray", "asanyarray", "require", "asarray_chkfinite")
def _asarray(x, dtype=None, order=None, copy=None, **k):
    return _laid(mk(x, dtype, copy=bool(copy)), order)


@over("ascontiguousarray")
def _ascontiguous(x, dtype=None, **k):
    return _laid(mk(x, dtype), "C")


@over("asfortranarray")
def _asfortran(x, dtype=None, **k):
    return _laid(mk(x, dtype), "F")


@over("copy")
def _copy(a, order="K", subok=False):
    return _laid(mk(a, copy=True), order)


@over("atleast_1d")
def _atl1(*xs):
    r = [mk(x) if np.ndim(raw(x)) >= 1 else mk(x).reshape(1) if isinstance(mk(x), np.ndarray)
         else mk([x]) for x in xs]
    return r[0] if len(r) == 1 else r


@over("atleast_2d")
def _atl2(*xs):
    def one(x):
        a = mk(x)
        if not isinstance(a, np.ndarray) or a.ndim == 0:
            return mk([[x[()] if isinstance(x, np.ndarray) else x]])
        return a[np.newaxis, :] if a.ndim == 1 else a
    r = [one(x) for x in xs]
    return r[0] if len(r) == 1 else r


@over("where")
def _where(c, *ab):
    if not ab:
        return _nonzero(c)
    a, b = ab
    C, A, B = np.broadcast_arrays(raw(c), raw(a), raw(b))
    if C.shape == ():
        return e_where(C[()], A[()], B[()])
    res = np.empty(C.shape, dtype=object)
    for ix in np.ndindex(C.shape):
        res[ix] = e_where(C[ix], A[ix], B[ix])
    if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)) and \
            all(isinstance(v, (int, np.integer)) for v in res.ravel()):
        return res.astype(int)
    if _is_mask(res):
        return wrap(res, True)
    return _norm(res).view(SA)


@over("nonzero", "flatnonzero_")
def _nonzero(a):
    o = raw(a)
    m = np.empty(o.shape, dtype=bool)
    for ix in np.ndindex(o.shape):
        v = o[ix]
        m[ix] = bool(v) if isinstance(v, (bool, SymBool, np.bool_)) else bool(core.bnot(core.eq(lift(v), ZERO)))
    return np.nonzero(m)


@over("flatnonzero")
def _flatnonzero(a):
    return _nonzero(mk(a).ravel())[0]


@over("count_nonzero")
def _cnz(a, axis=None, keepdims=False):
    o = raw(a)
    b = np.empty(o.shape, dtype=object)
    for ix in np.ndindex(o.shape):
        b[ix] = lift(core.blift(o[ix]))
    r = reduce_("add", b.view(SA), axis, keepdims)
    return core.to_int(r) if isinstance(r, Sym) else r


@over("clip")
def _clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = a if isinstance(a, np.ndarray) else (mk(a) if isinstance(a, (list, tuple)) else E(a))
    if lo is not None:
        r = do_ufunc(np.maximum, "__call__", r, lo)
    if hi is not None:
        r = do_ufunc(np.minimum, "__call__", r, hi)
    if out is not None:
        out[...] = r
        return out
    return r


@over("sum")
def _sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    if isinstance(a, types.GeneratorType):
        a = list(a)
    return reduce_("add", mk(a), axis, keepdims, initial, where, out)


@over("prod")
def _prod(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    return reduce_("multiply", mk(a), axis, keepdims, initial, where, out)


@over("max", "amax")
def _max(a, axis=None, out=None, keepdims=False, initial=None, where=True):
    return reduce_("maximum", mk(a), axis, keepdims, initial, where, out)


@over("min", "amin")
def _min(a, axis=None, out=None, keepdims=False, initial=None, where=True):
    return reduce_("minimum", mk(a), axis, keepdims, initial, where, out)


@over("ptp")
def _ptp(a, axis=None, **k):
    return _max(a, axis) - _min(a, axis)


@over("all")
def _all(a, axis=None, out=None, keepdims=False, where=True):
    return reduce_("logical_and", mk(a), axis, keepdims, None, where)


@over("any")
def _any(a, axis=None, out=None, keepdims=False, where=True):
    return reduce_("logical_or", mk(a), axis, keepdims, None, where)


def _cnt(shape, axis):
    if axis is None:
        return int(np.prod(shape, dtype=int))
    if isinstance(axis, tuple):
        return int(np.prod([shape[i] for i in axis], dtype=int))
    return shape[axis]


@over("mean")
def _mean(a, axis=None, dtype=None, out=None, keepdims=False, where=True):
    a = mk(a)
    a = a if isinstance(a, np.ndarray) else mk([a])
    if where is not True and where is not np._NoValue:
        raise EngineError("mean(where=)")
    if keepdims is np._NoValue:
        keepdims = False
    s = reduce_("add", a, axis, keepdims)
    n = _cnt(a.shape, axis)
    if n == 0:
        return float("nan") if not isinstance(s, np.ndarray) else filled(s.shape, float("nan"))
    r = do_ufunc(np.true_divide, "__call__", s, n)
    if out is not None and out is not np._NoValue:
        out[...] = r
        return out
    return r


@over("average")
def _average(a, axis=None, weights=None, returned=False, keepdims=False):
    if weights is None:
        return _mean(a, axis)
    a, w = mk(a), mk(weights)
    if w.ndim == 1 and a.ndim == 2:
        ax = axis if axis is not None else 0
        ww = w[:, None] if ax % 2 == 0 else w[None, :]
        return do_ufunc(np.true_divide, "__call__", _sum(a * ww, axis=ax), _sum(w))
    return do_ufunc(np.true_divide, "__call__", _sum(a * w, axis=axis), _sum(w))


@over("var")
def _var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = mk(a)
    m = reduce_("add", a, axis, True)
    n = _cnt(a.shape, axis)
    m = do_ufunc(np.true_divide, "__call__", m, n)
    d = a - m
    s = reduce_("add", d * d, axis, keepdims)
    return do_ufunc(np.true_divide, "__call__", s, n - ddof)


@over("std")
def _std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return do_ufunc(np.sqrt, "__call__", _var(a, axis, ddof=ddof, keepdims=keepdims))


@over("cov")
def _cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None, dtype=None):
    if y is not None or fweights is not None:
        raise EngineError("np.cov(y/fweights)")
    X = mk(m, float)
    if X.ndim == 1:
        X = X[None, :] if rowvar else X[:, None]
        scalar = True
        if not rowvar and X.shape[1] == 1:
            pass
    else:
        scalar = False
    if not rowvar and X.ndim == 2 and X.shape[0] != 1:
        X = X.T
    elif not rowvar and X.shape[0] == 1 and not scalar:
        X = X.T
    elif scalar and not rowvar:
        X = X.T
    n = X.shape[1]
    dd = (0 if bias else 1) if ddof is None else ddof
    if aweights is not None:
        w = mk(aweights, float)
        sw = _sum(w)
        avg = do_ufunc(np.true_divide, "__call__", _sum(X * w[None, :], axis=1), sw)
        d = X - avg[:, None]
        fact = sw if dd == 0 else sw - dd * _sum(w * w) / sw
        c = matmul(d * w[None, :], d.T)
        c = do_ufunc(np.true_divide, "__call__", c, fact)
    else:
        d = X - _mean(X, axis=1)[:, None]
        c = do_ufunc(np.true_divide, "__call__", matmul(d, d.T), n - dd)
    if c.shape == (1, 1):
        return c[0, 0]
    return c


@over("corrcoef")
def _corrcoef(x, y=None, rowvar=True, **k):
    c = _cov(x, y, rowvar)
    if not isinstance(c, np.ndarray):
        return c / c
    d = _diag(c)
    sd = do_ufunc(np.sqrt, "__call__", d)
    r = c / sd[:, None] / sd[None, :]
    return _clip(r, -1, 1)


@over("nanmean")
def _nanmean(a, axis=None, **k):
    a = mk(a)
    if axis is None:
        v = [x for x in raw(a).ravel() if not e_isnan(x)]
        if not v:
            return float("nan")
        return _mean(mk(v))
    m = np.moveaxis(raw(a), axis, -1)
    res = np.empty(m.shape[:-1], dtype=object)
    for ix in np.ndindex(res.shape):
        res[ix] = _nanmean(mk(list(m[ix])))
    return res.view(SA)


@over("nansum")
def _nansum(a, axis=None, **k):
    return _sum(_nan_to_num(a), axis=axis)


@over("nan_to_num")
def _nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def one(v):
        v = E(v)
        if type(v) is float:
            return E(nan) if v != v else (E(posinf if posinf is not None else 1.797e308) if v > 0
                                          else E(neginf if neginf is not None else -1.797e308))
        return v
    if not isinstance(x, np.ndarray):
        return one(x)
    o = raw(x)
    r = np.empty(o.shape, dtype=object)
    for ix in np.ndindex(o.shape):
        r[ix] = one(o[ix])
    return r.view(SA)


@over("dot")
def _dot(a, b, out=None):
    if np.ndim(raw(a)) == 0 or np.ndim(raw(b)) == 0:
        return do_ufunc(np.multiply, "__call__", a, b)
    return matmul(mk(a), mk(b))


@over("matmul")
def _matmul(a, b, **k):
    return matmul(mk(a), mk(b))


@over("vdot", "inner")
def _inner(a, b):
    a, b = mk(a), mk(b)
    if a.ndim == 1 and b.ndim == 1:
        return matmul(a, b)
    return matmul(a, b.T)


@over("outer")
def _outer(a, b, out=None):
    A, B = _norm(raw(mk(a)).ravel()), _norm(raw(mk(b)).ravel())
    r = np.empty((A.size, B.size), dtype=object)
    for i, x in enumerate(A):
        for j, y in enumerate(B):
            r[i, j] = x * y
    return r.view(SA)


@over("trace")
def _trace(a, offset=0, axis1=0, axis2=1, dtype=None, out=None):
    return reduce_("add", mk(np.diagonal(raw(a), offset)), None)


@over("diag")
def _diag(v, k=0):
    a = mk(v)
    if not isinstance(a, SA):
        return np.diag(a, k)
    o = raw(a)
    if o.ndim == 2:
        return np.diagonal(o, k).view(SA)
    n = o.shape[0] + abs(k)
    r = np.empty((n, n), dtype=object)
    r[...] = _cell(ZERO)
    for i, x in enumerate(o):
        r[i + max(0, -k), i + max(0, k)] = x
    return r.view(SA)


OVER["diagflat"] = lambda v, k=0: _diag(mk(v).ravel(), k)


@over("fill_diagonal")
def _fill_diagonal(a, val, wrap=False):
    n = min(a.shape)
    if isinstance(val, (np.ndarray, list, tuple)) and np.ndim(raw(val)) > 0:
        vs = list(raw(val).ravel())
        for i in range(n):
            a[i, i] = vs[i % len(vs)]
    else:
        for i in range(n):
            a[i, i] = val


@over("einsum")
def _einsum(sub, *ops, **k):
    sub = sub.replace(" ", "")
    A = [_norm(raw(mk(o, float))) for o in ops]
    if "..." in sub:
        raise EngineError("einsum ellipsis")
    if "->" in sub:
        lhs, rhs = sub.split("->")
    else:
        lhs = sub
        cnt = {}
        for c in lhs.replace(",", ""):
            cnt[c] = cnt.get(c, 0) + 1
        rhs = "".join(sorted(c for c in cnt if cnt[c] == 1))
    terms = lhs.split(",")
    dim = {}
    for t, a in zip(terms, A):
        if len(t) != a.ndim:
            raise ValueError("einstein sum subscripts string contains wrong number of subscripts")
        for c, d in zip(t, a.shape):
            if dim.setdefault(c, d) != d:
                raise ValueError("operands could not be broadcast together")
    summ = [c for c in dict.fromkeys("".join(terms)) if c not in rhs]
    res = np.empty(tuple(dim[c] for c in rhs), dtype=object)
    for ix in np.ndindex(res.shape):
        env = dict(zip(rhs, ix))
        acc = ZERO
        for sx in itertools.product(*[range(dim[c]) for c in summ]):
            env.update(zip(summ, sx))
            p = ONE
            for t, a in zip(terms, A):
                p = p * a[tuple(env[c] for c in t)]
            acc = acc + p
        res[ix] = acc
    return res.view(SA) if res.shape else res[()]


@over("array_equal")
def _array_equal(a, b, equal_nan=False):
    a, b = raw(a), raw(b)
    if a.shape != b.shape:
        return False
    return reduce_("logical_and", wrap(_fpf("equal", 2)(a, b), True) if a.shape else
                   mk([ELEM["equal"](a[()], b[()])]), None)


@over("isclose")
def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    d = do_ufunc(np.absolute, "__call__", do_ufunc(np.subtract, "__call__", a, b))
    tol = do_ufunc(np.add, "__call__", atol, do_ufunc(np.multiply, "__call__", rtol,
                                                     do_ufunc(np.absolute, "__call__", b)))
    return do_ufunc(np.less_equal, "__call__", d, tol)


@over("allclose")
def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = _isclose(a, b, rtol, atol)
    return _all(r) if isinstance(r, np.ndarray) else r


@over("round", "around", "round_")
def _round(a, decimals=0, out=None):
    if not isinstance(a, np.ndarray) and not isinstance(a, (list, tuple)):
        return E(a).__round__(decimals)
    o = raw(mk(a, float))
    r = np.empty(o.shape, dtype=object)
    for ix in np.ndindex(o.shape):
        r[ix] = E(o[ix]).__round__(decimals) if type(E(o[ix])) is Sym else o[ix]
    return r.view(SA)


def _argextreme(better):
    def f(a, axis=None, **k):
        o = raw(mk(a))
        if axis is not None and o.ndim > 1:
            m = np.moveaxis(o, axis, -1)
            res = np.empty(m.shape[:-1], dtype=int)
            for ix in np.ndindex(res.shape):
                res[ix] = f(m[ix].view(SA))
            return res
        v = [E(x) for x in o.ravel()]
        bi = 0
        for i in range(1, len(v)):
            if _nn(v[bi]):
                break
            if _nn(v[i]) or bool(better(v[i], v[bi])):
                bi = i
        return bi
    return f


OVER["argmax"] = _argextreme(lambda a, b: a > b)
OVER["argmin"] = _argextreme(lambda a, b: a < b)


@over("argsort")
def _argsort(a, axis=-1, kind=None, **k):
    o = raw(mk(a))
    if o.ndim == 0:
        return np.array([0])
    m = np.moveaxis(o, axis if axis is not None else -1, -1)
    res = np.empty(m.shape, dtype=int)
    for ix in np.ndindex(m.shape[:-1]):
        row = [E(v) for v in m[ix]]
        order: list = []
        for i in range(len(row)):             # stable insertion sort (forks on symbolic order)
            j = len(order)
            while j > 0 and bool(row[i] < row[order[j - 1]]):
                j -= 1
            order.insert(j, i)
        res[ix] = order
    return np.moveaxis(res, -1, axis if axis is not None else -1)


@over("sort")
def _sort(a, axis=-1, kind=None, **k):
    A = mk(a)
    A = A.ravel() if axis is None else A
    o = raw(A)
    ax = -1 if axis is None else axis
    return np.take_along_axis(o, _argsort(A, ax), ax).view(SA)


@over("median")
def _median(a, axis=None, **k):
    A = mk(a)
    if axis is not None and A.ndim > 1:
        m = np.moveaxis(raw(A), axis, -1)
        res = np.empty(m.shape[:-1], dtype=object)
        for ix in np.ndindex(res.shape):
            res[ix] = _median(m[ix].copy().view(SA))
        return res.view(SA)
    s = _sort(A.ravel())
    n = s.size
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


@over("cumsum")
def _cumsum(a, axis=None, **k):
    A = mk(a)
    if not isinstance(A, SA):
        return np.cumsum(A, axis=axis)
    if axis is None:
        A, axis = A.ravel(), 0
    return do_ufunc(np.add, "accumulate", A, axis=axis)


@over("cumprod")
def _cumprod(a, axis=None, **k):
    A = mk(a)
    if not isinstance(A, SA):
        return np.cumprod(A, axis=axis)
    if axis is None:
        A, axis = A.ravel(), 0
    return do_ufunc(np.multiply, "accumulate", A, axis=axis)


@over("cumulative_sum")
def _cumulative_sum(a, axis=None, **k):
    if k.get("include_initial"):
        raise EngineError("cumulative_sum with an initial zero")
    return _cumsum(a, 0 if axis is None else axis)


@over("hstack")
def _hstack(tup, **k):
    arrs = [np.atleast_1d(raw(mk(t))) for t in tup]
    return fix(np.concatenate(arrs, axis=0 if arrs and arrs[0].ndim == 1 else 1))


@over("fromiter")
def _fromiter(it, dtype=float, count=-1, **k):
    vs = list(it)
    return mk(vs if count < 0 else vs[:count], dtype)


@over("select")
def _select(conds, choices, default=0):
    if len(conds) != len(choices):
        raise ValueError("list of cases must be same length as list of conditions")
    res = default
    for c, v in reversed(list(zip(conds, choices))):
        res = OVER["where"](c, v, res)
    return res


@over("finfo")
def _finfo(dtype=None):
    if isinstance(dtype, type) and issubclass(dtype, np.float32):
        return np.finfo(np.float32)
    return np.finfo(float)


@over("vectorize")
class _Vectorize:
    def __init__(self, f=None, otypes=None, excluded=None, signature=None, **k):
        if excluded or signature:
            raise EngineError("vectorize with a signature")
        self.f, self.otypes = f, otypes

    def __call__(self, *a):
        ins = np.broadcast_arrays(*[raw(mk(x)) for x in a])
        vals = [self.f(*[i[ix] for i in ins]) for ix in np.ndindex(ins[0].shape)]
        r = mk(vals)
        return r.reshape(ins[0].shape) if ins[0].shape else r[0]


class _RC:
    def __init__(self, col):
        self.col = col

    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        if any(isinstance(x, str) for x in key):
            raise EngineError("r_ with a directive")
        arrs = []
        for x in key:
            if isinstance(x, slice):
                x = (np.c_ if self.col else np.r_)[x]
            a = np.atleast_1d(raw(mk(x)))
            arrs.append(a[:, None] if self.col and a.ndim == 1 else a)
        return fix(np.concatenate(arrs, axis=-1 if self.col else 0))


OVER["r_"], OVER["c_"] = _RC(False), _RC(True)


@over("polyval")
def _polyval(p, x):
    y = mk(x) * 0 if isinstance(x, np.ndarray) else ZERO
    for c in mk(p):
        y = y * x + c
    return y


@over("matvec")
def _matvec(a, b, **k):
    return matmul(mk(a), mk(b))


@over("percentile")
def _percentile(a, q, axis=None, **k):
    return _quantile(a, (np.asarray(q, dtype=float) / 100 if np.ndim(q) else E(q) / 100), axis, **k)


@over("quantile")
def _quantile(a, q, axis=None, out=None, overwrite_input=False, method="linear", keepdims=False, **k):
    if method != "linear" or keepdims or np.ndim(q):
        raise EngineError("quantile variant")
    q = cval(E(q))
    if q is None:
        raise EngineError("quantile of a symbolic level")
    if not 0 <= q <= 1:
        raise ValueError("Quantiles must be in the range [0, 1]")
    A = mk(a)
    if axis is not None and A.ndim > 1:
        m = np.moveaxis(raw(A), axis, -1)
        res = np.empty(m.shape[:-1], dtype=object)
        for ix in np.ndindex(res.shape):
            res[ix] = _quantile(m[ix].copy().view(SA), q)
        return res.view(SA)
    s = _sort(A.ravel())
    t = Fraction(q) * (s.size - 1)
    i = int(t // 1)
    f = t - i
    return s[i] if f == 0 else s[i] + E(f) * (s[i + 1] - s[i])


@over("diff")
def _diff(a, n=1, axis=-1, prepend=np._NoValue, append=np._NoValue, **k):
    A = mk(a)
    parts = []
    for v in (prepend, A, append):
        if v is np._NoValue:
            continue
        v = raw(mk(v))
        if v.ndim == 0:
            v = np.broadcast_to(v, tuple(1 if i == axis % A.ndim else z for i, z in enumerate(A.shape)))
        parts.append(v)
    if len(parts) > 1:
        A = fix(np.concatenate(parts, axis=axis))
    for _ in range(n):
        m = np.moveaxis(A, axis, 0)
        A = np.moveaxis(m[1:] - m[:-1], 0, axis)
    return A


@over("linspace")
def _linspace(a, b, num=50, endpoint=True, **k):
    num = int(num)
    d = num - 1 if endpoint else num
    a, b = E(a), E(b)
    return mk([a + (b - a) * const(Fraction(i, d)) if d else a for i in range(num)])


@over("isscalar")
def _isscalar(x):
    return isinstance(x, (Sym, SymBool)) or np.isscalar(x)


@over("ndim")
def _ndim(x):
    return 0 if isinstance(x, (Sym, SymBool)) else x.ndim if isinstance(x, np.ndarray) else raw(x).ndim


@over("shape")
def _shape(x):
    return () if isinstance(x, (Sym, SymBool)) else x.shape if isinstance(x, np.ndarray) else raw(x).shape


@over("size")
def _size(x, axis=None):
    return 1 if isinstance(x, (Sym, SymBool)) else int(np.prod(_shape(x), dtype=int))


@over("issubdtype")
def _issub(a, b):
    a = np.dtype(float) if a is object or (isinstance(a, np.dtype) and a == object) else a
    a = {"f": float, "i": int, "b": bool}.get(getattr(a, "_vx_kind", None), a)
    b = {"f": np.floating, "i": np.integer}.get(getattr(b, "_vx_kind", None), b)
    return np.issubdtype(a, b)


@over("real_if_close", "real")
def _real(a, *k, **kw):
    return a


@over("result_type", "promote_types", "common_type")
def _rt(*a):
    return np.dtype(float)


@over("shares_memory", "may_share_memory")
def _shares(a, b, *k, **kw):
    return np.shares_memory(np.asarray(a).view(np.ndarray), np.asarray(b).view(np.ndarray))


@over("float_", "float64", "double", "longdouble")
def _float64(x=0.0):
    if isinstance(x, np.ndarray) and x.shape:
        return mk(x, float)
    return E(x)


@over("isin", "in1d")
def _isin(a, b, **k):
    if isinstance(a, SA):
        raise EngineError("isin on symbolic data")
    return np.isin(a, b, **k)


@over("take_along_axis")
def _taa(a, idx, axis=-1):
    return fix(np.take_along_axis(raw(a), np.asarray(idx), axis))


@over("vander", "polyfit", "interp", "histogram", "fft")
def _nomodel(*a, **k):
    raise EngineError("numpy function outside the model")


@over("savetxt", "loadtxt", "save", "load")
def _noio(*a, **k):
    raise EngineError("numpy I/O is outside the model")


# ------------------------------------------------------------------ linalg
class LinAlgError(np.linalg.LinAlgError):
    pass


LinAlgError = np.linalg.LinAlgError


def _sq(a):
    A = _norm(raw(mk(a, float)))
    if A.ndim < 2:
        raise np.linalg.LinAlgError(f"{A.ndim}-dimensional array given. Array must be at least "
                                    "two-dimensional")
    if A.ndim > 2:
        raise EngineError("stacked linalg operands")
    if A.shape[0] != A.shape[1]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    return A


def _finite(A):
    return all(type(v) is Sym for v in A.ravel())


def _op(A):
    return (A.shape, tuple(A.ravel()))


def _nanm(shape):
    return filled(shape, float("nan"))


def _laarr(name, shape, mats, meta=()):
    r = np.empty(shape, dtype=object)
    for ix in np.ndindex(shape):
        r[ix] = la(name, mats, ix, meta)
    return r.view(SA) if shape else r[()]


def _mode():
    c = Ctx.current
    return getattr(c, "la_mode", "uf") if c is not None else "uf"


def _isconst(A):
    return all(type(v) is Sym and cval(v) is not None for v in A.ravel())


def det_(A):
    n = A.shape[0]
    if n == 0:
        return ONE
    if n == 1:
        return A[0, 0]
    if n == 2:
        return A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
    tot = ZERO
    for j in range(n):
        if cval(A[0, j]) == 0:
            continue
        minor = np.delete(np.delete(A, 0, 0), j, 1)
        t = A[0, j] * det_(minor)
        tot = tot + t if j % 2 == 0 else tot - t
    return tot


def adj_(A):
    n = A.shape[0]
    if n == 1:
        o = np.empty((1, 1), dtype=object)
        o[0, 0] = ONE
        return o
    R = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            m = det_(np.delete(np.delete(A, i, 0), j, 1))
            R[j, i] = m if (i + j) % 2 == 0 else -m
    return R


def _exact_ok(A):
    if _isconst(A) and A.shape[0] <= 6:
        return True
    lim = getattr(Ctx.current, "la_exact_n", 3) if Ctx.current is not None else 3
    return A.shape[0] == 1 or (_mode() == "exact" and A.shape[0] <= lim)


def _blocks(A):
    """Connected components of the (syntactic) non-zero pattern: index lists."""
    n = A.shape[0]
    left, comps = set(range(n)), []
    while left:
        s = [min(left)]
        seen = set(s)
        while s:
            i = s.pop()
            for j in range(n):
                if j not in seen and (cval(A[i, j]) != 0 or cval(A[j, i]) != 0):
                    seen.add(j)
                    s.append(j)
        comps.append(sorted(seen))
        left -= seen
    return comps


@over("inv", table=LINALG)
def _inv(a):
    A = _sq(a)
    n = A.shape[0]
    if n == 0:
        return A.view(SA)
    if not _finite(A):
        if any(isinstance(v, float) and v != v for v in A.ravel()) or True:
            return _nanm(A.shape)
    comps = _blocks(A)
    if len(comps) > 1:
        R = filled((n, n), 0)
        for c in comps:
            R[np.ix_(c, c)] = _inv(A[np.ix_(c, c)].view(SA))
        return R
    if _exact_ok(A):
        d = det_(A)
        if bool(core.eq(d, ZERO)):
            raise np.linalg.LinAlgError("Singular matrix")
        ad = adj_(A)
        r = np.empty((n, n), dtype=object)
        for ix in np.ndindex(n, n):
            r[ix] = core.div(ad[ix], d)
        return r.view(SA)
    if bool(pred("singular", (_op(A),))):
        raise np.linalg.LinAlgError("Singular matrix")
    return _laarr("inv", (n, n), (_op(A),))


@over("solve", table=LINALG)
def _solve(a, b):
    A = _sq(a)
    B = mk(b, float)
    if A.shape[0] != B.shape[0]:
        raise ValueError("solve: Input operand 1 has a mismatch in its core dimension 0")
    return matmul(_inv(A.view(SA)), B)


@over("pinv", table=LINALG)
def _pinv(a, rcond=None, hermitian=False, **k):
    A = _norm(raw(mk(a, float)))
    if A.shape == (1, 1):
        if bool(core.eq(A[0, 0], ZERO)):
            return filled((1, 1), 0)
        return mk([[core.div(ONE, A[0, 0])]])
    if all(cval(v) == 0 for v in A.ravel() if type(v) is Sym):
        return filled(A.shape[::-1], 0)
    return _laarr("pinv", A.shape[::-1], (_op(A),), (str(rcond),))


@over("det", table=LINALG)
def _det(a):
    A = _sq(a)
    if A.shape[0] <= 4 and (_mode() == "exact" or A.shape[0] == 1 or _isconst(A)):
        return det_(A)
    return la("det", (_op(A),), ())


@over("slogdet", table=LINALG)
def _slogdet(a):
    A = _sq(a)
    n = A.shape[0]
    if not _finite(A):
        return SlogdetResult(float("nan"), float("nan"))
    if n == 0:
        return SlogdetResult(ONE, ZERO)
    # slogdet(inv(B)) = (sign, -logabsdet(B))
    e0 = A[0, 0]
    if e0.op == "la" and e0.args[0] == "inv":
        ok = all(A[i, j].op == "la" and A[i, j].args[0] == "inv" and A[i, j].args[2] == (i, j)
                 and A[i, j].args[1] == e0.args[1] for i in range(n) for j in range(n))
        if ok:
            shp, ent = e0.args[1][0]
            B = np.empty(shp, dtype=object)
            B.reshape(-1)[...] = np.array(ent, dtype=object)
            s, l = _slogdet(B.view(SA))
            return SlogdetResult(s, -l if isinstance(l, Sym) else -l)
    comps = _blocks(A)
    if len(comps) > 1:
        s, l = ONE, ZERO
        for c in comps:
            s1, l1 = _slogdet(A[np.ix_(c, c)].view(SA))
            s, l = s * s1, l + l1
        return SlogdetResult(s, l)
    if _exact_ok(A):
        d = det_(A)
        if bool(core.eq(d, ZERO)):
            return SlogdetResult(ZERO, float("-inf"))
        if bool(core.lt(ZERO, d)):
            return SlogdetResult(ONE, core.log(d))
        return SlogdetResult(const(-1), core.log(-d))
    return SlogdetResult(la("slogdet_sign", (_op(A),), ()), la("logabsdet", (_op(A),), ()))


class SlogdetResult(tuple):
    def __new__(cls, s, l):
        return tuple.__new__(cls, (s, l))

    sign = property(lambda s: s[0])
    logabsdet = property(lambda s: s[1])


class EighResult(SlogdetResult):
    eigenvalues = property(lambda s: s[0])
    eigenvectors = property(lambda s: s[1])


class SVDResult(tuple):
    U = property(lambda s: s[0])
    S = property(lambda s: s[1])
    Vh = property(lambda s: s[2])


@over("cholesky", table=LINALG)
def _cholesky(a, *k, **kw):
    A = _sq(a)
    n = A.shape[0]
    if not _finite(A):
        raise np.linalg.LinAlgError("Matrix is not positive definite")
    ctx = Ctx.current
    if _exact_ok(A):
        L = filled((n, n), 0)
        for j in range(n):
            s = A[j, j]
            for k_ in range(j):
                s = s - L[j, k_] * L[j, k_]
            q = s
            if ctx is not None and (ctx.eig_known or ctx.eig_closed):      # the leading minor has the same sign
                q = _tidy(det_(A[:j + 1, :j + 1]))
            if not bool(core.lt(ZERO, q)):
                raise np.linalg.LinAlgError("Matrix is not positive definite")
            L[j, j] = core.sqrt(s)
            for i in range(j + 1, n):
                t = A[i, j]
                for k_ in range(j):
                    t = t - L[i, k_] * L[j, k_]
                L[i, j] = core.div(t, L[j, j])
        return L
    low = np.array([A[i, j] if i >= j else A[j, i] for i in range(n) for j in range(n)],
                   dtype=object).reshape(n, n)
    if not bool(pred("posdef", (_op(low),))):
        raise np.linalg.LinAlgError("Matrix is not positive definite")
    r = filled((n, n), 0)
    for i in range(n):
        for j in range(i + 1):
            r[i, j] = la("chol", (_op(low),), (i, j))
    return r


def _symlow(A, uplo="L"):
    n = A.shape[0]
    S = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            S[i, j] = A[max(i, j), min(i, j)] if uplo == "L" else A[min(i, j), max(i, j)]
    return S


HALF = const(Fraction(1, 2))


def _tidy(t):
    """The same term, rebuilt from its normal form where that has no composite denominator."""
    from vx import lower, poly
    try:
        return lower.to_sym(poly.nf(t))
    except (KeyError, EngineError, poly.TooBig):
        return t


def _eig_by(A, ctx):
    """The spectrum of V D V^T for a known orthogonal V (V^T A V is diagonal, by normal form)."""
    from vx import poly
    n = A.shape[0]
    known = list(ctx.eig_known)
    if ctx.eig_closed:
        known.insert(0, [[ONE if i == j else ZERO for j in range(n)] for i in range(n)])
    for V in known:
        if len(V) != n:
            continue
        try:
            B = [[sum((A[i, k] * V[k][j] for k in range(n)), ZERO) for j in range(n)] for i in range(n)]
            D = [[sum((V[k][i] * B[k][j] for k in range(n)), ZERO) for j in range(n)] for i in range(n)]
            if any(poly.nf(D[i][j]) for i in range(n) for j in range(n) if i != j):
                continue
        except (EngineError, poly.TooBig):
            continue
        d = [_tidy(D[i][i]) for i in range(n)]
        o = list(range(n))
        for _ in range(n):            # bubble sort, forking on order
            for k in range(n - 1):
                gap = core.lower_bound(_tidy(d[o[k + 1]] - d[o[k]]))
                if (gap is None or gap < 0) and not bool(core.le(d[o[k]], d[o[k + 1]])):
                    o[k], o[k + 1] = o[k + 1], o[k]
        return mk([d[k] for k in o]), mk([[V[i][k] for k in o] for i in range(n)])
    return None


def _eig_closed(A, ctx):
    """Closed form of the 2 x 2 spectrum."""
    from vx import poly
    a, b, d = (_tidy(v) for v in (A[0, 0], A[1, 0], A[1, 1]))
    if bool(core.eq(b, ZERO)):
        if bool(core.le(a, d)):
            return mk([a, d]), mk([[ONE, ZERO], [ZERO, ONE]])
        return mk([d, a]), mk([[ZERO, ONE], [ONE, ZERO]])
    e = d - a
    r = core.sqrt(e * e + b * b * 4)
    ctx.guard(core.lt(ZERO, r))
    ctx.guard(core.lt(ZERO, r + e))
    ctx.guard(core.lt(ZERO, r - e))
    c, s = core.sqrt(core.div(r + e, r * 2)), core.sqrt(core.div(r - e, r * 2))
    up = bool(core.lt(ZERO, b))
    poly.product_of_roots(c, s, core.div(b if up else -b, r))
    if up:
        s = -s
    return mk([(a + d - r) * HALF, (a + d + r) * HALF]), mk([[c, -s], [s, c]])


def _eig_sym(A):
    """(w, V) for a symmetric object matrix."""
    n = A.shape[0]
    if n == 1:
        return mk([A[0, 0]]), mk([[ONE]])
    ctx = Ctx.current
    if ctx is not None and (ctx.eig_known or ctx.eig_closed):
        got = _eig_by(A, ctx)
        if got is not None:
            return got
    if ctx is not None and ctx.eig_closed and n == 2:
        return _eig_closed(A, ctx)
    if _mode() == "exact" and ctx is not None and n <= getattr(ctx, "la_exact_n", 3):
        memo = ctx.__dict__.setdefault("eig_memo", {})
        key = tuple(v.id for v in A.ravel())
        if key not in memo:
            hook = ctx.__dict__.get("eig_hook")
            got = hook(A) if hook else None
            if got is None:
                w = [ctx.fresh("eigval") for _ in range(n)]
                if n == 2:
                    c, s = ctx.fresh("eigc"), ctx.fresh("eigs")
                    V = [[c, -s], [s, c]]
                    ctx.contract(core.eq(c * c + s * s, ONE))
                else:
                    V = [[ctx.fresh("eigvec") for _ in range(n)] for _ in range(n)]
                    for i in range(n):
                        for j in range(i, n):
                            t = ZERO
                            for k in range(n):
                                t = t + V[k][i] * V[k][j]
                            ctx.contract(core.eq(t, ONE if i == j else ZERO))
                for i in range(n - 1):
                    ctx.contract(core.le(w[i], w[i + 1]))
                for i in range(n):
                    for j in range(i, n):
                        t = ZERO
                        for k in range(n):
                            t = t + V[i][k] * w[k] * V[j][k]
                        ctx.contract(core.eq(A[i, j], t))
                got = (w, V)
            memo[key] = got
        w, V = memo[key]
        return mk(list(w)), mk([list(r) for r in V])
    from vx import poly
    nfs = [[poly.nf(A[i, j]) for j in range(n)] for i in range(n)]
    if all(not nfs[i][j] for i in range(n) for j in range(n) if i != j) and \
            all(set(nfs[i][i]) <= {()} for i in range(n)):      # a constant diagonal: its own spectrum
        d = [nfs[i][i].get((), 0) for i in range(n)]
        o = sorted(range(n), key=lambda i: d[i])
        return mk([A[i, i] for i in o]), mk([[ONE if o[k] == i else ZERO for k in range(n)] for i in range(n)])
    op = (_op(A),)
    w = _laarr("eigval", (n,), op)
    V = _laarr("eigvec", (n, n), op)
    return w, V


@over("eigh", table=LINALG)
def _eigh(a, UPLO="L"):
    A = _sq(a)
    if not _finite(A):
        return EighResult(_nanm(A.shape[:1]), _nanm(A.shape))
    return EighResult(*_eig_sym(_symlow(A, UPLO)))


@over("eigvalsh", table=LINALG)
def _eigvalsh(a, UPLO="L"):
    A = _sq(a)
    if not _finite(A):
        return _nanm(A.shape[:1])
    return _eig_sym(_symlow(A, UPLO))[0]


def _is_sym(A):
    from vx import poly
    n = A.shape[0]
    return all(A[i, j] is A[j, i] or poly.same(A[i, j], A[j, i]) for i in range(n) for j in range(i))


@over("eigvals", table=LINALG)
def _eigvals(a):
    A = _sq(a)
    if not _finite(A):
        return _nanm(A.shape[:1])
    if not _is_sym(A):
        return _laarr("eigvals_g", (A.shape[0],), (_op(A),))
    return _eig_sym(_symlow(A))[0]


@over("eig", table=LINALG)
def _eig(a):
    A = _sq(a)
    if not _is_sym(A):
        raise EngineError("eig of a non-symmetric matrix")
    return EighResult(*_eig_sym(_symlow(A)))


@over("svd", table=LINALG)
def _svd(a, full_matrices=True, compute_uv=True, hermitian=False):
    A = _norm(raw(mk(a, float)))
    if not _finite(A):
        raise np.linalg.LinAlgError("SVD did not converge")
    if A.shape[0] != A.shape[1] or not _is_sym(A):
        raise EngineError("svd of a non-symmetric matrix")
    # symmetric: A = V diag(w) V^T  =>  U = V sign(w), s = |w|, Vh = V^T   (s unsorted: no use of
    # the order is modelled)
    w, V = _eig_sym(_symlow(A))
    s = do_ufunc(np.absolute, "__call__", w)
    if not compute_uv:
        return s
    sg = do_ufunc(np.sign, "__call__", w)
    return SVDResult((V * sg, s, V.T))


@over("norm", table=LINALG)
def _norm2(x, ord=None, axis=None, keepdims=False):
    X = mk(x, float)
    if ord in (None, 2, "fro") and not (ord == 2 and X.ndim == 2 and axis is None):
        if axis is None:
            return core.sqrt(lift(reduce_("add", X * X, None)))
        return do_ufunc(np.sqrt, "__call__", reduce_("add", X * X, axis, keepdims))
    if ord == 1 and X.ndim == 1:
        return reduce_("add", do_ufunc(np.absolute, "__call__", X), None)
    if ord in (np.inf,) and X.ndim == 1:
        return reduce_("maximum", do_ufunc(np.absolute, "__call__", X), None)
    raise EngineError(f"norm ord={ord}")


@over("matrix_rank", table=LINALG)
def _rank(*a, **k):
    raise EngineError("matrix_rank")


@over("cond", table=LINALG)
def _cond(a, p=None):
    A = _sq(a)
    return la("cond", (_op(A),), (), (str(p),))


@over("matrix_power", table=LINALG)
def _mpow(a, n):
    A = mk(a, float)
    if n < 0:
        return _mpow(_inv(A), -n)
    R = _eye(A.shape[0])
    for _ in range(n):
        R = matmul(R, A)
    return R


@over("multi_dot", table=LINALG)
def _multi_dot(arrs, **k):
    r = mk(arrs[0], float)
    for a in arrs[1:]:
        r = matmul(r, mk(a, float))
    return r


@over("lstsq", "qr", table=LINALG)
def _nola(*a, **k):
    raise EngineError("linalg function outside the model")


# ------------------------------------------------------------------ the module object
PI = core.var("pi")


class _Linalg(types.ModuleType):
    def __getattr__(self, name):
        if name in LINALG:
            return LINALG[name]
        return getattr(np.linalg, name)


class _Random(types.ModuleType):
    def __getattr__(self, name):
        raise EngineError("np.random is outside the model")


class _Npx(types.ModuleType):
    """Looks like numpy to the code under test."""

    def __getattr__(self, name):
        if name in OVER:
            f = OVER[name]
            if name in ("float64", "double"):
                return FLOAT64
            return f
        if name == "linalg":
            return linalg_module
        if name == "random":
            return random_module
        if name == "pi":
            return PI
        if name in ("nan", "NaN"):
            return float("nan")
        if name in ("inf", "Inf"):
            return float("inf")
        if name == "e":
            return core._mk(Sym, "exp", (ONE,))
        real = getattr(np, name)
        if isinstance(real, np.ufunc):
            return _Ufunc(real)
        if isinstance(real, (types.FunctionType, types.BuiltinFunctionType)) or \
                type(real).__name__ == "_ArrayFunctionDispatcher":
            return _generic(real)
        return real


class _Ufunc:
    """np.<ufunc> that also accepts bare Syms and numeric scalars."""

    def __init__(self, u):
        self._u = u
        self.__name__ = u.__name__

    def __call__(self, *a, **k):
        if self._plain(a):
            if self._u.__name__ in ("sqrt", "log", "exp", "true_divide", "divide", "power") or \
                    any(isinstance(x, (float, np.floating, Fraction)) or
                        (isinstance(x, np.ndarray) and x.dtype.kind == "f") for x in a):
                return do_ufunc(self._u, "__call__", *a, **k)
            return self._u(*a, **k)
        return do_ufunc(self._u, "__call__", *[x if not isinstance(x, (list, tuple)) else mk(x)
                                               for x in a], **k)

    @staticmethod
    def _plain(a):
        return all((isinstance(x, np.ndarray) and not isinstance(x, SA) and x.dtype != object) or
                   isinstance(x, (int, float, np.generic)) for x in a)

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, initial=None, where=True):
        if isinstance(a, np.ndarray) and not isinstance(a, SA):
            return self._u.reduce(a, axis=axis)
        return reduce_(self._u.__name__, mk(a), axis, keepdims, initial, where, out)

    def outer(self, a, b, **k):
        return do_ufunc(self._u, "outer", mk(a), mk(b))

    def accumulate(self, a, axis=0, **k):
        return do_ufunc(self._u, "accumulate", mk(a), axis=axis)

    def at(self, a, idx, *b):
        return do_ufunc(self._u, "at", a, idx, *b)

    def __getattr__(self, n):
        return getattr(self._u, n)


def _generic(real):
    def f(*a, **k):
        def cv(x):
            if isinstance(x, (list, tuple)) and any(isinstance(e, (Sym, SymBool, SA)) for e in x):
                if all(isinstance(e, (Sym, SymBool)) or is_num(e) for e in x):
                    return mk(x)
                return type(x)(cv(e) for e in x)
            return x
        k.pop("dtype", None) if real.__name__ not in ("arange",) else None
        if real.__name__ == "arange":
            a = tuple(x.__index__() if isinstance(x, Sym) else x for x in a)
            if "dtype" in k and _kind(k["dtype"]) == "f":
                k.pop("dtype")
                return cast_array(np.arange(*a, **k), float)
            if "dtype" in k:
                k.pop("dtype")
            r = np.arange(*a, **k)
            return r if r.dtype.kind == "i" else cast_array(r, float)
        r = real(*[cv(x) for x in a], **k)
        return fix(r)
    f.__name__ = getattr(real, "__name__", "f")
    return f


class _Float64Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (Sym, np.float64, float))

    def __call__(cls, x=0.0):
        return _float64(x)


class FLOAT64(metaclass=_Float64Meta):
    _vx_kind = "f"
    dtype = _f8


linalg_module = _Linalg("numpy.linalg")
random_module = _Random("numpy.random")
module = _Npx("numpy")
module.__path__ = []
module.ndarray = np.ndarray
module.linalg = linalg_module


def _sym_ufunc(self, ufunc, method, *inputs, **kw):
    return do_ufunc(ufunc, method, *inputs, **kw)


def _sym_array(self, dtype=None, copy=None):
    a = np.empty((), dtype=object)
    a[()] = self
    return a


Sym.__array_ufunc__ = _sym_ufunc
SymBool.__array_ufunc__ = _sym_ufunc
Sym.dtype = property(lambda s: _f8)


# ------------------------------------------------------------------ math / statistics stand-ins
class _Math(types.ModuleType):
    _map = {"sqrt": e_sqrt, "log": None, "exp": e_exp, "fabs": e_abs, "floor": None, "ceil": None,
            "isnan": e_isnan, "isinf": e_isinf, "isfinite": e_isfinite, "pow": e_pow,
            "log1p": e_log1p, "hypot": e_hypot, "trunc": None}

    def __getattr__(self, name):
        if name == "pi":
            return PI
        if name == "e":
            return core._mk(Sym, "exp", (ONE,))
        if name in ("inf", "nan"):
            return getattr(math, name)
        if name == "log":
            def log(x, base=None):
                r = _mlog(x)
                return r if base is None else e_div(r, _mlog(base))
            return log
        if name in ("floor", "ceil", "trunc"):
            fn = {"floor": e_floor, "ceil": e_ceil, "trunc": e_trunc}[name]

            def fl(x):
                if isinstance(x, int):
                    return x
                r = fn(x)
                if type(r) is float:
                    raise OverflowError("cannot convert float infinity/NaN to integer")
                return core.to_int(r)
            return fl
        if name == "sqrt":
            def msqrt(x):
                x = E(x)
                if type(x) is Sym and bool(core.lt(x, ZERO)):
                    raise ValueError("math domain error")
                return e_sqrt(x)
            return msqrt
        if name == "isclose":
            return lambda a, b, rel_tol=1e-9, abs_tol=0.0: e_abs(e_sub(a, b)) <= e_max(
                e_mul(rel_tol, e_max(e_abs(a), e_abs(b))), abs_tol)
        if name in ("fsum", "prod", "sumprod", "copysign"):
            return {"fsum": lambda it: _sum(list(it)), "prod": lambda it: _prod(list(it)),
                    "sumprod": lambda a, b: _sum([x * y for x, y in zip(a, b)]),
                    "copysign": ELEM["copysign"]}[name]
        if name in self._map:
            return self._map[name]
        real = getattr(math, name)

        def guard(*a):
            if any(isinstance(x, Sym) and cval(x) is None for x in a):
                raise EngineError(f"math.{name} on symbolic data")
            return real(*[(int(x) if cval(x).denominator == 1 else float(x)) if isinstance(x, Sym)
                          else x for x in a])
        return guard


def _mlog(x):
    x = E(x)
    if type(x) is Sym and bool(core.le(x, ZERO)):
        raise ValueError("math domain error")
    return e_log(x)


math_module = _Math("math")


class _Statistics(types.ModuleType):
    """The handful of statistics functions that mean anything for numbers of this kind."""

    def __getattr__(self, name):
        def data(it):
            vs = [E(v) for v in it]
            if not vs:
                import statistics
                raise statistics.StatisticsError(f"{name} requires at least one data point")
            return vs

        def var(it, ddof, mu=None):
            vs = data(it)
            m = E(mu) if mu is not None else e_div(_sum(vs), len(vs))
            return e_div(_sum([e_mul(e_sub(v, m), e_sub(v, m)) for v in vs]), len(vs) - ddof)
        if name in ("mean", "fmean"):
            return lambda it, weights=None: (
                e_div(_sum(data(it)), len(data(it))) if weights is None else
                e_div(_sum([e_mul(v, k) for v, k in zip(it, weights)]), _sum(data(weights))))
        if name in ("variance", "pvariance"):
            return lambda it, mu=None: var(it, 1 if name == "variance" else 0, mu)
        if name in ("stdev", "pstdev"):
            return lambda it, mu=None: e_sqrt(var(it, 1 if name == "stdev" else 0, mu))
        if name == "median":
            return lambda it: OVER["median"](data(it))
        import statistics
        if name == "StatisticsError":
            return statistics.StatisticsError
        raise EngineError(f"statistics.{name} is outside the model")


statistics_module = _Statistics("statistics")
