"""Arrays of symbolic scalars and the numpy shim seen by the code under test."""
import builtins
import itertools
import math
from fractions import Fraction

import numpy as np

from . import poly as P
from .poly import T
from .scalar import (
    HOLD, S, SBool, ZERO, ONE, IMAG, HALF, Unsupported, isb, bnot, band, bor, eqf, ltf, tos, sqrt, exp, log, cos, sin,
    sabs, uf, pi, expi, ctx,
)
from . import scalar as SC
from . import access as ACC


class LD:
    """logical dtype of a symbolic array"""

    RANK = {"bool": 0, "int": 1, "float": 2, "complex": 3, "object": 4}
    SIZE = {"bool": 1, "int": 8, "float": 8, "complex": 16, "object": 8}

    def __init__(self, kind):
        self.name_ = kind

    @property
    def kind(self):
        return {"bool": "b", "int": "i", "float": "f", "complex": "c", "object": "O"}[self.name_]

    @property
    def name(self):
        return {"bool": "bool", "int": "int64", "float": "float64", "complex": "complex128", "object": "object"}[self.name_]

    @property
    def itemsize(self):
        return LD.SIZE[self.name_]

    @property
    def type(self):
        return DT[self.name_]

    def __call__(self, x=0):
        return DT[self.name_](x)

    def __eq__(self, o):
        k = ldkind(o, strict=False)
        return k is not None and k == self.name_

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.name_)

    def __repr__(self):
        return "dtype(%s)" % self.name


def ldkind(dt, strict=True):
    """logical kind of any dtype-like"""
    if dt is None:
        return "float"
    if isinstance(dt, LD):
        return dt.name_
    k = getattr(dt, "_ldkind", None)
    if k is not None:
        return k
    if dt is builtins.int or dt is _myint:
        return "int"
    if dt is builtins.float or dt is _myfloat:
        return "float"
    if dt is builtins.complex or dt is _mycomplex:
        return "complex"
    if dt is builtins.bool:
        return "bool"
    if dt is builtins.object:
        return "object"
    if isinstance(dt, type) and issubclass(dt, S):
        return "float"
    try:
        d = np.dtype(dt)
    except TypeError:
        if strict:
            raise Unsupported("dtype %r" % (dt,))
        return None
    return {"b": "bool", "i": "int", "u": "int", "f": "float", "c": "complex", "O": "object"}.get(d.kind)


class _DTMeta(type):
    def __instancecheck__(cls, x):
        if cls._ldkind == "float":
            return isinstance(x, np.floating) or (type(x) is S and not x.has_I())
        if cls._ldkind == "complex":
            return isinstance(x, np.complexfloating) or (type(x) is S and x.has_I())
        if cls._ldkind == "int":
            return isinstance(x, np.integer)
        return isinstance(x, np.bool_)

    def __eq__(cls, o):
        return ldkind(o, strict=False) == cls._ldkind

    def __hash__(cls):
        return hash(cls._ldkind)

    def __call__(cls, x=0):
        if isinstance(x, (np.ndarray, list, tuple)) and not (isinstance(x, np.ndarray) and x.ndim == 0):
            return castarr(asS(x), cls._ldkind)
        return cast(x, cls._ldkind)


def _mkdt(name, kind):
    return _DTMeta(name, (), {"_ldkind": kind})


DT = {
    "float": _mkdt("float64", "float"),
    "complex": _mkdt("complex128", "complex"),
    "int": _mkdt("int64", "int"),
    "bool": _mkdt("bool_", "bool"),
}
DT["object"] = object


def cast(x, kind):
    if kind == "float":
        s = tos(x)
        return s.real if s.has_I() else s
    if kind == "complex":
        return tos(x)
    if kind == "int":
        if type(x) is S:
            if x.is_int() and x.const() is None:
                return x
            c = x.const()
            if c is not None:
                return tos(int(c))
            return SC.trunc(x)
        return int(x)
    if kind == "bool":
        return bool(x)
    return x


def castarr(a, kind):
    if kind in ("int", "bool"):
        vals = [cast(x, kind) for x in a.ravel().tolist_raw()]
        if all(not (type(v) is S and v.const() is None) for v in vals):
            r = np.array([int(v) for v in vals], dtype=np.int64 if kind == "int" else bool).reshape(a.shape)
            return r
        r = mkarr(a.shape, [tos(v) for v in vals], "int")
        return r
    if kind == "float":
        return mkarr(a.shape, [tos(x).real for x in a.ravel().tolist_raw()], "float")
    if kind == "complex":
        return mkarr(a.shape, [tos(x) for x in a.ravel().tolist_raw()], "complex")
    return a.copy()


class SArr(np.ndarray):
    """object ndarray of S with a logical dtype"""

    _ld = None

    def __array_finalize__(self, obj):
        if obj is not None:
            self._ld = getattr(obj, "_ld", None)

    @property
    def dtype(self):
        if self._ld is None:
            k = "float"
            allint = self.size > 0
            for x in np.ndarray.ravel(np.asarray(self)):
                if type(x) is S:
                    if x.has_I():
                        k = "complex"
                        break
                    if allint and not (x.is_int()):
                        allint = False
                elif isinstance(x, SBool) or isb(x):
                    return LD("bool")
            else:
                pass
            return LD(k)
        return LD(self._ld)

    @dtype.setter
    def dtype(self, v):
        pass

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.size * self.itemsize

    def tolist_raw(self):
        return [x for x in np.asarray(self).reshape(-1)]

    def tolist(self):
        return np.asarray(self).tolist()

    @property
    def real(self):
        return mapS(lambda x: x.real, self, "float")

    @real.setter
    def real(self, v):
        a = np.asarray(self)
        b = np.broadcast_to(np.asarray(asS(v)), a.shape)
        for ix in np.ndindex(*a.shape):
            a[ix] = tos(b[ix]).real + IMAG * tos(a[ix]).imag

    @property
    def imag(self):
        return mapS(lambda x: x.imag, self, "float")

    @imag.setter
    def imag(self, v):
        a = np.asarray(self)
        b = np.broadcast_to(np.asarray(asS(v)), a.shape)
        for ix in np.ndindex(*a.shape):
            a[ix] = tos(a[ix]).real + IMAG * tos(b[ix]).real

    def conj(self):
        return mapS(lambda x: x.conjugate(), self)

    conjugate = conj

    def astype(self, dt, **kw):
        k = ldkind(dt)
        return castarr(self, k)

    def view(self, *a, **k):
        return np.ndarray.view(self, *a, **k)

    def copy(self, order="C"):
        if ACC.ACTIVE is not None:
            ACC.ACTIVE.read(self)
        return np.ndarray.copy(self)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return NP.sum(self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, **kw):
        return NP.prod(self, axis=axis)

    def mean(self, axis=None, **kw):
        return NP.mean(self, axis=axis)

    def all(self, axis=None, **kw):
        return NP.all(self, axis=axis)

    def any(self, axis=None, **kw):
        return NP.any(self, axis=axis)

    def max(self, axis=None, **kw):
        return NP.max(self, axis=axis)

    def min(self, axis=None, **kw):
        return NP.min(self, axis=axis)

    def trace(self, *a, **k):
        return NP.trace(self, *a, **k)

    def dot(self, o):
        return NP.dot(self, o)

    def round(self, d=0):
        return mapS(lambda x: tos(round(x, d)), self)

    def sort(self, axis=-1, **k):
        np.asarray(self)[...] = np.asarray(NP.sort(self, axis=axis))

    def argsort(self, axis=-1, **k):
        return NP.argsort(self, axis=axis)

    def item(self, *a):
        return np.asarray(self).item(*a)

    def __getitem__(self, ix):
        ix = fixindex(ix)
        r = np.ndarray.__getitem__(self, ix)
        if ACC.ACTIVE is not None:
            ACC.ACTIVE.read(self, ix, r)
        return r

    def __setitem__(self, ix, v):
        ix = fixindex(ix)
        if ACC.ACTIVE is not None:
            ACC.ACTIVE.write(self, ix)
        k = self._ld
        if k == "int":
            v = castarr(asS(v), "int") if isinstance(v, (np.ndarray, list, tuple)) and len(_shp(v)) else tos(cast(v, "int"))
            if isinstance(v, np.ndarray):
                v = asS(np.asarray(v))
        if isinstance(v, np.ndarray):
            if v.ndim == 0:
                v = tos(v.item())
            else:
                v = asS(v)
                if k == "float" and any(type(x) is S and x.has_I() for x in v.tolist_raw()):
                    v = v.real
        elif isinstance(v, (list, tuple)):
            v = asS(v)
        elif isinstance(v, SBool) or isb(v):
            if k not in ("bool", None):
                v = tos(v)
        else:
            v = tos(v)
            if k == "float" and v.has_I():
                raise TypeError("complex assigned into a real array")
        np.ndarray.__setitem__(self, ix, v)

    def __array_ufunc__(self, uf_, method, *inputs, **kwargs):
        return ufunc_dispatch(uf_, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return function_dispatch(func, args, kwargs)

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous")
        return bool(np.asarray(self).reshape(-1)[0])

    def __iadd__(self, o):
        return inplace(self, o, lambda a, b: a + b)

    def __isub__(self, o):
        return inplace(self, o, lambda a, b: a - b)

    def __imul__(self, o):
        return inplace(self, o, lambda a, b: a * b)

    def __itruediv__(self, o):
        return inplace(self, o, lambda a, b: a / b)

    def __repr__(self):
        return "SArr(%s,%s)" % (self.shape, self.dtype)

    __str__ = __repr__


def inplace(a, o, f):
    run = ACC.ACTIVE
    if run is not None:
        if isinstance(o, SArr):
            run.read(o)
        run.update(a)
        run.mute += 1
    r = f(np.ndarray.view(a, SArr), o)
    if run is not None:
        run.mute -= 1
    if isinstance(r, np.ndarray) and r.shape != a.shape:
        r = np.broadcast_to(r, a.shape)
    k = a._ld
    if k == "int" and isinstance(r, SArr) and r._ld in ("float", "complex"):
        raise TypeError("Cannot cast ufunc output from %s to int" % r._ld)
    if k == "float" and isinstance(r, np.ndarray) and any(type(x) is S and x.has_I() for x in np.asarray(r).reshape(-1)):
        raise TypeError("Cannot cast ufunc output from complex to float")
    np.asarray(a)[...] = np.asarray(r)
    return a


def fixindex(ix):
    if isinstance(ix, tuple):
        return tuple(fixindex(i) for i in ix)
    if type(ix) is S:
        return ix.__index__()
    if isinstance(ix, slice):
        f = lambda v: v.__index__() if type(v) is S else (v if v is None or not isinstance(v, float) else int(v))
        return slice(f(ix.start), f(ix.stop), f(ix.step))
    if isinstance(ix, list):
        return [fixindex(i) for i in ix]
    if isinstance(ix, SArr):
        flat = ix.tolist_raw()
        if any(isinstance(x, SBool) or isb(x) for x in flat):
            return np.array([bool(x) for x in flat], dtype=bool).reshape(ix.shape)
        if ix._ld in ("float", "complex"):
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        return np.array([operator_index(x) for x in flat], dtype=int).reshape(ix.shape)
    return ix


def operator_index(x):
    return x.__index__()


class GArr(np.ndarray):
    """plain numeric array whose symbolic indexing is supported (int / bool data)"""


def mkarr(shape, vals, ld=None):
    a = np.empty(shape, dtype=object)
    f = a.reshape(-1)
    for i, v in enumerate(vals):
        f[i] = v
    r = a.view(SArr)
    r._ld = ld
    return r


def full(shape, v, ld):
    a = np.empty(shape, dtype=object)
    a.fill(v)
    r = a.view(SArr)
    r._ld = ld
    return r


def _has_sym(x, depth=0):
    if isinstance(x, (S, SBool, SArr)):
        return True
    if isinstance(x, (list, tuple)) and depth < 5:
        return any(_has_sym(y, depth + 1) for y in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return True
    return False


def asS(x):
    """anything array-like -> SArr"""
    if isinstance(x, SArr):
        if ACC.ACTIVE is not None:
            ACC.ACTIVE.read(x)
        return x
    if isinstance(x, (S, SBool)) or isb(x) or isinstance(x, (int, float, complex, Fraction, np.number)):
        return mkarr((), [x if isinstance(x, SBool) else tos(x)])
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            a = mkarr(x.shape, [y if isinstance(y, SBool) else tos(y) for y in x.reshape(-1)])
            return a
        ld = {"b": "bool", "i": "int", "u": "int", "f": "float", "c": "complex"}[x.dtype.kind]
        if ld == "bool":
            return mkarr(x.shape, [bool(y) for y in x.reshape(-1)], "bool")
        return mkarr(x.shape, [tos(y) for y in x.reshape(-1)], None if ld in ("int",) else ld)
    if isinstance(x, (list, tuple)) or hasattr(x, "__iter__"):
        x = list(x)
        parts = [asS(y) for y in x]
        if not parts:
            return mkarr((0,), [], "float")
        sh = parts[0].shape
        if any(p.shape != sh for p in parts):
            raise ValueError("inhomogeneous shape")
        vals = []
        for p in parts:
            vals.extend(p.tolist_raw())
        return mkarr((len(parts),) + sh, vals)
    raise Unsupported("asarray of %r" % type(x))


def _shp(a):
    if isinstance(a, np.ndarray):
        return a.shape
    if isinstance(a, (list, tuple)):
        return asS(a).shape if _has_sym(a) else np.shape(a)
    if isinstance(a, (S, SBool)):
        return ()
    return np.shape(a)


def unwrap(r):
    """0-d arrays -> scalars, object ndarrays -> SArr"""
    if isinstance(r, np.ndarray):
        if r.dtype == object or isinstance(r, SArr):
            if r.ndim == 0:
                return np.asarray(r).item()
            if not isinstance(r, SArr):
                r = r.view(SArr)
                r._ld = None
            return r
        return r
    if isinstance(r, tuple):
        return tuple(unwrap(x) for x in r)
    return r


def obj(x):
    """-> plain object ndarray (for numpy C code)"""
    if isinstance(x, SArr):
        return np.asarray(x)
    if isinstance(x, (S, SBool)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, (list, tuple)) and _has_sym(x):
        return np.asarray(asS(x))
    if isinstance(x, np.ndarray) and x.dtype != object and x.dtype.kind in "fc":
        return np.asarray(asS(x))
    if isinstance(x, np.ndarray) and x.dtype != object and x.dtype.kind in "iub":
        return np.asarray(asS(x)) if x.dtype.kind != "b" else x
    return x


def mapS(f, a, ld=None):
    if isinstance(a, (S,)):
        return f(a)
    if isinstance(a, (int, float, complex, np.number, Fraction)):
        return f(tos(a))
    a = asS(a)
    if a.ndim == 0:
        return f(tos(a.item()))
    return mkarr(a.shape, [f(tos(x)) for x in a.tolist_raw()], ld)


def bmap2(f, a, b):
    a, b = np.asarray(asS(a)), np.asarray(asS(b))
    a, b = np.broadcast_arrays(a, b)
    if a.ndim == 0:
        return f(a.item(), b.item())
    out = np.empty(a.shape, dtype=object)
    o = out.reshape(-1)
    for i, (x, y) in enumerate(zip(a.reshape(-1), b.reshape(-1))):
        o[i] = f(x, y)
    r = out.view(SArr)
    r._ld = None
    if out.size and all(isb(x) for x in o):
        return np.array([bool(x) for x in o]).reshape(out.shape)
    return r


_UN = {
    np.sqrt: sqrt, np.exp: exp, np.log: log, np.cos: cos, np.sin: sin, np.absolute: sabs, np.negative: lambda x: -x,
    np.positive: lambda x: x, np.conjugate: lambda x: x.conjugate(), np.square: lambda x: x * x,
    np.reciprocal: lambda x: ONE / x, np.cosh: SC.cosh, np.sinh: SC.sinh, np.tanh: SC.tanh, np.tan: lambda x: sin(x) / cos(x),
    np.sign: SC.sgn, np.floor: lambda x: x.floor(), np.ceil: lambda x: x.ceil(), np.rint: lambda x: tos(round(x)),
    np.arctan: lambda x: x.arctan(), np.arccos: lambda x: x.arccos(), np.arcsin: lambda x: x.arcsin(),
    np.arctanh: lambda x: x.arctanh(), np.arccosh: lambda x: x.arccosh(), np.arcsinh: lambda x: x.arcsinh(),
    np.isnan: lambda x: SC.is_nan(x), np.isfinite: lambda x: not SC.is_nan(x), np.isinf: lambda x: False,
    np.log2: lambda x: log(x) / log(tos(2)), np.log10: lambda x: log(x) / log(tos(10)),
    np.log1p: lambda x: log(1 + x), np.expm1: lambda x: exp(x) - 1,
}


def _smax(a, b):
    a, b = tos(a), tos(b)
    return a if bool(a >= b) else b


def _smin(a, b):
    a, b = tos(a), tos(b)
    return a if bool(a <= b) else b


_BIN = {
    np.add: lambda a, b: tos(a) + tos(b), np.subtract: lambda a, b: tos(a) - tos(b), np.multiply: lambda a, b: tos(a) * tos(b),
    np.true_divide: lambda a, b: tos(a) / tos(b), np.power: lambda a, b: tos(a) ** b, np.float_power: lambda a, b: tos(a) ** b,
    np.equal: lambda a, b: tos(a) == tos(b), np.not_equal: lambda a, b: tos(a) != tos(b), np.less: lambda a, b: tos(a) < tos(b),
    np.less_equal: lambda a, b: tos(a) <= tos(b), np.greater: lambda a, b: tos(a) > tos(b),
    np.greater_equal: lambda a, b: tos(a) >= tos(b), np.maximum: _smax, np.minimum: _smin, np.fmax: _smax, np.fmin: _smin,
    np.logical_and: lambda a, b: band(_tb(a), _tb(b)), np.logical_or: lambda a, b: bor(_tb(a), _tb(b)),
    np.bitwise_and: lambda a, b: band(_tb(a), _tb(b)) if _boolish(a, b) else tos(a) & tos(b),
    np.bitwise_or: lambda a, b: bor(_tb(a), _tb(b)) if _boolish(a, b) else tos(a) | tos(b),
    np.floor_divide: lambda a, b: tos(a) // tos(b), np.remainder: lambda a, b: tos(a) % tos(b),
    np.arctan2: lambda a, b: tos(a).arctan2(tos(b)), np.hypot: lambda a, b: sqrt(tos(a) ** 2 + tos(b) ** 2),
    np.left_shift: lambda a, b: tos(a) << tos(b), np.right_shift: lambda a, b: tos(a) >> tos(b),
    np.bitwise_xor: lambda a, b: tos(a) ^ tos(b),
    np.heaviside: lambda a, b: tos(0) if bool(tos(a) < 0) else tos(b) if bool(tos(a) == 0) else tos(1),
}


def _boolish(a, b):
    return isinstance(a, SBool) or isb(a) or isinstance(b, SBool) or isb(b)


def _tb(x):
    if isinstance(x, SBool) or isb(x):
        return x
    return tos(x) != ZERO


def ufunc_dispatch(u, method, inputs, kwargs):
    out = kwargs.pop("out", None)
    kwargs.pop("casting", None)
    kwargs.pop("dtype", None)
    if kwargs.pop("where", True) is not True:
        raise Unsupported("ufunc where=")
    if method == "__call__":
        if u is np.matmul:
            r = NP.matmul(*inputs)
        elif len(inputs) == 1:
            if u is np.logical_not or u is np.invert:
                x = asS(inputs[0])
                vals = [bnot(_tb(y)) if (u is np.logical_not or _boolish(y, y)) else ~tos(y) for y in x.tolist_raw()]
                if x.ndim == 0:
                    return vals[0]
                r = mkarr(x.shape, vals, "bool")
                if all(isb(v) for v in vals):
                    r = np.array([bool(v) for v in vals]).reshape(x.shape)
            elif u in _UN:
                r = mapS(_UN[u], inputs[0])
            else:
                raise Unsupported("ufunc %s" % u.__name__)
        else:
            f = _BIN.get(u)
            if f is None:
                raise Unsupported("ufunc %s" % u.__name__)
            if u in (np.add, np.subtract, np.multiply):
                a, b = np.asarray(asS(inputs[0])), np.asarray(asS(inputs[1]))
                r = unwrap(_objop[u](a, b))
            else:
                r = bmap2(f, inputs[0], inputs[1])
        if out is not None:
            o = out[0]
            if ACC.ACTIVE is not None:
                ACC.ACTIVE.write(o)
            np.asarray(o)[...] = np.asarray(r)
            return o
        return r
    if method == "reduce":
        a = inputs[0]
        axis = kwargs.get("axis", 0)
        kd = kwargs.get("keepdims", False)
        if u is np.add:
            return NP.sum(a, axis=axis, keepdims=kd)
        if u is np.multiply:
            return NP.prod(a, axis=axis)
        if u is np.logical_and:
            return NP.all(a, axis=axis)
        if u is np.logical_or:
            return NP.any(a, axis=axis)
        if u is np.maximum:
            return NP.max(a, axis=axis)
        if u is np.minimum:
            return NP.min(a, axis=axis)
    if method == "outer":
        if u is np.multiply:
            return NP.outer_nd(inputs[0], inputs[1], lambda a, b: tos(a) * tos(b))
        if u in _BIN:
            return NP.outer_nd(inputs[0], inputs[1], _BIN[u])
    if method == "accumulate":
        if u is np.add:
            return NP.cumsum(inputs[0], axis=kwargs.get("axis", 0))
    if method == "at":
        a, ix, v = inputs if len(inputs) == 3 else (inputs[0], inputs[1], None)
        oa = np.asarray(a)
        ixs = np.asarray(ix)
        vs = np.broadcast_to(np.asarray(asS(v)), ixs.shape + oa.shape[1:]) if not isinstance(ix, tuple) else None
        if vs is None:
            raise Unsupported("ufunc.at tuple")
        for k, i in enumerate(ixs):
            oa[i] = _BIN[u](oa[i], vs[k])
        return None
    raise Unsupported("ufunc %s.%s" % (u.__name__, method))


_objop = {
    np.add: lambda a, b: np.add(a, b, dtype=object),
    np.subtract: lambda a, b: np.subtract(a, b, dtype=object),
    np.multiply: lambda a, b: np.multiply(a, b, dtype=object),
}


def function_dispatch(func, args, kwargs):
    name = func.__name__
    mod = getattr(func, "__module__", "")
    if mod.startswith("numpy.linalg"):
        f = getattr(LINALG, name, None)
        if f is None:
            raise Unsupported("numpy.linalg.%s" % name)
        return f(*args, **kwargs)
    f = NP.__dict__.get(name) or getattr(type(NP), name, None)
    if f is not None:
        return getattr(NP, name)(*args, **kwargs)
    return generic_call(func, args, kwargs)


def generic_call(func, args, kwargs):
    a = [_conv_arg(x) for x in args]
    k = {n: _conv_arg(x) for n, x in kwargs.items()}
    r = func(*a, **k)
    return unwrap(r)


def _conv_arg(x):
    if isinstance(x, SArr):
        return np.asarray(x)
    if isinstance(x, (S, SBool)):
        return obj(x)
    if isinstance(x, (list, tuple)) and _has_sym(x):
        if all(isinstance(y, (S, SBool, int, float, complex, np.number)) for y in x):
            return np.asarray(asS(x))
        return type(x)(_conv_arg(y) for y in x)
    return x


class _Ranges:
    pass


def _axes(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (int, np.integer)):
        axis = (axis,)
    return tuple(sorted(int(a) % nd for a in axis))


def reduce_axes(a, axis, f, keepdims=False, ld=None):
    """f(list of scalars) -> scalar"""
    a = asS(a)
    if a.ndim == 0:
        return f(a.tolist_raw())
    ax = _axes(axis, a.ndim)
    keep = [i for i in range(a.ndim) if i not in ax]
    t = np.asarray(a).transpose(keep + list(ax))
    sh = tuple(a.shape[i] for i in keep)
    n = int(np.prod([a.shape[i] for i in ax])) if ax else 1
    t = t.reshape((int(np.prod(sh)) if sh else 1, n))
    vals = [f(list(row)) for row in t]
    if keepdims:
        sh = tuple(1 if i in ax else a.shape[i] for i in range(a.ndim))
        return mkarr(sh, vals, ld)
    if not sh:
        return vals[0]
    if vals and all(isb(v) for v in vals):
        return np.array([bool(v) for v in vals]).reshape(sh)
    return mkarr(sh, vals, ld)


def sumlist(xs):
    """balanced sum"""
    xs = [tos(x) for x in xs]
    if not xs:
        return ZERO
    if len(xs) == 1:
        return xs[0]
    # polynomial fast path with a common denominator
    q0 = xs[0].q
    if all(not x.d and x.q == q0 for x in xs):
        r = dict(xs[0].n)
        for x in xs[1:]:
            for m, c in x.n.items():
                s = r.get(m, 0) + c
                if s:
                    r[m] = s
                elif m in r:
                    del r[m]
        return S.mk(r, q0)
    while len(xs) > 1:
        ys = [xs[i] + xs[i + 1] for i in range(0, len(xs) - 1, 2)]
        if len(xs) & 1:
            ys.append(xs[-1])
        xs = ys
    return xs[0]


def prodlist(xs):
    r = ONE
    for x in xs:
        r = r * tos(x)
    return r


def _myint(x=0, *a):
    if type(x) is S:
        c = x.const()
        if c is not None:
            return int(c)
        if x.is_int():
            return x
        v = SC.const_value(x)
        if v is not None:
            return int(v.real)
        return SC.trunc(x)
    if isinstance(x, SArr) and x.size == 1:
        return _myint(x.item())
    if isinstance(x, SBool):
        return int(bool(x))
    return int(x, *a)


def _myfloat(x=0.0):
    if type(x) is S:
        if x.has_I():
            raise TypeError("can't convert complex to float")
        return x
    if isinstance(x, SArr) and x.size == 1:
        return _myfloat(x.item())
    if isinstance(x, str):
        return float(x)
    return float(x)


def _mycomplex(x=0.0, y=None):
    if y is not None:
        if type(x) is S or type(y) is S:
            return tos(x) + IMAG * tos(y)
        return complex(x, y)
    if type(x) is S:
        return x
    if isinstance(x, SArr) and x.size == 1:
        return x.item()
    return complex(x)


def _is_numeric_list(x):
    return True


class NPShim:
    """the `np` the code under test sees.  Unknown attributes fall back to numpy
    with conversion of arguments/results."""

    _own = {}

    def __getattr__(self, name):
        a = getattr(np, name)
        if isinstance(a, type) or not callable(a):
            return a

        if isinstance(a, np.ufunc):
            w = _UfuncWrap(a)
        else:

            def w(*args, **kw):
                if any(_has_sym(x) for x in args) or any(_has_sym(x) for x in kw.values()):
                    if any(isinstance(x, (S, SBool, SArr)) or (isinstance(x, np.ndarray)) for x in args):
                        return generic_call(a, args, kw)
                    return generic_call(a, args, kw)
                return a(*args, **kw)

            w.__name__ = name
        self.__dict__[name] = w
        return w

    ndarray = np.ndarray
    newaxis = None
    float64 = DT["float"]
    float32 = DT["float"]
    float_ = DT["float"]
    complex128 = DT["complex"]
    complex64 = DT["complex"]
    complex_ = DT["complex"]
    int64 = DT["int"]
    int32 = DT["int"]
    int_ = DT["int"]
    uint64 = DT["int"]
    int8 = DT["int"]
    uint8 = DT["int"]
    bool_ = DT["bool"]
    floating = np.floating
    integer = np.integer
    number = np.number
    complexfloating = np.complexfloating
    inf = np.inf
    nan = np.nan

    @property
    def pi(self):
        return pi()

    @property
    def e(self):
        return exp(ONE)

    # ---------------- creation
    def _shape(self, s):
        if isinstance(s, (list, tuple)):
            return tuple(_idx(x) for x in s)
        if isinstance(s, np.ndarray) and s.ndim == 1:
            return tuple(_idx(x) for x in s)
        return (_idx(s),)

    def zeros(self, shape, dtype=float, order="C", **k):
        kd = ldkind(dtype)
        sh = self._shape(shape)
        if kd == "int" and isinstance(dtype, LD):
            return full(sh, ZERO, kd)  # like a symbolic array of integers
        if kd in ("int", "bool"):
            return _IntArr(np.zeros(sh, dtype=np.int64 if kd == "int" else bool))
        return full(sh, ZERO, kd)

    def ones(self, shape, dtype=float, order="C", **k):
        kd = ldkind(dtype)
        sh = self._shape(shape)
        if kd == "int" and isinstance(dtype, LD):
            return full(sh, ONE, kd)  # like a symbolic array of integers
        if kd in ("int", "bool"):
            return _IntArr(np.ones(sh, dtype=np.int64 if kd == "int" else bool))
        return full(sh, ONE, kd)

    def empty(self, shape, dtype=float, order="C", **k):
        kd = ldkind(dtype)
        sh = self._shape(shape)
        if kd == "int" and isinstance(dtype, LD):
            return full(sh, ZERO, kd)  # like a symbolic array of integers
        if kd in ("int", "bool"):
            return _IntArr(np.zeros(sh, dtype=np.int64 if kd == "int" else bool))
        c = ctx()
        # uninitialised memory: fresh arbitrary values
        n = int(np.prod(sh))
        return mkarr(sh, [_Uninit() for _ in range(n)], kd) if n <= 0 else full(sh, UNINIT(), kd)

    def full(self, shape, v, dtype=None):
        if dtype is None and isinstance(v, (int, np.integer)) and not isinstance(v, bool):
            return _IntArr(np.full(self._shape(shape), v))
        kd = ldkind(dtype) if dtype is not None else None
        if kd in ("int", "bool"):
            return _IntArr(np.full(self._shape(shape), v, dtype=int if kd == "int" else bool))
        return full(self._shape(shape), tos(v), kd)

    def full_like(self, a, v, dtype=None):
        return self.full(_shp(a), v, dtype if dtype is not None else self._dt(a))

    def _dt(self, a):
        if isinstance(a, SArr):
            return a.dtype
        if isinstance(a, np.ndarray):
            return a.dtype
        if isinstance(a, (list, tuple)):
            return asS(a).dtype if _has_sym(a) else np.array(a).dtype
        return tos(a).dtype

    def zeros_like(self, a, dtype=None, **k):
        return self.zeros(_shp(a), dtype if dtype is not None else self._dt(a))

    def ones_like(self, a, dtype=None, **k):
        return self.ones(_shp(a), dtype if dtype is not None else self._dt(a))

    def empty_like(self, a, dtype=None, **k):
        return self.empty(_shp(a), dtype if dtype is not None else self._dt(a))

    def eye(self, n, m=None, k=0, dtype=float, **kw):
        n = _idx(n)
        m = n if m is None else _idx(m)
        kd = ldkind(dtype)
        base = np.eye(n, m, k, dtype=int)
        if kd == "int" and isinstance(dtype, LD):
            r = mkarr(base.shape, [tos(int(x)) for x in base.ravel()], kd)
            return r
        if kd in ("int", "bool"):
            return _IntArr(base.astype(int if kd == "int" else bool))
        r = asS(base)
        r._ld = kd
        return r

    def identity(self, n, dtype=float, **kw):
        return self.eye(n, dtype=dtype)

    def array(self, x, dtype=None, copy=True, ndmin=0, **k):
        if isinstance(x, SArr):
            r = x.copy() if copy else x
            if dtype is not None and ldkind(dtype) != "object":
                r = castarr(x, ldkind(dtype))
        elif _has_sym(x):
            r = asS(x)
            if dtype is not None and ldkind(dtype) != "object":
                r = castarr(r, ldkind(dtype))
        else:
            if isinstance(x, (range, map, zip)) or (hasattr(x, "__iter__") and not hasattr(x, "__len__")):
                x = list(x)
                if _has_sym(x):
                    return self.array(x, dtype=dtype)
            kd = ldkind(dtype) if dtype is not None else None
            r = np.array(x, dtype={"int": np.int64, "float": np.float64, "complex": np.complex128, "bool": bool, "object": object, None: None}[kd])
            if r.dtype.kind in "fc":
                r = asS(r)
                r._ld = kd or r._ld
            elif r.dtype.kind in "iub":
                r = _IntArr(r)
        if ndmin and r.ndim < ndmin:
            r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
        return r

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, np.ndarray) and (dtype is None or (isinstance(x, SArr) and x.dtype == dtype)):
            return x
        return self.array(x, dtype=dtype)

    def ascontiguousarray(self, x, dtype=None):
        return self.array(x, dtype=dtype)

    asanyarray = asarray

    def copy(self, a, **k):
        return asS(a).copy() if _has_sym(a) else np.array(a)

    def arange(self, *a, dtype=None, **k):
        a = [x if not isinstance(x, S) else (int(x) if x.is_int() or (x.const() is not None and x.const().denominator == 1) else x) for x in a]
        if any(isinstance(x, S) for x in a):
            raise Unsupported("arange of symbolic reals")
        r = np.arange(*a)
        kd = ldkind(dtype) if dtype is not None else None
        if r.dtype.kind == "f" or kd in ("float", "complex"):
            r = asS(r)
            r._ld = kd or "float"
            return r
        return _IntArr(r)

    def linspace(self, a, b, n=50, **k):
        n = int(n)
        a, b = tos(a), tos(b)
        return mkarr((n,), [a + (b - a) * Fraction(i, n - 1) for i in range(n)], "float")

    def result_type(self, *a):
        def kind(x):
            if isinstance(x, (bool, np.bool_)):
                return "bool"
            if isinstance(x, (int, np.integer)):
                return "int"
            if isinstance(x, (float, np.floating, Fraction)):
                return "float"
            if isinstance(x, (complex, np.complexfloating)):
                return "complex"
            if isinstance(x, (SArr, S)):
                return x.dtype.name_ if isinstance(x, SArr) else ("complex" if x.has_I() else ("int" if x.is_int() else "float"))
            if isinstance(x, np.ndarray):
                return ldkind(x.dtype)
            return ldkind(x)

        return LD(max([kind(x) for x in a], key=lambda q: LD.RANK[q]))

    def promote_types(self, a, b):
        return LD(max([ldkind(a), ldkind(b)], key=lambda q: LD.RANK[q]))

    def dtype(self, x):
        return LD(ldkind(x))

    def issubdtype(self, a, b):
        k = ldkind(a)
        if b in (np.floating,):
            return k == "float"
        if b in (np.complexfloating,):
            return k == "complex"
        if b in (np.integer,):
            return k == "int"
        if b is np.number:
            return k in ("int", "float", "complex")
        return k == ldkind(b)

    def finfo(self, dt=None):
        class F:
            eps = Fraction(1, 2**52)
            tiny = Fraction(1, 2**1022)
            max = Fraction(2**1023)

        return F

    # ---------------- reductions
    def sum(self, a, axis=None, dtype=None, out=None, keepdims=False, **k):
        if not _has_sym(a):
            if hasattr(a, "__iter__") and not hasattr(a, "__len__"):
                a = list(a)
                return self.sum(a, axis=axis)
            r = np.sum(np.asarray(a), axis=axis, keepdims=keepdims)
            return _post(r)
        return reduce_axes(a, axis, _sumany, keepdims)

    def prod(self, a, axis=None, dtype=None, **k):
        if not _has_sym(a):
            if hasattr(a, "__iter__") and not hasattr(a, "__len__"):
                return self.prod(list(a))
            r = np.prod(np.asarray(a), axis=axis)
            return _post(r)
        return reduce_axes(a, axis, prodlist)

    def mean(self, a, axis=None, **k):
        a = asS(a)
        ax = _axes(axis, a.ndim)
        n = int(np.prod([a.shape[i] for i in ax]))
        return self.sum(a, axis=axis) / tos(n)

    def all(self, a, axis=None, **k):
        if isinstance(a, SBool):
            return a
        if not _has_sym(a):
            return np.all(a, axis=axis)
        return reduce_axes(a, axis, lambda xs: band(*[_tb(x) for x in xs]))

    def any(self, a, axis=None, **k):
        if isinstance(a, SBool):
            return a
        if not _has_sym(a):
            return np.any(a, axis=axis)
        return reduce_axes(a, axis, lambda xs: bor(*[_tb(x) for x in xs]))

    def max(self, a, axis=None, **k):
        if not _has_sym(a):
            return _post(np.max(a, axis=axis))
        return reduce_axes(a, axis, lambda xs: _fold(_smax, xs))

    amax = max

    def min(self, a, axis=None, **k):
        if not _has_sym(a):
            return _post(np.min(a, axis=axis))
        return reduce_axes(a, axis, lambda xs: _fold(_smin, xs))

    amin = min

    def argmax(self, a, axis=None):
        if not _has_sym(a):
            return np.argmax(a, axis=axis)
        xs = asS(a).tolist_raw()
        best = 0
        for i in range(1, len(xs)):
            if bool(xs[i] > xs[best]):
                best = i
        return best

    def argmin(self, a, axis=None):
        if not _has_sym(a):
            return np.argmin(a, axis=axis)
        xs = asS(a).tolist_raw()
        best = 0
        for i in range(1, len(xs)):
            if bool(xs[i] < xs[best]):
                best = i
        return best

    def cumsum(self, a, axis=None, **k):
        if not _has_sym(a):
            return _post(np.cumsum(a, axis=axis))
        a = asS(a)
        if axis is None:
            a = a.ravel()
            axis = 0
        return unwrap(np.add.accumulate(np.asarray(a), axis=axis, dtype=object))

    def cumprod(self, a, axis=None, **k):
        if not _has_sym(a):
            return _post(np.cumprod(a, axis=axis))
        a = asS(a)
        if axis is None:
            a = a.ravel()
            axis = 0
        return unwrap(np.multiply.accumulate(np.asarray(a), axis=axis, dtype=object))

    def count_nonzero(self, a, axis=None, **k):
        if not _has_sym(a):
            return np.count_nonzero(a, axis=axis)
        return reduce_axes(a, axis, lambda xs: sum(1 if bool(_tb(x)) else 0 for x in xs))

    def trace(self, a, offset=0, axis1=0, axis2=1, **k):
        a = asS(a)
        d = np.diagonal(np.asarray(a), offset, axis1, axis2)
        return reduce_axes(unwrap(d), -1, sumlist)

    def diff(self, a, n=1, axis=-1):
        if not _has_sym(a):
            return _post(np.diff(a, n, axis))
        a = asS(a)
        return a[1:] - a[:-1]

    def average(self, a, axis=None, weights=None):
        if weights is None:
            return self.mean(a, axis)
        return self.sum(asS(a) * asS(weights)) / self.sum(weights)

    def var(self, a, axis=None, **k):
        m = self.mean(a)
        return self.mean((asS(a) - m) ** 2)

    # ---------------- linear algebra
    def dot(self, a, b, out=None):
        if not (_has_sym(a) or _has_sym(b)):
            return _post(np.dot(a, b))
        a, b = asS(a), asS(b)
        if a.ndim == 0 or b.ndim == 0:
            return unwrap(np.multiply(np.asarray(a), np.asarray(b)))
        return self._mm(a, b, np.dot)

    def matmul(self, a, b, **k):
        if not (_has_sym(a) or _has_sym(b)):
            return _post(np.matmul(a, b))
        return self._mm(asS(a), asS(b), np.matmul)

    def _mm(self, a, b, f):
        a_, b_ = np.asarray(a), np.asarray(b)
        if a.ndim == 1 and b.ndim == 1:
            if a.shape != b.shape:
                raise ValueError("shapes %s and %s not aligned" % (a.shape, b.shape))
            return sumlist([x * y for x, y in zip(a_, b_)])
        if a.ndim <= 2 and b.ndim <= 2:
            A = a_.reshape(1, -1) if a.ndim == 1 else a_
            B = b_.reshape(-1, 1) if b.ndim == 1 else b_
            if A.shape[1] != B.shape[0]:
                raise ValueError("shapes %s and %s not aligned" % (a.shape, b.shape))
            n, m, kk = A.shape[0], B.shape[1], A.shape[1]
            out = np.empty((n, m), dtype=object)
            rows = [[(j, tos(x)) for j, x in enumerate(A[i]) if not (type(x) is S and not x.n)] for i in range(n)]
            for j in range(m):
                col = [tos(x) for x in B[:, j]]
                for i in range(n):
                    out[i, j] = sumlist([x * col[t] for t, x in rows[i] if col[t].n])
            if a.ndim == 1:
                out = out[0]
            elif b.ndim == 1:
                out = out[:, 0]
            return unwrap(out)
        return unwrap(f(a_, b_))

    def inner(self, a, b):
        return self.dot(a, b)

    def vdot(self, a, b):
        a, b = asS(a).ravel(), asS(b).ravel()
        return self.dot(a.conj(), b)

    def outer(self, a, b, out=None):
        if not (_has_sym(a) or _has_sym(b)):
            return _post(np.outer(a, b))
        return self.outer_nd(asS(a).ravel(), asS(b).ravel(), lambda x, y: tos(x) * tos(y))

    def outer_nd(self, a, b, f):
        a, b = asS(a), asS(b)
        return mkarr(a.shape + b.shape, [f(x, y) for x in a.tolist_raw() for y in b.tolist_raw()])

    def kron(self, a, b):
        if not (_has_sym(a) or _has_sym(b)):
            return _post(np.kron(a, b))
        return unwrap(np.kron(np.asarray(asS(a)), np.asarray(asS(b))))

    def tensordot(self, a, b, axes=2):
        return unwrap(np.tensordot(np.asarray(asS(a)), np.asarray(asS(b)), axes))

    def einsum(self, sub, *ops, **k):
        k.pop("optimize", None)
        if not isinstance(sub, str):
            allops = (sub,) + ops
            conv = [np.asarray(asS(o)) if (isinstance(o, np.ndarray)) else o for o in allops]
            return unwrap(_einsum_list(conv))
        return unwrap(_einsum(sub, [np.asarray(asS(o)) for o in ops]))

    def block(self, x):
        rows = []
        for r in x:
            if isinstance(r, (list, tuple)):
                rows.append(np.concatenate([np.atleast_2d(np.asarray(asS(y))) if len(_shp(y)) < 2 else np.asarray(asS(y)) for y in r], axis=1))
            else:
                return unwrap(np.concatenate([np.asarray(asS(y)) for y in x], axis=-1))
        return unwrap(np.concatenate(rows, axis=0))

    def concatenate(self, xs, axis=0, **k):
        xs = list(xs)
        if not any(_has_sym(x) for x in xs):
            r = np.concatenate([np.asarray(x) for x in xs], axis=axis)
            return _post(r)
        lds = [x._ld for x in xs if isinstance(x, SArr)]
        r = unwrap(np.concatenate([np.asarray(asS(x)) for x in xs], axis=axis))
        return r

    def hstack(self, xs):
        return unwrap(np.hstack([np.asarray(asS(x)) for x in xs])) if any(_has_sym(x) for x in xs) else _post(np.hstack(xs))

    def vstack(self, xs):
        return unwrap(np.vstack([np.asarray(asS(x)) for x in xs])) if any(_has_sym(x) for x in xs) else _post(np.vstack(xs))

    def stack(self, xs, axis=0):
        return unwrap(np.stack([np.asarray(asS(x)) for x in xs], axis=axis)) if any(_has_sym(x) for x in xs) else _post(np.stack(xs, axis=axis))

    def diag(self, a, k=0):
        if not _has_sym(a):
            return _post(np.diag(a, k))
        a = asS(a)
        if a.ndim == 1:
            n = a.shape[0] + abs(k)
            r = full((n, n), ZERO, a._ld)
            for i in range(a.shape[0]):
                np.asarray(r)[(i, i + k) if k >= 0 else (i - k, i)] = np.asarray(a)[i]
            return r
        return unwrap(np.diagonal(np.asarray(a), k).copy())

    def diagonal(self, a, *r, **k):
        return unwrap(np.diagonal(np.asarray(asS(a)), *r, **k).copy())

    def fill_diagonal(self, a, v, wrap=False):
        o = np.asarray(a)
        n = min(o.shape)
        vs = asS(v).tolist_raw() if _has_sym(v) or isinstance(v, (list, tuple, np.ndarray)) else [v]
        if isinstance(a, SArr):
            vs = [tos(x) for x in vs]
        if not vs:
            if n == 0:
                return
            raise ValueError("setting diagonal from an empty sequence")
        for i in range(n):
            o[(i,) * o.ndim] = vs[i % len(vs)]

    def tril(self, a, k=0):
        a = asS(a)
        return mkarr(a.shape, [x if j <= i + k else ZERO for (i, j), x in np.ndenumerate(np.asarray(a))], a._ld)

    def triu(self, a, k=0):
        a = asS(a)
        return mkarr(a.shape, [x if j >= i + k else ZERO for (i, j), x in np.ndenumerate(np.asarray(a))], a._ld)

    # ---------------- elementwise
    def real(self, a):
        if isinstance(a, S):
            return a.real
        if isinstance(a, SArr):
            return a.real
        if _has_sym(a):
            return asS(a).real
        return np.real(a)

    def imag(self, a):
        if isinstance(a, S):
            return a.imag
        if isinstance(a, SArr):
            return a.imag
        if _has_sym(a):
            return asS(a).imag
        return np.imag(a)

    def angle(self, z, deg=False):
        def f(x):
            if not x.has_I() and x.const() is not None:
                return ZERO if x.const() >= 0 else pi()
            return uf("angle", x)

        return mapS(f, z)

    def sqrt(self, x, **k):
        return mapS(sqrt, x)

    def abs(self, x):
        if not _has_sym(x):
            return _post(np.abs(x))
        return mapS(sabs, x)

    def round(self, a, decimals=0, **k):
        if not _has_sym(a):
            return np.round(a, decimals)
        return mapS(lambda x: tos(round(x, decimals)) if x.const() is not None else x, a)

    around = round
    round_ = round

    def exp(self, x, **k):
        return mapS(exp, x)

    def log(self, x, **k):
        return mapS(log, x)

    def cos(self, x, **k):
        return mapS(cos, x)

    def sin(self, x, **k):
        return mapS(sin, x)

    def where(self, c, *ab):
        if not ab:
            if _has_sym(c):
                c = asS(c)
                b = np.array([bool(_tb(x)) for x in c.tolist_raw()], dtype=bool).reshape(c.shape)
                return np.where(b)
            return np.where(c)
        a, b = ab
        cc = np.asarray(asS(c))
        cb = np.array([bool(_tb(x)) for x in cc.reshape(-1)], dtype=bool).reshape(cc.shape)
        if not (_has_sym(a) or _has_sym(b)):
            return _post(np.where(cb, a, b))
        return unwrap(np.where(cb, np.asarray(asS(a)), np.asarray(asS(b))))

    def nonzero(self, a):
        return self.where(a)

    def flatnonzero(self, a):
        return self.where(asS(a).ravel() if _has_sym(a) else np.ravel(a))[0]

    def argwhere(self, a):
        return np.transpose(self.where(a))

    def isclose(self, a, b, rtol=1e-05, atol=1e-08, **k):
        if not (_has_sym(a) or _has_sym(b)):
            return np.isclose(np.asarray(a), np.asarray(b), rtol=float(rtol), atol=float(atol))
        return bmap2(lambda x, y: closef(x, y, rtol, atol), a, b)

    def allclose(self, a, b, rtol=1e-05, atol=1e-08, **k):
        if not (_has_sym(a) or _has_sym(b)):
            return bool(np.allclose(a, b, rtol=float(rtol), atol=float(atol)))
        r = bmap2(lambda x, y: closef(x, y, rtol, atol), a, b)
        if isinstance(r, np.ndarray):
            return band(*[x for x in np.asarray(r).reshape(-1)])
        return r

    def array_equal(self, a, b):
        a, b = asS(a), asS(b)
        if a.shape != b.shape:
            return False
        return band(*[tos(x) == tos(y) for x, y in zip(a.tolist_raw(), b.tolist_raw())])

    def iscomplexobj(self, a):
        if isinstance(a, SArr):
            return a.dtype.name_ == "complex"
        if isinstance(a, S):
            return a.has_I()
        return np.iscomplexobj(a)

    def isrealobj(self, a):
        return not self.iscomplexobj(a)

    def isreal(self, a):
        return bmap2(lambda x, y: eqf(tos(x).imag, ZERO), a, ZERO)

    def iscomplex(self, a):
        return bmap2(lambda x, y: bnot(eqf(tos(x).imag, ZERO)), a, ZERO)

    def real_if_close(self, a, tol=100):
        if isinstance(a, np.ndarray) and not isinstance(a, SArr) and a.dtype.kind in "iub":
            return a
        a = asS(a)
        if all(not x.has_I() for x in a.tolist_raw()):
            return a.real
        return a

    def isscalar(self, x):
        return isinstance(x, S) or np.isscalar(x)

    def nan_to_num(self, x, **k):
        return x

    def clip(self, a, lo, hi, **k):
        if not _has_sym(a):
            return _post(np.clip(a, lo, hi))

        def f(x):
            if lo is not None and bool(x < lo):
                return tos(lo)
            if hi is not None and bool(x > hi):
                return tos(hi)
            return x

        return mapS(f, a)

    def sort(self, a, axis=-1, **k):
        if not _has_sym(a):
            return _post(np.sort(a, axis=axis))
        a = asS(a)
        if a.ndim != 1:
            raise Unsupported("sort nd")
        return mkarr(a.shape, [a[i] for i in self._order(a.tolist_raw())], a._ld)

    def argsort(self, a, axis=-1, **k):
        if not _has_sym(a):
            return np.argsort(a, axis=axis)
        a = asS(a)
        if a.ndim != 1:
            raise Unsupported("argsort nd")
        return np.array(self._order(a.tolist_raw()), dtype=int)

    def _order(self, xs):
        out = []
        for i, x in enumerate(xs):
            k = len(out)
            while k > 0 and bool(_real_lt(x, xs[out[k - 1]])):
                k -= 1
            out.insert(k, i)
        return out

    def unique(self, a, *r, **k):
        if not _has_sym(a):
            return np.unique(a, *r, **k)
        raise Unsupported("unique of symbolic")

    def searchsorted(self, a, v, side="left"):
        if not (_has_sym(a) or _has_sym(v)):
            return np.searchsorted(a, v, side=side)
        xs = asS(a).tolist_raw()
        n = 0
        for x in xs:
            if bool((x < v) if side == "left" else (x <= v)):
                n += 1
            else:
                break
        return n

    def fromiter(self, it, dtype=None, count=-1):
        return self.array(list(it), dtype=dtype)

    def fromfunction(self, f, shape, **k):
        ix = np.indices(shape)
        return f(*ix)

    def vectorize(self, f, **k):
        def g(*a):
            a = [np.asarray(asS(x)) if _has_sym(x) else np.asarray(x) for x in a]
            a = np.broadcast_arrays(*a)
            vals = [f(*[y.item() if isinstance(y, np.generic) else y for y in xs]) for xs in zip(*[x.reshape(-1) for x in a])]
            if not a[0].ndim:
                return vals[0]
            return self.array(vals).reshape(a[0].shape)

        return g

    def apply_along_axis(self, f, axis, a):
        return unwrap(np.apply_along_axis(f, axis, np.asarray(asS(a))))

    def poly1d(self, c):
        raise Unsupported("poly1d")

    def polyval(self, p, x):
        r = ZERO
        for c in asS(p).tolist_raw():
            r = r * x + c
        return r

    def poly(self, a):
        raise Unsupported("np.poly")

    def roots(self, a):
        raise Unsupported("np.roots")

    def convolve(self, a, b, mode="full"):
        a, b = asS(a).tolist_raw(), asS(b).tolist_raw()
        out = [ZERO] * (len(a) + len(b) - 1)
        for i, x in enumerate(a):
            for j, y in enumerate(b):
                out[i + j] = out[i + j] + x * y
        if mode != "full":
            raise Unsupported("convolve mode")
        return mkarr((len(out),), out)

    def errstate(self, **k):
        return np.errstate(**k)

    def tile(self, a, r):
        return unwrap(np.tile(np.asarray(asS(a)), r)) if _has_sym(a) else _post(np.tile(a, r))

    def repeat(self, a, r, axis=None):
        if isinstance(r, SArr) or _has_sym(r):
            r = np.array([int(x) for x in asS(r).tolist_raw()]) if not isinstance(r, S) else int(r)
        return unwrap(np.repeat(np.asarray(asS(a)), r, axis=axis)) if _has_sym(a) else _post(np.repeat(a, r, axis=axis))

    def delete(self, a, o, axis=None):
        return unwrap(np.delete(np.asarray(asS(a)), o, axis=axis)) if _has_sym(a) else np.delete(a, o, axis=axis)

    def shape(self, a):
        return _shp(a)

    def ndim(self, a):
        return len(_shp(a))

    def ix_(self, *a):
        def one(x):
            if isinstance(x, SArr):
                return fixindex(x) if x.size else np.empty(0, dtype=float if x._ld in ("float", "complex") else int)
            if _has_sym(x):
                return np.array([_idx(y) for y in x], dtype=int)
            return x

        a = [one(x) for x in a]
        return np.ix_(*a)

    def append(self, a, v, axis=None):
        if axis is None:
            return self.concatenate([asS(a).ravel(), asS(v).ravel()])
        return self.concatenate([a, v], axis=axis)

    def array2string(self, *a, **k):
        return "array"

    def broadcast_to(self, a, sh):
        return unwrap(np.broadcast_to(np.asarray(asS(a)), sh)) if _has_sym(a) else np.broadcast_to(a, sh)

    def transpose(self, a, axes=None):
        return unwrap(np.transpose(np.asarray(asS(a)), axes)) if _has_sym(a) else _post(np.transpose(a, axes))


class _UfuncWrap:
    def __init__(self, u):
        self.u = u
        self.__name__ = u.__name__

    def __call__(self, *a, **k):
        if any(_has_sym(x) for x in a):
            return ufunc_dispatch(self.u, "__call__", a, dict(k))
        if self.u in _UN and self.u not in (np.absolute, np.negative, np.positive, np.conjugate, np.square, np.sign):
            return mapS(_UN[self.u], a[0])
        return _post(self.u(*a, **k))

    def reduce(self, a, **k):
        if _has_sym(a):
            return ufunc_dispatch(self.u, "reduce", (a,), dict(k))
        return _post(self.u.reduce(np.asarray(a), **k))

    def outer(self, a, b, **k):
        if _has_sym(a) or _has_sym(b):
            return ufunc_dispatch(self.u, "outer", (a, b), dict(k))
        return _post(self.u.outer(a, b, **k))

    def accumulate(self, a, **k):
        return ufunc_dispatch(self.u, "accumulate", (a,), dict(k))

    def at(self, a, ix, v):
        if _has_sym(a) or _has_sym(v):
            return ufunc_dispatch(self.u, "at", (a, ix, v), {})
        return self.u.at(a, ix, v)


def _real_lt(a, b):
    a, b = tos(a), tos(b)
    if a.has_I() or b.has_I():
        raise Unsupported("ordering of complex values")
    return a < b


def _sumany(xs):
    if any(isinstance(x, SBool) or isb(x) for x in xs):
        xs = [tos(x) if not isb(x) else tos(int(x)) for x in xs]
    return sumlist(xs)


def _fold(f, xs):
    if not xs:
        raise ValueError("zero-size array to reduction operation")
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x)
    return r


def _idx(x):
    if type(x) is S:
        return x.__index__()
    if isinstance(x, float):
        if x == int(x):
            raise TypeError("'float' object cannot be interpreted as an integer")
        raise TypeError("'float' object cannot be interpreted as an integer")
    return int(x)


def _post(r):
    if isinstance(r, np.ndarray) and not isinstance(r, (SArr, _IntArrT)):
        if r.dtype.kind in "fc":
            return asS(r)
        if r.dtype.kind in "iub":
            return r.view(_IntArrT)
    if isinstance(r, (np.floating, np.complexfloating)):
        return tos(r)
    return r


class _IntArrT(np.ndarray):
    """machine integer/bool array; index arguments may be symbolic"""

    def __array_finalize__(self, obj):
        pass

    def __getitem__(self, ix):
        ix = fixindex(ix)
        r = np.ndarray.__getitem__(self, ix)
        if ACC.ACTIVE is not None:
            ACC.ACTIVE.read(self, ix, r)
        return r

    def __setitem__(self, ix, v):
        if type(v) is S:
            v = v.__index__() if self.dtype.kind in "iu" and (v.is_int() or v.const() is not None and v.const().denominator == 1) else int(v)
        elif isinstance(v, SBool):
            v = bool(v)
        elif isinstance(v, SArr):
            v = np.array([int(x) for x in v.tolist_raw()]).reshape(v.shape)
        ix = fixindex(ix)
        if ACC.ACTIVE is not None:
            ACC.ACTIVE.write(self, ix)
        np.ndarray.__setitem__(self, ix, v)

    def __array_ufunc__(self, u, method, *inputs, **kwargs):
        if any(_has_sym(x) for x in inputs):
            return ufunc_dispatch(u, method, inputs, kwargs)
        ins = [np.asarray(x) if isinstance(x, _IntArrT) else x for x in inputs]
        out = kwargs.get("out")
        if out is not None:
            kwargs["out"] = tuple(np.asarray(o) if isinstance(o, _IntArrT) else o for o in out)
        if method == "__call__" and u in _UN and u not in (
            np.absolute, np.negative, np.positive, np.conjugate, np.square, np.sign, np.isnan, np.isfinite, np.isinf,
        ):
            return mapS(_UN[u], ins[0])
        if method == "__call__" and u is np.true_divide:
            return bmap2(_BIN[u], ins[0], ins[1])
        r = getattr(u, method)(*ins, **kwargs)
        if out is not None:
            return out[0]
        return _post(r)

    def tolist_raw(self):
        return [int(x) for x in np.asarray(self).reshape(-1)]

    def astype(self, dt, **k):
        kd = ldkind(dt)
        if kd in ("float", "complex"):
            r = asS(np.asarray(self))
            r._ld = kd
            return r
        return np.asarray(self).astype(int if kd == "int" else bool).view(_IntArrT)


def _IntArr(a):
    return a.view(_IntArrT)


def closef(a, b, rtol, atol):
    """isclose; exact equality in the exact model unless the context asks for the
    literal tolerance formula"""
    a, b = tos(a), tos(b)
    if SC.is_nan(a) or SC.is_nan(b):
        return False
    d = a - b
    c = ctx()
    if c is None or not getattr(c, "literal_tolerance", False):
        return eqf(d, ZERO)
    rt, at = tos(rtol), tos(atol)
    if d.has_I() or b.has_I():
        # |d| <= at + rt*|b|
        return bnot(ltf(at + rt * sabs(b), sabs(d)))
    bb = sabs(b)
    lim = at + rt * bb
    return band(bnot(ltf(lim, d)), bnot(ltf(lim, -d)))


class _Uninit(S):
    pass


_UN_COUNT = itertools.count()


def UNINIT():
    """value of uninitialised memory: one fresh arbitrary real per allocation"""
    v = T.new("uninit%d" % next(_UN_COUNT), "real")
    return S({1 << (P.BITS * v.i): 1})


def _einsum(sub, ops):
    sub = sub.replace(" ", "")
    if "..." in sub:
        parts = sub.split("->")
        its = parts[0].split(",")
        nb = max(o.ndim - len(x.replace("...", "")) for x, o in zip(its, ops) if "..." in x)
        letters = [chr(0xE000 + k) for k in range(nb)]
        if len(parts) == 1:
            flat = "".join(its).replace("...", "")
            parts.append("..." + "".join(sorted(ch for ch in set(flat) if flat.count(ch) == 1)))
        its = [x.replace("...", "".join(letters[nb - (o.ndim - len(x.replace("...", ""))):])) for x, o in zip(its, ops)]
        sub = ",".join(its) + "->" + parts[1].replace("...", "".join(letters))
    if "->" in sub:
        ins, out = sub.split("->")
    else:
        ins = sub
        cnt = {}
        for ch in ins.replace(",", ""):
            cnt[ch] = cnt.get(ch, 0) + 1
        out = "".join(sorted(ch for ch in cnt if cnt[ch] == 1))
    ins = ins.split(",")
    return _einsum_idx(ops, [list(x) for x in ins], list(out))


def _einsum_list(args):
    ops, idx = [], []
    i = 0
    out = None
    while i < len(args):
        if i + 1 < len(args):
            ops.append(args[i])
            idx.append(list(args[i + 1]))
            i += 2
        else:
            out = list(args[i])
            i += 1
    if out is None:
        cnt = {}
        for l in idx:
            for ch in l:
                cnt[ch] = cnt.get(ch, 0) + 1
        out = sorted(ch for ch in cnt if cnt[ch] == 1)
    return _einsum_idx(ops, idx, out)


def _einsum_idx(ops, idx, out):
    if len(ops) != len(idx):
        raise ValueError("einsum: operand/subscript mismatch")
    dims = {}
    for o, l in zip(ops, idx):
        if o.ndim != len(l):
            raise ValueError("einsum: wrong number of subscripts")
        for ch, n in zip(l, o.shape):
            if dims.setdefault(ch, n) != n:
                raise ValueError("einsum: dimension mismatch")
    # pairwise contraction left to right
    cur, cl = ops[0], idx[0]
    cur, cl = _diagonalise(cur, cl)
    rest = list(zip(ops[1:], idx[1:]))
    for k, (o, l) in enumerate(rest):
        o, l = _diagonalise(o, l)
        later = set(out)
        for _, l2 in rest[k + 1:]:
            later |= set(l2)
        keep = []
        for ch in cl + l:
            if ch in later and ch not in keep:
                keep.append(ch)
        sumv = []
        for ch in cl + l:
            if ch not in later and ch not in sumv:
                sumv.append(ch)
        res = np.empty([dims[c] for c in keep], dtype=object)
        for kv in np.ndindex(*res.shape):
            a = dict(zip(keep, kv))
            acc = []
            for sv in np.ndindex(*[dims[c] for c in sumv]):
                a.update(zip(sumv, sv))
                x = cur[tuple(a[c] for c in cl)]
                if not x.n:
                    continue
                y = o[tuple(a[c] for c in l)]
                if not y.n:
                    continue
                acc.append(x * y)
            res[kv] = sumlist(acc)
        cur, cl = res, keep
    # final sum/transposition
    sumv = [c for c in cl if c not in out]
    res = np.empty([dims[c] for c in out], dtype=object)
    for kv in np.ndindex(*res.shape):
        a = dict(zip(out, kv))
        acc = []
        for sv in np.ndindex(*[dims[c] for c in sumv]):
            a.update(zip(sumv, sv))
            acc.append(tos(cur[tuple(a[c] for c in cl)]))
        res[kv] = sumlist(acc)
    return res


def _diagonalise(o, l):
    seen = []
    for c in l:
        if c not in seen:
            seen.append(c)
    if len(seen) == len(l):
        return o, list(l)
    sh = [o.shape[l.index(c)] for c in seen]
    r = np.empty(sh, dtype=object)
    for kv in np.ndindex(*sh):
        a = dict(zip(seen, kv))
        r[kv] = o[tuple(a[c] for c in l)]
    return r, seen


# ---------------------------------------------------------------- linalg
def det(a):
    a = asS(a)
    n = a.shape[-1]
    if a.ndim != 2 or a.shape[0] != n:
        raise ValueError("square matrix required")
    if n == 0:
        return ONE
    M = [[tos(x) for x in row] for row in np.asarray(a)]
    # block structure: expand along zero-rich rows by memoised minors (division free)
    if n <= 10:
        return _det_minors(M)
    return _det_elim(M)


def _det_minors(M):
    n = len(M)
    # order rows by sparsity
    order = sorted(range(n), key=lambda i: sum(1 for x in M[i] if x.n))
    sign = _perm_sign(order)
    rows = [[(j, x) for j, x in enumerate(M[i]) if x.n] for i in order]
    memo = {}

    def rec(k, mask):
        if k == n:
            return ONE
        key = mask
        r = memo.get(key)
        if r is not None:
            return r
        acc = []
        for j, x in rows[k]:
            if mask >> j & 1:
                continue
            sub = rec(k + 1, mask | (1 << j))
            if not sub.n:
                continue
            # sign: number of free columns before j
            c = bin(~mask & ((1 << j) - 1)).count("1")
            t = x * sub
            acc.append(-t if c & 1 else t)
        r = sumlist(acc)
        memo[key] = r
        return r

    r = rec(0, 0)
    return -r if sign < 0 else r


def _perm_sign(p):
    p = list(p)
    s = 1
    for i in range(len(p)):
        while p[i] != i:
            j = p[i]
            p[i], p[j] = p[j], p[i]
            s = -s
    return s


def _det_elim(M):
    M = [list(r) for r in M]
    n = len(M)
    s = ONE
    for k in range(n):
        piv = next((i for i in range(k, n) if M[i][k].n), None)
        if piv is None:
            return ZERO
        if piv != k:
            M[k], M[piv] = M[piv], M[k]
            s = -s
        s = s * M[k][k]
        inv = M[k][k].inv()
        for i in range(k + 1, n):
            if M[i][k].n:
                f = M[i][k] * inv
                for j in range(k, n):
                    if M[k][j].n:
                        M[i][j] = M[i][j] - f * M[k][j]
    return s


def _components(M):
    """connected components of the (symmetrised) sparsity graph"""
    n = len(M)
    adj = [[j for j in range(n) if M[i][j].n or M[j][i].n] for i in range(n)]
    seen = set()
    out = []
    for i in range(n):
        if i in seen:
            continue
        comp = []
        st = [i]
        seen.add(i)
        while st:
            x = st.pop()
            comp.append(x)
            for y in adj[x]:
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        out.append(sorted(comp))
    return out


def inverse(a):
    a = asS(a)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    n = a.shape[0]
    M = [[tos(x) for x in row] for row in np.asarray(a)]
    out = full((n, n), ZERO, a._ld)
    o = np.asarray(out)
    for comp in _components(M):
        sub = [[M[i][j] for j in comp] for i in comp]
        k = len(comp)
        D = _det_minors(sub) if k <= 8 else _det_elim(sub)
        if D.is_zero():
            raise np.linalg.LinAlgError("Singular matrix")
        c = ctx()
        if c is not None and D.const() is None:
            z = eqf(D, ZERO)
            if not isb(z):
                # singular inputs raise/overflow in numpy: branch only when asked
                if getattr(c, "branch_singular", False) and bool(z):
                    raise np.linalg.LinAlgError("Singular matrix")
        iD = D.inv()
        for p in range(k):
            for q in range(k):
                minor = [[sub[r][s] for s in range(k) if s != p] for r in range(k) if r != q]
                m = _det_minors(minor) if k > 1 else ONE
                if (p + q) & 1:
                    m = -m
                o[comp[p], comp[q]] = m * iD
    return out


class LinalgShim:
    LinAlgError = np.linalg.LinAlgError

    def det(self, a):
        a = asS(a)
        if a.ndim == 2:
            return det(a)
        return mkarr(a.shape[:-2], [det(x) for x in a.reshape((-1,) + a.shape[-2:])])

    def slogdet(self, a):
        d = det(a)
        return SC.sgn(d), log(sabs(d))

    def inv(self, a):
        return inverse(a)

    def solve(self, a, b, **k):
        return NP.matmul(inverse(a), asS(b))

    def pinv(self, a, **k):
        return inverse(a)

    def norm(self, a, ord=None, axis=None, **k):
        a = asS(a)
        if ord not in (None, 2, "fro") or (ord == 2 and a.ndim != 1):
            raise Unsupported("norm ord")
        f = lambda xs: sqrt(sumlist([tos(x).real * tos(x).real + tos(x).imag * tos(x).imag if x.has_I() else x * x for x in map(tos, xs)]))
        return reduce_axes(a, axis, f)

    def matrix_power(self, a, n):
        a = asS(a)
        n = _idx(n)
        if n < 0:
            a, n = inverse(a), -n
        r = NP.eye(a.shape[0])
        for _ in range(n):
            r = r @ a
        return r

    def matrix_rank(self, a, *r, **k):
        raise Unsupported("matrix_rank")

    def multi_dot(self, xs):
        r = xs[0]
        for x in xs[1:]:
            r = NP.matmul(r, x)
        return r

    def eigvals(self, a):
        c = ctx()
        h = getattr(c, "linalg_contracts", {}).get("eigvals") if c is not None else None
        if h is not None:
            r = h(a)
            if r is not None:
                return r
        return eigvals_small(asS(a))

    def eigvalsh(self, a, *r, **k):
        c = ctx()
        h = getattr(c, "linalg_contracts", {}).get("eigvalsh") if c is not None else None
        if h is not None:
            x = h(a)
            if x is not None:
                return x
        return eigvalsh_small(asS(a))

    def eig(self, a, *r, **k):
        return _contract("eig", a)

    def eigh(self, a, *r, **k):
        c = ctx()
        h = getattr(c, "linalg_contracts", {}).get("eigh") if c is not None else None
        if h is not None:
            x = h(a)
            if x is not None:
                return x
        return eigh_small(asS(a))

    def svd(self, a, *r, **k):
        return _contract("svd", a, *r, **k)

    def qr(self, a, *r, **k):
        return _contract("qr", a, *r, **k)

    def cholesky(self, a):
        c = ctx()
        h = getattr(c, "linalg_contracts", {}).get("cholesky") if c is not None else None
        if h is not None:
            x = h(a)
            if x is not None:
                return x
        a = asS(a)
        n = a.shape[0]
        L = full((n, n), ZERO, "complex" if a._ld == "complex" or any(x.has_I() for x in a.tolist_raw()) else "float")
        o = np.asarray(L)
        for i in range(n):
            for j in range(i + 1):
                s = tos(a[i, j]) - sumlist([o[i, k] * o[j, k].conjugate() for k in range(j)])
                o[i, j] = sqrt(s) if i == j else s / o[j, j]
        return L


def _contract(name, a, *r, **k):
    c = ctx()
    h = getattr(c, "linalg_contracts", {}).get(name) if c is not None else None
    if h is not None:
        x = h(a, *r, **k)
        if x is not None:
            return x
    raise Unsupported("linalg.%s" % name)


def _const_perm_diag(M):
    return None


def eigvalsh_small(a):
    """eigenvalues (ascending) of a symmetric/hermitian matrix made of 1x1/2x2 blocks"""
    M = [[tos(x) for x in row] for row in np.asarray(a)]
    vals = []
    for comp in _components(M):
        if len(comp) == 1:
            vals.append(M[comp[0]][comp[0]].real)
        elif len(comp) == 2:
            i, j = comp
            x, y = M[i][i].real, M[j][j].real
            o = M[i][j]
            r = sqrt((x - y) * (x - y) / 4 + (o * o.conjugate()).real)
            vals += [(x + y) / 2 - r, (x + y) / 2 + r]
        else:
            raise Unsupported("eigvalsh of an irreducible %dx%d matrix" % (len(comp), len(comp)))
    return NP.sort(mkarr((len(vals),), vals, "float"))


def eigvals_small(a):
    M = [[tos(x) for x in row] for row in np.asarray(a)]
    vals = []
    for comp in _components(M):
        if len(comp) == 1:
            vals.append(M[comp[0]][comp[0]])
        elif len(comp) == 2:
            i, j = comp
            t = M[i][i] + M[j][j]
            d = M[i][i] * M[j][j] - M[i][j] * M[j][i]
            disc = t * t / 4 - d
            c = ctx()
            if disc.has_I():
                r = SC.csqrt(disc)
            else:
                old = getattr(c, "sqrt_may_be_imag", False)
                c.sqrt_may_be_imag = True
                try:
                    r = sqrt(disc)
                finally:
                    c.sqrt_may_be_imag = old
            vals += [t / 2 + r, t / 2 - r]
        else:
            raise Unsupported("eigvals of an irreducible %dx%d matrix" % (len(comp), len(comp)))
    return mkarr((len(vals),), vals)


def eigh_small(a):
    """eigen-decomposition of hermitian matrices made of 1x1/2x2 blocks, ascending"""
    M = [[tos(x) for x in row] for row in np.asarray(a)]
    n = len(M)
    vals, vecs = [], []
    for comp in _components(M):
        if len(comp) == 1:
            v = [ZERO] * n
            v[comp[0]] = ONE
            vals.append(M[comp[0]][comp[0]].real)
            vecs.append(v)
        elif len(comp) == 2:
            i, j = comp
            x, y, o = M[i][i].real, M[j][j].real, M[i][j]
            r = sqrt((x - y) * (x - y) / 4 + (o * o.conjugate()).real)
            for sg in (-1, 1):
                l = (x + y) / 2 + r * sg
                # (M - l) v = 0 : v = (o, l - x)
                a1, a2 = o, l - x
                nn = sqrt((a1 * a1.conjugate()).real + (a2 * a2.conjugate()).real)
                v = [ZERO] * n
                v[i], v[j] = a1 / nn, a2 / nn
                vals.append(l)
                vecs.append(v)
        else:
            raise Unsupported("eigh of an irreducible %dx%d matrix" % (len(comp), len(comp)))
    order = NP._order(vals)
    w = mkarr((n,), [vals[k] for k in order], "float")
    V = np.empty((n, n), dtype=object)
    for c_, k in enumerate(order):
        for i in range(n):
            V[i, c_] = vecs[k][i]
    return w, unwrap(V)


NP = NPShim()
LINALG = LinalgShim()
NP.linalg = LINALG


class RandomShim:
    """np.random replacement: harnesses install handlers on the context"""

    def __getattr__(self, name):
        def f(*a, **k):
            c = ctx()
            h = getattr(c, "rng_handlers", {}).get(name) if c is not None else None
            if h is None:
                raise Unsupported("np.random.%s" % name)
            return h(*a, **k)

        return f


NP.random = RandomShim()


def _root_of_unity(k, n):
    """exp(-2 pi i k/n) exactly, for n dividing 24"""
    k %= n
    if 24 % n:
        raise Unsupported("fft of length %d" % n)
    k = k * (24 // n)
    r2, r3 = sqrt(tos(2)), sqrt(tos(3))
    c = {0: ONE, 1: (r2 * r3 + r2) / 4, 2: r3 / 2, 3: r2 / 2, 4: ONE / 2, 5: (r2 * r3 - r2) / 4, 6: ZERO}

    def cs(j):
        j %= 24
        j = min(j, 24 - j)
        return c[j] if j <= 6 else -c[12 - j]

    return cs(k) - IMAG * cs(k - 6)


class FFTShim:
    def _dft(self, a, n, axis, norm, inverse):
        a = asS(a)
        if a.ndim != 1:
            raise Unsupported("fft of a %d-dimensional array" % a.ndim)
        v = a.tolist_raw()
        n = len(v) if n is None else int(n)
        v = [tos(x) for x in v[:n]] + [ZERO] * (n - len(v))
        if norm == "ortho":
            f = ONE / sqrt(tos(n))
        elif (norm in (None, "backward")) == inverse:
            f = ONE / n
        else:
            f = ONE
        out = [sumlist([v[j] * _root_of_unity((-1 if inverse else 1) * j * k, n) for j in range(n)]) * f for k in range(n)]
        return mkarr((n,), out, "complex")

    def fft(self, a, n=None, axis=-1, norm=None, out=None):
        return self._dft(a, n, axis, norm, False)

    def ifft(self, a, n=None, axis=-1, norm=None, out=None):
        return self._dft(a, n, axis, norm, True)

    def __getattr__(self, name):
        raise Unsupported("np.fft.%s" % name)


NP.fft = FFTShim()
