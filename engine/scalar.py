"""Exact symbolic scalars: S = polynomial / (integer * product of interned factors).

Arithmetic is over exact reals (and I with I*I=-1).  Comparisons give SBool
formulas; using one as a Python truth value asks the current execution context
to branch (path exploration).
"""
import math
import numbers
import operator
from fractions import Fraction
from math import gcd, isqrt

import numpy as _np

from . import poly as P
from .poly import T


class Unsupported(Exception):
    """the engine cannot model this operation"""


class _CtxHolder:
    ctx = None


HOLD = _CtxHolder()


def ctx():
    return HOLD.ctx


# ---------------------------------------------------------------- factors
def _intern(f):
    """intern primitive polynomial (leading coefficient > 0); returns id"""
    k = frozenset(f.items())
    i = T.factkey.get(k)
    if i is None:
        i = len(T.facts)
        T.facts.append(f)
        T.factkey[k] = i
        T.factinfo.append(None)
    return i


def _has_alg(p):
    u = 0
    for m in p:
        u |= m
    for i, _ in P.mono_items(u):
        if T.vars[i].rule is not None:
            return True
    return False


def _cancel(n, d):
    if not d or not n:
        return n, (() if not n else d)
    out = []
    for fid, k in d:
        f = T.facts[fid]
        while k:
            t = P.pdivexact(n, f)
            if t is None:
                break
            n = t
            k -= 1
        if k:
            out.append((fid, k))
    return n, tuple(out)


def _fexp(fid, k):
    return P.ppow(T.facts[fid], k)


class S:
    __slots__ = ("n", "q", "d")
    __array_priority__ = 1000
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, n, q=1, d=()):
        self.n, self.q, self.d = n, q, d

    # ---------- construction
    @staticmethod
    def mk(n, q=1, d=(), cancel=True):
        if not n:
            return ZERO
        if d and cancel:
            n, d = _cancel(n, d)
        if q != 1:
            g = gcd(P.pcontent(n), q)
            if g != 1:
                n = {m: c // g for m, c in n.items()}
                q //= g
        return S(n, q, d)

    # ---------- predicates
    def is_const(self):
        return not self.d and (not self.n or (len(self.n) == 1 and 0 in self.n))

    def const(self):
        """Fraction if rational constant else None"""
        if self.d:
            return None
        if not self.n:
            return Fraction(0)
        if len(self.n) == 1 and 0 in self.n:
            return Fraction(self.n[0], self.q)
        return None

    def is_zero(self):
        return not self.n

    def has_I(self):
        for m in self.n:
            if m & 1:
                return True
        return False

    def is_int(self):
        if self.q != 1 or self.d:
            return False
        u = 0
        for m in self.n:
            u |= m
        return all(T.vars[i].kind == "int" for i, _ in P.mono_items(u))

    def key(self):
        return (frozenset(self.n.items()), self.q, self.d)

    def __hash__(self):
        c = self.const()
        if c is not None:
            return hash(c)
        return hash(self.key())

    def nterms(self):
        return len(self.n)

    # ---------- arithmetic
    def __add__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if not o.n:
            return self
        if not self.n:
            return o
        if self.d == o.d:
            if self.q == o.q:
                n = P.padd(self.n, o.n)
                q = self.q
            else:
                g = gcd(self.q, o.q)
                n = P.padd(P.pscale(self.n, o.q // g), P.pscale(o.n, self.q // g))
                q = self.q // g * o.q
            return S.mk(n, q, self.d)
        da, db = dict(self.d), dict(o.d)
        na, nb = self.n, o.n
        D = dict(da)
        for f, k in db.items():
            ka = da.get(f, 0)
            if k > ka:
                na = P.pmul(na, _fexp(f, k - ka))
                D[f] = k
        for f, k in da.items():
            kb = db.get(f, 0)
            if k > kb:
                nb = P.pmul(nb, _fexp(f, k - kb))
        g = gcd(self.q, o.q)
        n = P.padd(P.pscale(na, o.q // g), P.pscale(nb, self.q // g))
        return S.mk(n, self.q // g * o.q, tuple(sorted(D.items())))

    __radd__ = __add__

    def __neg__(self):
        return S(P.pneg(self.n), self.q, self.d)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return o + (-self)

    def __mul__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if not self.n or not o.n:
            return ZERO
        if not self.d and not o.d:
            return S.mk(P.pmul(self.n, o.n), self.q * o.q)
        # cross-cancel first
        na, db = _cancel(self.n, o.d)
        nb, da = _cancel(o.n, self.d)
        D = dict(da)
        for f, k in db:
            D[f] = D.get(f, 0) + k
        return S.mk(P.pmul(na, nb), self.q * o.q, tuple(sorted(D.items())), cancel=False)

    __rmul__ = __mul__

    def inv(self):
        if not self.n:
            raise ZeroDivisionError("symbolic division by zero")
        num = {0: self.q}
        for f, k in self.d:
            num = P.pmul(num, _fexp(f, k))
        n = self.n
        # monomial part
        c, n = P.pprim(n)
        q = 1
        # rationalise algebraic variables
        guard = 0
        while True:
            u = 0
            for m in n:
                u |= m
            alg = [i for i, _ in P.mono_items(u) if T.vars[i].rule is not None]
            if not alg:
                break
            guard += 1
            i = max(alg)
            if len(n) > 400 or guard > 12:
                if 0 in alg:
                    i = 0
                else:
                    break
            bit = 1 << (P.BITS * i)
            if len(n) == 1:
                conj = {bit: 1}
            else:
                conj = {m: (-v if m & bit else v) for m, v in n.items()}
            num = P.pmul(num, conj)
            n = P.pmul(n, conj)
            if not n:
                raise Unsupported("zero norm in inversion")
            c2, n = P.pprim(n)
            c *= c2
        if c < 0:
            num = P.pneg(num)
            c = -c
        D = {}
        g = P.pmonogcd(n)
        if g:
            n = {m - g: v for m, v in n.items()}
            for i, e in P.mono_items(g):
                D[_intern({1 << (P.BITS * i): 1})] = e
        if n != {0: 1}:
            # split by already known factors
            if len(n) > 1:
                r = P.psqrt_exact(n) if len(n) > 2 else None
                mult = 1
                if r is not None:
                    n = P.pprim(r)[1]
                    mult = 2
                for fid in range(len(T.facts)):
                    f = T.facts[fid]
                    if len(f) < 2 or len(f) > len(n) * 4:
                        continue
                    while len(n) > 1:
                        t = P.pdivexact(n, f)
                        if t is None:
                            break
                        n = t
                        D[fid] = D.get(fid, 0) + mult
            if n != {0: 1}:
                if len(n) == 1 and 0 in n:
                    c *= n[0]
                    if c < 0:
                        c, num = -c, P.pneg(num)
                else:
                    s, n = P.pprim(n)
                    if s < 0:
                        num = P.pneg(num)
                        s = -s
                    c *= s
                    f = _intern(n)
                    D[f] = D.get(f, 0) + (mult if len(n) > 1 else 1)
        return S.mk(num, c, tuple(sorted(D.items())))

    def __truediv__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if not o.d and len(o.n) == 1 and 0 in o.n:
            c = o.n[0]
            r = S.mk(P.pscale(self.n, o.q), self.q * abs(c), self.d, cancel=False)
            return -r if c < 0 else r
        return self * o.inv()

    def __rtruediv__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return o * self.inv()

    def __pow__(self, e, mod=None):
        if isinstance(e, S):
            c = e.const()
            if c is None:
                if self.is_const() and e.is_int():
                    e = e.__index__()
                    return self**e
                return exp(e * log(self))
            e = c
        if isinstance(e, _np.ndarray):
            return NotImplemented
        if isinstance(e, (complex, _np.complexfloating)):
            if e.imag == 0:
                e = e.real
            else:
                raise Unsupported("complex power")
        e = recover(e) if not isinstance(e, Fraction) else e
        if e.denominator == 1:
            e = int(e)
            if e >= 0:
                r = S.mk(P.ppow(self.n, e), self.q**e, tuple((f, k * e) for f, k in self.d), cancel=False)
                return r if e else ONE
            return (self.inv()) ** (-e)
        if e.denominator == 2:
            r = sqrt(self)
            k = e.numerator
            return r**k
        if self.is_const():
            c = self.const()
            if c in (0, 1):
                return self
        raise Unsupported("power %s" % e)

    def __rpow__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return o.__pow__(self)

    def __floordiv__(self, o):
        return floordiv(self, _coerce(o))

    def __rfloordiv__(self, o):
        return floordiv(_coerce(o), self)

    def __mod__(self, o):
        o = _coerce(o)
        return self - o * floordiv(self, o)

    def __rmod__(self, o):
        o = _coerce(o)
        return o - self * floordiv(o, self)

    def __divmod__(self, o):
        f = floordiv(self, _coerce(o))
        return f, self - _coerce(o) * f

    # bit operations on (possibly symbolic) integers: concretise
    def _ii(self):
        return self.__index__()

    def __and__(self, o):
        return tos(self._ii() & operator.index(o))

    __rand__ = __and__

    def __or__(self, o):
        return tos(self._ii() | operator.index(o))

    __ror__ = __or__

    def __xor__(self, o):
        return tos(self._ii() ^ operator.index(o))

    __rxor__ = __xor__

    def __lshift__(self, o):
        return tos(self._ii() << operator.index(o))

    def __rlshift__(self, o):
        return tos(operator.index(o) << self._ii())

    def __rshift__(self, o):
        return tos(self._ii() >> operator.index(o))

    def __invert__(self):
        return tos(~self._ii())

    def __abs__(self):
        return sabs(self)

    # ---------- complex parts
    @property
    def real(self):
        if not self.has_I():
            return self
        return S.mk({m: c for m, c in self.n.items() if not m & 1}, self.q, self.d)

    @property
    def imag(self):
        if not self.has_I():
            return ZERO
        return S.mk({m - 1: c for m, c in self.n.items() if m & 1}, self.q, self.d)

    def conjugate(self):
        if not self.has_I():
            return self
        return S(P.pconj(self.n), self.q, self.d)

    conj = conjugate

    # ---------- numpy object-array hooks
    def sqrt(self):
        return sqrt(self)

    def exp(self):
        return exp(self)

    def log(self):
        return log(self)

    def cos(self):
        return cos(self)

    def sin(self):
        return sin(self)

    def tan(self):
        return sin(self) / cos(self)

    def cosh(self):
        return cosh(self)

    def sinh(self):
        return sinh(self)

    def tanh(self):
        return tanh(self)

    def arctanh(self):
        return log((1 + self) / (1 - self)) / 2

    def arccosh(self):
        return log(self + sqrt(self * self - 1))

    def arcsinh(self):
        return log(self + sqrt(self * self + 1))

    def square(self):
        return self * self

    def sign(self):
        return sgn(self)

    def arctan2(self, o):
        return uf("arctan2", self, _coerce(o))

    def arctan(self):
        return uf("arctan", self)

    def arccos(self):
        return uf("arccos", self)

    def arcsin(self):
        return uf("arcsin", self)

    def rint(self):
        return tos(round(self))

    def floor(self):
        return floordiv(self, ONE)

    def ceil(self):
        return -floordiv(-self, ONE)

    __floor__ = floor
    __ceil__ = ceil

    def __trunc__(self):
        return self._ii()

    def isnan(self):
        return is_nan(self)

    def isfinite(self):
        return True

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, dt):
        return self

    def flatten(self):
        from .sarr import asS
        return asS([self])

    ravel = flatten

    def tolist(self):
        return self

    def all(self):
        return self != 0

    def sum(self, *a, **k):
        return self

    @property
    def T(self):
        return self

    @property
    def dtype(self):
        from .sarr import LD
        if self.has_I():
            return LD("complex")
        return LD("int") if self.is_int() else LD("float")

    # ---------- conversions
    def __index__(self):
        c = self.const()
        if c is not None:
            if c.denominator != 1:
                raise TypeError("non-integer used as an index: %s" % c)
            return int(c)
        if self.is_int():
            return ctx().concretize_int(self)
        raise Unsupported("symbolic real used as an index")

    def __int__(self):
        c = self.const()
        if c is not None:
            return int(c)
        if self.is_int():
            return ctx().concretize_int(self)
        return ctx().concretize_int(trunc(self))

    def __float__(self):
        c = self.const()
        if c is not None:
            return float(c)
        v = const_value(self)
        if v is None or abs(v.imag) > 0:
            raise Unsupported("float() of a symbolic value")
        return v.real

    def __complex__(self):
        v = const_value(self)
        if v is None:
            raise Unsupported("complex() of a symbolic value")
        return complex(v)

    def __round__(self, nd=None):
        c = self.const()
        if c is None:
            if self.is_int():
                return self
            raise Unsupported("round of a symbolic value")
        return round(c, nd) if nd is None else tos(round(c, nd))

    def is_integer(self):
        c = self.const()
        if c is not None:
            return c.denominator == 1
        if self.is_int():
            return True
        raise Unsupported("is_integer")

    def __bool__(self):
        r = self != ZERO
        return bool(r)

    # ---------- comparisons
    def __eq__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return eqf(self, o)

    def __ne__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return bnot(eqf(self, o))

    def __lt__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return ltf(self, o)

    def __gt__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return ltf(o, self)

    def __le__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return lef(self, o)

    def __ge__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return lef(o, self)

    def __repr__(self):
        s = P.pstr(self.n)
        if self.q != 1:
            s = "(%s)/%d" % (s, self.q)
        for f, k in self.d:
            s += "/(%s)^%d" % (P.pstr(T.facts[f]), k)
        return s

    def __format__(self, spec):
        c = self.const()
        if c is not None and spec:
            return format(float(c), spec)
        return repr(self)

    def __reduce__(self):
        raise Unsupported("pickle of symbolic value")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # numpy interop
    def __array_ufunc__(self, uf_, method, *inputs, **kwargs):
        from .sarr import ufunc_dispatch
        return ufunc_dispatch(uf_, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from .sarr import function_dispatch
        return function_dispatch(func, args, kwargs)


ZERO = S({})
ONE = S({0: 1})
HALF = S({0: 1}, 2)
IMAG = S({1: 1})


def recover(x):
    """intended rational value of a machine number"""
    if isinstance(x, (bool, _np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, _np.integer)):
        return Fraction(int(x))
    if isinstance(x, Fraction):
        return x
    x = float(x)
    if math.isnan(x) or math.isinf(x):
        raise Unsupported("nan/inf constant")
    f = Fraction(x).limit_denominator(10**6)
    if float(f) == x:
        return f
    if x:
        # constants off by rounding in the last places
        if abs(float(f) - x) <= 4e-16 * abs(x) and f.denominator < 5000:
            return f
    return Fraction(repr(x))


def tos(x):
    r = _coerce(x)
    if r is NotImplemented:
        raise Unsupported("cannot convert %r to a scalar" % (type(x),))
    return r


_SMALL = {i: S({0: i}) for i in range(-64, 65) if i}
_SMALL[0] = ZERO


def _coerce(o):
    t = type(o)
    if t is S:
        return o
    if t is int:
        r = _SMALL.get(o)
        return r if r is not None else S({0: o})
    if t is SBool:
        return ONE if bool(o) else ZERO
    if isinstance(o, (float, _np.floating, Fraction, bool, _np.bool_, _np.integer, int)):
        if isinstance(o, (float, _np.floating)):
            k = known_irrational(float(o))
            if k is not None:
                return k
        if isinstance(o, (float, _np.floating)) and math.isnan(o):
            return nanvalue()
        f = recover(o)
        if not f:
            return ZERO
        return S({0: f.numerator}, f.denominator)
    if isinstance(o, (complex, _np.complexfloating)):
        return _coerce(o.real) + _coerce(o.imag) * IMAG
    if isinstance(o, _np.ndarray) and o.ndim == 0 and o.dtype == object:
        return _coerce(o.item())
    if isinstance(o, _np.ndarray) and o.ndim == 0:
        return _coerce(o.item())
    return NotImplemented


_IRR = {}


def known_irrational(x):
    """floats that are the double nearest to sqrt(k/m) or pi multiples -> exact"""
    if x == 0 or abs(x) > 1e6 or x != x:
        return None
    f = Fraction(x).limit_denominator(10**6)
    if float(f) == x:
        return None
    if abs(x) >= 1e-3:
        g = Fraction(x * x).limit_denominator(1000)
        if g > 0 and g.numerator < 10**5 and abs(math.sqrt(g) - abs(x)) <= 3e-16 * abs(x):
            s = isqrt(g.numerator * g.denominator)
            if s * s != g.numerator * g.denominator:
                r = sqrt(S({0: g.numerator}, g.denominator))
                return r if x > 0 else -r
        g = Fraction(x / math.pi).limit_denominator(100)
        if g and abs(float(g) * math.pi - x) <= 4e-16 * abs(x):
            return S({0: g.numerator}, g.denominator) * pi()
    return None


# ---------------------------------------------------------------- atoms
def var(name, kind="real", lo=None, hi=None):
    v = T.new(name, kind, lo=lo, hi=hi)
    return S({1 << (P.BITS * v.i): 1})


def pi():
    v = T.byname.get("pi")
    if v is None:
        v = T.new("pi", "pi")
    return S({1 << (P.BITS * v.i): 1})


def _vs(v):
    return S({1 << (P.BITS * v.i): 1})


def uf(name, *args):
    """uninterpreted function application, keyed by canonical arguments"""
    k = ("uf", name) + tuple(a.key() for a in args)
    v = T.atoms.get(k)
    if v is None:
        if name in ("erf",):
            pass
        v = T.new("%s#%d" % (name, len(T.vars)), "uf", data=(name, args))
        T.atoms[k] = v
    return _vs(v)


def _sqrt_int(n):
    """sqrt of a positive int -> S"""
    s = isqrt(n)
    if s * s == n:
        return S({0: s})
    out = 1
    m = 0
    p = 2
    res = ONE
    while p * p <= n and p < 20000:
        e = 0
        while n % p == 0:
            n //= p
            e += 1
        if e:
            out *= p ** (e // 2)
            if e & 1:
                res = res * _sqrt_prime(p)
        p += 1 if p == 2 else 2
    if n > 1:
        s = isqrt(n)
        if s * s == n:
            out *= s
        else:
            cnt = {}
            for f in _factor(n):
                cnt[f] = cnt.get(f, 0) + 1
            for f, e in cnt.items():
                out *= f ** (e // 2)
                if e & 1:
                    res = res * _sqrt_prime(f)
    return res * out


_FACTORED = {}


def _isprime(n):
    if n < 4:
        return n > 1
    if n % 2 == 0:
        return False
    d, r = n - 1, 0
    while d % 2 == 0:
        d //= 2
        r += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if a % n == 0:
            continue
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(r - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def _factor(n):
    """prime factors (Pollard rho; a factor too hard to split is returned whole)"""
    if n in _FACTORED:
        return _FACTORED[n]
    if n == 1:
        return []
    if _isprime(n):
        return [n]
    r = isqrt(n)
    if r * r == n:
        f = _factor(r)
        out = f + f
    else:
        out = [n]
        for c in (1, 3, 5, 7):
            x = y = 2
            d = 1
            k = 0
            while d == 1 and k < 60000:
                q = 1
                for _ in range(64):
                    x = (x * x + c) % n
                    y = (y * y + c) % n
                    y = (y * y + c) % n
                    q = q * abs(x - y) % n or q
                k += 64
                d = gcd(q, n)
            if 1 < d < n:
                out = _factor(d) + _factor(n // d)
                break
    _FACTORED[n] = out
    return out


def _sqrt_prime(p):
    k = ("sqrtp", p)
    v = T.atoms.get(k)
    if v is None:
        v = T.new("sqrt(%d)" % p, "sqrt", rule={0: p}, data={0: p})
        T.atoms[k] = v
    return _vs(v)


def _abs_poly(g):
    """|g| for a real polynomial g, canonical"""
    s = psign(g)
    if s in ("+", "+0"):
        return S(g)
    if s in ("-", "-0"):
        return S(P.pneg(g))
    c, g = P.pprim(g)
    r = P.psqrt_exact(g)
    if r is not None:
        return S(g) * abs(c)
    if len(g) > 1 and not _has_alg(g):
        res = None
        for fid in range(len(T.facts)):
            f = T.facts[fid]
            if len(f) < 2 or len(f) >= len(g) * 4 or f == g or _has_alg(f):
                continue
            t = P.pdivexact(g, f)
            if t is not None:
                return _abs_poly(f) * _abs_poly(t) * abs(c)
    k = ("abs", frozenset(g.items()))
    v = T.atoms.get(k)
    if v is None:
        v = T.new("abs#%d" % len(T.vars), "abs", rule=P.pmul(g, g), data=g)
        T.atoms[k] = v
    return _vs(v) * abs(c)


def _sqrt_poly(n):
    """sqrt of a nonnegative real polynomial n"""
    c, n = P.pprim(n)
    if c < 0:
        c, n = -c, P.pneg(n)
    res = _sqrt_int(c)
    if n == {0: 1}:
        return res
    if n == {0: -1}:
        return res * IMAG
    # even monomial content
    g = P.pmonogcd(n) if len(n) > 1 else max(n)
    if g:
        keep = 0
        rootm = 0
        for i, e in P.mono_items(g):
            h = e // 2
            rootm |= h << (P.BITS * i)
            if e & 1 and T.vars[i].kind in ("pos", "exp"):
                res = res * _sqrt_poly_atom({1 << (P.BITS * i): 1})
                keep += 1 << (P.BITS * i)
        if rootm:
            n = {m - 2 * rootm: v for m, v in n.items()}
            for i, e in P.mono_items(rootm):
                res = res * _abs_poly({1 << (P.BITS * i): 1}) ** e
        if keep:
            n = {m - keep: v for m, v in n.items()}
    if n == {0: 1}:
        return res
    r = P.psqrt_exact(n)
    if r is not None:
        return res * _abs_poly(r)
    # factor out squares of known factors; split positive known factors
    if not _has_alg(n) and ("sqrt", frozenset(n.items())) not in T.atoms:
        known = [T.facts[fid] for fid in range(len(T.facts))]
        known += [v.data for v in T.vars if v.kind == "sqrt" and v.rule is v.data and len(v.data) > 1]
        for f in known:
            if len(f) < 2 or _has_alg(f):
                continue
            e = 0
            while len(n) > 1:
                t = P.pdivexact(n, f)
                if t is None:
                    break
                n = t
                e += 1
            if e:
                if e // 2:
                    res = res * _abs_poly(f) ** (e // 2)
                if e & 1:
                    if psign(f) == "+":
                        if len(n) == 1 and 0 in n and n[0] == 1:
                            n = f
                            break
                        res = res * _sqrt_poly_atom(f)
                    elif psign(f) == "-":
                        if len(n) == 1 and 0 in n and n[0] == -1:
                            n = P.pneg(f)
                            break
                        res = res * _sqrt_poly_atom(P.pneg(f))
                        n = P.pneg(n)
                    else:
                        n = P.pmul(n, f)
        c, n = P.pprim(n)
        if c < 0:
            c, n = -c, P.pneg(n)
        res = res * _sqrt_int(c)
        if n == {0: 1}:
            return res
        r = P.psqrt_exact(n)
        if r is not None:
            return res * _abs_poly(r)
    return res * _sqrt_poly_atom(n)


def _sqrt_poly_atom(n):
    k = ("sqrt", frozenset(n.items()))
    v = T.atoms.get(k)
    if v is None:
        v = T.new("sqrt#%d" % len(T.vars), "sqrt", rule=n, data=n)
        T.atoms[k] = v
    return _vs(v)


def sqrt(x):
    """square root of a nonnegative real (real-valued numpy semantics)"""
    if not x.n:
        return ZERO
    if x.has_I():
        return csqrt(x)
    # numerator*odd denominators
    n = P.pscale(x.n, x.q)
    den = ONE * x.q
    for f, k in x.d:
        fp = T.facts[f]
        if k & 1:
            n = P.pmul(n, fp)
        den = den * _abs_poly(fp) ** ((k + 1) // 2)
    c = x.const()
    if c is not None and c < 0:
        return _sqrt_poly(P.pneg(n)) / den * IMAG
    s = psign(n)
    if s in ("-",):
        return _sqrt_poly(P.pneg(n)) / den * IMAG
    if s is None and getattr(ctx(), "sqrt_may_be_imag", False):
        if bool(ltf(S(n), ZERO)):
            return _sqrt_poly(P.pneg(n)) / den * IMAG
    if s is None and ctx() is not None:
        ctx().note_domain(S(n))
    return _sqrt_poly(n) / den


def csqrt(z):
    re, im = z.real, z.imag
    if im.is_zero():
        return sqrt(re)
    r = sqrt(re * re + im * im)
    a = sqrt((r + re) / 2)
    # principal branch: im part = im / (2 a) when a != 0
    return a + IMAG * im / (2 * a)


def sabs(x):
    if x.has_I():
        re, im = x.real, x.imag
        return sqrt(re * re + im * im)
    if not x.n:
        return x
    r = _abs_poly(x.n) / x.q
    for f, k in x.d:
        r = r / _abs_poly(T.facts[f]) ** k
    return r


def sgn(x):
    if bool(ltf(ZERO, x)):
        return ONE
    if bool(ltf(x, ZERO)):
        return -ONE
    return ZERO


def floordiv(a, b):
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
        return tos(math.floor(ca / cb))
    k = ("floordiv", a.key(), b.key())
    v = T.atoms.get(k)
    if v is None:
        v = T.new("floor#%d" % len(T.vars), "int", data=("floordiv", a, b))
        T.atoms[k] = v
    return _vs(v)


def trunc(x):
    if bool(ltf(x, ZERO)):
        return -floordiv(-x, ONE)
    return floordiv(x, ONE)


BASEDEN = {}  # per-monomial base denominators for exp/cos atoms


def set_base_den(mono_key, den):
    BASEDEN[mono_key] = den


def _exp_atom(m):
    """positive atom standing for exp(mono/den)"""
    den = BASEDEN.get(m, BASEDEN.get("default", 2))
    k = ("exp", m)
    v = T.atoms.get(k)
    if v is None:
        v = T.new("exp(%s/%d)" % (P.pstr({m: 1}), den), "exp", data=(m, den))
        it = P.mono_items(m)
        if len(it) == 1 and it[0][1] == 1:
            # range of the exponential of a bounded variable, rounded outwards
            b = T.vars[it[0][0]]
            if b.lo is not None and abs(b.lo) < 100 * den:
                v.lo = Fraction(math.exp(float(b.lo) / den) * (1 - 1e-9)).limit_denominator(10 ** 7) * Fraction(10 ** 6 - 1, 10 ** 6) if b.lo else Fraction(1)
            if b.hi is not None and abs(b.hi) < 100 * den:
                v.hi = Fraction(math.exp(float(b.hi) / den) * (1 + 1e-9)).limit_denominator(10 ** 7) * Fraction(10 ** 6 + 1, 10 ** 6) if b.hi else Fraction(1)
        T.atoms[k] = v
    return v, den


def exp(x):
    if not x.n:
        return ONE
    re, im = x.real, x.imag
    r = ONE
    if not re.is_zero():
        if re.d or _has_alg(re.n):
            # treat the whole argument as one unit
            if len(re.n) == 1 and 0 not in re.n and not re.d:
                pass
            else:
                return _exp_whole(re) * (expi(im) if not im.is_zero() else ONE)
        for m, c in re.n.items():
            it = P.mono_items(m)
            if len(it) == 1 and it[0][1] == 1 and T.vars[it[0][0]].kind == "uf":
                continue
            e = Fraction(c * _exp_atom(m)[1], re.q)
            if e.denominator != 1 or abs(e) > 24:
                return _exp_whole(re) * (expi(im) if not im.is_zero() else ONE)
        for m, c in re.n.items():
            if len(re.n) >= 1:
                # log(x) atoms: exp(k log y) = y**k
                it = P.mono_items(m)
                if len(it) == 1 and it[0][1] == 1:
                    vi = T.vars[it[0][0]]
                    if vi.kind == "uf" and vi.data[0] == "log":
                        r = r * vi.data[1][0] ** Fraction(c, re.q)
                        continue
            v, den = _exp_atom(m)
            e = Fraction(c * den, re.q)
            if e.denominator != 1:
                raise Unsupported("exp with fractional multiple %s of %s" % (e, P.pstr({m: 1})))
            r = r * _vs(v) ** int(e)
    if not im.is_zero():
        r = r * expi(im)
    return r


def _exp_whole(re):
    neg = False
    k = ("expw", re.key())
    if k not in T.atoms:
        k2 = ("expw", (-re).key())
        if k2 in T.atoms:
            return ONE / _vs(T.atoms[k2])
        T.atoms[k] = T.new("expw#%d" % len(T.vars), "exp", data=("whole", re))
    return _vs(T.atoms[k])


def subst(x, mp, memo=None):
    """substitute variables (index -> S) everywhere in x, including inside atoms"""
    memo = {} if memo is None else memo
    r = _subst_poly(x.n, mp, memo) / x.q
    for f, k in x.d:
        r = r / _subst_poly(T.facts[f], mp, memo) ** k
    return r


def _subst_var(i, mp, memo):
    """value of variable i, or None when unaffected"""
    if i in mp:
        return mp[i]
    if i in memo:
        return memo[i]
    memo[i] = None
    v = T.vars[i]
    d = v.data
    r = None
    if v.kind == "sqrt":
        y = _subst_poly(d, mp, memo)
        if y.key() != S(d).key():
            r = sqrt(y)
    elif v.kind == "abs":
        y = _subst_poly(d, mp, memo)
        if y.key() != S(d).key():
            r = sabs(y)
    elif v.kind in ("exp", "cos", "sin"):
        if d[0] == "whole":
            a, den = d[1], 1
        else:
            a, den = S({d[0]: 1}), d[1]
        y = subst(a, mp, memo)
        if y.key() != a.key():
            y = y / den
            r = exp(y) if v.kind == "exp" else cos(y) if v.kind == "cos" else sin(y)
    elif v.kind == "uf":
        args = d[1]
        if any(subst(a, mp, memo).key() != a.key() for a in args):
            raise Unsupported("substitution in function application")
    elif v.kind == "int" and d:
        raise Unsupported("substitution in integer atom")
    memo[i] = r
    return r


def _subst_poly(n, mp, memo):
    vals = {}
    for i in P.pvars(n):
        r = _subst_var(i, mp, memo)
        if r is not None:
            vals[i] = r
    if not vals:
        return S(n)
    groups = {}
    for m, c in n.items():
        key = []
        rest = m
        for i, e in P.mono_items(m):
            if i in vals:
                key.append((i, e))
                rest -= e << (P.BITS * i)
        groups.setdefault(tuple(key), {})[rest] = c
    out = ZERO
    for key, g in groups.items():
        t = S(g)
        for i, e in key:
            t = t * vals[i] ** e
        out = out + t
    return out


def merge_exps(n):
    """collect the exponentials of every monomial of a numerator into one exponential of the
    summed argument (exp(a)exp(b) = exp(a+b)); returns an equivalent numerator polynomial"""
    ex = [v for v in T.vars if v.kind == "exp"]
    if not any(v.data[0] == "whole" for v in ex):
        return n
    ids = {v.i: v for v in ex}
    used = [i for i in P.pvars(n) if i in ids]
    if not used or all(ids[i].data[0] != "whole" for i in used):
        return n
    groups = {}
    cache = {}
    for m, c in n.items():
        it = P.mono_items(m)
        rest, em = m, []
        for i, e in it:
            if i in ids:
                em.append((i, e))
                rest -= e << (P.BITS * i)
        em = tuple(em)
        if em not in cache:
            a = ZERO
            for i, e in em:
                d = ids[i].data
                a = a + e * (d[1] if d[0] == "whole" else S.mk({d[0]: 1}, d[1]))
            for k0, a0 in cache.values():
                if k0 == a.key() or not (a - a0).n:
                    cache[em] = (k0, a0)
                    break
            else:
                cache[em] = (a.key(), a)
        k, a = cache[em]
        g = groups.setdefault(k, {})
        g[rest] = g.get(rest, 0) + c
        if not g[rest]:
            del g[rest]
    out = {}
    for k, g in groups.items():
        if not g:
            continue
        a = [x for y, x in cache.values() if y == k][0]
        v = {0: 1}
        if a.n:
            kk = ("expw", a.key())
            if kk not in T.atoms:
                kk = ("expm", a.key())
            if kk not in T.atoms:
                T.atoms[kk] = T.new("expw#%d" % len(T.vars), "exp", data=("whole", a))
            v = _vs(T.atoms[kk]).n
        out = P.padd(out, P.pmul(g, v))
    return out


def _trig_atoms(m):
    den = BASEDEN.get(m, BASEDEN.get("default", 2))
    k = ("cs", m)
    v = T.atoms.get(k)
    if v is None:
        nm = "%s/%d" % (P.pstr({m: 1}), den)
        c = T.new("cos(%s)" % nm, "cos", data=(m, den), lo=-1, hi=1)
        s = T.new(
            "sin(%s)" % nm, "sin", rule={0: 1, 2 << (P.BITS * c.i): -1}, data=(m, den, c.i), lo=-1, hi=1
        )
        v = (c, s)
        T.atoms[k] = v
    return v[0], v[1], den


def _expi_pi(fr):
    """exp(I*pi*fr)"""
    fr = fr % 2
    tab = {
        1: (2, 0),
        2: (4, 0),
    }
    n, d = fr.numerator, fr.denominator
    k = Fraction(fr)
    # reduce to primitive angle via exact table for denominators 1,2,3,4,6,12?
    def cs(q):  # q in [0,1/2] as multiple of pi
        if q == 0:
            return ONE, ZERO
        if q == Fraction(1, 2):
            return ZERO, ONE
        if q == Fraction(1, 4):
            h = _sqrt_int(2) / 2
            return h, h
        if q == Fraction(1, 3):
            return HALF, _sqrt_int(3) / 2
        if q == Fraction(1, 6):
            return _sqrt_int(3) / 2, HALF
        if q == Fraction(1, 5):
            c = (1 + _sqrt_int(5)) / 4
            return c, sqrt(1 - c * c)
        if q == Fraction(2, 5):
            c = (_sqrt_int(5) - 1) / 4
            return c, sqrt(1 - c * c)
        if q == Fraction(1, 8):
            return sqrt((2 + _sqrt_int(2)) / 4), sqrt((2 - _sqrt_int(2)) / 4)
        if q == Fraction(3, 8):
            return sqrt((2 - _sqrt_int(2)) / 4), sqrt((2 + _sqrt_int(2)) / 4)
        raise Unsupported("trig of pi*%s" % q)

    if k > 1:
        r = _expi_pi(2 - k)
        return r.conjugate()
    if k > Fraction(1, 2):
        c, s = cs(1 - k)
        return -c + IMAG * s
    c, s = cs(k)
    return c + IMAG * s


def _expi_whole(x):
    """cos and sin of x as one pair of atoms"""
    k = ("expiw", x.key())
    if k not in T.atoms:
        k2 = ("expiw", (-x).key())
        if k2 in T.atoms:
            c, s = T.atoms[k2]
            return _vs(c) - IMAG * _vs(s)
        c = T.new("cosw#%d" % len(T.vars), "cos", data=("whole", x), lo=-1, hi=1)
        s = T.new(
            "sinw#%d" % len(T.vars), "sin", rule={0: 1, 2 << (P.BITS * c.i): -1},
            data=("whole", x, c.i), lo=-1, hi=1,
        )
        T.atoms[k] = (c, s)
    c, s = T.atoms[k]
    return _vs(c) + IMAG * _vs(s)


def expi(x):
    """exp(I*x), x real"""
    if not x.n:
        return ONE
    pv = T.byname.get("pi")
    pm = (1 << (P.BITS * pv.i)) if pv is not None else None
    if x.d or _has_alg(x.n):
        raise_ = len(x.n) != 1 or x.d
        if raise_:
            return _expi_whole(x)
    r = ONE
    for m, c in x.n.items():
        if m == pm:
            r = r * _expi_pi(Fraction(c, x.q))
            continue
        it = P.mono_items(m)
        if len(it) == 1 and it[0][1] == 1 and T.vars[it[0][0]].kind == "uf" and T.vars[it[0][0]].data[0] in ("angle", "arctan2"):
            name, args = T.vars[it[0][0]].data
            e = Fraction(c, x.q)
            if e.denominator == 1:
                z = args[0] if name == "angle" else args[1] + IMAG * args[0]
                u = z / sabs(z)
                r = r * (u if e > 0 else u.conjugate()) ** abs(int(e))
                continue
            if e.denominator == 2:
                # half angle of principal argument in (-pi, pi]
                z = args[0] if name == "angle" else args[1] + IMAG * args[0]
                u = z / sabs(z)
                cc = sqrt((1 + u.real) / 2)
                if cc.is_zero():
                    h = IMAG
                else:
                    h = cc + IMAG * u.imag / (2 * cc)
                k = int(e * 2)
                r = r * (h if k > 0 else h.conjugate()) ** abs(k)
                continue
        cv, sv, den = _trig_atoms(m)
        e = Fraction(c * den, x.q)
        if e.denominator != 1:
            r = r * _expi_whole(S.mk({m: c}, x.q))
            continue
        z = _vs(cv) + IMAG * _vs(sv)
        e = int(e)
        r = r * (z**e if e > 0 else z.conjugate() ** (-e))
    return r


def cos(x):
    if x.has_I():
        e = exp(IMAG * x)
        return (e + ONE / e) / 2
    return expi(x).real


def sin(x):
    if x.has_I():
        e = exp(IMAG * x)
        return (e - ONE / e) / (2 * IMAG)
    return expi(x).imag


def cosh(x):
    e = exp(x)
    return (e + ONE / e) / 2


def sinh(x):
    e = exp(x)
    return (e - ONE / e) / 2


def tanh(x):
    e = exp(x)
    e2 = e * e
    return (e2 - 1) / (e2 + 1)


def log(x):
    c = x.const()
    if c == 1:
        return ZERO
    if x.has_I():
        raise Unsupported("complex log")
    # log of a monomial in exp atoms
    if not x.d or all(len(T.facts[f]) == 1 for f, _ in x.d):
        if len(x.n) == 1:
            (m, cc), = x.n.items()
            items = [(i, e) for i, e in P.mono_items(m)]
            for f, k in x.d:
                for i, e in P.mono_items(next(iter(T.facts[f]))):
                    items.append((i, -e * k))
            if items and all(T.vars[i].kind == "exp" for i, _ in items) and Fraction(cc, x.q) == 1:
                r = ZERO
                for i, e in items:
                    dd = T.vars[i].data
                    if dd[0] == "whole":
                        r = r + dd[1] * e
                    else:
                        r = r + S({dd[0]: e}, dd[1])
                return r
    return uf("log", x)


# ---------------------------------------------------------------- formulas
class SBool:
    __slots__ = ("op", "a", "_k")

    def __init__(self, op, a):
        self.op, self.a = op, a
        self._k = None

    def key(self):
        if self._k is None:
            if self.op in ("eq", "lt"):
                self._k = (self.op, self.a.key())
            elif self.op == "const":
                self._k = ("const", self.a)
            elif self.op == "not":
                self._k = ("not", self.a.key())
            else:
                self._k = (self.op,) + tuple(x.key() for x in self.a)
        return self._k

    def __bool__(self):
        c = ctx()
        if c is None:
            raise Unsupported("branch outside a context")
        return c.branch(self)

    def __and__(self, o):
        return band(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return bor(self, o)

    __ror__ = __or__

    def __invert__(self):
        return bnot(self)

    def logical_not(self):
        return bnot(self)

    def __eq__(self, o):
        if isinstance(o, (bool, _np.bool_)):
            return self if o else bnot(self)
        if isinstance(o, SBool):
            return bor(band(self, o), band(bnot(self), bnot(o)))
        return NotImplemented

    def __ne__(self, o):
        return bnot(self == o)

    def __hash__(self):
        return hash(self.key())

    def all(self, *a, **k):
        return self

    def any(self, *a, **k):
        return self

    # arithmetic on booleans forces a decision
    def __add__(self, o):
        return (ONE if bool(self) else ZERO) + o

    __radd__ = __add__

    def __mul__(self, o):
        return (ONE if bool(self) else ZERO) * o

    __rmul__ = __mul__

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __repr__(self):
        return "SBool(%s)" % (fstr(self),)

    __array_ufunc__ = None


def fstr(f):
    if f is True or f is False:
        return str(f)
    if f.op == "eq":
        return "%r == 0" % f.a
    if f.op == "lt":
        return "%r < 0" % f.a
    if f.op == "not":
        return "not(%s)" % fstr(f.a)
    return "(" + (" %s " % f.op).join(fstr(x) for x in f.a) + ")"


def isb(x):
    return isinstance(x, (bool, _np.bool_))


def bnot(f):
    if isb(f):
        return not f
    if f.op == "not":
        return f.a
    return SBool("not", f)


def band(*fs):
    out = []
    for f in fs:
        if isb(f):
            if not f:
                return False
            continue
        if isinstance(f, S):
            f = f != ZERO
            if isb(f):
                if not f:
                    return False
                continue
        if f.op == "and":
            out.extend(f.a)
        else:
            out.append(f)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return SBool("and", tuple(out))


def bor(*fs):
    out = []
    for f in fs:
        if isb(f):
            if f:
                return True
            continue
        if isinstance(f, S):
            f = f != ZERO
            if isb(f):
                if f:
                    return True
                continue
        if f.op == "or":
            out.extend(f.a)
        else:
            out.append(f)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return SBool("or", tuple(out))


def nanvalue():
    if T.nan is None:
        T.nan = T.new("nan#", "real").i
    return S({1 << (P.BITS * T.nan): 1})


def is_nan(x):
    if T.nan is None:
        return False
    x = tos(x)
    return T.nan in P.pvars(x.n) or any(T.nan in P.pvars(T.facts[f]) for f, _ in x.d)


def eqf(a, b):
    if T.nan is not None and (is_nan(a) or is_nan(b)):
        return False
    d = a - b
    if not d.n:
        return True
    if d.is_const():
        return False
    if d.has_I():
        re, im = d.real, d.imag
        return band(eqf(re, ZERO), eqf(im, ZERO))
    # canonical primitive numerator
    _, n = P.pprim(d.n)
    if len(n) == 1:
        # single monomial: zero iff some variable zero
        (m, _), = n.items()
        it = P.mono_items(m)
        if all(nonzero_kind(T.vars[i]) for i, _ in it):
            return False
        n = 0
        for i, e in it:
            if not nonzero_kind(T.vars[i]):
                n |= 1 << (P.BITS * i)
        n = {n: 1}
    v = const_value(S(n))
    if v is not None:
        return abs(v) < 1e-12
    r = SBool("eq", S(n))
    # x/0 is inf or nan, which equals nothing
    for f, _ in d.d:
        fp = T.facts[f]
        if psign(fp) not in ("+", "-"):
            r = band(r, bnot(eqf(S(dict(fp)), ZERO)))
    return r


def nonzero_kind(v):
    if v.kind in ("pos", "exp", "pi"):
        return True
    if v.kind == "sqrt" and set(v.data) == {0}:
        return True
    if v.kind == "sqrt":
        return psign(v.data) == "+"
    return False


def lef(a, b):
    if T.nan is not None and (is_nan(a) or is_nan(b)):
        return False
    return bnot(ltf(b, a))


def ltf(a, b):
    if T.nan is not None and (is_nan(a) or is_nan(b)):
        return False
    d = a - b
    if not d.n:
        return False
    if d.has_I():
        raise TypeError("ordering comparison of complex values")
    c = d.const()
    if c is not None:
        return c < 0
    v = const_value(d)
    if v is not None:
        return v.real < 0
    n = d.n
    # multiply by odd-power denominators of unknown sign
    for f, k in d.d:
        if k & 1:
            fp = T.facts[f]
            s = psign(fp)
            if s == "+":
                continue
            if s == "-":
                n = P.pneg(n)
                continue
            n = P.pmul(n, fp)
    g = P.pcontent(n)
    if g != 1:
        n = {m: v // g for m, v in n.items()}
    s = psign(n)
    if s in ("+", "+0"):
        return False
    if s == "-":
        return True
    return SBool("lt", S(n))


_PI = math.pi


def const_value(x):
    """numeric value of an expression in constants only (sqrt of ints, pi), else None"""
    u = 0
    for m in x.n:
        u |= m
    for f, _ in x.d:
        for m in T.facts[f]:
            u |= m
    for i, _ in P.mono_items(u):
        if not _const_var(T.vars[i]):
            return None
    return evalS(x, {})


def _const_var(v):
    if v.kind in ("imag", "pi"):
        return True
    if v.kind in ("sqrt", "abs"):
        return all(_const_var(T.vars[i]) for i in P.pvars(v.data))
    if v.kind == "uf":
        return all(const_value(a) is not None for a in v.data[1])
    if v.kind == "exp" and v.data[0] != "whole":
        return v.data[0] == 0
    return False


def simple_sign(p):
    """cheap syntactic sign: '+', '-', '+0', '-0', '0' or None"""
    if not p:
        return "0"
    sg = None
    strict = False
    for m, c in p.items():
        nz = True
        for i, e in P.mono_items(m):
            v = T.vars[i]
            if v.kind in ("pos", "exp", "pi"):
                continue
            if v.lo is not None and v.lo >= 0:
                if v.lo == 0:
                    nz = False
                continue
            if v.kind in ("sqrt", "abs"):
                if not (v.kind == "sqrt" and set(v.data) == {0}):
                    nz = False
                continue
            if e % 2 == 0:
                nz = False
                continue
            return None
        s = c > 0
        if sg is None:
            sg = s
        elif sg != s:
            return None
        strict = strict or nz
    return ("+" if sg else "-") + ("" if strict else "0")


def psign(p):
    s = simple_sign(p)
    if s is not None:
        return s
    c = ctx()
    if c is None:
        return None
    return c.sign_query(p)


# ---------------------------------------------------------------- evaluation
def evalvar(i, env):
    if i in env:
        return env[i]
    v = T.vars[i]
    k = v.kind
    if k == "imag":
        return 1j
    if k == "pi":
        r = _PI
    elif k == "sqrt":
        x = evalP(v.data, env)
        x = complex(x)
        if abs(x.imag) < 1e-12 * (1 + abs(x.real)):
            if x.real < 0:
                if x.real > -1e-12:
                    r = 0.0
                else:
                    raise DomainError("sqrt of negative")
            else:
                r = math.sqrt(x.real)
        else:
            raise DomainError("sqrt of complex")
    elif k == "abs":
        r = abs(evalP(v.data, env))
    elif k == "exp":
        if v.data[0] == "whole":
            r = math.exp(_rl(evalS(v.data[1], env)))
        else:
            r = math.exp(_rl(evalP({v.data[0]: 1}, env)) / v.data[1])
    elif k in ("cos", "sin"):
        f = math.cos if k == "cos" else math.sin
        if v.data[0] == "whole":
            r = f(_rl(evalS(v.data[1], env)))
        else:
            r = f(_rl(evalP({v.data[0]: 1}, env)) / v.data[1])
    elif k == "uf":
        name, args = v.data
        vals = [evalS(a, env) for a in args]
        r = UFEVAL[name](*vals)
    elif k == "int" and v.data is not None:
        _, a, b = v.data
        r = math.floor(_rl(evalS(a, env)) / _rl(evalS(b, env)))
    else:
        raise KeyError(v.name)
    env[i] = r
    return r


class DomainError(Exception):
    pass


def _rl(x):
    return x.real if isinstance(x, complex) else x


UFEVAL = {
    "log": lambda x: math.log(_rl(x)),
    "arctan2": lambda y, x: math.atan2(_rl(y), _rl(x)),
    "arctan": lambda x: math.atan(_rl(x)),
    "arccos": lambda x: math.acos(_rl(x)),
    "arcsin": lambda x: math.asin(_rl(x)),
    "angle": lambda z: math.atan2(complex(z).imag, complex(z).real),
    "erf": lambda x: math.erf(_rl(x)),
}


def evalP(p, env):
    r = 0.0
    for m, c in p.items():
        t = float(c) if abs(c) < 2**1000 else c
        for i, e in P.mono_items(m):
            x = evalvar(i, env)
            t = t * (x**e if e > 1 else x)
        r = r + t
    return r


def evalS(x, env):
    r = evalP(x.n, env) / x.q
    for f, k in x.d:
        r = r / evalP(T.facts[f], env) ** k
    return r


def evalF(f, env, tol=1e-9):
    """truth of a formula at a float point; None when too close to call"""
    if isb(f):
        return bool(f)
    if f.op == "eq":
        v = evalS(f.a, env)
        if abs(v) > tol * 1e3:
            return False
        return None
    if f.op == "lt":
        v = _rl(evalS(f.a, env))
        if v < -tol:
            return True
        if v > tol:
            return False
        return None
    if f.op == "not":
        r = evalF(f.a, env, tol)
        return None if r is None else (not r)
    rs = [evalF(x, env, tol) for x in f.a]
    if f.op == "and":
        if any(r is False for r in rs):
            return False
        return None if any(r is None for r in rs) else True
    if any(r is True for r in rs):
        return True
    return None if any(r is None for r in rs) else False
