"""Loads thewalrus' modules from /repo's current source with shimmed builtins and
third-party modules, so that their functions execute symbolically."""
import builtins
import functools
import math
import os
import sys
import types
from fractions import Fraction

import numpy as np

from . import access, sarr, scalar as SC
from .sarr import NP, SArr, asS, mkarr, full, DT, LD, ldkind, _has_sym, _post, mapS, inverse, det, _IntArrT
from .scalar import S, SBool, ZERO, ONE, IMAG, Unsupported, tos, sqrt, exp, band, bor, bnot, isb, ctx, eqf, ltf
from .poly import T
from . import poly as P

REPO = os.environ.get("VERIF_REPO", "/repo")

_CODE = {}


def _path(name):
    rel = name.split(".")
    p = os.path.join(REPO, *rel)
    if os.path.isdir(p):
        return os.path.join(p, "__init__.py"), True
    return p + ".py", False


def exists(name):
    p, _ = _path(name)
    return os.path.exists(p)


def code_for(name):
    p, pkg = _path(name)
    st = os.stat(p)
    k = (p, st.st_mtime_ns, st.st_size)
    c = _CODE.get(name)
    if c is None or c[0] != k:
        with open(p) as f:
            src = f.read()
        c = (k, compile(src, p, "exec"))
        _CODE[name] = c
    return c[1], p, pkg


# ------------------------------------------------------------- builtins
def _range(*a):
    b = []
    for x in a:
        if type(x) is S:
            x = x.__index__()
        elif isinstance(x, float):
            if x != int(x):
                raise TypeError("'float' object cannot be interpreted as an integer")
            x = int(x)
        elif isinstance(x, (np.floating,)):
            x = int(x)
        b.append(x)
    return range(*b)


def _isinstance(x, t):
    if type(x) is S:
        ts = t if isinstance(t, tuple) else (t,)
        for q in ts:
            if q is S:
                return True
            if isinstance(q, tuple):
                if _isinstance(x, q):
                    return True
                continue
            if q in (builtins.int, np.integer, np.int64, np.int32, SC_int) or q is sarr._myint or getattr(q, "_ldkind", None) == "int":
                if x.is_int() or (x.const() is not None and x.const().denominator == 1 and getattr(x, "_", False)):
                    return True
                continue
            if q in (builtins.float, np.floating, np.float64) or q is sarr._myfloat or getattr(q, "_ldkind", None) == "float":
                if not x.has_I() and not (x.is_int() and x.const() is None):
                    return True
                continue
            if q in (builtins.complex, np.complexfloating, np.complex128) or q is sarr._mycomplex or getattr(q, "_ldkind", None) == "complex":
                if x.has_I():
                    return True
                continue
            if q in (np.number,):
                return True
            import numbers

            if q in (numbers.Number, numbers.Complex):
                return True
            if q is numbers.Real and not x.has_I():
                return True
        return False
    t = _fixtypes(t)
    return isinstance(x, t)


SC_int = object()


def _fixtypes(t):
    if isinstance(t, tuple):
        return tuple(_fixtypes(q) for q in t)
    if t is sarr._myint:
        return int
    if t is sarr._myfloat:
        return float
    if t is sarr._mycomplex:
        return complex
    if t is _range:
        return range
    return t


def _abs(x):
    if isinstance(x, (SArr, S)) or _has_sym(x):
        return mapS(SC.sabs, x)
    return abs(x)


def _sum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


def _max(*a, key=None, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not _has_sym(xs) and (key is None):
        return max(xs, **k) if xs or not k else k["default"]
    if not xs:
        if "default" in k:
            return k["default"]
        raise ValueError("max() arg is an empty sequence")
    kf = key or (lambda v: v)
    b = xs[0]
    for x in xs[1:]:
        if bool(kf(x) > kf(b)):
            b = x
    return b


def _min(*a, key=None, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not _has_sym(xs) and (key is None):
        return min(xs, **k) if xs or not k else k["default"]
    if not xs:
        if "default" in k:
            return k["default"]
        raise ValueError("min() arg is an empty sequence")
    kf = key or (lambda v: v)
    b = xs[0]
    for x in xs[1:]:
        if bool(kf(x) < kf(b)):
            b = x
    return b


def _all(xs):
    fs = []
    for x in xs:
        if isb(x) and not x:
            return False
        if isinstance(x, (SBool, S)) or isb(x):
            fs.append(x)
        elif not x:
            return False
    return band(*fs)


def _any(xs):
    fs = []
    for x in xs:
        if isb(x) and x:
            return True
        if isinstance(x, (SBool, S)) or isb(x):
            fs.append(x)
        elif x:
            return True
    return bor(*fs)


def _sorted(xs, key=None, reverse=False):
    xs = list(xs)
    kf = key or (lambda v: v)
    ks = [kf(x) for x in xs]
    if not _has_sym(ks):
        return sorted(xs, key=key, reverse=reverse)
    out = []
    for i, x in enumerate(xs):
        k = len(out)
        while k > 0 and bool((ks[i] > ks[out[k - 1]]) if reverse else (ks[i] < ks[out[k - 1]])):
            k -= 1
        out.insert(k, i)
    return [xs[i] for i in out]


def _type(*a):
    if len(a) == 1:
        x = a[0]
        if type(x) is S:
            if x.has_I():
                return complex
            return int if x.is_int() and x.const() is None else float
        if isinstance(x, (SArr, _IntArrT)):
            return np.ndarray
        return type(x)
    return type(*a)


def _len(x):
    if isinstance(x, SArr) and x.ndim == 0:
        raise TypeError("len() of unsized object")
    return len(x)


def _pow(a, b, *m):
    if m:
        return pow(int(a), int(b), *m)
    return a**b


def _round(x, nd=None):
    if type(x) is S:
        return x.__round__(nd)
    return round(x) if nd is None else round(x, nd)


def _bool(x=False):
    return builtins.bool(x)


# ------------------------------------------------------------- caches
CACHES = []


def _lru_cache(maxsize=128, typed=False):
    def deco(f):
        cache = {}
        CACHES.append(cache)

        @functools.wraps(f)
        def g(*a, **k):
            key = (tuple(_ckey(x) for x in a), tuple(sorted((n, _ckey(v)) for n, v in k.items())))
            if key in cache:
                return cache[key]
            r = f(*a, **k)
            cache[key] = r
            return r

        g.cache_clear = cache.clear
        g.__wrapped__ = f
        return g

    if callable(maxsize):
        f = maxsize
        maxsize = None
        return deco(f)
    return deco


def _ckey(x):
    if type(x) is S:
        c = x.const()
        return c if c is not None else ("S", x.key())
    if isinstance(x, np.ndarray):
        raise TypeError("unhashable type: 'numpy.ndarray'")
    hash(x)
    return x


# ------------------------------------------------------------- numba
def _jit(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]

    def deco(f):
        if k.get("parallel"):
            access.PARALLEL.add(f.__code__)
        return f

    return deco


def _prange(*a):
    r = _range(*a)
    if access.ACTIVE is not None:
        return access.ACTIVE.hook(r, sys._getframe(1))
    return r


def _tuple_setitem(t, i, v):
    l = list(t)
    l[_ix(i)] = v
    return tuple(l)


def _ix(i):
    return i.__index__()


def _mod(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    return m


_NBINOM = []


def _factorial(n, exact=False):
    def f(x):
        if type(x) is S:
            c = x.const()
            if c is None:
                if x.is_int():
                    x = int(x)
                else:
                    raise Unsupported("factorial of symbolic real")
            else:
                if c.denominator != 1:
                    raise Unsupported("factorial of a non-integer")
                x = int(c)
        if x < 0:
            return ZERO
        return tos(math.factorial(int(x)))

    if isinstance(n, (np.ndarray, list, tuple)):
        return mapS(f, asS(n))
    return f(n)


def _factorial2(n, exact=False, extend="zero"):
    def f(x):
        c = x.const()
        if c is None:
            x = tos(int(x))
            c = x.const()
        if c.denominator != 1:
            raise Unsupported("factorial2 of non-integer")
        x = int(c)
        if x == -1:
            return ONE
        if x <= 0:
            if x == 0:
                return sqrt(2 / SC.pi()) if extend == "complex" else ONE
            if extend == "complex":
                # z!! = odd negative: continue (n)!! = (n+2)!!/(n+2)
                if x % 2:
                    r = ONE
                    y = -1
                    while y > x:
                        r = r / y
                        y -= 2
                    return r
                raise Unsupported("factorial2 pole")
            return ZERO
        r = 1
        y = x
        while y > 1:
            r *= y
            y -= 2
        if extend == "complex" and x % 2 == 0:
            # scipy's complex extension differs for even arguments by sqrt(2/pi)
            return tos(r) * sqrt(2 / SC.pi())
        return tos(r)

    if isinstance(n, (np.ndarray, list, tuple)):
        return mapS(f, asS(n))
    return f(tos(n))


def _binom(n, k):
    n, k = tos(n), tos(k)
    kc = k.const()
    if kc is None or kc.denominator != 1:
        if k.is_int():
            kc = Fraction(int(k))
        else:
            raise Unsupported("binom of a non-integer k")
    kc = int(kc)
    if kc < 0:
        return ZERO
    nc = n.const()
    if nc is not None and nc.denominator == 1 and nc >= 0:
        return tos(math.comb(int(nc), kc))
    r = ONE
    for i in range(kc):
        r = r * (n - i) / (i + 1)
    return r


def _hyp2f1(a, b, c, z):
    a, b, c, z = tos(a), tos(b), tos(c), tos(z)

    def term(a, b, c, z, n):
        r = ONE
        t = ONE
        for k in range(n):
            if (c + k).is_zero():
                raise Unsupported("hyp2f1 pole")
            t = t * (a + k) * (b + k) / ((c + k) * (k + 1)) * z
            r = r + t
        return r

    for p, q in ((a, b), (b, a)):
        pc = p.const()
        if pc is not None and pc.denominator == 1 and pc <= 0:
            return term(p, q, c, z, int(-pc))
    # Euler transformation: (1-z)^(c-a-b) F(c-a, c-b; c; z)
    for p, q in ((c - a, c - b), (c - b, c - a)):
        pc = p.const()
        if pc is not None and pc.denominator == 1 and pc <= 0:
            return (1 - z) ** (c - a - b) * term(p, q, c, z, int(-pc))
    raise Unsupported("non-terminating hyp2f1")


def _block_diag(*ms):
    ms = [asS(m) for m in ms]
    ms = [m.reshape(1, -1) if m.ndim < 2 else m for m in ms]
    n = sum(m.shape[0] for m in ms)
    k = sum(m.shape[1] for m in ms)
    r = full((n, k), ZERO, None)
    i = j = 0
    for m in ms:
        np.asarray(r)[i:i + m.shape[0], j:j + m.shape[1]] = np.asarray(m)
        i += m.shape[0]
        j += m.shape[1]
    return r


def _contracted(name):
    def f(*a, **k):
        c = ctx()
        h = getattr(c, "linalg_contracts", {}).get(name) if c is not None else None
        if h is not None:
            r = h(*a, **k)
            if r is not None:
                return r
        d = _DEFAULTS.get(name)
        if d is not None:
            return d(*a, **k)
        raise Unsupported("scipy %s" % name)

    f.__name__ = name
    return f


def _sqrtm_default(a, **k):
    """principal square root for matrices made of 1x1 / 2x2 blocks (PSD)"""
    a = asS(a)
    M = [[tos(x) for x in r] for r in np.asarray(a)]
    n = len(M)
    out = full((n, n), ZERO, None)
    o = np.asarray(out)
    for comp in sarr._components(M):
        if len(comp) == 1:
            i = comp[0]
            o[i, i] = sqrt(M[i][i])
        elif len(comp) == 2:
            i, j = comp
            d = M[i][i] * M[j][j] - M[i][j] * M[j][i]
            s = sqrt(d)
            t = sqrt(M[i][i] + M[j][j] + 2 * s)
            if t.is_zero():
                continue
            o[i, i] = (M[i][i] + s) / t
            o[j, j] = (M[j][j] + s) / t
            o[i, j] = M[i][j] / t
            o[j, i] = M[j][i] / t
        else:
            raise Unsupported("sqrtm of an irreducible %dx%d matrix" % (len(comp), len(comp)))
    return out


def _expm_default(a):
    raise Unsupported("expm")


_DEFAULTS = {"sqrtm": _sqrtm_default}


def _cholesky(a, lower=False, **k):
    L = sarr.LINALG.cholesky(a)
    return L if lower else L.T.conj()


class _NBinom:
    @staticmethod
    def pmf(k, n, p, *a, **kw):
        def f(x):
            k_ = int(x)
            n_ = tos(n)
            return _binom(n_ + k_ - 1, k_) * tos(p) ** n_ * (1 - tos(p)) ** k_

        if isinstance(k, (np.ndarray, list, tuple, range)):
            return mkarr((len(k),), [f(x) for x in k], "float")
        return f(k)


def _symbols(spec, **k):
    if ":" in spec:
        base, hi = spec.split(":")
        pre = base.rstrip("0123456789")
        lo = int(base[len(pre):] or 0)
        names = [pre + str(i) for i in range(lo, int(hi))]
    else:
        names = spec.replace(",", " ").split()
    out = []
    for n in names:
        key = "sym_" + n
        v = T.byname.get(key)
        if v is None:
            v = T.new(key, "gen")
        out.append(SymS({1 << (P.BITS * v.i): 1}))
    return tuple(out) if len(out) > 1 or ":" in spec else out[0]


def SymS(n):
    return S(n)


def _coeff(self, m):
    m = tos(m)
    if len(m.n) != 1:
        raise Unsupported("coeff")
    (mm, c), = m.n.items()
    items = P.mono_items(mm)
    if not items:
        # sympy: terms free of all symbols
        syms = [v.i for v in T.vars if v.name.startswith("sym_")]
        return S.mk({k: v for k, v in self.n.items() if not any((k >> (P.BITS * i)) & P.FULL for i in syms)}, self.q, self.d)
    out = {}
    for k, v in self.n.items():
        if all(((k >> (P.BITS * i)) & P.FULL) == e for i, e in items):
            out[k - mm] = v
    return S.mk(out, self.q, self.d)


S.coeff = _coeff
S.expand = lambda self: self


class _SpMeta(type):
    """scipy sparse arrays: dense symbolic arrays that carry their format"""

    def __instancecheck__(cls, x):
        return getattr(x, "_sp", None) == cls.kind

    def __call__(cls, x, shape=None, dtype=None, copy=False):
        a = asS(x).copy()
        a._sp = cls.kind
        return a


def _sparse_class(kind):
    return _SpMeta(kind + "_array", (), {"kind": kind})


def _sparse_identity(n, dtype="d", format=None):
    a = asS(NP.eye(n, dtype=dtype)).copy()
    a._sp = format or "dia"
    return a


def _issparse(x):
    return getattr(x, "_sp", None) is not None


class _Result:
    def __init__(self, root):
        self.root = root
        self.converged = True


def _root_scalar(f, *a, **k):
    c = ctx()
    h = getattr(c, "root_handler", None)
    if h is None:
        raise Unsupported("root_scalar without a contract")
    return _Result(h(f, *a, **k))


class _Delayed:
    def __init__(self, f):
        self.f = f

    def __call__(self, *a, **k):
        return _Lazy(self.f, a, k)


class _Lazy:
    def __init__(self, f, a, k):
        self.f, self.a, self.k = f, a, k

    def compute(self, **k):
        return self.f(*self.a, **self.k)


def _dask_compute(*xs, **k):
    return tuple(x.compute() if isinstance(x, _Lazy) else x for x in xs)


def _warn(*a, **k):
    c = ctx()
    if c is not None:
        c.notes.append(("warn", str(a[0]) if a else ""))


def make_shims():
    import itertools

    sp_special = _mod(
        "scipy.special", factorial=_factorial, factorial2=_factorial2, binom=_binom, comb=_binom, hyp2f1=_hyp2f1,
        erf=lambda x: SC.uf("erf", tos(x)),
    )
    sp_linalg = _mod("scipy.linalg", block_diag=_block_diag, cholesky=_cholesky, inv=inverse, det=det)
    for nm in ("sqrtm", "schur", "polar", "qr", "svd", "eigh", "eigvalsh", "eig", "expm", "logm"):
        setattr(sp_linalg, nm, _contracted(nm))
    sp_opt = _mod("scipy.optimize", root_scalar=_root_scalar)
    sp_stats = _mod("scipy.stats", nbinom=_NBinom, unitary_group=None)
    sp_sparse = _mod(
        "scipy.sparse", identity=_sparse_identity, eye=_sparse_identity, issparse=_issparse,
        **{k + "_array": _sparse_class(k) for k in ("coo", "dia", "bsr", "csr", "csc", "lil", "dok")},
    )
    sp = _mod("scipy", special=sp_special, linalg=sp_linalg, optimize=sp_opt, stats=sp_stats, sparse=sp_sparse, __version__="0")
    nb_tuple = _mod("numba.cpython.unsafe.tuple", tuple_setitem=_tuple_setitem)
    nb_unsafe = _mod("numba.cpython.unsafe", tuple=nb_tuple)
    nb_cpy = _mod("numba.cpython", unsafe=nb_unsafe)

    class _TypesShim:
        def __getattr__(self, n):
            return None

    nb = _mod(
        "numba", jit=_jit, njit=_jit, prange=_prange, cpython=nb_cpy, __version__="0", vectorize=_jit, generated_jit=_jit,
        types=_TypesShim(), typed=_TypesShim(), set_num_threads=lambda n: None, get_num_threads=lambda: 1,
        int64=DT["int"], float64=DT["float"], complex128=DT["complex"],
    )
    dask = _mod("dask", delayed=lambda f: _Delayed(f), compute=_dask_compute, __version__="0")
    sympy = _mod("sympy", symbols=_symbols, expand=lambda x: x, __version__="0")
    ft = _mod("functools", **{k: getattr(functools, k) for k in dir(functools) if not k.startswith("__")})
    ft.lru_cache = _lru_cache
    ft.cache = _lru_cache(None)
    wn = _mod("warnings", warn=_warn, catch_warnings=__import__("warnings").catch_warnings, simplefilter=lambda *a, **k: None, filterwarnings=lambda *a, **k: None)
    mt = _mod("math", **{k: getattr(math, k) for k in dir(math) if not k.startswith("__")})
    mt.sqrt = lambda x: sqrt(tos(x))
    mt.factorial = lambda x: math.factorial(x.__index__() if type(x) is S else x)
    mt.comb = lambda n, k: math.comb(n.__index__(), k.__index__())
    mt.exp = lambda x: exp(tos(x))
    mt.prod = lambda xs, start=1: NP.prod(list(xs)) * start if _has_sym(list(xs)) else math.prod(xs)
    return {
        "numpy": NP, "numpy.linalg": NP.linalg, "numpy.random": NP.random, "scipy": sp, "scipy.special": sp_special,
        "scipy.linalg": sp_linalg, "scipy.optimize": sp_opt, "scipy.stats": sp_stats, "scipy.sparse": sp_sparse,
        "numba": nb, "numba.cpython": nb_cpy, "numba.cpython.unsafe": nb_unsafe,
        "numba.cpython.unsafe.tuple": nb_tuple, "dask": dask, "sympy": sympy, "functools": ft, "warnings": wn,
        "math": mt,
    }


_SHIMS = None


class World:
    """one symbolic instance of the package"""

    def __init__(self, patches=None):
        global _SHIMS
        if _SHIMS is None:
            _SHIMS = make_shims()
        self.mods = {}
        self.patches = patches or {}
        CACHES.clear()
        b = dict(vars(builtins))
        b.update(
            __import__=self._import, range=_range, isinstance=_isinstance, abs=_abs, sum=_sum, max=_max, min=_min,
            all=_all, any=_any, sorted=_sorted, type=_type, len=_len, pow=_pow, round=_round,
            int=sarr._myint, float=sarr._myfloat, complex=sarr._mycomplex,
        )
        self.builtins = b

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            base = pkg.split(".")
            if level > 1:
                base = base[: -(level - 1)]
            name = ".".join(base + ([name] if name else []))
        if name == "thewalrus" or name.startswith("thewalrus."):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f) and exists(name + "." + f):
                        self.load(name + "." + f)
                return m
            return self.load("thewalrus")
        if name in _SHIMS:
            m = _SHIMS[name]
            if fromlist:
                return m
            return _SHIMS[name.split(".")[0]]
        top = name.split(".")[0]
        if name.startswith(("numpy._core", "numpy.lib", "numpy.core", "numpy.exceptions", "numpy._utils")):
            return __import__(name, globals, locals, fromlist, 0)  # lazy imports made by numpy's C code
        if top in ("numpy", "scipy", "numba"):
            raise Unsupported("import %s" % name)
        return __import__(name, globals, locals, fromlist, 0)

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        parent = name.rpartition(".")[0]
        if parent:
            self.load(parent)
            m = self.mods.get(name)
            if m is not None:
                return m
        code, p, pkg = code_for(name)
        m = types.ModuleType(name)
        m.__file__ = p
        m.__package__ = name if pkg else parent
        if pkg:
            m.__path__ = [os.path.dirname(p)]
        m.__builtins__ = self.builtins
        self.mods[name] = m
        exec(code, m.__dict__)
        if parent:
            setattr(self.mods[parent], name.rpartition(".")[2], m)
        for attr, val in self.patches.get(name, {}).items():
            if hasattr(m, attr):
                setattr(m, attr, val)
        return m


def precompile():
    for root, _, files in os.walk(os.path.join(REPO, "thewalrus")):
        if "/tests" in root:
            continue
        for f in files:
            if f.endswith(".py"):
                rel = os.path.relpath(os.path.join(root, f), REPO)[:-3].replace("/", ".")
                if rel.endswith(".__init__"):
                    rel = rel[:-9]
                try:
                    code_for(rel)
                except SyntaxError:
                    pass
