"""Case registry and the two backends (symbolic, replay) of the harness API."""
import importlib
import math
import os
import sys

import numpy as np

CASES = {}  # property -> list of Case


class Case:
    def __init__(self, prop, name, fn, tier, bounds, args, opts, boundscheck):
        self.prop, self.name, self.fn, self.tier, self.bounds, self.args, self.opts = prop, name, fn, tier, bounds, args, opts
        self.boundscheck = boundscheck

    def __call__(self, h):
        return self.fn(h, *self.args)


def case(prop, name, *args, tier="quick", bounds="", opts=None, boundscheck=False):
    """decorator; args are passed to the function after h"""

    def deco(fn):
        CASES.setdefault(prop, []).append(Case(prop, name, fn, tier, bounds or fn.__doc__ or "", args, opts or {}, boundscheck))
        return fn

    return deco


def load_checks(prop):
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks", prop.lower() + ".py")
    if not os.path.exists(p):
        raise SystemExit("no check for " + prop)
    importlib.import_module("checks." + prop.lower())
    cs = CASES.get(prop, [])
    names = [c.name for c in cs]
    assert len(names) == len(set(names)), "duplicate case names"
    return cs


class AssumeFailed(Exception):
    pass


class SkipReplay(Exception):
    """the case cannot be replayed concretely (contract-only)"""


class NotPresent(Exception):
    """an internal function the case addresses does not exist in this tree"""


class BaseH:
    def need(self, mod, *names):
        """internal functions of a module (not part of the documented interface): the case is
        reported as inconclusive when a refactoring removed one of them"""
        m = self.mod(mod)
        for n in names:
            if not hasattr(m, n):
                raise NotPresent("%s.%s" % (mod, n))
        return m

    def reals(self, prefix, n, **k):
        return [self.real("%s%d" % (prefix, i), **k) for i in range(n)]

    def matrix(self, prefix, n, m=None, ld=None, kind="gen"):
        m = n if m is None else m
        rows = [[self._v(kind, "%s_%d_%d" % (prefix, i, j)) for j in range(m)] for i in range(n)]
        return self.array(rows, ld=ld, shape=(n, m))

    def _v(self, kind, name):
        if kind == "cplx":
            return self.cplx(name)
        return self.real(name, kind=kind)

    def symmetric(self, prefix, n, ld=None, kind="gen", zero_diag=False):
        e = {}
        for i in range(n):
            for j in range(i, n):
                v = 0 if (zero_diag and i == j) else self._v(kind, "%s_%d_%d" % (prefix, i, j))
                e[i, j] = e[j, i] = v
        return self.array([[e[i, j] for j in range(n)] for i in range(n)], ld=ld, shape=(n, n))

    def hermitian(self, prefix, n, ld="complex"):
        e = {}
        for i in range(n):
            e[i, i] = self.real("%s_%d_%d" % (prefix, i, i))
            for j in range(i + 1, n):
                z = self.cplx("%s_%d_%d" % (prefix, i, j))
                e[i, j] = z
                e[j, i] = self.conj(z)
        return self.array([[e[i, j] for j in range(n)] for i in range(n)], ld=ld, shape=(n, n))

    def line_symmetric(self, prefix, n, seed, ld=None, nv=1, lo=-4, hi=4, zero_diag=False):
        """symmetric matrix of affine functions of nv symbolic parameters: a generic line
        (plane) through matrix space with integer coefficients drawn from `seed`"""
        import random

        r = random.Random(seed)
        ts = [self.real("%s_t%d" % (prefix, k), kind="gen") for k in range(nv)]
        e = {}
        for i in range(n):
            for j in range(i, n):
                v = r.randint(lo, hi) or 1
                for t in ts:
                    v = v + (r.randint(lo, hi) or 1) * t
                e[i, j] = e[j, i] = 0 if (zero_diag and i == j) else v
        return self.array([[e[i, j] for j in range(n)] for i in range(n)], ld=ld, shape=(n, n))

    def line_matrix(self, prefix, n, m, seed, ld=None, nv=1, lo=-4, hi=4):
        import random

        r = random.Random(seed)
        ts = [self.real("%s_t%d" % (prefix, k), kind="gen") for k in range(nv)]
        rows = []
        for i in range(n):
            row = []
            for j in range(m):
                v = r.randint(lo, hi) or 1
                for t in ts:
                    v = v + (r.randint(lo, hi) or 1) * t
                row.append(v)
            rows.append(row)
        return self.array(rows, ld=ld, shape=(n, m))

    def vector(self, prefix, n, ld=None, kind="gen"):
        return self.array([self._v(kind, "%s_%d" % (prefix, i)) for i in range(n)], ld=ld, shape=(n,))

    def raises(self, label, fn, exc=Exception):
        """the call must raise exc"""
        try:
            fn()
        except exc as e:
            if self.symbolic:
                from .scalar import Unsupported

                if isinstance(e, Unsupported):
                    raise
            self.true(label, True)
            return
        self.true(label, False)


class SymH(BaseH):
    symbolic = True

    def __init__(self, ctx, tier="quick", patches=None):
        from . import loader, scalar, sarr

        self.c = ctx
        self.tier = tier
        self.patches = patches
        self.W = loader.World(patches)
        self._sc = scalar
        self._sa = sarr
        self.np = sarr.NP
        self._goals = 0

    def patch(self, mod, name, val):
        """replace a function by its contract (listed in the evidence)"""
        m = self.W.load(mod)
        if hasattr(m, name):
            old = getattr(m, name)
            setattr(m, name, val)
            # names already imported elsewhere
            for mm in list(self.W.mods.values()):
                for a, v in list(vars(mm).items()):
                    if v is old:
                        setattr(mm, a, val)

    def wrap(self, mod, name, fn):
        """route calls of mod.name through fn(original, *args, **kw), symbolically and in replays"""
        m = self.W.load(mod)
        old = getattr(m, name, None)
        if old is None:
            raise NotPresent("%s.%s" % (mod, name))

        def w(*a, **k):
            return fn(old, *a, **k)

        w.__name__ = name
        for mm in list(self.W.mods.values()):
            for a, v in list(vars(mm).items()):
                if v is old:
                    setattr(mm, a, w)

    def linalg(self, name, fn):
        """route numpy.linalg.name / scipy.linalg.name through fn(original or None, *args, **kw)"""
        self.contract(**{name: lambda *a, **k: fn(None, *a, **k)})

    def mod(self, name="thewalrus"):
        return self.W.load(name)

    def real(self, name, lo=None, hi=None, kind="real"):
        return self.c.declare(name, kind, lo=lo, hi=hi)

    def pos(self, name, lo=None, hi=None):
        return self.c.declare(name, "pos", lo=lo, hi=hi)

    def cplx(self, name):
        return self.c.declare(name + "r") + self._sc.IMAG * self.c.declare(name + "i")

    def int(self, name, lo, hi):
        return self.c.declare(name, "int", lo=lo, hi=hi)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        v = self.c.declare(name, "int", lo=0, hi=len(options) - 1)
        return options[self.c.concretize_int(v)]

    def array(self, rows, ld=None, shape=None):
        a = self._sa.asS(rows)
        if shape is not None and a.shape != tuple(shape):
            a = self._sa.mkarr(shape, a.tolist_raw())
        if a is rows:
            a = a.copy()
        a._ld = ld
        if ld in ("int",) and all(x.const() is not None for x in a.tolist_raw()):
            return self._sa.castarr(a, "int")
        return a

    def ints(self, xs):
        return np.array(xs, dtype=int)

    def sparse(self, a, kind):
        a = self._sa.asS(a).copy()
        a._sp = kind
        return a

    def dense(self, x):
        return x

    def num(self, x):
        return self._sc.tos(x)

    I = property(lambda self: self._sc.IMAG)
    pi = property(lambda self: self._sc.pi())

    def conj(self, x):
        return self._sc.tos(x).conjugate() if not isinstance(x, np.ndarray) else self._sa.asS(x).conj()

    def re(self, x):
        return self._sc.tos(x).real

    def im(self, x):
        return self._sc.tos(x).imag

    def sqrt(self, x):
        return self._sc.sqrt(self._sc.tos(x))

    def exp(self, x):
        return self._sc.exp(self._sc.tos(x))

    def log(self, x):
        return self._sc.log(self._sc.tos(x))

    def cos(self, x):
        return self._sc.cos(self._sc.tos(x))

    def sin(self, x):
        return self._sc.sin(self._sc.tos(x))

    def cosh(self, x):
        return self._sc.cosh(self._sc.tos(x))

    def sinh(self, x):
        return self._sc.sinh(self._sc.tos(x))

    def tanh(self, x):
        return self._sc.tanh(self._sc.tos(x))

    def abs(self, x):
        return self._sc.sabs(self._sc.tos(x))

    def det(self, a):
        return self._sa.det(self._sa.asS(a))

    def inv(self, a):
        return self._sa.inverse(self._sa.asS(a))

    def mm(self, *xs):
        r = self._sa.asS(xs[0])
        for x in xs[1:]:
            r = self.np.matmul(r, x)
        return r

    def lst(self, a):
        if isinstance(a, self._sa.SArr):
            return a.tolist_raw()
        return [x for x in np.asarray(a).reshape(-1)]

    def assume(self, f):
        if isinstance(f, (self._sc.S,)):
            f = f != 0
        if isinstance(f, np.ndarray):
            f = self.np.all(f)
        self.c.assume(f)

    def And(self, *f):
        return self._sc.band(*f)

    def Or(self, *f):
        return self._sc.bor(*f)

    def Not(self, f):
        return self._sc.bnot(f)

    def iseq(self, a, b):
        """formula: all entries equal"""
        return self._sc.band(*[self._sc.eqf(x, y) for x, y in self._pairs("iseq", a, b)])

    def _pairs(self, label, a, b):
        tos = self._sc.tos
        if hasattr(a, "__len__") or hasattr(b, "__len__") or isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            A, B = self._sa.asS(a), self._sa.asS(b)
            if A.shape != B.shape:
                if B.ndim == 0 or A.ndim == 0:
                    A, B = np.broadcast_arrays(np.asarray(A), np.asarray(B))
                    return [(tos(x), tos(y)) for x, y in zip(A.reshape(-1), B.reshape(-1))]
                return None
            return [(tos(x), tos(y)) for x, y in zip(A.tolist_raw(), B.tolist_raw())]
        return [(tos(a), tos(b))]

    def eq(self, label, a, b, tol=None):
        self._goals += 1
        p = self._pairs(label, a, b)
        if p is None:
            self.c.goal_true(label + ":shape", False)
            return
        self.c.goal_eq(label, p)

    def true(self, label, f):
        self._goals += 1
        if isinstance(f, np.ndarray):
            f = self.np.all(f)
        self.c.goal_true(label, f)

    def contract(self, **k):
        d = getattr(self.c, "linalg_contracts", None)
        if d is None:
            d = self.c.linalg_contracts = {}
        d.update(k)

    def rng(self, **k):
        self.c.rng_handlers = k

    def root(self, f):
        self.c.root_handler = f

    def schedule(self, first, back, fn, threads=2):
        """runs fn with its parallel loops in the given order; -> (result, formula: the iterations are independent)"""
        from . import access

        with access.Run(first, back, threads) as run:
            r = fn()
        W, A = run.tables()
        v = [self.real(x, 0, 10**6, kind="int") for x in ("racing_loop", "racing_iteration", "other_iteration", "cell")]
        by = {}
        for l, j, c in W:
            by.setdefault((l, c), [set(), set()])[0].add(j)
        for l, j, c in A:
            if (l, c) in by:
                by[l, c][1].add(j)
        isin = lambda x, s: self.Or(*[x == k for k in sorted(s)])
        bad = [self.And(v[0] == l, v[3] == c, isin(v[1], w), isin(v[2], a), self.Not(v[1] == v[2])) for (l, c), (w, a) in by.items()]
        return r, self.Not(self.Or(*bad)) if bad else True, run.sizes


class RepH(BaseH):
    symbolic = False

    def __init__(self, values, tier="quick"):
        self.values = values
        self.tier = tier
        self.fails = []
        self.ngoals = 0
        self.np = np
        self.c = None
        self._undo = []

    def patch(self, *a):
        pass

    def _set(self, obj, name, val):
        self._undo.append((obj, name, getattr(obj, name)))
        setattr(obj, name, val)

    def close(self):
        for o, n, v in reversed(self._undo):
            setattr(o, n, v)
        self._undo = []

    def wrap(self, mod, name, fn):
        m = importlib.import_module(mod)
        old = getattr(m, name, None)
        if old is None:
            raise NotPresent("%s.%s" % (mod, name))
        w = lambda *a, **k: fn(old, *a, **k)
        import sys

        for n, mm in list(sys.modules.items()):
            if n.split(".")[0] == "thewalrus":
                for a, v in list(vars(mm).items()):
                    if v is old:
                        self._set(mm, a, w)

    def linalg(self, name, fn):
        import scipy.linalg

        for m in (np.linalg, scipy.linalg):
            if hasattr(m, name):
                old = getattr(m, name)
                self._set(m, name, lambda *a, _old=old, **k: fn(_old, *a, **k))

    def mod(self, name="thewalrus"):
        return importlib.import_module(name)

    def _get(self, name):
        if name not in self.values:
            # variable unconstrained on the explored path
            import zlib

            return 0.25 + (zlib.crc32(name.encode()) % 17) / 16.0
        return self.values[name]

    def real(self, name, lo=None, hi=None, kind="real"):
        return float(self._get(name))

    def pos(self, name, lo=None, hi=None):
        return float(self._get(name))

    def cplx(self, name):
        return complex(self._get(name + "r"), self._get(name + "i"))

    def int(self, name, lo, hi):
        return int(self.values.get(name, lo))

    def sparse(self, a, kind):
        import scipy.sparse

        return getattr(scipy.sparse, kind + "_array")(np.asarray(a))

    def dense(self, x):
        return x.toarray() if hasattr(x, "toarray") else x

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[int(self.values.get(name, 0))]

    def array(self, rows, ld=None, shape=None):
        a = np.array(rows)
        if shape is not None:
            a = a.reshape(shape)
        k = {"complex": np.complex128, "float": np.float64, "int": np.int64, None: None}[ld]
        if k is None and a.dtype == object:
            a = a.astype(complex)
        if k is None and a.dtype.kind in "iu":
            k = np.float64
        if k is not None:
            a = a.astype(k)
        return a

    def ints(self, xs):
        return np.array(xs, dtype=int)

    def num(self, x):
        return x

    I = 1j
    pi = math.pi

    def conj(self, x):
        return np.conj(x)

    def re(self, x):
        return np.real(x)

    def im(self, x):
        return np.imag(x)

    def sqrt(self, x):
        x = complex(x)
        if x.imag == 0 and x.real >= 0:
            return math.sqrt(x.real)
        import cmath

        return cmath.sqrt(x)

    def exp(self, x):
        return np.exp(x)

    def log(self, x):
        return np.log(x)

    def cos(self, x):
        return np.cos(x)

    def sin(self, x):
        return np.sin(x)

    def cosh(self, x):
        return np.cosh(x)

    def sinh(self, x):
        return np.sinh(x)

    def tanh(self, x):
        return np.tanh(x)

    def abs(self, x):
        return abs(x)

    def det(self, a):
        return np.linalg.det(np.asarray(a)) if len(a) else 1.0

    def inv(self, a):
        return np.linalg.inv(np.asarray(a))

    def mm(self, *xs):
        r = np.asarray(xs[0])
        for x in xs[1:]:
            r = r @ np.asarray(x)
        return r

    def lst(self, a):
        return list(np.asarray(a).reshape(-1))

    def assume(self, f):
        if not bool(np.all(f)):
            raise AssumeFailed()

    def And(self, *f):
        return all(bool(np.all(x)) for x in f)

    def Or(self, *f):
        return any(bool(np.all(x)) for x in f)

    def Not(self, f):
        return not bool(np.all(f))

    def iseq(self, a, b):
        return bool(np.allclose(np.asarray(a, dtype=complex), np.asarray(b, dtype=complex), rtol=1e-7, atol=1e-9))

    def eq(self, label, a, b, tol=None):
        self.ngoals += 1
        try:
            a = np.asarray(a, dtype=complex)
            b = np.asarray(b, dtype=complex)
        except (TypeError, ValueError) as e:
            self.fails.append((label, "not numeric: %s" % e))
            return
        if a.shape != b.shape and a.ndim and b.ndim:
            self.fails.append((label + ":shape", "%s vs %s" % (a.shape, b.shape)))
            return
        t = 1e-6 if tol is None else tol
        a, b = np.broadcast_arrays(a, b)
        if a.size == 0:
            return
        scale = max(1e-3, float(np.max(np.abs(b)))) if np.all(np.isfinite(b)) else 1.0
        bad = ~(np.abs(a - b) <= t * scale)
        if np.any(bad):
            ix = tuple(int(k) for k in np.argwhere(bad)[0]) if a.ndim else ()
            self.fails.append((label, "at %s: got %s expected %s" % (ix, a[ix], b[ix])))

    def true(self, label, f):
        self.ngoals += 1
        if not bool(np.all(f)):
            self.fails.append((label, "condition is false"))

    def schedule(self, first, back, fn, threads=2):
        from . import access

        with access.Run(first, back, threads) as run:
            r = fn()
        W, A = run.tables()
        acc = {}
        for l, j, c in A:
            acc.setdefault((l, c), set()).add(j)
        return r, all(acc[l, c] == {j} for l, j, c in W), run.sizes

    def contract(self, **k):
        pass

    def rng(self, **k):
        for n, f in k.items():
            if hasattr(np.random, n):
                self._set(np.random, n, f)

    def root(self, f):
        pass
