"""Memory accesses of loops that numba runs in parallel.

A `Run` drives every prange loop of a function compiled with parallel=True through one schedule and records which
cells of which arrays each iteration reads, writes, or updates as a numba array reduction.

Numba's semantics modelled here: variables assigned in the body are private; `x += ...` on a variable defined outside the
loop is a reduction (scalars: commutative; whole arrays: every thread owns a private copy that starts at zero and is added
to the initial value at the end); every other array access goes to shared memory without synchronisation.
"""
import ast
import ctypes
import sys
import warnings

import numpy as np

_full, _zeros_like = np.full, np.zeros_like

PARALLEL = set()  # code objects of functions compiled with parallel=True
ACTIVE = None


def _root(a):
    while isinstance(a.base, np.ndarray):
        a = a.base
    return a


def _addr(a):
    p = np.asarray(a)
    r = _full(p.shape, p.__array_interface__["data"][0], dtype=np.int64)
    for k, (n, s) in enumerate(zip(p.shape, p.strides)):
        r = r + (np.arange(n) * s).reshape([-1 if i == k else 1 for i in range(p.ndim)])
    return r


def _reductions(code):
    """name -> operator of the accumulations written in a function's loops"""
    ops = {}
    try:
        tree = ast.parse(open(code.co_filename).read())
    except (OSError, SyntaxError):
        return ops
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef) and f.name == code.co_name:
            loops = [l for l in ast.walk(f) if isinstance(l, ast.For) and isinstance(l.iter, ast.Call) and "prange" in ast.dump(l.iter.func)]
            for x in [y for l in loops for y in ast.walk(l)]:
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                    ops[x.target.id] = "*" if isinstance(x.op, (ast.Mult, ast.Div)) else "+"
                elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                    t, v = x.targets[0].id, x.value
                    if isinstance(v, ast.BinOp) and isinstance(v.op, (ast.Mult, ast.Div)) and any(isinstance(y, ast.Name) and y.id == t for y in (v.left, v.right)):
                        ops[t] = "*"
                    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("max", "min") and any(isinstance(y, ast.Name) and y.id == t for y in v.args):
                        ops[t] = v.func.id
    return ops


_MISSING = object()


class _Locals:
    """the local variables of a parallel loop, private to each thread"""

    def __init__(self, frame):
        self.f = frame
        self.ok = sys.version_info < (3, 13)
        self.pre = dict(frame.f_locals) if self.ok else {}
        self.priv = {}  # thread -> {name: value}
        self.names = set()
        self.last = None

    def _store(self, d):
        loc = self.f.f_locals
        for n, v in d.items():
            if v is _MISSING:
                loc.pop(n, None)
            else:
                loc[n] = v
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")  # unbound variables become None
            ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(self.f), ctypes.c_int(1))

    def enter(self, t):
        if not self.ok or self.last in (None, t):
            self.last = t
            return
        self.last = t
        mine = self.priv.get(t, {})
        self._store({n: mine.get(n, self.pre.get(n, _MISSING)) for n in self.names})

    def leave(self, t):
        if not self.ok:
            return
        now = dict(self.f.f_locals)
        self.names |= {n for n, v in now.items() if self.pre.get(n, _MISSING) is not v}
        self.priv[t] = {n: now[n] for n in self.names if n in now}

    def combine(self):
        if not self.ok or len(self.priv) < 2:
            return
        ops = _reductions(self.f.f_code)
        out = {}
        for n in self.names:
            a = self.pre.get(n, _MISSING)
            vs = [p[n] for p in self.priv.values() if n in p]
            if a is _MISSING or not vs or n not in ops and not isinstance(a, np.ndarray) and any(isinstance(v, np.ndarray) for v in vs):
                continue
            try:
                if ops.get(n) in ("max", "min"):
                    r = a
                    for v in vs:
                        r = v if bool(v > r) == (ops[n] == "max") else r
                elif ops.get(n) == "*":
                    r = a
                    for v in vs:
                        r = r * (v / a)
                else:
                    r = a
                    for v in vs:
                        r = r + (v - a)
            except (TypeError, ZeroDivisionError, ValueError):
                continue
            out[n] = r
        self._store(out)


class Run:
    def __init__(self, first=0, back=False, threads=2):
        self.first, self.back, self.threads = first, back, threads
        self.cur = None
        self.events = set()  # (loop, iteration, op, address, id of the array object)
        self.keep = {}
        self.pre = {}
        self.reds = {}
        self.mute = 0
        self.loops = 0
        self.sizes = []

    # ------------------------------------------------------------ recording
    def _log(self, op, a, ix):
        if self.cur is None or self.mute:
            return
        r = _addr(a)
        if ix is not None:
            try:
                r = r[ix]
            except (IndexError, TypeError, ValueError):
                return
        root = _root(a)
        self.keep[id(a)] = a
        self.keep[id(root)] = root
        if op != "r" and id(root) not in self.pre:
            self.pre[id(root)] = np.array(np.asarray(root), copy=True)
        loop, j = self.cur
        for c in np.asarray(r).reshape(-1):
            self.events.add((loop, j, op, int(c), id(a) if op == "u" else 0))
        if op == "u" and np.asarray(a).size == root.size:
            self.reds[id(root)] = root

    def read(self, a, ix=None, result=None):
        if isinstance(result, np.ndarray) and result.ndim and np.may_share_memory(np.asarray(result), np.asarray(a)):
            return  # a view: its uses are recorded
        self._log("r", a, ix)

    def write(self, a, ix=None):
        self._log("w", a, ix)

    def update(self, a):
        self._log("u", a, None)

    # ------------------------------------------------------------ schedule
    def hook(self, r, frame):
        if frame.f_code not in PARALLEL:
            return r
        return self._gen(list(r), frame)

    def _gen(self, its, frame):
        n = len(its)
        self.sizes.append(n)
        if n == 0:
            return
        outer = self.cur
        if outer is not None:  # nested prange loops run sequentially
            yield from its
            return
        loop = self.loops
        self.loops += 1
        k = self.first % n
        order = its[k:] + its[:k]
        if self.back:
            order = order[::-1]
        self.pre, self.reds = {}, {}
        priv = {}
        local = _Locals(frame)
        for p, j in enumerate(order):
            t = p * self.threads // n
            local.enter(t)
            for i, root in self.reds.items():
                root[...] = priv[i].get(t, _zeros_like(self.pre[i]) if self.pre[i].dtype != object else 0)
            self.cur = (loop, j)
            yield j
            self.cur = None
            local.leave(t)
            for i, root in self.reds.items():
                if i not in priv:
                    priv[i] = {t: root - self.pre[i]}
                else:
                    priv[i][t] = root.copy()
        for i, root in self.reds.items():
            s = self.pre[i]
            for v in priv[i].values():
                s = s + v
            root[...] = s
        self.mute += 1
        local.combine()
        self.mute -= 1
        self.cur = outer

    # ------------------------------------------------------------ verdict
    def tables(self):
        """(writes, accesses): lists of (loop, iteration, cell) where reductions of one and the same array are left out"""
        by = {}
        for loop, j, op, c, o in self.events:
            by.setdefault((loop, c), []).append((j, op, o))
        W, A = [], []
        num = {}
        for (loop, c), ev in sorted(by.items()):
            if len({o for _, op, o in ev if op == "u"}) == 1 and self._whole(ev):
                continue  # private to each thread
            k = num.setdefault(c, len(num))
            for j, op, o in ev:
                A.append((loop, j, k))
                if op != "r":
                    W.append((loop, j, k))
        return sorted(set(W)), sorted(set(A))

    def _whole(self, ev):
        return any(op == "u" and o in self.keep and _root(self.keep[o]).size == np.asarray(self.keep[o]).size for _, op, o in ev)

    def __enter__(self):
        global ACTIVE
        ACTIVE = self
        return self

    def __exit__(self, *a):
        global ACTIVE
        ACTIVE = None


# ---------------------------------------------------------------- concrete arrays (replays)
class LogArr(np.ndarray):
    def __getitem__(self, ix):
        r = np.ndarray.__getitem__(self, ix)
        if ACTIVE is not None:
            ACTIVE.read(self, ix, r)
        return r

    def __setitem__(self, ix, v):
        if ACTIVE is not None:
            ACTIVE.write(self, ix)
        np.ndarray.__setitem__(self, ix, v)

    def _in(self, o, f):
        if ACTIVE is not None:
            ACTIVE.update(self)
        p = np.asarray(self)
        p[...] = f(p, np.asarray(o))
        return self

    def __iadd__(self, o):
        return self._in(o, np.add)

    def __isub__(self, o):
        return self._in(o, np.subtract)

    def __imul__(self, o):
        return self._in(o, np.multiply)

    def __itruediv__(self, o):
        return self._in(o, np.divide)

    def _plain(self, x, log=True):
        if isinstance(x, LogArr):
            if log and ACTIVE is not None:
                ACTIVE.read(x)
            return np.asarray(x)
        if isinstance(x, (list, tuple)):
            return type(x)(self._plain(y) for y in x)
        return x

    def _wrapped(self, r):
        if isinstance(r, np.ndarray) and r.ndim:
            return r.view(LogArr)
        if isinstance(r, tuple) and type(r) is tuple:
            return tuple(self._wrapped(x) for x in r)
        return r

    def __array_ufunc__(self, u, method, *inputs, **k):
        out = k.get("out")
        if out is not None:
            for o in out:
                if isinstance(o, LogArr) and ACTIVE is not None:
                    ACTIVE.write(o)
            k["out"] = tuple(np.asarray(o) for o in out)
        r = getattr(u, method)(*[self._plain(x) for x in inputs], **k)
        return out[0] if out is not None else self._wrapped(r)

    def __array_function__(self, func, types, args, kw):
        r = func(*[self._plain(x) for x in args], **{n: self._plain(x) for n, x in kw.items()})
        return self._wrapped(r)

    def __array_finalize__(self, obj):
        pass


def log_args(f):
    """used in interpreted replays around every function compiled with parallel=True"""

    def w(*a, **k):
        if ACTIVE is None:
            return f(*a, **k)
        lg = lambda x: x.view(LogArr) if type(x) is np.ndarray and x.ndim else x
        olds = {n: getattr(np, n) for n in ("zeros", "empty", "ones", "zeros_like", "empty_like", "ones_like", "full")}
        try:
            for n, o in olds.items():
                setattr(np, n, lambda *p, _o=o, **q: lg(_o(*p, **q)))
            return f(*[lg(x) for x in a], **{n: lg(x) for n, x in k.items()})
        finally:
            for n, o in olds.items():
                setattr(np, n, o)

    w.__name__ = f.__name__
    w.__doc__ = f.__doc__
    w.__wrapped__ = f
    w.py_func = f
    return w


def install_recorder():
    """numba.jit of an interpreted run: remembers the functions marked parallel"""
    import numba

    old_jit, old_njit = numba.jit, numba.njit

    def mk(old):
        def jit(*a, **k):
            if len(a) == 1 and callable(a[0]) and not k:
                return old(a[0])
            d = old(*a, **k)

            def deco(f):
                g = d(f)
                if k.get("parallel"):
                    PARALLEL.add(f.__code__)
                    return log_args(g)
                return g

            return deco

        return jit

    numba.jit, numba.njit = mk(old_jit), mk(old_njit)
    old = numba.prange

    def prange(*a):
        if ACTIVE is not None:
            return ACTIVE.hook(range(*[int(x) for x in a]), sys._getframe(1))
        return range(*[int(x) for x in a])

    numba.prange = prange
    return old
