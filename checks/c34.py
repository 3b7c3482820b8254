"""Public functions leave the arrays, lists and dictionaries they are given as they were.

Symbolic inputs: those of the cases of the other properties, named by the case (all entries of the families stated there), plus the cases below.
Oracle: a copy of every argument taken before each call that a caller makes into the package, compared entry by entry afterwards, on every path.
Assumptions:
- exact arithmetic; the contracts of the borrowed case (for instance the Takagi factors handed to the encoding) are its own
- functions documented as working in place are not called by these cases; sizes bounded as in the borrowed case
"""
import types

import numpy as np

from engine import harness
from engine.harness import case
from .c34_list import BORROWED


def _snap(x):
    if isinstance(x, np.ndarray):
        return ("a", x.shape, [y for y in np.asarray(x).reshape(-1)])
    if isinstance(x, (list, tuple)):
        return ("l", [_snap(y) for y in x])
    if isinstance(x, dict):
        return ("d", [(k, _snap(v)) for k, v in x.items()])
    return None


def _same(h, label, x, s):
    if s is None:
        return
    if s[0] == "a":
        now = [y for y in np.asarray(x).reshape(-1)]
        h.true(label + " shape", x.shape == s[1])
        if len(now) and all(p is q for p, q in zip(now, s[2])):
            h.true(label, True)
        elif len(now):
            h.eq(label, h.array(now, shape=(len(now),)), h.array(s[2], shape=(len(now),)))
    elif s[0] == "l":
        h.true(label + " length", len(x) == len(s[1]))
        for i, (y, t) in enumerate(zip(x, s[1])):
            _same(h, label, y, t)
    else:
        h.true(label + " keys", list(x) == [k for k, _ in s[1]])
        for k, t in s[1]:
            _same(h, label, x[k], t)


def _flat(x):
    """the scalar entries of nested lists, by identity"""
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in _flat(y)]
    return [] if isinstance(x, (np.ndarray, dict)) else [x]


class _Mod:
    """a module of the package as seen by a caller"""

    def __init__(self, h, m):
        self.__dict__.update(_h=h, _m=m)

    def __getattr__(self, n):
        v = getattr(self._m, n)
        if isinstance(v, types.ModuleType):
            return _Mod(self._h, v)
        if n.startswith("_") or isinstance(v, type) or not callable(v):
            return v
        h = self._h

        def call(*a, **k):
            items = [("argument %d of %s" % (i, n), x, _snap(x), _flat(x)) for i, x in enumerate(a)]
            items += [("argument %s of %s" % (q, n), x, _snap(x), _flat(x)) for q, x in k.items()]
            try:
                return v(*a, **k)
            finally:
                for label, x, s, fl in items:
                    _same(h, label, x, s)
                    if s is not None and s[0] == "l":
                        now = _flat(x)
                        h.true(label + " entries", len(now) == len(fl) and all(p is q or bool(p == q) for p, q in zip(now, fl)))
                h.seen.add(n)

        return call


class _H:
    """the harness of a borrowed case: its own goals are not asked again"""

    def __init__(self, h):
        self.__dict__["_base"] = h
        self.__dict__["seen"] = set()
        self.__dict__["_quiet"] = 0

    def __getattr__(self, n):
        return getattr(self._base, n)

    def __setattr__(self, n, v):
        setattr(self._base, n, v)

    def mod(self, name="thewalrus"):
        return _Mod(_G(self), self._base.mod(name))

    def eq(self, label, a, b, tol=None):
        pass

    def true(self, label, f):
        pass

    def raises(self, label, fn, exc=Exception):
        try:
            fn()
        except exc as e:
            if self._base.symbolic:
                from engine.scalar import Unsupported

                if isinstance(e, Unsupported):
                    raise


class _G:
    """asks the goals of this property"""

    def __init__(self, h):
        self._h, self._b, self.seen = h, h._base, h.seen

    def eq(self, *a):
        self._b.eq(*a)

    def true(self, *a):
        self._b.true(*a)

    def array(self, *a, **k):
        return self._b.array(*a, **k)


def _borrow(h, prop, name):
    c = {x.name: x for x in harness.load_checks(prop)}.get(name)
    c(_H(h))


def _cases():
    for prop, names in BORROWED.items():
        harness.load_checks(prop)
        by = {x.name: x for x in harness.CASES[prop]}
        for n in names:
            c = by[n]
            o = {k: v for k, v in c.opts.items() if k != "replay"}
            case("C34", "%s-%s" % (prop, n), prop, n, bounds="%s: %s" % (prop, c.bounds), opts=o)(_borrow)


_cases()
