"""Results do not depend on earlier calls.

Symbolic inputs: those of the cases of the other properties, named by the case; the sequence of operations on the memoised generators.
Decided: before every call that a borrowed case makes into the package, the same function is called with the same array objects holding other
values (rows, columns and lists reversed; equal ones halved), and once more with the same arguments after the returned arrays were overwritten; the goals of the case (equality
with its oracle for every value of the symbols) have to hold all the same, and the repeated call has to give the same result.  For the memoised
generators of matchings every interleaving of a bounded number of creations and reads is followed.
Oracle: that of the borrowed case; for the generators, a fresh enumeration.
Assumptions:
- exact arithmetic; the contracts of the borrowed case are its own; sizes bounded as in the borrowed case
- functions drawing random numbers are left out here (their draws are decided by C27-C29, C32, C33, C37 and C39)
"""
import types

import numpy as np

from engine import harness
from engine.harness import case
from .c40_list import BORROWED


def _scalar(h, x):
    if isinstance(x, (bool, int, np.integer, str)) or x is None:
        return x
    if isinstance(x, (float, complex, np.floating, np.complexfloating)):
        return x / 2
    if h.symbolic:
        from engine.scalar import S

        if type(x) is S and not x.is_int():
            return x / 2
    return x


def _other(h, x, shared):
    """an argument of the same type and shape with other values"""
    if isinstance(x, np.ndarray):
        y = x.copy()
        if y.dtype == bool:
            return y
        f = [z for z in np.asarray(x).reshape(-1)]
        if len(f):
            if len(f) > 1 and any(p is not q for p, q in zip(f, f[::-1])):
                for ix, z in zip(np.ndindex(*x.shape), f[::-1]):
                    y[ix] = z
            else:
                for ix, z in zip(np.ndindex(*x.shape), f):
                    y[ix] = _scalar(h, z)
        shared.append((y, x))
        return y
    if isinstance(x, (list, tuple)):
        if len(x) and all(isinstance(z, (int, np.integer)) or (not isinstance(z, (list, tuple, np.ndarray))) for z in x):
            return type(x)(list(x)[::-1]) if type(x) in (list, tuple) else x
        return type(x)([_other(h, z, shared) for z in x]) if type(x) in (list, tuple) else x
    return _scalar(h, x)


def _flat(o):
    if isinstance(o, (tuple, list)):
        return [z for x in o for z in _flat(x)]
    if isinstance(o, np.ndarray):
        return [z for z in np.asarray(o).reshape(-1)]
    return [o]


def _number(h, x):
    if isinstance(x, (bool, np.bool_, str)) or x is None:
        return False
    if isinstance(x, (int, float, complex, np.number)):
        return True
    if h.symbolic:
        from engine.scalar import S

        return type(x) is S
    return False


class _Mod:
    """a module of the package as seen by a caller"""

    def __init__(self, h, m):
        self.__dict__.update(_h=h, _m=m)

    def __getattr__(self, n):
        v = getattr(self._m, n)
        if isinstance(v, types.ModuleType):
            return _Mod(self._h, v)
        if n.startswith("_") or isinstance(v, type) or not callable(v) or isinstance(v, types.GeneratorType):
            return v
        return lambda *a, **k: self._h.call(v, n, a, k)


class _H:
    """the harness of a borrowed case"""

    def __init__(self, h):
        self.__dict__.update(_base=h, _off=False, quiet=0, count=0)

    def __getattr__(self, n):
        return getattr(self._base, n)

    def __setattr__(self, n, v):
        if n in self.__dict__:
            self.__dict__[n] = v
        else:
            setattr(self._base, n, v)

    def mod(self, name="thewalrus"):
        return _Mod(self, self._base.mod(name))

    def wrap(self, *a, **k):
        self._off = True
        return self._base.wrap(*a, **k)

    def rng(self, *a, **k):
        self._off = True
        return self._base.rng(*a, **k)

    def linalg(self, *a, **k):
        self._off = True
        return self._base.linalg(*a, **k)

    def eq(self, *a, **k):
        if not self.quiet:
            self._base.eq(*a, **k)

    def true(self, *a, **k):
        if not self.quiet:
            self._base.true(*a, **k)

    def call(self, f, n, a, k):
        if self._off or self.quiet:
            return f(*a, **k)
        self.count += 1
        shared = []
        b = [_other(self._base, x, shared) for x in a]
        q = {i: _other(self._base, x, shared) for i, x in k.items()}
        self.quiet += 1
        try:
            f(*b, **q)
        except Exception:
            pass
        # the same array objects now hold the arguments of the case
        for y, x in shared:
            y[...] = x
        b = [_swap(x, o, shared) for x, o in zip(a, b)]
        q = {i: _swap(x, q[i], shared) for i, x in k.items()}
        try:
            r = f(*b, **q)
        finally:
            self.quiet -= 1
        fl = _flat(r)
        if not fl or not all(_number(self._base, z) for z in fl):
            return r
        fl = list(fl)
        # the caller may do what it likes with the arrays it got
        given = _arrays((a, b, list(k.values()), list(q.values())))
        for y in _arrays(r):
            if y.dtype != bool and y.flags.writeable and not any(np.may_share_memory(np.asarray(y), np.asarray(z)) for z in given):
                np.asarray(y)[...] = 7
        self.quiet += 1
        try:
            r2 = f(*a, **k)
        finally:
            self.quiet -= 1
        f2 = _flat(r2)
        self._base.true("same shape again from " + n, len(fl) == len(f2))
        if not all(p is q for p, q in zip(fl, f2)):
            h = self._base
            h.eq("same result again from " + n, h.array(f2, ld="complex", shape=(len(f2),)), h.array(fl, ld="complex", shape=(len(fl),)))
        return r2


def _arrays(o):
    if isinstance(o, (tuple, list)):
        return [z for x in o for z in _arrays(x)]
    return [o] if isinstance(o, np.ndarray) else []


def _swap(x, o, shared):
    if isinstance(x, np.ndarray):
        return o if any(o is y for y, _ in shared) else x
    if type(x) in (list, tuple) and any(isinstance(z, np.ndarray) for z in x):
        return type(x)([_swap(z, p, shared) for z, p in zip(x, o)])
    return x


def _borrow(h, prop, name):
    c = {x.name: x for x in harness.load_checks(prop)}.get(name)
    g = _H(h)
    c(g)
    if g.count == 0:
        h.true("no call to repeat", True)


def _cases():
    for prop, names in BORROWED.items():
        harness.load_checks(prop)
        by = {x.name: x for x in harness.CASES[prop]}
        for n in names:
            c = by[n]
            case("C40", "%s-%s" % (prop, n), prop, n, bounds="%s: %s" % (prop, c.bounds), opts=dict(c.opts))(_borrow)


_cases()


# ---- the memoised generators: every history of a bounded length
def _enum(s, singles, pairs):
    if not s:
        return [()]
    if len(s) == 1:
        return [((s[0],),)] if singles else []
    out = []
    if singles:
        out += [((s[0],),) + p for p in _enum(s[1:], singles, pairs)]
    if pairs:
        for i in range(1, len(s)):
            out += [((s[0], s[i]),) + p for p in _enum(s[1:i] + s[i + 1:], singles, pairs)]
    return out


_A, _B, _C, _D, _E = ((0, 1, 2), True, True), ((0, 1, 2), True, False), ((0, 1, 2, 3), False, True), ((2, 0, 1), True, True), ((0, 1, 2, 3), True, True)


def _history(h, length, sets):
    part = h.mod("thewalrus.reference").partitions
    live = []
    for t in range(length):
        op, x = h.choice("op%d" % t, [("new", s) for s in sets] + [("next", i) for i in range(len(live))])
        if op == "new":
            live.append((x, part(*x), []))
        else:
            try:
                live[x][2].append(next(live[x][1]))
            except StopIteration:
                pass
    first = {}
    for key, it, got in live:
        got += list(it)
        h.true("every matching once", sorted(got) == sorted(_enum(*key)))
        h.true("one order for all readers", got == first.setdefault(key, got))


for k, (length, sets) in enumerate([(6, [_A]), (5, [_A, _B]), (5, [_C, _E]), (5, [_A, _D]), (4, [_A, _B, _C, _D])]):
    case("C40", "generators-%d" % (k + 1), length, sets, bounds="every history of %d operations (open a reader of %s; read one item from an open reader)" % (length, " or ".join(str(x) for x in sets)), opts=dict(weight=5, max_paths=4000))(_history)
for k, (length, sets) in enumerate([(8, [_A]), (6, [_A, _B, _E]), (7, [_C, _E])]):
    case("C40", "generators-long-%d" % (k + 1), length, sets, tier="thorough", bounds="every history of %d operations on %s" % (length, sets), opts=dict(weight=20, max_paths=400000))(_history)


def _telephone(h, length):
    ref = h.mod("thewalrus.reference")
    want = [1, 1]
    for i in range(2, 12):
        want.append(want[-1] + (i - 1) * want[-2])
    for t in range(length):
        n = h.choice("n%d" % t, [0, 1, 2, 5, 10, 11])
        h.true("telephone number", ref.T(n) == want[n])


case("C40", "telephone", 3, bounds="every history of 3 calls with n in 0, 1, 2, 5, 10, 11")(_telephone)
