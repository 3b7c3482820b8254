"""Reduced Gaussian states: exactly the requested modes in the requested order.

Symbolic inputs: all means and covariance entries (independent symbols, no symmetry assumed) and the
mode list, a symbolic choice among all ordered lists of distinct modes.
Oracle: the means and covariances picked entry by entry in the order asked for; rejection of modes that do not exist.
Assumptions:
- mode numbers bounded as listed per case
"""
from itertools import permutations

from engine.harness import case

FNS = (("thewalrus.quantum", "reduced_gaussian"), ("thewalrus.symplectic", "reduced_state"))


def _lists(n):
    return [list(p) for k in range(1, n + 1) for p in permutations(range(n), k)]


def _check(h, label, got, mu, V, n, modes):
    m, C = got
    idx = list(modes) + [k + n for k in modes]
    k = len(idx)
    h.eq(label + "-mu", m, h.array([mu[i] for i in idx], shape=(k,)))
    h.eq(label + "-cov", C, h.array([[V[i][j] for j in idx] for i in idx], shape=(k, k)))


def _state(h, n):
    mu = [h.real("m%d" % i, kind="gen") for i in range(2 * n)]
    V = [[h.real("v%d_%d" % (i, j), kind="gen") for j in range(2 * n)] for i in range(2 * n)]
    return mu, V


def _select(h, n, f):
    mod, name = FNS[f]
    fn = getattr(h.mod(mod), name)
    mu, V = _state(h, n)
    modes = h.choice("modes", _lists(n))
    how = h.choice("type", ["list", "array"])
    arg = modes if how == "list" else h.np.array(modes)
    a, c = h.array(mu, shape=(2 * n,)), h.array(V, shape=(2 * n, 2 * n))
    _check(h, name, fn(a, c, arg), mu, V, n, modes)
    _check(h, name + "-input kept", (a, c), mu, V, n, list(range(n)))


def _single(h, n, f):
    mod, name = FNS[f]
    fn = getattr(h.mod(mod), name)
    mu, V = _state(h, n)
    k = h.choice("mode", list(range(n)))
    _check(h, name, fn(h.array(mu, shape=(2 * n,)), h.array(V, shape=(2 * n, 2 * n)), k), mu, V, n, [k])


def _bad(h, n, f):
    mod, name = FNS[f]
    fn = getattr(h.mod(mod), name)
    mu, V = _state(h, n)
    bad = []
    for k in range(1, n + 1):
        for p in permutations(range(-2, n + 3), k):
            if any(x < 0 or x >= n for x in p):
                bad.append(list(p))
    modes = h.choice("modes", bad)
    h.raises(name + "-rejects", lambda: fn(h.array(mu, shape=(2 * n,)), h.array(V, shape=(2 * n, 2 * n)), modes), (ValueError, IndexError))


for f in (0, 1):
    for n in (1, 2, 3, 4):
        case("C13", "%s-%d" % (FNS[f][1], n), n, f, bounds="%d modes, every ordered list of distinct modes" % n)(_select)
        case("C13", "%s-single-%d" % (FNS[f][1], n), n, f, bounds="%d modes, an integer mode" % n)(_single)
    case("C13", "%s-5" % FNS[f][1], 5, f, tier="thorough", bounds="5 modes, every ordered list of distinct modes")(_select)
    for n in (1, 2):
        case("C13", "%s-reject-%d" % (FNS[f][1], n), n, f, bounds="%d modes, every list of distinct modes in -2..%d with one that does not exist" % (n, n + 2))(_bad)
