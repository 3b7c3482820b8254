"""Probabilities and marginals are bookkept correctly.

Symbolic inputs: covariance entries, means, hbar (tables, bounds); for the n-body marginals the entries of every probability table are free symbols.
Oracles: the diagonal of the density matrix from the Husimi generating function (see C19); marginal p_{k,l,..}[i,j,..] is the table of the sorted
modes read at the sorted indices; the truncation bound is the sum over modes of the probability outside the cutoff.
Assumptions:
- exact arithmetic; np.allclose modelled as exact equality
- n-body marginals: `probabilities` replaced by its contract (the table of the reduced state it is called with; decided here for up to two modes)
- two-mode tables: `is_pure_cov` replaced by its contract (decided by C14)
- tables of mixed states: purity at least 1/100 away from pure, probabilities at least 1e-6 (a probability rounded below zero is clipped)
- mode numbers and cutoffs bounded as listed per case
"""
from itertools import product

from engine.harness import case
from .c19 import _hbar, _mean, _mixed
from .gauss import bargmann, fock_element, pure_family
from .oracles import rows


def _table(h, n, nv, mean, cutoff, pure, default, parallel):
    q = h.mod("thewalrus.quantum")
    hbar = h.num(2) if default else _hbar(h, mean)
    kw = {} if default else dict(hbar=hbar)
    V = pure_family(h, n, hbar, nv, 29) if pure else _mixed(h, n, nv, hbar)
    mu = _mean(h, n, mean)
    bg = bargmann(h, V, None if mean == "zero" else mu, n, hbar)
    el = {ix: h.re(fock_element(h, bg, n, ix, ix)) for ix in product(range(cutoff), repeat=n)}
    if not pure:
        for x in el.values():
            h.assume(x * 10 ** 6 >= 1)
    if h.symbolic:
        if n > 1:
            def pc(C, hbar=2, rtol=1e-05, atol=1e-08):
                ok = all(h.iseq(a, b) for x, y in zip(rows(C), V) for a, b in zip(x, y)) and h.iseq(hbar, hb)
                if not ok:
                    raise AssertionError("is_pure_cov called on something else than the state")
                return pure

            hb = hbar
            h.patch("thewalrus.quantum.fock_tensors", "is_pure_cov", pc)
        elif not pure:
            h.assume(h.Not(h.iseq(V[0][0] * V[1][1] - V[0][1] * V[1][0], hbar * hbar / 4)))
    if n == 1 and not pure:
        e = (V[0][0] * V[1][1] - V[0][1] * V[1][0]) / (hbar * hbar) - h.num(1) / 4
        h.assume(h.Or(e * 100 > 1, e * 100 < -1))
        if parallel:
            class Dask:
                @staticmethod
                def delayed(f):
                    return lambda *a, **k: lambda: f(*a, **k)

                @staticmethod
                def compute(*a, scheduler=None):
                    return tuple(f() for f in a)

            h.patch("thewalrus.quantum.fock_tensors", "dask", Dask)
    p = q.probabilities(h.array(mu, shape=(2 * n,)), h.array(V, shape=(2 * n, 2 * n)), cutoff, parallel=parallel, **kw)
    h.true("shape", p.shape == (cutoff,) * n)
    for ix in el:
        h.eq("p%s" % (ix,), p[ix], el[ix])


for n, nv, mean, c, pure, d, par, t in (
        (1, 1, "zero", 4, False, False, False, "quick"), (1, 0, "const", 3, False, False, False, "quick"), (2, 0, "zero", 2, False, False, False, "quick"), (2, 0, "const", 2, False, False, False, "quick"),
        (1, 0, "zero", 4, True, False, False, "quick"), (2, 0, "const", 2, True, False, False, "quick"), (2, 0, "zero", 3, True, False, False, "quick"), (1, 1, "zero", 3, False, True, False, "quick"),
        (1, 1, "zero", 3, False, False, True, "quick"), (2, 0, "const", 2, False, False, True, "quick"),
        (2, 0, "const", 3, False, False, False, "thorough"), (3, 0, "zero", 2, False, False, False, "thorough"), (2, 1, "zero", 3, True, False, False, "thorough")):
    case("C20", "table-%d-%d-%s-%d%s%s%s" % (n, nv, mean, c, "-pure" if pure else "", "-default" if d else "", "-dask" if par else ""), n, nv, mean, c, pure, d, par, tier=t,
         bounds="%d modes, %d-parameter family of %s states, %s mean, cutoff %d" % (n, nv, "pure" if pure else "mixed", mean, c), opts=dict(weight=n * c))(_table)


def _tvd(h, n, nv, mean, cutoff, default):
    q = h.mod("thewalrus.quantum")
    hbar = h.num(2) if default else _hbar(h, mean)
    kw = {} if default else dict(hbar=hbar)
    V = _mixed(h, n, nv, hbar)
    mu = _mean(h, n, mean)
    want = [h.num(0)] * cutoff
    for k in range(n):
        W = [[V[a][b] for b in (k, k + n)] for a in (k, k + n)]
        bg = bargmann(h, W, None if mean == "zero" else [mu[k], mu[k + n]], 1, hbar)
        acc = h.num(0)
        for c in range(cutoff):
            acc = acc + h.re(fock_element(h, bg, 1, [c], [c]))
            want[c] = want[c] + 1 - acc
    got = q.tvd_cutoff_bounds(h.array(mu, shape=(2 * n,)), h.array(V, shape=(2 * n, 2 * n)), cutoff, check_is_valid_cov=False, **kw)
    h.eq("bounds", got, h.array(want, shape=(cutoff,)))


for n, nv, mean, c, d, t in ((1, None, "zero", 4, False, "quick"), (2, 1, "zero", 3, False, "quick"), (3, 0, "const", 3, False, "quick"), (1, 1, "const", 4, True, "quick"),
                             (2, 1, "const", 3, False, "thorough"), (4, 0, "const", 4, False, "thorough")):
    case("C20", "tvd-%d-%s-%s-%d%s" % (n, "all" if nv is None else nv, mean, c, "-default" if d else ""), n, nv, mean, c, d, tier=t,
         bounds="%d modes, %s covariances, %s mean, cutoff %d" % (n, "all" if nv is None else "%d-parameter family of" % nv, mean, c), opts=dict(weight=n * c))(_tvd)


def _tvd_invalid(h):
    q = h.mod("thewalrus.quantum")
    hbar = h.real("hbar", 1, 4)
    s = h.real("s", 1, 9) / 20
    h.raises("invalid", lambda: q.tvd_cutoff_bounds(h.array([h.num(0)] * 2, shape=(2,)), h.array([[hbar * s, h.num(0)], [h.num(0), hbar * s]], shape=(2, 2)), 3, hbar=hbar), ValueError)
    h.true("valid", len(q.tvd_cutoff_bounds(h.array([h.num(0)] * 2, shape=(2,)), h.array([[hbar * (s + 1), h.num(0)], [h.num(0), hbar * (s + 1)]], shape=(2, 2)), 3, hbar=hbar)) == 3)


case("C20", "tvd-invalid", bounds="1 mode, multiples of the vacuum covariance below it are refused")(_tvd_invalid)


def _marg(h, M, n, cutoff, cyclic=False):
    q = h.mod("thewalrus.quantum")
    N = 2 * M
    hbar = h.pos("hbar")
    if h.symbolic:
        from engine.scalar import tos

        # distinct constants identify the modes of a reduced state
        mu = [h.num(i + 1) for i in range(N)]
        V = [[h.num(1000 + min(i, j) * N + max(i, j)) for j in range(N)] for i in range(N)]
        tabs = {}

        def P(S, ix):
            key = (tuple(S), tuple(ix))
            if key not in tabs:
                tabs[key] = h.real("P%s_%s" % ("_".join(map(str, S)), "_".join(map(str, ix))))
            return tabs[key]

        def prob(m, C, c, hbar=2.0, **k):
            mm = [tos(x) for x in m]
            k2 = len(mm) // 2
            S = [next(i for i in range(M) if (x - mu[i]).is_zero()) for x in mm[:k2]]
            ix = S + [i + M for i in S]
            R = rows(C)
            ok = len(set(S)) == len(S) and all((x - mu[i]).is_zero() for x, i in zip(mm, ix)) and c == cutoff and (tos(hbar) - hb).is_zero()
            ok = ok and all((tos(R[a][b]) - V[ix[a]][ix[b]]).is_zero() for a in range(len(ix)) for b in range(len(ix)))
            if not ok:
                raise AssertionError("probabilities called on something else than a reduced state")
            order = sorted(range(k2), key=lambda a: S[a])
            out = {}
            for t in product(range(c), repeat=k2):
                out[t] = P([S[a] for a in order], [t[a] for a in order])
            flat = [out[t] for t in product(range(c), repeat=k2)]
            return h.array(flat, shape=(c ** k2,)).reshape((c,) * k2)

        hb = hbar
        h.patch("thewalrus.quantum.fock_tensors", "probabilities", prob)
    else:
        np = h.np
        mu = [(i % 5 - 2) / 7 * float(hbar) ** 0.5 for i in range(N)]
        a = np.array([[((i * 7 + j * 3) % 11 - 5) / 20 for j in range(N)] for i in range(N)])
        V = (float(hbar) * (np.identity(N) + a @ a.T)).tolist()
        tabs = {}

        def P(S, ix):
            S = tuple(S)
            if S not in tabs:
                idx = list(S) + [s + M for s in S]
                tabs[S] = q.probabilities(np.array([mu[i] for i in idx]), np.array([[V[i][j] for j in idx] for i in idx]), cutoff, hbar=hbar)
            return tabs[S][tuple(ix)]
    if h.symbolic:
        same = lambda a, b: all((tos(x) - tos(y)).is_zero() for x, y in zip(a, b))
    else:
        same = lambda a, b: h.np.allclose(a, b)
    got = q.n_body_marginals(h.array(mu, shape=(N,)), h.array(V, shape=(N, N)), cutoff, n, hbar=hbar)
    h.true("orders", len(got) == n)
    for k in range(1, n + 1):
        h.true("shape%d" % k, got[k - 1].shape == (M,) * k + (cutoff,) * k)
        for modes in product(range(M), repeat=k):
            if len(set(modes)) < k:
                continue
            order = sorted(range(k), key=lambda a: modes[a])
            want = [P([modes[a] for a in order], [t[a] for a in order]) for t in product(range(cutoff), repeat=k)]
            inv = sorted(range(k), key=lambda a: order[a])
            g = got[k - 1][modes].reshape((cutoff ** k,))
            if inv == order:
                if not cyclic:
                    h.eq("p%s" % (modes,), g, h.array(want, shape=(cutoff ** k,)))
                continue
            if cyclic:
                h.eq("cyclic%s" % (modes,), g, h.array(want, shape=(cutoff ** k,)))
                continue
            # known finding (case marginals-cyclic): the axes may also be permuted by the inverse permutation
            alt = [P(sorted(modes), [t[inv[a]] for a in range(k)]) for t in product(range(cutoff), repeat=k)]
            h.true("p%s" % (modes,), same(g, want) or same(g, alt))


for M, n, c, t in ((1, 1, 3, "quick"), (2, 1, 2, "quick"), (2, 2, 3, "quick"), (3, 2, 2, "quick"), (3, 3, 2, "quick"), (10, 2, 2, "quick"), (4, 4, 2, "thorough"), (4, 3, 3, "thorough"), (17, 2, 2, "thorough")):
    case("C20", "marginals-%d-%d-%d" % (M, n, c), M, n, c, tier=t, bounds="%d modes, orders up to %d, cutoff %d, every probability table" % (M, n, c), opts=dict(weight=M * n))(_marg)


case("C20", "marginals-cyclic", 3, 3, 2, True, bounds="3 modes in the orders (2,0,1) and (1,2,0), cutoff 2, every probability table")(_marg)


def _marg_bad(h):
    q = h.mod("thewalrus.quantum")
    x = h.real("x", 1, 2)
    d = lambda k: h.array([[x if i == j else h.num(0) for j in range(k)] for i in range(k)], shape=(k, k))
    z = lambda k: h.array([h.num(0)] * k, shape=(k,))
    h.raises("mismatch", lambda: q.n_body_marginals(z(4), d(2), 2, 1), ValueError)
    h.raises("odd", lambda: q.n_body_marginals(z(3), d(3), 2, 1), ValueError)
    h.raises("order", lambda: q.n_body_marginals(z(2), d(2), 2, 2), ValueError)


case("C20", "marginals-bad", bounds="mismatched, odd and too small inputs are refused")(_marg_bad)
