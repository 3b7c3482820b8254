"""Threshold-click statistics are those of the state.

Symbolic inputs: covariance entries (one mode: all; more modes: affine families; cumulants: all), means, hbar; mode lists are symbolic choices.
Oracles: probabilities of vacuum on mode subsets 1/sqrt(det Q_S) give the distribution of the click indicators; mean, variance and joint
cumulants (moment-cumulant recursion) of the indicators are computed from it by definition.
Assumptions:
- exact arithmetic
- in the click_cumulant-contract cases threshold_detection_prob is replaced by its contract (the probability that exactly the modes of the
  given reduced state all click, decided by C08); det, inv, cholesky executed symbolically elsewhere
- mode numbers bounded as listed per case
"""
from itertools import product

from engine.harness import case
from .c17 import cumulant
from .gauss import add_diag, click_prob, cov_family, cov_full, posdef_all
from .oracles import rows


def _state(h, n, nv, hbar):
    if nv is None:
        V = cov_full(h, n)
    else:
        V = cov_family(h, n, hbar, nv, 9)
    posdef_all(h, add_diag(V, hbar / 2))
    return V


def _p_on(h, V, mu, n, S, hbar):
    return click_prob(h, V, mu, n, [1 if i in S else None for i in range(n)], hbar)


def _meanvar(h, n, nv, given):
    mv = h.mod("thewalrus.quantum")
    hbar = h.pos("hbar") if given else h.num(2)
    V = _state(h, n, nv, hbar)
    kw = dict(hbar=hbar) if given else {}
    C = h.array(V, shape=(2 * n, 2 * n))
    p = [_p_on(h, V, None, n, [i], hbar) for i in range(n)]
    h.eq("mean_clicks", mv.mean_clicks(C, **kw), sum(p, h.num(0)))
    var = h.num(0)
    for i in range(n):
        for j in range(n):
            var = var + (p[i] - p[i] * p[i] if i == j else _p_on(h, V, None, n, sorted((i, j)), hbar) - p[i] * p[j])
    h.eq("variance_clicks", mv.variance_clicks(C, **kw), var)


for n, nv, g, t in ((1, None, True, "quick"), (1, None, False, "quick"), (2, 1, True, "quick"), (2, 2, True, "quick"), (3, 1, True, "quick"), (2, 1, False, "quick"),
                    (2, None, True, "thorough"), (4, 1, True, "thorough"), (3, 2, True, "thorough")):
    case("C18", "meanvar-%d-%s%s" % (n, "all" if nv is None else nv, "" if g else "-default"), n, nv, g, tier=t,
         bounds="%d modes, %s covariances, %s" % (n, "all" if nv is None else "%d-parameter family of" % nv, "every hbar" if g else "default hbar"), opts=dict(weight=n * 3))(_meanvar)


def _cum(h, n, nv, disp, total, contract):
    mv = h.mod("thewalrus.quantum.means_and_variances")
    hbar = h.pos("hbar")
    N = 2 * n
    if contract and h.symbolic:
        mu = [h.real("m%d" % i, kind="gen") for i in range(N)]
        V = rows(h.symmetric("v", N))
        names = {}

        def P(S):
            S = tuple(sorted(set(S)))
            if S not in names:
                names[S] = h.real("P" + "".join(map(str, S)))
            return names[S]

        def tdp(m, C, pattern, hbar=2, **k):
            from engine.scalar import tos

            mm = [tos(x) for x in m]
            k2 = len(mm) // 2
            S = []
            for x in mm[:k2]:
                S.append(next(i for i in range(n) if (x - mu[i]).is_zero()))
            ix = S + [i + n for i in S]
            ok = len(set(S)) == len(S) and all((x - mu[i]).is_zero() for x, i in zip(mm, ix))
            R = rows(C)
            ok = ok and all((tos(R[a][b]) - V[ix[a]][ix[b]]).is_zero() for a in range(len(ix)) for b in range(len(ix)))
            ok = ok and all(int(x) == 1 for x in pattern) and len(list(pattern)) == k2 and (tos(hbar) - hb).is_zero()
            if not ok:
                raise AssertionError("threshold_detection_prob called on something else than a reduced state")
            return P(S)

        hb = hbar
        h.patch("thewalrus._torontonian", "threshold_detection_prob", tdp)
        mom = lambda t: P(t)
    else:
        if contract:
            mu = [h.real("m%d" % i, kind="gen") for i in range(N)]
            V = rows(h.symmetric("v", N))
            # a physical state near the vacuum for the concrete run
            mu = [x / 10 for x in mu]
            V = [[hbar * (1 if i == j else 0) + hbar * V[i][j] / 100 for j in range(N)] for i in range(N)]
        else:
            V = _state(h, n, nv, hbar)
            mu = [(i % 3 - 1) * h.num(1) / 2 for i in range(N)] if disp else [h.num(0)] * N
        mom = lambda t: _p_on(h, V, mu if (disp or contract) else None, n, sorted(set(t)), hbar)
    modes = h.choice("modes", [list(r) for k in range(1, total + 1) for r in product(range(n), repeat=k)])
    how = h.choice("type", ["list", "array"])
    got = mv.click_cumulant(h.array(mu, shape=(N,)), h.array(V, shape=(N, N)), modes if how == "list" else h.np.array(modes), hbar=hbar)
    h.eq("click_cumulant", got, cumulant(mom, modes))


case("C18", "cumulant-1", 1, None, False, 3, False, bounds="1 mode, every covariance, zero mean, order <= 3")(_cum)
case("C18", "cumulant-1-disp", 1, 1, True, 3, False, bounds="1 mode, family of covariances, displaced, order <= 3")(_cum)
case("C18", "cumulant-2", 2, 0, False, 2, False, bounds="2 modes, one covariance per hbar, zero mean, order <= 2", opts=dict(weight=5))(_cum)
case("C18", "cumulant-2-disp", 2, 0, True, 2, False, bounds="2 modes, one covariance per hbar, displaced, order <= 2", opts=dict(weight=5))(_cum)
case("C18", "cumulant-2-contract", 2, None, True, 3, True, bounds="2 modes, every state, order <= 3")(_cum)
case("C18", "cumulant-3-contract", 3, None, True, 3, True, bounds="3 modes, every state, order <= 3", opts=dict(weight=5))(_cum)
case("C18", "cumulant-3-contract-4", 3, None, True, 4, True, tier="thorough", bounds="3 modes, every state, order <= 4")(_cum)
case("C18", "cumulant-3", 3, 0, True, 3, False, tier="thorough", bounds="3 modes, one covariance per hbar, displaced, order <= 3")(_cum)
