"""The approximate hafnian is an unbiased estimator.

Symbolic inputs: the (non-negative) entries of the matrix; the outcomes of every normal draw.
Decided: (a) the determinant of one draw, as a polynomial in the draws, has the hafnian as its expectation over independent standard normal
draws (the expectation of each monomial is known exactly); (b) `hafnian_approx` averages num_samples such determinants, over disjoint draws;
(c) `hafnian(approx=True)` passes the matrix and num_samples on, and rejects complex and negative matrices.
Oracle: the sum over perfect matchings; the moments (k-1)!! of the normal distribution.
Assumptions:
- exact arithmetic; the random generator returns independent standard normal numbers
- the replay averages over all signs of the draws instead, which has the same expectation for determinants of antisymmetric matrices
"""
import itertools

import numpy as np

from engine.harness import case
from .oracles import haf

TW = "thewalrus"
M = "thewalrus._hafnian"


class Draws:
    def __init__(self, h):
        self.h, self.used, self.feed = h, [], None
        h.rng(normal=self.normal, standard_normal=lambda size=None: self.normal(0, 1, size), randn=lambda *a: self.normal(0, 1, a if a else None))

    def one(self):
        k = len(self.used)
        g = self.h.real("g%d" % k, -3, 3) if self.feed is None else self.feed(k)
        self.used.append(g)
        return g

    def normal(self, loc=0, scale=1, size=None):
        if size is None:
            return loc + scale * self.one()
        sh = tuple(size) if isinstance(size, (tuple, list)) else (int(size),)
        a = self.h.array([self.one() for _ in range(int(np.prod(sh)))], ld="float", shape=sh)
        return loc + scale * a


def _moments(h, d, x):
    """expectation of a polynomial in the draws"""
    from engine import poly as P
    from engine.scalar import S, Unsupported, tos

    x = tos(x)
    ids = {}
    for g in d.used:
        (m,) = g.n
        ((i, _),) = P.mono_items(m)
        ids[i] = True
    r = {}
    if x.d and any(i in ids for q, _ in x.d for i in P.pvars(q)):
        raise Unsupported("a draw in a denominator")
    for m, c in x.n.items():
        for i, e in P.mono_items(m):
            if i in ids:
                if e % 2:
                    c = 0
                    break
                for k in range(1, e, 2):
                    c *= k
                m -= P.mono(i, e)
        if c:
            r[m] = r.get(m, 0) + c
    return S.mk({m: c for m, c in r.items() if c}, x.q, x.d)


def _expect(h, d, f):
    """expectation of f() over the draws"""
    if h.symbolic:
        return _moments(h, d, f())
    rng = np.random.RandomState(5)
    d.used = []
    d.feed = lambda k: 1.0
    f()
    n = len(d.used)

    def run(s):
        d.used, d.feed = [], lambda k: float(s[k])
        return f()

    rel = []
    base = [2 * rng.randint(0, 2, size=n) - 1 + rng.rand(n) for _ in range(3)]
    for k in range(n):
        for b in base:
            c = b.copy()
            c[k] += 0.7
            if abs(run(b) - run(c)) > 1e-12:
                rel.append(k)
                break
    s = np.ones(n)
    tot = 0
    for p in itertools.product((1, -1), repeat=len(rel)):
        s[rel] = p
        tot = tot + run(s)
    return tot / 2 ** len(rel)


def _mat(h, n, edges, diag):
    b = {}
    rows = [[h.num(0)] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            if (i, j) in edges or (i == j and diag):
                x = h.pos("b%d%d" % (i, j), 0, 2)
                rows[i][j] = rows[j][i] = x * x
    return rows


SH = {}
for n in (1, 2, 3, 4):
    SH["%d" % n] = (n, [(i, j) for i in range(n) for j in range(i + 1, n)], True)
SH["5-cycle"] = (5, [(i, (i + 1) % 5) if i < 4 else (0, 4) for i in range(5)], False)
SH["6-prism"] = (6, [(0, 1), (1, 2), (0, 2), (3, 4), (4, 5), (3, 5), (0, 3), (1, 4), (2, 5)], False)
SH["6-bipartite"] = (6, [(i, j) for i in range(3) for j in range(3, 6)], False)
SH["8-ladder"] = (8, [(0, 1), (1, 2), (2, 3), (4, 5), (5, 6), (6, 7), (0, 4), (1, 5), (2, 6), (3, 7)], False)

for k, (n, ed, dg) in SH.items():

    @case("C39", "one-%s" % k, opts=dict(replay="py", weight=n), bounds="%dx%d non-negative matrices%s, one determinant, every draw" % (n, n, "" if n <= 4 else " supported on the " + k[2:]))
    def one(h, n=n, ed=ed, dg=dg):
        d = Draws(h)
        A = _mat(h, n, ed, dg)
        f = lambda: h.mod(M).hafnian_approx(h.array(A, ld="float"), num_samples=1)
        h.eq("expectation", _expect(h, d, f), haf(A, list(range(n))) if n % 2 == 0 else h.num(0))


for n, N in ((2, 2), (2, 5), (3, 2), (4, 2), (4, 3), (2, 17)):

    @case("C39", "mean-%d-%d" % (n, N), opts=dict(replay="py", weight=3), bounds="%dx%d, %d samples, every draw" % (n, n, N))
    def mean(h, n=n, N=N):
        d = Draws(h)
        A = _mat(h, n, [(i, j) for i in range(n) for j in range(i + 1, n)], False)
        f = lambda k: h.mod(M).hafnian_approx(h.array(A, ld="float"), num_samples=k)
        got = f(N)
        m = len(d.used)
        h.true("every sample has as many draws", m % N == 0)
        draws = list(d.used)
        tot = 0
        for s in range(N):
            d.used, d.feed = [], lambda k, s=s: draws[s * (m // N) + k]
            tot = tot + f(1)
        h.eq("average over disjoint draws", got * N, tot)


@case("C39", "default-samples", opts=dict(replay="py"), bounds="2x2, the documented default of 1000 samples")
def default(h):
    seen = []
    h.wrap(M, "_one_det", lambda orig, B: (seen.append(B), h.num(len(seen)))[1])
    A = _mat(h, 2, [(0, 1)], False)
    r = h.mod(M).hafnian_approx(h.array(A, ld="float"))
    h.true("number of samples", len(seen) == 1000)
    h.eq("mean", r * 1000, h.num(500500))


for n in (2, 3, 4, 5, 6, 8):

    @case("C39", "front-%d" % n, opts=dict(replay="py"), bounds="%dx%d symmetric non-negative matrices, num_samples 3" % (n, n))
    def front(h, n=n):
        d = Draws(h)
        seen = []

        def fake(orig, A, *a, **k):
            seen.append((A, (a + (k.get("num_samples"),))[0]))
            return h.num(7)

        h.wrap(M, "hafnian_approx", fake)
        u = {(i, j): h.real("a%d%d" % (i, j), 0, 2) for i in range(n) for j in range(i, n)}
        A = [[u[min(i, j), max(i, j)] for j in range(n)] for i in range(n)]
        X = h.array(A, ld="float")
        r = h.mod(TW).hafnian(X, approx=True, num_samples=3)
        if seen:
            h.true("num_samples is passed on", len(seen) == 1 and seen[0][1] == 3)
            h.eq("the matrix is passed on", seen[0][0], X)
            h.eq("the estimate is returned", r, h.num(7))
            h.true("even size", n % 2 == 0)
        else:
            # small and odd sizes are returned exactly
            h.eq("exact value", r, haf(A, list(range(n))) if n % 2 == 0 else h.num(0))

    @case("C39", "negative-%d" % n, opts=dict(replay="py"), bounds="%dx%d with one negative entry pair anywhere" % (n, n))
    def negative(h, n=n):
        if n % 2 or n < 6:
            h.true("not applicable", True)
            return
        k = h.choice("where", [(0, 1), (n - 2, n - 1), (0, n - 1), (2, 2), (n - 1, n - 1)])
        x = h.real("x", -2, 0)
        h.assume(x < 0)
        A = [[h.num(1) for j in range(n)] for i in range(n)]
        A[k[0]][k[1]] = A[k[1]][k[0]] = x
        h.raises("negative entries are refused", lambda: h.mod(TW).hafnian(h.array(A, ld="float"), approx=True), ValueError)
