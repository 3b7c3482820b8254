"""Definitions the code is compared with.  Pure Python over any scalar type
(symbolic scalars, floats, complex)."""
from fractions import Fraction
from itertools import combinations, permutations, product


def matchings(xs, loops):
    """perfect matchings (with loops as (i, i) when loops) of the list xs"""
    if not xs:
        yield []
        return
    a = xs[0]
    if loops:
        for m in matchings(xs[1:], loops):
            yield [(a, a)] + m
    for k in range(1, len(xs)):
        rest = xs[1:k] + xs[k + 1:]
        for m in matchings(rest, loops):
            yield [(a, xs[k])] + m


def haf(A, idx, loop=False, D=None):
    """(loop) hafnian of the submatrix with (possibly repeated) indices idx, by the
    defining sum over perfect matchings, evaluated by expansion on the first vertex"""
    idx = tuple(idx)
    memo = {}

    def rec(xs):
        if not xs:
            return 1
        r = memo.get(xs)
        if r is not None:
            return r
        a = xs[0]
        t = 0
        if loop:
            t = t + (D[a] if D is not None else A[a][a]) * rec(xs[1:])
        for k in range(1, len(xs)):
            t = t + A[a][xs[k]] * rec(xs[1:k] + xs[k + 1:])
        memo[xs] = t
        return t

    return rec(idx)


def perm(M, rows, cols):
    """permanent of M[rows, cols] (with repetitions) by the Laplace recursion of its definition"""
    rows, cols = list(rows), list(cols)
    if len(rows) != len(cols):
        return 0
    memo = {}

    def rec(k, cs):
        if k == len(rows):
            return 1
        key = (k, cs)
        if key in memo:
            return memo[key]
        t = 0
        for j in range(len(cs)):
            t = t + M[rows[k]][cs[j]] * rec(k + 1, cs[:j] + cs[j + 1:])
        memo[key] = t
        return t

    return rec(0, tuple(cols))


def expand_reps(rpt):
    return [i for i, r in enumerate(rpt) for _ in range(r)]


def subsets(n):
    for k in range(n + 1):
        for c in combinations(range(n), k):
            yield c


def fact(n):
    r = 1
    for i in range(2, n + 1):
        r *= i
    return r


def det(M):
    """determinant by Laplace expansion with memo (lists of lists)"""
    n = len(M)
    memo = {}

    def rec(k, mask):
        if k == n:
            return 1
        if mask in memo:
            return memo[mask]
        t = 0
        s = 1
        for j in range(n):
            if mask >> j & 1:
                continue
            x = M[k][j]
            t = t + (x * rec(k + 1, mask | 1 << j) if s > 0 else -(x * rec(k + 1, mask | 1 << j)))
            s = -s
        memo[mask] = t
        return t

    return rec(0, 0)


def matpow_traces(A, n):
    """[tr A^0, ..., tr A^(n-1)]"""
    m = len(A)
    out = [m]
    P = [[1 if i == j else 0 for j in range(m)] for i in range(m)]
    for _ in range(1, n):
        P = [[sum(P[i][k] * A[k][j] for k in range(m)) for j in range(m)] for i in range(m)]
        out.append(sum(P[i][i] for i in range(m)) if m else 0)
    return out


def rows(A):
    """list of lists"""
    return [[A[i, j] for j in range(A.shape[1])] for i in range(A.shape[0])]
