"""Reference enumerations of matchings are complete and free of duplicates.

Symbolic inputs: matrix entries; orderings of the labels are symbolic choices.  Summing the product
of distinct symbolic weights over a generator decides that it yields every matching exactly once.
Oracle: sums of products of distinct symbolic weights over independently enumerated matchings and partitions; equality decides completeness and absence of duplicates at once.
Assumptions:
- exact arithmetic
- sizes bounded as listed per case
"""
from itertools import permutations

from engine.harness import case
from .oracles import haf, matchings, rows


def _haf(h, n, loop, ld):
    ref = h.mod("thewalrus.reference")
    A = h.symmetric("a", n, ld=ld)
    R = rows(A)
    h.eq("reference-hafnian", ref.hafnian(A, loop=loop), haf(R, range(n), loop) if (loop or n % 2 == 0) else 0)


for n in range(0, 9):
    case("C11", "hafnian-%d" % n, n, False, None, bounds="%dx%d, every symmetric matrix" % (n, n))(_haf)
    if n <= 7:
        case("C11", "loop-hafnian-%d" % n, n, True, None, bounds="%dx%d, every symmetric matrix" % (n, n), opts=dict(weight=n))(_haf)


def _weights(h, n):
    w = {}
    for i in range(n):
        w[i, i] = h.real("w%d_%d" % (i, i), kind="gen")
        for j in range(i + 1, n):
            w[i, j] = w[j, i] = h.real("w%d_%d" % (i, j), kind="gen")
    return w


def _gen(h, name, n):
    ref = h.mod("thewalrus.reference")
    w = _weights(h, n)
    ps = list(permutations(range(n)))
    if len(ps) > 6:
        ps = ps[:3] + ps[len(ps) // 2:len(ps) // 2 + 2] + ps[-2:]
    s = h.choice("order", ps)
    lo = name in ("spm", "partitions-both", "partitions-singles")
    if name == "spm":
        it = ref.spm(tuple(s))
    elif name == "pmp":
        it = ref.pmp(tuple(s))
    elif name == "partitions-both":
        it = ref.partitions(tuple(s))
    elif name == "partitions-pairs":
        it = ref.partitions(tuple(s), False, True)
    else:
        it = ref.partitions(tuple(s), True, False)
    tot, seen = 0, 0
    for m in it:
        v = 1
        used = []
        if name == "partitions-pairs" and n == 2 or name == "pmp" and n == 2 or (n == 2 and m == tuple(s)):
            m = (m,)
        for e in m:
            used += list(e) if len(e) == 1 or e[0] != e[1] else [e[0]]
            v = v * w[e[0], e[-1]]
        h.true("partition", sorted(used) == list(range(n)))
        tot = tot + v
        seen += 1
    want = 0
    for m in matchings(list(range(n)), lo):
        if name == "partitions-singles" and any(a != b for a, b in m):
            continue
        v = 1
        for a, b in m:
            v = v * w[a, b]
        want = want + v
    h.eq(name, tot, want)


for n in range(3, 7):
    for nm in ("spm", "partitions-both", "partitions-singles", "partitions-pairs", "pmp"):
        case("C11", "%s-%d" % (nm, n), nm, n, bounds="%d labels, several orders" % n)(_gen)
for nm in ("pmp", "partitions-pairs"):
    case("C11", "%s-8" % nm, nm, 8, tier="thorough", bounds="8 labels")(_gen)


def _tel(h):
    ref = h.mod("thewalrus.reference")
    n = h.choice("n", list(range(14)))
    a, b = 1, 1
    for k in range(2, n + 1):
        a, b = b, b + (k - 1) * a
    h.eq("telephone", ref.T(n), b)


case("C11", "telephone", bounds="n = 0..13")(_tel)


def _order(h):
    """memoised generators: interleaved and repeated use give the same sequence"""
    ref = h.mod("thewalrus.reference")
    n = h.choice("n", [4, 5])
    k = h.choice("k", [0, 1, 2, 3])
    g1 = ref.partitions(tuple(range(n)))
    first = [next(g1) for _ in range(k)]
    g2 = list(ref.partitions(tuple(range(n))))
    h.true("interleaved", first + list(g1) == g2)
    h.true("again", list(ref.partitions(tuple(range(n)))) == g2)


case("C11", "interleaved-use", bounds="4-5 labels, second use starting after 0..3 items")(_order)


from .c10 import connected  # noqa: E402


def _restricted(h, n, loop):
    ref = h.mod("thewalrus.reference")
    w = _weights(h, 2 * n)
    tot = 0
    for m in (ref.rspm if loop else ref.rpmp)(range(2 * n)):
        v = 1
        for a, b in m:
            v = v * w[a, b]
        tot = tot + v
    want = 0
    for m in matchings(list(range(2 * n)), loop):
        if sum(1 for a, b in m if a == b) in (0, 2) and connected(m, n):
            v = 1
            for a, b in m:
                v = v * w[a, b]
            want = want + v
    h.eq("restricted", tot, want)


for n in (1, 2, 3):
    case("C11", "rpmp-%d" % n, n, False, bounds="%d modes" % n)(_restricted)
    case("C11", "rspm-%d" % n, n, True, bounds="%d modes" % n)(_restricted)
case("C11", "rpmp-4", 4, False, tier="thorough", bounds="4 modes")(_restricted)
case("C11", "rspm-4", 4, True, tier="thorough", bounds="4 modes")(_restricted)
