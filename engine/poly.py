"""Exact sparse multivariate polynomials with integer coefficients.

A polynomial is a dict {monomial: int}.  A monomial is a packed int: variable i
occupies the 8-bit field [8i, 8i+8).  Some variables are algebraic: they carry a
rule v**2 -> polynomial in earlier variables (the imaginary unit, square roots,
absolute values, sines); polynomials are always kept reduced by those rules.
"""
from math import gcd, isqrt
import heapq

BITS = 8
FULL = (1 << BITS) - 1


class VarInfo:
    __slots__ = ("i", "name", "kind", "rule", "data", "lo", "hi")

    def __init__(self, i, name, kind, rule=None, data=None, lo=None, hi=None):
        self.i, self.name, self.kind, self.rule, self.data = i, name, kind, rule, data
        self.lo, self.hi = lo, hi


class Table:
    """variable table (one per process/case)"""

    def __init__(self):
        self.reset()

    def reset(self):
        self.nan = None
        self.vars = []
        self.byname = {}
        self.algmask = 0  # bits >=1 of the fields of algebraic variables
        self.ovf = 0
        self.atoms = {}
        self.facts = []
        self.factkey = {}
        self.factinfo = []
        self.new("I", "imag", rule={0: -1})

    def new(self, name, kind, rule=None, data=None, lo=None, hi=None):
        if name in self.byname:
            raise ValueError("duplicate variable " + name)
        i = len(self.vars)
        v = VarInfo(i, name, kind, rule, data, lo, hi)
        self.vars.append(v)
        self.byname[name] = v
        if rule is not None:
            self.algmask |= (FULL ^ 1) << (BITS * i)
        self.ovf |= 1 << (BITS * i + BITS - 1)
        return v


T = Table()


class DegreeOverflow(Exception):
    pass


def mono(i, e=1):
    return e << (BITS * i)


def varpoly(i):
    return {1 << (BITS * i): 1}


def mono_items(m):
    """[(var index, exponent)]"""
    out = []
    i = 0
    while m:
        e = m & FULL
        if e:
            out.append((i, e))
            m >>= BITS
            i += 1
        else:
            # skip zero fields quickly
            low = (m & -m).bit_length() - 1
            k = low // BITS
            m >>= BITS * k
            i += k
    return out


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        s = r.get(m, 0) + c
        if s:
            r[m] = s
        else:
            del r[m]
    return r


def pscale(a, k):
    if k == 1:
        return a
    if k == 0:
        return {}
    return {m: c * k for m, c in a.items()}


def pneg(a):
    return {m: -c for m, c in a.items()}


def psub(a, b):
    r = dict(a)
    for m, c in b.items():
        s = r.get(m, 0) - c
        if s:
            r[m] = s
        else:
            del r[m]
    return r


def _rawmul(a, b):
    r = {}
    if len(a) > len(b):
        a, b = b, a
    get = r.get
    bi = list(b.items())
    for m1, c1 in a.items():
        for m2, c2 in bi:
            m = m1 + m2
            r[m] = get(m, 0) + c1 * c2
    return r


class TooBig(Exception):
    pass


MAXTERMS = 4000000


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) * len(b) > MAXTERMS:
        raise TooBig("polynomial product %d x %d" % (len(a), len(b)))
    if len(a) == 1:
        (m1, c1), = a.items()
        if m1 == 0:
            return pscale(b, c1)
        r = {m1 + m: c1 * c for m, c in b.items()}
    elif len(b) == 1:
        (m1, c1), = b.items()
        if m1 == 0:
            return pscale(a, c1)
        r = {m1 + m: c1 * c for m, c in a.items()}
    else:
        r = _rawmul(a, b)
    return preduce(r)


def preduce(r):
    alg = T.algmask
    ovf = T.ovf
    dirty = False
    for m, c in r.items():
        if not c or m & alg:
            dirty = True
            break
    for m in r:
        if m & ovf:
            raise DegreeOverflow()
    if not dirty:
        return r
    out = {}
    todo = []
    for m, c in r.items():
        if not c:
            continue
        if m & alg:
            todo.append((m, c))
        else:
            out[m] = c
    if todo:
        # group by (reduction pattern)
        groups = {}
        for m, c in todo:
            bad = m & alg
            # remove even parts of the algebraic fields
            key = []
            while bad:
                # highest algebraic variable first (rules refer to earlier vars)
                i = (bad.bit_length() - 1) // BITS
                e = (m >> (BITS * i)) & FULL
                h = e // 2
                m -= (2 * h) << (BITS * i)
                key.append((i, h))
                bad = m & alg
            key = tuple(key)
            g = groups.setdefault(key, {})
            s = g.get(m, 0) + c
            if s:
                g[m] = s
            elif m in g:
                del g[m]
        for key, g in groups.items():
            if not g:
                continue
            mult = {0: 1}
            for i, h in key:
                mult = pmul(mult, ppow(T.vars[i].rule, h))
            prod = pmul(g, mult)
            for m, c in prod.items():
                s = out.get(m, 0) + c
                if s:
                    out[m] = s
                elif m in out:
                    del out[m]
    return out


def ppow(a, n):
    r = {0: 1}
    base = a
    while n:
        if n & 1:
            r = pmul(r, base)
        n >>= 1
        if n:
            base = pmul(base, base)
    return r


def pcontent(a):
    g = 0
    for c in a.values():
        g = gcd(g, c)
        if g == 1:
            break
    return g


def pprim(a):
    """(content with sign so that leading coeff positive, primitive part)"""
    g = pcontent(a)
    if not a:
        return 0, a
    if a[max(a)] < 0:
        g = -g
    if g == 1:
        return 1, a
    return g, {m: c // g for m, c in a.items()}


def pmonogcd(a):
    """gcd monomial of all terms"""
    it = iter(a)
    g = next(it)
    for m in it:
        if not g:
            return 0
        ng = 0
        for i, e in mono_items(g):
            f = (m >> (BITS * i)) & FULL
            k = e if e < f else f
            ng |= k << (BITS * i)
        g = ng
    return g


def mono_div(m, d):
    """m/d or None if d does not divide m (no field borrow)"""
    if m < d:
        return None
    r = m - d
    # borrow check: add back fieldwise; any borrow makes a field of r exceed m's field
    for i, e in mono_items(d):
        if ((m >> (BITS * i)) & FULL) < e:
            return None
    return r


def pvars(a):
    u = 0
    for m in a:
        u |= m
    return [i for i, e in mono_items(u)]


def pdivexact(a, b):
    """a/b when b divides a exactly over the integers (b primitive), else None."""
    if not a:
        return {}
    if len(b) == 1:
        (mb, cb), = b.items()
        r = {}
        for m, c in a.items():
            d = mono_div(m, mb)
            if d is None or c % cb:
                return None
            r[d] = c // cb
        return r
    lb = max(b)
    tb = min(b)
    if mono_div(max(a), lb) is None or mono_div(min(a), tb) is None:
        return None
    if len(a) < len(b) and len(a) < 2:
        return None
    cb = b[lb]
    rest = [(m, c) for m, c in b.items() if m != lb]
    r = dict(a)
    heap = [-m for m in r]
    heapq.heapify(heap)
    q = {}
    limit = 20000 + 4 * len(a)
    steps = 0
    while heap:
        m = -heapq.heappop(heap)
        c = r.pop(m, 0)
        if not c:
            continue
        d = mono_div(m, lb)
        if d is None or c % cb:
            return None
        k = c // cb
        q[d] = k
        for mm, cc in rest:
            t = mm + d
            old = r.get(t)
            if old is None:
                r[t] = -k * cc
                heapq.heappush(heap, -t)
            else:
                r[t] = old - k * cc
        steps += len(rest)
        if steps > limit * 50:
            return None
    return q


def psqrt_exact(a):
    """polynomial g with g*g == a (as plain polynomials, no algebraic vars), or None"""
    if not a:
        return {}
    u = 0
    for m in a:
        u |= m
    if u & T.algmask or any(T.vars[i].rule is not None for i, _ in mono_items(u)):
        return None
    lm = max(a)
    lc = a[lm]
    if lc < 0:
        return None
    s = isqrt(lc)
    if s * s != lc:
        return None
    for _, e in mono_items(lm):
        if e & 1:
            return None
    tm = min(a)
    tc = a[tm]
    if tc < 0 or isqrt(tc) ** 2 != tc:
        return None
    for _, e in mono_items(tm):
        if e & 1:
            return None
    g = {lm >> 1: s} if lm else {0: s}
    # valid because all exponents even -> halving packed int is fieldwise
    rem = psub(a, _rawmul(g, g))
    rem = {m: c for m, c in rem.items() if c}
    lead = lm >> 1
    n = 0
    while rem:
        n += 1
        if n > 3000:
            return None
        m = max(rem)
        d = mono_div(m, lead)
        if d is None or rem[m] % (2 * s):
            return None
        k = rem[m] // (2 * s)
        if d >= lead:
            return None
        t = {d: k}
        # rem -= 2*g*t + t*t
        upd = _rawmul(g, t)
        for mm, cc in upd.items():
            x = rem.get(mm, 0) - 2 * cc
            if x:
                rem[mm] = x
            elif mm in rem:
                del rem[mm]
        x = rem.get(2 * d, 0) - k * k
        if x:
            rem[2 * d] = x
        elif 2 * d in rem:
            del rem[2 * d]
        g[d] = k
    return g


def psubst(a, i, num, den=None):
    """substitute var i by num/den (polys); returns (poly, power of den)"""
    by = {}
    f = FULL << (BITS * i)
    for m, c in a.items():
        e = (m >> (BITS * i)) & FULL
        by.setdefault(e, {})[m & ~f] = c
    if not by:
        return {}, 0
    D = max(by)
    r = {}
    pw = {0: {0: 1}}
    for e in range(1, D + 1):
        pw[e] = pmul(pw[e - 1], num)
    dp = {0: {0: 1}}
    for e in range(1, D + 1):
        dp[e] = pmul(dp[e - 1], den) if den is not None else {0: 1}
    for e, p in by.items():
        r = padd(r, pmul(pmul(p, pw[e]), dp[D - e]))
    return r, (D if den is not None else 0)


def pderiv(a, i):
    r = {}
    for m, c in a.items():
        e = (m >> (BITS * i)) & FULL
        if e:
            r[m - (1 << (BITS * i))] = c * e
    return r


def pconj(a):
    """complex conjugate: I -> -I"""
    return {m: (-c if m & 1 else c) for m, c in a.items()}


def preim(a):
    re, im = {}, {}
    for m, c in a.items():
        if m & 1:
            im[m & ~FULL] = c
        else:
            re[m] = c
    return re, im


def pstr(a, limit=8):
    if not a:
        return "0"
    out = []
    for m, c in sorted(a.items(), reverse=True)[:limit]:
        t = "*".join(
            T.vars[i].name + ("^%d" % e if e > 1 else "") for i, e in mono_items(m)
        )
        out.append(("%d*%s" % (c, t)) if t else str(c))
    s = " + ".join(out)
    if len(a) > limit:
        s += " + ...(%d terms)" % len(a)
    return s
