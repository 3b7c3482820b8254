"""Path exploration by re-execution, z3 bridge, goals."""
import os
import random
import sys
import time
from fractions import Fraction

from . import poly as P
from .poly import T
from . import scalar as SC
from .scalar import (
    HOLD, S, SBool, ZERO, ONE, isb, bnot, band, bor, eqf, ltf, evalS, evalF, evalvar, DomainError, Unsupported,
    simple_sign, tos, fstr,
)

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402


class PathAbort(BaseException):
    """path infeasible or out of scope"""


class PathLimit(BaseException):
    pass


class GoalFail(Exception):
    pass


class Z3B:
    """translation of polynomials / formulas to z3 terms, with side constraints"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.zv = {}
        self.sides = []

    def var(self, i):
        z = self.zv.get(i)
        if z is not None:
            return z
        v = T.vars[i]
        if v.kind == "imag":
            raise Unsupported("imaginary unit in a real term")
        if v.kind == "int":
            zi = z3.Int("v%d" % i)
            z = z3.ToReal(zi)
            self.zv[i] = z
            if v.lo is not None:
                self.sides.append(zi >= int(v.lo))
            if v.hi is not None:
                self.sides.append(zi <= int(v.hi))
            if v.data is not None and v.data[0] == "floordiv":
                a, b = v.data[1], v.data[2]
                an, ad = self.frac(a)
                bn, bd = self.frac(b)
                cb = b.const()
                if cb is not None and cb > 0:
                    k = z3.RealVal(str(cb))
                    self.sides.append(z * k * ad <= an)
                    self.sides.append(an < (z + 1) * k * ad)
                elif b.is_int() and a.is_int():
                    self.sides.append(z3.Implies(bn > 0, z3.And(z * bn <= an, an < (z + 1) * bn)))
            return z
        z = z3.Real("v%d" % i)
        self.zv[i] = z
        if v.kind in ("pos", "exp"):
            self.sides.append(z > 0)
        if v.kind == "pi":
            self.sides.append(z > z3.RealVal("3.14159"))
            self.sides.append(z < z3.RealVal("3.1416"))
        if v.lo is not None:
            self.sides.append(z >= z3.RealVal(str(v.lo)))
        if v.hi is not None:
            self.sides.append(z <= z3.RealVal(str(v.hi)))
        if v.kind in ("sqrt", "abs"):
            self.sides.append(z >= 0)
            self.sides.append(z * z == self.poly(v.rule))
        if v.kind == "sin":
            c = self.var(v.data[2])
            self.sides.append(z * z + c * c == 1)
        if v.kind == "cos":
            pass
        for b in self.ctx.var_sides.get(i, ()):
            self.sides.append(self.formula(b))
        return z

    def poly(self, p):
        if not p:
            return z3.RealVal(0)
        ts = []
        for m, c in p.items():
            fs = []
            for i, e in P.mono_items(m):
                z = self.var(i)
                fs.extend([z] * e)
            if not fs:
                ts.append(z3.RealVal(c))
            else:
                if c != 1:
                    fs.insert(0, z3.RealVal(c))
                ts.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
        return ts[0] if len(ts) == 1 else z3.Sum(*ts)

    def frac(self, s):
        """(num, den) z3 terms of a real S"""
        n = self.poly(s.n)
        d = z3.RealVal(s.q)
        for f, k in s.d:
            zf = self.poly(T.facts[f])
            self.sides.append(zf != 0)
            for _ in range(k):
                d = d * zf
        return n, d

    def formula(self, f):
        if isb(f):
            return z3.BoolVal(bool(f))
        if f.op == "eq":
            return self.poly(f.a.n) == 0
        if f.op == "lt":
            return self.poly(f.a.n) < 0
        if f.op == "not":
            return z3.Not(self.formula(f.a))
        if f.op == "and":
            return z3.And(*[self.formula(x) for x in f.a])
        if f.op == "or":
            return z3.Or(*[self.formula(x) for x in f.a])
        raise Unsupported(f.op)


def fsize(f):
    if isb(f):
        return 0
    if f.op in ("eq", "lt"):
        return len(f.a.n)
    if f.op == "not":
        return fsize(f.a)
    return sum(fsize(x) for x in f.a)


class Goal:
    __slots__ = ("label", "pairs", "formula")

    def __init__(self, label, pairs=None, formula=None):
        self.label, self.pairs, self.formula = label, pairs, formula


def strip_pos(p):
    """divide by positive integer content and the common monomial of positive variables"""
    g = P.pcontent(p)
    g = abs(g)
    if g > 1:
        p = {m: c // g for m, c in p.items()}
    mg = P.pmonogcd(p) if len(p) > 1 else (max(p) if p else 0)
    cut = 0
    if mg:
        for i, e in P.mono_items(mg):
            if T.vars[i].kind in ("pos", "exp", "pi") or (T.vars[i].lo is not None and T.vars[i].lo > 0):
                cut += e << (P.BITS * i)
    if cut:
        p = {m - cut: c for m, c in p.items()}
    return p, cut


class Ctx:
    def __init__(self, opts=None, seed=1):
        self.opts = dict(
            branch_timeout=1500, goal_timeout=20000, max_paths=400, max_seconds=600.0, sign_timeout=300
        )
        self.opts.update(opts or {})
        self.rng = random.Random(seed)
        self.stats = dict(
            paths=0, branches=0, forks=0, queries=0, solver_s=0.0, goals=0, unknown=0, proved=0, infeasible=0,
            syntactic=0,
        )
        self.inconclusive = []
        self.assumed = set()

    # ---- per path state
    def start_path(self, prefix):
        T.reset()
        from . import scalar
        scalar.BASEDEN.clear()
        self.prefix = prefix
        self.dec = []
        self.pc = []
        self.assumptions = []
        self.domain = []
        self.var_sides = {}
        self.basevars = []  # indices of user declared variables
        self.goals = []
        self.points = None
        self.memo = {}
        self.signmemo = {}
        self.notes = []
        self.nofork = 0

    # ---- declared variables
    def declare(self, name, kind="real", lo=None, hi=None):
        v = T.new(name, kind, lo=lo, hi=hi)
        self.basevars.append(v.i)
        self.points = None
        return S({1 << (P.BITS * v.i): 1})

    def assume(self, f):
        if isb(f):
            if not f:
                raise PathAbort("assumption false")
            return
        self.assumptions.append(f)
        if f.op == "lt":
            n, _ = strip_pos(f.a.n)
            self.signmemo[frozenset(n.items())] = "-"
            self.signmemo[frozenset(P.pneg(n).items())] = "+"
        if self.points is not None:
            self.points = [e for e in self.points if self._ev(f, e) is True]

    def note_domain(self, s):
        """record that an expression is taken to be >= 0 (argument of a real sqrt)"""
        f = bnot(ltf(s, ZERO)) if simple_sign(s.n) is None else True
        if not isb(f):
            self.domain.append(f)

    # ---- sample points
    def _sample_value(self, v):
        r = self.rng
        if v.kind == "int":
            lo = 0 if v.lo is None else int(v.lo)
            hi = lo + 6 if v.hi is None else int(v.hi)
            return float(r.randint(lo, hi))
        lo, hi = v.lo, v.hi
        if lo is not None and hi is not None:
            return float(lo) + (float(hi) - float(lo)) * r.randint(1, 30) / 31.0
        x = r.randint(1, 40) / r.choice([8.0, 16.0, 16.0, 32.0])
        if v.kind in ("pos",):
            return x if lo is None else float(lo) + x
        if lo is not None:
            return float(lo) + x
        if hi is not None:
            return float(hi) - x
        return x if r.random() < 0.5 else -x

    def _ev(self, f, env):
        try:
            return evalF(f, env)
        except (DomainError, OverflowError, ZeroDivisionError, KeyError, ValueError):
            return None

    def get_points(self):
        if self.points is None:
            self.points = []
            tries = 60 if (self.assumptions or self.pc) else 8
            for _ in range(tries):
                env = {i: self._sample_value(T.vars[i]) for i in self.basevars}
                ok = True
                for f in self.assumptions + self.pc:
                    if self._ev(f, env) is not True:
                        ok = False
                        break
                if ok:
                    self.points.append(env)
                    if len(self.points) >= 6:
                        break
            for e in self.hint_points():
                if all(self._ev(f, e) is True for f in self.assumptions + self.pc):
                    self.points.append(e)
        return self.points

    def hint_points(self):
        return []

    # ---- solver
    def _solver(self, timeout):
        s = z3.Solver()
        s.set("timeout", int(timeout))
        return s

    def _check(self, fs, timeout, extra=None, want_model=False):
        b = Z3B(self)
        s = self._solver(timeout)
        t0 = time.time()
        zs = [b.formula(f) for f in fs]
        if extra is not None:
            zs.extend(extra(b))
        k = 0
        while k < len(b.sides):
            s.add(b.sides[k])
            k += 1
        s.add(*zs)
        r = s.check()
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.time() - t0
        if want_model:
            return r, (s.model() if r == z3.sat else None), b
        return r

    def _prop_unsat(self, fs, timeout=3000):
        """unsatisfiable already as a propositional combination of its arithmetic atoms?"""
        atoms = {}

        def atom(f):
            n = f.a.n
            if f.op == "eq":
                if n and n[max(n)] < 0:
                    n = P.pneg(n)
            k = (f.op, frozenset(n.items()))
            if k not in atoms:
                atoms[k] = z3.Bool("at%d" % len(atoms))
            return atoms[k]

        def tr(f):
            if isb(f):
                return z3.BoolVal(bool(f))
            if f.op in ("eq", "lt"):
                return atom(f)
            if f.op == "not":
                return z3.Not(tr(f.a))
            if f.op == "and":
                return z3.And(*[tr(x) for x in f.a])
            if f.op == "or":
                return z3.Or(*[tr(x) for x in f.a])
            return z3.FreshBool("o")

        s = self._solver(timeout)
        t0 = time.time()
        s.add(*[tr(f) for f in fs])
        r = s.check()
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.time() - t0
        return r == z3.unsat

    def sign_query(self, p):
        """sign of a polynomial under current assumptions+path (solver), cached"""
        if self.nofork > 3:
            return None
        p, even = strip_pos(p)
        k = frozenset(p.items())
        if k in self.signmemo:
            return self.signmemo[k]
        self.signmemo[k] = None
        u = 0
        for m in p:
            u |= m
        if u & 1 or len(p) > 60:
            return None
        pts = self.get_points()
        cand = None
        for e in pts:
            try:
                x = evalS(S(p), e)
            except (DomainError, OverflowError, ZeroDivisionError, KeyError, ValueError):
                continue
            x = x.real if isinstance(x, complex) else x
            s = "+" if x > 1e-9 else "-" if x < -1e-9 else None
            if s is None:
                continue
            if cand is None:
                cand = s
            elif cand != s:
                return None
        if cand is None:
            return None
        self.nofork += 1
        try:
            neg = SBool("lt", S(p)) if cand == "+" else SBool("lt", S(P.pneg(p)))
            neg = bor(neg, SBool("eq", S(p)))
            fs = self.assumptions + self.pc + [neg]
            r = self._check(fs, self.opts["sign_timeout"])
            if r == z3.unsat:
                self.signmemo[k] = cand
        finally:
            self.nofork -= 1
        return self.signmemo[k]

    # ---- branching
    def branch(self, f):
        if isb(f):
            return bool(f)
        k = f.key()
        if k in self.memo:
            return self.memo[k]
        self.stats["branches"] += 1
        n = len(self.dec)
        if n < len(self.prefix):
            val = self.prefix[n]
        else:
            if self.nofork:
                raise Unsupported("branch during solver callback")
            t = self._feasible(f)
            e = self._feasible(bnot(f))
            if t and e:
                val = True
                self.pending.append(self.dec[:n] + [False])
                self.stats["forks"] += 1
            elif t:
                val = True
            elif e:
                val = False
            else:
                self.stats["infeasible"] += 1
                raise PathAbort("path infeasible")
        self.dec.append(val)
        g = f if val else bnot(f)
        self.pc.append(g)
        self.memo[k] = val
        if f.op == "not":
            self.memo[f.a.key()] = not val
        if self.points is not None:
            self.points = [e for e in self.points if self._ev(g, e) is True]
            if not self.points:
                self.points = None
        return val

    def _feasible(self, f):
        if isb(f):
            return bool(f)
        for e in self.get_points():
            if self._ev(f, e) is True:
                return True
        r = self._check(self.assumptions + self.pc + [f], self.opts["branch_timeout"])
        if r == z3.unknown:
            self.stats["unknown"] += 1
        return r != z3.unsat

    def concretize_int(self, s):
        lo, hi = self.int_range(s)
        for v in range(lo, hi + 1):
            if self.branch(eqf(s, tos(v))) if not isb(eqf(s, tos(v))) else eqf(s, tos(v)):
                return v
        raise PathAbort("integer out of range")

    def int_range(self, s):
        lo = hi = 0
        for m, c in s.n.items():
            a = b = 1
            for i, e in P.mono_items(m):
                v = T.vars[i]
                vl, vh = v.lo, v.hi
                if (vl is None or vh is None) and v.data is not None and v.data[0] == "floordiv":
                    al, ah = self.int_range(v.data[1])
                    cb = v.data[2].const()
                    if cb is None or cb <= 0:
                        raise Unsupported("unbounded integer")
                    vl, vh = int(al // cb), int(ah // cb)
                if vl is None or vh is None:
                    raise Unsupported("unbounded integer")
                for _ in range(e):
                    c4 = [a * vl, a * vh, b * vl, b * vh]
                    a, b = min(c4), max(c4)
            t = sorted([a * c, b * c])
            lo += t[0]
            hi += t[1]
        return int(lo), int(hi)

    # ---- goals
    def goal_eq(self, label, pairs):
        self.goals.append(Goal(label, pairs=pairs))

    def goal_true(self, label, f):
        self.goals.append(Goal(label, formula=f))

    def path_eq_subst(self):
        """linear equalities of the path, as substitutions var -> poly/den"""
        subs = []
        for f in self.assumptions + self.pc:
            fs = [f]
            if not isb(f) and f.op == "and":
                fs = list(f.a)
            for g in fs:
                if isb(g) or g.op != "eq":
                    continue
                subs.append(g.a.n)
        return subs

    def apply_eqs(self, n, eqs):
        """substitute linear equalities (const leading coefficient) in polynomial n.
        returns polynomial proportional to n modulo the equalities"""
        eqs = [dict(e) for e in eqs]
        changed = True
        while eqs and n:
            e = eqs.pop(0)
            pick = None
            for i in P.pvars(e):
                v = T.vars[i]
                if v.rule is not None or v.kind not in ("real", "pos", "int", "gen"):
                    continue
                if self._in_atoms(i):
                    continue
                bit = 1 << (P.BITS * i)
                fmask = P.FULL << (P.BITS * i)
                terms = [(m, c) for m, c in e.items() if m & fmask]
                if len(terms) == 1 and terms[0][0] == bit:
                    pick = (i, terms[0][1], {m: -c for m, c in e.items() if not m & fmask})
                    break
            if pick is None:
                continue
            i, c, rest = pick
            n, _ = P.psubst(n, i, rest, {0: c})
            eqs = [P.psubst(x, i, rest, {0: c})[0] for x in eqs]
            eqs = [x for x in eqs if x]
        return n

    def _in_atoms(self, i):
        for v in T.vars:
            if v.kind in ("sqrt", "abs") and v.data and i in P.pvars(v.data):
                return True
            if v.kind in ("exp", "cos", "sin"):
                if v.data[0] == "whole":
                    return True
                if i in [a for a, _ in P.mono_items(v.data[0])]:
                    return True
            if v.kind == "uf" or (v.kind == "int" and v.data):
                return True
        return False

    def deep_eqs(self):
        """path equalities solved for variables (index -> S); coefficients must be provably nonzero"""
        base = self.assumptions + self.pc + self.domain
        eqs = [S(e) for e in self.path_eq_subst()]
        sol = {}
        while eqs:
            e = eqs.pop(0).n
            if not e:
                continue
            pick = None
            for const_only in (True, False):
                for i in P.pvars(e):
                    v = T.vars[i]
                    if v.rule is not None or v.kind not in ("real", "pos", "gen"):
                        continue
                    bit = 1 << (P.BITS * i)
                    fmask = P.FULL << (P.BITS * i)
                    cf, rest, ok = {}, {}, True
                    for m, c in e.items():
                        k = m & fmask
                        if not k:
                            rest[m] = c
                        elif k == bit:
                            cf[m - bit] = c
                        else:
                            ok = False
                    if not ok or not cf:
                        continue
                    isc = set(cf) == {0}
                    if isc != const_only:
                        continue
                    if not isc:
                        ne = SC.eqf(S(cf), SC.ZERO)
                        if ne is not False and (ne is True or self._check(base + [ne], 1500) != z3.unsat):
                            continue
                    val = -S(rest) / S(cf)
                    if any(w.kind in ("sqrt", "abs", "exp", "cos", "sin", "uf") and i in self._deps(w.i) for w in [T.vars[j] for j in P.pvars(rest)]):
                        continue
                    pick = (i, val)
                    break
                if pick:
                    break
            if not pick:
                continue
            mp = {pick[0]: pick[1]}
            sol = {k: SC.subst(v, mp) for k, v in sol.items()}
            sol.update(mp)
            eqs = [SC.subst(x, mp) for x in eqs]
            eqs = [x for x in eqs if x.n]
        return sol

    def _deps(self, i, seen=None):
        v = T.vars[i]
        d = v.data
        out = set()
        if v.kind in ("sqrt", "abs"):
            ps = [d]
        elif v.kind in ("exp", "cos", "sin"):
            if d[0] == "whole":
                ps = [d[1].n] + [T.facts[f] for f, _ in d[1].d]
            else:
                ps = [{d[0]: 1}]
        elif v.kind == "uf":
            ps = [x for a in d[1] for x in [a.n] + [T.facts[f] for f, _ in a.d]]
        else:
            return {i}
        for p_ in ps:
            for j in P.pvars(p_):
                out |= self._deps(j)
        return out

    def discharge(self):
        """decide all goals of the finished path.  returns list of (label, status, info)"""
        res = []
        base = self.assumptions + self.pc + self.domain
        eqs = None
        deep = None
        bulk = []  # (label, re-poly-l, re-poly-r)
        for g in self.goals:
            self.stats["goals"] += 1
            if g.formula is not None:
                f = g.formula
                if isb(f):
                    if f:
                        self.stats["proved"] += 1
                        res.append((g.label, "proved", None))
                    else:
                        res.append((g.label, "sat", self.find_witness([])))
                    continue
                ok = None
                if self._prop_unsat(base + [bnot(f)]):
                    r = z3.unsat
                else:
                    r = self._check(base + [bnot(f)], self.opts["goal_timeout"])
                if r == z3.unsat:
                    self.stats["proved"] += 1
                    res.append((g.label, "proved", None))
                else:
                    w = self.find_witness([bnot(f)])
                    res.append((g.label, "sat" if (r == z3.sat or w is not None) else "unknown", w))
                continue
            bad = []
            for l, r in g.pairs:
                d = l - r
                if d.n:
                    if eqs is None:
                        eqs = self.path_eq_subst()
                    for part in P.preim(d.n):
                        if not part:
                            continue
                        n = self.apply_eqs(part, eqs) if eqs else part
                        if n:
                            n = SC.merge_exps(n)
                        if n:
                            bad.append(S(n, 1))
                        else:
                            bulk.append((g.label, S(part), None))
                else:
                    bulk.append((g.label, l, r))
            if bad and eqs:
                # equalities of the path, also inside square roots and exponentials
                self.nofork += 1
                try:
                    if deep is None:
                        deep = self.deep_eqs()
                    if deep:
                        still = []
                        memo = {}
                        for x in bad:
                            y = SC.subst(x, deep, memo)
                            for part in P.preim(y.n):
                                part = SC.merge_exps(part) if part else part
                                if part:
                                    still.append(x)
                                    break
                            else:
                                bulk.append((g.label, x, None))
                        bad = still
                except (Unsupported, ZeroDivisionError, P.TooBig, P.DegreeOverflow):
                    pass
                finally:
                    self.nofork -= 1
            if not bad:
                res.append([g.label, "bulk", None])
                continue
            # solver on the remaining nonzero differences
            neq = bor(*[bnot(SBool("eq", x)) for x in bad])
            r = z3.unknown
            if sum(len(x.n) for x in bad) < 4000:
                r = self._check(base + [neq], self.opts["goal_timeout"])
            if r == z3.unsat:
                self.stats["proved"] += 1
                res.append((g.label, "proved", None))
            else:
                w = self.find_witness([neq])
                if w is None and r == z3.sat:
                    w = self.find_witness([neq], hard=True)
                res.append((g.label, "sat" if (r == z3.sat or w is not None) else "unknown", w))
        # one query for everything whose difference normalises to zero
        if bulk:
            budget = 1500
            small, big = [], 0
            bulk.sort(key=lambda t: len(t[1].n))
            for lab, l, r in bulk:
                c = len(l.n) + (len(r.n) if r is not None else 0)
                if r is None:
                    # zero only modulo the path's equalities: ask the solver with the path condition
                    if c <= 300 and self._check(base + [bnot(SBool("eq", l))], 3000) == z3.unsat:
                        continue
                    big += 1
                    continue
                if c <= budget:
                    budget -= c
                    small.append((l, r))
                else:
                    big += 1
            def extra(b):
                ors = []
                for l, r in small:
                    if l.n == r.n and l.d == r.d and l.q == r.q:
                        pass
                    lre, lim = P.preim(l.n)
                    rre, rim = P.preim(r.n)
                    ld = {0: l.q}
                    rd = {0: r.q}
                    for f, k in l.d:
                        ld = P.pmul(ld, P.ppow(T.facts[f], k)) if len(ld) < 200 else ld
                    for f, k in r.d:
                        rd = P.pmul(rd, P.ppow(T.facts[f], k)) if len(rd) < 200 else rd
                    zl, zr = b.poly(ld), b.poly(rd)
                    if lre or rre:
                        ors.append(b.poly(lre) * zr != b.poly(rre) * zl)
                    if lim or rim:
                        ors.append(b.poly(lim) * zr != b.poly(rim) * zl)
                if big:
                    # canonical difference polynomials of the remaining goals are 0
                    ors.append(b.poly({}) != 0)
                return [z3.Or(*ors)] if ors else [z3.BoolVal(False)]

            r = self._check([], self.opts["goal_timeout"], extra=extra)
            self.stats["syntactic"] += big
            ok = r == z3.unsat
            if not ok and r != z3.sat:
                # normal forms agree exactly; the solver was not able to confirm in time
                self.stats["unknown"] += 1
            if r == z3.sat:
                raise AssertionError("solver contradicts normal form: engine error")
            for x in res:
                if isinstance(x, list):
                    x[1] = "proved"
                    self.stats["proved"] += 1
        else:
            for x in res:
                if isinstance(x, list):
                    x[1] = "proved"
                    self.stats["proved"] += 1
        return [tuple(x) for x in res]

    # ---- witnesses
    def find_witness(self, extra, hard=False, tries=40):
        """assignment {name: number} of the declared variables satisfying
        assumptions, path and extra formulas; None if not found"""
        fs = self.assumptions + self.pc + list(extra)
        best = None
        # 1. random points (nonidentities fail almost everywhere)
        neqs = list(extra)
        for k in range(tries):
            env = {i: self._sample_value(T.vars[i]) for i in self.basevars}
            rs = [self._ev(f, env) for f in fs]
            if all(r is True for r in rs):
                return self._export(env)
        for e in list(self.get_points()):
            rs = [self._ev(f, e) for f in extra]
            if all(r is True for r in rs):
                return self._export(e)
        # 2. solver, with most variables pinned to small rationals
        t_end = time.time() + (20 if not hard else 60)
        for k in range(6):
            if time.time() > t_end:
                break
            b = Z3B(self)
            s = self._solver(4000)
            try:
                zs = [b.formula(f) for f in fs + self.domain]
            except Exception:
                return None
            for i in self.basevars:
                b.var(i)
            j = 0
            while j < len(b.sides):
                s.add(b.sides[j])
                j += 1
            s.add(*zs)
            pins = []
            if k < 5:
                frac = [1.0, 0.9, 0.7, 0.5, 0.25][k]
                for i in self.basevars:
                    if self.rng.random() < frac:
                        v = T.vars[i]
                        val = Fraction(self._sample_value(v)).limit_denominator(16)
                        pins.append(b.var(i) == z3.RealVal(str(val)))
            t0 = time.time()
            if pins:
                s.push()
                # keep pins greedily
                kept = 0
                s.set("timeout", 800)
                for p in pins:
                    s.push()
                    s.add(p)
                    if s.check() != z3.sat:
                        s.pop()
                    if time.time() > t_end:
                        break
                s.set("timeout", 4000)
            r = s.check()
            self.stats["queries"] += 1
            self.stats["solver_s"] += time.time() - t0
            if r == z3.sat:
                m = s.model()
                env = {}
                for i in self.basevars:
                    val = m.eval(b.var(i), model_completion=True)
                    env[i] = _zval(val)
                self._fix_trans(env, m, b)
                return self._export(env)
            if r == z3.unsat and not pins:
                return None
        return None

    def _fix_trans(self, env, m, b):
        """variables that only occur through exp/cos/sin atoms get their value from the atom"""
        import math
        for v in T.vars:
            if v.kind == "exp" and v.data[0] != "whole" and v.i in b.zv:
                it = P.mono_items(v.data[0])
                if len(it) == 1 and it[0][1] == 1 and it[0][0] not in self._polyvars(b):
                    env[it[0][0]] = math.log(_zval(m.eval(b.zv[v.i], model_completion=True))) * v.data[1]
            if v.kind == "sin" and v.data[0] != "whole" and v.i in b.zv:
                it = P.mono_items(v.data[0])
                if len(it) == 1 and it[0][1] == 1:
                    s_ = _zval(m.eval(b.zv[v.i], model_completion=True))
                    c_ = _zval(m.eval(b.var(v.data[2]), model_completion=True))
                    env[it[0][0]] = math.atan2(s_, c_) * v.data[1]

    def _polyvars(self, b):
        return ()

    def _export(self, env):
        out = {}
        for i in self.basevars:
            v = T.vars[i]
            x = env.get(i, 0.0)
            out[v.name] = int(round(x)) if v.kind == "int" else float(x)
        return out


def _zval(v):
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    if z3.is_int_value(v):
        return float(v.as_long())
    return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))


class Result:
    def __init__(self):
        self.status = "ok"
        self.failures = []
        self.inconclusive = []
        self.stats = {}
        self.samples = []


def explore(fn, opts=None, seed=1, on_exception=None):
    """run fn(ctx) over all paths.  returns Result"""
    c = Ctx(opts, seed)
    HOLD.ctx = c
    res = Result()
    stack = [[]]
    t0 = time.time()
    try:
        while stack:
            if c.stats["paths"] >= c.opts["max_paths"] or time.time() - t0 > c.opts["max_seconds"]:
                res.inconclusive.append("path/time limit reached with %d open prefixes" % len(stack))
                break
            prefix = stack.pop()
            c.start_path(prefix)
            c.pending = stack
            try:
                fn(c)
            except PathAbort:
                continue
            except Unsupported as e:
                import traceback
                tb = traceback.extract_tb(e.__traceback__)
                where = [f for f in tb if "/repo/" in f.filename or "thewalrus" in f.filename]
                loc = "%s:%d" % (where[-1].filename, where[-1].lineno) if where else "?"
                res.inconclusive.append("unsupported: %s at %s" % (e, loc))
                w = c.find_witness([])
                if w is not None:
                    res.failures.append(("unsupported", "probe", w, str(e)))
                c.stats["paths"] += 1
                continue
            except (P.TooBig, P.DegreeOverflow, RecursionError, MemoryError) as e:
                res.inconclusive.append("engine limit: %r" % (e,))
                w = c.find_witness([])
                if w is not None:
                    res.failures.append(("engine-limit", "probe", w, str(e)))
                c.stats["paths"] += 1
                continue
            except Exception as e:  # exception escaping the code under test
                import traceback
                c.stats["paths"] += 1
                tb = traceback.format_exc()
                w = c.find_witness([])
                res.failures.append(("exception:%s" % type(e).__name__, "exc", w, tb))
                continue
            c.stats["paths"] += 1
            for label, st, w in c.discharge():
                if st == "proved":
                    continue
                if st == "unknown":
                    res.inconclusive.append("goal %s: solver unknown" % label)
                    w = w or c.find_witness([])
                    if w is not None:
                        res.failures.append((label, "probe", w, "unknown goal"))
                    continue
                res.failures.append((label, "cex", w, ""))
            if len(res.samples) < 3:
                try:
                    res.samples.append(
                        dict(path=[fstr(f)[:160] for f in c.pc[:6]], goals=[g.label for g in c.goals[:6]])
                    )
                except Exception:
                    pass
            if sum(1 for f in res.failures if f[1] == "cex") >= 6:
                break
    finally:
        HOLD.ctx = None
    res.stats = c.stats
    res.wall = time.time() - t0
    return res
