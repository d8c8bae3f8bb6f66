"""Symbolic values for executing the repository's Python/numpy source.

A number seen by the executed code is either an ordinary Python/numpy number or an
`SR`: a finite union of guarded leaves, each leaf a polynomial (exact rational
coefficients) over real atoms or one of the IEEE specials inf, -inf, nan.  Booleans are
`bool` or `SB` (a formula).  `bool(SB)` forks the execution.  Everything is discharged
by an SMT solver over nonlinear real arithmetic.
"""
import math
import os
import subprocess
import tempfile
import time
from fractions import Fraction

import z3

SITES = os.environ.get("VERIF_SITES")  # for working on a harness: print where the executor forks

NEG, ZERO, POS = 1, 2, 4
INF = float("inf")
NAN = float("nan")


class Unsupported(Exception):
    """the symbolic layer cannot execute this operation"""


class Infeasible(Exception):
    """the current path has no input (an assumption contradicts it)"""


class Inconclusive(Exception):
    pass


class PathLimit(Exception):
    pass


# --------------------------------------------------------------------------- polys
class Poly:
    __slots__ = ("t", "_h", "_z", "_iv")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._z = None
        self._iv = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), Fraction(0))

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def __repr__(self):
        return poly_str(self)


def poly_str(p, limit=12):
    if not p.t:
        return "0"
    out = []
    for m, c in list(p.t.items())[:limit]:
        f = "*".join(
            ctx().names[a] + ("" if e == 1 else f"^{e}") for a, e in m
        )
        cs = str(c) if c.denominator < 10 ** 6 else f"{float(c):.6g}"
        out.append(f if (f and c == 1) else (f"{cs}*{f}" if f else cs))
    if len(p.t) > limit:
        out.append("...")
    return " + ".join(out)


P0 = Poly({})
P1 = Poly({(): Fraction(1)})


def pconst(c):
    return Poly({(): c}) if c else P0


def to_fraction(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    x = float(x)
    if x == int(x) and abs(x) < 1e15:
        return Fraction(int(x))
    # the decimal the source wrote (0.1 means 1/10)
    return Fraction(repr(x))


def padd(a, b, sb=1):
    if not b.t:
        return a
    t = dict(a.t)
    for m, c in b.t.items():
        n = t.get(m, 0) + sb * c
        if n:
            t[m] = n
        else:
            del t[m]
    return Poly(t)


def pscale(a, c):
    if c == 1:
        return a
    if c == 0:
        return P0
    return Poly({m: v * c for m, v in a.t.items()})


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    if a.is_const():
        return pscale(b, a.const())
    if b.is_const():
        return pscale(a, b.const())
    if len(a.t) * len(b.t) > 60000:
        raise Inconclusive("polynomial blow-up")
    t = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = mmul(m1, m2)
            n = t.get(m, 0) + c1 * c2
            if n:
                t[m] = n
            else:
                t.pop(m, None)
    return ctx().reduce(Poly(t))


def plead(p):
    """canonical leading coefficient"""
    m = max(p.t, key=lambda m: (sum(e for _, e in m), m))
    return m, p.t[m]


# --------------------------------------------------------------------------- formulas
class Fm:
    """interned NNF formula: ('L', poly, bits) | ('&', args) | ('|', args) | ('X', name) opaque"""

    __slots__ = ("k", "a", "b", "id", "neg", "_z")

    def __repr__(self):
        if self.k == "L":
            ops = {1: "<0", 2: "==0", 3: "<=0", 4: ">0", 5: "!=0", 6: ">=0"}
            return f"({self.a!r} {ops[self.b]})"
        return "(" + f" {self.k} ".join(map(repr, self.a)) + ")"


def _mk(k, a, b=None):
    tab = ctx().ftab
    key = (k, a, b)
    f = tab.get(key)
    if f is None:
        f = Fm()
        f.k, f.a, f.b, f.neg, f._z = k, a, b, None, None
        f.id = len(tab)
        tab[key] = f
    return f


def flit(p, bits):
    """formula: sign(p) in bits"""
    if bits == 0:
        return False
    if bits == 7:
        return True
    if p.is_const():
        c = p.const()
        s = NEG if c < 0 else POS if c > 0 else ZERO
        return bool(s & bits)
    m, lc = plead(p)
    if lc != 1:
        p = pscale(p, 1 / lc)
        if lc < 0:
            bits = (bits & ZERO) | (POS if bits & NEG else 0) | (NEG if bits & POS else 0)
    known = ctx().signs(p)
    if known & bits == 0:
        return False
    if known & ~bits == 0:
        return True
    # normalise to the weakest information needed: keep bits as given
    return _mk("L", p, bits)


def fnot(f):
    if f is True:
        return False
    if f is False:
        return True
    if f.neg is None:
        if f.k == "L":
            n = _mk("L", f.a, 7 & ~f.b)
        elif f.k == "&":
            n = for_(*[fnot(x) for x in f.a])
        elif f.k == "|":
            n = fand(*[fnot(x) for x in f.a])
        else:
            raise AssertionError
        f.neg = n
        if not isinstance(n, bool) and n.neg is None:
            n.neg = f
    return f.neg


def fand(*fs):
    lits = {}
    rest = {}
    stack = list(fs)
    while True:
        while stack:
            f = stack.pop()
            if f is True:
                continue
            if f is False:
                return False
            if f.k == "&":
                stack.extend(f.a)
            elif f.k == "L":
                b = lits.get(f.a, 7) & f.b
                if b == 0:
                    return False
                lits[f.a] = b
            else:
                rest[f.id] = f
        # ors against the literals: drop contradicted disjuncts, drop satisfied ors
        for i in list(rest):
            f = rest[i]
            if f.neg is not None and not isinstance(f.neg, bool) and f.neg.id in rest:
                return False
            if f.k != "|":
                continue
            g = []
            sat = False
            for x in f.a:
                if x.k == "L" and x.a in lits:
                    b = lits[x.a]
                    if b & x.b == 0:
                        continue
                    if b & ~x.b == 0:
                        sat = True
                        break
                g.append(x)
            if sat:
                del rest[i]
            elif len(g) < len(f.a):
                del rest[i]
                if not g:
                    return False
                if len(g) == 1:
                    stack.append(g[0])
                else:
                    h = _mk("|", tuple(g))
                    rest[h.id] = h
        if not stack:
            break
    out = {}
    for p, b in lits.items():
        x = flit(p, b)
        if x is False:
            return False
        if x is not True:
            out[x.id] = x
    out.update(rest)
    if not out:
        return True
    if len(out) == 1:
        return next(iter(out.values()))
    return _mk("&", tuple(out[i] for i in sorted(out)))


def for_(*fs):
    out = {}
    lits = {}
    stack = list(fs)
    while stack:
        f = stack.pop()
        if f is False:
            continue
        if f is True:
            return True
        if f.k == "|":
            stack.extend(f.a)
        elif f.k == "L":
            b = lits.get(f.a, 0) | f.b
            if b == 7:
                return True
            lits[f.a] = b
        else:
            out[f.id] = f
    for p, b in lits.items():
        x = flit(p, b)
        if x is True:
            return True
        if x is not False:
            out[x.id] = x
    if not out:
        return False
    if len(out) == 1:
        return next(iter(out.values()))
    return _mk("|", tuple(out[i] for i in sorted(out)))


# --------------------------------------------------------------------------- context
class Ctx:
    def __init__(self, prefix=(), policy="merge", stats=None, timeout=20000, maxpaths=2000):
        self.names = []
        self.zv = []
        self.ivs = []  # (lo, hi) Fractions or None
        self.defs = {}  # atom -> list[callable -> z3 expr]
        self.defdeps = {}
        self.rules = {}  # trigger atom -> list[(lm dict, rhs Poly)]
        self.ftab = {}
        self.path = []  # formulas
        self.facts = {}  # poly -> bits
        self.prefix = list(prefix)
        self.trace = []
        self.pending = []
        self.policy = policy
        self.tscale = 1
        self.stats = stats if stats is not None else Stats()
        self.timeout = timeout
        self.memo = {}
        self.inputs = []  # (name, kind, atoms)
        self.angles = []
        self.rand = []
        self.powers = []
        self.powconsts = []
        self.notes = []
        self.cval = {}  # atoms that are constants: value
        self.havoc = 0
        self.fresh_n = 0
        self.branch_timeout = 1500
        self.haslinks = False
        self.decisions = 0

    # -- atoms
    def atom(self, name, lo=None, hi=None):
        i = len(self.names)
        base = name
        n = 1
        while name in self.memo.setdefault("names", set()):
            n += 1
            name = f"{base}~{n}"
        self.memo["names"].add(name)
        self.names.append(name)
        self.zv.append(z3.Real(name))
        self.ivs.append((None if lo is None else to_fraction(lo), None if hi is None else to_fraction(hi)))
        ds = []
        if lo is not None:
            ds.append(("c", flit_raw(self, i, lo, True)))
        if hi is not None:
            ds.append(("c", flit_raw(self, i, hi, False)))
        self.defs[i] = ds
        return i

    def define(self, i, f):
        """add a defining constraint (formula) for atom i"""
        self.defs[i].append(("f", f))

    def reduce(self, p):
        if not self.rules:
            return p
        todo = p.t
        changed = False
        for m in todo:
            for a, _ in m:
                if a in self.rules:
                    changed = True
                    break
            if changed:
                break
        if not changed:
            return p
        out = {}
        work = dict(todo)
        steps = 0
        while work:
            m, c = work.popitem()
            hit = None
            d = None
            for a, e in m:
                for lm, rhs in self.rules.get(a, ()):
                    if d is None:
                        d = dict(m)
                    if all(d.get(x, 0) >= k for x, k in lm):
                        hit = (lm, rhs)
                        break
                if hit:
                    break
            if not hit:
                n = out.get(m, 0) + c
                if n:
                    out[m] = n
                else:
                    out.pop(m, None)
                continue
            steps += 1
            if steps > 200000:
                raise Inconclusive("reduction blow-up")
            lm, rhs = hit
            for x, k in lm:
                d[x] -= k
                if d[x] == 0:
                    del d[x]
            rest = tuple(sorted(d.items()))
            for m2, c2 in rhs.t.items():
                mm = mmul(rest, m2)
                n = work.get(mm, 0) + c * c2
                if n:
                    work[mm] = n
                else:
                    work.pop(mm, None)
        return Poly(out)

    def add_rule(self, trigger, lm, rhs):
        self.rules.setdefault(trigger, []).append((tuple(sorted(lm.items())), rhs))

    # -- interval / sign analysis
    def interval(self, p):
        if p._iv is not None:
            return p._iv
        lo = hi = Fraction(0)
        for m, c in p.t.items():
            l = h = Fraction(1)
            for a, e in m:
                al, ah = self.ivs[a]
                if e % 2 == 0:
                    if al is None or ah is None:
                        if al is not None and al > 0:
                            pl, ph = al ** e, None
                        elif ah is not None and ah < 0:
                            pl, ph = ah ** e, None
                        else:
                            pl, ph = Fraction(0), None
                    else:
                        x, y = al ** e, ah ** e
                        pl = Fraction(0) if al <= 0 <= ah else min(x, y)
                        ph = max(x, y)
                else:
                    pl = None if al is None else al ** e
                    ph = None if ah is None else ah ** e
                l, h = _imul(l, h, pl, ph)
            if c < 0:
                l, h = (None if h is None else c * h), (None if l is None else c * l)
            else:
                l, h = (None if l is None else c * l), (None if h is None else c * h)
            lo = None if lo is None or l is None else lo + l
            hi = None if hi is None or h is None else hi + h
        p._iv = (lo, hi)
        return p._iv

    def cvalue(self, p):
        """numeric value of a polynomial over constant atoms, else None"""
        cv = self.cval
        v = 0.0
        for m, c in p.t.items():
            x = float(c)
            for a, e in m:
                y = cv.get(a)
                if y is None:
                    return None
                x *= y ** e
            v += x
        return v

    def signs(self, p):
        b = self.facts.get(p, 7)
        if b in (1, 2, 4):
            return b
        if self.cval:
            v = self.cvalue(p)
            if v is not None:
                # constants: decided numerically unless the terms cancel
                mag = 0.0
                for m, c in p.t.items():
                    x = abs(float(c))
                    for a, e in m:
                        x *= abs(self.cval[a]) ** e
                    mag += x
                if abs(v) > 1e-9 * mag:
                    return POS if v > 0 else NEG
                if abs(v) <= 1e-13 * mag:
                    return ZERO
        lo, hi = self.interval(p)
        if lo is not None:
            if lo > 0:
                b &= POS
            elif lo == 0:
                b &= POS | ZERO
        if hi is not None:
            if hi < 0:
                b &= NEG
            elif hi == 0:
                b &= NEG | ZERO
        return b if b else 7

    def learn(self, f):
        if isinstance(f, bool):
            return
        if f.k == "L":
            self.facts[f.a] = self.facts.get(f.a, 7) & f.b
            # single-atom linear facts tighten intervals
            p = f.a
            if len(p.t) <= 2:
                lin = [m for m in p.t if m]
                if len(lin) == 1 and len(lin[0]) == 1 and lin[0][0][1] == 1:
                    a = lin[0][0][0]
                    k = -p.t.get((), Fraction(0)) / p.t[lin[0]]
                    lo, hi = self.ivs[a]
                    if not f.b & NEG and (lo is None or k > lo):
                        lo = k
                    if not f.b & POS and (hi is None or k < hi):
                        hi = k
                    self.ivs[a] = (lo, hi)
        elif f.k == "&":
            for x in f.a:
                self.learn(x)

    def assume(self, f):
        if f is True:
            return
        if f is False:
            raise Infeasible()
        self.path.append(f)
        self.learn(f)

    def decide(self, f):
        if isinstance(f, bool):
            return f
        # re-simplify against facts learned since creation
        f = resimp(f)
        if isinstance(f, bool):
            return f
        i = len(self.trace)
        if SITES:
            import sys
            fr = sys._getframe()
            while fr and "/engine/" in fr.f_code.co_filename:
                fr = fr.f_back
            print("SITE", fr and f"{fr.f_code.co_filename}:{fr.f_lineno}", i < len(self.prefix))
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            self.decisions += 1
            t = self.feasible(f)
            if not t:
                v = False
                # forced: still record
            else:
                n = self.feasible(fnot(f))
                v = True
                if n:
                    self.pending.append(self.trace + [False])
        self.trace.append(v)
        g = f if v else fnot(f)
        self.path.append(g)
        self.learn(g)
        return v

    def entailed(self, f):
        """True / False when the path settles f, None when it does not (or the solver cannot tell quickly)"""
        f = resimp(f)
        if isinstance(f, bool):
            return f
        key = ("ent", f.id, len(self.path))
        if key in self.memo:
            return self.memo[key]
        i = len(self.trace)
        if i < len(self.prefix):
            r = {"T": True, "F": False, "U": None}[self.prefix[i]]
        elif self.query([fnot(f)], timeout=self.branch_timeout, purpose="branch")[0] == "unsat":
            r = True
        elif self.query([f], timeout=self.branch_timeout, purpose="branch")[0] == "unsat":
            r = False
        else:
            r = None
        self.trace.append("U" if r is None else "T" if r else "F")
        if r is not None:
            self.learn(f if r else fnot(f))
        self.memo[key] = r
        return r

    def feasible(self, f):
        r, _ = self.query([f], timeout=self.branch_timeout, purpose="branch")
        return r != "unsat"

    # -- z3 translation
    def z(self, f):
        if isinstance(f, bool):
            return z3.BoolVal(f)
        if f._z is None:
            if f.k == "L":
                e = self.zp(f.a)
                f._z = {
                    1: lambda: e < 0, 2: lambda: e == 0, 3: lambda: e <= 0,
                    4: lambda: e > 0, 5: lambda: e != 0, 6: lambda: e >= 0,
                }[f.b]()
            elif f.k == "&":
                f._z = z3.And(*[self.z(x) for x in f.a])
            else:
                f._z = z3.Or(*[self.z(x) for x in f.a])
        return f._z

    def zp(self, p):
        if p._z is None:
            ts = []
            for m, c in p.t.items():
                fs = []
                for a, e in m:
                    fs.extend([self.zv[a]] * e)
                if not fs:
                    ts.append(z3.RealVal(c))
                    continue
                x = fs[0]
                for y in fs[1:]:
                    x = x * y
                ts.append(x if c == 1 else z3.RealVal(c) * x)
            p._z = z3.Sum(ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))
        return p._z

    def fatoms(self, f, seen, out):
        if isinstance(f, bool) or f.id in seen:
            return
        seen.add(f.id)
        if f.k == "L":
            out |= f.a.atoms()
        else:
            for x in f.a:
                self.fatoms(x, seen, out)

    def closure(self, fs, links):
        """z3 constraints for the formulas fs plus the definitions of their atoms"""
        seen = set()
        need = set()
        for f in fs:
            self.fatoms(f, seen, need)
        out = [self.z(f) for f in fs]
        done = set()
        work = list(need)
        while work:
            a = work.pop()
            if a in done:
                continue
            done.add(a)
            for kind, c in self.defs[a]:
                if kind == "c":
                    out.append(c)
                elif kind == "link" and not links:
                    continue
                else:
                    out.append(self.z(c))
                    n = set()
                    self.fatoms(c, seen, n)
                    work.extend(n - done)
        return out, done

    def defatoms(self, a, links, memo):
        """atoms connected to a through definitions"""
        key = (a, links)
        r = memo.get(key)
        if r is None:
            r = set()
            work = [a]
            while work:
                x = work.pop()
                if x in r:
                    continue
                r.add(x)
                for kind, c in self.defs[x]:
                    if kind == "c" or (kind == "link" and not links):
                        continue
                    s = set()
                    self.fatoms(c, set(), s)
                    work.extend(s - r)
            memo[key] = r
        return r

    def slice(self, goals, links):
        """the path formulas connected to the goals through shared atoms"""
        memo = {}

        def grp(f):
            s = set()
            self.fatoms(f, set(), s)
            o = set()
            for a in s:
                o |= self.defatoms(a, links, memo)
            return o

        cone = set()
        for g in goals:
            cone |= grp(g)
        rest = [(f, grp(f)) for f in self.path]
        keep = []
        changed = True
        while changed:
            changed = False
            nr = []
            for f, s in rest:
                if s & cone:
                    cone |= s
                    keep.append(f)
                    changed = True
                else:
                    nr.append((f, s))
            rest = nr
        return keep, len(rest)

    def query(self, fs, timeout=None, purpose="check"):
        for f in fs:
            if f is False:
                return "unsat", None
        fs = [f for f in fs if f is not True]
        timeout = timeout or self.timeout
        if purpose == "check":
            timeout *= self.tscale
        if fs and purpose in ("check", "branch"):
            t0 = time.time()
            r = self.cheap(fs, timeout, purpose)
            self.stats.solver_s += time.time() - t0
            if r:
                if purpose == "check":
                    self.stats.queries += 1
                    self.stats.unsat += 1
                else:
                    self.stats.branch_queries += 1
                return "unsat", None
        cs, used = self.closure(list(self.path) + fs, True)
        return self.stats.solve(self, cs, used, timeout, purpose)

    def cheap(self, fs, timeout, purpose):
        """unsat already without the links, or already from the connected part of the path"""
        tries = []
        if self.haslinks:
            keep, dropped = self.slice(fs, False)
            tries.append(self.closure(fs, False)[0])
            if keep:
                tries.append(self.closure(keep + fs, False)[0])
        if len(self.path) > 3:
            keep, dropped = self.slice(fs, True)
            if dropped and keep:
                tries.append(self.closure(keep + fs, True)[0])
        for cs in tries:
            s = z3.Solver()
            s.set("timeout", int(min(timeout, 4000 * self.tscale if purpose == "check" else 400)))
            s.add(*cs)
            if s.check() == z3.unsat:
                return True
        return False


def flit_raw(c, i, v, lower):
    r = z3.RealVal(to_fraction(v))
    return c.zv[i] >= r if lower else c.zv[i] <= r


def resimp(f, memo=None):
    """simplify again with what has been learned since f was built"""
    if isinstance(f, bool):
        return f
    if memo is None:
        memo = {}
    r = memo.get(f.id)
    if r is None:
        if f.k == "L":
            r = flit(f.a, f.b)
        elif f.k == "&":
            r = fand(*[resimp(x, memo) for x in f.a])
        else:
            r = for_(*[resimp(x, memo) for x in f.a])
        memo[f.id] = r
    return r


def _imul(al, ah, bl, bh):
    if al is None or ah is None or bl is None or bh is None:
        # partial: handle nonneg * nonneg
        if al is not None and al >= 0 and bl is not None and bl >= 0:
            return al * bl, (None if ah is None or bh is None else ah * bh)
        if ah is not None and ah <= 0 and bl is not None and bl >= 0:
            return (None if al is None or bh is None else al * bh), ah * bl
        if al is not None and al >= 0 and bh is not None and bh <= 0:
            return (None if ah is None or bl is None else ah * bl), al * bh
        if ah is not None and ah <= 0 and bh is not None and bh <= 0:
            return ah * bh, (None if al is None or bl is None else al * bl)
        return None, None
    xs = (al * bl, al * bh, ah * bl, ah * bh)
    return min(xs), max(xs)


CUR = [None]


def ctx():
    return CUR[0]


# --------------------------------------------------------------------------- solving
class Stats:
    def __init__(self):
        self.queries = 0
        self.branch_queries = 0
        self.solver_s = 0.0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.trivial = 0
        self.search = 0

    def solve(self, c, cs, used, timeout, purpose):
        t0 = time.time()
        if purpose == "branch":
            self.branch_queries += 1
        elif purpose == "search":
            self.search += 1
        else:
            self.queries += 1
        res, model = None, None
        try:
            res, model = solve_z3(c, cs, used, timeout, purpose)
        finally:
            self.solver_s += time.time() - t0
        if purpose == "check":
            if res == "unsat":
                self.unsat += 1
            elif res == "sat":
                self.sat += 1
            else:
                self.unknown += 1
        return res, model


def solve_z3(c, cs, used, timeout, purpose):
    s = z3.Solver()
    first = timeout if purpose in ("branch", "search") else min(timeout, 8000)
    s.set("timeout", int(first))
    s.add(*cs)
    r = s.check()
    if r == z3.unsat:
        return "unsat", None
    if r == z3.sat:
        if purpose == "branch":
            return "sat", None
        return "sat", Model(c, s.model())
    if purpose == "branch":
        return "unknown", None
    if purpose == "search":
        return "unknown", None
    return solve_portfolio(c, cs, used, timeout)


def solve_portfolio(c, cs, used, timeout):
    """race external solvers on the SMT-LIB dump"""
    s = z3.Solver()
    s.add(*cs)
    body = s.to_smt2()
    vars_ = [c.zv[i] for i in sorted(used)]
    head = "(set-logic QF_NRA)\n"
    lines = [l for l in body.splitlines() if not l.startswith("(set-info") and not l.startswith("(check-sat")]
    d = tempfile.mkdtemp(prefix="vq")
    f = os.path.join(d, "q.smt2")
    with open(f, "w") as fh:
        fh.write(head + "(set-option :produce-models true)\n" + "\n".join(lines) + "\n(check-sat)\n")
    tsec = max(1, int(timeout / 1000))
    procs = []
    for cmd in (
        ["cvc5", f"--tlimit={timeout}", f],
        ["z3-new", f"-T:{tsec}", f],
        ["z3", f"-T:{tsec}", f],
    ):
        try:
            procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
        except OSError:
            pass
    res = "unknown"
    t0 = time.time()
    try:
        while procs and time.time() - t0 < tsec + 5:
            for it in list(procs):
                cmd, p = it
                if p.poll() is not None:
                    procs.remove(it)
                    out = p.stdout.read()
                    if "(error" in out:
                        continue
                    a = out.strip().splitlines()[:1]
                    if a == ["unsat"]:
                        res = "unsat"
                    elif a == ["sat"]:
                        res = "sat"
            if res != "unknown":
                break
            time.sleep(0.01)
    finally:
        for _, p in procs:
            p.kill()
            p.wait()
        os.unlink(f)
        os.rmdir(d)
    if res == "sat":
        # obtain a model from z3 with the longer budget
        for mk in (lambda: z3.Solver(), lambda: z3.Tactic("qfnra-nlsat").solver()):
            s = mk()
            s.set("timeout", int(timeout))
            s.add(*cs)
            if s.check() == z3.sat:
                return "sat", Model(c, s.model())
        return "sat", None
    return res, None


class Model:
    """numeric values (floats) of atoms"""

    def __init__(self, c, m):
        self.v = {}
        for i, zv in enumerate(c.zv):
            x = m.eval(zv, model_completion=False)
            self.v[i] = zfloat(x) if not z3.eq(x, zv) else None

    def get(self, i, default=0.0):
        x = self.v.get(i)
        return default if x is None else x


def zfloat(x):
    if z3.is_rational_value(x):
        return float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
    if z3.is_algebraic_value(x):
        y = x.approx(20)
        return float(Fraction(y.numerator_as_long(), y.denominator_as_long()))
    return None


# --------------------------------------------------------------------------- booleans
class SB:
    __slots__ = ("f",)
    __array_priority__ = 1000

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return ctx().decide(self.f)

    def __and__(self, o):
        return mkb(fand(self.f, fof(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkb(for_(self.f, fof(o)))

    __ror__ = __or__

    def __xor__(self, o):
        g = fof(o)
        return mkb(for_(fand(self.f, fnot(g)), fand(fnot(self.f), g)))

    __rxor__ = __xor__

    def __invert__(self):
        return mkb(fnot(self.f))

    def _num(self):
        return sr_ite(self.f, 1, 0)

    def __add__(self, o):
        return self._num() + _n(o)

    __radd__ = __add__

    def __sub__(self, o):
        return self._num() - _n(o)

    def __rsub__(self, o):
        return _n(o) - self._num()

    def __mul__(self, o):
        return self._num() * _n(o)

    __rmul__ = __mul__

    def __neg__(self):
        return -self._num()

    def __eq__(self, o):
        if isinstance(o, (SB, bool)) or type(o).__name__ == "bool_":
            return ~(self ^ o)
        return self._num() == o

    def __ne__(self, o):
        e = self.__eq__(o)
        return ~e if isinstance(e, SB) else not e

    def __lt__(self, o):
        return self._num() < _n(o)

    def __gt__(self, o):
        return self._num() > _n(o)

    def __le__(self, o):
        return self._num() <= _n(o)

    def __ge__(self, o):
        return self._num() >= _n(o)

    def __hash__(self):
        return id(self)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return f"SB{self.f!r}"

    def any(self, *a, **k):
        return self

    all = any

    def item(self):
        return self

    def copy(self):
        return self


def _n(o):
    return o._num() if isinstance(o, SB) else o


def mkb(f):
    return f if isinstance(f, bool) else SB(f)


def fof(x):
    """formula of a boolean-like value"""
    if isinstance(x, SB):
        return x.f
    if isinstance(x, SR):
        return sr_cmp(x, 0, "ne").f if isinstance(sr_cmp(x, 0, "ne"), SB) else bool(sr_cmp(x, 0, "ne"))
    return bool(x)


# --------------------------------------------------------------------------- numbers
# a guard is a formula (True or Fm)
class SR:
    __slots__ = ("alts",)
    __array_priority__ = 1000

    def __init__(self, alts):
        self.alts = alts

    # arithmetic
    def __add__(self, o):
        return _arr(o, self, "add", False) if _isarr(o) else binop("add", self, o)

    def __radd__(self, o):
        return binop("add", o, self)

    def __sub__(self, o):
        return _arr(o, self, "subtract", False) if _isarr(o) else binop("sub", self, o)

    def __rsub__(self, o):
        return binop("sub", o, self)

    def __mul__(self, o):
        return _arr(o, self, "multiply", False) if _isarr(o) else binop("mul", self, o)

    def __rmul__(self, o):
        return binop("mul", o, self)

    def __truediv__(self, o):
        return _arr(o, self, "true_divide", False) if _isarr(o) else binop("div", self, o)

    def __rtruediv__(self, o):
        return binop("div", o, self)

    def __pow__(self, o, mod=None):
        return _arr(o, self, "power", False) if _isarr(o) else power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def __mod__(self, o):
        return modulo(self, o)

    def __floordiv__(self, o):
        return floordiv(self, o)

    def __neg__(self):
        return binop("mul", self, -1)

    def __pos__(self):
        return self

    def __abs__(self):
        return sr_abs(self)

    # integer-valued unions
    def _mapint(self, fn):
        out = []
        for g, l in self.alts:
            if not isinstance(l, Poly) or not l.is_const() or l.const().denominator != 1:
                raise Unsupported("integer operation on a symbolic real")
            out.append((g, pconst(Fraction(fn(int(l.const()))))))
        return mksr(out)

    def __and__(self, o):
        return self._mapint(lambda x: x & int(o))

    __rand__ = __and__

    def __or__(self, o):
        return self._mapint(lambda x: x | int(o))

    __ror__ = __or__

    def __xor__(self, o):
        return self._mapint(lambda x: x ^ int(o))

    __rxor__ = __xor__

    def __rshift__(self, o):
        return self._mapint(lambda x: x >> int(o))

    def __lshift__(self, o):
        return self._mapint(lambda x: x << int(o))

    def __invert__(self):
        return self._mapint(lambda x: ~x)

    # comparisons
    def __lt__(self, o):
        return _arr(o, self, "less", False) if _isarr(o) else sr_cmp(self, o, "lt")

    def __le__(self, o):
        return _arr(o, self, "less_equal", False) if _isarr(o) else sr_cmp(self, o, "le")

    def __gt__(self, o):
        return _arr(o, self, "greater", False) if _isarr(o) else sr_cmp(o, self, "lt")

    def __ge__(self, o):
        return _arr(o, self, "greater_equal", False) if _isarr(o) else sr_cmp(o, self, "le")

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list)):
            return False
        return _arr(o, self, "equal", False) if _isarr(o) else sr_cmp(self, o, "eq")

    def __ne__(self, o):
        if o is None or isinstance(o, (str, tuple, list)):
            return True
        return _arr(o, self, "not_equal", False) if _isarr(o) else sr_cmp(self, o, "ne")

    def __hash__(self):
        return hash(tuple(self.alts[0][1:]))

    def __bool__(self):
        r = sr_cmp(self, 0, "ne")
        return bool(r)

    def __float__(self):
        v = concrete_value(self)
        if v is None:
            raise Unsupported("float() of a symbolic value")
        return v

    def __int__(self):
        v = concretize(self)
        return int(v)

    def __index__(self):
        v = concretize(self)
        if v != int(v):
            raise TypeError("not an integer")
        return int(v)

    def __repr__(self):
        if len(self.alts) == 1:
            return f"SR[{self.alts[0][1]!r}]"
        return "SR{" + "; ".join(f"{g!r} -> {l!r}" for g, l in self.alts[:4]) + ("..." if len(self.alts) > 4 else "") + "}"

    # things numpy object loops / user code call
    def sqrt(self):
        return sr_sqrt(self)

    def sin(self):
        return sr_trig(self, "sin")

    def cos(self):
        return sr_trig(self, "cos")

    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def is_integer(self):
        return sr_is_integer(self)

    def __round__(self, n=None):
        return rounded(self, n or 0)

    def __floor__(self):
        return floordiv(self, 1)

    def astype(self, *a, **k):
        return self

    def reshape(self, *a):
        import engine.snp as snp
        return snp.array(self).reshape(*a)

    def __getitem__(self, k):
        import engine.snp as snp
        return snp.array(self)[k]

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        import engine.snp as snp
        return snp.dispatch(ufunc, method, inputs, kw)


def _sb_ufunc(self, ufunc, method, *inputs, **kw):
    import engine.snp as snp
    return snp.dispatch(ufunc, method, inputs, kw)


SB.__array_ufunc__ = _sb_ufunc


def _isarr(o):
    return hasattr(o, "__array_function__") and getattr(o, "ndim", 0) is not None and not isinstance(o, (SR, SB)) and type(o).__module__ != "numpy" or type(o).__name__ == "ndarray"


def _arr(o, s, name, swapped):
    import engine.snp as snp
    uf = getattr(snp.np, name)
    return snp.dispatch(uf, "__call__", (s, o), {})


def is_special(l):
    return not isinstance(l, Poly)


def alts_of(x):
    if isinstance(x, SR):
        return x.alts
    if isinstance(x, SB):
        return alts_of(x._num())
    if isinstance(x, (bool,)):
        return [(True, pconst(Fraction(int(x))))]
    if isinstance(x, (int, Fraction)):
        return [(True, pconst(Fraction(x)))]
    try:
        f = float(x)
    except TypeError:
        raise TypeError(f"unsupported operand {type(x).__name__}")
    if math.isinf(f) or math.isnan(f):
        return [(True, f)]
    if isinstance(x, float) and not isinstance(x, (int,)):
        return [(True, pconst(to_fraction(f)))]
    return [(True, pconst(to_fraction(f)))]


def mkleaf(l):
    """SR of a single leaf"""
    if is_special(l):
        return l
    return SR([(True, l)])


MAXALTS = 5


def mksr(alts):
    out = []
    seen = {}
    for g, l in alts:
        if g is False:
            continue
        key = l if isinstance(l, Poly) else ("s", repr(l))
        if key in seen:
            i = seen[key]
            out[i] = (for_(out[i][0], g), l)
        else:
            seen[key] = len(out)
            out.append((g, l))
    if not out:
        raise Infeasible()
    if len(out) == 1:
        return mkleaf(out[0][1])
    if len(out) > MAXALTS and not (len(out) <= 12 and all(isinstance(l, Poly) and l.is_const() and l.const().denominator == 1 for _, l in out)):
        out = compress(out)
        if len(out) == 1:
            return mkleaf(out[0][1])
    return SR(out)


def compress(alts):
    fin = [(g, l) for g, l in alts if isinstance(l, Poly)]
    out = [(g, l) for g, l in alts if not isinstance(l, Poly)]
    if len(fin) > 1:
        c = ctx()
        key = ("ite", tuple((g if g is True else g.id, l) for g, l in fin))
        a = c.memo.get(key)
        if a is None:
            lo, hi = c.interval(fin[0][1])
            for _, l in fin[1:]:
                l2, h2 = c.interval(l)
                lo = None if lo is None or l2 is None else min(lo, l2)
                hi = None if hi is None or h2 is None else max(hi, h2)
            a = c.atom(f"ite{len(c.names)}", lo, hi)
            pa = Poly({((a, 1),): Fraction(1)})
            for g, l in fin:
                c.define(a, for_(fnot(g), flit_nofact(padd(pa, l, -1), ZERO)))
            c.memo[key] = a
        pa = Poly({((a, 1),): Fraction(1)})
        out.append((for_(*[g for g, _ in fin]), pa))
    else:
        out += fin
    return out


def flit_nofact(p, bits):
    if p.is_const():
        c = p.const()
        s = NEG if c < 0 else POS if c > 0 else ZERO
        return bool(s & bits)
    m, lc = plead(p)
    if lc != 1:
        p = pscale(p, 1 / lc)
        if lc < 0:
            bits = (bits & ZERO) | (POS if bits & NEG else 0) | (NEG if bits & POS else 0)
    return _mk("L", p, bits)


def sr_ite(f, a, b):
    if f is True:
        return a
    if f is False:
        return b
    if a is b:
        return a
    if ctx().policy == "fork":
        return a if ctx().decide(f) else b
    if ctx().policy == "prune":
        e = ctx().entailed(f)
        if e is not None:
            return a if e else b
    nf = fnot(f)
    alts = []
    for g, l in alts_of(a):
        alts.append((fand(g, f), l))
    for g, l in alts_of(b):
        alts.append((fand(g, nf), l))
    return mksr(alts)


def binop(op, a, b):
    if isinstance(a, SR) and len(a.alts) == 1 and isinstance(b, SR) and len(b.alts) == 1:
        A, B = a.alts, b.alts
    else:
        A, B = alts_of(a), alts_of(b)
    fn = _LEAF[op]
    out = []
    for g, l in A:
        for h, m in B:
            gh = fand(g, h)
            if gh is False:
                continue
            for e, r in fn(l, m, gh):
                out.append((fand(gh, e), r))
    if len(out) == 1:
        return mkleaf(out[0][1])
    return mksr(out)


def _l_add(l, m, g, sb=1):
    if isinstance(l, Poly):
        if isinstance(m, Poly):
            return [(True, padd(l, m, sb))]
        return [(True, sb * m)]
    if isinstance(m, Poly):
        return [(True, l)]
    return [(True, l + sb * m)]


def _l_sub(l, m, g):
    return _l_add(l, m, g, -1)


def signsplit(p, g):
    """[(formula, sign)] splitting on the sign of p under guard g"""
    out = []
    for b, s in ((NEG, -1), (ZERO, 0), (POS, 1)):
        f = flit(p, b)
        if f is False:
            continue
        if fand(g, f) is False:
            continue
        out.append((f, s))
    return out


def _l_mul(l, m, g):
    if isinstance(l, Poly) and isinstance(m, Poly):
        return [(True, pmul(l, m))]
    if isinstance(l, Poly):
        l, m = m, l
    if isinstance(m, Poly):
        if math.isnan(l):
            return [(True, NAN)]
        return [(f, (l * s if s else NAN)) for f, s in signsplit(m, g)]
    return [(True, l * m)]


def _l_div(l, m, g):
    if isinstance(m, Poly):
        if isinstance(l, Poly):
            if m.is_const():
                c = m.const()
                if c:
                    return [(True, pscale(l, 1 / c))]
            out = []
            nz = flit(m, NEG | POS)
            if nz is not False and fand(g, nz) is not False:
                if nz is not True:
                    nz = nz if ctx_possible_zero(m, g) else True
                out.append((nz, pdiv(l, m)))
                if nz is True:
                    return out
            z = flit(m, ZERO)
            for f, s in signsplit(l, fand(g, z)):
                out.append((fand(z, f), INF * s if s else NAN))
            return out
        if math.isnan(l):
            return [(True, NAN)]
        return [(f, l * s if s else l) for f, s in signsplit(m, g)]
    if isinstance(l, Poly):
        return [(True, NAN if math.isnan(m) else P0)]
    return [(True, NAN)]


def ctx_possible_zero(m, g):
    """can m be zero under the path?  (solver-checked, cached per path length)"""
    c = ctx()
    key = ("pz", m, g if g is True else g.id, len(c.path))
    r = c.memo.get(key)
    if r is None:
        i = len(c.trace)
        if i < len(c.prefix):
            r = c.prefix[i] == "z"
        else:
            res, _ = c.query([fand(g, flit(m, ZERO))], timeout=c.branch_timeout, purpose="branch")
            r = res != "unsat"
        c.trace.append("z" if r else "n")
        c.memo[key] = r
        if not r and g is True:
            m_, lc = plead(m)
            pm = pscale(m, 1 / lc)
            c.facts[pm] = c.facts.get(pm, 7) & (NEG | POS)
    return r


_LEAF = {"add": _l_add, "sub": _l_sub, "mul": _l_mul, "div": _l_div}


def patom(a):
    return Poly({((a, 1),): Fraction(1)})


def inv_atom(a):
    """atom for 1/a where a is an atom"""
    c = ctx()
    key = ("inv", a)
    i = c.memo.get(key)
    if i is None:
        lo, hi = c.ivs[a]
        nlo = nhi = None
        if lo is not None and lo > 0:
            nlo = Fraction(0) if hi is None else 1 / hi
            nhi = 1 / lo
        elif hi is not None and hi < 0:
            nhi = Fraction(0) if lo is None else 1 / lo
            nlo = 1 / hi
        elif lo is not None and lo >= 0:
            nlo = Fraction(0)
        i = c.atom(f"inv_{c.names[a]}")
        c.ivs[i] = (nlo, nhi)
        c.memo[key] = i
        c.define(i, for_(flit_nofact(patom(a), ZERO), flit_nofact(padd(Poly({tuple(sorted(((a, 1), (i, 1)))): Fraction(1)}), P1, -1), ZERO)))
        if c.cval.get(a):  # only now: a known value would simplify the definition away
            c.cval[i] = 1 / c.cval[a]
        c.add_rule(i, {a: 1, i: 1}, P1)
    return i


def pdiv(n, d):
    """n/d assuming d != 0"""
    c = ctx()
    if not n.t:
        return P0
    if len(d.t) == 1:
        (m, k), = d.t.items()
        t = []
        for a, e in m:
            t.append((inv_atom(a), e))
        return pmul(n, Poly({tuple(sorted(t)): 1 / k}))
    m, lc = plead(d)
    dn = pscale(d, 1 / lc)
    # n a scalar multiple of d?
    r = n.t.get(m)
    if r is not None and len(n.t) == len(d.t) and pscale(dn, r).t == n.t:
        return pconst(r / lc)
    key = ("invp", dn)
    i = c.memo.get(key)
    if i is None:
        lo, hi = c.interval(dn)
        nlo = nhi = None
        if lo is not None and lo > 0:
            nlo = Fraction(0) if hi is None else 1 / hi
            nhi = 1 / lo
        elif hi is not None and hi < 0:
            nhi = Fraction(0) if lo is None else 1 / lo
            nlo = 1 / hi
        elif lo is not None and lo >= 0:
            nlo = Fraction(0)
        i = c.atom(f"invp{len(c.names)}")
        c.ivs[i] = (nlo, nhi)
        c.memo[key] = i
        pa = patom(i)
        prod = {}
        for mm, cc in dn.t.items():
            prod[mmul(mm, ((i, 1),))] = cc
        c.define(i, for_(flit_nofact(dn, ZERO), flit_nofact(padd(Poly(prod), P1, -1), ZERO)))
        # LM(d)*inv -> 1 - (d - LM)*inv
        lm = dict(m)
        lm[i] = 1
        rhs = dict(prod)
        del rhs[mmul(m, ((i, 1),))]
        c.add_rule(i, lm, padd(P1, Poly(rhs), -1))
        v = c.cvalue(dn)
        if v:
            c.cval[i] = 1 / v
    return pmul(pscale(n, 1 / lc), patom(i))


def perfect_square(fr):
    if fr < 0:
        return None
    a, b = math.isqrt(fr.numerator), math.isqrt(fr.denominator)
    if a * a == fr.numerator and b * b == fr.denominator:
        return Fraction(a, b)
    return None


def _sqrt_leaf(p):
    """sqrt of a polynomial assumed >= 0"""
    c = ctx()
    if p.is_const():
        k = p.const()
        r = perfect_square(k)
        if r is not None:
            return [(True, pconst(r))]
    # single monomial with even powers: sqrt(c a^2) = sqrt(c)*|a|
    if len(p.t) == 1:
        (m, k), = p.t.items()
        r = perfect_square(k)
        if m and r is not None and all(e % 2 == 0 for _, e in m):
            h = Poly({tuple((a, e // 2) for a, e in m): r})
            return [(flit(h, POS | ZERO), h), (flit(h, NEG), pscale(h, -1))]
    # square of a polynomial (cheap test through the memo of known squares)
    key = ("sqrt", p)
    a = c.memo.get(key)
    if a is None:
        lo, hi = c.interval(p)
        slo = Fraction(0)
        if lo is not None and lo > 0:
            slo = Fraction(math.sqrt(float(lo)) * 0.999999).limit_denominator(10 ** 6)
            while slo * slo > lo:
                slo = slo * Fraction(99, 100)
        shi = None
        if hi is not None:
            shi = Fraction(math.sqrt(max(0.0, float(hi))) * 1.000001 + 1e-9).limit_denominator(10 ** 6)
            while shi * shi < hi:
                shi = shi * Fraction(101, 100) + Fraction(1, 10 ** 6)
        a = c.atom(f"sqrt{len(c.names)}")
        c.ivs[a] = (slo, shi)
        c.memo[key] = a
        sq = padd(Poly({((a, 2),): Fraction(1)}), p, -1)
        c.define(a, flit_nofact(patom(a), POS | ZERO))
        c.define(a, for_(flit_nofact(p, NEG), flit_nofact(sq, ZERO)))
        c.add_rule(a, {a: 2}, p)
        # sqrt(p) is zero iff p is
        c.define(a, for_(flit_nofact(p, NEG | ZERO), flit_nofact(patom(a), POS)))
        v = c.cvalue(p)
        if v is not None and v >= 0:  # only now: a known value would simplify the definition away
            c.cval[a] = math.sqrt(v)
    return [(True, patom(a))]


def sr_sqrt(x):
    out = []
    for g, l in alts_of(x):
        if isinstance(l, Poly):
            neg = flit(l, NEG)
            if neg is not False and fand(g, neg) is not False:
                out.append((fand(g, neg), NAN))
            nn = flit(l, ZERO | POS)
            gg = fand(g, nn)
            if gg is not False:
                for f, r in _sqrt_leaf(l):
                    out.append((fand(gg, f), r))
        else:
            out.append((g, INF if l == INF else NAN))
    return mksr(out)


def sr_abs(x):
    if not isinstance(x, (SR, SB)):
        return abs(x)
    out = []
    for g, l in alts_of(x):
        if isinstance(l, Poly):
            out.append((fand(g, flit(l, POS | ZERO)), l))
            out.append((fand(g, flit(l, NEG)), pscale(l, -1)))
        else:
            out.append((g, abs(l)))
    out = [(g, l) for g, l in out if g is not False]
    return mksr(out)


def sr_sign(x):
    out = []
    for g, l in alts_of(x):
        if isinstance(l, Poly):
            for f, s in signsplit(l, g):
                out.append((fand(g, f), pconst(Fraction(s))))
        else:
            out.append((g, l if math.isnan(l) else pconst(Fraction(1 if l > 0 else -1))))
    return mksr(out)


def sr_cmp(a, b, op):
    """op in lt, le, eq, ne"""
    bits = {"lt": NEG, "le": NEG | ZERO, "eq": ZERO, "ne": NEG | POS}[op]
    try:
        A, B = alts_of(a), alts_of(b)
    except (TypeError, ValueError):
        if op == "eq":
            return False
        if op == "ne":
            return True
        raise
    fs = []
    for g, l in A:
        for h, m in B:
            gh = fand(g, h)
            if gh is False:
                continue
            if isinstance(l, Poly) and isinstance(m, Poly):
                f = flit(padd(l, m, -1), bits)
            else:
                x = 0.0 if isinstance(l, Poly) else l
                y = 0.0 if isinstance(m, Poly) else m
                f = {"lt": x < y, "le": x <= y, "eq": x == y, "ne": x != y}[op]
            fs.append(fand(gh, f))
    return mkb(for_(*fs))


def sr_classify(x, what):
    """isnan / isinf / isfinite / isposinf / isneginf"""
    fs = []
    for g, l in alts_of(x):
        if isinstance(l, Poly):
            v = what == "isfinite"
        elif math.isnan(l):
            v = what == "isnan"
        else:
            v = what == "isinf" or (what == "isposinf" and l > 0) or (what == "isneginf" and l < 0)
        if v:
            fs.append(g)
    return mkb(for_(*fs))


def sr_min(a, b, mx=False):
    """elementwise minimum / maximum with numpy nan propagation"""
    if not isinstance(a, (SR, SB)) and not isinstance(b, (SR, SB)):
        if a != a:
            return a
        if b != b:
            return b
        return (a if a >= b else b) if mx else (a if a <= b else b)
    out = []
    for g, l in alts_of(a):
        for h, m in alts_of(b):
            gh = fand(g, h)
            if gh is False:
                continue
            if isinstance(l, Poly) and isinstance(m, Poly):
                d = padd(l, m, -1)
                f = flit(d, (POS | ZERO) if mx else (NEG | ZERO))
                x = fand(gh, f)
                if x is not False:
                    out.append((x, l))
                y = fand(gh, fnot(f))
                if y is not False:
                    out.append((y, m))
            else:
                if not isinstance(l, Poly) and math.isnan(l) or not isinstance(m, Poly) and math.isnan(m):
                    out.append((gh, NAN))
                    continue
                x = 0.0 if isinstance(l, Poly) else l
                y = 0.0 if isinstance(m, Poly) else m
                out.append((gh, l if (x > y) == mx else m))
    if len(out) > 1 and ctx().policy == "fork":
        return fork_alts(out)
    return mksr(out)


def fork_alts(alts):
    x = None
    for g, l in alts[:-1]:
        if ctx().decide(g):
            return mkleaf(l)
    return mkleaf(alts[-1][1])


def concrete_value(x):
    """the number x must be, or None"""
    A = alts_of(x)
    if len(A) == 1:
        l = A[0][1]
        if isinstance(l, Poly):
            return float(l.const()) if l.is_const() else None
        return l
    return None


def concretize(x):
    """fork until x is one constant"""
    if not isinstance(x, (SR, SB)):
        return x
    A = alts_of(x)
    for g, l in A:
        if isinstance(l, Poly) and not l.is_const():
            raise Unsupported("a symbolic real is needed as a concrete number")
    for i, (g, l) in enumerate(A):
        if i == len(A) - 1 or ctx().decide(g):
            if isinstance(l, Poly):
                c = l.const()
                return int(c) if c.denominator == 1 else float(c)
            return l


def sr_is_integer(x):
    v = concrete_value(x)
    if v is None:
        raise Unsupported("is_integer of symbolic")
    return v == int(v)


def modulo(a, b):
    if isinstance(a, SR):
        v = concrete_value(a)
        if v is not None:
            return v % b
        try:
            return a._mapint(lambda x: x % int(b))
        except Unsupported:
            pass
    q = floordiv(a, b)
    return a - q * b


def floordiv(a, b):
    """floor(a/b) : bounded integer atom encoded as guarded constants when the interval is small"""
    c = ctx()
    if isinstance(a, SR) and isinstance(b, int) and b:
        try:
            return a._mapint(lambda x: x // int(b))
        except Unsupported:
            pass
    x = binop("div", a, b)
    v = concrete_value(x)
    if v is not None:
        return math.floor(v)
    out = []
    for g, l in alts_of(x):
        if not isinstance(l, Poly):
            out.append((g, NAN))
            continue
        lo, hi = c.interval(l)
        if lo is None or hi is None or hi - lo > 64:
            raise Unsupported("floor of an unbounded symbolic value")
        for k in range(math.floor(lo), math.floor(hi) + 1):
            f = fand(flit(padd(l, pconst(Fraction(k)), -1), POS | ZERO), flit(padd(l, pconst(Fraction(k + 1)), -1), NEG))
            gg = fand(g, f)
            if gg is not False:
                out.append((gg, pconst(Fraction(k))))
    return mksr(out)


def rounded(a, digits=0):
    """a rounded to a number of decimals: exact over short ranges, else any value within half a unit (a relaxation: candidates are replayed)"""
    c = ctx()
    u = Fraction(1, 10 ** digits) if digits >= 0 else Fraction(10 ** -digits)
    v = concrete_value(a)
    if v is not None:
        return v if isinstance(v, float) and not math.isfinite(v) else float(round(Fraction(v) / u) * u)
    out = []
    for g, l in alts_of(a):
        if not isinstance(l, Poly):
            out.append((g, l))
            continue
        if l.is_const():
            out.append((g, pconst(round(l.const() / u) * u)))
            continue
        lo, hi = c.interval(l)
        if lo is not None and hi is not None and (hi - lo) / u <= 16:
            for k in range(math.floor(lo / u + Fraction(1, 2)), math.floor(hi / u + Fraction(1, 2)) + 1):
                # half-way cases go to the even neighbour
                ends = ZERO if k % 2 == 0 else 0
                f = fand(flit(padd(l, pconst((k - Fraction(1, 2)) * u), -1), POS | ends), flit(padd(l, pconst((k + Fraction(1, 2)) * u), -1), NEG | ends))
                gg = fand(g, f)
                if gg is not False:
                    out.append((gg, pconst(k * u)))
            continue
        key = ("round", digits, l)
        i = c.memo.get(key)
        if i is None:
            if len(l.t) == 1 and ("rounded", digits, l) in c.memo:  # already rounded
                out.append((g, l))
                continue
            i = c.atom(f"round{len(c.names)}", None if lo is None else lo - u, None if hi is None else hi + u)
            c.memo[key] = i
            c.memo[("rounded", digits, patom(i))] = True
            d = padd(patom(i), l, -1)
            c.define(i, flit_nofact(padd(d, pconst(u / 2), -1), NEG | ZERO))
            c.define(i, flit_nofact(padd(d, pconst(u / 2)), POS | ZERO))
        out.append((g, patom(i)))
    return mksr(out)


# --------------------------------------------------------------------------- functions
def _alg(a, b, c, d):
    """a + b*sqrt2 + c*sqrt3 + d*sqrt6 as a poly"""
    p = pconst(Fraction(a))
    r2 = r3 = None
    if b or d:
        r2 = _sqrt_leaf(pconst(Fraction(2)))[0][1]
    if c or d:
        r3 = _sqrt_leaf(pconst(Fraction(3)))[0][1]
    if b:
        p = padd(p, pscale(r2, Fraction(b)))
    if c:
        p = padd(p, pscale(r3, Fraction(c)))
    if d:
        p = padd(p, pscale(pmul(r2, r3), Fraction(d)))
    return p


H = Fraction(1, 2)
Q = Fraction(1, 4)
# sin of k*15 degrees, k = 0..6, in the basis 1, sqrt2, sqrt3, sqrt6
_SIN15 = [(0, 0, 0, 0), (0, -Q, 0, Q), (H, 0, 0, 0), (0, H, 0, 0), (0, 0, H, 0), (0, Q, 0, Q), (1, 0, 0, 0)]


def _sin15(k):
    k %= 24
    s = 1
    if k > 12:
        k, s = k - 12, -1
    if k > 6:
        k = 12 - k
    t = _SIN15[k]
    return tuple(s * x for x in t)


def const_pair(v):
    """(sin, cos) polys of a constant angle, exact at multiples of 15 degrees; None if not one"""
    k = v / (math.pi / 12)
    n = round(k)
    if abs(k - n) < 1e-11 * max(1.0, abs(k)):
        return _alg(*_sin15(n)), _alg(*_sin15(n + 6))
    return None


def const_trig(x, kind):
    """sin/cos of a concrete float, exact where the real value is (multiples of pi/12)"""
    if CUR[0] is not None:
        r = const_pair(x)
        if r is not None:
            p = r[0] if kind == "sin" else r[1]
            if p.is_const():
                return float(p.const())
            return SR([(True, p)])
    return math.sin(x) if kind == "sin" else math.cos(x)


def canon_coef(c):
    """('p', r) when c is r*pi for a simple rational r, else ('q', c)"""
    f = float(c) / math.pi
    r = Fraction(f).limit_denominator(20000)
    if abs(float(r) - f) <= 1e-13 * max(1.0, abs(f)) and r != 0:
        return ("p", r)
    return ("q", c)


def _multiple(s, c, k):
    """(sin, cos) of k times the angle with (sin, cos) = (s, c)"""
    S, C = P0, P1
    for _ in range(k):
        S, C = padd(pmul(S, c), pmul(C, s)), padd(pmul(C, c), pmul(S, s), -1)
    return S, C


def trig_pair(p):
    """(sin, cos) polys for the angle polynomial p (radians)"""
    c = ctx()
    if p.is_const():
        v = float(p.const())
        r = const_pair(v)
        if r is not None:
            return r
        return pconst(to_fraction(math.sin(v))), pconst(to_fraction(math.cos(v)))
    k0 = p.const()
    if k0:
        r = const_pair(float(k0))
        if r is not None:
            s, co = trig_pair(padd(p, pconst(k0), -1))
            return (padd(pmul(s, r[1]), pmul(co, r[0])), padd(pmul(co, r[1]), pmul(s, r[0]), -1))
    # inverse-trig atom?
    if len(p.t) == 1:
        (m, k), = p.t.items()
        if len(m) == 1 and m[0][1] == 1 and ("trigof", m[0][0]) in c.memo and k.denominator == 1 and abs(k) <= 6:
            s, co = c.memo[("trigof", m[0][0])]
            s, co = _multiple(s, co, abs(int(k)))
            return (s if k > 0 else pscale(s, -1)), co
    m, lc = plead(p)
    sgn = 1 if lc > 0 else -1
    q = pscale(p, sgn)
    # canonical shape: leading coefficient and the ratios to it
    kind, r0 = canon_coef(q.t[m])
    shape = frozenset((mm, canon_ratio(cc / q.t[m])) for mm, cc in q.t.items())
    known = c.memo.setdefault(("trigs", kind, shape), [])
    for r1, s1, c1 in known:
        ratio = r0 / r1
        if ratio.denominator == 1 and ratio <= 8:
            s, co = _multiple(s1, c1, int(ratio))
            return pscale(s, sgn), co
    n = len(c.names)
    s = c.atom(f"sin{n}", -1, 1)
    co = c.atom(f"cos{n}", -1, 1)
    f = flit_nofact(padd(padd(Poly({((s, 2),): Fraction(1)}), Poly({((co, 2),): Fraction(1)})), P1, -1), ZERO)
    c.define(s, f)
    c.define(co, f)
    c.add_rule(s, {s: 2}, padd(P1, Poly({((co, 2),): Fraction(1)}), -1))
    for r1, s1, c1 in known:
        ratio = r1 / r0
        if ratio.denominator == 1 and ratio <= 8:
            S_, C_ = _multiple(patom(s), patom(co), int(ratio))
            for x, y in ((S_, s1), (C_, c1)):
                g = flit_nofact(padd(x, y, -1), ZERO)
                c.define(s, g)
                c.define(co, g)
    known.append((r0, patom(s), patom(co)))
    c.angles.append((q, s, co))
    return pscale(patom(s), sgn), patom(co)


def canon_ratio(c):
    r = Fraction(float(c)).limit_denominator(20000)
    return r if abs(float(r) - float(c)) <= 1e-13 * max(1.0, abs(float(c))) else c


def sr_trig(x, kind):
    if not isinstance(x, SR):
        x = float(x)
        if math.isinf(x) or math.isnan(x):
            return NAN
        return const_trig(x, kind)
    out = []
    for g, l in alts_of(x):
        if not isinstance(l, Poly):
            out.append((g, NAN))
            continue
        s, co = trig_pair(l)
        out.append((g, s if kind == "sin" else co))
    return mksr(out)


def sr_tan(x):
    return sr_trig(x, "sin") / sr_trig(x, "cos")


def _inverse_trig(name, x, sfun):
    c = ctx()
    key = (name, tuple((g if g is True else g.id, l if isinstance(l, Poly) else repr(l)) for g, l in alts_of(x)))
    r = c.memo.get(key)
    if r is not None:
        return r
    if len(alts_of(x)) != 1 or not isinstance(alts_of(x)[0][1], Poly):
        out = []
        for g, l in alts_of(x):
            y = _inverse_trig(name, mkleaf(l), sfun) if isinstance(l, Poly) else NAN
            for h, m in alts_of(y):
                out.append((fand(g, h), m))
        return mksr(out)
    s, co, lo, hi = sfun(x)
    a = c.atom(f"{name}{len(c.names)}", lo, hi)
    sa, ca = alts_of(s), alts_of(co)
    if len(sa) != 1 or len(ca) != 1:
        # wrap in atoms
        s, co = as_atom(s), as_atom(co)
        sa, ca = alts_of(s), alts_of(co)
    c.memo[("trigof", a)] = (sa[0][1], ca[0][1])
    r = SR([(True, patom(a))])
    c.memo[key] = r
    return r


def as_atom(x):
    fin = [(g, l) for g, l in alts_of(x) if isinstance(l, Poly)]
    return mksr(compress(fin))


def sr_arccos(x):
    if not isinstance(x, SR):
        return math.acos(x) if -1 <= x <= 1 else NAN
    return _inverse_trig("acos", x, lambda v: (sr_sqrt(1 - v * v), v, 0, 3.2))


def sr_arcsin(x):
    if not isinstance(x, SR):
        return math.asin(x) if -1 <= x <= 1 else NAN
    return _inverse_trig("asin", x, lambda v: (v, sr_sqrt(1 - v * v), -1.6, 1.6))


def sr_arctan(x):
    if not isinstance(x, SR):
        return math.atan(x)

    def f(v):
        h = sr_sqrt(1 + v * v)
        return v / h, 1 / h, -1.6, 1.6

    return _inverse_trig("atan", x, f)


def sr_arctan2(y, x):
    if not isinstance(x, SR) and not isinstance(y, SR):
        return math.atan2(y, x)
    c = ctx()
    h = sr_sqrt(x * x + y * y)
    a = c.atom(f"atan2_{len(c.names)}", -3.2, 3.2)
    s, co = as_atom(y / h), as_atom(x / h)
    c.memo[("trigof", a)] = (alts_of(s)[0][1], alts_of(co)[0][1])
    return SR([(True, patom(a))])


def power(a, b):
    if not isinstance(a, (SR, SB)) and not isinstance(b, (SR, SB)):
        r = a ** b
        c = CUR[0]
        if c is not None and a > 0 and b > 0 and b != int(b) and r == r and r < 1e9 and not isinstance(a, (int, bool)):
            k = (to_fraction(a), pconst(to_fraction(b)), to_fraction(r))
            if k not in c.powconsts:
                c.powconsts.append(k)
                for (l, bp, at) in c.powers:
                    pow_vs_const(c, l, bp, at, k)
        return r
    if isinstance(b, SR):
        v = concrete_value(b)
        if v is not None:
            b = v
    if not isinstance(b, SR):
        fb = float(b)
        if fb == 0.5:
            return sr_sqrt(a)
        if fb == int(fb) and abs(fb) <= 12:
            n = int(fb)
            r = 1
            for _ in range(abs(n)):
                r = binop("mul", a, r)
            return r if n >= 0 else binop("div", 1, r)
        if fb == 1.5:
            return a * sr_sqrt(a)
        b = to_fraction(fb)
        bp = pconst(b)
    else:
        A = alts_of(b)
        if len(A) != 1 or not isinstance(A[0][1], Poly):
            raise Unsupported("power with guarded exponent")
        bp = A[0][1]
    # uninterpreted power of a nonnegative base, exponent > 0, with order axioms
    c = ctx()
    out = []
    for g, l in alts_of(a):
        if not isinstance(l, Poly):
            out.append((g, INF if l == INF else NAN))
            continue
        neg = flit(l, NEG)
        if neg is not False:
            gn = fand(g, neg)
            if gn is not False:
                out.append((gn, NAN))
        gg = fand(g, flit(l, ZERO | POS))
        if gg is False:
            continue
        if l.is_const() and l.const() in (0, 1):
            out.append((gg, l))
            continue
        if l.is_const() and bp.is_const() and l.const() > 0:
            out.append((gg, pconst(to_fraction(power(float(l.const()), float(bp.const()))))))
            continue
        out.append((gg, pow_atom(l, bp)))
    return mksr(out)


def pow_vs_const(c, l, bp, at, k):
    """order against a power that was computed in floating point"""
    x, e, v = k
    if e != bp:
        return
    tol = Fraction(1, 10 ** 12)
    d, pa = padd(l, pconst(x), -1), patom(at)
    c.define(at, for_(flit_nofact(d, POS), flit_nofact(padd(pa, pconst(v + tol), -1), NEG | ZERO)))
    c.define(at, for_(flit_nofact(d, NEG), flit_nofact(padd(pa, pconst(v - tol), -1), POS | ZERO)))
    # Lipschitz within a factor of two
    g = float(e.const())
    L = to_fraction(round(1.01 * g * max((float(x) / 2) ** (g - 1), (2 * float(x)) ** (g - 1)) + 1e-6, 6))
    dv = padd(pa, pconst(v), -1)
    off = for_(flit_nofact(padd(l, pconst(x / 2), -1), NEG), flit_nofact(padd(l, pconst(2 * x), -1), POS))
    for s in (1, -1):
        # s (pa - v) <= L |l - x| + tol
        up = flit_nofact(padd(padd(pscale(dv, Fraction(s)), pscale(d, L), -1), pconst(tol), -1), NEG | ZERO)
        dn = flit_nofact(padd(padd(pscale(dv, Fraction(s)), pscale(d, L)), pconst(tol), -1), NEG | ZERO)
        c.define(at, for_(off, flit_nofact(d, NEG), up))
        c.define(at, for_(off, flit_nofact(d, POS), dn))


def pow_atom(l, bp):
    c = ctx()
    key = ("pow", l, bp)
    a = c.memo.get(key)
    if a is None:
        a = c.atom(f"pow{len(c.names)}")
        lo, hi = c.interval(l)
        c.ivs[a] = (Fraction(0), None)
        c.memo[key] = a
        pa = patom(a)
        dom = flit_nofact(l, NEG)
        one = lambda q: padd(q, P1, -1)
        c.define(a, flit_nofact(pa, ZERO | POS))
        c.define(a, for_(dom, flit_nofact(l, POS), flit_nofact(pa, ZERO)))
        c.define(a, for_(dom, flit_nofact(l, ZERO), flit_nofact(pa, POS)))
        # comparison with 1 transfers
        for b in (NEG, ZERO, POS):
            c.define(a, for_(dom, fnot_nf(flit_nofact(one(l), b)), flit_nofact(one(pa), b)))
        if bp.is_const() and 0 < bp.const() < 1:
            # concave: x <= x^g <= 1 on [0,1]
            c.define(a, for_(dom, flit_nofact(one(l), POS), flit_nofact(padd(pa, l, -1), POS | ZERO)))
        if bp.is_const() and 0 < bp.const() < 1:
            # and 1 <= x^g <= x above 1
            c.define(a, for_(flit_nofact(one(l), NEG), flit_nofact(padd(pa, l, -1), NEG | ZERO)))
        else:
            hi = c.interval(bp)[1]
            if hi is not None and hi <= 4:
                c.define(a, for_(flit_nofact(one(l), NEG), flit_nofact(padd(pa, pmul(pmul(l, l), pmul(l, l)), -1), NEG | ZERO)))
        for k in c.powconsts:
            pow_vs_const(c, l, bp, a, k)
        for (l2, bp2, a2) in c.powers:
            if bp2 == bp:
                d = padd(l, l2, -1)
                da = padd(pa, patom(a2), -1)
                dom2 = for_(dom, flit_nofact(l2, NEG))
                for b in (NEG, ZERO, POS):
                    c.define(a, for_(dom2, fnot_nf(flit_nofact(d, b)), flit_nofact(da, b)))
        c.powers.append((l, bp, a))
    return patom(a)


def fnot_nf(f):
    if isinstance(f, bool):
        return not f
    return _mk("L", f.a, 7 & ~f.b)


def fresh(name, lo=None, hi=None):
    c = ctx()
    return SR([(True, patom(c.atom(name, lo, hi)))])


def havoc():
    c = ctx()
    c.havoc += 1
    return fresh(f"uninit{c.havoc}")
