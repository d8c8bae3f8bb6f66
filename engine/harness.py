"""What a property harness is written against.

A harness is a Python function of a World `w`.  It builds inputs with w.real / w.unit /
w.angle ..., runs the repository's code on them and states obligations with w.check.
The same function runs symbolically (SymWorld: the solver decides every obligation for
all values of the inputs) and concretely (NumWorld: the replay of one counterexample or
witness on the untouched code with real numpy).
"""
import math
from fractions import Fraction

INF = float("inf")


class Harness:
    def __init__(self, name, fn, cases=({},), policy="merge", timeout=20000, maxpaths=400, quick=True, margin=1e-4,
                 tol=2e-6, witnesses=2, thorough_cases=(), branch_timeout=1500, random=False):
        self.name, self.fn, self.cases = name, fn, list(cases)
        self.policy, self.timeout, self.maxpaths = policy, timeout, maxpaths
        self.quick, self.margin, self.tol, self.witnesses = quick, margin, tol, witnesses
        self.thorough_cases = list(thorough_cases)
        self.branch_timeout = branch_timeout


# ------------------------------------------------------------------ conditions
class Cond:
    """NNF-able condition; leaves ('c', op, a, b) / ('b', boolean) / ('k', what, a)"""

    __slots__ = ("k", "a", "neg")

    def __init__(self, k, a, neg=False):
        self.k, self.a, self.neg = k, a, neg

    def __and__(self, o):
        return And(self, o)

    def __or__(self, o):
        return Or(self, o)

    def __invert__(self):
        return Not(self)


def lift(x):
    return x if isinstance(x, Cond) else Cond("b", x)


def And(*cs):
    return Cond("&", tuple(lift(c) for c in cs))


def Or(*cs):
    return Cond("|", tuple(lift(c) for c in cs))


def Not(c):
    c = lift(c)
    if c.k == "&":
        return Cond("|", tuple(Not(x) for x in c.a))
    if c.k == "|":
        return Cond("&", tuple(Not(x) for x in c.a))
    return Cond(c.k, c.a, not c.neg)


def Implies(p, q):
    return Or(Not(p), q)


def Iff(p, q):
    return And(Implies(p, q), Implies(q, p))


def le(a, b):
    return Cond("c", ("le", a, b))


def lt(a, b):
    return Cond("c", ("lt", a, b))


def ge(a, b):
    return Cond("c", ("le", b, a))


def gt(a, b):
    return Cond("c", ("lt", b, a))


def eq(a, b):
    return Cond("c", ("eq", a, b))


def ne(a, b):
    return Cond("c", ("eq", a, b), True)


def isinf(a):
    return Cond("k", ("isinf", a))


def isnan(a):
    return Cond("k", ("isnan", a))


def isfinite(a):
    return Cond("k", ("isfinite", a))


def true(b):
    """a boolean the code computed"""
    return Cond("b", b)


def flat(x):
    import numpy as np

    if isinstance(x, np.ndarray):
        return [y for y in x.view(np.ndarray).reshape(-1)]
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    return [x]


def alleq(a, b):
    a, b = flat(a), flat(b)
    if len(b) == 1:
        b = b * len(a)
    if len(a) != len(b):
        return Cond("b", False)
    return And(*[eq(x, y) for x, y in zip(a, b)])


# ------------------------------------------------------------------ worlds
class Stop(Exception):
    pass


class World:
    And, Or, Not, Implies, Iff = staticmethod(And), staticmethod(Or), staticmethod(Not), staticmethod(Implies), staticmethod(Iff)
    le, lt, ge, gt, eq, ne = map(staticmethod, (le, lt, ge, gt, eq, ne))
    isinf, isnan, isfinite, true, alleq = map(staticmethod, (isinf, isnan, isfinite, true, alleq))

    def __init__(self, m, case):
        self.m = m
        self.np = m.np
        self.case = case
        self._n = 0

    def vec(self, name, n=3, lo=-10, hi=10):
        return [self.real(f"{name}{'xyzw'[i] if n <= 4 else i}", lo, hi) for i in range(n)]

    def point(self, name, lo=-10, hi=10):
        return self.vec(name, 3, lo, hi)

    def arr(self, x):
        return self.np.array(x, dtype=float)

    def rays(self, pos, dirs):
        """homogeneous ray array (2, 4, n) from lists of 3-vectors"""
        n = len(pos)
        a = [[[p[i] for p in pos] for i in range(3)] + [[1.0] * n], [[d[i] for d in dirs] for i in range(3)] + [[0.0] * n]]
        return self.arr(a)

    def all(self, conds):
        return And(*list(conds))

    def any(self, conds):
        return Or(*list(conds))

    @staticmethod
    def dot(a, b):
        r = 0
        for x, y in zip(a, b):
            r = r + x * y
        return r


class NumWorld(World):
    symbolic = False

    def __init__(self, m, case, values, tol=2e-6):
        super().__init__(m, case)
        self.values = values
        self.tol = tol
        self.failed = []
        self.observed = {}
        self.assume_failed = []
        self.checked = 0

    def _v(self, name, lo=None, hi=None):
        v = self.values.get(name)
        if v is None:
            v = 0.0
        if lo is not None:
            v = max(v, float(lo))
        if hi is not None:
            v = min(v, float(hi))
        return v

    def real(self, name, lo, hi):
        return self._v(name, lo, hi)

    def angle(self, name, lo=-360, hi=360):
        v = self._v(name)
        while v > hi + 1e-9:
            v -= 360
        while v < lo - 1e-9:
            v += 360
        return v

    def unit(self, name, n=3):
        v = [self._v(f"{name}{i}") for i in range(n)]
        h = math.sqrt(sum(x * x for x in v))
        if h < 1e-9:
            v, h = [0.0] * (n - 1) + [1.0], 1.0
        return [x / h for x in v]

    def circle(self, name):
        return self.unit(name, 2)

    def dots(self, name, u, v, lo=None, hi=None):
        r = self.dot(u, v)
        if lo is not None:
            self.assume(ge(r, lo))
        return r

    # evaluation
    def _num(self, x):
        x = flat(x)
        assert len(x) == 1
        return float(x[0])

    def ev(self, c, slack):
        """truth of c, atoms relaxed by slack"""
        if c.k == "&":
            return all(self.ev(x, slack) for x in c.a)
        if c.k == "|":
            return any(self.ev(x, slack) for x in c.a)
        if c.k == "b":
            v = flat(c.a)
            assert len(v) == 1
            return bool(v[0]) != c.neg
        if c.k == "k":
            v = self._num(c.a[1])
            return getattr(math, c.a[0])(v) != c.neg
        op, a, b = c.a
        a, b = self._num(a), self._num(b)
        if not (math.isfinite(a) and math.isfinite(b)):
            r = {"le": a <= b, "lt": a < b, "eq": a == b}[op]
            return r != c.neg
        s = slack * (1 + max(abs(a), abs(b)))
        d = a - b
        if not c.neg:
            return d <= s if op in ("le", "lt") else abs(d) <= s
        if op == "le":
            return not d <= -s
        if op == "lt":
            return not d < -s
        return abs(d) > s

    def assume(self, c):
        if not self.ev(lift(c), 1e-7):
            self.assume_failed.append(repr(c.a) if isinstance(c, Cond) else "bool")
            raise Stop()

    def check(self, label, c, margin=None):
        self.checked += 1
        if not self.ev(lift(c), self.tol):
            self.failed.append(label)

    lemma = check

    def cover(self, label, c=True):
        pass

    def reach(self, label, c, sample):
        self.checked += 1
        if not sample():
            self.failed.append(label)

    def uniform(self, label, xs, sample):
        """replay: the sampled quantities (scaled to [0, 1]) are uniform and uncorrelated, beyond six standard errors"""
        self.checked += 1
        s = sample()
        n = len(s[0])
        k = 6 / math.sqrt(n)
        ok = all(abs(sum(v <= q for v in x) / n - q) <= k for x in s for q in (0.1, 0.25, 0.5, 0.75, 0.9))
        for i, x in enumerate(s):
            for y in s[:i]:
                ok = ok and abs(sum((a - 0.5) * (b - 0.5) for a, b in zip(x, y)) / n * 12) <= k
        if not ok:
            self.failed.append(label)

    def observe(self, name, v):
        self.observed[name] = [float(x) for x in flat(v)]

    def branch(self, c):
        return self.ev(lift(c), 0)

    def val(self, x):
        return x

    def sqrt(self, x):
        return math.sqrt(x) if x >= 0 else float("nan")

    def sin_cos(self, deg):
        return math.sin(math.radians(deg)), math.cos(math.radians(deg))

    def raises(self, fn, kinds=Exception):
        try:
            fn()
        except kinds:
            return True
        return False


class SymWorld(World):
    symbolic = True

    def __init__(self, m, case, ctx, h, skip=0):
        super().__init__(m, case)
        from . import core

        self.core = core
        self.c = ctx
        self.h = h
        self.skip = skip
        self.inputs = {}  # name -> (kind, data)
        self.observed = {}
        self.results = []  # (label, verdict, model values or None)
        self.covers = []
        self.nchecks = 0
        self.ext = False

    # inputs
    def real(self, name, lo, hi):
        assert name not in self.inputs, f"input {name} defined twice"
        a = self.c.atom(name, lo, hi)
        self.inputs[name] = ("real", a)
        return self.core.SR([(True, self.core.patom(a))])

    def angle(self, name, lo=-360, hi=360):
        a = self.c.atom(name, lo, hi)
        self.inputs[name] = ("angle", a)
        return self.core.SR([(True, self.core.patom(a))])

    def unit(self, name, n=3):
        core, c = self.core, self.c
        at = [c.atom(f"{name}{i}", -1, 1) for i in range(n)]
        sq = core.padd(core.Poly({((a, 2),): Fraction(1) for a in at}), core.P1, -1)
        f = core.flit_nofact(sq, core.ZERO)
        for a in at:
            c.define(a, f)
        last = at[-1]
        c.add_rule(last, {last: 2}, core.padd(core.P1, core.Poly({((a, 2),): Fraction(1) for a in at[:-1]}), -1))
        for i, a in enumerate(at):
            assert f"{name}{i}" not in self.inputs, f"input {name}{i} defined twice"
            self.inputs[f"{name}{i}"] = ("unit", a)
        return [core.SR([(True, core.patom(a))]) for a in at]

    def circle(self, name):
        return self.unit(name, 2)

    def dots(self, name, u, v, lo=None, hi=None):
        """one symbol for the dot product u.v of two vectors of plain inputs.

        Sums of these products are rewritten to the symbol; queries are first tried
        knowing only its range, then with its definition."""
        core, c = self.core, self.c
        terms = []
        k = Fraction(0)
        for x, y in zip(u, v):
            p = core.pmul(core.alts_of(x)[0][1], core.alts_of(y)[0][1])
            if p.t:
                assert len(p.t) == 1
                (m, kk), = p.t.items()
                assert kk == 1
                if m:
                    terms.append(m)
                else:
                    k += kk
        if not terms:
            r = core.mkleaf(core.padd(core.Poly({m: Fraction(1) for m in terms}), core.pconst(k)))
            if lo is not None:
                self.assume(ge(r, lo))
            return r
        a = c.atom(name, lo, hi)
        pa = core.patom(a)
        body = core.Poly({m: Fraction(1) for m in terms})
        c.defs[a].append(("link", core.flit_nofact(core.padd(pa, body, -1), core.ZERO)))
        c.haslinks = True
        lead = terms[0]
        if lo is not None:
            self.c.path.append(core.flit_nofact(core.padd(body, core.pconst(core.to_fraction(lo)), -1), core.ZERO | core.POS))
        c.add_rule(lead[0][0], dict(lead), core.padd(pa, core.Poly({m: Fraction(1) for m in terms[1:]}), -1))
        r = core.SR([(True, core.padd(pa, core.pconst(k)))])
        return r

    # formulas
    def fm(self, c, slack):
        core = self.core
        if c.k == "&":
            return core.fand(*[self.fm(x, slack) for x in c.a])
        if c.k == "|":
            return core.for_(*[self.fm(x, slack) for x in c.a])
        if c.k == "b":
            v = flat(c.a)
            assert len(v) == 1, v
            f = core.fof(v[0])
            return core.fnot(f) if c.neg else f
        if c.k == "k":
            f = core.fof(core.sr_classify(flat(c.a[1])[0], c.a[0]))
            return core.fnot(f) if c.neg else f
        op, a, b = c.a
        a, b = flat(a), flat(b)
        assert len(a) == 1 and len(b) == 1
        fs = []
        s = core.pconst(slack)
        for g, l in core.alts_of(a[0]):
            for h, m in core.alts_of(b[0]):
                gh = core.fand(g, h)
                if gh is False:
                    continue
                if isinstance(l, core.Poly) and isinstance(m, core.Poly):
                    d = core.padd(l, m, -1)
                    if op in ("le", "lt"):
                        bits = core.NEG if (op == "lt" and not slack) else core.NEG | core.ZERO
                        if not c.neg:
                            f = core.flit(core.padd(d, s, -1), bits)
                        else:
                            # not d <= -s
                            f = core.fnot(core.flit(core.padd(d, s), core.NEG if (op == "lt" or slack) else core.NEG | core.ZERO))
                    elif not slack:
                        f = core.flit(d, (core.NEG | core.POS) if c.neg else core.ZERO)
                    elif c.neg:  # an equation that is a hypothesis: counterexamples meet it exactly
                        f = core.flit(d, core.NEG | core.POS)
                    else:
                        f = core.fand(core.flit(core.padd(d, s, -1), core.NEG | core.ZERO), core.flit(core.padd(d, s), core.ZERO | core.POS))
                else:
                    x = 0.0 if isinstance(l, core.Poly) else l
                    y = 0.0 if isinstance(m, core.Poly) else m
                    f = {"le": x <= y, "lt": x < y, "eq": x == y}[op] != c.neg
                fs.append(core.fand(gh, f))
        return core.for_(*fs)

    def assume(self, c):
        self.c.assume(self.fm(lift(c), Fraction(0)))

    def branch(self, c):
        return self.c.decide(self.fm(lift(c), Fraction(0)))

    def check(self, label, c, margin=None):
        self.nchecks += 1
        if len(self.c.trace) < self.skip:
            return
        c = lift(c)
        margin = Fraction(margin or self.h.margin).limit_denominator(10 ** 9)
        core = self.core
        neg = Not(c)
        f0 = self.fm(neg, Fraction(0))
        f0 = core.resimp(f0)
        if f0 is False:
            self.c.stats.trivial += 1
            return
        # one query per disjunct group keeps the goals small
        goals = list(f0.a) if not isinstance(f0, bool) and f0.k == "|" and len(f0.a) <= 24 else [f0]
        open_ = []
        for g in goals:
            r, model = self.c.query([g], timeout=self.h.timeout)
            if r != "unsat":
                open_.append((r, model, g))
        if not open_:
            self.ext = True
            return
        # a definite violation: false even with the margin
        cands = []
        fm = None
        verdict = "unknown" if any(r == "unknown" for r, _, _ in open_) else "sat"
        for k in (1, 30):
            fm = self.viol(c, margin * k)
            r, model = self.c.query([fm], timeout=self.h.timeout)
            if r == "unsat":
                if k == 1:
                    # only violations below the resolution of the replay are possible
                    self.results.append((label, "sub-margin", [], verdict))
                    return
                break
            if model is not None:
                cands.append(self.values(model))
            if r == "unknown":
                break
        for r, model, g in open_:
            if model is not None:
                cands.append(self.values(model))
        cands += self.restricted(fm, 10 if verdict == "unknown" or not cands else 3)
        self.results.append((label, verdict, cands, verdict))

    def viol(self, c, slack):
        """c is false even when every comparison is relaxed by slack"""
        return self.core.fnot(self.fm(c, slack))

    def lemma(self, label, c):
        n = len(self.results)
        self.check(label, c)
        if len(self.results) == n:
            self.c.assume(self.fm(lift(c), Fraction(0)))

    def restricted(self, f, n, timeout=3000):
        """models with some inputs pinned to simple values (for goals the solver cannot decide in general)"""
        import random

        core = self.core
        out = []
        rnd = random.Random(12345)
        names = list(self.inputs)
        fails = 0
        for t in range(n):
            extra = []
            units = {}
            for nm in names:
                kind, a = self.inputs[nm]
                if rnd.random() < (0.85 if t % 2 else 0.55):
                    pa = core.patom(a)
                    if kind == "real":
                        lo, hi = self.c.ivs[a]
                        lo = Fraction(-10) if lo is None else lo
                        hi = Fraction(10) if hi is None else hi
                        v = lo + (hi - lo) * Fraction(rnd.randrange(1, 16), 16)
                        extra.append(core.flit_nofact(core.padd(pa, core.pconst(v), -1), core.ZERO))
                    elif kind == "unit":
                        units.setdefault(nm[:-1], []).append(a)
            for base in units:
                at = [a for nm, (k, a) in self.inputs.items() if k == "unit" and nm[:-1] == base]
                tab = {2: [(0.6, 0.8), (-0.6, 0.8), (0, 1), (1, 0), (0.8, -0.6), (-0.28, -0.96)],
                       3: [("2/7", "3/7", "6/7"), ("-2/7", "6/7", "3/7"), ("6/7", "-2/7", "-3/7"), ("2/3", "1/3", "-2/3"), ("0.6", "0", "0.8"), ("0", "0", "1"), ("1", "0", "0")]}[len(at)]
                v = rnd.choice(tab)
                for a, x in zip(at, v):
                    extra.append(core.flit_nofact(core.padd(core.patom(a), core.pconst(Fraction(str(x))), -1), core.ZERO))
            if any(e is False for e in extra):
                continue
            r, model = self.c.query([f] + extra, timeout=timeout, purpose="search")
            if model is not None:
                out.append(self.values(model))
                if len(out) >= 3:
                    break
        return out

    def values(self, model):
        v = {}
        c = self.c
        for nm, (kind, a) in self.inputs.items():
            x = model.v.get(a)
            if kind == "angle":
                best = None
                for q, s, co in c.angles:
                    if set(q.t) <= {((a, 1),), ()} and ((a, 1),) in q.t:
                        k = float(q.t[((a, 1),)])
                        sv, cv = model.v.get(s), model.v.get(co)
                        if sv is None or cv is None:
                            continue
                        if best is None or abs(k) < abs(best[0]):
                            best = (k, (math.atan2(sv, cv) - float(q.t.get((), 0))) / k)
                if best is not None:
                    x = best[1]
            if x is None:
                lo, hi = c.ivs[a]
                if lo is not None and hi is not None:
                    x = float(lo + (hi - lo) * Fraction(3, 7)) if not (lo <= 0 <= hi) else float(hi) * 0.3
                else:
                    x = float(lo if lo is not None and lo > 0 else hi if hi is not None and hi < 0 else 0)
            v[nm] = x
        if c.rand:
            rv = []
            for p in c.rand:
                (m, _), = p.t.items()
                x = model.v.get(m[0][0])
                rv.append(0.5 if x is None else min(max(x, 0.0), 0.999999999))
            v["__rand__"] = rv
        v["__model__"] = None
        return v

    def cover(self, label, c=True):
        if len(self.c.trace) < self.skip:
            return
        f = self.fm(lift(c), Fraction(0))
        r, model = self.c.query([f] if f is not True else [], timeout=5000, purpose="branch")
        if r == "sat":
            self.covers.append(label)

    def reach(self, label, c, sample):
        """some value of the inputs and random draws makes c true; `sample` looks for one on the real code"""
        self.nchecks += 1
        if len(self.c.trace) < self.skip:
            return
        f = self.fm(lift(c), Fraction(0))
        r, model = self.c.query([f] if f is not True else [], timeout=self.h.timeout)
        if r == "sat":
            return
        r2, model = self.c.query([], timeout=5000, purpose="search")
        v = self.values(model) if model is not None else {}
        v.pop("__rand__", None)
        self.results.append((label, "sat" if r == "unsat" else r, [v], r))

    def uniform(self, label, xs, sample):
        """every (x, lo, hi) is lo + (hi - lo) u or hi - (hi - lo) u for a uniform draw u of its own"""
        self.nchecks += 1
        if len(self.c.trace) < self.skip:
            return
        core = self.core
        left = [core.SR([(True, p)]) for p in self.c.rand]
        for x, lo, hi in xs:
            for j, u in enumerate(left):
                fs = [core.resimp(self.fm(ne(x, v), Fraction(0))) for v in (lo + (hi - lo) * u, hi - (hi - lo) * u)]
                if False in fs:
                    self.c.stats.trivial += 1
                    break
                if any(self.c.query([f], timeout=2000)[0] == "unsat" for f in fs):
                    break
            else:
                r, model = self.c.query([], timeout=5000, purpose="search")
                v = self.values(model) if model is not None else {}
                v.pop("__rand__", None)
                self.results.append((label, "sat", [v], "sat"))
                return
            del left[j]

    def observe(self, name, v):
        self.observed[name] = flat(v)

    def val(self, x):
        return x

    def sqrt(self, x):
        return self.core.sr_sqrt(x)

    def sin_cos(self, deg):
        r = deg * math.pi / 180
        return self.core.sr_trig(r, "sin"), self.core.sr_trig(r, "cos")

    def raises(self, fn, kinds=Exception):
        core = self.core
        try:
            fn()
        except (core.Unsupported, core.Infeasible, core.Inconclusive, core.PathLimit):
            raise
        except kinds:
            return True
        return False

    # witness values of what was observed, at a model
    def witness(self):
        r, model = self.c.query([], timeout=10000, purpose="search")
        if model is None:
            return None
        vals = self.values(model)
        obs = {}
        for nm, xs in self.observed.items():
            obs[nm] = [evalsr(self.core, self.c, x, model) for x in xs]
        return vals, obs


def evalpoly(p, model):
    v = 0.0
    for m, c in p.t.items():
        x = float(c)
        for a, e in m:
            y = model.v.get(a)
            if y is None:
                return None
            x *= y ** e
        v += x
    return v


def evalf(core, f, model):
    if isinstance(f, bool):
        return f
    memo = model.__dict__.setdefault("memo", {})
    if f.id not in memo:
        memo[f.id] = evalf1(core, f, model)
    return memo[f.id]


def evalf1(core, f, model):
    if f.k == "L":
        v = evalpoly(f.a, model)
        if v is None or 0 < abs(v) < 1e-7:
            return None
        s = core.NEG if v < 0 else core.POS if v > 0 else core.ZERO
        return bool(s & f.b)
    r = [evalf(core, x, model) for x in f.a]
    if f.k == "&":
        return False if False in r else None if None in r else True
    return True if True in r else None if None in r else False


def evalsr(core, c, x, model):
    if not isinstance(x, (core.SR, core.SB)):
        return float(x)
    if isinstance(x, core.SB):
        v = evalf(core, x.f, model)
        return None if v is None else float(v)
    for g, l in x.alts:
        t = evalf(core, g, model)
        if t is None:
            return None
        if t:
            return evalpoly(l, model) if isinstance(l, core.Poly) else float(l)
    return None
