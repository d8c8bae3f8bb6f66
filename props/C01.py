from props.common import *

PROPERTY = "C01"
BOUNDS = ("one ray against one sphere, cuboid, capped cylinder or paraboloid; every direction whose object-space components are "
          "exactly 0 or >= 1e-3 and <= 2 in size (xy part 0 or >= 1e-2); points within 10 units, ray parameter within 30; sizes 0.01..20; "
          "placements: none, move, non-uniform scale 0.25..4, rotation by any angle about x, y or z, and the listed sequences of them")


def probe(w, solid, pat, dims, kind):
    """object-space point q and direction d, and the world ray that reaches q at parameter u"""
    pl = Place(w, solid, kind)
    q = w.point("q", -10, 10)
    u = w.real("u", -30, 30)
    d = direction(w, "d", pat)
    if dims:
        w.dots("D", d[:dims], d[:dims], lo=1e-4 if any(pat[:dims]) else None)
        w.dots("B", q[:dims], d[:dims])
        w.dots("Q", q[:dims], q[:dims], lo=0)
    Q, V = pl.point(q), pl.vector(d)
    hits, ids = solid.intersect(w.rays([[Q[i] - u * V[i] for i in range(3)]], [V]))
    w.check("one pair of hits per ray", true(tuple(hits.shape) == (2, 1) and tuple(ids.shape) == (2, 1)))
    w.check("hits carry the id of the surface", And(eq(ids[0, 0], solid.get_id()), eq(ids[1, 0], solid.get_id())))
    return hits, q, u


def membership(w, hits, inside, u, interior=None):
    """the reported pair is the entry and exit of the solid, for every parameter u"""
    t0, t1 = hits[0, 0], hits[1, 0]
    w.observe("hits", [t0, t1])
    w.cover("hit", isfinite(t0))
    w.check("no nan", And(Not(isnan(t0)), Not(isnan(t1))))
    w.check("hits are sorted", le(t0, t1))
    w.check("a miss is inf for both", Or(And(isfinite(t0), isfinite(t1)), And(isinf(t0), isinf(t1))))
    w.check("inside points lie between the hits", Implies(inside if interior is None else interior, between(t0, t1, u)))
    w.check("points between the hits are inside", Implies(And(isfinite(t0), between(t0, t1, u)), inside))


def sphere(w):
    r = w.real("r", 0.01, 20)
    hits, q, u = probe(w, w.m.g3d.Sphere(r), w.case["pat"], 3, w.case["at"])
    w.cover("miss", isinf(hits[0, 0]))
    membership(w, hits, in_ball(q, r), u)


def cube(w):
    lo = w.vec("lo", lo=-10, hi=10)
    sz = w.vec("size", lo=0.01, hi=20)
    hi = [a + b for a, b in zip(lo, sz)]
    a, b = (hi, lo) if w.case.get("swap") else (lo, hi)
    hits, q, u = probe(w, w.m.g3d.Cuboid(a, b), w.case["pat"], 0, w.case["at"])
    membership(w, hits, in_box(q, lo, hi), u, And(*[And(lt(lo[i], q[i]), lt(q[i], hi[i])) for i in range(3)]))


def cyl(w):
    r = w.real("r", 0.01, 20)
    h0 = w.real("h0", -10, 10)
    h1 = h0 + w.real("h", 0.01, 20)
    hits, q, u = probe(w, w.m.g3d.Cylinder(r, h0, h1), w.case["pat"], 2, w.case["at"])
    membership(w, hits, in_cyl(q, r, h0, h1), u)


def parab(w):
    f = w.real("f", 0.05, 20)
    h = w.real("h", 0.05, 20)
    hits, q, u = probe(w, w.m.wo.Paraboloid(f, h), w.case["pat"], 2, w.case["at"])
    membership(w, hits, in_parab(q, f, h), u)


ALL = [dict(pat=p, at="") for p in PATTERNS]
AT = [dict(pat=(1, 1, 1), at=k) for k in PLACES]
SIGN = [dict(pat=(a, b, c), at="") for a in "+-0" for b in "+-0" for c in "+-0" if (a, b, c) != ("0", "0", "0")]
SIGN = [dict(c, pat=tuple(0 if x == "0" else x for x in c["pat"])) for c in SIGN]
ATC = [dict(pat=("+", "-", "+"), at=k) for k in PLACES]
HARNESSES = [
    Harness("sphere", sphere, ALL + AT),
    Harness("cube", cube, SIGN + ATC + [dict(pat=("-", "+", "+"), at="", swap=1)]),
    Harness("cyl", cyl, ALL + AT),
    Harness("parab", parab, ALL + AT),
]
