from props.common import *

PROPERTY = "C02"
BOUNDS = ("one ray against one finite plane; direction components exactly 0 or 1e-3..2 in size; points within 10 units, ray parameter "
          "within 30; plane sides 0.01..20; placements: none, move, scale 0.25..4, rotation by any angle about x, y or z, listed sequences")


def plane(w):
    wd, ln = w.real("wd", 0.01, 20), w.real("ln", 0.01, 20)
    s = w.m.g3d.XYPlane(wd, ln)
    pl = Place(w, s, w.case["at"])
    d = direction(w, "d", w.case["pat"])
    u = w.real("u", -30, 30)
    flat = not w.case["pat"][2]
    qz = w.real("qz", -10, 10) if flat else 0.0
    q = [w.real("qx", -10, 10), w.real("qy", -10, 10), qz]
    Q, V = pl.point(q), pl.vector(d)
    hits, ids = s.intersect(w.rays([[Q[i] - u * V[i] for i in range(3)]], [V]))
    w.check("one pair of hits per ray", true(tuple(hits.shape) == (2, 1) and tuple(ids.shape) == (2, 1)))
    w.check("hits carry the id of the surface", And(eq(ids[0, 0], s.get_id()), eq(ids[1, 0], s.get_id())))
    w.observe("hits", [hits[0, 0], hits[1, 0]])
    t0, t1 = hits[0, 0], hits[1, 0]
    if flat:
        w.check("rays parallel to the plane miss", And(isinf(t0), isinf(t1), gt(t0, 0), gt(t1, 0)))
        return
    inside = And(lt(-wd, 2 * q[0]), lt(2 * q[0], wd), lt(-ln, 2 * q[1]), lt(2 * q[1], ln))
    closed = And(le(-wd, 2 * q[0]), le(2 * q[0], wd), le(-ln, 2 * q[1]), le(2 * q[1], ln))
    w.cover("hit", isfinite(t0))
    w.cover("miss", isinf(t0))
    w.check("both entries agree", Or(And(isinf(t0), isinf(t1), gt(t0, 0), gt(t1, 0)), And(isfinite(t0), isfinite(t1), eq(t0, t1))))
    w.check("a crossing inside the outline is reported at its parameter", Implies(inside, And(isfinite(t0), eq(t0, u))))
    w.check("a reported hit is a crossing inside the outline", Implies(isfinite(t0), And(closed, eq(t0, u))))


HARNESSES = [Harness("plane", plane, [dict(pat=p, at="") for p in PATTERNS] + [dict(pat=(1, 1, 1), at=k) for k in PLACES])]
