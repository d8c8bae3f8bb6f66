from props.C19 import Fixed, shape
from props.csgs import *

PROPERTY = "C21"
BOUNDS = ("prism sides and widths 0.1..5, baffle and opening sizes 0.2..2 (circles, rectangles, ellipses in every combination), prisms of any listed "
          "material; rays through any point within +-5 along listed axis-parallel and oblique directions; ray parameter within 60")


class Prism:
    def __init__(self, w):
        k = w.case
        v = Fixed(w, k.get("fix", {}))
        self.s, self.wd = v.real("s", 0.1, 5), v.real("wd", 0.1, 5)
        self.mat = w.m.mat.BasicRefractor(1.25) if k.get("mat") else w.m.mat.glass["BK7"]
        self.obj = w.m.comp.equilateral_prism(self.s, self.wd, **(dict(material=self.mat) if k.get("mat") else {}))
        self.q = w.sqrt(3.0)

    def inside(self, p, rel=lt):
        x, y, z = p
        s, q = self.s, self.q
        return And(rel(-self.wd / 2, y), rel(y, self.wd / 2), rel(-s * q / 4, z), rel(q * x, s * q / 4 - z), rel(-q * x, s * q / 4 - z))


def hits(w):
    k = w.case
    P = Prism(w)
    p, u = w.point("p", -5, 5), w.real("u", -60, 60)
    d = list(k["dir"])
    if k.get("flat"):
        p[1] = 0.0
    h, ids = P.obj.intersect(w.rays([p], [d]))
    hh = [h[j, 0] for j in range(h.shape[0])]
    w.observe("hits", hh)
    w.cover("hit", isfinite(hh[0]))
    parity(w, hh, u, "", P, along(p, d, u))
    for i, s in P.obj.surface_ids:
        w.check("every surface is made of the prism's material", true(s.material is P.mat))


def stop(w):
    """a baffle, or a baffle with an opening"""
    k = w.case
    size, outer = shape(w, k["ap"])
    inner = None
    if k.get("hole"):
        hole, inner = shape(w, k["hole"], "b")
        obj = w.m.comp.aperture(size, hole)
    else:
        obj = w.m.comp.baffle(size)
    p = w.point("p", -5, 5)
    d = list(k.get("dir", (1.0, 0.0, 0.0)))
    h, ids = obj.intersect(w.rays([p], [d]))
    hh = [h[j, 0] for j in range(h.shape[0])]
    w.observe("hits", hh)
    y, z = along(p, d, -p[0] / d[0])[1:]
    w.cover("hit", isfinite(hh[0]))
    want = outer(y, z, lt) if not inner else And(outer(y, z, lt), Not(inner(y, z, le)))
    may = outer(y, z, le) if not inner else And(outer(y, z, le), Not(inner(y, z, lt)))
    w.check("stopped where there is material", Implies(want, Or(*[eq(d[0] * x, -p[0]) for x in hh])))
    for j, x in enumerate(hh):
        w.check(f"hit {j} lies in the plane and on the material", Or(isinf(x), And(eq(d[0] * x, -p[0]), may)))
    for i, s in obj.surface_ids:
        w.check("absorbs", true(s.material is w.m.mat.absorber) if not inner or s is obj.surface_ids[0][1] else true(True))


C = dict
APS = ("circle", "rect", "ellipse")
OB = [(a, b, (0.96, -0.28, 0.0)) for a, b in (("rect", "circle"), ("rect", "rect"), ("circle", "rect"), ("circle", "circle"), ("ellipse", "rect"))]
HARNESSES = [
    Harness("prism", hits, [dict(dir=d) for d in ((1.0, 0.0, 0.0), (-1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0), (0.0, 0.0, -1.0), (-0.6, 0.0, -0.8))]
            + [dict(dir=(0.96, 0.0, 0.28), flat=1), dict(dir=(1.0, 0.0, 0.0), mat=1)], policy="fork",
            thorough_cases=[dict(dir=(0.96, 0.0, 0.28)), dict(dir=(0.8, 0.6, 0.0)), dict(dir=(0.0, -0.6, 0.8)), dict(dir=(0.64, 0.6, -0.48), fix=dict(s=1.0, wd=2.0))], maxpaths=2000),
    Harness("baffle", stop, [dict(ap=a, dir=d) for a in APS for d in ((1.0, 0.0, 0.0), (-0.8, 0.6, 0.0), (0.48, 0.64, 0.6)) if (a, d[2]) != ("ellipse", 0.6)], policy="fork",
            thorough_cases=[dict(ap="ellipse", dir=(0.48, 0.64, 0.6))]),
    Harness("aperture", stop, [dict(ap=a, hole=b) for a in APS for b in APS] + [dict(ap="rect", hole=b, dir=(-1.0, 0.0, 0.0)) for b in APS], policy="fork"),
    Harness("oblique", stop, [dict(ap=a, hole=b, dir=d) for a, b, d in OB], policy="fork",
            thorough_cases=[dict(ap=a, hole=b, dir=(0.96, -0.28, 0.0)) for a in APS for b in APS if (a, b) not in [x[:2] for x in OB]] + [dict(ap="rect", hole="circle", dir=(-0.48, 0.64, 0.6))]),
]
