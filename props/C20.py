from props.C19 import Fixed, shape
from props.csgs import *

PROPERTY = "C20"
BOUNDS = ("apertures 0.2..2 (circles, rectangles, ellipses) up to 1 (one configuration: 1.5) off the axis each way, spherical radii 4..40 or infinite, focal lengths 0.5..20, "
          "thicknesses 0.05..2 (plane mirrors also zero); rays along the optical axis in both directions through any point within +-3 and along "
          "listed oblique directions; ray parameter within 60")


class Mirror:
    def __init__(self, w):
        k = w.case
        v = Fixed(w, k.get("fix", {}))
        kind = k["make"]
        t = self.t = 0.0 if k.get("thin") else v.real("t", 0.05, 2)
        ap, op = shape(v, k["ap"])
        kw = dict(aperture=ap)
        off = (0.0, 0.0)
        if k.get("off"):
            off = kw["off_axis"] = (v.real("oy", -1, 1), v.real("oz", -1, 1))
        self.open = lambda y, z, lt: op(y - off[0], z - off[1], lt)
        self.mat = w.m.mat.mirror
        if k.get("mat"):
            self.mat = kw["material"] = w.m.mat.BasicRefractor(1.25)
        c = w.m.comp
        if kind == "plane" or kind == "flat":
            self.obj = c.plane_mirror(t, **kw) if kind == "plane" else c.spherical_mirror(w.np.inf, t, **kw)
            self.back, self.front = -t, lambda p, rel: rel(p[0], 0)
        elif kind == "sphere":
            r = self.r = v.real("r", 4, 40)
            self.obj = c.spherical_mirror(r, t, **kw)
            self.back, self.front = -t, lambda p, rel: And(rel(r * r, (p[0] - r) * (p[0] - r) + p[1] * p[1] + p[2] * p[2]), rel(p[0], r))
        else:
            f = self.f = v.real("f", 0.5, 20)
            self.obj = c.parabolic_mirror(f, t, **kw)
            self.back, self.front = -f - t, lambda p, rel: rel(4 * f * (p[0] + f), p[1] * p[1] + p[2] * p[2])

    def inside(self, p, rel=lt):
        return And(self.open(p[1], p[2], rel), rel(self.back, p[0]), self.front(p, rel))


def hits(w):
    k = w.case
    M = Mirror(w)
    p, u = w.point("p", -3, 3), w.real("u", -60, 60)
    d = list(k.get("dir", (1.0, 0.0, 0.0)))
    if k.get("line"):
        p[2] = 0.0
    h, ids = M.obj.intersect(w.rays([p], [d]))
    hh = [h[j, 0] for j in range(h.shape[0])]
    w.observe("hits", hh)
    w.cover("hit", isfinite(hh[0]))
    parity(w, hh, u, "", M, along(p, d, u))


def thin(w):
    """a mirror without thickness"""
    k = w.case
    M = Mirror(w)
    p = w.point("p", -3, 3)
    d = list(k.get("dir", (1.0, 0.0, 0.0)))
    h, ids = M.obj.intersect(w.rays([p], [d]))
    hh = [h[j, 0] for j in range(h.shape[0])]
    q = along(p, d, -p[0] / d[0])
    w.cover("hit", isfinite(hh[0]))
    w.check("hit inside the aperture", Implies(M.open(q[1], q[2], lt), Or(*[eq(d[0] * x, -p[0]) for x in hh])))
    for x in hh:
        w.check("hits only there", Or(isinf(x), And(eq(d[0] * x, -p[0]), M.open(q[1], q[2], le))))


def surfaces(w):
    """only the front of a curved mirror reflects; the front's normals"""
    k = w.case
    M = Mirror(w)
    kind = k["make"]
    p = w.point("p", -3, 3)
    d = list(k.get("dir", (1.0, 0.0, 0.0)))
    parts = list(M.obj.surface_ids)
    h, ids = M.obj.intersect(w.rays([p], [d]))
    hh = [h[j, 0] for j in range(h.shape[0])]
    w.assume(Or(M.open(1.001 * p[1], 1.001 * p[2], lt), Not(M.open(p[1], p[2], le))) if not k.get("off") else True)
    for j in range(len(hh)):
        if not w.branch(isfinite(hh[j])):
            break
        q = along(p, d, hh[j])
        found = None
        for i, s in parts:
            if w.branch(eq(ids[j, 0], i)):
                found = s
                break
        w.check(f"hit {j} names a surface of the mirror", true(found is not None))
        if found is None:
            continue
        front = (j % 2 == 1) == (d[0] > 0)
        if kind == "plane":
            w.check(f"hit {j}: reflects", true(found.material is M.mat))
        else:
            w.check(f"hit {j}: only the front reflects", true(found.material is (M.mat if front else w.m.mat.absorber)))
        n = found.get_world_normals(w.arr([[q[0]], [q[1]], [q[2]], [1.0]]))
        n = [n[i, 0] for i in range(3)]
        if not front:
            w.check(f"hit {j}: normal of the back", alleq(n, [-1.0, 0.0, 0.0]))
        elif kind in ("plane", "flat"):
            w.check(f"hit {j}: normal of the front", alleq(n, [1.0, 0.0, 0.0]))
        elif kind == "sphere":
            w.check(f"hit {j}: normal of the front points to the centre", alleq([x * M.r for x in n], [M.r - q[0], -q[1], -q[2]]))
        else:
            # a ray along the axis goes through the focus, which is the origin
            dn = d[0] * n[0]
            out = [d[0] - 2 * dn * n[0], -2 * dn * n[1], -2 * dn * n[2]]
            w.check(f"hit {j}: normal is a unit vector", eq(n[0] * n[0] + n[1] * n[1] + n[2] * n[2], 1))
            w.check(f"hit {j}: axial rays go through the focus", And(*[eq(out[a] * q[b], out[b] * q[a]) for a, b in ((0, 1), (0, 2), (1, 2))]))


C = dict
APS = ("circle", "rect", "ellipse")
O = dict(oy=0.3, oz=-0.4)
HARNESSES = [
    Harness("hits", hits, [dict(make=m, ap=a) for m in ("plane", "flat", "sphere", "parabola") for a in APS] + [dict(make="plane", ap=a, off=1) for a in APS]
            + [dict(make="flat", ap=a, off=1, fix=O) for a in APS] + [dict(make="sphere", ap=a, off=1, fix=dict(O, r=8.0, **(dict(az=0.75, ay=1.25) if a == "ellipse" else dict(az=0.75) if a == "rect" else {}))) for a in APS]
            + [dict(make=m, ap="circle", off=1, fix=dict(oy=1.5, oz=0.0, r=8.0, a=0.5)) for m in ("sphere", "parabola")]
            + [dict(make="parabola", ap=a, off=1, fix=O) for a in ("circle", "rect")] + [dict(make="parabola", ap="ellipse", off=1, fix=dict(O, f=2.0))]
            + [dict(make=m, ap="circle", dir=(-1.0, 0.0, 0.0)) for m in ("plane", "flat", "sphere", "parabola")], policy="fork",
            thorough_cases=[dict(make="flat", ap="circle", off=1), dict(make="sphere", ap="circle", off=1, fix=O), dict(make="sphere", ap="rect", off=1, fix=dict(O, r=8.0)), dict(make="parabola", ap="circle", off=1), dict(make="sphere", ap="circle", off=1, fix=dict(oy=-0.8, oz=0.6, r=4.0)),
                             dict(make="sphere", ap="rect", off=1, fix=dict(oy=-0.8, oz=0.6, r=4.0))]),
    Harness("thin", thin, [dict(make="plane", thin=1, ap=a, off=o) for a in APS for o in (0, 1)], policy="fork"),
    Harness("surfaces", surfaces, [dict(make=m, ap=a, mat=a == "rect", fix=dict(r=8.0) if a != "circle" else {}) for m in ("plane", "flat", "sphere", "parabola") for a in APS]
            + [dict(make=m, ap="circle", dir=(-1.0, 0.0, 0.0)) for m in ("flat", "sphere", "parabola")], policy="fork"),
    Harness("oblique", hits, [dict(make=m, ap="circle", fix=dict(r=5.0, f=2.0, t=0.5, a=1.0), line=1, dir=(0.96, 0.28, 0.0)) for m in ("plane", "flat", "sphere", "parabola")], policy="fork"),
]
