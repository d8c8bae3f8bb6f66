from props.csgs import *

PROPERTY = "C19"
BOUNDS = ("apertures 0.2..2 (circles, rectangles, ellipses), radii of curvature 4..40 of either sign or infinite, thicknesses 0.05..2; rays along the "
          "optical axis in both directions through any point within +-3, and rays in listed oblique directions; ray parameter within 30")


def shape(w, kind, n="a"):
    """aperture argument, membership of (y, z)"""
    if kind == "circle":
        a = w.real(n, 0.2, 2)
        return a, lambda y, z, lt: lt(4 * (y * y + z * z), a * a)
    a, b = w.real(n + "y", 0.2, 1.6), w.real(n + "z", 0.2, 1.2)
    if kind == "rect":
        return (a, b), lambda y, z, lt: And(lt(-a / 2, y), lt(y, a / 2), lt(-b / 2, z), lt(z, b / 2))
    return (-a, -b), lambda y, z, lt: lt(4 * (y * y * b * b + z * z * a * a), a * a * b * b)


class Fixed:
    """a known size instead of any"""

    def __init__(self, w, fixed):
        self.w, self.fixed = w, fixed

    def real(self, name, lo, hi):
        return self.fixed[name] if name in self.fixed else self.w.real(name, lo, hi)


def beyond(side, bulge, r, x0, p, rel):
    """p is on the lens's side of a surface: side +1 when the lens lies at larger x; bulge: the surface is convex seen from outside"""
    if r is None:
        return rel(x0, p[0]) if side > 0 else rel(p[0], x0)
    c = x0 + side * r if bulge else x0 - side * r
    s = (p[0] - c) * (p[0] - c) + p[1] * p[1] + p[2] * p[2]
    if bulge:
        return rel(s, r * r)
    return And(rel(r * r, s), rel(c, p[0]) if side > 0 else rel(p[0], c))


class Lens:
    def __init__(self, w):
        k = w.case
        v = Fixed(w, k.get("fix", {}))
        t = self.t = v.real("t", 0.05, 2)
        ap, self.open = shape(v, k["ap"])
        s1, s2 = k["s"]
        self.r = [None if s == 0 else v.real(n, 4, 40) for n, s in (("r1", s1), ("r2", s2))]
        inf = w.np.inf
        arg = [inf if s == 0 else s * r for s, r in zip((s1, s2), self.r)]
        m = self.mat = k.get("mat") and w.m.mat.BasicRefractor(1.25)
        kw = dict(aperture=ap, material=m) if m else dict(aperture=ap)
        if k["make"] == "thick":
            self.obj = w.m.comp.thick_lens(arg[0], arg[1], t, **kw)
            self.bulge = (s1 > 0, s2 < 0)
        elif k["make"] == "biconvex":
            self.obj = w.m.comp.biconvex_lens(arg[0], arg[1], t, **kw)
            self.bulge = (True, True)
        else:
            self.obj = w.m.comp.plano_convex_lens(arg[1], t, **kw)
            self.r[0] = None
            self.bulge = (True, True)

    def inside(self, p, rel=lt):
        return And(self.open(p[1], p[2], rel), beyond(1, self.bulge[0], self.r[0], -self.t / 2, p, rel), beyond(-1, self.bulge[1], self.r[1], self.t / 2, p, rel))

    def leaves(self):
        return self.obj.surface_ids


def hits(w):
    k = w.case
    L = Lens(w)
    p, u = w.point("p", -3, 3), w.real("u", -30, 30)
    d = list(k.get("dir", (1.0, 0.0, 0.0)))
    if k.get("flat"):
        p[2] = 0.0
    h, ids = L.obj.intersect(w.rays([p], [d]))
    hh = [h[j, 0] for j in range(h.shape[0])]
    w.observe("hits", hh)
    w.cover("hit", isfinite(hh[0]))
    parity(w, hh, u, "", L, along(p, d, u))


def material(w):
    """what the surfaces are made of, and which way their normals point"""
    k = w.case
    L = Lens(w)
    p = w.point("p", -3, 3)
    d = list(k.get("dir", (1.0, 0.0, 0.0)))
    parts = list(L.obj.surface_ids)
    for i, s in parts:
        w.check("every surface is made of the lens's material", true(s.material is L.mat))
    h, ids = L.obj.intersect(w.rays([p], [d]))
    hh = [h[j, 0] for j in range(h.shape[0])]
    # away from the rim, where two surfaces meet
    w.assume(Or(L.open(1.001 * p[1], 1.001 * p[2], lt), Not(L.open(p[1], p[2], le))))
    w.assume(Or(isinf(hh[0]), ge(hh[1] - hh[0], 1e-3)))
    for j in range(len(hh)):
        if not w.branch(isfinite(hh[j])):
            break
        q = along(p, d, hh[j])
        found = None
        for i, s in parts:
            if w.branch(eq(ids[j, 0], i)):
                found = s
                break
        w.check(f"hit {j} names a surface of the lens", true(found is not None))
        if found is None:
            continue
        n = found.get_world_normals(w.arr([[q[0]], [q[1]], [q[2]], [1.0]]))
        n = [n[i, 0] for i in range(3)]
        # which surface this is, as seen from the outside: the first one going in, the second one coming out (axial rays)
        first = (j % 2 == 0) == (d[0] > 0)
        x0, r, b = (-L.t / 2, L.r[0], L.bulge[0]) if first else (L.t / 2, L.r[1], L.bulge[1])
        side = 1 if first else -1
        if r is None:
            want = [-float(side), 0.0, 0.0]
            w.check(f"hit {j}: outward normal", alleq(n, want))
        else:
            c = x0 + side * r if b else x0 - side * r
            e = [q[0] - c, q[1], q[2]]
            if not b:
                e = [-x for x in e]
            w.check(f"hit {j}: outward normal", alleq([n[i] * r for i in range(3)], e))


C = dict
APS = ("circle", "rect", "ellipse")
R = dict(r1=5.0, r2=8.0)
ONE = [C(make="thick", s=s) for s in ((0, 0), (1, 0), (0, -1), (-1, 0), (0, 1))] + [C(make="plano", s=(0, s)) for s in (1, -1, 0)] + [C(make="biconvex", s=s) for s in ((1, 0), (0, -1), (0, 0))]
TWO = [C(make="thick", s=s) for s in ((1, -1), (-1, 1), (1, 1), (-1, -1))] + [C(make="biconvex", s=(1, 1)), C(make="biconvex", s=(-1, 1)), C(make="biconvex", s=(-1, -1))]
HARNESSES = [
    Harness("one curve", hits, [dict(k, ap=a) for k in ONE for a in APS] + [dict(k, ap="circle", dir=(-1.0, 0.0, 0.0)) for k in ONE[1:4]], policy="fork"),
    Harness("two curves", hits, [dict(k, ap=a, fix=R) for k in TWO[:5] for a in APS] + [dict(k, ap="circle", fix=R) for k in TWO[5:]]
            + [dict(k, ap="circle", fix=dict(r1=40.0, r2=4.5)) for k in TWO[:5]], policy="fork"),
    Harness("one of two", hits, [dict(k, ap="circle", fix=dict(r2=8.0, t=0.5), flat=1) for k in TWO[:2] + TWO[4:6]], policy="fork",
            thorough_cases=[dict(k, ap="circle", fix=f) for k in TWO for f in (dict(r2=8.0, t=0.5), dict(r1=5.0, t=0.5))]),
    Harness("oblique", hits, [dict(k, ap="circle", fix=dict(r1=5.0, r2=8.0, t=0.5, a=1.0), flat=1, dir=(0.96, 0.28, 0.0)) for k in TWO[:5]], policy="fork"),
    Harness("surfaces", material, [dict(k, ap=a, fix=R, mat=1) for k in TWO[:5] + [ONE[1], ONE[4], ONE[5], ONE[8]] for a in ("circle", "rect")], policy="fork"),
]
