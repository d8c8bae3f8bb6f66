from props.common import *

PROPERTY = "C03"
BOUNDS = ("one surface point per query: every point of a sphere, cuboid face, cylinder wall or cap, paraboloid bowl or cap, or plane, "
          "at least 1e-3 (relative 1e-4) from an edge; sizes 0.05..20; placements: none, move, scale 0.25..4, rotation by any angle "
          "about x, y or z, listed sequences; tangent vectors within 2")


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def judge(w, s, q, outward, tangents):
    """normal of the placed surface s at the image of object point q"""
    pl = Place(w, s, w.case["at"])
    P = pl.point(q)
    n = s.get_world_normals(w.arr([[P[0]], [P[1]], [P[2]], [1.0]]))
    w.check("shape of the result", true(tuple(n.shape) == (4, 1)))
    nn = [n[i, 0] for i in range(3)]
    w.observe("n", nn)
    w.check("homogeneous part is zero", eq(n[3, 0], 0))
    w.check("unit length", eq(w.dot(nn, nn), 1))
    for i, t in enumerate(tangents):
        w.check(f"perpendicular to tangent {i}", eq(w.dot(nn, pl.vector(t)), 0))
    if outward is not None:
        w.check("points out of the solid", gt(w.dot(nn, pl.vector(outward)), 0), margin=1e-6)
    if w.case["at"] in ("", "m"):
        s.invert_normals()
        k = s.get_world_normals(w.arr([[P[0]], [P[1]], [P[2]], [1.0]]))
        w.check("inverted normals are the negatives", And(*[eq(k[i, 0], -nn[i]) for i in range(3)], eq(k[3, 0], 0)))
        s.reset_normals()
        k = s.get_world_normals(w.arr([[P[0]], [P[1]], [P[2]], [1.0]]))
        w.check("reset restores the normals", And(*[eq(k[i, 0], nn[i]) for i in range(3)]))


def sphere(w):
    r = w.real("r", 0.05, 20)
    e = w.unit("e")
    v = w.vec("v", lo=-2, hi=2)
    judge(w, w.m.g3d.Sphere(r), [r * x for x in e], e, [cross(v, e)])


def cube(w):
    lo = w.vec("lo", lo=-10, hi=10)
    sz = w.vec("sz", lo=0.05, hi=20)
    hi = [a + b for a, b in zip(lo, sz)]
    ax, side = w.case["ax"], w.case["side"]
    q = w.vec("q", lo=-30, hi=30)
    q[ax] = (hi if side > 0 else lo)[ax]
    for i in range(3):
        if i != ax:
            w.assume(And(gt(q[i], lo[i] + 0.001), lt(q[i], hi[i] - 0.001)))
    e = [0.0] * 3
    e[ax] = float(side)
    t = [[1.0 if j == i else 0.0 for j in range(3)] for i in range(3) if i != ax]
    judge(w, w.m.g3d.Cuboid(lo, hi), q, e, t)


def cyl(w):
    r = w.real("r", 0.05, 20)
    h0 = w.real("h0", -10, 10)
    sz = w.real("h", 0.05, 20)
    h1 = h0 + sz
    s = w.m.g3d.Cylinder(r, h0, h1)
    if w.case["part"] == "wall":
        e = w.circle("e")
        z = w.real("z", -10, 30)
        w.assume(And(gt(z, h0 + 0.001), lt(z, h1 - 0.001)))
        judge(w, s, [r * e[0], r * e[1], z], [e[0], e[1], 0.0], [[-e[1], e[0], 0.0], [0.0, 0.0, 1.0]])
    else:
        q = [w.real("x", -20, 20), w.real("y", -20, 20)]
        w.assume(le(q[0] * q[0] + q[1] * q[1], r * r))
        up = w.case["part"] == "top"
        judge(w, s, q + [h1 if up else h0], [0.0, 0.0, 1.0 if up else -1.0], [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0]])


def parab(w):
    f = w.real("f", 0.05, 20)
    h = w.real("h", 0.05, 20)
    s = w.m.wo.Paraboloid(f, h)
    if w.case["part"] == "bowl":
        # points (x, y, (x2+y2)/4f); gradient of x2+y2-4fz
        x, y = w.real("x", -40, 40), w.real("y", -40, 40)
        z = (x * x + y * y) / (4 * f)
        w.assume(lt(z, h - 0.001))
        judge(w, s, [x, y, z], [x, y, -2 * f], [[1.0, 0.0, x / (2 * f)], [0.0, 1.0, y / (2 * f)]])
    else:
        q = [w.real("x", -40, 40), w.real("y", -40, 40)]
        w.assume(lt(q[0] * q[0] + q[1] * q[1], 4 * f * h))
        judge(w, s, q + [h], [0.0, 0.0, 1.0], [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0]])


def plane(w):
    s = w.m.g3d.XYPlane(w.real("wd", 0.05, 20), w.real("ln", 0.05, 20))
    judge(w, s, [w.real("x", -10, 10), w.real("y", -10, 10), 0.0], None, [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0]])


AT = [""] + PLACES
FACES = [dict(ax=a, side=s) for a in range(3) for s in (-1, 1)]
HARNESSES = [
    Harness("sphere", sphere, [dict(at=k) for k in AT]),
    Harness("cube", cube, [dict(f, at="") for f in FACES] + [dict(FACES[i % 6], at=k) for i, k in enumerate(PLACES)], policy="prune"),
    Harness("cyl", cyl, [dict(part=p, at=k) for p in ("wall", "top", "bottom") for k in AT], policy="prune"),
    Harness("parab", parab, [dict(part=p, at=k) for p in ("bowl", "cap") for k in AT], policy="prune"),
    Harness("plane", plane, [dict(at=k) for k in AT]),
]
