from props.common import *

PROPERTY = "C32"
BOUNDS = ("one point, vector, ray or colour at a time with any components within +-20 (vectors at least 0.1 long where they are normalised), one component "
          "replaced; bundles of one to three rays; points and vectors under listed placements")


def four(a):
    return [a[i] for i in range(4)]


def parts(w):
    """components are read back as given; writing one changes that one alone"""
    kind, f = w.case["kind"], w.case["f"]
    v = [w.real(f"v{i}", -20, 20) for i in range(4)]
    g, tail = w.m.g3d, None
    if kind == "point":
        o, tail, names = g.Point(*v[:3]), 1.0, "xyzw"
    elif kind == "vector":
        o, tail, names = g.Vector(*v[:3]), 0.0, "xyzw"
    elif kind == "coordinate":
        o, names = w.m.prim.HomogeneousCoordinate(*v), "xyzw"
    else:
        o, names = w.m.color.RGBAColor(*v), "rgba"
    if tail is not None:
        v[3] = tail
    w.check("components as given", alleq(four(o), v))
    w.check("components by name", alleq([getattr(o, n) for n in names], v))
    other = type(o)(*[w.real(f"b{i}", -20, 20) for i in range(3)])
    before = four(other)
    new = w.real("new", -20, 20)
    k = names.index(f)
    setattr(o, f, new)
    want = [new if i == k else x for i, x in enumerate(v)]
    w.check("writing one component changes it alone", And(alleq(four(o), want), alleq([getattr(o, n) for n in names], want)))
    w.check("other objects are untouched", alleq(four(other), before))
    o[k] = v[k]
    w.check("by name and by position are the same thing", alleq([getattr(o, n) for n in names], v))


def defaults(w):
    g = w.m.g3d
    w.check("default point", alleq(four(g.Point()), [0.0, 0.0, 0.0, 1.0]))
    w.check("default vector", alleq(four(g.Vector()), [0.0, 0.0, 0.0, 0.0]))
    w.check("default colour", alleq(four(w.m.color.RGBAColor()), [0.0, 0.0, 0.0, 1.0]))
    a, b = w.real("a", -20, 20), w.real("b", -20, 20)
    w.check("opaque unless said otherwise", alleq(four(w.m.color.RGBAColor(a, b, 0.5)), [a, b, 0.5, 1.0]))
    w.check("named components", And(alleq(four(g.Point(y=a)), [0.0, a, 0.0, 1.0]), alleq(four(g.Vector(z=b)), [0.0, 0.0, b, 0.0])))


def unit(w):
    """normalising keeps the direction, gives unit length and leaves the fourth component"""
    g = w.m.g3d
    v = [w.real(f"v{i}", -20, 20) for i in range(3)]
    w.assume(ge(w.dot(v, v), 0.01))
    o = g.Vector(*v) if w.case["kind"] == "vector" else g.Point(*v)
    r = o.normalize()
    w.check("gives the object back", true(r is o))
    x = [o[i] for i in range(3)]
    w.check("unit length", eq(w.dot(x, x), 1))
    w.check("same direction", And(*[eq(x[i] * v[j], x[j] * v[i]) for i in range(3) for j in range(i)], gt(w.dot(x, v), 0)))
    w.check("fourth component kept", eq(o[3], 0.0 if w.case["kind"] == "vector" else 1.0))


def ray(w):
    """a ray keeps its origin and its direction apart"""
    g = w.m.g3d
    p, d, n = w.point("p"), w.vec("d", lo=-2, hi=2), w.vec("n", lo=-2, hi=2)
    P, D = g.Point(*p), g.Vector(*d)
    r = g.Ray(P, D)
    e = g.Ray()
    w.check("default ray", And(alleq(four(e.origin), [0.0, 0.0, 0.0, 1.0]), alleq(four(e.direction), [1.0, 0.0, 0.0, 0.0])))
    w.check("as given", And(alleq(four(r.origin), p + [1.0]), alleq(four(r.direction), d + [0.0]), alleq(four(r[0]), p + [1.0]), alleq(four(r[1]), d + [0.0])))
    if w.case["f"] == "origin":
        r.origin = g.Point(*n)
        w.check("new origin only", And(alleq(four(r.origin), n + [1.0]), alleq(four(r.direction), d + [0.0])))
    elif w.case["f"] == "direction":
        r.direction = g.Vector(*n)
        w.check("new direction only", And(alleq(four(r.origin), p + [1.0]), alleq(four(r.direction), n + [0.0])))
    else:
        r.origin.x = n[0]
        r.direction.z = n[1]
        w.check("components in place", And(alleq(four(r.origin), [n[0], p[1], p[2], 1.0]), alleq(four(r.direction), [d[0], d[1], n[1], 0.0])))
    w.check("what it was made of is untouched", And(alleq(four(P), p + [1.0]), alleq(four(D), d + [0.0])))
    w.check("later default rays are untouched", And(alleq(four(g.Ray().origin), [0.0, 0.0, 0.0, 1.0]), alleq(four(g.Ray().direction), [1.0, 0.0, 0.0, 0.0])))


def bundle(w):
    """each ray of a bundle is a column"""
    g, n = w.m.g3d, w.case["n"]
    b = g.bundle_of_rays(n)
    w.check("empty bundle", And(true(tuple(b.shape) == (2, 4, n)), *[alleq(four(b[0, :, i]) + four(b[1, :, i]), [0.0, 0.0, 0.0, 1.0] + [0.0] * 4) for i in range(n)]))
    ps, ds = [w.point(f"p{i}") for i in range(n)], [w.vec(f"d{i}", lo=-2, hi=2) for i in range(n)]
    rs = [g.Ray(g.Point(*p), g.Vector(*d)) for p, d in zip(ps, ds)]
    B = w.m.prim.bundle_rays(rs)
    w.check("each ray in its column", And(true(tuple(B.shape) == (2, 4, n)), *[alleq(four(B[0, :, i]) + four(B[1, :, i]), ps[i] + [1.0] + ds[i] + [0.0]) for i in range(n)]))
    B[0, 0, 0] = 7.0
    w.check("the rays are untouched", alleq(four(rs[0].origin), ps[0] + [1.0]))


def placed(w):
    """points move with an object, vectors turn with it"""
    g = w.m.g3d
    o = g.WorldObject()
    pl = Place(w, o, w.case["at"])
    p, d = w.point("p"), w.vec("d", lo=-2, hi=2)
    w.check("point", alleq(four(o.to_world_coordinates(g.Point(*p))), pl.point(p) + [1.0]))
    w.check("vector", alleq(four(o.to_world_coordinates(g.Vector(*d))), pl.vector(d) + [0.0]))
    R = o.to_world_coordinates(g.Ray(g.Point(*p), g.Vector(*d)).T)
    w.check("ray", And(alleq([R[i, 0] for i in range(4)], pl.point(p) + [1.0]), alleq([R[i, 1] for i in range(4)], pl.vector(d) + [0.0])))


HARNESSES = [Harness("parts", parts, [dict(kind=k, f=f) for k, fs in (("point", "xyzw"), ("vector", "xyzw"), ("coordinate", "xyzw"), ("colour", "rgba")) for f in fs]),
             Harness("defaults", defaults), Harness("unit", unit, [dict(kind="vector"), dict(kind="point")]),
             Harness("ray", ray, [dict(f=f) for f in ("origin", "direction", "parts")]),
             Harness("bundle", bundle, [dict(n=n) for n in (1, 2, 3)]), Harness("placed", placed, [dict(at=a) for a in ("m", "x", "ymz", "sxm")])]
