from props.common import *

PROPERTY = "C04"
BOUNDS = ("objects placed by sequences of up to four moves, scales (0.25..4) and rotations by any angle, and by arbitrary invertible "
          "affine matrices (entries within 4, determinant >= 0.01); points within 10 units; an orientation whose image is shorter than 1e-7 is rejected, not reported")


def coord(p, wc=1.0):
    return [[p[0]], [p[1]], [p[2]], [wc]]


def col(a):
    return [a[i, 0] for i in range(4)]


def target(w, kind):
    return {"sphere": lambda: w.m.g3d.Sphere(1), "line": lambda: w.m.comp.LineOfRays(), "group": lambda: w.m.g3d.ObjectGroup(),
            "cam": lambda: w.m.g3d.OrthographicCamera(2, 1, 1), "obj": lambda: w.m.g3d.WorldObject()}[kind]()


def seq(w):
    o = target(w, w.case.get("obj", "obj"))
    pl = Place(w, o, w.case["at"])
    q, v = w.point("q"), w.vec("v", lo=-2, hi=2)
    W = o.to_world_coordinates(w.arr(coord(q)))
    w.check("object points map through the steps in order", alleq(col(W), pl.point(q) + [1.0]))
    W = o.to_world_coordinates(w.arr(coord(v, 0.0)))
    w.check("directions map through the linear part", alleq(col(W), pl.vector(v) + [0.0]))
    B = o.to_object_coordinates(w.arr(coord(pl.point(q))))
    w.check("world points map back", alleq(col(B), q + [1.0]))
    z = pl.point([0.0, 0.0, 0.0])
    p = o.get_position()
    w.observe("p", [p[i] for i in range(4)])
    w.check("position is the image of the origin", alleq([p[i] for i in range(4)], z + [1.0]))
    ax = pl.vector([0.0, 0.0, 1.0])
    d = o.get_orientation()
    dd = [d[i] for i in range(3)]
    w.check("orientation is a unit vector", And(eq(w.dot(dd, dd), 1), eq(d[3], 0)))
    L = w.sqrt(w.dot(ax, ax))
    w.check("orientation is the image of the axis", And(*[eq(dd[i] * L, ax[i]) for i in range(3)]))
    T, I = o.get_world_transform(), o.get_object_transform()
    J = w.np.matmul(T, I)
    w.check("the two matrices are inverses", alleq([J[i, j] for i in range(4) for j in range(4)], [1.0 if i == j else 0.0 for i in range(4) for j in range(4)]))
    T[0, 0] = T[0, 0] + 5
    I[1, 3] = I[1, 3] + 7
    W2 = o.to_world_coordinates(w.arr(coord(q)))
    B2 = o.to_object_coordinates(w.arr(coord(pl.point(q))))
    w.check("returned matrices are copies", And(alleq(col(W2), pl.point(q) + [1.0]), alleq(col(B2), q + [1.0])))


def affine(w):
    """an arbitrary invertible affine matrix on top of one placement step"""
    o = target(w, "obj")
    pl = Place(w, o, w.case["at"])
    M = [[w.real(f"m{i}{j}", -4, 4) for j in range(4)] for i in range(3)]
    det = (M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1]) - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0])
           + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0]))
    w.assume(Or(ge(det, 0.01), le(det, -0.01)))
    ax = pl.vector([0.0, 0.0, 1.0])
    im = [w.dot(M[i][:3], ax) for i in range(3)]
    w.assume(ge(w.dot(im, im), 0.01))
    A = w.arr(M + [[0.0, 0.0, 0.0, 1.0]])
    r = o.transform(A)
    w.check("transform returns the object", true(r is o))
    q = w.point("q")
    p = pl.point(q) + [1.0]
    want = [w.dot(M[i], p) for i in range(3)]
    W = o.to_world_coordinates(w.arr(coord(q)))
    w.check("matrix applied after earlier steps", alleq(col(W), want + [1.0]))
    B = o.to_object_coordinates(W)
    w.check("round trip", alleq(col(B), q + [1.0]))


def single(w):
    """each single-axis operation is the general one on that axis and chains"""
    k = w.case["op"]
    o = target(w, "obj")
    a = w.angle("a") if k.startswith("rot") else w.real("s", 0.25, 4) if k.startswith("scale") else w.real("t", -10, 10)
    units = w.case.get("units")
    if units:
        r = getattr(o, k)(a * w.np.pi / 180, units="rad")
    else:
        r = getattr(o, k)(a)
    w.check("returns the object", true(r is o))
    q = w.point("q")
    x = k[-1]
    i = "xyz".find(x)
    if k.startswith("rot"):
        sn, cs = w.sin_cos(a)
        want = rot(x, sn, cs, q)
    elif k == "scale_all":
        want = [a * t for t in q]
    elif k.startswith("scale"):
        want = [a * t if j == i else t for j, t in enumerate(q)]
    else:
        want = [a + t if j == i else t for j, t in enumerate(q)]
    W = o.to_world_coordinates(w.arr(coord(q)))
    w.check("acts on its axis only", alleq(col(W), want + [1.0]))


def refuse(w):
    """mirrored scales and collapsed orientations are refused"""
    o = target(w, "obj")
    s = w.vec("s", lo=-4, hi=4)
    w.assume(Or(*[lt(x, 0) for x in s]))
    w.check("a negative scale raises ValueError", true(w.raises(lambda: o.scale(*s), ValueError)))
    q = w.point("q")
    W = o.to_world_coordinates(w.arr(coord(q)))
    w.check("a refused scale leaves the object where it was", alleq(col(W), q + [1.0]))


SEQ = ["", "m", "s", "x", "y", "z", "mm", "xm", "mx", "sx", "mzs", "yzx", "szm", "mxym", "zxsm", "uxm"]
OPS = ["move_x", "move_y", "move_z", "scale_x", "scale_y", "scale_z", "scale_all", "rotate_x", "rotate_y", "rotate_z"]
HARNESSES = [
    Harness("sequence", seq, [dict(at=k) for k in SEQ] + [dict(at="mxm", obj=b) for b in ("sphere", "line", "group", "cam")]),
    Harness("affine", affine, [dict(at=""), dict(at="m"), dict(at="s")]),
    Harness("single", single, [dict(op=k) for k in OPS] + [dict(op="rotate_" + a, units="rad") for a in "xyz"]),
    Harness("refuse", refuse, policy="fork"),
]
