from props.csgs import *

PROPERTY = "C05"
BOUNDS = ("every kind of solid and plane, sizes 0.05..20, under every listed placement; composites of two to three solids nested up to two deep, with up to "
          "three moves, rotations and scales (any for unions, fixed rational ones for intersections and differences) of any parts and of the whole in any listed order; points within 10 (30 for moved composites)")


def spans(w, o, tag=""):
    s = o.bounding_box.axis_spans
    v = o.bounding_volume.axis_spans
    w.check(tag + "box and volume agree", And(*[Or(eq(s[i, j], v[i, j]), And(isinf(s[i, j]), isinf(v[i, j]))) for i in range(3) for j in range(2)]))
    return s


def inbox(s, p):
    return And(*[And(le(s[i, 0], p[i]), le(p[i], s[i, 1])) for i in range(3)])


def solid(w):
    g, k = w.m.g3d, w.case["k"]
    q = w.vec("q", lo=-20, hi=20)
    if k == "ball":
        r = w.real("r", 0.05, 20)
        o, ins = g.Sphere(r), in_ball(q, r)
    elif k == "box":
        lo, sz = w.vec("lo", lo=-10, hi=10), w.vec("size", lo=0.05, hi=20)
        hi = [a + b for a, b in zip(lo, sz)]
        o, ins = g.Cuboid(lo, hi), in_box(q, lo, hi)
    elif k == "swapped":
        lo, sz = w.vec("lo", lo=-10, hi=10), w.vec("size", lo=0.05, hi=20)
        hi = [a + b for a, b in zip(lo, sz)]
        o, ins = g.Cuboid([hi[0], lo[1], hi[2]], [lo[0], hi[1], lo[2]]), in_box(q, lo, hi)
    elif k == "rod":
        r, h, sz = w.real("r", 0.05, 20), w.real("h", -10, 10), w.real("size", 0.05, 20)
        o, ins = g.Cylinder(r, h, h + sz), in_cyl(q, r, h, h + sz)
    elif k == "cup":
        f, h = w.real("f", 0.05, 20), w.real("h", 0.05, 20)
        o, ins = w.m.wo.Paraboloid(f, h), in_parab(q, f, h)
    else:
        a, b = w.real("a", 0.05, 20), w.real("b", 0.05, 20)
        o = g.XYPlane(a, b)
        ins = And(eq(q[2], 0), le(-a, 2 * q[0]), le(2 * q[0], a), le(-b, 2 * q[1]), le(2 * q[1], b))
    w.assume(ins)
    w.check("the new solid's box holds its points", inbox(spans(w, o), q))
    pl = Place(w, o, w.case["at"])
    s = spans(w, o)
    w.observe("spans", s)
    P = pl.point(q)
    for i in range(3):
        w.check(f"the placed solid's box holds its points, axis {i}", And(le(s[i, 0], P[i]), le(P[i], s[i, 1])))


def composite(w):
    t = Tree(w, w.case["t"])
    q = w.vec("q", lo=-20, hi=20)
    for i, (path, kind) in enumerate(w.case["do"]):
        t.move(path, kind, f"h{i}")
    s = spans(w, t.obj)
    w.observe("spans", s)
    # an arbitrary point, written in the coordinates of one of the parts
    base = t.at(w.case.get("base", "0"))
    P = q
    for pl in base.place:
        P = pl.point(P)
    base.local = q
    w.assume(t.inside(P))
    for i in range(3):
        w.check(f"the composite's box holds its points, axis {i}", And(le(s[i, 0], P[i]), le(P[i], s[i, 1])))


def ok(t, path):
    return not path or (not isinstance(t, str) and ok(t[1 + int(path[0])], path[1:]))


SEQ = ["m", "s", "x", "y", "z", "mz", "xm", "sy", "xY"]
B2 = [(o, "box", "box") for o in OPS]
B3 = [("or", "box", ("or", "box", "box")), ("or", ("sub", "box", "box"), "box"), ("and", ("or", "box", "box"), "box"), ("sub", ("and", "box", "box"), "box"), ("or", ("and", "box", "box"), "ball")]
HIST2 = [[], [("", "m")], [("0", "m")], [("1", "m")], [("0", "m"), ("", "m"), ("1", "m")], [("", "m"), ("0", "m"), ("1", "m")], [("", "z")], [("0", "x")], [("1", "y")],
         [("", "s")], [("0", "y"), ("", "m")], [("", "x"), ("0", "m")]]
HIST3 = [[("0", "m"), ("1", "m")], [("", "m")], [("00", "m")], [("10", "m"), ("11", "m")], [("1", "m"), ("11", "m"), ("", "m")], [("01", "Z")], [("11", "Z")]]
LEFT = {"or": ("0", "1"), "and": ("0", "1"), "sub": ("0",)}


def leaves(t, pre=""):
    return [pre] if isinstance(t, str) else leaves(t[1], pre + "0") + leaves(t[2], pre + "1")


HARNESSES = [Harness("solid", solid, [dict(k=k, at=a) for k in ("ball", "box", "swapped", "rod", "cup", "plane") for a in SEQ]),
             Harness("composite", composite, [dict(t=t, do=h, base=b) for t in B2 for h in (HIST2 if t[0] == "or" else [[(p, k.upper() if k in "xyzs" else k) for p, k in h] for h in HIST2]) for b in LEFT[t[0]][:2 if t[0] == "or" else 1]]
                     + [dict(t=t, do=h, base=leaves(t)[-1 if len(t[1]) != 3 and t[0] == "or" else 0]) for t in B3 for h in HIST3 if all(ok(t, p) for p, _ in h)])]
