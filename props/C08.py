from props.csgs import *

PROPERTY = "C08"
BOUNDS = ("composites of two to three cuboids, balls and rods nested up to two deep; up to three moves, rotations by any angle and scales of the whole (fixed rational rotations where rays are traced), "
          "and interleaved moves of parts; rays along listed directions with any origin within 10")


def follow(w):
    """moving the whole moves every part by the same map"""
    t = Tree(w, w.case["t"])
    pts = [x.obj.get_world_transform() for x in t.leaves()]
    own = t.obj.get_world_transform()
    inner = [x for x in t.nodes() if x.kids and x is not t]
    was = [x.obj.get_world_transform() for x in inner]
    pl = Place(w, t.obj, w.case["at"])
    q = w.vec("q", lo=-5, hi=5)
    h = w.arr([[q[0]], [q[1]], [q[2]], [1.0]])
    for j, (x, m) in enumerate(zip(t.leaves(), pts)):
        a = [sum(m[i, k] * v for k, v in enumerate(q + [1.0])) for i in range(3)]
        now = x.obj.to_world_coordinates(h)
        w.check(f"part {j} is moved like the whole", alleq([now[i, 0] for i in range(3)], pl.point(a)))
        back = x.obj.to_object_coordinates(now)
        w.check(f"part {j}: object coordinates are the inverse", alleq([back[i, 0] for i in range(3)], q))
    for j, (x, m) in enumerate(zip(inner, was)):
        a = [sum(m[i, k] * v for k, v in enumerate(q + [1.0])) for i in range(3)]
        now = x.obj.to_world_coordinates(h)
        w.check(f"inner composite {j} is moved like the whole", alleq([now[i, 0] for i in range(3)], pl.point(a)))
    a = [sum(own[i, k] * v for k, v in enumerate(q + [1.0])) for i in range(3)]
    now = t.obj.to_world_coordinates(h)
    w.check("the whole has the placement", alleq([now[i, 0] for i in range(3)], pl.point(a)))


def hits(w):
    """hits of a ray that is moved along with the composite stay the same"""
    t = Tree(w, w.case["t"])
    p = [w.real("px", -10, 10), 0.0, 0.0] if w.case.get("flat") else w.point("p")
    d = list(w.case.get("dir", (1.0, 0.0, 0.0)))
    for i in (1, 2):  # not along a face of the slabs
        w.assume(Or(le(p[i], -1.001), And(ge(p[i], -0.999), le(p[i], 0.999)), ge(p[i], 1.001)))
    distinct(w, t, w.rays([p], [d]))
    h0, i0 = t.obj.intersect(w.rays([p], [d]))
    pl = Place(w, t.obj, w.case["at"])
    h1, i1 = t.obj.intersect(w.rays([pl.point(p)], [pl.vector(d)]))
    k = 2 * len(t.leaves())
    for i in range(k):
        w.check(f"hit {i} is the same", Or(And(isinf(h0[i, 0]), isinf(h1[i, 0])), eq(h0[i, 0], h1[i, 0])))
        w.check(f"hit {i} is on the same part", Or(isinf(h0[i, 0]), eq(i0[i, 0], i1[i, 0])))


def parts(w):
    """after any history of moves of parts and of the whole, the hits are those of the solid as it now is"""
    t = Tree(w, w.case["t"])
    for i, (path, kind) in enumerate(w.case["do"]):
        t.move(path, kind, f"h{i}")
    p = w.point("p")
    d = list(w.case.get("dir", (1.0, 0.0, 0.0)))
    u = w.real("u", -30, 30)
    h, _ = t.obj.intersect(w.rays([p], [d]))
    k = 2 * len(t.leaves())
    w.observe("hits", [h[j, 0] for j in range(k)])
    parity(w, [h[j, 0] for j in range(k)], u, "", t, along(p, d, u))


B2 = [(o, "box", "box") for o in OPS]
S2 = [(o, "slab", "slab") for o in OPS]
B3 = [("or", "slab", ("sub", "slab", "slab")), ("sub", ("or", "slab", "slab"), "slab"), ("and", ("or", "slab", "slab"), "slab")]
HARNESSES = [
    Harness("follow", follow, [dict(t=t, at=a) for t, a in zip((B2[0], B2[1], B2[2], ("or", "ball", ("sub", "box", "rod")), ("and", ("or", "ball", "rod"), "box")), ("mxm", "y", "uz", "zmx", "sm"))]
            + [dict(t=B2[0], at=a) for a in ("m", "s", "x", "z")]),
    Harness("hits", hits, [dict(t=t, at=a) for t in S2 for a in ("m", "S", "X", "Y", "Z", "Xm")] + [dict(t=t, at=a) for t in B3 for a in ("m", "XmS")]),
    Harness("parts", parts, [dict(t=t, do=h) for t in B2 for h in ([("0", "m")], [("1", "m")], [("1", "Z")], [("", "m"), ("1", "m")], [("1", "m"), ("", "X"), ("0", "m")])]
            + [dict(t=t, do=h) for t in B3[:1] for h in ([("10", "m")], [("11", "m"), ("0", "m")], [("", "Z"), ("11", "m")])]
            + [dict(t=t, do=h) for t in B3[1:] for h in ([("00", "m")], [("01", "m"), ("1", "m")], [("0", "m"), ("01", "m"), ("", "m")])]),
]
