from props.common import *

PROPERTY = "C15"
BOUNDS = ("one or two pinned objects of every kind (solid, plane, source, camera, group of two, nested group, CSG composite, nested CSG), placed before "
          "and inside the block by up to two (three for plain objects) moves, rotations by any angle and scales 0.25..4; blocks that end normally or by "
          "an exception; nested blocks; objects pinned together are not parts of one another")


def leafs(o):
    """every object whose transform can be observed"""
    if hasattr(o, "data"):
        return [o] + [x for c in o.data for x in leafs(c)]
    if hasattr(o, "surface_ids"):
        return [o] + [x[1] for x in o.surface_ids if x[1] is not o]
    return [o]


def build(w, kind, n):
    g = w.m.g3d
    if kind == "solid":
        return g.Cuboid()
    if kind == "plane":
        return g.XYPlane()
    if kind == "source":
        return w.m.comp.LineOfRays()
    if kind == "camera":
        return g.OrthographicCamera(2, 1, 1)
    if kind in ("group", "nest"):
        a, b = g.Sphere(1), w.m.comp.LineOfRays()
        a.move(*w.vec(n + "in", lo=-5, hi=5))
        r = g.ObjectGroup([a, b])
        if kind == "nest":
            r = g.ObjectGroup([g.Cuboid(), r])
        return r
    a, b = g.Sphere(1), g.Cuboid()
    b.move(*w.vec(n + "in", lo=-5, hi=5))
    r = {"diff": g.csg.difference, "and": g.csg.intersect, "or": g.csg.union, "deep": g.csg.intersect}[kind](a, b)
    if kind == "deep":
        r = g.csg.difference(g.Sphere(2), r)
    return r


def state(w, o):
    return [[x.get_world_transform()[i, j] for i in range(4) for j in range(4)] + [x.get_object_transform()[i, j] for i in range(4) for j in range(4)]
            + [x.get_position()[i] for i in range(4)] for x in leafs(o)]


def restored(w, o, before, tag):
    now = state(w, o)
    w.check(tag, And(*[alleq(a, b) for a, b in zip(before, now)], true(len(before) == len(now))))


def body(w, objs, n=""):
    for i, o in enumerate(objs):
        Place(w, o, w.case["in"], f"in{n}{i}")


class Boom(Exception):
    pass


def block(w):
    objs = [build(w, k, f"o{i}") for i, k in enumerate(w.case["k"])]
    free = w.m.g3d.Sphere(1)
    for i, o in enumerate(objs):
        Place(w, o, w.case["pre"], f"pre{i}")
    before = [state(w, o) for o in objs]
    how = w.case.get("how", "")
    P = w.m.pyrayt.pin(*objs)

    def run():
        with P as got:
            w.check("the block is given the objects", true(len(got) == len(objs) and all(a is b for a, b in zip(got, objs))))
            body(w, objs)
            free.move(1, 2, 3)
            if how == "raise":
                raise Boom()

    if how == "raise":
        w.check("the exception is passed on", true(w.raises(run, Boom)))
    else:
        run()
    for o, b in zip(objs, before):
        restored(w, o, b, "placement is restored")
    w.check("objects that are not pinned stay where they were put", alleq([free.get_position()[i] for i in range(3)], [1, 2, 3]))
    if how == "twice":
        Place(w, objs[0], w.case["pre"], "mid")
        before = state(w, objs[0])
        others = [state(w, o) for o in objs[1:]]
        with P:
            body(w, objs, "b")
        restored(w, objs[0], before, "the second use restores the placement at its own start")
        for o, b in zip(objs[1:], others):
            restored(w, o, b, "and so for the others")


def nested(w):
    a = build(w, w.case["k"][0], "a")
    Place(w, a, w.case["pre"], "pre")
    b0 = state(w, a)
    with w.m.pyrayt.pin(a):
        Place(w, a, w.case["in"], "o")
        b1 = state(w, a)
        with w.m.pyrayt.pin(a):
            Place(w, a, w.case["in"], "i")
        restored(w, a, b1, "inner block")
        Place(w, a, "m", "p")
    restored(w, a, b0, "outer block")


def hits(w):
    """after the block the object is hit as before"""
    a = build(w, w.case["k"][0], "a")
    Place(w, a, w.case["pre"], "pre")
    p, d = w.point("p"), w.vec("d", lo=-2, hi=2)
    before, _ = a.intersect(w.rays([p], [d]))
    with w.m.pyrayt.pin(a):
        Place(w, a, w.case["in"], "o")
    after, _ = a.intersect(w.rays([p], [d]))
    w.check("same hits", And(*[Or(eq(before[i, 0], after[i, 0]), And(isinf(before[i, 0]), isinf(after[i, 0]))) for i in range(2)]))


KINDS = ["solid", "plane", "source", "camera", "group", "nest", "diff", "and", "or", "deep"]
HARNESSES = [
    Harness("block", block, [dict(k=(k,), pre="m" if i % 2 else "z", **{"in": x}) for i, k in enumerate(KINDS) for x in ("m", "y", "s")]
            + [dict(k=("solid",), pre=p, **{"in": x}) for p, x in (("szm", "x"), ("m", "zmy"), ("ux", "ms"), ("", "mxm"))]
            + [dict(k=("solid", "group"), pre="m", **{"in": "x"}), dict(k=("source", "diff", "plane"), pre="y", **{"in": "m"}), dict(k=("group", "deep"), pre="", **{"in": "zm"})]
            + [dict(k=(k, "solid"), pre="m", how="raise", **{"in": "xm"}) for k in ("solid", "group", "diff")]
            + [dict(k=(k, "source"), pre="m", how="twice", **{"in": "z"}) for k in ("solid", "group", "and")]),
    Harness("nested", nested, [dict(k=(k,), pre="m", **{"in": "x"}) for k in ("solid", "group", "diff")]),
    Harness("hits", hits, [dict(k=(k,), pre="m", **{"in": "z"}) for k in ("plane",)], policy="prune"),
]
