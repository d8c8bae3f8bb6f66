from props.traces import *
from props import csgs

PROPERTY = "C12"
BOUNDS = ("one or two rays (three in one case) with any origin within +-10 along listed directions (axis parallel and oblique, any length 0.5..2 in one case), "
          "one to three components in any order: planes, spheres and cuboids of any size at any position, and composites of two parts; "
          "surfaces between 0.0001 and 40 units ahead")
ASSUMPTIONS = ["ray directions are fixed rational vectors; origins, sizes and positions are symbolic"]
DIRS = {"x": (1.0, 0.0, 0.0), "-x": (-1.0, 0.0, 0.0), "y": (0.0, 1.0, 0.0), "xy": (0.6, 0.8, 0.0), "-xy": (-0.8, 0.6, 0.0), "xyz": (0.48, -0.6, 0.64), "-xz": (-0.28, 0.0, 0.96)}
EPS = 1e-4


def nearest(w):
    k = w.case
    mats = [w.m.mat.absorber, w.m.mat.mirror, w.m.mat.glass["ideal"]]
    cs = [Comp(w, kind, f"c{i}", mats[i]) for i, kind in enumerate(k["comps"])]
    order = k.get("order", range(len(cs)))
    ds = [DIRS[d] for d in k["dirs"]]
    if k.get("len"):
        ds = [[x * s for x in d] for d, s in zip(ds, k["len"])]
    ps = [w.point(f"o{i}") for i in range(len(ds))]
    t = w.m.pyrayt.RayTracer([Src(w, [p], [d]) for p, d in zip(ps, ds)] if k.get("apart") else [Src(w, ps, ds)], [cs[i].obj for i in order], generation_limit=1)
    rs = rows(t.trace())
    by = {}
    for r in rs:
        by.setdefault(int(r["id"]), []).append(r)
    w.check("no rays out of nowhere", true(set(by) <= set(range(len(ds)))))
    for i, (p, d) in enumerate(zip(ps, ds)):
        u = w.real(f"u{i}", 0, 40)
        here = along(p, d, u)
        hit = And(gt(u, EPS), Or(*[c.on(here) for c in cs]))
        mine = by.get(i, [])
        if not mine:
            w.check(f"ray {i}: lost only when nothing is ahead", Not(hit))
            continue
        w.check(f"ray {i}: one row", true(len(mine) == 1))
        r = mine[0]
        e = pt(r, "1")
        D = w.dot([e[j] - p[j] for j in range(3)], d) / w.dot(d, d)
        w.check(f"ray {i}: starts at its source", alleq(pt(r, "0"), p))
        w.check(f"ray {i}: ends ahead on its own line", And(alleq(e, along(p, d, D)), gt(D, 0)))
        w.check(f"ray {i}: ends on the surface it names", Or(*[And(eq(r["surface"], c.id), c.on(e)) for c in cs]))
        w.check(f"ray {i}: nothing nearer", Not(And(hit, lt(u, D - EPS))))


def composite(w):
    """composites: the reported part and distance are the composite's nearest hit ahead"""
    k = w.case
    m = w.m
    a = m.g3d.Cuboid((-1, -2, -1), (1, 2, 1)).move(*w.vec("a", lo=-3, hi=3))
    b = m.g3d.Cuboid((-1, -1, -2), (2, 1, 2)).move(*w.vec("b", lo=-3, hi=3))
    obj = getattr(m.g3d.csg, k["op"])(a, b)
    comps = [obj]
    if k.get("extra"):
        comps.insert(k["extra"] - 1, m.g3d.Cuboid((-1, -1, -1), (1, 1, 1)).move(*w.vec("c", lo=-3, hi=3)))
    p, d = w.point("o"), DIRS[k["dir"]]
    rays = w.rays([p], [d])
    al = []
    for c in comps:
        h, s = c.intersect(rays)
        al += [(h[i, 0], s[i, 0]) for i in range(h.shape[0])]
    for c in comps:
        for _, s in c.surface_ids:
            s.material = m.mat.absorber
    rs = rows(m.pyrayt.RayTracer(Src(w, [p], [d]), comps, generation_limit=1).trace())
    ahead = lambda h: And(gt(h, EPS), lt(h, 100))
    if not rs:
        w.check("lost only when nothing is ahead", And(*[Not(ahead(h)) for h, _ in al]))
        return
    r = rs[0]
    D = w.dot([pt(r, "1")[j] - p[j] for j in range(3)], d)
    w.check("one row, ahead, on the line", And(true(len(rs) == 1), gt(D, 0), alleq(pt(r, "1"), along(p, d, D))))
    w.check("its end and part are a hit of a component", Or(*[And(eq(h, D), eq(s, r["surface"])) for h, s in al]))
    w.check("nothing nearer", And(*[Not(And(ahead(h), lt(h, D - EPS))) for h, s in al]))


C = dict
HARNESSES = [
    Harness("flat", nearest, [C(comps=["plane"], dirs=["x"]), C(comps=["plane", "plane"], dirs=["xy"]), C(comps=["box"], dirs=["xyz"]), C(comps=["box", "plane"], dirs=["-x"]),
                              C(comps=["plane"] * 3, dirs=["xyz"], order=(2, 0, 1)), C(comps=["plane"], dirs=["x", "xy", "-xz"]), C(comps=["plane", "plane"], dirs=["xyz", "-xy"], apart=True),
                              C(comps=["plane", "plane"], dirs=["xy", "x"], len=[2.0, 0.5])], policy="merge", timeout=60000,
            thorough_cases=[C(comps=["box", "box"], dirs=["xyz"]), C(comps=["plane", "plane"], dirs=["x", "xy", "-x"]), C(comps=["plane"] * 4, dirs=["xyz"])]),
    Harness("round", nearest, [C(comps=["ball", "plane"], dirs=["x"]), C(comps=["plane", "ball"], dirs=["-xy"]), C(comps=["ball", "ball"], dirs=["y"]), C(comps=["plane", "ball"], dirs=["xy"], len=[2.0]),
                               C(comps=["plane!", "ball!"], dirs=["x", "-x"])], policy="fork", maxpaths=2000,
            thorough_cases=[C(comps=["ball", "box"], dirs=["x"]), C(comps=["box", "ball"], dirs=["xyz"]), C(comps=["plane", "ball", "plane"], dirs=["-xz"]), C(comps=["plane", "ball!"], dirs=["x", "-x"])]),
    Harness("composite", composite, [C(op=op, dir=d) for op, d in (("union", "x"), ("intersect", "xy"), ("difference", "xyz"))] + [C(op="difference", dir="x", extra=1), C(op="union", dir="-x", extra=2)],
            policy="merge", timeout=60000, thorough_cases=[C(op=op, dir="-xy", extra=e) for op in ("union", "intersect", "difference") for e in (1, 2)]),
]
