from props.csgs import *

PROPERTY = "C07"
BOUNDS = ("composites of two to three cuboids and balls nested up to two deep (four, nested up to three deep, in the thorough tier), in any relative position with the surface crossings "
          "of different parts at least 1e-3 apart; rays along x in both directions with origin within 10; up to three inversions and resets of the composite's normals")


def normals(w):
    t = Tree(w, w.case["t"])
    c = w.case
    if "pre" in c:
        # history on the whole composite before it is used
        for x in c["pre"]:
            t.obj.invert_normals() if x == "i" else t.obj.reset_normals()
    flipped = False
    for x in c.get("pre", ""):
        flipped = (not flipped) if x == "i" else False
    p = [w.real("px", -10, 10), 0.0, 0.0] if c.get("flat", True) else w.point("p")
    s = c.get("d", 1.0)
    d = [s, 0.0, 0.0]
    rays = w.rays([p], [d])
    L = [x.obj for x in t.leaves()]
    own = distinct(w, t, rays)
    sid = t.obj.surface_ids
    w.check("the composite lists every part once, with its own id", true(len(sid) == len(L) and all(any(x[1] is o and x[0] == o.get_id() for x in sid) for o in L)
                                                                      and len(set(x[0] for x in sid)) == len(L)))
    h, ids = t.obj.intersect(rays)
    w.observe("hits", [h[i, 0] for i in range(2 * len(L))])
    n = []
    for o, (a, b) in zip(L, own):
        fin = []
        for x in (a, b):
            pos = w.arr([[p[0] + x * d[0]], [p[1]], [p[2]], [1.0]])
            fin.append(o.get_world_normals(pos)[0, 0] * s)
        n.append(fin)
    w.cover("hit", isfinite(h[0, 0]))
    for i in range(2 * len(L)):
        x, k = h[i, 0], ids[i, 0]
        w.check(f"hit {i} names one of the parts", Or(isinf(x), *[eq(k, o.get_id()) for o in L]))
        outer = (i % 2 == 0) != flipped
        for j, o in enumerate(L):
            good = [And(eq(x, own[j][e]), lt(n[j][e], 0) if outer else gt(n[j][e], 0)) for e in (0, 1)]
            w.check(f"hit {i} on part {j}: lies on that part, and its normal points {'in' if flipped else 'out'} of the composite", Or(isinf(x), ne(k, o.get_id()), *good))


T3 = [(o, "slab", (p, "slab", "slab")) for o in OPS for p in OPS] + [(o, (p, "slab", "slab"), "slab") for o in OPS for p in OPS]
DEEP = [("sub", "slab", ("sub", "slab", ("sub", "slab", "slab"))), ("and", ("sub", "slab", "slab"), ("or", "slab", "slab"))]
T2 = [(o, a, b) for o in OPS for a, b in (("slab", "slab"), ("bead", "slab"), ("slab", "bead"))]
HARNESSES = [Harness("normals", normals, [dict(t=t) for t in T2] + [dict(t=t, d=-1.0) for t in T2 if "bead" not in t] + [dict(t=t) for t in T3]
                     + [dict(t=t, pre=x) for t in (T2[0], T2[6], T3[8], T3[17]) for x in ("i", "ii", "r", "ir", "ri", "iri")], thorough_cases=[dict(t=t) for t in DEEP] + [dict(t=t, pre=x) for t in T3 for x in ("i", "ii", "r", "ir", "ri", "iii")])]
