from props.csgs import *

PROPERTY = "C06"
BOUNDS = ("composites of two to four solids (cuboids with any corners, balls, rods), nested up to three deep, in any relative position (apart, "
          "touching, overlapping, enclosed); one or two rays, along each axis in both directions, and along listed oblique directions "
          "against cuboids; ray origins within 10, ray parameter within 30, sizes 0.1..10")
LEVEL = "model_checking"


def rayset(w, n):
    c = w.case
    ps, ds, us = [], [], []
    for i in range(n):
        ps.append([w.real(f"p{i}x", -10, 10), 0.0, 0.0] if c.get("flat") else w.point(f"p{i}"))
        if "dir" in c:
            d = list(c["dir"])
        else:
            d = [0.0] * 3
            d[c.get("ax", 0)] = c.get("d", 1.0)
        ds.append(d)
        us.append(w.real(f"u{i}", -30, 30))
    return ps, ds, us


def hits(w):
    t = Tree(w, w.case["t"])
    n = w.case.get("n", 1)
    ps, ds, us = rayset(w, n)
    h, ids = t.obj.intersect(w.rays(ps, ds))
    k = 2 * len(t.leaves())
    w.check("one column of hits per ray", true(tuple(h.shape) == (k, n) and tuple(ids.shape) == (k, n)))
    for i in range(n):
        w.observe(f"hits {i}", [h[j, i] for j in range(k)])
        hh = [h[j, i] for j in range(k)]
        w.check(f"ray {i}: hits are sorted, no nan", And(*[Not(isnan(x)) for x in hh], *[Or(isinf(hh[j + 1]), le(hh[j], hh[j + 1])) for j in range(k - 1)]))
        w.cover("hit", isfinite(hh[0]))
        parity(w, hh, us[i], f"ray {i}: ", t, along(ps[i], ds[i], us[i]))


def deriving(a, b, c=None):
    c = c or a
    return [(o, a, (p, b, c)) for o in OPS for p in OPS] + [(o, (p, a, b), c) for o in OPS for p in OPS]


BOX2 = [(o, "box", "box") for o in OPS]
MIX = [(o, a, b) for o in OPS for a, b in (("bead", "slab"), ("bead", "bead"), ("slab", "rod"))]
DEEP4 = [("or", ("and", "slab", "slab"), ("sub", "slab", "slab")), ("sub", ("or", "slab", "slab"), ("or", "slab", "slab")), ("and", "slab", ("sub", "slab", ("or", "slab", "slab")))]
HARNESSES = [
    Harness("hits", hits, [dict(t=t, **x) for t in BOX2 for x in (dict(), dict(ax=1, d=-1.0), dict(ax=2, d=0.5))]
            + [dict(t=t) for t in deriving("slab", "slab")] + [dict(t=t, n=2) for t in (("or", "slab", "slab"), ("and", "slab", "slab"), ("sub", "slab", "slab"))]
            + [dict(t=DEEP4[0])],
            thorough_cases=[dict(t=t) for t in deriving("box", "box")] + [dict(t=t) for t in DEEP4[1:]]),
    Harness("oblique", hits, [dict(t=t, dir=d) for t in BOX2 for d in ((1.0, -0.5, 0.0), (0.5, 1.0, -2.0), (-1.0, -1.0, 1.0))]),
    Harness("flat", hits, [dict(t=t, flat=1) for t in MIX]),
    Harness("curved", hits, [dict(t=t) for t in MIX], policy="prune", timeout=60000),
]
