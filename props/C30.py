from props.traces import *

PROPERTY = "C30"
BOUNDS = ("batches of two or three rays whose directions mix axis-parallel, oblique and arbitrary ones, origins within +-10; every primitive with arbitrary sizes "
          "under the listed placements, composites and optical components of fixed sizes; one call repeated twice; two sources traced together and apart")
DIRS = {"x": [1.0, 0.0, 0.0], "z": [0.0, 0.0, 1.0], "-z": [0.0, 0.0, -1.0], "xz": [0.6, 0.0, 0.8], "yz": [0.0, -0.6, 0.8], "xyz": [0.48, -0.6, 0.64]}


def thing(w, kind):
    g = w.m.g3d
    c = w.m.comp
    if kind == "ball":
        return g.Sphere(w.real("r", 0.1, 10))
    if kind == "box":
        lo, sz = w.vec("lo", lo=-5, hi=5), w.vec("sz", lo=0.1, hi=5)
        return g.Cuboid(lo, [a + b for a, b in zip(lo, sz)])
    if kind == "rod":
        h = w.real("h", -5, 5)
        return g.Cylinder(w.real("r", 0.1, 10), h, h + w.real("len", 0.1, 10))
    if kind == "bowl":
        return w.m.wo.Paraboloid(w.real("f", 0.1, 10), w.real("h", 0.1, 10))
    if kind == "sheet":
        return g.XYPlane(w.real("a", 0.1, 10), w.real("b", 0.1, 10))
    if kind == "holed":
        return w.m.csg.difference(g.Cuboid((-2, -2, -2), (2, 2, 2)), g.Cuboid((-3, -1, -1), (w.real("e", -1, 1), 1, 1)))
    if kind == "two":
        return w.m.csg.union(g.Cuboid((-2, -2, -2), (w.real("e", -1, 1), 2, 2)), g.Cuboid((-1, -1, -3), (3, 1, 1)))
    if kind == "common":
        return w.m.csg.intersect(g.Cuboid((-2, -2, -2), (w.real("e", 0, 1), 2, 2)), g.Cuboid((-1, -1, -3), (3, 1, 1)))
    if kind == "prism":
        return c.equilateral_prism(2, 3)
    if kind == "stop":
        return c.aperture((4, 2), (1, 1))
    if kind == "lens":
        return c.biconvex_lens(8, 8, 1, aperture=2)
    raise KeyError(kind)


def way(w, k, i):
    """an arbitrary direction (exact zeros only where the pattern says so) or a listed one"""
    return direction(w, f"d{i}", k) if not isinstance(k, str) else DIRS[k]


def same(w, label, a, b, rows_=None):
    w.check(label, And(true(tuple(a.shape) == tuple(b.shape)), alleq(a, b)) if tuple(a.shape) == tuple(b.shape) else true(False))


def batch(w):
    """each ray of a batch gets what it gets alone, and nothing that was passed in changes"""
    k = w.case
    o = thing(w, k["of"])
    Place(w, o, k.get("at", ""))
    ps = [(w.point(f"p{i}") if "free" not in k else [w.real(f"p{i}x", -10, 10), w.real(f"p{i}y", -10, 10), 0.25]) if i == k.get("free", i) else [0.25 - i, 0.5, -0.125] for i in range(len(k["dirs"]))]
    ds = [way(w, x, i) for i, x in enumerate(k["dirs"])]
    r = w.rays(ps, ds)
    keep = r.copy()
    h, s = o.intersect(r)
    w.check("one column of hits and surfaces per ray", true(h.shape[-1] == len(ps) and tuple(h.shape) == tuple(s.shape)))
    same(w, "the rays are left as they were", r, keep)
    for i in range(len(ps)):
        h1, s1 = o.intersect(w.rays([ps[i]], [ds[i]]))
        w.check(f"ray {i} hits what it hits alone", alleq(h[:, i], h1[:, 0]) if h.shape[0] == h1.shape[0] else true(False))
        w.check(f"ray {i} names the surface it names alone", And(*[Or(isinf(h1[j, 0]), eq(s[j, i], s1[j, 0])) for j in range(h1.shape[0])]) if h.shape[0] == h1.shape[0] else true(False))
    h[...] = 0
    h2, s2 = o.intersect(keep)
    h3, s3 = o.intersect(r)
    same(w, "asking again gives the same answer", h2, h3)
    w.check("the answer is the caller's to change", And(*[alleq(h2[:, i], o.intersect(w.rays([ps[i]], [ds[i]]))[0][:, 0]) for i in range(1)]))


def normals(w):
    """normals of several points at once are those of the points alone"""
    k = w.case
    o = None if k["of"] == "box" else thing(w, k["of"])
    n = k.get("n", 2)
    ps = [w.point(f"p{i}") for i in range(n)]
    if k["of"] == "box":
        ps = [[2.0, p[1], p[2]] for p in ps]
        o = w.m.g3d.Cuboid((-1, w.real("b", -20, -10), -20), (2, 20, w.real("t", 10, 20)))
        ps[-1] = [ps[-1][1] / 16, 20.0, ps[-1][2]]
    for p in ps if k["of"] != "box" else []:
        w.assume(And(*[Or(ge(x, 0.01), le(x, -0.01)) for x in p]))
    pl = Place(w, o, k.get("at", ""))
    ps = [pl.point(p) for p in ps]
    pts = w.arr([[p[i] for p in ps] for i in range(3)] + [[1.0] * n])
    keep = pts.copy()
    a = o.get_world_normals(pts)
    same(w, "the points are left as they were", pts, keep)
    for i in range(n):
        b = o.get_world_normals(w.arr([[x] for x in ps[i]] + [[1.0]]))
        w.check(f"point {i} has the normal it has alone", alleq(a[:, i], b[:, 0]))
    same(w, "asking again gives the same answer", o.get_world_normals(pts), a)


def ops(w):
    """reflection and refraction act on each ray by itself"""
    n = 2
    v = [w.unit(f"v{i}") for i in range(n)]
    m = [w.unit(f"n{i}") for i in range(n)]
    n1 = [w.real(f"n1_{i}", 1, 4) for i in range(n)]
    n2 = [w.real(f"n2_{i}", 1, 4) for i in range(n)]
    cols = lambda xs: w.arr([[x[j] for x in xs] for j in range(3)] + [[0.0] * len(xs)])  # noqa
    V, N, I, O = cols(v), cols(m), w.arr(n1), w.arr(n2)
    kv, kn, ki, ko = V.copy(), N.copy(), I.copy(), O.copy()
    f = w.m.ops.reflect if w.case["op"] == "reflect" else w.m.ops.refract
    out = f(V, N) if w.case["op"] == "reflect" else f(V, N, I, O)
    for lab, a, b in (("vectors", V, kv), ("normals", N, kn), ("first indices", I, ki), ("second indices", O, ko)):
        same(w, f"the {lab} are left as they were", a, b)
    for i in range(n):
        if w.case["op"] == "reflect":
            w.check(f"ray {i} reflects as it does alone", alleq(out[:, i], f(cols([v[i]]), cols([m[i]]))[:, 0]))
        else:
            a, b = f(cols([v[i]]), cols([m[i]]), w.arr([n1[i]]), w.arr([n2[i]]))
            w.check(f"ray {i} refracts as it does alone", alleq(out[0][:, i], a[:, 0]))
            w.check(f"ray {i} ends in the medium it ends in alone", eq(out[1][i], b[0]))


def material(w):
    """a material treats each ray of a set by itself and keeps the fields it has no business with"""
    k = w.case
    n = 2
    o = w.m.g3d.Cuboid((-1, -2, -3), (1, 2, 3)) if k.get("box") else w.m.g3d.XYPlane(20, 20)
    mat = w.m.mat.mirror if k["mat"] == "mirror" else w.m.mat.absorber if k["mat"] == "absorber" else w.m.mat.glass[k["mat"]]
    ps = [[w.real(f"p{i}x", -9, 9), w.real(f"p{i}y", -9, 9), 0.0] for i in range(n)]
    ds = [[0.6, 0.0, 0.8], [0.0, -0.28, -0.96]]
    wl = [w.real(f"w{i}", 0.4, 0.75) for i in range(n)]
    ix = [w.real(f"i{i}", 1, 2) for i in range(n)]
    it = [w.real(f"t{i}", 0, 100) for i in range(n)]

    def make(sel):
        r = w.m.pyrayt.RaySet(len(sel))
        r.rays = w.rays([ps[i] for i in sel], [ds[i] for i in sel])
        r.wavelength, r.index, r.intensity = w.arr([wl[i] for i in sel]), w.arr([ix[i] for i in sel]), w.arr([it[i] for i in sel])
        r.id, r.generation = w.arr([7.0 + i for i in sel]), w.arr([2.0 + i for i in sel])
        return r

    both = mat.trace(o, make([0, 1]))
    for i in range(n):
        one = mat.trace(o, make([i]))
        w.check(f"ray {i} leaves as it does alone", And(alleq(both.rays[:, :, i], one.rays[:, :, 0]), eq(both.index[i], one.index[0])))
        w.check(f"ray {i} keeps its place, brightness, colour, number and generation",
                And(alleq(both.rays[0, :3, i], ps[i]), eq(both.intensity[i], it[i]), eq(both.wavelength[i], wl[i]), eq(both.id[i], 7.0 + i), eq(both.generation[i], 2.0 + i)))


def apart(w):
    """tracing sources together gives each the segments it gets by itself; tracing again gives the same"""
    k = w.case
    g = w.m.g3d
    parts = dict(glass=lambda: g.Cuboid((-1, -2, -3), (1, 2, 3), material=w.m.mat.glass["ideal"]), mirror=lambda: g.XYPlane(20, 20, material=w.m.mat.mirror).rotate_y(90).move_x(4),
                 back=lambda: g.XYPlane(6, 20, material=w.m.mat.mirror).rotate_y(90).move_x(-3), dump=lambda: g.XYPlane(30, 20, material=w.m.mat.absorber).rotate_y(90).move_x(-5),
                 ball=lambda: g.Sphere(1.5, material=w.m.mat.mirror))
    cs = [parts[x]() for x in k["comps"]]
    ds = [DIRS[d] if d in DIRS else [-x for x in DIRS[d[1:]]] for d in k["dirs"]]
    ps = [[-2.0 - 0.5 * i, w.real(f"o{i}y", -4, 4), 0.25] for i in range(len(ds))]
    srcs = [Src(w, [p], [d]) for p, d in zip(ps, ds)]
    kept = [s.a.copy() for s in srcs]
    T = lambda s: w.m.pyrayt.RayTracer(s, cs, generation_limit=k.get("limit", 3))  # noqa
    t = T(srcs)
    got = rows(t.trace())
    for i, s in enumerate(srcs):
        same(w, f"source {i} keeps its rays", s.a, kept[i])
        mine = [r for r in got if int(r["id"]) == i]
        one = rows(T([s]).trace())
        w.check(f"source {i} has as many segments as by itself", true(len(mine) == len(one)))
        if len(mine) == len(one):
            for a, b in zip(mine, one):
                w.check(f"source {i}: segment as by itself", And(*[eq(a[c], b[c]) for c in COLS if c != "id"]))
    again = rows(t.trace())
    w.check("a second run gives as many segments", true(len(again) == len(got)))
    if len(again) == len(got):
        w.check("a second run gives the same segments", And(*[eq(a[c], b[c]) for a, b in zip(again, got) for c in COLS]))


A3 = (1, 1, 1)
MIX = [("x", "xyz", "z"), ("xyz", "-z"), ("yz", "x", "xz"), ("z", "xz")]
ANY = [("x", A3), (A3, "-z"), ((0, 0, 1), (1, 0, 1))]
KINDS = ("ball", "box", "rod", "bowl", "sheet")
PAIRS = [(d, f) for d in (("x", "xyz"), ("xz", "z")) for f in (0, 1)]
HARNESSES = [
    Harness("batch", batch, [dict(of=o, dirs=d) for o in KINDS for d in MIX] + [dict(of=o, dirs=d) for o in ("ball", "box", "sheet") for d in ANY] + [dict(of=o, dirs=("x", "xyz"), at="SYm") for o in KINDS],
            thorough_cases=[dict(of=o, dirs=d) for o in ("rod", "bowl") for d in ANY]),
    Harness("composite", batch, [dict(of=o, dirs=d, free=f) for o in ("holed", "two", "common") for d, f in PAIRS] + [dict(of="holed", dirs=("x", "xyz"), at="S", free=1)]
            + [dict(of="stop", dirs=("x", "xyz"), free=f) for f in (0, 1)] + [dict(of="prism", dirs=("x", "z"), free=f) for f in (0, 1)], policy="fork", maxpaths=1000),
    Harness("normals", normals, [dict(of=o, at=a) for o in KINDS for a in ("", "SYm")]),
    Harness("ops", ops, [dict(op="reflect"), dict(op="refract")]),
    Harness("material", material, [dict(mat=m) for m in ("mirror", "absorber", "ideal", "BK7")]),
    Harness("apart", apart, [dict(comps=("mirror", "dump"), dirs=("x", "xyz")), dict(comps=("glass", "mirror", "dump"), dirs=("x", "xz")), dict(comps=("back", "mirror"), dirs=("x", "xz", "-x"), limit=4),
                             dict(comps=("ball", "mirror"), dirs=("x", "-x"), limit=2)], policy="fork", maxpaths=1000),
]
