from props.common import *

PROPERTY = "C28"
BOUNDS = "ray sets of one to three rays with arbitrary contents; one field written per step, by assignment, in place, or through a column mask"
F = ("generation", "intensity", "wavelength", "index", "id")


def make(w, k):
    rs = w.m.pyrayt.RaySet(k)
    val = {f: [w.real(f"{f[:3]}{i}", -100, 100) for i in range(k)] for f in F}
    pos = [[w.real(f"r{a}{j}_{i}", -10, 10) for j in range(4)] for i in range(k) for a in (0,)]
    dirs = [[w.real(f"d{j}_{i}", -1, 1) for j in range(4)] for i in range(k)]
    rs.rays = w.arr([[[p[j] for p in pos] for j in range(4)], [[d[j] for d in dirs] for j in range(4)]])
    for f in F:
        setattr(rs, f, w.arr(val[f]))
    return rs, val, pos, dirs


def same(w, rs, val, pos, dirs, cols=None, tag=""):
    n = rs.shape[-1]
    cols = list(range(n)) if cols is None else cols
    w.check(tag + "number of rays", true(rs.n_rays == len(cols) and rs.rays.shape == (2, 4, len(cols))))
    for f in F:
        x = getattr(rs, f)
        w.check(tag + f"{f} holds", And(*[eq(x[o], val[f][i]) for o, i in enumerate(cols)]))
    w.check(tag + "positions hold", And(*[eq(rs.rays[0, j, o], pos[i][j]) for o, i in enumerate(cols) for j in range(4)]))
    w.check(tag + "directions hold", And(*[eq(rs.rays[1, j, o], dirs[i][j]) for o, i in enumerate(cols) for j in range(4)]))


def fields(w):
    """what was written to a field is what it holds, and nothing else"""
    k = w.case["n"]
    rs, val, pos, dirs = make(w, k)
    same(w, rs, val, pos, dirs)
    f, how = w.case["f"], w.case["how"]
    x = w.real("new", -100, 100)
    if f == "rays":
        pos[0][1] = x
        rs.rays[0, 1, 0] = x
    elif f == "dirs":
        for j in range(4):
            dirs[0][j] = x
        rs.rays[1, :, 0] = x
    elif how == "all":
        setattr(rs, f, x)
        val[f] = [x] * k
    elif how == "one":
        getattr(rs, f)[k - 1] = x
        val[f][k - 1] = x
    else:
        setattr(rs, f, getattr(rs, f) + x)
        val[f] = [v + x for v in val[f]]
    same(w, rs, val, pos, dirs, tag="after the write: ")


def defaults(w):
    k = w.case["n"]
    rs = w.m.pyrayt.RaySet(k)
    w.check("rays start at the origin with no direction", And(*[eq(rs.rays[a, j, i], 1.0 if (a, j) == (0, 3) else 0.0) for a in range(2) for j in range(4) for i in range(k)]))
    w.check("full intensity", And(*[eq(rs.intensity[i], 100) for i in range(k)]))
    w.check("vacuum index", And(*[eq(rs.index[i], 1) for i in range(k)]))
    w.check("generation zero", And(*[eq(rs.generation[i], 0) for i in range(k)]))
    w.check("distinct ids", And(*[eq(rs.id[i], i) for i in range(k)]))
    w.check("metadata has one row per field", true(tuple(rs.metadata.shape) == (len(rs.fields), k)))


def subset(w):
    """selecting columns keeps each ray's data together"""
    rs, val, pos, dirs = make(w, 3)
    mask = w.case["mask"]
    cols = [i for i in range(3) if mask[i]]
    sub = rs[..., w.np.array([bool(m) for m in mask])]
    same(w, sub, val, pos, dirs, cols, "selected: ")
    if cols:
        sub.intensity = -1.0
        sub.rays[0] = 0
    same(w, rs, val, pos, dirs, tag="original: ")
    cp = rs.copy()
    cp.index = 7.0
    cp.rays[1] = 0
    same(w, rs, val, pos, dirs, tag="after editing a copy: ")


def joined(w):
    """stacking sets side by side keeps each ray's data together"""
    a, va, pa, da = make(w, 1)
    b = w.m.pyrayt.RaySet(2)
    x = w.real("x", -100, 100)
    b.wavelength = x
    j = w.np.hstack([a, b]).view(w.m.pyrayt.RaySet)
    w.check("all rays", true(j.n_rays == 3))
    w.check("first set kept", And(*[eq(getattr(j, f)[0], va[f][0]) for f in F], *[eq(j.rays[0, k, 0], pa[0][k]) for k in range(4)]))
    w.check("second set kept", And(*[eq(j.wavelength[i], x) for i in (1, 2)], *[eq(j.intensity[i], 100) for i in (1, 2)]))
    m = w.vec("m", 2, -5, 5)
    j.metadata = w.arr([[1.0, 2.0, 3.0]] * 4 + [[m[0], m[1], 0.0]])
    w.check("metadata writes the fields in order", And(eq(j.id[0], m[0]), eq(j.id[1], m[1]), eq(j.generation[2], 3), eq(j.index[1], 2)))
    w.check("writing metadata leaves the rays", And(*[eq(j.rays[0, k, 0], pa[0][k]) for k in range(4)]))


HARNESSES = [
    Harness("fields", fields, [dict(n=n, f=f, how=h) for f in F for n, h in ((1, "all"), (2, "one"), (3, "add"))] + [dict(n=2, f=f, how="") for f in ("rays", "dirs")]),
    Harness("defaults", defaults, [dict(n=n) for n in (1, 2, 3)]),
    Harness("subset", subset, [dict(mask=m) for m in ((1, 0, 1), (0, 1, 0), (0, 1, 1), (0, 0, 0))]),
    Harness("joined", joined),
]
