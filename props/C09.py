from props.common import *

PROPERTY = "C09"
BOUNDS = ("one to three vectors (components within 10) and unit normals per call, in every calling form: one vector with one normal, many "
          "vectors with one normal, many vectors with their own normals; three- and four-component columns")


def law(w, v, n, r, tag=""):
    k = w.dot(v, n)
    w.check(tag + "normal component flips", eq(w.dot(r, n), -k))
    w.check(tag + "tangential part is kept", And(*[eq(r[i] - w.dot(r, n) * n[i], v[i] - k * n[i]) for i in range(3)]))
    w.check(tag + "length is kept", eq(w.dot(r, r), w.dot(v, v)))


def single(w):
    v, n = w.vec("v"), w.unit("n")
    pad = [0.0] if w.case["dim"] == 4 else []
    vi, ni = w.arr(v + pad), w.arr(n + pad)
    r = w.m.g3d.reflect(vi, ni)
    w.check("shape", true(tuple(r.shape) == (w.case["dim"],)))
    w.observe("r", r)
    law(w, v, n, [r[i] for i in range(3)])
    if pad:
        w.check("stays a direction", eq(r[3], 0))
    w.check("inputs are not modified", And(alleq(vi, v + pad), alleq(ni, n + pad)))
    b = w.m.g3d.reflect(r, ni)
    w.check("reflecting twice returns the vector", alleq(b, v + pad))


def many(w):
    k, dim = w.case["n"], w.case["dim"]
    vs = [w.vec(f"v{i}") for i in range(k)]
    one = w.case["one"]
    ns = [w.unit(f"n{i}") for i in range(1 if one else k)]
    pad = [0.0] if dim == 4 else []
    vi = w.arr([[v[j] for v in vs] for j in range(3)] + [[0.0] * k] * len(pad))
    ni = w.arr(ns[0] + pad) if one else w.arr([[n[j] for n in ns] for j in range(3)] + [[0.0] * k] * len(pad))
    r = w.m.g3d.reflect(vi, ni)
    w.check("shape", true(tuple(r.shape) == (dim, k)))
    w.observe("r", r)
    for i in range(k):
        law(w, vs[i], ns[0 if one else i], [r[j, i] for j in range(3)], f"ray {i}: ")
        if pad:
            w.check(f"ray {i}: stays a direction", eq(r[3, i], 0))
    w.check("inputs are not modified", And(*[alleq([vi[j, i] for j in range(3)], vs[i]) for i in range(k)]))


HARNESSES = [
    Harness("single", single, [dict(dim=3), dict(dim=4)]),
    Harness("many", many, [dict(n=n, dim=d, one=o) for n in (1, 2, 3) for d in (3, 4) for o in (0, 1)]),
]
