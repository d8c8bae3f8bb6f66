from props.common import *

PROPERTY = "C10"
BOUNDS = ("one or two rays per call; unit directions and unit normals in every orientation with |cos| >= 1e-3; lengths 0.1..10 for "
          "unnormalised directions; refractive indices 0.5..5; the critical angle itself is excluded by 1e-3 in cos^2")


def setup(w):
    v, n = w.unit("v"), w.unit("n")
    k = w.dots("k", v, n, lo=None)
    n1, n2, ng = w.real("ia", 0.5, 5), w.real("ib", 0.5, 5), w.real("ig", 0.5, 5)
    w.assume(ge(k, 0.001) if w.case["out"] else le(k, -0.001))
    return v, n, k, n1, n2, ng


def col(v, pad=0.0):
    return [[x] for x in v] + [[pad]]


def refract(w):
    v, n, k, n1, n2, ng = setup(w)
    s = w.real("len", 0.1, 10) if w.case.get("scaled") else 1.0
    vi, ni = w.arr(col([s * x for x in v])), w.arr(col(n))
    i1, i2 = w.arr([n1]), w.arr([n2])
    deflt = w.case.get("air")
    if deflt:
        ng = 1.0
        r, m = w.m.g3d.refract(vi, ni, i1, i2)
    else:
        r, m = w.m.g3d.refract(vi, ni, i1, i2, n_global=ng)
    n_to = ng if w.case["out"] else n2
    rr = [r[i, 0] for i in range(3)]
    w.check("shape", true(tuple(r.shape) == (4, 1)))
    w.observe("r", r)
    w.observe("m", m)
    # n_to^2 - n1^2 (1 - k^2): positive when the ray passes
    rad = n_to * n_to - n1 * n1 * (1 - k * k)
    w.assume(Or(ge(rad, 0.001), le(rad, -0.001)))
    passes = gt(rad, 0)
    if not w.branch(passes):
        w.cover("total reflection")
        w.check("total reflection obeys the law of reflection", And(*[eq(rr[i], v[i] - 2 * k * n[i]) for i in range(3)]))
        w.check("a totally reflected ray keeps its index", eq(m[0], n1))
    else:
        w.cover("transmission")
        w.check("a passing ray carries the index it enters", eq(m[0], n_to))
        c = w.dot(rr, n)
        w.check("tangential components obey Snell", And(*[eq(n_to * (rr[i] - c * n[i]), n1 * (v[i] - k * n[i])) for i in range(3)]))
        w.check("transmitted to the other side", gt(c, 0) if w.case["out"] else lt(c, 0), margin=1e-6)
    w.check("unit length", eq(w.dot(rr, rr), 1))
    w.check("stays a direction", eq(r[3, 0], 0))
    w.check("directions, normals and indices passed in are not modified",
            And(*[eq(vi[i, 0], s * v[i]) for i in range(3)], *[eq(ni[i, 0], n[i]) for i in range(3)], eq(i1[0], n1), eq(i2[0], n2)))


def matched(w):
    """no index step: no deviation"""
    v, n = w.unit("v"), w.unit("n")
    k = w.dots("k", v, n)
    m = w.real("m", 0.5, 5)
    w.assume(ge(k, 0.001) if w.case["out"] else le(k, -0.001))
    r, i = w.m.g3d.refract(w.arr(col(v)), w.arr(col(n)), w.arr([m]), w.arr([m]), n_global=m)
    w.check("straight through", And(*[eq(r[j, 0], v[j]) for j in range(3)]))
    w.check("index kept", eq(i[0], m))


def pair(w):
    """two rays in one call are refracted independently, one entering and one leaving"""
    res = []
    vs, ns, a, b = [], [], [], []
    for t in range(2):
        vs.append(w.unit(f"v{t}"))
        ns.append(w.unit(f"n{t}"))
        a.append(w.real(f"a{t}", 0.5, 5))
        b.append(w.real(f"b{t}", 0.5, 5))
        k = w.dots(f"k{t}", vs[t], ns[t])
        w.assume(ge(k, 0.001) if (t == 1) == bool(w.case["sw"]) else le(k, -0.001))
    cols = lambda vv: w.arr([[x[i] for x in vv] for i in range(3)] + [[0.0] * len(vv)])
    r, m = w.m.g3d.refract(cols(vs), cols(ns), w.arr(a), w.arr(b))
    w.check("shape", true(tuple(r.shape) == (4, 2) and tuple(m.shape) == (2,)))
    for t in range(2):
        r1, m1 = w.m.g3d.refract(cols([vs[t]]), cols([ns[t]]), w.arr([a[t]]), w.arr([b[t]]))
        w.check(f"ray {t} does not depend on the other", And(*[eq(r[i, t], r1[i, 0]) for i in range(4)], eq(m[t], m1[0])))


HARNESSES = [
    Harness("refract", refract, [dict(out=o, **k) for o in (0, 1) for k in (dict(), dict(scaled=1), dict(air=1))]),
    Harness("matched", matched, [dict(out=0), dict(out=1)]),
    Harness("pair", pair, [dict(sw=0), dict(sw=1)]),
]
