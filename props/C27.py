from props.common import *

PROPERTY = "C27"
BOUNDS = ("one or two shaded points, one or two lights, unit normals, lights at least 1e-3 from the point; colours with every channel in [0,1]; "
          "mixing weights alpha, beta in [0,1]; the seven built-in materials")


def color(w, name):
    return [w.real(f"{name}{c}", 0, 1) for c in "rgba"]


def material(w):
    k = w.case.get("built")
    if k:
        m = getattr(w.m.gooch, k)
        return m, None, None
    C = w.m.color.RGBAColor
    b, wm, cl = color(w, "b"), color(w, "w"), color(w, "c")
    al, be = w.real("al", 0, 1), w.real("be", 0, 1)
    m = w.m.gooch.GoochMaterial(base_color=C(*b), warm_color=C(*wm), cool_color=C(*cl), alpha=al, beta=be)
    return m, [(1 - al) * x + al * y for x, y in zip(wm, b)], [(1 - be) * x + be * y for x, y in zip(cl, b)]


def shade(w):
    m, warm, cool = material(w)
    k, nl = w.case.get("n", 1), w.case.get("lights", 1)
    P = [w.vec(f"p{i}") for i in range(k)]
    N = [w.unit(f"n{i}") for i in range(k)]
    V = [w.unit(f"v{i}") for i in range(k)]
    # lights given relative to each point would overconstrain: place them freely
    L = [w.vec(f"l{j}", lo=-20, hi=20) for j in range(nl)]
    mu = []
    for i in range(k):
        t = []
        for j in range(nl):
            d = [L[j][x] - P[i][x] for x in range(3)]
            dd = w.dot(d, d)
            w.assume(ge(dd, 1e-4))
            s = w.sqrt(dd)
            t.append(w.dot(d, N[i]) / s)
            w.assume(And(le(t[-1], 1), ge(t[-1], -1)))  # Cauchy-Schwarz
        mu.append(sum((1 + x) / 2 for x in t) / nl)
    rays = w.rays(P, V)
    nm = w.arr([[n[x] for n in N] for x in range(3)] + [[0.0] * k])
    lp = w.arr(L[0] + [1.0]) if nl == 1 else w.arr([[l[x] for l in L] for x in range(3)] + [[1.0] * nl])
    c = m.shade(rays, nm, lp)
    w.check("one rgba value per point", true(tuple(c.shape) == (4, k)))
    w.observe("c", c)
    for i in range(k):
        if warm is None:
            w.check(f"point {i}: channels stay between 0 and 1", And(*[And(ge(c[x, i], 0), le(c[x, i], 1)) for x in range(4)]))
            continue
        for x in range(4):
            w.check(f"point {i}: channel {x} blends warm and cool by the angle to the lights", eq(c[x, i], mu[i] * warm[x] + (1 - mu[i]) * cool[x]))


def facing(w):
    """a face turned to the light takes the warm shade, one turned away the cool shade"""
    m, warm, cool = material(w)
    p, n = w.vec("p"), w.unit("n")
    s = w.real("s", 0.01, 20)
    for sign, want in ((1, warm), (-1, cool)):
        c = m.shade(w.rays([p], [[0.0, 0.0, 1.0]]), w.arr([[x] for x in n] + [[0.0]]), w.arr([p[i] + sign * s * n[i] for i in range(3)] + [1.0]))
        w.check("warm towards the light" if sign > 0 else "cool away from it", And(*[eq(c[x, 0], want[x]) for x in range(4)]))


BUILT = ["WHITE", "RED", "GREEN", "BLUE", "YELLOW", "ORANGE", "BLACK"]
HARNESSES = [
    Harness("shade", shade, [dict(n=1, lights=1), dict(n=1, lights=2), dict(n=2, lights=1)] + [dict(built=b) for b in BUILT]),
    Harness("facing", facing),
]
