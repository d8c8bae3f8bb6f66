from props.common import *

PROPERTY = "C24"
BOUNDS = "radii of either sign with 0.01 <= |r| <= 1000 or infinite; index 1.01..4; thickness 0..50; powers of at least 1e-9"


def radius(w, name):
    r = w.real(name, -1000, 1000)
    w.assume(Or(ge(r, 0.01), le(r, -0.01)))
    return r


def power(w, f, r1, r2, n, t):
    """-C of the ray-transfer matrix: curved interface, gap, curved interface"""
    p1, p2 = (n - 1) / r1, (1 - n) / r2
    return p1 + p2 - p1 * p2 * t / n


def matrix(w):
    r1, r2, n, t = radius(w, "r1"), radius(w, "r2"), w.real("n", 1.01, 4), w.real("t", 0, 50)
    P = power(w, None, r1, r2, n, t)
    w.assume(Or(ge(P, 1e-6), le(P, -1e-6)))
    f = w.m.utils.lensmakers_equation(r1, r2, n, t)
    w.observe("f", f)
    w.check("1/f is the power of the two interfaces", eq(f * P, 1))
    g = w.m.utils.lensmakers_equation(-r2, -r1, n, t)
    w.check("turning the lens round keeps the focal length", eq(g * P, 1))


def planar(w):
    r, n, t = radius(w, "r"), w.real("n", 1.01, 4), w.real("t", 0, 50)
    inf = float("inf")
    f = w.m.utils.lensmakers_equation(r, inf, n, t)
    g = w.m.utils.lensmakers_equation(inf, r, n, t)
    w.check("a flat back keeps only the front power", eq(f * (n - 1), r))
    w.check("a flat front keeps only the back power", eq(g * (n - 1), -r))


def thin(w):
    r1, r2, n = w.real("r1", 0.01, 1000), w.real("r2", 0.01, 1000), w.real("n", 1.01, 4)
    f = w.m.utils.lensmakers_equation(r1, -r2, n, 0)
    w.check("thin biconvex lens converges", gt(f, 0), margin=1e-6)
    w.check("thin lens formula", eq(f * (n - 1) * (r1 + r2), r1 * r2))
    g = w.m.utils.lensmakers_equation(-r1, r2, n, 0)
    w.check("thin biconcave lens diverges by as much", eq(g, -f))


HARNESSES = [Harness("matrix", matrix), Harness("planar", planar), Harness("thin", thin)]
