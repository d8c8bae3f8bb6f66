from props.common import *

PROPERTY = "C29"
BOUNDS = "one to three points within 30 units per query, given singly or as columns; sizes 0.01..20"


def pts(w, k):
    return [[w.real(f"x{i}", -30, 30), w.real(f"y{i}", -30, 30)] for i in range(k)]


def ask(w, shape, ps, single):
    if single:
        return [shape.point_in_shape(w.arr(ps[0]))]
    r = shape.point_in_shape(w.arr([[p[0] for p in ps], [p[1] for p in ps]]))
    w.check("one answer per point", true(tuple(r.shape) == (len(ps),)))
    return [r[i] for i in range(len(ps))]


def disk(w):
    r = w.real("r", 0.01, 20)
    s = w.m.prim.Disk.from_diameter(2 * r) if w.case.get("dia") else w.m.prim.Disk(r)
    ps = pts(w, w.case["n"])
    for i, (p, a) in enumerate(zip(ps, ask(w, s, ps, w.case.get("single")))):
        n2 = p[0] * p[0] + p[1] * p[1]
        w.check(f"inside exactly when within the radius {i}", And(Implies(lt(n2, r * r), true(a)), Implies(gt(n2, r * r), Not(true(a)))))


def rect(w):
    a, b = w.real("a", 0.01, 20), w.real("b", 0.01, 20)
    s = w.m.prim.Rectangle(a, b)
    ps = pts(w, w.case["n"])
    for i, (p, r) in enumerate(zip(ps, ask(w, s, ps, w.case.get("single")))):
        ins = And(lt(-a, 2 * p[0]), lt(2 * p[0], a), lt(-b, 2 * p[1]), lt(2 * p[1], b))
        out = Or(gt(-a, 2 * p[0]), gt(2 * p[0], a), gt(-b, 2 * p[1]), gt(2 * p[1], b))
        w.check(f"inside exactly when within both half sides {i}", And(Implies(ins, true(r)), Implies(out, Not(true(r)))))


C = [dict(n=1, single=1), dict(n=1), dict(n=2), dict(n=3)]
HARNESSES = [Harness("disk", disk, C + [dict(n=1, dia=1)]), Harness("rect", rect, C)]
