from props.common import *

PROPERTY = "C25"
BOUNDS = ("one quadratic per query with coefficients within 20, leading coefficient of either sign >= 1e-3 in size or exactly 0; the same equations multiplied by 1e-4 and by 1e4; discriminants "
          "at least 1e-6 from 0 or exactly 0; vectors of two to four components, one to three of them")


def coefs(w):
    k = w.case["a"]
    a = w.real("a", -20, 20) if k else 0.0
    if k:
        w.assume(ge(a, 0.001) if k == "+" else le(a, -0.001))
    b, c = w.real("b", -20, 20), w.real("c", -20, 20)
    return a, b, c


def roots(w):
    a, b, c = coefs(w)
    k = w.case.get("scale", 1.0)  # the equation multiplied by it has the same roots
    if not w.case["a"]:
        w.assume(Or(ge(b, 0.001), le(b, -0.001)))
    if k < 1:
        w.assume(Or(ge(a, 0.05), le(a, -0.05)) if w.case["a"] else Or(ge(b, 0.05), le(b, -0.05)))
    r = w.m.ops.binomial_root(w.arr([k * a]), w.arr([k * b]), w.arr([k * c]))
    w.check("two roots", true(tuple(r.shape) == (2, 1)))
    x = w.real("x", -50, 50)
    r0, r1 = r[0, 0], r[1, 0]
    w.observe("r", [r0, r1])
    w.check("no nan", And(Not(isnan(r0)), Not(isnan(r1))))
    disc = b * b - 4 * a * c
    if w.case["a"]:
        w.check("no real root reports inf twice", Implies(lt(disc, 0), And(isinf(r0), isinf(r1), gt(r0, 0), gt(r1, 0))))
        w.check("real roots are finite", Implies(ge(disc, 0), And(isfinite(r0), isfinite(r1))))
        w.check("sum and product of the roots", Implies(gt(disc, 0), And(eq(a * (r0 + r1), -b), eq(a * r0 * r1, c))))
        w.check("a linear case reports its root", true(True))
    else:
        w.check("a linear equation reports its root twice", And(eq(b * r0, -c), eq(b * r1, -c)))


def given(w):
    """a discriminant passed in is used as it is"""
    a, b, c = coefs(w)
    d = b * b - 4 * a * c
    r = w.m.ops.binomial_root(w.arr([a]), w.arr([b]), w.arr([c]))
    s = w.m.ops.binomial_root(w.arr([a]), w.arr([b]), w.arr([c]), disc=w.arr([d]))
    w.check("same roots", And(*[Or(eq(r[i, 0], s[i, 0]), And(isinf(r[i, 0]), isinf(s[i, 0]))) for i in range(2)]))


def constant(w):
    c = w.real("c", -20, 20)
    w.assume(Or(ge(c, 0.001), le(c, -0.001)))
    r = w.m.ops.binomial_root(w.arr([0.0]), w.arr([0.0]), w.arr([c]))
    inside = lt(c, 0)
    lo, hi = r[0, 0], r[1, 0]
    w.check("a ray that stays inside spans everything", Implies(inside, And(isinf(lo), isinf(hi), lt(lo, 0), gt(hi, 0))))
    w.check("a ray that stays outside never enters", Implies(Not(inside), And(isinf(lo), isinf(hi), gt(lo, 0), gt(hi, 0))))


def smallest(w):
    a, b, c = coefs(w)
    disc = b * b - 4 * a * c
    k = w.case.get("scale", 1.0)
    if k < 1:
        w.assume(Or(ge(a, 0.05), le(a, -0.05)))
    r = w.m.ops.smallest_positive_root(w.arr([k * a]), w.arr([k * b]), w.arr([k * c]))[0]
    w.observe("r", r)
    x = w.real("x", 0, 50)
    w.check("a finite answer is a non-negative root", Implies(isfinite(r), And(ge(r, 0), eq(a * r * r + b * r + c, 0))))
    w.assume(Or(ge(disc, 1e-6), le(disc, -1e-6)))
    w.assume(eq(a * x * x + b * x + c, 0))
    w.check("no smaller non-negative root exists", And(isfinite(r), le(r, x)))


def noroot(w):
    a, b, c = coefs(w)
    w.assume(le(b * b - 4 * a * c, -1e-6))
    k = w.case.get("scale", 1.0)
    if k < 1:
        w.assume(Or(ge(a, 0.05), le(a, -0.05)))
    r = w.m.ops.smallest_positive_root(w.arr([k * a]), w.arr([k * b]), w.arr([k * c]))[0]
    w.check("inf without real roots", And(isinf(r), gt(r, 0)))


def dots(w):
    n, k = w.case["n"], w.case["k"]
    A = [[w.real(f"a{i}_{j}", -10, 10) for j in range(k)] for i in range(n)]
    B = [[w.real(f"b{i}_{j}", -10, 10) for j in range(k)] for i in range(n)]
    r = w.m.ops.element_wise_dot(w.arr(A), w.arr(B), axis=0)
    w.check("columns", And(true(tuple(r.shape) == (k,)), *[eq(r[j], sum(A[i][j] * B[i][j] for i in range(n))) for j in range(k)]))
    r = w.m.ops.element_wise_dot(w.arr(A), w.arr(B), axis=1)
    w.check("rows", And(true(tuple(r.shape) == (n,)), *[eq(r[i], sum(A[i][j] * B[i][j] for j in range(k))) for i in range(n)]))
    r = w.m.ops.element_wise_dot(w.arr(A[0]), w.arr(B[0]))
    w.check("single vectors", eq(r, sum(A[0][j] * B[0][j] for j in range(k))))


S = [dict(a=x) for x in "+-"]
Z = [dict(a=k, scale=z) for k in "+-" for z in (1e-4, 1e4)]
HARNESSES = [
    Harness("roots", roots, S + [dict(a="")] + Z + [dict(a="", scale=1e-4), dict(a="", scale=1e4)]),
    Harness("given", given, S),
    Harness("constant", constant),
    Harness("smallest", smallest, S + Z),
    Harness("noroot", noroot, S + Z),
    Harness("dots", dots, [dict(n=3, k=1), dict(n=3, k=3), dict(n=2, k=2), dict(n=4, k=2)]),
]
