from fractions import Fraction as F

from props.common import *

PROPERTY = "C23"
BOUNDS = "one or two wavelengths 0..2 um per call, alone or as an array; gamma 0.8 (default), 1, and 0.3..3 for the range; Lipschitz pairs at gamma 1"
KNOTS = [(F("0.38"), (F("0.3"), 0, F("0.3"))), (F("0.44"), (0, 0, 1)), (F("0.49"), (0, 1, 1)), (F("0.51"), (0, 1, 0)), (F("0.58"), (1, 1, 0)), (F("0.645"), (1, 0, 0)), (F("0.75"), (F("0.3"), 0, 0))]


def rgb(w, ls, **k):
    c = w.m.utils.wavelength_to_rgb(w.arr(ls), **k)
    w.check("one row of three channels per wavelength", true(tuple(c.shape) == (len(ls), 3)))
    return c


def span(w):
    l = w.real("l", 0, 2)
    c = rgb(w, [l], **w.case["kw"])
    w.observe("c", c)
    for i, n in enumerate(("red", "green", "blue")):
        w.check(f"{n} between 0 and 1", And(ge(c[0, i], 0), le(c[0, i], 1)))


def gammas(w):
    l, g = w.real("l", 0, 2), w.real("g", 0.3, 3)
    c = rgb(w, [l], gamma=g)
    for i, n in enumerate(("red", "green", "blue")):
        w.check(f"{n} between 0 and 1", And(ge(c[0, i], 0), le(c[0, i], 1)))


def clip(w):
    l = w.real("l", 0, 2)
    lo, hi = w.case["side"] == "lo", w.case["side"] == "hi"
    w.assume(le(l, 0.38) if lo else ge(l, 0.75))
    e = 0.38 if lo else 0.75
    c = rgb(w, [l, e], **w.case["kw"])
    w.check("outside the visible range the limit colour is used", And(*[eq(c[0, i], c[1, i]) for i in range(3)]))


def shape(w):
    """at gamma 1 the colour is the interpolation between the knots"""
    i = w.case["seg"]
    (a, ca), (b, cb) = KNOTS[i], KNOTS[i + 1]
    l = w.real("l", a, b)
    c = rgb(w, [l], gamma=1)
    t = (l - a) / (b - a)
    for k in range(3):
        v = ca[k] + (cb[k] - ca[k]) * t
        if i == 0 and k == 0:
            v = (1 - t) * (F("0.3") + F("0.7") * t)  # red fades towards 440 nm under the attenuation of the violet end
        w.check(f"channel {k}", eq(c[0, k], v))


def smooth(w):
    l, d = w.real("l", 0.2, 1), w.real("d", 0, 0.1)
    c = rgb(w, [l, l + d], gamma=1)
    for k in range(3):
        w.check(f"channel {k} has no jump", And(le(c[0, k] - c[1, k], 51 * d), le(c[1, k] - c[0, k], 51 * d)))


def gamma(w):
    """gamma acts on each channel of the linear colour"""
    l = w.real("l", 0.2, 1)
    a, b = rgb(w, [l], gamma=1), rgb(w, [l])
    for k in range(3):
        w.check(f"channel {k} is the linear one to the power 0.8", eq(b[0, k], w.np.abs(a[0, k]) ** 0.8))


def batch(w):
    l = [w.real("l0", 0, 2), w.real("l1", 0, 2)]
    c = rgb(w, l)
    for i in range(2):
        s = rgb(w, [l[i]])
        w.check(f"row {i} depends on its own wavelength", And(*[eq(c[i, k], s[0, k]) for k in range(3)]))
    x = w.np.asarray(w.m.utils.wavelength_to_rgb(l[0])).reshape(-1)
    w.check("a single number is accepted", And(true(tuple(x.shape) == (3,)), *[eq(x[k], c[0, k]) for k in range(3)]))


KW = [dict(), dict(gamma=1)]
HARNESSES = [
    Harness("span", span, [dict(kw=k) for k in KW + [dict(gamma=0.5), dict(gamma=2)]]),
    Harness("gammas", gammas),
    Harness("clip", clip, [dict(kw=k, side=s) for k in KW for s in ("lo", "hi")]),
    Harness("shape", shape, [dict(seg=i) for i in range(6)]),
    Harness("smooth", smooth),
    Harness("gamma", gamma),
    Harness("batch", batch, policy="fork"),
]
