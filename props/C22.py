from fractions import Fraction as F

import numpy as np

from props.common import *

PROPERTY = "C22"
BOUNDS = ("one or two wavelengths 0.2..5 um with |wavelength^2 - c| >= 1e-3 and a non-negative radicand; coefficients within +-200; catalogue "
          "glasses over 0.35..2.3 um; one shape of array per call (scalar, 1, 2 elements; whole-number wavelengths 1, 2 and 3 in integer arrays); coefficients unchanged after construction")


def sellmeier(w):
    b = [w.real(f"b{i}", -3, 3) for i in range(3)]
    c = [w.real(f"c{i}", -1, 200) for i in range(3)]
    g = w.m.mat.SellmeierRefractor(*b, *c)
    k = w.case["n"]
    ls = [w.real(f"l{i}", 0.2, 5) for i in range(max(k, 1))]
    for l in ls:
        for x in c:
            w.assume(Or(ge(l * l - x, 0.001), le(l * l - x, -0.001)))
        w.assume(ge(1 + sum(p * l * l / (l * l - q) for p, q in zip(b, c)), 0.01))
    n = g.index_at(w.arr(ls) if k else ls[0])
    if k:
        w.check("shape follows the wavelengths", true(tuple(n.shape) == (k,)))
    ns = [n[i] for i in range(k)] if k else [n]
    w.observe("n", ns)
    for i, l in enumerate(ls):
        w.check(f"n^2 is the three-term formula {i}", eq(ns[i] * ns[i], 1 + sum(p * l * l / (l * l - q) for p, q in zip(b, c))))
        w.check(f"the positive root {i}", ge(ns[i], 0))


def abbe(w):
    n = [w.real(f"n{i}", 1.0, 3) for i in range(3)]
    w.assume(ge(n[0] - n[2], 0.001))

    class G(w.m.mat.Glass):
        def index_at(self, wavelength):
            return {0.4861: n[0], 0.5893: n[1], 0.6563: n[2]}[round(float(wavelength), 4)]

    v = G().abbe()
    w.observe("v", v)
    w.check("Abbe number of the F, D and C lines", eq(v * (n[0] - n[2]), n[1] - 1))
    b = w.m.mat.BasicRefractor(n[1])
    w.check("another glass has its own index", eq(b.index_at(0.5), n[1]))


def two(w):
    """each glass answers for itself, whatever was asked of others before"""
    ms = [[w.real(f"n{j}{i}", 1.0, 3) for i in range(3)] for j in range(2)]
    for n in ms:
        w.assume(ge(n[0] - n[2], 0.001))

    class G(w.m.mat.Glass):
        def __init__(self, n):
            super().__init__()
            self.n = n

        def index_at(self, wavelength):
            return {0.4861: self.n[0], 0.5893: self.n[1], 0.6563: self.n[2]}[round(float(wavelength), 4)]

    a, b = G(ms[0]), G(ms[1])
    va, vb, va2 = a.abbe(), b.abbe(), a.abbe()
    w.check("first", eq(va * (ms[0][0] - ms[0][2]), ms[0][1] - 1))
    w.check("second", eq(vb * (ms[1][0] - ms[1][2]), ms[1][1] - 1))
    w.check("asked again", eq(va, va2))


def catalogue(w):
    g = w.m.mat.glass[w.case["glass"]]
    l0, l1 = w.real("l0", 0.35, 2.3), w.real("l1", 0.35, 2.3)
    w.assume(ge(l1 - l0, 0.001))
    n = g.index_at(w.arr([l0, l1]))
    lo, hi = w.case["range"]
    w.observe("n", n)
    w.check("index in the glass's physical range", And(ge(n[0], lo), le(n[0], hi), ge(n[1], lo), le(n[1], hi)))
    if w.case["glass"] != "ideal":
        w.check("normal dispersion: index falls with wavelength", gt(n[0], n[1]), margin=1e-7)
        v = g.abbe()
        a, b = w.case["abbe"]
        w.check("published Abbe number", And(ge(v, a), le(v, b)))
    else:
        w.check("no dispersion", eq(n[0], n[1]))
    w.check("scalar and array agree", eq(g.index_at(l0), n[0]))


def whole(w):
    """wavelengths given as an array of whole numbers"""
    k = w.case
    ls = np.array(k["l"])
    n = w.real("n", 1.0, 3)
    g = w.m.mat.BasicRefractor(n)
    r = g.index_at(ls)
    w.observe("n", r)
    w.check("a basic refractor has its index at whole wavelengths", And(true(tuple(np.shape(r)) == ls.shape), *[eq(r[i], n) for i in range(len(ls))]))
    b = [w.real(f"b{i}", 0.0, 3) for i in range(3)]
    c = [w.real(f"c{i}", -1, 0.9) for i in range(3)]
    r = w.m.mat.SellmeierRefractor(*b, *c).index_at(ls)
    for i, l in enumerate(k["l"]):
        w.check(f"n^2 is the three-term formula at {l}", eq(r[i] * r[i], 1 + sum(p * l * l / (l * l - q) for p, q in zip(b, c))))


def published(w):
    """the catalogue entries reproduce the published Sellmeier coefficients (Schott)"""
    g = w.m.mat.glass[w.case["glass"]]
    l = w.real("l", 0.35, 2.3)
    n = g.index_at(l)
    w.check("index is the published dispersion", eq(n * n, 1 + sum(F(p) * l * l / (l * l - F(q)) for p, q in w.case["co"])), margin=1e-6)


BK7 = [("1.03961212", "0.00600069867"), ("0.231792344", "0.0200179144"), ("1.01046945", "103.560653")]
SF5 = [("1.52481889", "0.011254756"), ("0.187085527", "0.0588995392"), ("1.42729015", "129.141675")]
SF2 = [("1.40301821", "0.0105795466"), ("0.231767504", "0.0493226978"), ("0.939056586", "112.405955")]
HARNESSES = [
    Harness("sellmeier", sellmeier, [dict(n=0), dict(n=1), dict(n=2)]),
    Harness("abbe", abbe),
    Harness("two", two),
    Harness("catalogue", catalogue, [dict(glass="BK7", range=(1.48, 1.56), abbe=(64, 64.4)), dict(glass="SF5", range=(1.6, 1.8), abbe=(32, 32.5)),
                                     dict(glass="SF2", range=(1.58, 1.76), abbe=(33.6, 34.1)), dict(glass="ideal", range=(1.5, 1.5))]),
    Harness("whole", whole, [dict(l=[1]), dict(l=[1, 2]), dict(l=[3, 1, 2])]),
    Harness("published", published, [dict(glass="BK7", co=BK7), dict(glass="SF5", co=SF5), dict(glass="SF2", co=SF2)], margin=1e-6),
]
