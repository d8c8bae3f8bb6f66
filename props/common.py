"""Shared pieces of the harnesses: oracles written from the documentation, not from the code."""
from fractions import Fraction

from engine.harness import And, Harness, Iff, Implies, Not, Or, alleq, eq, ge, gt, isfinite, isinf, isnan, le, lt, ne, true  # noqa

PATTERNS = [(1, 1, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1), (1, 0, 0), (0, 1, 0), (0, 0, 1)]


def direction(w, name, pattern=(1, 1, 1), lo=0.001, hi=2):
    """a direction whose components are exactly zero or at least `lo` in size"""
    d = []
    for i in range(3):
        if not pattern[i]:
            d.append(0.0)
            continue
        x = w.real(f"{name}{'xyz'[i]}", -hi, hi)
        if pattern[i] == 1:
            w.assume(Or(ge(x, lo), le(x, -lo)))
        elif pattern[i] == "+":
            w.assume(ge(x, lo))
        elif pattern[i] == "-":
            w.assume(le(x, -lo))
        d.append(x)
    return d


def along(p, d, t):
    return [p[i] + t * d[i] for i in range(len(p))]


def in_ball(p, r, margin=0):
    return le(p[0] * p[0] + p[1] * p[1] + p[2] * p[2], r * r)


def in_box(p, lo, hi):
    return And(*[And(le(lo[i], p[i]), le(p[i], hi[i])) for i in range(3)])


def in_cyl(p, r, h0, h1):
    return And(le(p[0] * p[0] + p[1] * p[1], r * r), le(h0, p[2]), le(p[2], h1))


def in_parab(p, f, h):
    return And(le(p[0] * p[0] + p[1] * p[1], 4 * f * p[2]), le(0, p[2]), le(p[2], h))


def between(t0, t1, u):
    """u lies in the reported interval (either order); a miss reports inf"""
    return And(Or(And(le(t0, u), le(u, t1)), And(le(t1, u), le(u, t0))))


def strictly_between(t0, t1, u):
    return Or(And(lt(t0, u), lt(u, t1)), And(lt(t1, u), lt(u, t0)))


def rot(axis, s, c, p):
    """p rotated about a coordinate axis (right handed)"""
    x, y, z = p
    if axis == "x":
        return [x, c * y - s * z, s * y + c * z]
    if axis == "y":
        return [c * x + s * z, y, c * z - s * x]
    return [c * x - s * y, s * x + c * y, z]


class Place:
    """a placement applied to a repository object, with the maps it should induce"""

    def __init__(self, w, obj, kind, name="pl"):
        self.steps = []
        for i, k in enumerate(kind):
            n = f"{name}{i}"
            if k == "m":
                t = w.vec(n + "t", lo=-10, hi=10)
                obj.move(*t)
                self.steps.append(("m", t))
            elif k == "s":
                s = w.vec(n + "s", lo=0.25, hi=4)
                obj.scale(*s)
                self.steps.append(("s", s))
            elif k == "S":
                obj.scale(0.5, 2, 1.25)
                self.steps.append(("s", [0.5, 2, 1.25]))
            elif k == "u":
                s = w.real(n + "s", 0.25, 4)
                obj.scale_all(s)
                self.steps.append(("s", [s, s, s]))
            else:
                if k in "XYZ":  # one fixed rotation with a rational sine and cosine
                    sn, cs = {"X": (0.28, 0.96), "Y": (-0.6, 0.8), "Z": (0.8, -0.6)}[k]
                    k = k.lower()
                    m = [rot(k, sn, cs, [float(i == j) for j in range(3)]) for i in range(3)]
                    obj.transform(w.arr([[m[j][i] for j in range(3)] + [0.0] for i in range(3)] + [[0.0, 0.0, 0.0, 1.0]]))
                else:
                    a = w.angle(n + "a")
                    sn, cs = w.sin_cos(a)
                    getattr(obj, "rotate_" + k)(a)
                self.steps.append((k, sn, cs))

    def point(self, p):
        for s in self.steps:
            if s[0] == "m":
                p = [p[i] + s[1][i] for i in range(3)]
            elif s[0] == "s":
                p = [p[i] * s[1][i] for i in range(3)]
            else:
                p = rot(s[0], s[1], s[2], p)
        return p

    def vector(self, v):
        for s in self.steps:
            if s[0] == "s":
                v = [v[i] * s[1][i] for i in range(3)]
            elif s[0] != "m":
                v = rot(s[0], s[1], s[2], v)
        return v


PLACES = ["m", "s", "x", "y", "z", "uxm", "szm", "mxy", "zxm"]
