"""Boolean composites of solids and what they should contain."""
from props.common import *

OPS = ("or", "and", "sub")


def leaf(w, kind, n):
    """a solid at an arbitrary place, with its inside test and its surface test"""
    g = w.m.g3d
    if kind == "box":
        lo, sz = w.vec(n + "lo", lo=-10, hi=10), w.vec(n + "size", lo=0.1, hi=10)
        hi = [a + b for a, b in zip(lo, sz)]
        return g.Cuboid(lo, hi), lambda p, lt: And(*[And(lt(lo[i], p[i]), lt(p[i], hi[i])) for i in range(3)]), (lo, hi)
    if kind == "slab":
        # only the extent along x matters
        lo, sz = w.real(n + "lo", -10, 10), w.real(n + "size", 0.1, 10)
        return g.Cuboid((lo, -1, -1), (lo + sz, 1, 1)), lambda p, lt: And(lt(lo, p[0]), lt(p[0], lo + sz), *[And(lt(-1, p[i]), lt(p[i], 1)) for i in (1, 2)]), None
    if kind == "die":
        c = w.vec(n + "c", lo=-10, hi=10)
        return g.Cuboid().move(*c), lambda p, lt: And(*[And(lt(c[i] - 1, p[i]), lt(p[i], c[i] + 1)) for i in range(3)]), None
    if kind == "ball":
        r, c = w.real(n + "r", 0.1, 10), w.vec(n + "c", lo=-10, hi=10)
        s = g.Sphere(r).move(*c)
        return s, lambda p, lt: lt(sum((p[i] - c[i]) * (p[i] - c[i]) for i in range(3)), r * r), None
    if kind == "bead":
        # a ball on the x axis
        r, c = w.real(n + "r", 0.1, 10), w.real(n + "c", -10, 10)
        s = g.Sphere(r).move_x(c)
        return s, lambda p, lt: lt((p[0] - c) * (p[0] - c) + p[1] * p[1] + p[2] * p[2], r * r), None
    if kind == "rod":
        r, h, sz = w.real(n + "r", 0.1, 10), w.real(n + "h", -10, 10), w.real(n + "size", 0.1, 10)
        s = g.Cylinder(r, h, h + sz)
        return s, lambda p, lt: And(lt(p[0] * p[0] + p[1] * p[1], r * r), lt(h, p[2]), lt(p[2], h + sz)), None
    raise KeyError(kind)


class Tree:
    """a composite built by the case's expression: a leaf kind, or (operation, left, right)"""

    def __init__(self, w, expr, n="t"):
        self.w, self.expr = w, expr
        if isinstance(expr, str):
            self.op, self.kids = None, []
            self.obj, self.test, self.box = leaf(w, expr, n)
        else:
            self.op = expr[0]
            self.kids = [Tree(w, e, f"{n}{i}") for i, e in enumerate(expr[1:])]
            c = w.m.g3d.csg
            self.obj = {"or": c.union, "and": c.intersect, "sub": c.difference}[self.op](*[k.obj for k in self.kids])
        self.local = None  # the point asked for, in the coordinates of this leaf, when it was chosen there
        self.place = []  # placements applied to this leaf or to composites it is part of, oldest first

    def at(self, path):
        """the part reached by a path such as "01" (left child's right child)"""
        return self.kids[int(path[0])].at(path[1:]) if path else self

    def move(self, path, kind, name):
        """place a part (or, with an empty path, the whole) from outside"""
        n = self.at(path)
        pl = Place(self.w, n.obj, kind, name)
        for x in n.leaves():
            x.place.append(pl)
        return pl

    def nodes(self):
        return [self] + [x for k in self.kids for x in k.nodes()]

    def leaves(self):
        return [self] if not self.kids else [x for k in self.kids for x in k.leaves()]

    def inside(self, p, rel=lt):
        """interior (rel=lt) or closure (rel=le)"""
        if not self.kids:
            if self.local is not None:
                return self.test(self.local, rel)
            for pl in reversed(self.place):
                p = unplace(pl, p)
            return self.test(p, rel)
        if self.op == "sub":
            return And(self.kids[0].inside(p, rel), Not(self.kids[1].inside(p, le if rel is lt else lt)))
        a, b = [k.inside(p, rel) for k in self.kids]
        return Or(a, b) if self.op == "or" else And(a, b)


def parity(w, hits, u, label, t, p):
    """the finite hits are the changes between outside and inside: u is inside exactly when an odd number of them lies before u"""
    n = len(hits)
    w.check(label + "inside points have an odd number of hits before them", Implies(t.inside(p), Or(*[And(le(hits[i], u), ge(hits[i + 1], u)) for i in range(0, n, 2)])))
    w.check(label + "points with an odd number of hits before them are inside", Implies(Or(*[And(lt(hits[i], u), gt(hits[i + 1], u)) for i in range(0, n, 2)]), t.inside(p, le)))


def unrot(step, p):
    k = step[0]
    if k == "m":
        return [p[i] - step[1][i] for i in range(3)]
    if k == "s":
        return [p[i] * Fraction(1) / step[1][i] for i in range(3)]
    return rot(k, -step[1], step[2], p)


def unplace(pl, p):
    """the point that the placement maps to p"""
    for s in reversed(pl.steps):
        p = unrot(s, p)
    return p


def distinct(w, t, rays):
    """the crossings of different parts do not coincide; returns the crossings of each part"""
    own = []
    for x in t.leaves():
        h, _ = x.obj.intersect(rays)
        own.append((h[0, 0], h[1, 0]))
    for i in range(len(own)):
        for j in range(i):
            for a in own[i]:
                for b in own[j]:
                    w.assume(Or(isinf(a), isinf(b), ge(a - b, 1e-3), ge(b - a, 1e-3)))
    return own
