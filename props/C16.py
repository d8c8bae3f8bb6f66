from props.common import *

PROPERTY = "C16"
BOUNDS = ("groups of up to three members (solids, composites, sources, cameras, groups within groups), histories of up to five steps: moves, scales "
          "0.25..4, rotations by any angle of the group, of a subgroup or of a single member, members added or removed in between; points within +-10")
ASSUMPTIONS = ["no member is in the same group twice"]


def make(w, kind):
    m = w.m
    return {"ball": lambda: m.g3d.Sphere(1), "box": lambda: m.g3d.Cuboid((-1, -2, -1), (1, 1, 3)), "line": lambda: m.comp.LineOfRays(), "cam": lambda: m.g3d.OrthographicCamera(2, 1, 1),
            "or": lambda: m.g3d.csg.union(m.g3d.Sphere(1), m.g3d.Cuboid((0, 0, 0), (1, 1, 1))), "group": lambda: m.g3d.ObjectGroup()}[kind]()


class Model:
    """who is in which group, and every step each object has been through"""

    def __init__(self, w):
        self.w, self.obj, self.kids, self.steps = w, {}, {}, {}

    def new(self, name, kind):
        self.obj[name] = make(self.w, kind)
        self.kids[name] = []
        self.steps[name] = []

    def under(self, name):
        yield name
        for k in self.kids[name]:
            yield from self.under(k)

    def map(self, name, p, linear=False):
        pl = Place.__new__(Place)
        pl.steps = self.steps[name]
        return (pl.vector if linear else pl.point)(p)


def history(w):
    k = w.case
    t = Model(w)
    for name, kind in k["objs"].items():
        t.new(name, kind)
    for i, st in enumerate(k["do"]):
        if st[0] == "add":
            how = st[3] if len(st) > 3 else "append"
            g, o = t.obj[st[1]], t.obj[st[2]]
            {"append": lambda: g.append(o), "insert": lambda: g.insert(0, o), "extend": lambda: g.extend([o]), "iadd": lambda: g.__iadd__([o])}[how]()
            if how == "insert":
                t.kids[st[1]].insert(0, st[2])
            else:
                t.kids[st[1]].append(st[2])
        elif st[0] == "drop":
            n = t.kids[st[1]].index(st[2])
            if len(st) > 3 and st[3] == "del":
                del t.obj[st[1]][n]
            else:
                x = t.obj[st[1]].pop(n)
                w.check("the dropped member is handed back", true(x is t.obj[st[2]]))
            t.kids[st[1]].remove(st[2])
        elif st[0] == "make":
            t.obj[st[1]] = w.m.g3d.ObjectGroup([t.obj[x] for x in st[2]])
            t.kids[st[1]] = list(st[2])
            t.steps[st[1]] = []
        else:
            pl = Place(w, t.obj[st[0]], st[1], f"h{i}")
            for x in t.under(st[0]):
                t.steps[x] = t.steps[x] + pl.steps
    for name in t.obj:
        g = t.obj[name]
        if t.kids[name] or k["objs"].get(name) == "group":
            w.check(f"{name}: members in order", true(len(g) == len(t.kids[name]) and all(a is t.obj[b] for a, b in zip(g, t.kids[name]))))
    q, v = w.point("q"), w.vec("v", lo=-2, hi=2)
    for name, o in t.obj.items():
        W = o.to_world_coordinates(w.arr([[q[0]], [q[1]], [q[2]], [1.0]]))
        want = t.map(name, q)
        w.check(f"{name}: its points went through every step", alleq([W[j, 0] for j in range(4)], want + [1.0]))
        V = o.to_world_coordinates(w.arr([[v[0]], [v[1]], [v[2]], [0.0]]))
        w.check(f"{name}: its directions went through every step", alleq([V[j, 0] for j in range(4)], t.map(name, v, True) + [0.0]))
        p = o.get_position()
        w.check(f"{name}: position", alleq([p[j] for j in range(4)], t.map(name, [0.0, 0.0, 0.0]) + [1.0]))
        if k.get("back", True):
            B = o.to_object_coordinates(w.arr([[want[0]], [want[1]], [want[2]], [1.0]]))
            w.check(f"{name}: world points map back", alleq([B[j, 0] for j in range(4)], q + [1.0]))


def world(w):
    """what a member does follows the group: rays of a source, hits on a solid, normals"""
    k = w.case
    m = w.m
    src, ball, box = m.comp.LineOfRays(spacing=2.0), m.g3d.Cuboid((-1, -2, -1), (0.5, 1, 2)), m.g3d.Cuboid((-1, -2, -1), (1, 1, 3))
    u = m.g3d.csg.difference(box, ball)
    g = m.g3d.ObjectGroup([src, m.g3d.ObjectGroup([u])])
    r0 = src.generate_rays(2)
    keep = [[r0.rays[a, j, i] for a in range(2) for j in range(3)] for i in range(2)]
    p, d = w.point("p", -3, 3), [0.6, 0.8, 0.0]
    for x in (-1, 0.5, 1):  # not along an edge, where which side is hit is a matter of rounding
        for y in (-2, 1):
            c = 0.8 * (p[0] - x) - 0.6 * (p[1] - y)
            w.assume(Or(ge(c, 1e-2), le(c, -1e-2)))
    for z in (-1, 2, 3):
        w.assume(Or(ge(p[2] - z, 1e-2), le(p[2] - z, -1e-2)))
    h0, s0 = u.intersect(w.rays([p], [d]))
    pl = Place(w, g, k["at"])
    r1 = src.generate_rays(2)
    for i in range(2):
        w.check(f"ray {i} of the member source moved along", And(alleq([r1.rays[0, j, i] for j in range(3)], pl.point(keep[i][:3])), alleq([r1.rays[1, j, i] for j in range(3)], pl.vector(keep[i][3:]))))
    h1, s1 = u.intersect(w.rays([pl.point(p)], [pl.vector(d)]))
    for i in range(h0.shape[0]):
        w.check(f"hit {i} of the member composite is the same", Or(And(isinf(h0[i, 0]), isinf(h1[i, 0])), And(eq(h0[i, 0], h1[i, 0]), eq(s0[i, 0], s1[i, 0]))))


C = dict
OB = C(g="group", a="ball", b="line")
ON = C(g="group", s="group", a="or", b="cam")
HARNESSES = [
    Harness("history", history, [
        C(objs=OB, do=[("a", "m"), ("b", "z"), ("add", "g", "a"), ("add", "g", "b"), ("g", "m")]),
        C(objs=OB, do=[("a", "ms"), ("add", "g", "a"), ("add", "g", "b", "extend"), ("g", "s")]),
        C(objs=OB, do=[("add", "g", "a"), ("g", "x"), ("add", "g", "b", "insert"), ("g", "m")]),
        C(objs=OB, do=[("add", "g", "a"), ("add", "g", "b"), ("g", "my"), ("drop", "g", "a"), ("g", "m")]),
        C(objs=OB, do=[("add", "g", "a"), ("add", "g", "b", "iadd"), ("a", "m"), ("g", "z"), ("b", "m"), ("g", "m")]),
        C(objs=OB, do=[("make", "h", "ab"), ("h", "m"), ("make", "k", "ba"), ("k", "u"), ("h", "x")]),
        C(objs=OB, do=[("add", "g", "a"), ("add", "g", "b"), ("drop", "g", "b", "del"), ("g", "ym")]),
        C(objs=ON, do=[("add", "s", "a"), ("add", "g", "s"), ("add", "g", "b"), ("g", "m"), ("s", "m"), ("g", "z")]),
        C(objs=ON, do=[("add", "g", "s"), ("add", "s", "a"), ("g", "x"), ("add", "s", "b"), ("g", "u")]),
        C(objs=ON, do=[("s", "m"), ("add", "s", "a"), ("add", "g", "s"), ("g", "s"), ("drop", "g", "s"), ("g", "m"), ("s", "m")]),
        C(objs=C(g="group", s="group", t="group", a="box"), do=[("add", "t", "a"), ("add", "s", "t"), ("add", "g", "s"), ("g", "m"), ("s", "y"), ("t", "m"), ("g", "m")]),
    ], thorough_cases=[C(objs=OB, do=[("add", "g", "a"), ("g", a), ("add", "g", "b"), ("g", b)]) for a in "msxyz" for b in ("m", "s", "x", "y", "z") if a + b not in ("xm",)]),
    Harness("world", world, [C(at="m"), C(at="mZ"), C(at="YmX"), C(at="mZXm")]),
]
