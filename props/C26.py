from props.common import *

PROPERTY = "C26"
BOUNDS = ("images of one to six pixels; one or two objects (balls, boxes, a drilled box, and stand-ins that report any distances whatsoever); "
          "cameras at any position, quarter-turned or turned about an axis; depths 0.001 to 40")


# ---------------------------------------------------------------- camera
def camera(w):
    """where each pixel looks from and towards"""
    h, v = w.case["px"]
    asp = w.case.get("aspect", v / h)
    width = w.real("width", 0.1, 20)
    cam = w.m.g3d.OrthographicCamera(h, width, asp)
    pl = Place(w, cam, w.case["place"])
    r = cam.generate_rays()
    w.check("one ray per pixel", true(tuple(cam.get_resolution()) == (h, v) and tuple(r.shape) == (2, 4, h * v)))
    sp = cam.get_span()
    w.check("span", And(eq(sp[0], width), eq(sp[1], width * asp)))
    ax = pl.vector([1.0, 0.0, 0.0])
    for row in range(v):
        for col in range(h):
            i = row * h + col
            y = width / 2 - (width * col / (h - 1) if h > 1 else 0)
            z = asp * width / 2 - (asp * width * row / (v - 1) if v > 1 else 0)
            p = pl.point([0.0, y, z])
            w.check(f"pixel {row},{col} looks from its place in the frame", And(*[eq(r[0, k, i], p[k]) for k in range(3)], eq(r[0, 3, i], 1)))
            d = [r[1, k, i] for k in range(3)]
            w.check(f"pixel {row},{col} looks along the camera axis",
                    And(eq(r[1, 3, i], 0), eq(w.dot(d, d), 1), gt(w.dot(d, ax), 0),
                        *[eq(d[a] * ax[b], d[b] * ax[a]) for a, b in ((0, 1), (1, 2), (2, 0))]))


# ---------------------------------------------------------------- any objects at all
class Shade:
    """a material that paints the point it is shaded at, the surface's number, and checks what it is given"""

    def __init__(self, w, tag):
        self.w, self.tag, self.seen = w, tag, []

    def shade(self, rays, normals, light_positions=None):
        self.seen.append((rays, normals, light_positions))
        n = rays.shape[-1]
        out = self.w.np.empty((4, n))
        out[:3] = rays[0, :3]
        out[3] = self.tag
        return out


class Surf:
    def __init__(self, w, tag):
        self.w, self.tag = w, tag

    def shade(self, rays, distances, light_positions=None, **k):
        out = self.w.np.empty((4, rays.shape[-1]))
        out[0] = distances
        out[1:3] = rays[0, 1:3]
        out[3] = self.tag
        return out


class Stand:
    """an object: for each pixel any distances, belonging to any of its surfaces"""

    def __init__(self, w, name, n, ids, hits):
        self.w = w
        self.ids = ids
        self.surface_ids = tuple((i, Surf(w, i)) for i in ids)
        self.h = [[self.dist(f"{name}h{j}_{i}") for i in range(n)] for j in range(hits)]
        self.s = [[ids[(i + j) % len(ids)] for i in range(n)] for j in range(hits)]
        for i in range(n):
            for j in range(1, hits):  # objects report their crossings in order, misses last
                w.assume(le(self.h[j - 1][i], self.h[j][i]))

    def dist(self, name):
        x = self.w.real(name, -40, 40)
        self.w.assume(Or(ge(x, 0.001), le(x, -0.001)))
        return self.w.np.where(x > 39, self.w.np.inf, x)[()] if self.w.case.get("miss", True) else x

    def intersect(self, rays):
        return self.w.np.array(self.h, dtype=float), self.w.np.array(self.s)


def nearest(w, shapes, i):
    """candidates (distance, surface) of pixel i"""
    return [(s.h[j][i], s.s[j][i]) for s in shapes for j in range(len(s.h))]


def shapes_of(w, n):
    out, k = [], 3
    for a, (nid, hits) in enumerate(w.case["objs"]):
        ids = list(range(k, k + nid))
        k += nid + 2
        out.append(Stand(w, "abc"[a], n, ids, hits))
    return out


def shaded(w):
    h, v = w.case["px"]
    n = h * v
    cam = w.m.g3d.OrthographicCamera(h, 4, v / h)
    shapes = shapes_of(w, n)
    img = w.m.render.ShadedRenderer(cam, shapes, light_position=w.arr([0, 0, 5, 1])).render()
    w.check("image is rows by columns of rgba", true(tuple(img.shape) == (v, h, 4)))
    rays = cam.generate_rays()
    for i in range(n):
        px = img[i // h, i % h]
        cand = nearest(w, shapes, i)
        for t, s in cand:
            best = And(gt(t, 0), lt(t, 39.5), *[Or(le(t2, 0), gt(t2, t)) for t2, _ in cand if t2 is not t])
            w.check(f"pixel {i} shows what it meets first", Implies(best, And(eq(px[3], s), eq(px[0], t), eq(px[1], rays[0, 1, i]), eq(px[2], rays[0, 2, i]))))
        w.check(f"pixel {i} is clear when nothing is ahead", Implies(And(*[Or(le(t, 0), gt(t, 39.5)) for t, _ in cand]), And(*[eq(px[k], 0) for k in range(4)])))


def edges(w):
    h, v = w.case["px"]
    n = h * v
    cam = w.m.g3d.OrthographicCamera(h, 4, v / h)
    shapes = shapes_of(w, n)
    ren = w.m.render.EdgeRender(cam, shapes)
    img = ren.render()
    kept = ren.get_results()
    w.check("the image can be asked for again", And(true(tuple(kept.shape) == tuple(img.shape)), *[eq(a, b) for a, b in zip(kept.reshape(-1), img.reshape(-1))]))
    w.check("image is rows by columns of rgba", true(tuple(img.shape) == (v, h, 4)))
    # what each pixel sees
    see = []
    for i in range(n):
        best, who = 39.5, -1
        for t, s in nearest(w, shapes, i):
            if w.branch(And(gt(t, 0), lt(t, best))):
                best, who = t, s
        see.append(who)
    at = lambda r, c: see[r * h + c] if 0 <= r < v and 0 <= c < h else -1  # noqa
    for r in range(v):
        for c in range(h):
            line = any(at(a, b) != at(a, b - 1) or at(a, b) != at(a - 1, b)
                       for a in range(max(r - 1, 0), min(r + 2, v)) for b in range(max(c - 1, 0), min(c + 2, h)))
            w.check(f"pixel {r},{c} is {'inked' if line else 'clear'}", And(eq(img[r, c, 3], 1.0 if line else 0.0), *[eq(img[r, c, k], 0.0 if line else 1.0) for k in range(3)]))


# ---------------------------------------------------------------- real objects
def on_box(p, lo, hi):
    return And(in_box(p, lo, hi), Or(*[Or(eq(p[k], lo[k]), eq(p[k], hi[k])) for k in range(3)]))


def in_open(p, lo, hi):
    return And(*[And(lt(lo[k], p[k]), lt(p[k], hi[k])) for k in range(3)])


def body(w, kind, mat):
    """an object, its solid, its skin"""
    g = w.m.g3d
    if kind == "ball":
        return g.Sphere(1.5, material=mat), lambda p: le(w.dot(p, p), 2.25), lambda p: eq(w.dot(p, p), 2.25)
    if kind == "box":
        b = (-1, -0.5, -2), (1, 1.5, 1)
        return g.Cuboid(*b, material=mat), lambda p: in_box(p, *b), lambda p: on_box(p, *b)
    if kind == "half":
        a, b = ((-1, -2, -2), (1, 2, 2)), ((-2, -1, -1), (0.5, 1, 1))
        o = w.m.csg.difference(g.Cuboid(*a, material=mat), g.Cuboid(*b, material=mat))
        return o, lambda p: And(in_box(p, *a), Not(in_box(p, *b))), lambda p: Or(And(on_box(p, *a), Not(in_open(p, *b))), And(on_box(p, *b), in_box(p, *a)))
    raise KeyError(kind)


def scene(w):
    h, v = w.case["px"]
    cam = w.m.g3d.OrthographicCamera(h, 2, v / h)
    turn = w.case.get("turn", "")
    if turn == "top":
        cam.rotate_y(90).rotate_z(90)
    elif turn == "front":
        cam.rotate_z(90)
    cp = Place(w, cam, "m", "cam")
    objs, ins, skins, tags = [], [], [], []
    for a, kind in enumerate(w.case["objs"]):
        o, f, g = body(w, kind, Shade(w, 5.0 + a))
        t = w.vec("ab"[a] + "t", lo=-6, hi=6)
        o.move(*t)
        objs.append(o)
        ins.append(lambda p, f=f, t=t: f([p[k] - t[k] for k in range(3)]))
        skins.append(lambda p, g=g, t=t: g([p[k] - t[k] for k in range(3)]))
        tags.append(5.0 + a)
    img = w.m.render.ShadedRenderer(cam, objs, light_position=w.arr([0, 0, 5, 1])).render()
    rays = cam.generate_rays()
    for i in range(h * v):
        px = [img[i // h, i % h, k] for k in range(4)]
        o = [rays[0, k, i] for k in range(3)]
        d = [rays[1, k, i] for k in range(3)]
        t = sum((px[k] - o[k]) * d[k] for k in range(3))
        u = w.real(f"u{i}", 0.001, 60)
        shown = Or(*[eq(px[3], g) for g in tags])
        same = And(*[Iff(f(o), f(along(o, d, u))) for f in ins])
        w.check(f"pixel {i}: on the line of sight, ahead", Implies(shown, And(gt(t, 0), *[eq(px[k], o[k] + t * d[k]) for k in range(3)])))
        w.check(f"pixel {i}: nothing comes before what is shown", Implies(And(shown, lt(u, t)), same))
        w.check(f"pixel {i}: clear only when nothing is ahead", Or(shown, And(same, *[eq(x, 0) for x in px])))
        for f, g in zip(skins, tags):
            w.check(f"pixel {i}: the object shown has its skin there", Implies(eq(px[3], g), f(px[:3])))


class Canvas:
    def imshow(self, image, extent=None, **k):
        self.image, self.extent = image, extent

    def set_axisbelow(self, x):
        pass


def drawn(w):
    """draw() looks at the whole scene from outside, the right way up"""
    view = w.case["view"]
    res = w.case["res"]
    g = w.m.g3d
    dep = 2 if view == "xy" else 1  # the axis looked along
    ax = [0, 1] if view == "xy" else [0, 2]
    mv = [w.real("a", -6, 6), w.real("b", -6, 6)]
    slide = w.real("slide", -1.3, 1.3)
    half = [[2.0, 2.0, 2.0], [0.6, 0.5, 0.7]]
    half[0][dep] = 0.25
    objs, at = [], []
    for k in range(2):
        o = g.Cuboid([-x for x in half[k]], half[k], material=Shade(w, 5.0 + k))
        p = [0.0, 0.0, 0.0]
        p[dep] = mv[k]
        if k:
            p[ax[w.case.get("along", 0)]] = slide
        o.move(*p)
        at.append(p)
        objs.append(o)
    gap = mv[1] - mv[0]
    w.assume(Or(ge(gap, 1.5), le(gap, -1.5)))
    if w.case.get("one"):
        objs = [objs[0]]
    cv = Canvas()
    w.m.render.draw(objs if len(objs) > 1 else objs[0], view=view, axis=cv, shaded=True, resolution=res)
    img, ext = cv.image, cv.extent
    w.check("four-channel square image", true(tuple(img.shape) == (res, res, 4)))
    w.check("the frame holds the scene", And(le(ext[0], -2), ge(ext[1], 2), le(ext[2], -2), ge(ext[3], 2)))
    W, H = ext[1] - ext[0], ext[3] - ext[2]
    for r in range(res):
        for c in range(res):
            px = [img[r, c, k] for k in range(4)]
            x0, y0 = ext[0] + c * W / res, ext[3] - (r + 1) * H / res
            shown = Or(*[eq(px[3], 5.0 + k) for k in range(len(objs))])
            q = [px[ax[0]], px[ax[1]]]
            w.check(f"pixel {r},{c} shows a point of its own cell", Implies(shown, And(le(x0, q[0]), le(q[0], x0 + W / res), le(y0, q[1]), le(q[1], y0 + H / res))))
            for k in range(len(objs)):
                lo = [at[k][m] - half[k][m] for m in range(3)]
                hi = [at[k][m] + half[k][m] for m in range(3)]
                near = hi[dep] if view == "xy" else lo[dep]
                w.check(f"pixel {r},{c} shows object {k} on its near side", Implies(eq(px[3], 5.0 + k), And(eq(px[dep], near), *[And(le(lo[m], px[m]), le(px[m], hi[m])) for m in ax])))
                over = And(*[And(lt(lo[m], q[n]), lt(q[n], hi[m])) for n, m in enumerate(ax)])
                w.check(f"pixel {r},{c}: object {k} does not hide what is shown", Implies(And(shown, over), le(near, px[dep]) if view == "xy" else le(px[dep], near)))
                cell = And(lt(lo[ax[0]], x0), lt(x0 + W / res, hi[ax[0]]), lt(lo[ax[1]], y0), lt(y0 + H / res, hi[ax[1]]))
                w.check(f"pixel {r},{c} is not clear where object {k} covers it", Implies(cell, shown))


def flat(w):
    """scenes without extent along an axis, and very wide ones, are drawn as well"""
    view, kind, res = w.case["view"], w.case["kind"], w.case["res"]
    ax = [0, 1] if view == "xy" else [0, 2]
    at = [w.real("a", -6, 6), w.real("b", -6, 6), w.real("c", -6, 6)]
    if kind == "bar":
        half = [30.0, 0.25, 0.25]
        o = w.m.g3d.Cuboid([-x for x in half], half, material=Shade(w, 5.0))
    elif kind == "sheet":
        half = [1.5, 2.0, 0.0]
        o = w.m.g3d.XYPlane(3, 4, material=Shade(w, 5.0))
        if w.case.get("turn") == "x":
            o.rotate_x(90)
            half = [1.5, 0.0, 2.0]
        elif w.case.get("turn") == "y":
            o.rotate_y(90)
            half = [0.0, 2.0, 1.5]
    elif kind == "stop":
        half = [0.0, 1.5, 2.0]
        o = w.m.comp.baffle((3, 4))
        o.material = Shade(w, 5.0)
    else:
        half = [0.0, 1.5, 1.5]
        o = w.m.comp.baffle(3.0)
        o.material = Shade(w, 5.0)
    o.move(*at)
    cv = Canvas()
    w.m.render.draw(o, view=view, axis=cv, shaded=w.case.get("shaded", True), resolution=res)
    img, ext = cv.image, cv.extent
    w.check("a four-channel image", true(len(img.shape) == 3 and img.shape[2] == 4 and img.shape[0] >= 1 and img.shape[1] >= 1))
    w.check("the frame holds the scene", And(*[And(le(ext[2 * n], at[m] - half[m]), ge(ext[2 * n + 1], at[m] + half[m])) for n, m in enumerate(ax)]))
    W, H = ext[1] - ext[0], ext[3] - ext[2]
    w.check("the frame has an extent", And(gt(W, 0), gt(H, 0)))
    rows, cols = img.shape[:2]
    for r in range(rows if w.case.get("shaded", True) else 0):
        for c in range(cols):
            px = [img[r, c, k] for k in range(4)]
            x0, y0 = ext[0] + c * W / cols, ext[3] - (r + 1) * H / rows
            shown = eq(px[3], 5.0)
            q = [px[ax[0]], px[ax[1]]]
            w.check(f"pixel {r},{c} shows a point of its own cell", Implies(shown, And(le(x0, q[0]), le(q[0], x0 + W / cols), le(y0, q[1]), le(q[1], y0 + H / rows))))
            inside = [And(lt(at[m] - half[m], a), lt(a + s, at[m] + half[m])) for m, a, s in zip(ax, (x0, y0), (W / cols, H / rows))]
            if half[ax[0]] and half[ax[1]]:
                w.check(f"pixel {r},{c} is not clear where the object covers it", Implies(And(*inside), shown))


HARNESSES = [
    Harness("camera", camera, [dict(px=(2, 2), place="m"), dict(px=(3, 2), place="x"), dict(px=(2, 1), place="y"), dict(px=(2, 3), aspect=1.5, place="z"),
                               dict(px=(2, 2), place="zxm"), dict(px=(2, 2), place="uym")]),
    Harness("shaded", shaded, [dict(px=(1, 1), objs=[(1, 2)]), dict(px=(2, 1), objs=[(1, 1), (1, 1)]), dict(px=(1, 1), objs=[(2, 2), (1, 2)]), dict(px=(2, 1), objs=[(1, 1), (1, 1), (1, 1)])], policy="fork"),
    Harness("edges", edges, [dict(px=(3, 2), objs=[(1, 1)]), dict(px=(2, 1), objs=[(1, 1), (1, 1)]), dict(px=(1, 2), objs=[(2, 2)]), dict(px=(2, 1), objs=[(1, 1), (1, 1), (1, 1)])], policy="fork", maxpaths=2000),
    Harness("scene", scene, [dict(px=(1, 1), objs=["box"]), dict(px=(2, 1), objs=["box"]), dict(px=(1, 1), objs=["ball"]), dict(px=(1, 1), objs=["half"]),
                             dict(px=(1, 1), objs=["box", "ball"]), dict(px=(1, 1), objs=["box"], turn="top"), dict(px=(1, 1), objs=["box"], turn="front")], policy="fork"),
    Harness("drawn", drawn, [dict(view="xy", res=4), dict(view="xz", res=4), dict(view="xy", res=4, along=1), dict(view="xz", res=4, along=1), dict(view="xz", res=5, one=1), dict(view="xy", res=5, one=1)], policy="fork"),
    Harness("flat", flat, [dict(view="xy", kind="sheet", res=5), dict(view="xz", kind="sheet", res=3), dict(view="xz", kind="sheet", turn="x", res=5), dict(view="xy", kind="sheet", turn="y", res=3),
                           dict(view="xy", kind="stop", res=4), dict(view="xz", kind="stop", res=3), dict(view="xy", kind="disk", res=2), dict(view="xz", kind="disk", res=2),
                           dict(view="xy", kind="bar", res=20), dict(view="xz", kind="bar", res=20), dict(view="xy", kind="disk", res=3, shaded=False)], policy="fork"),
]
