from props.traces import *

PROPERTY = "C31"
BOUNDS = ("one to three sources of one or two rays each with any origin within +-6 along listed directions, any wavelength 0.3..1, traced through a mirror and an "
          "absorber of fixed size and place with generation limits 1 to 3; both views, every colouring; the picture of the components is of 2x2 pixels")


class Axis:
    """what show() puts on a matplotlib axis"""

    def __init__(self):
        self.calls, self.images, self.aspect = [], 0, "auto"

    def quiver(self, *a, **k):
        self.calls.append((a, k))

    def imshow(self, *a, **k):
        self.images += 1

    def set_aspect(self, a, *r, **k):
        self.aspect = a

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: None


def listed(x):
    if hasattr(x, "to_numpy"):
        x = x.to_numpy()
    return [x[i] for i in range(len(x))] if hasattr(x, "__len__") else [x]


def colour(c, i, n):
    """the i-th of n arrows' colour as red, green, blue; a name or None as it is"""
    if c is None or isinstance(c, str):
        return c
    if getattr(c, "ndim", 1) == 2 or (not hasattr(c, "ndim") and not isinstance(c[0], (int, float))):
        c = c[i] if len(c) > 1 else c[0]
    return c if isinstance(c, str) else [c[j] for j in range(3)]


def arrows(ax):
    """every arrow as (x, y, dx, dy, colour) in data units, None where the options do not mean data units"""
    out, good = [], True
    for a, k in ax.calls:
        X, Y, U, V = [listed(x) for x in a[:4]]
        su = k.get("scale_units", k.get("units"))
        good = good and su in ("x", "y", "xy") and (k.get("angles", "uv") == "xy" or ax.aspect in ("equal", 1)) and len({len(X), len(Y), len(U), len(V)}) == 1
        s = k.get("scale")
        good = good and s is not None
        c = k.get("color")
        for i in range(len(X)):
            ci = colour(c, i, len(X))
            out.append((X[i], Y[i], U[i] / s, V[i] / s, ci))
    return out, good


def shown(w):
    k = w.case
    view, how = k["view"], k.get("color")
    g = w.m.g3d
    comps = [g.XYPlane(8.0, 8.0, material=w.m.mat.mirror).rotate_y(90).move_x(3.0), g.XYPlane(20.0, 20.0, material=w.m.mat.absorber).rotate_y(90).move_x(-9.0)]
    srcs, n = [], k.get("n", 1)
    for s in range(k.get("sources", 1)):
        ps = [[w.real(f"{a}{s}{i}", -6, 6) if a in k.get("free", "xyz") else 0.5 for a in "xyz"] for i in range(n)]
        ls = [w.real(f"l{s}{i}", 0.3, 1) for i in range(n)]
        srcs.append(Src(w, ps, [k.get("dir", (1.0, 0.0, 0.0))] * n, wavelength=ls))
    t = w.m.pyrayt.RayTracer(srcs, comps, rays_per_source=n, generation_limit=k.get("limit", 2))
    opts = dict(view=view, color_function=how, resolution=2)
    ax = Axis()
    t.show(axis=ax, **opts)
    w.check("no arrows before a trace", true(not ax.calls))
    w.check("the components are drawn", true(ax.images > 0))
    rs = rows(t.trace())
    ax = Axis()
    t.show(axis=ax, **opts)
    ar, good = arrows(ax)
    w.check("arrows are in data units", true(good))
    w.check("one arrow per segment", true(len(ar) == len(rs)))
    b = "y" if view == "xy" else "z"
    rgb = w.m.utils.wavelength_to_rgb
    for r in rs:
        want = [r["x0"], r[b + "0"], r["x1"] - r["x0"], r[b + "1"] - r[b + "0"]]
        here = []
        for a in ar:
            c = [eq(x, y) for x, y in zip(a[:4], want)]
            if how == "wavelength":
                e = rgb(w.arr([r["wavelength"]]))
                c += [eq(a[4][j], e[0, j]) for j in range(3)] if not isinstance(a[4], str) else [true(False)]
            here.append(And(*c))
        w.check("every segment has its arrow", Or(*here))
    for a in ar:
        w.check("every arrow is a segment", Or(*[And(*[eq(x, y) for x, y in zip(a[:4], [r["x0"], r[b + "0"], r["x1"] - r["x0"], r[b + "1"] - r[b + "0"]])]) for r in rs]))
    if how == "source":
        rgbs = all(a[4] is not None and not isinstance(a[4], str) for a in ar)
        w.check("colours given", true(rgbs))
        met = lambda a, r: And(*[eq(x, y) for x, y in zip(a[:4], [r["x0"], r[b + "0"], r["x1"] - r["x0"], r[b + "1"] - r[b + "0"]])])
        for i, r in enumerate(rs):
            for q in rs[:i] if rgbs else ():
                same = int(r["id"]) // n == int(q["id"]) // n
                far = lambda x, y: Or(*[Or(ge(x[4][j] - y[4][j], 0.01), le(x[4][j] - y[4][j], -0.01)) for j in range(3)])
                near = lambda x, y: And(*[eq(x[4][j], y[4][j]) for j in range(3)])
                w.check("one colour for the rays of a source" if same else "different sources differ in colour",
                        Or(*[And(met(x, r), met(y, q), near(x, y) if same else far(x, y)) for x in ar for y in ar if same or x is not y]))
    rs2 = rows(t.get_results())
    w.check("showing does not change the table", And(true(len(rs) == len(rs2)), *[eq(r[c], r2[c]) for r, r2 in zip(rs, rs2) for c in COLS]))
    t.reset()
    ax = Axis()
    t.show(axis=ax, view=view, resolution=2)
    w.check("no arrows after a reset", true(not ax.calls))


C = dict
HARNESSES = [Harness("shown", shown, [C(view="xy"), C(view="xz"), C(view="xy", n=2, color="wavelength"), C(view="xz", sources=2, color="source"),
                                      C(view="xz", dir=(0.6, -0.48, 0.64), color="wavelength", limit=1), C(view="xy", sources=3, color="source", limit=1), C(view="xy", sources=2, n=2, color="source", limit=1, free="y")],
                     policy="fork", maxpaths=1500)]
