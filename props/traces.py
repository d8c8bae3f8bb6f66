"""Shared pieces of the tracer harnesses."""
from props.common import *

COLS = ["generation", "intensity", "wavelength", "index", "id", "surface", "x0", "y0", "z0", "x1", "y1", "z1", "x_tilt", "y_tilt", "z_tilt"]


class Src:
    """a source that emits the rays it is told to"""

    def __init__(self, w, pos, dirs, intensity=None, wavelength=None, index=None):
        self.w, self.a = w, w.rays(pos, dirs)
        self.intensity, self.wavelength, self.index = intensity, wavelength, index
        self.asked = []

    def generate_rays(self, n):
        self.asked.append(n)
        k = self.a.shape[-1]
        r = self.w.m.pyrayt.RaySet(k)
        r.rays = self.a.copy()
        for f in ("intensity", "wavelength", "index"):
            v = getattr(self, f)
            if v is not None:
                setattr(r, f, self.w.arr(v))
        return r


def rows(df):
    """the results as plain rows"""
    out = []
    for i in range(len(df)):
        out.append({c: df[c].iloc[i] for c in df.columns})
    return out


def num(x):
    return x if isinstance(x, (int, float)) else x


def pt(r, k):
    return [r["x" + k], r["y" + k], r["z" + k]]


def tilt(r):
    return [r["x_tilt"], r["y_tilt"], r["z_tilt"]]


class Comp:
    """a component facing x with what it should be: kind plane or ball"""

    def __init__(self, w, kind, name, material, lo=-10, hi=10):
        fixed = kind.endswith(("!", "#"))  # known size and height, unknown (or fixed: #) position along x
        self.material = material
        self.c = [0.25 if kind[-1] == "#" else w.real(name + "x", lo, hi), 0.5, -0.25] if fixed else [w.real(name + "x", lo, hi), w.real(name + "y", -3, 3), w.real(name + "z", -3, 3)]
        kind = self.kind = kind.rstrip("!#")
        self.face = -1.0 if kind == "enalp" else 1.0  # which way a plane faces
        kind = self.kind = {"enalp": "plane"}.get(kind, kind)
        if fixed:
            self.a, self.b, self.r, self.h = 8.0, 6.0, 2.5, [1.0, 2.0, 3.0]
        elif kind == "plane":
            self.a, self.b = w.real(name + "a", 0.1, 20), w.real(name + "b", 0.1, 20)
        elif kind == "box":
            self.h = [w.real(name + "h" + x, 0.1, 5) for x in "xyz"]
        else:
            self.r = w.real(name + "r", 0.1, 5)
        if kind == "plane":
            # width along z, length along y
            self.obj = w.m.g3d.XYPlane(self.a, self.b, material=material).rotate_y(90 * self.face).move(*self.c)
        elif kind == "box":
            self.obj = w.m.g3d.Cuboid([-x for x in self.h], self.h, material=material).move(*self.c)
        else:
            self.obj = w.m.g3d.Sphere(self.r, material=material).move(*self.c)

    @property
    def id(self):
        return self.obj.get_id()

    def met(self, p, d):
        """a ray running along d meets the component here (planes do not count for rays running within them)"""
        return And(self.on(p), Or(ge(d[0], 1e-3), le(d[0], -1e-3))) if self.kind == "plane" else self.on(p)

    def on(self, p):
        q = [p[i] - self.c[i] for i in range(3)]
        if self.kind == "plane":
            return And(eq(q[0], 0), le(q[2], self.a / 2), ge(q[2], -self.a / 2), le(q[1], self.b / 2), ge(q[1], -self.b / 2))
        if self.kind == "box":
            return And(*[And(le(-self.h[i], q[i]), le(q[i], self.h[i])) for i in range(3)], Or(*[Or(eq(q[i], self.h[i]), eq(q[i], -self.h[i])) for i in range(3)]))
        return eq(q[0] * q[0] + q[1] * q[1] + q[2] * q[2], self.r * self.r)


EPS = 1e-4


def normal(w, c, e):
    """candidates (condition, outward unit normal) at a point of the component's surface"""
    q = [e[i] - c.c[i] for i in range(3)]
    if c.kind == "plane":
        return [(True, [c.face, 0.0, 0.0])]
    if c.kind == "ball":
        return [(True, [x / c.r for x in q])]
    out = []
    for i in range(3):
        for s in (1.0, -1.0):
            out.append((eq(q[i], s * c.h[i]), [s if j == i else 0.0 for j in range(3)]))
    return out


def after(w, c, e, d, md):
    """direction and metadata behind the interaction (None: absorbed); one outcome per way on"""
    kind = c.optics[0]
    if kind == "absorb":
        return None
    md = dict(md)
    if kind == "dim":
        md["intensity"] = md["intensity"] * c.optics[1]
        return d, md
    if kind == "shift":
        md["wavelength"] = md["wavelength"] + c.optics[1]
        return d, md
    n = None
    if c.kind == "box":  # the normal on an edge is not specified
        q = [e[i] - c.c[i] for i in range(3)]
        inner = [And(le(q[i], c.h[i] - 1e-3), ge(q[i], 1e-3 - c.h[i])) for i in range(3)]
        w.assume(Or(And(inner[0], inner[1]), And(inner[0], inner[2]), And(inner[1], inner[2])))
    for cond, m in normal(w, c, e)[:-1]:
        if w.branch(cond):
            n = m
            break
    if n is None:
        n = normal(w, c, e)[-1][1]
    k = w.dot(d, n)
    if kind == "mirror":
        return [d[i] - 2 * k * n[i] for i in range(3)], md
    n1 = md["index"]
    n2 = c.optics[1] if w.branch(lt(k, 0)) else 1.0
    t = [(d[i] - k * n[i]) * n1 / n2 for i in range(3)]
    rad = 1 - w.dot(t, t)
    if w.branch(lt(rad, 0)):
        return [d[i] - 2 * k * n[i] for i in range(3)], md
    md["index"] = n2
    q = w.sqrt(rad)
    if w.branch(lt(k, 0)):
        q = -q
    return [t[i] + q * n[i] for i in range(3)], md


def optics(w, c):
    """the material of a component"""
    mat = w.m.mat
    kind = c.optics[0]
    if kind == "absorb":
        return mat.absorber
    if kind == "mirror":
        return mat.mirror
    if kind == "glass":
        return mat.BasicRefractor(c.optics[1])

    class Custom(mat.TracableMaterial):
        def trace(self, surface, ray_set):
            if kind == "dim":
                ray_set.intensity = ray_set.intensity * c.optics[1]
            else:
                ray_set.wavelength = ray_set.wavelength + c.optics[1]
            return ray_set

    return Custom()


def follow(w, t, rs, i, p, d, md, cs, limit, tag="", exact=False):
    """all rows of one ray against what physics and the documentation say"""
    off, thr = t.ray_offset_value, t.ray_intensity_threshold
    mine = [r for r in rs if int(r["id"]) == i]
    name = f"{tag}ray {i}"
    u = w.real(f"{tag}u{i}", 0, 60)
    g = 0
    dead = False
    while True:
        here = along(p, d, u)
        hit = And(gt(u, EPS), Or(*[c.met(here, d) for c in cs]))
        if g >= len(mine):
            if dead:
                w.check(f"{name}: ends when absorbed", true(True))
            elif g >= limit:
                w.check(f"{name}: ends at the generation limit", true(g == limit))
            else:
                w.check(f"{name}: ends after {g} rows only when dim or nothing is ahead", Or(lt(md["intensity"], thr), Not(hit)))
            return g
        w.check(f"{name}: row {g} follows an interaction within the limits", And(true(not dead and g < limit), ge(md["intensity"], thr)))
        if dead:
            return g
        r = mine[g]
        w.check(f"{name}: row {g} has generation {g}", eq(r["generation"], g))
        w.check(f"{name}: row {g} starts where the last one ended", alleq(pt(r, "0"), p))
        w.check(f"{name}: row {g} direction", alleq(tilt(r), d))
        w.check(f"{name}: row {g} keeps intensity, wavelength and index", And(*[eq(r[f], md[f]) for f in ("intensity", "wavelength", "index")]))
        e = pt(r, "1")
        D = w.dot([e[j] - p[j] for j in range(3)], d)
        w.check(f"{name}: row {g} ends ahead on its line", And(gt(D, 0), alleq(e, along(p, d, D))))
        w.check(f"{name}: row {g} passes nothing", Not(And(hit, lt(u, D - EPS))))
        c = None
        for x in cs:
            if w.branch(eq(r["surface"], x.id)):
                c = x
                break
        w.check(f"{name}: row {g} names a surface of the system", true(c is not None))
        if c is None:
            return g
        w.check(f"{name}: row {g} ends on the surface it names", c.on(e))
        nxt = after(w, c, e, d, md)
        if nxt is None:
            dead = True
        else:
            d, md = nxt
            p = [e[j] + off * d[j] for j in range(3)]
        g += 1
