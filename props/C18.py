import math

from props.common import *

PROPERTY = "C18"
BOUNDS = ("one to three rays, every value of the underlying uniform draws in [0, 1); width and length 0..20, maximum angle 0..90 degrees; moved, "
          "rotated by any angle (listed sequences); a lamp asked up to three times, with moves, retuning and edits of the rays in between")
ASSUMPTIONS = ["numpy.random.random_sample (and rand, uniform) is an arbitrary value of its documented range; its distribution is not modelled"]


def lamp(w, cls, name=""):
    a, b = w.real(name + "width", 0, 20), w.real(name + "length", 0, 20)
    t = w.angle(name + "max", 0, 90)
    wl = w.real(name + "wl", 0.2, 5)
    return getattr(w.m.comp, cls)(a, b, max_angle=t, wavelength=wl), a, b, t, wl


def frame(w, pl):
    o = pl.point([0.0, 0.0, 0.0])
    return o, [pl.vector([1.0 if i == j else 0.0 for i in range(3)]) for j in range(3)]


def local(w, rs, i, o, e):
    """ray i in the lamp's own frame (rigid placements)"""
    p = [rs.rays[0, j, i] - o[j] for j in range(3)]
    d = [rs.rays[1, j, i] for j in range(3)]
    return [w.dot(p, x) for x in e], [w.dot(d, x) for x in e]


def judge(w, rs, n, a, b, t, wl, pl, tag=""):
    o, e = frame(w, pl)
    w.check(tag + "as many rays as asked", true(rs.n_rays == n))
    _, cmax = w.sin_cos(t)
    for i in range(n):
        q, d = local(w, rs, i, o, e)
        w.check(f"{tag}ray {i}: starts on the lamp's rectangle", And(eq(q[0], 0), le(q[1], a / 2), ge(q[1], -a / 2), le(q[2], b / 2), ge(q[2], -b / 2), eq(rs.rays[0, 3, i], 1)))
        dd = [rs.rays[1, j, i] for j in range(3)]
        w.check(f"{tag}ray {i}: unit direction", And(eq(w.dot(dd, dd), 1), eq(rs.rays[1, 3, i], 0)))
        w.check(f"{tag}ray {i}: within the maximum angle", ge(d[0], cmax))
        w.check(f"{tag}ray {i}: Lambert intensity", eq(rs.intensity[i], 100 * d[0]))
    w.check(tag + "wavelength of the lamp", And(*[eq(rs.wavelength[i], wl) for i in range(n)]))
    w.check(tag + "vacuum index, generation zero, distinct ids", And(*[And(eq(rs.index[i], 1), eq(rs.generation[i], 0), eq(rs.id[i], i)) for i in range(n)]))


def emit(w):
    s, a, b, t, wl = lamp(w, w.case["cls"])
    pl = Place(w, s, w.case["at"])
    n = w.case["n"]
    rs = s.generate_rays(n)
    w.observe("rays", rs.rays)
    judge(w, rs, n, a, b, t, wl, pl)


def covers(w):
    """every part of the rectangle and of the cone is reachable"""
    s, a, b, t, wl = lamp(w, w.case["cls"])
    w.assume(And(ge(a, 1), ge(b, 1), ge(t, 10)))
    rs = s.generate_rays(2)
    _, cmax = w.sin_cos(t)

    def samples(f):
        def go():
            big = getattr(w.m.comp, w.case["cls"])(a, b, max_angle=t, wavelength=wl).generate_rays(4000)
            return any(f([big.rays[0, j, i] for j in range(3)], [big.rays[1, j, i] for j in range(3)]) for i in range(4000))
        return go

    def goal(label, f, g):
        w.reach(label, f([rs.rays[0, j, 0] for j in range(3)], [rs.rays[1, j, 0] for j in range(3)]), samples(g))

    for sg in (1, -1):
        for tg in (1, -1):
            goal(f"corner {sg} {tg} of the rectangle", lambda p, d: And(gt(sg * p[1], 0.45 * a), gt(tg * p[2], 0.45 * b)), lambda p, d: sg * p[1] > 0.45 * a and tg * p[2] > 0.45 * b)
            goal(f"quadrant {sg} {tg} of the cone", lambda p, d: And(gt(sg * d[1], 0), gt(tg * d[2], 0)), lambda p, d: sg * d[1] > 0 and tg * d[2] > 0)
    goal("rim of the cone", lambda p, d: lt(d[0], cmax + 0.05 * (1 - cmax)), lambda p, d: d[0] < cmax + 0.05 * (1 - cmax))
    goal("axis of the cone", lambda p, d: gt(d[0], 1 - 0.05 * (1 - cmax)), lambda p, d: d[0] > 1 - 0.05 * (1 - cmax))
    indep = lambda x: [x[0, j, i] for i in range(2) for j in (1, 2)]
    w.reach("two rays start at different places", gt(rs.rays[0, 1, 0] - rs.rays[0, 1, 1], 0.1 * a),
            lambda: any(x.rays[0, 1, 0] - x.rays[0, 1, 1] > 0.1 * a for x in (getattr(w.m.comp, w.case["cls"])(a, b, max_angle=t).generate_rays(2) for _ in range(400))))
    w.reach("two rays leave in different directions", gt(rs.rays[1, 1, 0] * rs.rays[1, 1, 1], 0),
            lambda: any(x.rays[1, 1, 0] * x.rays[1, 1, 1] > 0 for x in (getattr(w.m.comp, w.case["cls"])(a, b, max_angle=t).generate_rays(2) for _ in range(400))))


def spread(w):
    """positions are uniform over the rectangle and directions over the cone's solid angle, each from a draw of its own"""
    s, a, b, t, wl = lamp(w, w.case["cls"])
    w.assume(And(ge(a, 1), ge(b, 1), ge(t, 10)))
    rs = s.generate_rays(2)
    _, cmax = w.sin_cos(t)
    xs = []
    for i in range(2):
        xs += [(rs.rays[0, 1, i], -a / 2, a / 2), (rs.rays[0, 2, i], -b / 2, b / 2), (rs.rays[1, 0, i], cmax, 1.0)]

    def sample():
        n = 6000
        r = getattr(w.m.comp, w.case["cls"])(a, b, max_angle=t, wavelength=wl).generate_rays(n)
        y, z, c = r.rays[0, 1] / a + 0.5, r.rays[0, 2] / b + 0.5, (r.rays[1, 0] - cmax) / (1 - cmax)
        return [[float(v) for v in x] for x in (y[0::2], z[0::2], c[0::2], y[1::2], z[1::2], c[1::2])]

    w.uniform("uniform and independent starts and directions", xs, sample)


def static(w):
    """one lamp keeps its sample of rays whatever is done in between, and follows the lamp"""
    s, a, b, t, wl = lamp(w, "StaticLamp")
    n = 2
    r0 = s.generate_rays(n)
    r1 = s.generate_rays(n)
    w.check("asked again: the same rays", alleq([r1[i, j] for i in range(13) for j in range(n)], [r0[i, j] for i in range(13) for j in range(n)]))
    keep = [r0[i, j] for i in range(13) for j in range(n)]
    what = w.case["what"]
    wl2 = wl
    pl = Place(w, s, w.case["at"])
    if "edit" in what:
        r1.rays[0] = 5.0
        r1.intensity = 1.0
        r0.rays[1] = 0.5
    if "tune" in what:
        wl2 = w.real("wl2", 0.2, 5)
        s.wavelength = wl2
    if "other" in what:
        s.generate_rays(3)
        s2, *_ = lamp(w, "StaticLamp", "o")
        s2.generate_rays(n)
    r2 = s.generate_rays(n)
    K = lambda i, j: keep[i * n + j]
    for j in range(n):
        p = pl.point([K(i, j) for i in range(3)])
        d = pl.vector([K(4 + i, j) for i in range(3)])
        w.check(f"ray {j}: start is the first sample's, placed", alleq([r2.rays[0, i, j] for i in range(4)], p + [1.0]))
        w.check(f"ray {j}: direction is the first sample's, placed", alleq([r2.rays[1, i, j] for i in range(4)], d + [0.0]))
        w.check(f"ray {j}: intensity is the first sample's", eq(r2.intensity[j], K(9, j)))
        w.check(f"ray {j}: wavelength is the lamp's", eq(r2.wavelength[j], wl2))
    judge(w, r2, n, a, b, t, wl2, pl, "later: ")


def counts(w):
    """different counts and different lamps have their own rays"""
    s, a, b, t, wl = lamp(w, "StaticLamp")
    q, a2, b2, t2, wl2 = lamp(w, "StaticLamp", "o")
    pl = Place(w, w.m.g3d.WorldObject(), "", "n")
    for n in (1, 2):
        judge(w, s.generate_rays(n), n, a, b, t, wl, pl, f"first lamp, {n}: ")
        judge(w, q.generate_rays(n), n, a2, b2, t2, wl2, pl, f"second lamp, {n}: ")


HARNESSES = [
    Harness("emit", emit, [dict(cls=c, n=n, at=at) for c in ("Lamp", "StaticLamp") for n, at in ((1, ""), (3, ""), (1, "m"), (1, "x"), (1, "y"), (1, "z"), (1, "mzy"))]),
    Harness("covers", covers, [dict(cls="Lamp"), dict(cls="StaticLamp")]),
    Harness("spread", spread, [dict(cls="Lamp"), dict(cls="StaticLamp")]),
    Harness("static", static, [dict(at=at, what=x) for at, x in (("", "edit"), ("m", ""), ("x", ""), ("y", "tune"), ("z", "other"), ("", "tune edit"), ("mz", "other tune"))]),
    Harness("counts", counts),
]
