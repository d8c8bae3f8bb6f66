from props.common import *

PROPERTY = "C17"
BOUNDS = ("one to five rays per source; spacing and diameter 0..20, cone half angles 0..180 and wedge angles 0..360 degrees, wavelength 0.2..5; "
          "moved, rotated by any angle and scaled 0.25..4 (listed sequences); two sources of one kind alive at once")


def common(w, src, rs, n, wl, pl, P, D, tag=""):
    """local starts P and directions D, mapped by the placement"""
    w.check(tag + "as many rays as asked", true(rs.n_rays == n))
    for i in range(n):
        q = pl.point(P[i])
        v = pl.vector(D[i])
        L = w.sqrt(w.dot(v, v))
        p = [rs.rays[0, j, i] for j in range(4)]
        d = [rs.rays[1, j, i] for j in range(4)]
        w.check(f"{tag}ray {i}: starts where the placed source puts it", alleq(p, q + [1.0]))
        w.check(f"{tag}ray {i}: leaves in the placed direction with unit length", And(*[eq(d[j] * L, v[j]) for j in range(3)], eq(d[3], 0)))
    w.check(tag + "wavelength of the source", And(*[eq(rs.wavelength[i], wl) for i in range(n)]))
    w.check(tag + "full intensity, vacuum index, generation zero", And(*[And(eq(rs.intensity[i], 100), eq(rs.index[i], 1), eq(rs.generation[i], 0)) for i in range(n)]))
    w.check(tag + "distinct ids", And(*[eq(rs.id[i], i) for i in range(n)]))


def axis(n):
    return [[1.0, 0.0, 0.0]] * n


def make(w, kind, name=""):
    C = w.m.comp
    wl = w.real(name + "wl", 0.2, 5)
    if kind == "line":
        a = w.real(name + "a", 0, 20)
        s = C.LineOfRays(spacing=a, wavelength=wl)
        pts = lambda n: [[0.0, 0.0 if n == 1 else a * Fraction(i, n - 1) - a / 2, 0.0] for i in range(n)]
        return s, wl, pts, axis
    if kind == "circle":
        a = w.real(name + "a", 0, 20)
        s = C.CircleOfRays(diameter=a, wavelength=wl)

        def pts(n):
            out = []
            for i in range(n):
                sn, cs = w.sin_cos(360.0 * i / (n - 1) if n > 1 else 0.0)
                out.append([0.0, a / 2 * sn, a / 2 * cs])
            return out
        return s, wl, pts, axis
    if kind == "cone":
        a = w.angle(name + "a", 0, 180)
        s = C.ConeOfRays(a, wavelength=wl)

        def dirs(n):
            out = []
            sa, ca = w.sin_cos(a)
            for i in range(n):
                sn, cs = w.sin_cos(360.0 * i / n)
                out.append([ca, sa * sn, sa * cs])
            return out
        return s, wl, lambda n: [[0.0] * 3] * n, dirs
    a = w.angle(name + "a", 0, 360)
    s = C.WedgeOfRays(a, wavelength=wl)

    def dirs(n):
        out = []
        for i in range(n):
            sn, cs = w.sin_cos(a * Fraction(2 * i - (n - 1), 2 * (n - 1)))
            out.append([cs, sn, 0.0])
        return out
    return s, wl, lambda n: [[0.0] * 3] * n, dirs


def emit(w):
    k, n = w.case["k"], w.case["n"]
    s, wl, pts, dirs = make(w, k)
    pl = Place(w, s, w.case["at"])
    rs = s.generate_rays(n)
    w.observe("rays", rs.rays)
    common(w, s, rs, n, wl, pl, pts(n), dirs(n))


def again(w):
    """every call answers from the present placement, wavelength and count, and hands out rays of its own"""
    k = w.case["k"]
    s, wl, pts, dirs = make(w, k)
    n = 2
    a = s.generate_rays(n)
    pl0 = Place(w, w.m.g3d.WorldObject(), "", "n")
    a.rays[0] = 7.0
    a.intensity = 3.0
    a.wavelength = 1.0
    b = s.generate_rays(n)
    common(w, s, b, n, wl, pl0, pts(n), dirs(n), "second call: ")
    pl = Place(w, s, w.case["at"])
    wl2 = w.real("wl2", 0.2, 5)
    s.wavelength = wl2
    w.check("wavelength reads back", eq(s.wavelength, wl2))
    c = s.generate_rays(3)
    common(w, s, c, 3, wl2, pl, pts(3), dirs(3), "moved and retuned: ")
    common(w, s, b, n, wl, pl0, pts(n), dirs(n), "rays handed out before: ")


def two(w):
    k = w.case["k"]
    s, wl, pts, dirs = make(w, k)
    t, wl2, pts2, dirs2 = make(w, k, "o")
    pl = Place(w, t, "m", "o")
    a, b = s.generate_rays(2), t.generate_rays(2)
    pl0 = Place(w, w.m.g3d.WorldObject(), "", "n")
    common(w, s, a, 2, wl, pl0, pts(2), dirs(2), "first: ")
    common(w, t, b, 2, wl2, pl, pts2(2), dirs2(2), "other: ")


def spread(w):
    """what the pattern looks like, without reference to the parametrisation"""
    k, n = w.case["k"], w.case["n"]
    s, wl, _, _ = make(w, k)
    rs = s.generate_rays(n)
    P = [[rs.rays[0, j, i] for j in range(3)] for i in range(n)]
    D = [[rs.rays[1, j, i] for j in range(3)] for i in range(n)]
    sq = lambda a, b: sum((x - y) * (x - y) for x, y in zip(a, b))
    if k == "cone":
        ch = [sq(D[i], D[(i + 1) % n]) for i in range(n)]
        w.check("neighbouring rays are equally far apart all the way round", And(*[eq(ch[0], c) for c in ch[1:]]))
        w.check("every ray has the same angle to the axis", And(*[eq(D[0][0], d[0]) for d in D]))
    elif k == "circle":
        ch = [sq(P[i], P[i + 1]) for i in range(n - 1)]
        w.check("neighbouring starts are equally far apart", And(*[eq(ch[0], c) for c in ch[1:]]))
        w.check("all starts at one distance from the axis", And(*[eq(w.dot(P[0], P[0]), w.dot(p, p)) for p in P]))
    else:
        w.check("neighbouring starts are equally far apart along y", And(*[eq(P[i + 1][1] - P[i][1], P[1][1] - P[0][1]) for i in range(n - 1)]))


NS = {"line": (1, 2, 3, 5), "circle": (1, 2, 3, 5), "cone": (2, 3, 4, 5), "wedge": (2, 3, 5)}
HARNESSES = [
    Harness("emit", emit, [dict(k=k, n=n, at="") for k, ns in NS.items() for n in ns] + [dict(k=k, n=2, at=at) for k in NS for at in ("m", "x", "y", "z", "uxm", "mzy", "s")]),
    Harness("again", again, [dict(k=k, at=at) for k, at in zip(NS, ("mz", "xm", "my", "zm"))]),
    Harness("two", two, [dict(k=k) for k in NS]),
    Harness("spread", spread, [dict(k="line", n=4), dict(k="circle", n=5), dict(k="cone", n=3), dict(k="cone", n=4)]),
]
