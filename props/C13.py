from props.traces import *

PROPERTY = "C13"
BOUNDS = ("one to three rays with any origin within +-10, intensity and wavelength along listed directions; up to three planes (mirror, absorber, glass, "
          "and user materials that dim or shift the ray) or a sphere, at any position along x; generation limits 1 to 4")
ASSUMPTIONS = ["ray directions and glass indices are fixed rational values; origins, positions, plane sizes and ray metadata are symbolic", "parallel planes are at least 0.001 apart"]
DIRS = {"x": (1.0, 0.0, 0.0), "-x": (-1.0, 0.0, 0.0), "xy": (0.6, 0.8, 0.0), "-xy": (-0.8, 0.6, 0.0), "xyz": (0.48, -0.6, 0.64), "-xz": (-0.28, 0.0, 0.96), "Xy": (0.96, 0.28, 0.0), "xY": (0.28, 0.96, 0.0)}


def system(w, spec):
    cs = []
    for i, (kind, opt) in enumerate(spec):
        c = Comp(w, kind, f"c{i}", None)
        if opt[0] in ("dim", "shift") and len(opt) == 1:
            opt = (opt[0], w.real(f"c{i}f", 0, 1))
        c.optics = opt
        c.obj.material = optics(w, c)
        for b in cs:
            if b.kind == c.kind == "plane":
                w.assume(Or(ge(c.c[0] - b.c[0], 1e-3), le(c.c[0] - b.c[0], -1e-3)))
        cs.append(c)
    return cs


def chain(w):
    k = w.case
    cs = system(w, k["comps"])
    ds = [DIRS[x] for x in k["dirs"]]
    ps = [[w.real(f"o{i}{a}", -10, 10) if f is None else f for a, f in zip("xyz", k.get("o", [None] * 3))] for i in range(len(ds))]
    mds = [dict(intensity=w.real(f"i{i}", *k.get("I", (1, 100))), wavelength=w.real(f"l{i}", 0.3, 2), index=1.0) for i in range(len(ds))]
    src = Src(w, ps, ds, *[[md[f] for md in mds] for f in ("intensity", "wavelength", "index")])
    t = w.m.pyrayt.RayTracer(src, [c.obj for c in cs], generation_limit=k["limit"])
    rs = rows(t.trace())
    w.check("no rays out of nowhere", true({int(r["id"]) for r in rs} <= set(range(len(ds)))))
    for i in range(len(ds)):
        follow(w, t, rs, i, ps[i], list(ds[i]), mds[i], cs, k["limit"])


C = dict
A, M, D, S = ("absorb",), ("mirror",), ("dim",), ("shift",)
G = lambda n: ("glass", n)
HARNESSES = [
    Harness("flat", chain, [C(comps=[("plane", M), ("plane", A)], dirs=["xy"], limit=4), C(comps=[("plane!", M), ("plane!", M)], dirs=["x"], limit=4),
                            C(comps=[("plane!", D), ("plane!", M)], dirs=["x"], limit=4, I=(0.2, 1)), C(comps=[("plane!", M), ("plane!", A)], dirs=["x", "-x"], limit=3),
                            C(comps=[("plane!", S), ("plane!", M)], dirs=["x"], limit=3),
                            C(comps=[("plane!", G(1.5)), ("plane!", M)], dirs=["Xy"], limit=3), C(comps=[("plane!", M), ("plane!", D)], dirs=["x", "-x"], limit=2, I=(0.05, 1)),
                            C(comps=[("plane!", M)], dirs=["x", "-x", "Xy"], limit=2), C(comps=[("plane!", M), ("plane!", A)], dirs=["x"], limit=1)], policy="merge", timeout=60000,
            thorough_cases=[C(comps=[("plane!", M), ("plane!", A)], dirs=["x", "xY"], limit=3)]),
    Harness("round", chain, [C(comps=[("ball!", M), ("plane!", A)], dirs=["x"], limit=2, o=[None, None, 0.5])], policy="fork", maxpaths=2000),
    Harness("slab", chain, [C(comps=[("enalp!", G(1.6)), ("plane!", G(1.6))], dirs=["xY"], limit=3, o=[None, None, 0.25]), C(comps=[("enalp!", G(1.6)), ("plane!", M)], dirs=["x", "xY"], limit=2),
                            C(comps=[("plane!", G(1.6)), ("plane!", M)], dirs=["xY"], limit=3, o=[None, 0.0, 0.0])], policy="fork", maxpaths=3000,
            thorough_cases=[C(comps=[("enalp!", G(1.6)), ("plane!", G(1.6)), ("enalp!", A)], dirs=["xY"], limit=4, o=[None, None, 0.25])]),
]
