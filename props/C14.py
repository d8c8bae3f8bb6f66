from props.traces import *

PROPERTY = "C14"
BOUNDS = ("tracers over one or two sources of one to three rays and up to three planes at any position (mirror, absorber), with sequences of up to four "
          "calls: trace, reset, changed ray counts, limits and components, moves of sources and components in between, a second tracer sharing them")
ASSUMPTIONS = ["parallel planes are at least 0.001 apart"]


def plane(w, name, kind):
    c = Comp(w, "plane!", name, w.m.mat.mirror if kind == "m" else w.m.mat.absorber)
    return c


def planes(w, kinds, name="c"):
    cs = [plane(w, f"{name}{i}", k) for i, k in enumerate(kinds)]
    return cs


def apart(w, cs):
    for i, c in enumerate(cs):
        for b in cs[:i]:
            w.assume(Or(ge(c.c[0] - b.c[0], 1e-3), le(c.c[0] - b.c[0], -1e-3)))


def sources(w, n=1):
    out = []
    for i in range(n):
        s = w.m.comp.LineOfRays(spacing=w.real(f"s{i}w", 0.1, 4), wavelength=w.real(f"s{i}l", 0.3, 2))
        s.move(*w.vec(f"s{i}p", lo=-5, hi=5))
        if i % 2:
            s.rotate_z(180)
        out.append(s)
    return out


def same(w, label, a, b):
    """two result tables hold the same rows"""
    a, b = a if isinstance(a, list) else rows(a), b if isinstance(b, list) else rows(b)
    w.check(label + ": same number of rows", true(len(a) == len(b)))
    if len(a) != len(b):
        return
    key = lambda r: (int(r["id"]), int(r["generation"]))
    a, b = sorted(a, key=key), sorted(b, key=key)
    for x, y in zip(a, b):
        w.check(label + ": same row", And(*[eq(x[c], y[c]) for c in COLS]))


def again(w):
    k = w.case
    cs = planes(w, k["kinds"])
    apart(w, cs)
    ss = sources(w, k.get("sources", 1))
    objs = [c.obj for c in cs]
    before = [o.get_world_transform() for o in objs + ss]
    T = w.m.pyrayt.RayTracer
    fresh = lambda comps, n, lim: T(ss, comps, rays_per_source=n, generation_limit=lim).trace()
    n, lim = k.get("n", 2), k.get("lim", 2)
    cs_objs = list(objs)
    t = T(ss[0] if len(ss) == 1 else ss, objs[0] if len(objs) == 1 and not k.get("list") else objs, rays_per_source=n, generation_limit=lim)
    w.check("a new tracer has no results", true(len(t.get_results()) == 0))
    first = t.trace()
    kept = rows(first)
    for step in k["steps"]:
        if step == "trace":
            pass
        elif step == "reset":
            t.reset()
            w.check("a reset tracer has no results", true(len(t.get_results()) == 0))
        elif step == "rays":
            n = k["n2"]
            t.set_rays_per_source(n)
            w.check("ray count is reported", true(t.get_rays_per_source() == n))
        elif step == "limit":
            lim = k.get("lim2", 1)
            t.set_generation_limit(lim)
            w.check("limit is reported", true(t.get_generation_limit() == lim))
        elif step == "move":
            objs[0].move_x(w.real("mv", -5, 5))
            before = None
        elif step == "source":
            ss[0].move(*w.vec("smv", lo=-5, hi=5))
            before = None
        elif step == "other":
            T(ss, objs[::-1], rays_per_source=n + 1, generation_limit=1).trace()
        elif step == "append":
            extra = planes(w, "m", "e")[0]
            apart(w, cs + [extra])
            t.get_system().append(extra.obj)
            w.check("an appended component is part of the system", true(list(t.get_system()) == cs_objs + [extra.obj]))
            objs = cs_objs + [extra.obj]
            before = None
        elif step == "load":
            new = planes(w, k["kinds2"], "d")
            apart(w, new)
            if k.get("mixed"):
                objs = [new[0].obj] + objs
            else:
                objs = [c.obj for c in new]
            t.load_components(objs[0] if len(objs) == 1 else objs)
            before = None
    r = t.trace()
    same(w, "as a new tracer of the same system", r, fresh(objs, n, lim))
    same(w, "results can be read again", t.get_results(), rows(r))
    if k["steps"] in (["trace"], ["other"], ["reset"], ["other", "trace"]):
        same(w, "as the first time", r, kept)
    same(w, "the first table is not touched", first, kept)
    if before is not None:
        now = [o.get_world_transform() for o in objs + ss]
        for a, b in zip(before, now):
            w.check("tracing moves nothing", alleq(a, b))


def lost(w):
    """source ids when some rays meet nothing"""
    k = w.case
    ns, n = k["sources"], k["n"]
    ps = [[w.real(f"y{s}_{j}", -5, 5) for j in range(n)] for s in range(ns)]
    ss = [Src(w, [[0.0, y, 0.5] for y in ps[s]], [[1.0, 0.0, 0.0]] * n) for s in range(ns)]
    wall = w.m.g3d.Cuboid((3, -2, -2), (4, 2, 2), material=w.m.mat.absorber)
    t = w.m.pyrayt.RayTracer(ss, [wall], rays_per_source=n)
    t.trace()
    t.calculate_source_ids()
    for r in rows(t.get_results()):
        w.check("segments belong to the ray and the source they name", And(true(int(r["source_id"]) == int(r["id"]) // n), eq(r["y0"], ps[int(r["id"]) // n][int(r["id"]) % n])))


def ids(w):
    k = w.case
    ns, n = k["sources"], k["n"]
    ss = sources(w, ns)
    # every ray meets its own end: planes on both sides of everything
    walls = [w.m.g3d.XYPlane(100, 100, material=w.m.mat.absorber).rotate_y(90).move_x(x) for x in (w.real("wa", 20, 30), w.real("wb", -30, -20))]
    t = w.m.pyrayt.RayTracer(ss, tuple(walls), rays_per_source=n)
    t.set_generation_limit(4)
    df = t.trace()
    rs = sorted(rows(df), key=lambda r: int(r["id"]))
    w.check("every ray has its own id", true([int(r["id"]) for r in rs] == list(range(ns * n))))
    if len(rs) != ns * n:
        return
    for s in range(ns):
        own = ss[s].generate_rays(n)
        for j in range(n):
            r = rs[s * n + j]
            w.check(f"ray {j} of source {s} has its id", And(alleq(pt(r, "0"), [own.rays[0, i, j] for i in range(3)]), alleq(tilt(r), [own.rays[1, i, j] for i in range(3)]),
                                                          eq(r["wavelength"], own.wavelength[j]), eq(r["intensity"], own.intensity[j])))
    before = rows(df)
    t.calculate_source_ids()
    after = rows(t.get_results())
    same(w, "source ids leave the other columns", after, before)
    for r in after:
        w.check("source id", true(int(r["source_id"]) == int(r["id"]) // n))


def system(w):
    """the components can be read back"""
    cs = planes(w, "mam")
    objs = [c.obj for c in cs]
    t = w.m.pyrayt.RayTracer(sources(w), objs[:2])
    w.check("as given", true(list(t.get_system()) == objs[:2]))
    t.load_components(objs[1:])
    w.check("as loaded", true(list(t.get_system()) == objs[1:]))
    t.load_components(objs[0])
    w.check("a single one", true(list(t.get_system()) == objs[:1]))
    g = w.m.g3d.ObjectGroup([objs[0]])
    t.load_components(g)
    w.check("a group", true(list(t.get_system()) == objs[:1]))


C = dict
HARNESSES = [
    Harness("again", again, [C(kinds="ma", steps=s) for s in (["trace"], ["reset"], ["other", "trace"], ["move"], ["source"])]
            + [C(kinds="ma", steps=["limit"]), C(kinds="ma", steps=["limit"], lim=1, lim2=2, n=1), C(kinds="m", steps=["rays"], n=1, n2=3), C(kinds="a", steps=["rays"], n=3, n2=1), C(kinds="a", steps=["load"], kinds2="a"), C(kinds="ma", steps=["load"], kinds2="m"),
               C(kinds="m", steps=["load"], kinds2="a", mixed=True), C(kinds="m", steps=["other", "load", "limit"], kinds2="a", n=1), C(kinds="a", steps=["append"], list=True, n=1), C(kinds="a", sources=2, steps=["other", "trace"]), C(kinds="a", sources=2, steps=["rays"], n=1, n2=2)],
            policy="merge", timeout=60000),
    Harness("ids", ids, [C(sources=1, n=1), C(sources=2, n=2), C(sources=3, n=1), C(sources=2, n=3)], policy="merge"),
    Harness("system", system, policy="merge"),
    Harness("lost", lost, [dict(sources=2, n=2), dict(sources=3, n=1)], policy="fork"),
]
