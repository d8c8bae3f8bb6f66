from props.common import *

PROPERTY = "C11"
BOUNDS = ("sets of one or two rays with arbitrary positions, unit directions, index 0.5..5, wavelength 0.3..2, intensity, generation and "
          "id; unit normals with |cos| >= 1e-3; refractive index of the glass 0.5..5 (arbitrary per-wavelength function for a user glass)")


class Surf:
    """a surface with known normals: all a material needs"""

    def __init__(self, w, normals):
        self.w, self.ns = w, normals
        self.asked = []

    def get_world_normals(self, positions):
        self.asked.append(positions)
        k = positions.shape[-1]
        return self.w.arr([[n[i] for n in self.ns[:k]] for i in range(3)] + [[0.0] * k])


def rayset(w, k):
    rs = w.m.pyrayt.RaySet(k)
    ps, vs, ns, md = [], [], [], []
    for i in range(k):
        ps.append(w.vec(f"p{i}"))
        vs.append(w.unit(f"v{i}"))
        ns.append(w.unit(f"n{i}"))
        md.append(dict(generation=w.real(f"g{i}", 0, 50), intensity=w.real(f"t{i}", 0, 100), wavelength=w.real(f"l{i}", 0.3, 2),
                       index=w.real(f"x{i}", 0.5, 5), id=w.real(f"d{i}", 0, 1000)))
    rs.rays = w.rays(ps, vs)
    for f in md[0]:
        setattr(rs, f, w.arr([m[f] for m in md]))
    return rs, ps, vs, ns, md


def kept(w, out, i, ps, md, fields):
    for f in fields:
        w.check(f"ray {i}: {f} is kept", eq(getattr(out, f)[i], md[i][f]))
    w.check(f"ray {i}: position is kept", And(*[eq(out.rays[0, j, i], (ps[i] + [1.0])[j]) for j in range(4)]))


ALLF = ("generation", "intensity", "wavelength", "index", "id")


def reflecting(w):
    k = w.case["n"]
    rs, ps, vs, ns, md = rayset(w, k)
    out = w.m.mat.mirror.trace(Surf(w, ns), rs)
    for i in range(k):
        kept(w, out, i, ps, md, ALLF)
        d = w.dot(vs[i], ns[i])
        w.check(f"ray {i}: direction is reflected", And(*[eq(out.rays[1, j, i], vs[i][j] - 2 * d * ns[i][j]) for j in range(3)], eq(out.rays[1, 3, i], 0)))


def absorbing(w):
    k = w.case["n"]
    rs, ps, vs, ns, md = rayset(w, k)
    out = w.m.mat.absorber.trace(Surf(w, ns), rs)
    for i in range(k):
        kept(w, out, i, ps, md, ALLF)
        w.check(f"ray {i}: direction becomes zero", And(*[eq(out.rays[1, j, i], 0) for j in range(4)]))


def refracting(w):
    k = w.case["n"]
    rs, ps, vs, ns, md = rayset(w, k)
    if w.case["glass"] == "basic":
        m = w.real("m", 0.5, 5)
        glass = w.m.mat.BasicRefractor(m)
        idx = lambda l: m
    elif w.case["glass"] in w.m.mat.glass:
        glass = w.m.mat.glass[w.case["glass"]]
        idx = glass.index_at
    else:
        # any index function of the wavelength: here an arbitrary quadratic within 0.5..5
        ga, gb, gc = w.real("ga", -3, 3), w.real("gb", -3, 3), w.real("gc", -3, 3)
        f = lambda l: ga + gb * l + gc * l * l

        class G(w.m.mat.Glass):
            def index_at(self, wavelength):
                return f(wavelength)

        glass = G()
        idx = f
    for i in range(k):
        d = w.dots(f"k{i}", vs[i], ns[i])
        out_ = w.case["out"][i]
        w.assume(ge(d, 0.001) if out_ else le(d, -0.001))
        n2 = 1.0 if out_ else idx(md[i]["wavelength"])
        w.assume(And(ge(n2, 0.5), le(n2, 5)))
        rad = n2 * n2 - md[i]["index"] * md[i]["index"] * (1 - d * d)
        w.assume(Or(ge(rad, 0.001), le(rad, -0.001)))
    out = glass.trace(Surf(w, ns), rs)
    for i in range(k):
        kept(w, out, i, ps, md, ("generation", "intensity", "wavelength", "id"))
        d = w.dot(vs[i], ns[i])
        n1 = md[i]["index"]
        n2 = 1.0 if w.case["out"][i] else idx(md[i]["wavelength"])
        rad = n2 * n2 - n1 * n1 * (1 - d * d)
        r = [out.rays[1, j, i] for j in range(3)]
        c = w.dot(r, ns[i])
        w.check(f"ray {i}: takes the index of the glass at its own wavelength, or of the surroundings when leaving",
                Implies(gt(rad, 0), eq(out.index[i], n2)))
        w.check(f"ray {i}: keeps its index when totally reflected", Implies(lt(rad, 0), eq(out.index[i], n1)))
        if k == 1 and w.case["glass"] == "basic":
            w.check(f"ray {i}: obeys Snell with that index", Implies(gt(rad, 0), And(*[eq(n2 * (r[j] - c * ns[i][j]), n1 * (vs[i][j] - d * ns[i][j])) for j in range(3)])))
            w.check(f"ray {i}: reflects totally otherwise", Implies(lt(rad, 0), And(*[eq(r[j], vs[i][j] - 2 * d * ns[i][j]) for j in range(3)])))
        w.check(f"ray {i}: homogeneous part", eq(out.rays[1, 3, i], 0))


def basic(w):
    """a constant-index glass returns its index in the shape it was asked"""
    m = w.real("m", 0.5, 5)
    l = w.real("l", 0.2, 20)
    g = w.m.mat.BasicRefractor(m)
    w.check("scalar", eq(g.index_at(l), m))
    a = g.index_at(w.arr([l, l + 1]))
    w.check("array", And(true(tuple(a.shape) == (2,)), eq(a[0], m), eq(a[1], m)))


HARNESSES = [
    Harness("reflecting", reflecting, [dict(n=1), dict(n=2)]),
    Harness("absorbing", absorbing, [dict(n=1), dict(n=2)]),
    Harness("refracting", refracting, [dict(n=1, out=(0,), glass="basic"), dict(n=1, out=(1,), glass="basic"), dict(n=1, out=(0,), glass="any"),
                                       dict(n=1, out=(1,), glass="any"), dict(n=2, out=(0, 1), glass="any"), dict(n=2, out=(1, 0), glass="basic"),
                                       dict(n=2, out=(0, 0), glass="any"), dict(n=2, out=(0, 0), glass="SF5")]),
    Harness("basic", basic),
]
