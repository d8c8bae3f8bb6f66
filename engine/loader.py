"""Load the repository's packages from /repo, either as they are or over the symbolic numpy."""
import builtins
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
PK = ("tinygfx", "pyrayt")
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def setup_paths():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    os.environ.setdefault("MPLBACKEND", "Agg")
    if os.path.isdir("/opt/pyrayt/mplconfig"):
        os.environ.setdefault("MPLCONFIGDIR", "/opt/pyrayt/mplconfig")
    import warnings

    warnings.simplefilter("ignore")


def _ours(name, extra):
    return any(name == p or name.startswith(p + ".") for p in PK + extra)


def install_shim(extra=()):
    from . import snp

    real = builtins.__import__
    sub = {"numpy": snp.npshim, "numpy.linalg": snp.npshim.linalg, "numpy.random": snp.npshim.random, "math": snp.mathshim}

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and globals is not None and name in sub and _ours(globals.get("__name__", ""), extra):
            if fromlist or "." not in name:
                return sub[name]
            return sub[name.split(".")[0]]
        if level == 0 and globals is not None and name.startswith("numpy.") and _ours(globals.get("__name__", ""), extra) and not fromlist:
            real(name, globals, locals, fromlist, level)
            return sub["numpy"]
        return real(name, globals, locals, fromlist, level)

    builtins.__import__ = imp


class Mods:
    pass


def load(symbolic):
    """import the repository; returns its modules"""
    setup_paths()
    # third-party packages must see the real numpy
    import numpy
    import pandas
    import scipy.ndimage
    import scipy.spatial.transform
    import matplotlib.pyplot

    if symbolic:
        install_shim()
    m = Mods()
    import tinygfx.g3d
    import tinygfx.g3d.csg
    import tinygfx.g3d.operations
    import tinygfx.g3d.primitives
    import tinygfx.g3d.renderers
    import tinygfx.g3d.world_objects
    import tinygfx.g3d.materials
    import tinygfx.g3d.materials.gooch
    import tinygfx.g3d.materials.color
    import pyrayt
    import pyrayt._pyrayt
    import pyrayt.components
    import pyrayt.materials
    import pyrayt.utils

    for mod in (tinygfx, pyrayt):
        f = os.path.realpath(mod.__file__)
        if not f.startswith(os.path.realpath(REPO) + os.sep):
            raise RuntimeError(f"{mod.__name__} comes from {f}, not {REPO}")
    m.g3d = tinygfx.g3d
    m.csg = tinygfx.g3d.csg
    m.ops = tinygfx.g3d.operations
    m.prim = tinygfx.g3d.primitives
    m.render = tinygfx.g3d.renderers
    m.wo = tinygfx.g3d.world_objects
    m.gooch = tinygfx.g3d.materials.gooch
    m.color = tinygfx.g3d.materials.color
    m.pyrayt = pyrayt
    m.core = pyrayt._pyrayt
    m.comp = pyrayt.components
    m.mat = pyrayt.materials
    m.utils = pyrayt.utils
    if symbolic:
        from . import nd, snp

        m.np = snp.npshim
        nd.install([x for n, x in list(sys.modules.items()) if _ours(n, ()) and x is not None])
    else:
        m.np = numpy
    return m
