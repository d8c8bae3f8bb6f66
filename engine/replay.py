"""Run a harness on the real code with concrete inputs (no symbolic layer, no solver).

usage: python engine/replay.py FILE.json        exit 1 when the property is violated
       python engine/replay.py --batch FILE     JSON in / JSON out, for the runner
"""
import importlib
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from engine import loader, harness  # noqa


class Draws:
    def __init__(self, vals):
        import random

        self.v = list(vals)
        self.r = random.Random(12345)  # once the model's draws are used up

    def take(self, size):
        import numpy as np

        sh = () if size is None else (size if isinstance(size, (tuple, list)) else (size,))
        n = int(np.prod(sh)) if sh else 1
        o = [(self.v.pop(0) if self.v else self.r.random()) for _ in range(n)]
        return float(o[0]) if not sh else np.array(o).reshape(sh)


def patch_random(vals):
    import numpy as np

    d = Draws(vals)
    r = np.random
    rs = lambda size=None: d.take(size)
    r.random_sample = r.random = r.ranf = r.sample = rs
    r.rand = lambda *s: d.take(s or None)

    def uniform(low=0.0, high=1.0, size=None):
        if size is None and (np.ndim(low) or np.ndim(high)):
            size = np.broadcast_shapes(np.shape(low), np.shape(high))
        return d.take(size) * (np.asarray(high) - np.asarray(low)) + np.asarray(low)

    r.uniform = uniform

    G = type("G", (), dict(random=staticmethod(rs), uniform=staticmethod(uniform)))
    r.default_rng = lambda *a, **k: G


def find(prop, name):
    mod = importlib.import_module(f"props.{prop}")
    for h in mod.HARNESSES:
        if h.name == name:
            return h
    raise SystemExit(f"no harness {name}")


def run_one(m, rec):
    import numpy as np

    h = find(rec["property"], rec["harness"])
    vals = rec["values"]
    np.random.seed(12345)
    if vals.get("__rand__"):
        patch_random(vals["__rand__"])
    w = harness.NumWorld(m, rec["case"], vals, tol=h.tol)
    exc = None
    with np.errstate(all="ignore"):
        try:
            h.fn(w)
        except harness.Stop:
            pass
        except Exception as e:  # an exception of the code under test
            exc = "".join(traceback.format_exception_only(type(e), e)).strip()
            tb = traceback.extract_tb(e.__traceback__)
            exc += " at " + " < ".join(f"{os.path.relpath(f.filename, loader.REPO)}:{f.lineno}" for f in reversed(tb[-3:]))
            inrepo = any(os.path.realpath(f.filename).startswith(os.path.realpath(loader.REPO) + os.sep) for f in tb)
            if not inrepo:
                exc = None if w.failed else "HARNESS " + exc
    return dict(failed=w.failed, exc=exc, assume_failed=w.assume_failed, observed=w.observed, checked=w.checked)


def main():
    if sys.argv[1] == "--batch":
        recs = json.load(open(sys.argv[2]))
        m = loader.load(False)
        json.dump([run_one(m, r) for r in recs], open(sys.argv[3], "w"))
        return 0
    rec = json.load(open(sys.argv[1]))
    m = loader.load(False)
    r = run_one(m, rec)
    print("harness", rec["harness"], "case", rec["case"])
    for k, v in rec["values"].items():
        if not k.startswith("__model"):
            print(f"  {k} = {v}")
    if r["assume_failed"]:
        print("inputs outside the property's domain:", r["assume_failed"])
        return 0
    bad = False
    for f in r["failed"]:
        print("FAILED:", f)
        bad = True
    if r["exc"]:
        print("EXCEPTION:", r["exc"])
        bad = True
    if not bad:
        print("holds on this input")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
