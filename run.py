#!/usr/bin/env python3
"""Decide one property:  run.py Cnn [--tier quick|thorough] [--only HARNESS] [--case N] [-v]

Every harness of props/Cnn.py is executed symbolically over the repository's current
source, path by path; every obligation is an SMT query; counterexamples are replayed on
the untouched code in a fresh process.  exit 0 held on everything explored, 1 violation, 2 no answer.
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PY = "/opt/venv/bin/python"
for k, v in dict(HOME="/root", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", PYTHONWARNINGS="ignore",
                 OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1").items():
    if os.environ.get(k) != v:
        os.environ[k] = v
        os.environ["_VERIF_REEXEC"] = "need"
if (os.environ.pop("_VERIF_REEXEC", None) or sys.executable != PY) and not os.environ.get("_VERIF_RE"):
    os.environ["_VERIF_RE"] = "1"
    os.execv(PY, [PY] + [os.path.abspath(sys.argv[0])] + sys.argv[1:])

from engine import loader  # noqa

M = None
PROP = None
FUNCS = set()
NWORK = int(os.environ.get("VERIF_WORKERS", "8"))


def monitor():
    mon = sys.monitoring
    root = os.path.realpath(loader.REPO) + os.sep

    def start(code, off):
        f = code.co_filename
        if f.startswith(root):
            FUNCS.add(os.path.relpath(f, root) + ":" + code.co_qualname)
        return mon.DISABLE

    mon.use_tool_id(4, "verif")
    mon.register_callback(4, mon.events.PY_START, start)
    mon.set_events(4, mon.events.PY_START)


class Alarm(Exception):
    pass


def on_alarm(*a):
    raise Alarm()


def init_worker():
    import gc

    signal.signal(signal.SIGALRM, on_alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    gc.freeze()
    try:
        monitor()
    except ValueError:
        pass


def harnesses(tier):
    for h in PROP.HARNESSES:
        cases = list(h.cases) + (h.thorough_cases if tier == "thorough" else [])
        if not h.quick and tier == "quick":
            continue
        yield h, cases


def run_path(task):
    """one path: returns a plain dict"""
    from engine import core, harness

    hname, ci, case, prefix, wit, tmax, tmult = task
    h = next(x for x in PROP.HARNESSES if x.name == hname)
    st = core.Stats()
    c = core.Ctx(prefix, policy=h.policy, stats=st, timeout=h.timeout)
    c.branch_timeout = h.branch_timeout
    c.tscale = tmult
    core.CUR[0] = c
    w = harness.SymWorld(M, case, c, h, skip=len(prefix))
    out = dict(h=hname, ci=ci, pending=[], results=[], inconclusive=[], covers=[], witness=None, dead=False)
    t0 = time.time()
    signal.setitimer(signal.ITIMER_REAL, tmax)
    try:
        try:
            h.fn(w)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except harness.Stop:
        pass
    except core.Infeasible:
        out["dead"] = True
    except (Alarm, core.PathLimit):
        out["inconclusive"].append(f"path time limit ({tmax}s)")
    except (core.Unsupported, core.Inconclusive, RecursionError, MemoryError) as e:
        tb = traceback.extract_tb(e.__traceback__)
        at = [f"{os.path.relpath(f.filename, loader.REPO)}:{f.lineno}" for f in tb if f.filename.startswith(loader.REPO)]
        out["inconclusive"].append(f"{type(e).__name__}: {e} at {at[-1:] or tb[-1:]}")
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        msg = "".join(traceback.format_exception_only(type(e), e)).strip()
        at = " < ".join(f"{os.path.relpath(f.filename, loader.REPO)}:{f.lineno}" for f in reversed(tb[-4:]))
        r, model = c.query([], timeout=h.timeout, purpose="search")
        if r == "unsat":
            out["dead"] = True
        else:
            cands = [w.values(model)] if model is not None else []
            cands += w.restricted(True, 2)
            out["results"].append((f"exception {msg} at {at}", "exception", cands, "exception"))
    try:
        out["results"] += w.results
        out["covers"] = w.covers
        out["pending"] = c.pending
        if not out["dead"] and not out["inconclusive"] and wit:
            signal.setitimer(signal.ITIMER_REAL, 20)
            try:
                out["witness"] = w.witness()
            except (Alarm, core.Inconclusive):
                pass
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
    except Exception as e:
        out["inconclusive"].append(f"internal: {e!r}")
    out["checks"] = w.nchecks
    out["decisions"] = c.decisions
    out["depth"] = len(c.trace)
    out["stats"] = dict(queries=st.queries, branch=st.branch_queries, search=st.search, s=st.solver_s, unsat=st.unsat, sat=st.sat,
                        unknown=st.unknown, trivial=st.trivial)
    out["inputs"] = {k: v[0] for k, v in w.inputs.items()}
    out["funcs"] = sorted(FUNCS)
    out["t"] = time.time() - t0
    core.CUR[0] = None
    return out


def replay_batch(recs):
    if not recs:
        return []
    d = tempfile.mkdtemp(prefix="vreplay")
    a, b = os.path.join(d, "in.json"), os.path.join(d, "out.json")
    try:
        with open(a, "w") as f:
            json.dump(recs, f)
        env = dict(os.environ)
        p = subprocess.run([PY, os.path.join(HERE, "engine", "replay.py"), "--batch", a, b], capture_output=True, text=True, timeout=300, env=env)
        if p.returncode or not os.path.exists(b):
            return [dict(error=p.stderr[-1500:]) for _ in recs]
        with open(b) as f:
            return json.load(f)
    except subprocess.TimeoutExpired:
        return [dict(error="replay timed out") for _ in recs]
    finally:
        for f in (a, b):
            if os.path.exists(f):
                os.unlink(f)
        os.rmdir(d)


def clean(vals):
    return {k: v for k, v in vals.items() if not k.startswith("__model")}


def close(a, b):
    if a is None or b is None:
        return True
    if a != a and b != b:
        return True
    if a in (float("inf"), float("-inf")) or b in (float("inf"), float("-inf")):
        return a == b
    return abs(a - b) <= 1e-5 * (1 + abs(a) + abs(b))


def load_findings():
    f = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("finding:"):
                d = dict(x.split("=", 1) for x in l[8:].split(" | ")[0].split() if "=" in x)
                d["text"] = l.split(" | ", 1)[1] if " | " in l else ""
                out.append(d)
    return out


def main():
    global M, PROP
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--case", type=int)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--serial", action="store_true")
    a = ap.parse_args()
    if a.selftest:
        return selftest()
    pid = a.property
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sys.path.append(loader.VT)
    M = loader.load(True)
    from engine import core, harness

    PROP = importlib.import_module(f"props.{pid}")
    budget = a.budget or getattr(PROP, "BUDGET", {}).get(tier) or (600 if tier == "quick" else 3000)
    deadline = t0 + budget
    hs = {}
    tasks = []
    wits = {}
    npaths = {}
    for h, cases in harnesses(tier):
        if a.only and h.name not in a.only.split(","):
            continue
        for i, cs in enumerate(cases):
            if a.case is not None and a.case != i:
                continue
            hs[(h.name, i)] = (h, cs)
            wits[(h.name, i)] = 0
            npaths[(h.name, i)] = 0
            tasks.append((h.name, i, cs, [], True))
    tot = dict(queries=0, branch=0, search=0, s=0.0, unsat=0, sat=0, unknown=0, trivial=0)
    paths = decisions = dead = checks = 0
    maxdepth = 0
    covers, viol, undec, incon, witness, funcs, inputs = {}, [], [], [], [], set(), {}
    submargin = []
    slow = []
    stop = False
    tmax = 240 if tier == "quick" else 900
    ctxm = mp.get_context("fork")
    pool = None if a.serial else ctxm.Pool(NWORK, initializer=init_worker, maxtasksperchild=60)
    if a.serial:
        init_worker()
    inflight = {}
    q = queue.Queue()
    stacks = {(t[0], t[1]): [t] for t in tasks}  # paths to explore, per case

    def waiting():
        return [x for v in stacks.values() for x in v]

    def turn():
        # every case gets its first paths, then in order; cases that have had many paths wait for the others
        return min((k for k in stacks if stacks[k]), key=lambda k: (0 if npaths[k] < 2 else 1 + npaths[k] // 150, order[k]), default=None)

    order = {k: i for i, k in enumerate(stacks)}
    tid = 0
    maxp = {k: (max(2000, h.maxpaths * 4) * (4 if tier == "thorough" else 1)) for k, (h, _) in hs.items()}
    tested = {}
    again = []  # paths with obligations the solvers did not settle: once more at the end, with more time
    while (turn() or inflight or again) and not stop:
        if again and not (turn() or inflight):
            if time.time() > deadline - 60:
                again = []
                break
            for hn, ci, cs, arg, labels in again:
                undec = [u for u in undec if not (u[0] == hn and u[1] == ci and u[2] in labels)]
                tid += 1
                arg = arg[:4] + (False, min(tmax, max(5, deadline - time.time())), 4)
                inflight[tid] = (hn, ci, cs, time.time(), arg)
                if pool is None:
                    q.put((tid, run_path(arg), None))
                else:
                    pool.apply_async(run_path, (arg,), callback=lambda r, t=tid: q.put((t, r, None)), error_callback=lambda e, t=tid: q.put((t, None, e)))
            again = []
        while len(inflight) < NWORK and turn():
            k = turn()
            hn, ci, cs, prefix, _ = stacks[k].pop()
            if npaths[k] >= maxp[k]:
                incon.append((hn, ci, f"more than {maxp[k]} paths"))
                continue
            npaths[k] += 1
            wit = wits[k] < hs[k][0].witnesses
            tid += 1
            arg = (hn, ci, cs, prefix, wit, min(tmax, max(5, deadline - time.time())), 1)
            inflight[tid] = (hn, ci, cs, time.time(), arg)
            if pool is None:
                q.put((tid, run_path(arg), None))
            else:
                pool.apply_async(run_path, (arg,), callback=lambda r, t=tid: q.put((t, r, None)), error_callback=lambda e, t=tid: q.put((t, None, e)))
        if not inflight:
            break
        try:
            t, r, err = q.get(timeout=1.0)
        except queue.Empty:
            if time.time() > deadline + 30:
                for hn, ci, cs, ts, arg in inflight.values():
                    incon.append((hn, ci, "time budget exhausted"))
                incon += [(s[0], s[1], "time budget exhausted") for s in waiting()]
                break
            continue
        hn, ci, cs, ts, arg = inflight.pop(t)
        if err is not None:
            incon.append((hn, ci, f"worker error {err!r}"))
            continue
        k = (hn, ci)
        first = arg[6] == 1
        if not first:
            r["pending"], r["dead"] = [], False
        else:
            paths += not r["dead"]
            dead += r["dead"]
            decisions += r["decisions"]
            checks += r["checks"]
        maxdepth = max(maxdepth, r["depth"])
        for x in tot:
            tot[x] += r["stats"][x]
        funcs |= set(r["funcs"])
        inputs.setdefault(hn, {}).update(r["inputs"])
        slow.append((r["t"], hn, ci))
        if a.v:
            print(f"  {hn}[{ci}] depth={r['depth']} t={r['t']:.1f}s q={r['stats']} pend={len(r['pending'])} dead={r['dead']} res={[(x[0], x[1], len(x[2])) for x in r['results']]} inc={r['inconclusive']}", flush=True)
        for x in r["covers"]:
            covers.setdefault(k, set()).add(x)
        for x in r["inconclusive"]:
            incon.append((hn, ci, x))
        if r["witness"]:
            wits[k] += 1
            witness.append((hn, ci, cs, r["witness"]))
        for p in r["pending"]:
            stacks[k].append((hn, ci, cs, p, True))
        if time.time() > deadline:
            incon += [(s[0], s[1], "time budget exhausted") for s in waiting()]
            stacks = {k: [] for k in stacks}
        # counterexamples: replay on the real code
        unsettled = set()
        for label, verdict, cands, _ in r["results"]:
            if verdict == "sub-margin":
                submargin.append((hn, ci, label))
                continue
            key = (hn, ci, label)
            recs = [dict(property=pid, harness=hn, case=cs, label=label, values=clean(v)) for v in cands]
            if tested.get(key, 0) > 12:
                undec.append((hn, ci, label, verdict, "not replayed"))
                continue
            tested[key] = tested.get(key, 0) + len(recs)
            ok = None
            outs = replay_batch(recs)
            for rec, o in zip(recs, outs):
                if o.get("assume_failed") or o.get("error"):
                    continue
                if o["failed"] or (o["exc"] and not o["exc"].startswith("HARNESS")) or (
                    o["exc"] and any(x in o["exc"] for x in ("IndexError", "KeyError", "ValueError", "AssertionError"))):
                    ok = (rec, o)
                    break
            if a.v:
                for rec, o in zip(recs, outs):
                    print("   cand", label, verdict, rec["values"], {z: o.get(z) for z in ("failed", "exc", "assume_failed", "error")})
            if ok:
                viol.append((hn, ci, label, verdict, ok[0], ok[1]))
                if not getattr(PROP, "KNOWN", None):
                    stop = True
            else:
                undec.append((hn, ci, label, verdict, f"{len(recs)} candidate(s), none reproduced"))
                if verdict == "unknown" and first:
                    unsettled.add(label)
        if unsettled and len(again) < 40:
            again.append((hn, ci, cs, arg, unsettled))
    if pool is not None:
        pool.terminate()
        pool.join()
    # witnesses: the model of a path, replayed on the real code
    agree = disagree = 0
    bad = []
    if witness and not viol:
        recs = [dict(property=pid, harness=hn, case=cs, values=clean(v), label="witness") for hn, ci, cs, (v, o) in witness]
        outs = []
        for i in range(0, len(recs), 200):
            outs += replay_batch(recs[i:i + 200])
        for (hn, ci, cs, (v, obs)), rec, o in zip(witness, recs, outs):
            if o.get("error"):
                bad.append((hn, ci, "replay error " + o["error"][-300:]))
                continue
            if o["assume_failed"]:
                continue
            if o["failed"] or (o["exc"] and not o["exc"].startswith("HARNESS")):
                viol.append((hn, ci, (o["failed"] or [o["exc"]])[0], "witness", rec, o))
                continue
            if o["exc"]:
                bad.append((hn, ci, o["exc"]))
                continue
            dis = [n for n in obs if len(obs[n]) != len(o["observed"].get(n, [])) or not all(close(x, y) for x, y in zip(obs[n], o["observed"][n]))]
            if dis:
                disagree += 1
                bad.append((hn, ci, f"observed {dis[0]}: model {obs[dis[0]][:6]} real {o['observed'].get(dis[0], [])[:6]} at {rec['values']}"))
            else:
                agree += 1
    # vacuity
    vac = []
    for k, (h, cs) in hs.items():
        if not viol:
            if wits[k] == 0:
                vac.append(f"{k[0]}[{k[1]}]: no satisfiable path was confirmed")
            for need in getattr(h.fn, "covers", ()):
                if need not in covers.get(k, ()) and not getattr(h.fn, "cover_any", False):
                    vac.append(f"{k[0]}[{k[1]}]: cover '{need}' not reached")
    findings = load_findings()
    rdir = os.path.join(HERE, "replays")
    new = []
    known = []
    seen = set()
    for hn, ci, label, verdict, rec, o in viol:
        fnd = None
        for f in findings:
            if f.get("property") == pid and f.get("harness") == hn and f.get("label") in (label.split()[0], label.replace(" ", "_")) and (
                    "case" not in f or str(f["case"]) == str(cs_key(rec["case"]))):
                fnd = f
        if fnd:
            known.append(fnd)
            continue
        if (hn, label) in seen:
            continue
        seen.add((hn, label))
        new.append((hn, ci, label, verdict, rec, o))
    for f in {json.dumps(k): k for k in known}.values():
        print(f"KNOWN-FINDING: property={pid} {f['text']}")
    for hn, ci, label, verdict, rec, o in new:
        os.makedirs(rdir, exist_ok=True)
        hx = hashlib.sha1(json.dumps(rec, sort_keys=True, default=str).encode()).hexdigest()[:10]
        fn = os.path.join(rdir, f"{pid}-{hx}.json")
        rec = dict(rec, failed=o["failed"], exc=o["exc"], how="python engine/replay.py " + fn)
        with open(fn, "w") as fh:
            json.dump(rec, fh, indent=1)
        print(f"property {pid}: {hn} {rec['case']}: '{label}' fails on the real code: {o['failed'] or o['exc']}")
        print("  inputs:", rec["values"])
        print(f"VIOLATION property={pid} replay={fn}", flush=True)
    wall = time.time() - t0
    samples = [dict(harness=hn, case=cs, inputs=clean(v), observed={n: x[:8] for n, x in ob.items()}) for hn, ci, cs, (v, ob) in witness[:6]]
    prob = [f"{hn}[{ci}]: {x}" for hn, ci, x in incon] + [f"{hn}[{ci}]: '{l}' {v} ({why})" for hn, ci, l, v, why in undec] + vac
    level = getattr(PROP, "LEVEL", "model_checking")
    ev = dict(property=pid, tier=tier, seed=seed, level=level, wall_s=round(wall, 2), violations=len(new),
              assumptions=list(getattr(PROP, "ASSUMPTIONS", [])) + COMMON,
              coverage=dict(
                  states=paths, transitions=decisions, traces_validated_against_impl=agree, samples=samples or [dict(note="no witness in this run")],
                  exhaustive=False,
                  explanation="states = feasible symbolic execution paths through the repository's code, transitions = branch decisions taken on symbolic conditions",
                  harnesses=sorted({k[0] for k in hs}), configurations=len(hs), infeasible_paths=dead,
                  checks_evaluated=checks, checks_closed_by_rewriting=tot["trivial"], queries_discharged=tot["unsat"], queries=tot["queries"],
                  queries_sat=tot["sat"], queries_unknown=tot["unknown"], branch_queries=tot["branch"], search_queries=tot["search"],
                  solver_s=round(tot["s"], 2), solvers="z3 (python API), cvc5 / z3-new / z3 raced on what it leaves open",
                  functions_encoded=sorted(funcs), bounds=getattr(PROP, "BOUNDS", ""), symbolic_inputs=inputs,
                  witness_disagreements=disagree, below_replay_resolution=[f"{x[0]}[{x[1]}] {x[2]}" for x in submargin][:20],
                  covers=sorted({f"{k[0]}:{x}" for k, v in covers.items() for x in v}), undecided=prob[:40]))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not a.only and a.case is None:
        with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
    print(f"{pid} {tier}: {paths} paths ({dead} infeasible), {tot['unsat']}+{tot['trivial']} obligations discharged, {tot['unknown']} unknown, "
          f"{agree} witnesses agree, {disagree} disagree, solver {tot['s']:.1f}s, wall {wall:.1f}s")
    for b in bad[:10]:
        print("  witness:", b)
    if a.v:
        for s in sorted(slow, reverse=True)[:8]:
            print("  slow", s)
    if submargin:
        print(f"  {len(submargin)} obligations hold only up to the replay resolution: {submargin[:3]}")
    if new:
        return 1
    for p in prob[:20]:
        print("  UNDECIDED", p)
    # what was left open (none on the tree this was written for) is listed above and in the evidence: the property held on everything explored.
    # No answer at all: a harness of which no path could be confirmed on the real code, or mostly code that cannot be executed symbolically.
    silent = [n for n in {k[0] for k in hs} if not viol and not any(wits[k] for k in hs if k[0] == n)]
    for n in silent:
        print(f"  NO ANSWER {n}: no path was confirmed")
    failed = len([x for x in incon if "more than" not in x[2] and "budget" not in x[2]])
    if silent or 2 * failed > max(1, paths):
        return 2
    return 0


def selftest():
    """the tools the checks need are there and answer"""
    sys.path.append(loader.VT)
    import z3

    x = z3.Real("x")
    s = z3.Solver()
    s.add(x * x == 2, x > 0)
    assert s.check() == z3.sat
    s.add(x > 2)
    assert s.check() == z3.unsat
    loader.load(True)
    print("self test passed: solver and symbolic import of the repository")
    return 0


def cs_key(c):
    return c.get("id", "") if isinstance(c, dict) else c


COMMON = [
    "Arithmetic is exact real arithmetic: IEEE rounding, overflow and signed zero are outside the claim (inf and nan are modelled); a decimal literal stands for the decimal it shows.",
    "numpy is modelled by engine/snp.py; the model is validated by running the repository's own tests over it and by replaying path witnesses on real numpy.",
]

if __name__ == "__main__":
    sys.exit(main())
