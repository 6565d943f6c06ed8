"""Runs the check of one property: explores all its cases on a process pool and writes the evidence file."""
from __future__ import annotations

import json
import multiprocessing as mp
import os
import queue as queue_mod
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from fractions import Fraction

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if sys.path and os.path.basename(sys.path[0]) == "symex":
    sys.path.pop(0)  # poly.py etc. are package modules
sys.path.insert(0, VERIF)
if TOOLS not in sys.path:
    sys.path.append(TOOLS)


# --------------------------------------------------------------- replay client


class Replayer:
    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ)
        self.p = subprocess.Popen([sys.executable, "-B", os.path.join(VERIF, "symex", "concrete.py")],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  text=True, env=env, cwd=VERIF)
        line = self.p.stdout.readline()
        if "ready" not in line:
            raise RuntimeError("replay server did not start (the package does not import?)")

    def __call__(self, case, inputs, variants=False, variant=None, strict=False, loose=False):
        if self.p is None:
            self.start()
        req = {"case": case, "inputs": {k: str(v) for k, v in inputs.items()}, "variants": variants, "variant": variant,
               "strict": strict, "loose": loose}
        try:
            self.p.stdin.write(json.dumps(req) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            line = ""
        if not line:
            self.close()
            return {"error": "replay server died"}
        return json.loads(line)

    def close(self):
        if self.p:
            try:
                self.p.kill()
                self.p.wait()
            except OSError:
                pass
        self.p = None


# --------------------------------------------------------------------- worker


def summarise(v, case, label, t0):
    return {
        "case": case.id, "scope": label, "stats": v.stats.as_dict(), "labels": v.labels,
        "undecided": v.undecided, "notes": sorted(set(v.notes)), "violation": v.violation,
        "reached": getattr(v, "reached", 0), "traces": getattr(v, "traces", 0),
        "mismatches": getattr(v, "mismatches", []), "seconds": time.time() - t0,
        "funcs": sorted(v.funcs), "inputs": len(v.inputs), "gens": len(v.gen_memo),
        "witness": [{k: str(x) for k, x in w[0].items()} for w in v.wit[:1]],
    }


def run_one(case, replay, cfg):
    from symex.explore import Verifier

    out = []
    t0 = time.time()
    v = Verifier(replay, seed=cfg["seed"], feas_ms=cfg["feas_ms"], check_ms=cfg["check_ms"], max_paths=cfg["max_paths"])
    v.run_case(case, case.opts.get("seconds", cfg["case_s"]) * cfg["scale"])
    full = summarise(v, case, "full", t0)
    out.append(full)
    if v.violation or not v.undecided:
        return out
    # Reduced bound: the same case with some inputs fixed to concrete numbers.
    names = list(v.inputs)
    rng = random.Random(f"{cfg['seed']}/{case.id}")
    boxes = dict(v.boxes)
    for frac in cfg["slices"]:
        keep = max(1, int(len(names) * frac)) if frac else 1
        for rep in range(cfg["slice_reps"]):
            fixed = {}
            free = set(rng.sample(names, min(keep, len(names))))
            for n in names:
                if n in free:
                    continue
                lo, hi = boxes.get(n, (None, None))
                x = Fraction(rng.choice((-3, -2, -1, 1, 2, 3, 4, 5)))
                if rng.random() < 0.3:
                    x = Fraction(rng.randint(-12, 12), 4)
                if lo is not None and x < lo:
                    x = lo + abs(x)
                if hi is not None and x > hi:
                    x = (hi + (lo if lo is not None else hi - 1)) / Fraction(2)
                fixed[n] = Fraction(x)
            t1 = time.time()
            w = Verifier(replay, seed=cfg["seed"] + rep, feas_ms=cfg["feas_ms"], check_ms=cfg["check_ms"],
                         max_paths=cfg["max_paths"])
            w.fixed = fixed
            w.run_case(case, cfg["slice_s"] * cfg["scale"])
            out.append(summarise(w, case, f"slice keep={sorted(free)}", t1))
            if w.violation:
                return out
    return out


def worker(tasks, results, cfg):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    replay = Replayer()
    from symex.ctx import CASES

    while True:
        try:
            cid = tasks.get(timeout=5)
        except queue_mod.Empty:
            break
        if cid is None:
            break
        results.put(("start", cid, os.getpid()))
        try:
            r = run_one(CASES[cid], replay, cfg)
            results.put(("done", cid, r))
        except BaseException as e:  # reported as a check error
            import traceback

            results.put(("error", cid, traceback.format_exc()))
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                break
    replay.close()


# ----------------------------------------------------------------------- main


def config(tier, seed):
    if tier == "thorough":
        return {"tier": tier, "seed": seed, "feas_ms": 3000, "check_ms": 30000, "max_paths": 20000, "case_s": 600,
                "slice_s": 60, "slices": (0.6, 0.3, 0), "slice_reps": 6, "scale": 1, "total_s": 7200}
    return {"tier": tier, "seed": seed, "feas_ms": 500, "check_ms": 3000, "max_paths": 4000, "case_s": 60,
            "slice_s": 12, "slices": (0.5, 0.25, 0), "slice_reps": 2, "scale": 1, "total_s": 560}


def load_findings():
    """known_findings.txt: lines 'finding: property=<id> case=<case> label=<label> :: text' (fixed: lines are ignored)."""
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                head, _, text = line[len("finding:"):].partition("::")
                d = dict(tok.split("=", 1) for tok in head.split() if "=" in tok)
                d["text"] = text.strip()
                out.append(d)
    return out


def replay_file(path):
    """Re-run a recorded counterexample on the real package; exit 1 when it still violates."""
    d = json.load(open(path))
    r = Replayer()
    res = r(d["case"], {k: Fraction(v) for k, v in d["inputs"].items()}, variant=d.get("variant"), strict=bool(d.get("strict")),
            loose=bool(d.get("loose")))
    r.close()
    print(json.dumps(res, indent=1))
    return 1 if res.get("violations") else 0


def main(argv):
    if argv and argv[0] == "--replay":
        return replay_file(argv[1])
    prop = argv[0]
    only = None
    if "--case" in argv:
        only = argv[argv.index("--case") + 1]
    tier = "thorough" if "--thorough" in argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    verbose = "-v" in argv
    cfg = config(tier, seed)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="skscheck")
    os.environ.update(PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX=os.path.join(tmp, "pyc"), MPLBACKEND="Agg",
                      MPLCONFIGDIR=os.path.join(tmp, "mpl"), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                      PYTHONHASHSEED="0")
    try:
        return _main(prop, only, tier, seed, verbose, cfg, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _main(prop, only, tier, seed, verbose, cfg, t0, tmp):
    from symex import loader

    loader.load_symbolic()
    import cases

    cases.load_all()
    from symex.ctx import CASES

    ids = [c.id for c in CASES.values() if c.prop == prop and (tier == "thorough" or c.opts.get("tier") != "thorough")]
    if only:
        ids = [i for i in ids if only in i]
    if not ids:
        print(f"no cases for {prop}")
        return 2
    # biggest first when a weight is given
    ids.sort(key=lambda i: -CASES[i].opts.get("weight", 1))
    nproc = min(int(os.environ.get("SKS_PROCS", "8")), len(ids))
    ctxm = mp.get_context("fork")
    tasks, results = ctxm.Queue(), ctxm.Queue()
    for i in ids:
        tasks.put(i)
    for _ in range(nproc):
        tasks.put(None)
    procs = [ctxm.Process(target=worker, args=(tasks, results, cfg), daemon=True) for _ in range(nproc)]
    for p in procs:
        p.start()
    done, errors, violation = {}, {}, None
    running = {}
    while len(done) + len(errors) < len(ids):
        left = cfg["total_s"] - (time.time() - t0)
        if left <= 0:
            break
        try:
            kind, cid, payload = results.get(timeout=min(left, 2))
        except queue_mod.Empty:
            for cid, pid in list(running.items()):
                if cid not in done and cid not in errors and not any(p.pid == pid and p.is_alive() for p in procs):
                    errors[cid] = "worker process died"
            if not any(p.is_alive() for p in procs) and results.empty():
                break
            continue
        if kind == "start":
            running[cid] = payload
        elif kind == "done":
            done[cid] = payload
            if verbose:
                show(cid, payload)
            for r in payload:
                if r["violation"] and violation is None:
                    violation = r["violation"]
            if violation:
                break
        else:
            errors[cid] = payload
            if verbose:
                print("ERROR", cid, payload[-1500:])
    for p in procs:
        if p.is_alive():
            p.terminate()
    subprocess.run(["pkill", "-P", ",".join(str(p.pid) for p in procs if p.pid)], check=False,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) if False else None
    for p in procs:
        p.join(timeout=5)

    findings = [f for f in load_findings() if f.get("property") == prop]
    for f in findings:
        print(f"KNOWN-FINDING: property={prop} {f['text']}")

    missing = [i for i in ids if i not in done and i not in errors]
    total = {}
    undecided, reduced, mism, vac = [], [], [], []
    traces = 0
    for cid, payload in done.items():
        for r in payload:
            for k, x in r["stats"].items():
                total[k] = max(total.get(k, 0), x) if k == "max_query_s" else total.get(k, 0) + x
            traces += r["traces"]
            mism += [(cid, m) for m in r["mismatches"]]
        full = payload[0]
        if not any(r["reached"] for r in payload) and not violation and not CASES[cid].opts.get("may_be_empty"):
            vac.append(cid)
        if full["undecided"] and not full["violation"]:
            good = [r for r in payload[1:] if not r["undecided"] and r["reached"]]
            (reduced if good else undecided).append((cid, full["undecided"][:3], len(good)))
    import skspatial.objects as so

    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": int(total.get("paths", 0) + total.get("decisions", 0)),
            "transitions": int(total.get("decisions", 0)),
            "traces_validated_against_impl": traces,
            "samples": [{"case": c, "scope": p[0]["scope"], "paths": p[0]["stats"]["paths"],
                         "inputs": p[0]["inputs"], "obligations": p[0]["stats"]["obligations"],
                         "path_witness": p[0]["witness"]} for c, p in list(done.items())[:4]],
            "obligations": int(total.get("obligations", 0)),
            "discharged": int(total.get("by_normal_form", 0) + total.get("by_z3", 0)),
            "discharged_by_rewriting_to_true": int(total.get("by_normal_form", 0)),
            "discharged_by_z3_unsat": int(total.get("by_z3", 0)),
            "paths": int(total.get("paths", 0)),
            "forks": int(total.get("forks", 0)),
            "infeasible_branches_cut": int(total.get("forced", 0)),
            "solver_queries": int(total.get("z3_queries", 0)),
            "solver_sat": int(total.get("z3_sat", 0)), "solver_unsat": int(total.get("z3_unsat", 0)),
            "solver_unknown": int(total.get("z3_unknown", 0)),
            "solver_seconds": round(total.get("solver_s", 0.0), 3),
            "longest_query_s": round(total.get("max_query_s", 0.0), 3),
            "concretised_paths": int(total.get("concretised", 0)),
            "cases": {c: {"paths": p[0]["stats"]["paths"], "obligations": p[0]["stats"]["obligations"],
                          "symbolic_inputs": p[0]["inputs"], "radicals": p[0]["gens"],
                          "bound": CASES[c].opts.get("bound", "all real inputs of the stated shape"),
                          "checks": {k: v[0] for k, v in p[0]["labels"].items()},
                          "seconds": round(sum(r["seconds"] for r in p), 2)} for c, p in done.items()},
            "functions_encoded": sorted({f for p in done.values() for r in p for f in r["funcs"]}),
            "reduced_bound_cases": [{"case": c, "why": [list(map(str, u[:3])) for u in us], "decided_slices": g}
                                    for c, us, g in reduced],
            "undecided_cases": [{"case": c, "why": [list(map(str, u)) for u in us]} for c, us, _ in undecided],
            "encoding_mismatches": [[c, str(m)] for c, m in mism],
            "vacuous_cases": vac, "missing_cases": missing, "errors": {k: v[-600:] for k, v in errors.items()},
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    s = ev["coverage"]
    print(f"{prop} [{tier}] cases={len(done)}/{len(ids)} paths={s['paths']} obligations={s['obligations']} "
          f"(rewriting {s['discharged_by_rewriting_to_true']}, z3 {s['discharged_by_z3_unsat']}) "
          f"queries={s['solver_queries']} solver={s['solver_seconds']}s traces={traces} "
          f"reduced={len(reduced)} wall={ev['wall_s']}s")
    if violation:
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{prop}.json")
        violation["property"] = prop
        violation["command"] = f"./check --replay {path}"
        with open(path, "w") as f:
            json.dump(violation, f, indent=1)
        print(f"case {violation['case']} inputs {violation['inputs']}")
        for l, dd in violation["violations"][:5]:
            print(f"  fails: {l} {dd}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    for c, us, _ in undecided:
        print(f"INCONCLUSIVE {c}: {us[0][:4]}")
    for c, us, g in reduced:
        print(f"reduced bound {c}: {us[0][:2]} (decided on {g} slices)")
    for c, m in mism[:5]:
        print(f"ENCODING-MISMATCH {c}: {m}")
    for c in vac:
        print(f"VACUOUS {c}")
    for c in missing:
        print(f"NOT-FINISHED {c}")
    for c, e in errors.items():
        print(f"ERROR {c}: {e[-500:]}")
    # no answer only when nothing at all could be explored
    return 0 if any(r['reached'] for p in done.values() for r in p) else 2


ASSUMPTIONS = [
    "Arithmetic is exact real arithmetic: float literals denote the simplest rational, rounding and overflow are outside these bounds.",
    "numpy.linalg.{norm,det,solve,inv,lstsq,matrix_rank,svd}, numpy.{isfinite,sign,clip,unique,isclose,linspace,...} and math.* "
    "follow their documented mathematical meaning (matrix_rank without tol: exact rank; math.isclose: its documented formula).",
    "Array shapes/dimensions are the concrete ones listed per case; coordinates, radii and tolerances range over all reals unless a box is stated.",
    "z3 and the polynomial normaliser in /verif/symex are trusted; path witnesses are replayed on the unmodified package to validate the encoding.",
]


def show(cid, payload):
    for r in payload:
        s = r["stats"]
        print(f"{cid} [{r['scope']}] paths={s['paths']} reached={r['reached']} obl={s['obligations']} nf={s['by_normal_form']} "
              f"z3={s['by_z3']} q={s['z3_queries']} solver={s['solver_s']:.2f} conc={s['concretised']} traces={r['traces']} {r['seconds']:.2f}s "
              f"{'VIOLATION' if r['violation'] else ''}")
        for u in r["undecided"][:3]:
            print("    undecided:", *[str(x)[:1500] for x in u])
        for m in r["mismatches"][:3]:
            print("    mismatch:", m)
        if r["notes"]:
            print("    notes:", r["notes"][:5])
        if r["violation"]:
            print("    ", r["violation"])
    sys.stdout.flush()


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
