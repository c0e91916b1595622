#!/opt/venv/bin/python
"""check.py ID : decide property ID on the current /repo tree.

exit 0 held within the stated bounds; exit 1 + VIOLATION line; exit 2 inconclusive / machinery error.
"""
import os
import sys

for k in ("NUMBA_NUM_THREADS", "OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ.setdefault(k, "1")
os.environ["NUMBA_DISABLE_JIT"] = "1"
os.environ["MPLBACKEND"] = "Agg"
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)

import importlib          # noqa: E402
import json               # noqa: E402
import multiprocessing as mp  # noqa: E402
import re                 # noqa: E402
import time               # noqa: E402
import traceback          # noqa: E402


SOFT = r"solver gave no answer|counterexample does not reproduce|time limit reached with|more than \d+ paths"


def run_one(prop, hname, deadline, q):
    try:
        from sx import path, harness as hm
        sys.setrecursionlimit(20000)
        m = importlib.import_module(f"props.{prop.lower()}")
        h = next(x for x in m.harnesses() if x.name == hname)
        h.prop = prop
        t0 = time.time()
        try:
            h.run(deadline)
        except Exception as e:
            h.problems.append(f"{hname}: machinery error {type(e).__name__}: {e}: "
                              + traceback.format_exc().strip().splitlines()[-3].strip())
        st = path.STATS.__dict__
        q.put({"name": hname, "stats": dict(st), "problems": h.problems, "cuts": sorted(h.cuts),
               "samples": h.samples, "reached": h.reached_paths, "paths": h.paths, "wall": time.time() - t0,
               "violations": [{"harness": v.harness, "label": v.label, "detail": v.detail,
                               "inputs": {k: hm.enc(x) for k, x in v.inputs.items()}} for v in h.violations]})
    except BaseException as e:
        q.put({"name": hname, "fatal": f"{type(e).__name__}: {e}\n{traceback.format_exc()}"})


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[2] if len(sys.argv) > 2 else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    m = importlib.import_module(f"props.{prop.lower()}")
    hs = [h for h in m.harnesses() if only is None or re.fullmatch(only, h.name)]
    limit = getattr(m, "LIMIT_S", 780) if tier == "quick" else getattr(m, "LIMIT_THOROUGH_S", 6 * 3600)
    deadline = t0 + limit
    cx = mp.get_context("fork")
    pending = list(hs)
    running = {}
    results = []
    maxp = int(os.environ.get("SX_JOBS", "8"))
    while pending or running:
        while pending and len(running) < maxp:
            h = pending.pop(0)
            q = cx.Queue()
            p = cx.Process(target=run_one, args=(prop, h.name, deadline, q))
            p.start()
            running[h.name] = (p, q)
        time.sleep(0.05)
        for n, (p, q) in list(running.items()):
            if not q.empty():
                results.append(q.get())
                p.join(5)
                if p.is_alive():
                    p.kill()
                del running[n]
            elif not p.is_alive():
                time.sleep(0.2)
                results.append(q.get() if not q.empty() else {"name": n, "fatal": f"harness process died ({p.exitcode})"})
                del running[n]
            elif time.time() > deadline + 40:
                p.kill()
                results.append({"name": n, "fatal": "harness killed at the time limit"})
                del running[n]
    order = {h.name: i for i, h in enumerate(hs)}
    results.sort(key=lambda r: order[r["name"]])

    kf = json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]
    kf = [k for k in kf if k["property"] == prop]
    problems, viols, known = [], [], []
    tot = {}
    samples = []
    for r in results:
        if "fatal" in r:
            problems.append(f"{r['name']}: {r['fatal']}")
            continue
        problems += r["problems"]
        samples += r["samples"]
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
        for v in r["violations"]:
            hit = next((k for k in kf if re.fullmatch(k["harness"], v["harness"])
                        and re.search(k["label"], v["label"])), None)
            (known if hit else viols).append((hit, v))
    seen = set()
    for hit, v in known:
        if hit["what"] not in seen:
            seen.add(hit["what"])
            print(f"KNOWN-FINDING: property={prop} {hit['what']}")
    if only is None:
        for k in kf:
            if k["what"] not in seen and k.get("tier", "quick") in ("quick", tier):
                print(f"note: listed finding not observed on this run: {k['what']}")
    rc = 0
    if viols:
        outdir = os.path.join(ROOT, "out")
        os.makedirs(outdir, exist_ok=True)
        v = viols[0][1]
        fn = os.path.join(outdir, f"{prop}-replay.json")
        json.dump({"property": prop, "harness": v["harness"], "label": v["label"], "inputs": v["inputs"]},
                  open(fn, "w"), indent=1)
        for _, w in viols:
            print(f"violated: {w['harness']} / {w['label']}: {w['detail']}")
        print(f"VIOLATION property={prop} replay={fn}")
        rc = 1
    # An obligation the solver leaves open is reported as undecided, never counted as discharged. The run as a
    # whole still answers "held on everything decided" if at least 90% was decided; anything else is exit 2.
    soft = [p for p in problems if re.search(SOFT, p)]
    for p in problems:
        print("undecided:" if p in soft else "inconclusive:", p)
    if problems and rc == 0:
        if len(soft) < len(problems) or tot.get("discharged", 0) < 0.9 * max(1, tot.get("obligations", 0)):
            rc = 2
    ev = {
        "property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": tot.get("paths", 0),
            "transitions": tot.get("decisions", 0) + tot.get("obligations", 0),
            "traces_validated_against_impl": tot.get("validated", 0),
            "samples": samples[:6] or [{"note": "no path completed"}],
            "obligations": tot.get("obligations", 0), "discharged": tot.get("discharged", 0),
            "solver_queries": tot.get("queries", 0), "unsat": tot.get("unsat", 0), "sat": tot.get("sat", 0),
            "unknown": tot.get("unknown", 0), "solver_seconds": round(tot.get("solver_s", 0.0), 2),
            "undecided": problems[:20],
            "functions_encoded": sorted({f for h in hs for f in h.functions}),
            "bounds": {h.name: h.bounds for h in hs},
            "harnesses": {r["name"]: {"paths": r.get("paths"), "paths_reaching_an_assertion": r.get("reached"),
                                      "wall_s": round(r.get("wall", 0), 1), "cuts": r.get("cuts")}
                          for r in results},
            "meaning": "states = explored paths of the real code; transitions = branch decisions taken plus "
                       "assertions decided; traces_validated = path witnesses re-run concretely on the real code",
        },
        "assumptions": list(getattr(m, "ASSUMPTIONS", [])) + [
            "floating-point arithmetic is treated as real arithmetic; assertions carry an explicit tolerance",
            "nothing is claimed outside the stated bounds"],
        "wall_s": round(time.time() - t0, 2), "violations": len(viols),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w"), indent=1)
    c = ev["coverage"]
    print(f"{prop}: {c['states']} paths, {c['obligations']} obligations ({c['discharged']} discharged), "
          f"{c['solver_queries']} queries, {c['solver_seconds']}s solver, {ev['wall_s']}s wall, exit {rc}")
    sys.exit(rc)


if __name__ == "__main__":
    main()
