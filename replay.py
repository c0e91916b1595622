#!/opt/venv/bin/python
"""replay.py FILE : run a counterexample on the unmodified real code.

exit 1: the property is violated by it; 0: not; 2: the replay itself failed.
"""
import os
import sys

for k in ("NUMBA_NUM_THREADS", "OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ.setdefault(k, "1")
os.environ["MPLBACKEND"] = "Agg"
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)

import importlib      # noqa: E402
import json           # noqa: E402
import traceback      # noqa: E402


def main():
    d = json.load(open(sys.argv[1]))
    from sx import harness as hm
    import warnings
    warnings.simplefilter("ignore")
    m = importlib.import_module(f"props.{d['property'].lower()}")
    h = next(x for x in m.harnesses() if x.name == d["harness"])
    vals = {k: hm.dec(v) for k, v in d["inputs"].items()}
    try:
        env = h.run_concrete(vals)
    except Exception as e:
        repo = os.path.abspath(os.environ.get("SX_REPO", "/repo"))
        frames = traceback.extract_tb(sys.exc_info()[2])
        inrepo = [f for f in frames if os.path.abspath(f.filename).startswith(repo + "/")]
        if inrepo:
            f = inrepo[-1]
            print(f"real code raised {type(e).__name__}: {e} at {os.path.relpath(f.filename, repo)}:{f.lineno}")
            sys.exit(1)
        traceback.print_exc()
        sys.exit(2)
    if env.assumed_false:
        print("inputs do not meet the assumptions after rounding")
        sys.exit(0)
    if env.failed:
        print("; ".join(env.failed[:3]))
        sys.exit(1)
    print("no violation")
    sys.exit(0)


if __name__ == "__main__":
    main()
