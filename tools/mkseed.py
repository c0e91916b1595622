#!/usr/bin/env python3
"""mkseed.py SPEC.py : build seeded/<id>/ from a spec (dict S with id, property, edits [(file, old, new)], demo, needs, breaks).

Applies the edits in a scratch copy of /repo, runs demo (must pass before and fail after) and, unless --notest, the
stable tests, and writes patch.diff, demo.sh, demo.py and meta.json.
"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''import os
import sys
sys.path.insert(0, os.path.join(os.getcwd(), "scikit-topt"))
os.environ.setdefault("MPLBACKEND", "Agg")
'''


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    specs = ns["SPECS"]
    only = [a for a in sys.argv[2:] if not a.startswith("--")]
    for s in specs:
        if only and s["id"] not in only:
            continue
        d = os.path.join(ROOT, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "demo.py"), "w").write(HEAD + s["demo"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(
            '#!/bin/bash\n# cwd: /repo\nexport NUMBA_NUM_THREADS=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1\n'
            'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        w = tempfile.mkdtemp(prefix="seed")
        try:
            r = os.path.join(w, "repo")
            subprocess.run(["cp", "-a", "/repo", r], check=True)
            def demo():
                p = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=r, capture_output=True, text=True, timeout=300)
                return p.returncode, (p.stdout + p.stderr).strip()[-300:]
            a, oa = demo()
            for f, old, new in s["edits"]:
                fn = os.path.join(r, "scikit-topt/sktopt", f)
                t = open(fn).read()
                assert t.count(old) == 1, (s["id"], f, t.count(old))
                open(fn, "w").write(t.replace(old, new))
            b, ob = demo()
            diff = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True).stdout
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            t = "not run"
            if "--notest" not in sys.argv:
                e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", NUMBA_NUM_THREADS="1",
                         OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONPATH=os.path.join(r, "scikit-topt"))
                p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider",
                                    "scikit-topt/tests"], cwd=r, env=e, capture_output=True, text=True)
                t = p.stdout.strip().splitlines()[-1]
            print(s["id"], "demo before", a, "after", b, "|", ob.splitlines()[-1] if ob else "", "| tests:", t, flush=True)
            if a != 0:
                print("   demo output on the unchanged tree:", oa)
        finally:
            shutil.rmtree(w)


main()
