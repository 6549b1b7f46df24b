"""usage: run.py PNN [--tier quick|thorough] [--seed N] [--budget S] [--only LABEL] [--out FILE]
Runs the run-time contracts of one property against the code in $PYDV_REPO (default /repo)."""
import os
import sys
import json
import argparse
import importlib

for k, v in (("PYTHONDONTWRITEBYTECODE", "1"), ("MPLBACKEND", "agg"), ("OMP_NUM_THREADS", "1"), ("OPENBLAS_NUM_THREADS", "1"),
             ("HDF5_USE_FILE_LOCKING", "FALSE")):
    os.environ.setdefault(k, v)
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
REPO = os.environ.get("PYDV_REPO", "/repo")
sys.path.insert(0, REPO)

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=200)
    ap.add_argument("--only")
    ap.add_argument("--out")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    import lib
    stdout = os.dup(1)
    if not a.v:
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        os.dup2(dn, 2) if a.out else None
    try:
        mod = importlib.import_module(a.property.lower())
        r = lib.run_property(mod, a.tier, a.seed, a.budget, a.only, verbose=a.v)
    except BaseException as e:
        import traceback
        tb = sys.exc_info()[2]
        txt = traceback.format_exc()[-3000:]
        r = {"n": 0, "ok": 0, "violations": [], "harness_errors": [["<import>", txt]], "groups": {}, "complete": False, "wall": 0}
        if lib._in_repo(tb):
            r["violations"].append(["<import>", txt])
    os.dup2(stdout, 1)
    s = json.dumps(r, indent=1)
    if a.out:
        with open(a.out, "w") as f:
            f.write(s)
    else:
        print(s)
    sys.stdout.flush()
    os._exit(1 if r["violations"] else 0)
