"""python3-vt /verif/pydv/run.py P01 [--tier quick|thorough] [--seed N] [--out FILE]: discharge the obligations of one property"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.setrecursionlimit(20000)
import z3
from pydv import core, terms, values


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--slow", type=float, default=1.0, help="factor on the solver limits")
    a = ap.parse_args()
    z3.set_param("smt.random_seed", a.seed)
    t0 = time.time()
    mod = importlib.import_module("proofs." + a.prop.lower())
    budget = a.budget or (380 if a.tier == "quick" else 1500)
    if a.tier == "thorough":
        terms.FORCE_CVC5 = True
    res = {"property": a.prop, "obligations": [], "functions": {}, "trusted": list(getattr(mod, "TRUSTED", [])),
           "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "error": None, "covers": 0, "paths": 0, "loops": 0, "loops_closed": 0}
    backends = {}
    solver_s = 0.0
    for h in mod.HARNESSES:
        if a.only and a.only != h.__name__:
            continue
        ctx = core.Ctx(timeout_ms=int(a.slow * getattr(mod, "TIMEOUT_MS", 15000)), deadline=min(t0 + budget, time.time() + getattr(h, "budget", 240)))
        core.set_ctx(ctx)
        core.JOURNAL.clear(); core.OWN.clear(); core.BORN.clear()
        err = None
        th = time.time()
        try:
            ctx.explore(h, lambda k, v: None)
        except core.Unsupported as e:
            err = "unsupported: %s" % e
            if a.v:
                traceback.print_exc()
        except Exception as e:
            err = "engine: %s: %s" % (type(e).__name__, e)
            if a.v:
                traceback.print_exc()
        core.JOURNAL.clear()
        res["paths"] += ctx.n_paths
        res["loops"] += ctx.n_loops
        res["loops_closed"] += ctx.loops_closed
        solver_s += ctx.solver_time
        for ob in ctx.obligations.values():
            st = ob.status
            if ob.name.startswith("cover:"):
                res["covers"] += 1
            if st == "failed" and ob.taint:
                st = "unknown"
            if st == "proved" and err:
                st = "incomplete"       # some path of this harness was not explored
            for bk in ob.backend:
                backends[bk] = backends.get(bk, 0) + 1
            res["obligations"].append({"name": h.__name__ + ":" + ob.name, "status": st, "where": getattr(h, "where", h.__doc__ or ""), "n": ob.n, "taint": bool(ob.taint),
                                       "detail": (ob.detail or "") + ("\ntaint: " + "; ".join(ob.taint) if ob.taint else ""), "time": round(ob.time, 3)})
        if err:
            res["obligations"].append({"name": h.__name__ + ":engine", "status": "unsupported", "where": getattr(h, "where", h.__doc__ or ""), "detail": err, "n": 0, "time": 0})
        if not ctx.obligations and not err:
            res["obligations"].append({"name": h.__name__ + ":empty", "status": "vacuous", "where": "", "detail": "no obligations were generated", "n": 0, "time": 0})
        if a.v:
            print("==", h.__name__, "paths", ctx.n_paths, "loops", ctx.loops_closed, "/", ctx.n_loops, "queries", ctx.n_queries, "%.1fs" % (time.time() - th), err or "")
            for ob in ctx.obligations.values():
                print("   %-9s %-50s n=%d %.2fs %s" % (ob.status, ob.name, ob.n, ob.time, ",".join(sorted(ob.backend))))
                if ob.status not in ("proved",):
                    print("      ", (ob.detail or "")[:3000])
                if ob.taint:
                    print("       taint", ob.taint)
    fns = getattr(mod, "FUNCTIONS", [])
    res["functions"] = list(fns)
    res["solver_s"] = round(solver_s, 2)
    res["backend"] = backends
    res["wall_s"] = round(time.time() - t0, 2)
    if a.out:
        json.dump(res, open(a.out, "w"), indent=1)
    bad = [o for o in res["obligations"] if o["status"] != "proved"]
    print("%s: %d obligations, %d proved, others: %s (%.1fs)" % (a.prop, len(res["obligations"]), len(res["obligations"]) - len(bad),
          [(o["name"], o["status"]) for o in bad], time.time() - t0))


main()
