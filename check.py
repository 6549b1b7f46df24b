#!/usr/bin/env python3
"""Decide one property of the code in /repo:  check.py PNN

1. the deductive verifier (pydv, under python3-vt) generates the proof obligations of the property's contracts
   (proofs/pNN.py) from /repo's current source and discharges them;
2. the same contracts are executed on the real code (concrete/pNN.py, under the repository's own interpreter): this is
   the search for a failing input behind a failed obligation, and the bounded stand-in for functions out of reach.

exit 0: held; exit 1: VIOLATION line.  Rewrites evidence/PNN.json."""
import os
import re
import sys
import json
import time
import shutil
import hashlib
import tempfile
import argparse
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = dict(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           OPENBLAS_CORETYPE="Haswell", HDF5_USE_FILE_LOCKING="FALSE")


def find(*names):
    for n in names:
        p = n if os.path.isabs(n) else shutil.which(n)
        if p and os.path.exists(p):
            return p
    return sys.executable


REPO_PY = find("/opt/venv/bin/python", "python3")
PROOF_PY = find("python3-vt", "/opt/veriftools/pyvenv/bin/python")


def known_findings():
    out = []
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"finding: property=(\S+) case=(\S+) (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


def start(cmd, out, log):
    env = dict(os.environ)
    env.update(ENV)
    with open(log, "wb") as lf:
        return subprocess.Popen(cmd, stdout=lf, stderr=lf, env=env, start_new_session=True, cwd=os.path.dirname(out))


def finish(p, limit):
    import signal
    try:
        p.wait(timeout=max(1, limit))
    except subprocess.TimeoutExpired:
        pass
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def tail(path, n=2000):
    try:
        with open(path, errors="replace") as f:
            return f.read()[-n:]
    except OSError:
        return ""


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--no-proof", action="store_true")
    a = ap.parse_args()
    pid, tier = a.property, a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="mlmcv_check_")
    try:
        return decide(pid, tier, a, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(pid, tier, a, t0, scratch):
    quick = tier == "quick"
    seed = a.seed
    pf, cf = os.path.join(scratch, "proof.json"), os.path.join(scratch, "concrete.json")
    has_proof = os.path.exists(os.path.join(HERE, "proofs", pid.lower() + ".py")) and not a.no_proof
    pp = None
    if has_proof:
        pp = start([PROOF_PY, os.path.join(HERE, "pydv", "run.py"), pid, "--tier", tier, "--seed", str(seed), "--out", pf], pf, os.path.join(scratch, "proof.log"))
    cb = 150 if quick else 1500
    ccmd = [REPO_PY, "-W", "ignore", os.path.join(HERE, "concrete", "run.py"), pid, "--seed", str(seed)]
    cp = start(ccmd + ["--tier", tier, "--budget", str(cb), "--out", cf], cf, os.path.join(scratch, "concrete.log"))
    finish(cp, cb + 120)
    conc = load(cf)
    if conc is None:
        conc = {"n": 0, "ok": 0, "violations": [], "harness_errors": [["<run>", tail(os.path.join(scratch, "concrete.log"))]], "groups": {}, "complete": False}
    proof = None
    if pp is not None:
        finish(pp, (400 if quick else 3600) - (time.time() - t0))
        proof = load(pf)
        if proof is None:
            proof = {"obligations": [], "functions": [], "error": tail(os.path.join(scratch, "proof.log")), "trusted": [], "solver_s": 0.0}
    known = [(c, txt) for p, c, txt in known_findings() if p == pid]

    def split(vs):
        new, kn = [], []
        for label, msg in vs:
            hit = [c for c, _ in known if c == label]
            (kn if hit else new).append((label, msg))
        return new, kn
    new, kn = split(conc["violations"])
    obs = proof["obligations"] if proof else []
    failed = [o for o in obs if o["status"] == "failed"]
    # obligations the verifier generated but could not discharge; only where the whole function was within its reach
    out_of_reach = {o["name"].split(":")[0] for o in obs if o["status"] in ("unsupported", "incomplete", "vacuous")}
    open_ = [o for o in obs if o["status"] == "unknown" and not o.get("taint") and o["name"].split(":")[0] not in out_of_reach]
    retries = []
    if open_ and not new and not failed:
        for h in sorted({o["name"].split(":")[0] for o in open_})[:6]:
            rf = os.path.join(scratch, "retry_%s.json" % h)
            retries.append((h, rf, start([PROOF_PY, os.path.join(HERE, "pydv", "run.py"), pid, "--tier", "quick", "--seed", str(seed + 1), "--only", h, "--slow", "3",
                                          "--budget", "170", "--out", rf], rf, os.path.join(scratch, "retry_%s.log" % h))))
    searched = None
    if (failed or open_) and not new and quick:
        # search deeper for a failing input behind the failed obligation
        sf = os.path.join(scratch, "search.json")
        sp = start(ccmd + ["--tier", "thorough", "--budget", "200", "--out", sf], sf, os.path.join(scratch, "search.log"))
        finish(sp, 300)
        searched = load(sf)
        if searched:
            n2, k2 = split(searched["violations"])
            new += n2
    if retries:
        t1 = time.time()
        for h, rf, rp in retries:
            finish(rp, 200 - (time.time() - t1))
            r = load(rf)
            ro = r["obligations"] if r else []
            bad = [o for o in ro if o["status"] != "proved"]
            if not r or any(o["status"] in ("unsupported", "incomplete", "vacuous") for o in bad):
                continue        # undecided: the bounded stand-in decides
            failed += [dict(o, status="not discharged") for o in bad if not o.get("taint")]
            if not bad:
                for o in obs:
                    if o["name"].split(":")[0] == h:
                        o["status"] = "proved"
    for c, txt in known:
        if any(l == c for l, _ in kn):
            print("KNOWN-FINDING: property=%s %s" % (pid, txt))
    lines = []
    if new or failed:
        rp = os.path.join(HERE, "evidence", "%s_replay.json" % pid)
        rec = {"property": pid, "failed_obligations": failed, "failing_inputs": [{"case": l, "message": m} for l, m in new], "seed": seed}
        if new:
            t = "thorough" if searched else tier
            rec["rerun"] = "cd /verif && %s concrete/run.py %s --seed %d --tier %s --only '%s' -v" % (REPO_PY, pid, seed, t, new[0][0])
        with open(rp, "w") as f:
            json.dump(rec, f, indent=1)
        for o in failed[:3]:
            print("failed obligation %s (%s): %s" % (o["name"], o.get("where", ""), str(o.get("detail", ""))[:600]))
        for l, m in new[:2]:
            print("failing input %s: %s" % (l, m[:600]))
        print("VIOLATION property=%s replay=%s%s" % (pid, rp, "" if new else " no-failing-input-found"))
    evidence(pid, tier, seed, proof, conc, len(new) or len(failed), time.time() - t0, searched)
    sys.stdout.flush()
    return 1 if (new or failed) else 0


def evidence(pid, tier, seed, proof, conc, nviol, wall, searched):
    obs = proof["obligations"] if proof else []
    und = [o for o in obs if o["status"] != "proved"]
    level = "proof" if proof and obs else "exploration"
    cov = {}
    if proof:
        cov.update({
            "obligations": len(obs), "discharged": sum(o["status"] == "proved" for o in obs),
            "checker_cmd": "python3-vt pydv/run.py %s" % pid,
            "trusted_base": proof.get("trusted", []),
            "functions_under_contract": proof.get("functions", []),
            "obligation_names": sorted({o["name"] for o in obs}),
            "undecided": [{k: str(o.get(k, ""))[:300] for k in ("name", "status", "detail")} for o in und][:40],
            "backend": proof.get("backend", ""), "solver_s": proof.get("solver_s", 0.0), "paths": proof.get("paths", 0), "covers": proof.get("covers", []),
        })
        if proof.get("error"):
            cov["verifier_error"] = proof["error"][-1500:]
    cov["bounded_stand_in"] = {"label": "bounded: run-time contracts on the real code, never counted as proved", "cases": conc["n"], "ok": conc["ok"], "groups": conc["groups"],
                               "complete": conc.get("complete"), "harness_errors": [[l, m[-400:]] for l, m in conc["harness_errors"][:5]]}
    if level == "exploration":
        cov.update({"evaluations": conc["n"], "distinct_nontrivial": conc["ok"], "rule": "each case draws a different configuration and history and compares every result with the contract",
                    "samples": sorted(conc["groups"].items())[:10]})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": (proof or {}).get("assumptions", []), "wall_s": round(wall, 2), "violations": nviol}
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
