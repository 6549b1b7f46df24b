"""writes MANIFEST.json from properties.jsonl and the table below"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "P22": "A statement about convergence of an iterative optimizer (scipy.optimize.minimize) with real analysis and quadrature error; no contract a deductive verifier can discharge over this code decides it: the optimizer is an external native library whose contract would have to assume the property.",
    "P23": "A statement about the distribution of random realizations (second moments over the random generator and a truncated singular value decomposition from LAPACK); a per-execution contract cannot express it, and the numerical decomposition is outside the verifier's reach. The deterministic part (placement of one realization's values) is claimed as P16.",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    proof = os.path.exists(os.path.join(HERE, "proofs", i.lower() + ".py"))
    note = open(os.path.join(HERE, "proofs", "notes", i)).read().strip() if os.path.exists(os.path.join(HERE, "proofs", "notes", i)) else ""
    checks.append({
        "property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "contract-based deductive verification of the real functions (pydv: path-wise verification conditions from /repo's source, z3/cvc5), failing inputs by running the same contracts on the real code" if proof else
                     "contracts executed on the real code (bounded stand-in, not proved)",
        "level": "proof" if proof else "exploration",
        "level_note": note or ("contracts checked at run time over generated configurations and histories; bounded, nothing is proved" if not proof else "see evidence"),
    })
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo. Repairs of defects are the commits starting with 'fix:', listed in known_findings.txt."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
