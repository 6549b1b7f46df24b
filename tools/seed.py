"""make a planted bug: seed.py reads a python file defining ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO"""
import sys, os, json, subprocess, runpy, shutil
d = runpy.run_path(sys.argv[1])
wt = "/tmp/seedwt"
subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", wt], capture_output=True)
subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", wt, "HEAD"], check=True)
try:
    for f, old, new in d["EDITS"]:
        p = os.path.join(wt, f)
        s = open(p).read()
        assert s.count(old) == 1, (d["ID"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", wt, "diff"], capture_output=True, text=True, check=True).stdout
    assert diff
    out = "/verif/seeded/" + d["ID"]
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
    open(out + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg HDF5_USE_FILE_LOCKING=FALSE\nexec timeout 250 /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(out + "/demo.sh", 0o755)
    head = "import os, sys, tempfile, shutil, atexit\nREPO = os.getcwd()\nsys.path.insert(0, REPO)\nSCRATCH = tempfile.mkdtemp(prefix='demo_')\natexit.register(shutil.rmtree, SCRATCH, True)\nos.chdir(SCRATCH)\n"
    open(out + "/demo.py", "w").write(head + d["DEMO"].lstrip("\n"))
    a = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    b = subprocess.run(["bash", out + "/demo.sh"], cwd=wt, capture_output=True, text=True)
    print(d["ID"], "unchanged rc", a.returncode, "patched rc", b.returncode)
    if a.returncode != 0 or b.returncode == 0:
        print(a.stdout[-800:], a.stderr[-1500:], b.stdout[-500:], b.stderr[-800:])
    else:
        print("  ", (b.stderr.strip().split("\n") or [""])[-1][:200])
    if len(sys.argv) > 2:
        env = dict(os.environ, PYDV_REPO=wt)
        props = [d["PROPERTY"]] if sys.argv[2] == "c" else sys.argv[2].split(",")
        for p in props:
            r = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "/verif/concrete/run.py", p, "--out", "/tmp/seed_c.json"], env=env, capture_output=True, text=True)
            j = json.load(open("/tmp/seed_c.json"))
            print("   concrete", p, "violations", len(j["violations"]), "harness", len(j["harness_errors"]), [(l, m[:160]) for l, m in j["violations"][:2]])
finally:
    subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", wt], capture_output=True)
