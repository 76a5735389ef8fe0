#!/usr/bin/env python3
"""seedtest.py ID [CHECK...]: confirms a planted bug in a scratch copy of /repo (builds, stable tests pass, demo fails only
with it), then runs the named checks (default: its property's) against that copy."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ID = sys.argv[1]
S = f"{V}/seeded/{ID}"
W = f"/tmp/seed-{os.getpid()}"
R = W + "/repo"
os.makedirs(W)
subprocess.run(["cp", "-a", "/repo", R], check=True)
shutil.copytree("/opt/vp", W + "/vp", ignore=shutil.ignore_patterns("__pycache__"))
for f in ["build.sh", "test.sh", "harness/run_cases.py", "results.py"]:
    p = f"{W}/vp/{f}"
    s = open(p).read().replace("/repo", R).replace("/opt/vp", W + "/vp")
    open(p, "w").write(s)
env = dict(os.environ, PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
ok = True
try:
    def sh(*a, **k):
        return subprocess.run(a, cwd=R, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
    D = W + "/demo"
    shutil.copytree(S, D, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    r = sh("git", "checkout", "-f", "-q", "HEAD"); r = sh("bash", W + "/vp/build.sh")
    r = sh("bash", D + "/demo.sh", timeout=300)
    if r.returncode: ok = False; print("demo FAILS on the unchanged tree\n", r.stdout[-600:])
    r = sh("git", "apply", S + "/patch.diff")
    if r.returncode: print("does not apply", r.stdout); sys.exit(1)
    r = sh("bash", W + "/vp/test.sh", W + "/out.json")
    got = set(json.load(open(W + "/out.json"))["passed"]); stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    miss = stable - got
    if miss: ok = False; print(len(miss), "stable tests fail, such as", sorted(miss)[:3], r.stdout[-500:])
    r = sh("bash", D + "/demo.sh", timeout=300)
    if r.returncode == 0: ok = False; print("demo passes with the patch")
    else: print("demo with the patch:", r.stdout[-300:].strip())
    print(ID, "counts" if ok else "DOES NOT COUNT")
    checks = sys.argv[2:] or [json.load(open(S + "/meta.json"))["property"]]
    env2 = dict(os.environ, VERIF_REPO=R)
    for c in checks:
        r = subprocess.run(["python3", "checks/run.py", c, "quick"], cwd=V, env=env2, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        print(c, "exit", r.returncode, "|", "\n    ".join([l for l in r.stdout.splitlines() if "VIOLATION" in l or l.startswith("scenario")][:2]))
finally:
    shutil.rmtree(W)
