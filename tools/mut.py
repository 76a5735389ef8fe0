#!/usr/bin/env python3
"""Trial mutations: python3 tools/mut.py SPEC.py [name...]. SPEC defines M = [(name, "C01 C05", [(file, old, new)...])]. Works in a copy of /repo; prints which checks catch which."""
import os, shutil, subprocess, sys
M = []
exec(open(sys.argv[1], encoding="utf-8").read())
want = sys.argv[2:]
C = "/tmp/mut/repo%d" % os.getpid()
os.makedirs(C)
subprocess.run("git -C ${MUTREPO:-/repo} archive HEAD | tar x -C " + C, shell=True, check=True)
subprocess.run("cp -a /repo/build/bytecodeSubmodule /repo/build/singeliSubmodule /repo/build/replxxSubmodule " + C + "/build/ 2>/dev/null; true", shell=True)
for name, props, edits in M:
    if want and name not in want: continue
    orig = {}
    bad = None
    for f, o, n in edits:
        p = C + "/src/" + f
        s = orig.get(p) or open(p, encoding="utf-8").read()
        orig.setdefault(p, s)
        cur = open(p, encoding="utf-8").read()
        if cur.count(o) != 1: bad = "%s: %d matches of %r" % (f, cur.count(o), o[:60])
        open(p, "w", encoding="utf-8").write(cur.replace(o, n, 1))
    if bad: print(name, "BAD", bad, flush=True)
    else:
        out = []
        for c in props.split():
            env = dict(os.environ, VERIF_REPO=C, VERIF_SEED="1", VERIF_TIER="quick")
            env.pop("VERIF_DIR", None)
            try:
                r = subprocess.run(["timeout", "900", "python3", "/verif/checks/run.py", c, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd="/verif")
                v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
                out.append("%s:%s" % (c, "caught" if r.returncode == 1 and v else "MISSED" if r.returncode == 0 else "exit %d %s" % (r.returncode, r.stdout[-300:])))
            except Exception as e: out.append(c + ":" + str(e))
        print(name, *out, flush=True)
    for p, s in orig.items(): open(p, "w", encoding="utf-8").write(s)
shutil.rmtree(C)
