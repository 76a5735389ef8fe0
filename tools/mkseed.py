#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes seeded/<id>/ for every entry of the spec, a list SEEDS of
(id, property, [(file, old, new)...], needs, breaks, demo). A demo that is a list of BQN expressions becomes assertions."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
for (id, prop, edits, needs, breaks, demo) in ns["SEEDS"]:
    if len(sys.argv) > 2 and id not in sys.argv[2:]:
        continue
    W = f"/tmp/mkseed-{os.getpid()}"
    subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", W], check=True)
    try:
        for f, a, b in edits:
            p = f"{W}/{f}"
            s = open(p).read()
            assert s.count(a) == 1, (id, f, s.count(a), a)
            open(p, "w").write(s.replace(a, b))
        d = subprocess.run(["git", "-C", W, "diff"], stdout=subprocess.PIPE, check=True).stdout
    finally:
        subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", W])
    S = f"{V}/seeded/{id}"
    os.makedirs(S, exist_ok=True)
    open(S + "/patch.diff", "wb").write(d)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(S + "/meta.json", "w"), indent=1, ensure_ascii=False)
    if isinstance(demo, list):
        demo = "#!/bin/bash\n# every line has to evaluate without an error\nset -e\n" + "".join("timeout 60 _build/o3/BQN -e '" + e.replace("'", "'\\''") + "'\n" for e in demo)
    open(S + "/demo.sh", "w").write(demo)
    print("wrote", id)
