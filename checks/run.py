#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough] [--replay FILE] [--only SCENARIO] [--build-only]

Builds the check's parts against /repo's working tree, runs them, and merges their evidence into evidence/<id>.json."""
import json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF + "/lib")
sys.path.insert(0, VERIF + "/checks")
import build
from parts import PARTS


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough") else os.environ.get("VERIF_TIER", "quick")
    rest = [a for a in sys.argv[2:] if a not in ("quick", "thorough", "--build-only")]
    os.chdir(VERIF)
    os.environ["VERIF_TIER"] = tier
    os.environ["VERIF_DIR"] = VERIF
    parts = [dict(p, n=k) for k, p in enumerate(PARTS[prop])]
    if "--replay" in rest:
        # the replay file names the part
        k = 0
        for l in open(rest[rest.index("--replay") + 1]):
            if l.startswith("part "):
                k = int(l.split()[1])
        parts = [parts[k]]
    evs = []
    parts = [p for p in parts if tier in p.get("tiers", "quick thorough")]

    def make(k):
        part = parts[k]
        out = f"{VERIF}/.build/bin/{prop}.{part['n']}"
        build.harness(part["variant"], f"{VERIF}/checks/{part['src']}", out, [*part.get("flags", []), *[f"{VERIF}/checks/{c}" for c in part.get("c", [])]], tuple(part.get("more", ())))
        return out
    make(0)  # the objects all parts share
    with ThreadPoolExecutor(6) as ex:
        outs = list(ex.map(make, range(len(parts))))
    for out, part in zip(outs, parts):
        if "--build-only" in sys.argv:
            continue
        k = part["n"]
        env = dict(os.environ, MC_PART=str(k), MC_PROP=prop, **part.get("env", {}), **part.get("env_" + tier, {}))
        rc = subprocess.run([out, *rest], env=env).returncode
        if "--replay" in rest:
            sys.exit(rc)
        if rc not in (0, 1):
            print(f"run.py: part {k} of {prop} ended with {rc}", file=sys.stderr)
            sys.exit(3)
        try:
            evs.append(json.load(open(f"{VERIF}/evidence/{prop}.json")))
        except OSError:
            sys.exit(3)
        if rc:
            break
    if "--build-only" in sys.argv:
        return 0
    if len(evs) > 1:
        ev = evs[0]
        for e in evs[1:]:
            c, d = ev["coverage"], e["coverage"]
            for key, v in d.items():
                if isinstance(v, bool):
                    c[key] = c.get(key, True) and v
                elif isinstance(v, (int, float)):
                    c[key] = c.get(key, 0) + v
                elif isinstance(v, list):
                    c[key] = c.get(key, []) + v
                elif key not in c:
                    c[key] = v
            ev["assumptions"] += [a for a in e["assumptions"] if a not in ev["assumptions"]]
            ev["violations"] += e["violations"]
            ev["wall_s"] += e["wall_s"]
        json.dump(ev, open(f"{VERIF}/evidence/{prop}.json", "w"), indent=1, ensure_ascii=False)
    return rc


sys.exit(main())
