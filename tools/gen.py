#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after changing it)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/checks")
from parts import PARTS
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, level="model_checking", state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, level=level, state=state, observe=observe))


B = "src/builtins/"
TB = "Trusted: the reference model in lib/prims.cpp, the value bridge lib/bridge.c, gcc, libm. Says nothing about values outside the stated alphabets, or about the SIMD (Singeli) build, which cannot be generated offline."
exec(open(V + "/tools/props.py", encoding="utf-8").read())

ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
with open(V + "/properties.jsonl", "w", encoding="utf-8") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = p["observe"]
        a["hook_needed"] = None
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "python3 tools/setup.py",
       "checks": [{"property": p["id"], "quick_cmd": f"python3 checks/run.py {p['id']} quick", "thorough_cmd": f"python3 checks/run.py {p['id']} thorough",
                   "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in P if p["id"] in PARTS],
       "not_applicable": [{"property": p["id"], "reason": "no check has been built for it yet"} for p in P if p["id"] not in PARTS]}
json.dump(man, open(V + "/MANIFEST.json", "w", encoding="utf-8"), indent=1, ensure_ascii=False)
print(len(P), "properties,", len(man["checks"]), "checks")

def seeded():
    r, d = [], V + "/seeded"
    for n in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        m = json.load(open(f"{d}/{n}/meta.json", encoding="utf-8"))
        r.append(f"| {n} | {m['property']} | {m.get('what_it_breaks', '')} | {m.get('caught_by', m['property'])} |")
    return r


with open(V + "/DESIGN.md", "w", encoding="utf-8") as f:
    f.write(open(V + "/tools/design_head.md", encoding="utf-8").read())
    f.write("\n## Properties\n")
    for p in sorted(P, key=lambda p: p["id"]):
        parts = PARTS.get(p["id"], [])
        b = sorted(set(f"`{q['src']}` ({q['variant']})" for q in parts))
        f.write(f"\n### {p['id']} {p['title']}\n\n{p['statement']}\n\n* **Quantifies over** {p['text']}.\n* **Deciding step:** {p['technique']}.\n* **Enumerated, and bounds:** {p['note']}\n* **Beyond the tests:** {p['why']}\n* **Checker:** " + ", ".join(b) + ".\n")
    f.write(open(V + "/tools/design_tail.md", encoding="utf-8").read())
    f.write("| change | property | what it breaks | caught by |\n|---|---|---|---|\n" + "\n".join(seeded()) + "\n")
