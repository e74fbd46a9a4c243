#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py (properties whose harness folder exists)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHY = ("The repository's runnable tests are 23 small self-checks (dummy programs with a few fixed inputs); most headers' only tests read "
       "an online judge's data that is not in the tree. The guarantee quantifies over {q}, of which they execute a handful or none.")
lines, checks = [], []
for p in PROPS:
    hd = os.path.join(V, "harness", p["id"])
    if not (os.path.isdir(hd) and any(f.endswith(".cpp") for f in os.listdir(hd))):
        print("no harness yet:", p["id"], p["title"]); continue
    for f in p["files"]:
        if not os.path.exists("/repo/" + f): print("!! missing anchor", f)
    assert len(p["title"]) <= 80, p["title"]
    lines.append({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]},
        "why_tests_cant": WHY.format(q=p["text"]) + (" " + p["why"] if p.get("why") else ""),
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    "observe_at": ["public member functions and free functions of the listed headers"], "hook_needed": None},
    })
    checks.append({
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']} --tier quick",
        "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
        "technique": p["tech"],
        "level": "exploration",
        "level_note": p["note"],
    })
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for l in lines: f.write(json.dumps(l, ensure_ascii=False) + "\n")
json.dump({"version": 1, "setup_cmd": "bash setup.sh",
           "checks": checks, "not_applicable": [],
           "notes": "All checks are property-based: harness/<id>/*.cpp against the shared engine in engine/. No hooks in /repo; /repo carries only 'fix:' commits (see known_findings.txt). Replay a failure with: python3 check.py --replay <path>."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
import re
out = [open(os.path.join(V, "tools/design_head.md")).read()]
seeds = {}
sd = os.path.join(V, "seeded")
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, d, "meta.json"))); seeds.setdefault(m["property"], []).append((d, m))
caught = json.load(open(os.path.join(V, "tools/caught.json"))) if os.path.exists(os.path.join(V, "tools/caught.json")) else {}
kf = open(os.path.join(V, "known_findings.txt")).read().splitlines()
for p in PROPS:
    hd = os.path.join(V, "harness", p["id"])
    if not os.path.isdir(hd): continue
    out.append(f"\n### {p['id']} {p['title']}\n\n{p['statement']}\n\nMethod: {p['tech']}." + (f" {p['how']}" if p["how"] else "") + "\n\n| harness | test | base cases (quick) | non-trivial when |\n|---|---|---|---|\n")
    for f in sorted(os.listdir(hd)):
        if not f.endswith(".cpp"): continue
        for m in re.finditer(r'^PBT\((\w+),\s*(\d+),\s*"([^"]*)"\)', open(os.path.join(hd, f)).read(), re.M):
            out.append(f"| {f} | {m[1]} | {m[2]} | {m[3]} |\n")
    fx = [l for l in kf if l.startswith(f"fixed: property={p['id']} ")]
    fi = [l for l in kf if l.startswith("finding:") and f'"property": "{p["id"]}"' in l]
    if fx: out.append("\nDefects repaired in /repo: " + "; ".join(l.split(" ", 3)[3] + " (" + l.split(" ", 3)[2][:7] + ")" for l in fx) + ".\n")
    for l in fi: out.append("\nKnown finding: " + json.loads(l[8:])["what"] + "\n")
    for d, m in seeds.get(p["id"], []): out.append(f"\nPlanted bug {d} ({caught.get(d, 'not yet run')}): {m['what_it_breaks']} Needs: {m['needs']}\n")
tail = os.path.join(V, "tools/design_tail.md")
if os.path.exists(tail): out.append("\n" + open(tail).read())
open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))
print(len(lines), "properties")
