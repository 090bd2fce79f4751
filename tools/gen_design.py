"""Writes DESIGN.md from tools/design_head.md, known_findings.json and seeded/ (verdicts in tools/caught.json)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = open(f"{root}/tools/design_head.md").read()
F = json.load(open(f"{root}/known_findings.json"))["findings"]
out += "\n## Genuine defects found\n\nEach was shown against the real code by one of the checks. Fixed ones are `fix:` commits in /repo; the others are in `known_findings.json`, matched by their exact signature.\n\n"
out += "| id | property | status | commit | what failed |\n|---|---|---|---|---|\n"
for f in F:
    w = f["what"].split(f.get("commit") or "\0", 1)[-1].strip() if f["status"] == "fixed" else f["what"]
    out += f"| {f['id']} | {f['property']} | {f['status']} | {f.get('commit') or ''} | {w.replace('|', '/')} |\n"
C = json.load(open(f"{root}/tools/caught.json")) if os.path.exists(f"{root}/tools/caught.json") else {}
out += "\n## Planted bugs and which checks catch them\n\nEvery one builds, passes the 451 stable tests, and has a demonstration that fails only with the patch. `first` is the verdict when the bug was first planted (before any strengthening it led to), `now` the checks that report it at the committed state.\n\n"
out += "| planted bug | property | what it needs | first | now |\n|---|---|---|---|---|\n"
for d in sorted(os.listdir(f"{root}/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    c = C.get(d, {})
    out += f"| {d} | {m['property']} | {m['needs'].replace('|', '/')} | {c.get('first', '')} | {c.get('now', '')} |\n"
open(f"{root}/DESIGN.md", "w").write(out)
