"""Write DESIGN.md: hand-written text per property + the spaces, bounds, costs and the table of planted bugs, from the code and the last evidence.

usage: /opt/venv/bin/python -W ignore tools/design.py   (reads evidence/*.json of the last quick runs, tools/seedres.json, known_findings.json)
"""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("VERIF_REPO", "/repo")
sys.path[:0] = [os.environ["VERIF_REPO"], ROOT, os.path.join(ROOT, "tools")]
from design_text import HEAD, TEXT, TAIL  # noqa
from props_data import P  # noqa


def n(x):
    return "{:,}".format(x)


out = [HEAD.rstrip()]
out.append("\n## Properties\n")
out.append("Costs are those of the quick tier with 8 processes on 8 cores; the thorough tier uses the same spaces with the larger bounds named below.\n")
total = 0
for p in P:
    pid = p["id"]
    t = TEXT[pid]
    mod = importlib.import_module("props." + pid.lower())
    quick = mod.spaces("quick")
    thorough = {s.name: s.rule for s in mod.spaces("thorough")}
    ev = {}
    path = os.path.join(ROOT, "evidence", pid + ".json")
    wall = None
    if os.path.exists(path):
        e = json.load(open(path))
        if e.get("tier") == "quick":
            ev = {s["space"]: s for s in e["coverage"].get("spaces", [])}
            wall = sum(s["wall_s"] for s in ev.values())
            total += wall
    out.append("### %s %s\n" % (pid, p["title"]))
    out.append("*Specified and monitored.* %s\n" % t["oracle"])
    out.append("*Explored* (every element, %s states, %.0f s):\n" % (n(sum(s["states"] for s in ev.values())) if ev else "?", wall or 0))
    for s in quick:
        st = ev.get(s.name)
        more = thorough.get(s.name)
        out.append("* %s: %s%s%s" % (s.name, s.rule, " (%s states)" % n(st["states"]) if st else "", " - thorough: " + more if more and more != s.rule else ""))
    for name in thorough:
        if name not in {s.name for s in quick}:
            out.append("* thorough only, %s: %s" % (name, thorough[name]))
    out.append("\n*Why that reaches what tests cannot.* %s\n" % t["why"])
    if t.get("limits"):
        out.append("*Limits.* %s\n" % t["limits"])
res = {}
path = os.path.join(ROOT, "tools", "seedres.json")
if os.path.exists(path):
    res = json.load(open(path))
out.append("\n## Planted bugs\n")
out.append("Each is in `seeded/<id>/` (generated by `tools/mkseeds.py` from `tools/seeds/*.py`); every one builds, passes the 217 stable tests, and its demonstration passes without it and fails "
           "with it (confirmed in a private mount namespace by `tools/mkseeds.py try`). *caught* is the verdict of the quick check of its property.\n")
out.append("| bug | property | what it needs | caught by its check |\n|---|---|---|---|")
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    r = res.get(d, {})
    out.append("| %s | %s | %s | %s |" % (d, m["property"], str(m["needs"]).replace("|", "\\|"), "yes" if r.get("caught") else "no" if r else "?"))
kf = json.load(open(os.path.join(ROOT, "known_findings.json")))
out.append("\n## Defects of python-creole found by the checks\n")
out.append("Repaired, one `fix:` commit each in /repo (%d):\n" % len(kf["fixed"]))
for f in kf["fixed"]:
    out.append("* " + f.replace("fixed: property=", ""))
out.append("\nNot repaired (known findings, reported as KNOWN-FINDING and never as violations):\n")
for f in kf["findings"]:
    out.append("* %s %s: %s" % (f["property"], f["id"], f["what"]))
out.append("\n" + TAIL.strip() + "\n")
text = "\n".join(out)
with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
    f.write(text)
print(len(text), "characters, quick checks take", round(total), "s")
