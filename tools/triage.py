"""Mutation triage: a thinned-out and time-limited run of checks on VERIF_REPO. Not a check: finds quickly which mutants are worth a whole run.

triage.py PID...      prints the first property which reports something
"""
import importlib
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.environ["VERIF_REPO"], ROOT]
from mc import engine  # noqa: E402

SECONDS = float(os.environ.get("SECONDS_", "2"))


def thin(space, stride=13):
    items = space.items

    def gen():
        end = time.time() + SECONDS
        for i, it in enumerate(items()):
            if i % stride == 0 or i < 300:
                yield it
            if time.time() > end:
                return
    space.items = gen
    return space


for pid in sys.argv[1:]:
    mod = importlib.import_module("props." + pid.lower())
    for sp in mod.spaces("quick"):
        r = engine.run_space(thin(sp), 1, max_bad=1, before=getattr(mod, "before", None))
        known = engine.load_findings()
        if r["bad"] or any(f not in known for f in r["findings"]):
            print("FOUND", pid, sp.name, r["bad"][:1])
            sys.exit(1)
print("MISSED")
