"""Write /verif/seeded/<id>/ from tools/seeds/*.py and try each one.

mkseeds.py write [id...]     patch.diff, demo.sh, demo.py, meta.json from the specification
mkseeds.py try [id...]       build, tests, demo and check in a private copy of /repo (a mount namespace of its own); result -> /tmp/seedres.json
"""
import concurrent.futures
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "2f0797a"
SEEDS = {}
RES = "/tmp/seedres.json"


def seed(id, prop, changes, demo, needs, breaks):
    assert id not in SEEDS, id
    SEEDS[id] = (prop, changes, demo, needs, breaks)


def sh(*a, **kw):
    return subprocess.run(a, capture_output=True, text=True, **kw)


def write(id):
    prop, changes, demo, needs, breaks = SEEDS[id]
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="mkseed")
    try:
        sh("git", "clone", "-q", "--shared", "/repo", tmp + "/r")
        for f, old, new in changes:
            p = "%s/r/%s" % (tmp, f)
            s = open(p).read()
            if s.count(old) != 1:
                raise SystemExit("%s: %d x %r in %s" % (id, s.count(old), old, f))
            open(p, "w").write(s.replace(old, new))
        diff = sh("git", "-C", tmp + "/r", "diff").stdout
        # at least one changed line of the original repository
        ok = False
        f = None
        for ln in diff.splitlines():
            if ln.startswith("--- a/"):
                f = ln[6:]
                blame = sh("git", "-C", "/repo", "blame", "-s", "--abbrev=12", f).stdout.splitlines()
            m = re.match(r"@@ -(\d+)", ln)
            if m:
                no = int(m.group(1)) - 1
            elif ln.startswith("-") and not ln.startswith("---"):
                if blame[no].startswith("^" + BASE):
                    ok = True
                no += 1
            elif ln.startswith(" "):
                no += 1
        if not ok:
            print("NOTE %s changes no original line" % id)
    finally:
        shutil.rmtree(tmp)
    with open(d + "/patch.diff", "w") as fh:
        fh.write(diff)
    with open(d + "/demo.py", "w") as fh:
        fh.write(demo.strip() + "\n")
    with open(d + "/demo.sh", "w") as fh:
        fh.write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    with open(d + "/meta.json", "w") as fh:
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, fh, indent=1)
        fh.write("\n")


INNER = r"""
set -u
w=$1; id=$2; prop=$3; verif=$4
mount --bind $w/repo /repo || exit 99
mount --bind $w/verif $verif || exit 99
cp -a $w/seed /tmp/_never 2>/dev/null; rm -rf /tmp/_never
cd /repo
(timeout 100 bash $w/seed/demo.sh) > $w/demo_clean.log 2>&1; echo "demo_clean $?"
git apply $w/seed/patch.diff || { echo "apply 1"; exit; }
bash /opt/vp/build.sh > $w/build.log 2>&1; echo "build $?"
bash /opt/vp/test.sh $w/out.json > $w/test.log 2>&1
/opt/venv/bin/python - $w/out.json <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['passed']) if 'passed' in json.load(open('/opt/vp/BASELINE.json')) else set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
o=json.load(open(sys.argv[1])); o=set(o.get('passed') or o.get('stable'))
print("lost", len(b-o), sorted(b-o)[:3])
P
(timeout 100 bash $w/seed/demo.sh) > $w/demo.log 2>&1; echo "demo $?"
cd $verif
VERIF_WORKERS=${W:-4} timeout 900 ./check $prop > $w/check.log 2>&1; echo "check $?"
grep -c "^VIOLATION property=$prop" $w/check.log | sed 's/^/viol /'
"""


def attempt(id):
    prop = json.load(open(os.path.join(ROOT, "seeded", id, "meta.json")))["property"]
    w = tempfile.mkdtemp(prefix="seedtry-")
    try:
        sh("cp", "-a", "/repo", w + "/repo")
        sh("git", "-C", w + "/repo", "checkout", "-q", "--", ".")
        os.makedirs(w + "/verif")
        for x in os.listdir(ROOT):
            if x not in ("seeded", "evidence", "replays", ".git"):
                sh("cp", "-a", os.path.join(ROOT, x), w + "/verif/")
        sh("cp", "-a", os.path.join(ROOT, "seeded", id), w + "/seed")
        open(w + "/inner.sh", "w").write(INNER)
        r = sh("unshare", "-Urm", "bash", w + "/inner.sh", w, id, prop, ROOT)
        out = {}
        for ln in r.stdout.splitlines():
            k, _, v = ln.partition(" ")
            out[k] = v
        if r.stderr.strip():
            out["stderr"] = r.stderr[-300:]
        out["first"] = "".join([x for x in open(w + "/check.log").read().splitlines(True) if x.startswith("  ")][:3])[:600] if os.path.exists(w + "/check.log") else ""
        if out.get("check") not in ("0", "1"):
            out["log"] = open(w + "/check.log").read()[-600:] if os.path.exists(w + "/check.log") else "?"
        return id, prop, out
    finally:
        shutil.rmtree(w)


def main():
    names = {"seed": seed}
    for f in sorted(glob.glob(os.path.join(ROOT, "tools", "seeds", "*.py"))):
        exec(compile(open(f).read(), f, "exec"), names)
    ids = sys.argv[2:] or list(SEEDS)
    ids = [i for x in ids for i in SEEDS if i == x or x.endswith("*") and i.startswith(x[:-1])]
    if sys.argv[1] == "write":
        for i in ids:
            write(i)
        return
    res = json.load(open(RES)) if os.path.exists(RES) else {}
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
        for id, prop, out in ex.map(attempt, ids):
            valid = out.get("demo_clean") == "0" and out.get("build") == "0" and out.get("lost", "1").startswith("0") and out.get("demo", "0") != "0"
            caught = out.get("check") == "1" and int(out.get("viol", "0")) > 0
            res[id] = dict(out, property=prop, valid=valid, caught=caught)
            print(id, prop, "valid" if valid else "INVALID %s" % {k: out.get(k) for k in ("demo_clean", "build", "lost", "demo", "apply", "stderr")}, "CAUGHT" if caught else "MISSED check=%s %s" % (out.get("check"), out.get("log", "")), flush=True)
            json.dump(res, open(RES, "w"), indent=1)


main()
