"""Mechanical mutants of /repo/creole: which pass the tests, and which of those do the checks miss?

mutate.py list                     number of mutants per file
mutate.py tests OUT [J]            run the stable tests on each mutant (private mount namespace), keep the survivors in OUT
mutate.py checks IN OUT [J]        run the quick checks of the file's properties on each survivor until one reports it
"""
import ast
import concurrent.futures
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
STRIP = {"strip", "lstrip", "rstrip", "lower", "upper", "splitlines", "copy", "replace", "expandtabs"}
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
FILES = {
    "creole/parser/creol2html_parser.py": "C05 C04 C03 C09 C08 C06 C07 C01 C02 C10 C11 C32",
    "creole/parser/creol2html_rules.py": "C05 C04 C03 C09 C08 C06 C07 C01 C02 C10 C11 C32",
    "creole/emitter/creol2html_emitter.py": "C02 C11 C10 C09 C05 C04 C03 C06 C27 C28 C01 C31",
    "creole/emitter/html2creole_emitter.py": "C14 C32 C13 C18 C33 C19 C12 C20 C21",
    "creole/emitter/html2rest_emitter.py": "C15 C13 C18 C33 C12 C19 C20 C21 C27 C28",
    "creole/emitter/html2markdown_emitter.py": "C16 C13 C18 C33 C12 C19 C20 C21 C27 C31",
    "creole/emitter/html2textile_emitter.py": "C17 C13 C18 C33 C12 C19 C20 C21",
    "creole/parser/html_parser.py": "C13 C14 C33 C12 C19 C21 C20 C15 C16 C17 C18 C31",
    "creole/parser/html_parser_config.py": "C13 C14 C33 C12 C19 C21 C20 C15 C16 C17 C18",
    "creole/html_tools/strip_html.py": "C21 C13 C14 C33 C20",
    "creole/html_tools/text_tools.py": "C21 C13 C14 C33 C20",
    "creole/html_tools/deentity.py": "C20 C13 C12",
    "creole/shared/base_emitter.py": "C13 C14 C15 C16 C17 C18 C19 C20 C33 C12 C21",
    "creole/shared/document_tree.py": "C13 C14 C19 C31 C03 C12 C27",
    "creole/shared/markup_table.py": "C18 C13 C14 C15",
    "creole/shared/unknown_tags.py": "C19 C12",
    "creole/shared/utils.py": "C29 C34 C09 C19 C10",
    "creole/shared/example_macros.py": "C34 C19",
    "creole/shared/diff_utils.py": "C30 C25",
    "creole/rest_tools/clean_writer.py": "C23 C22 C24 C27 C28",
    "creole/rest_tools/pypi_rest2html.py": "C24",
    "creole/rest_tools/local_roles.py": "C23 C22 C27",
    "creole/setup_utils.py": "C25 C30",
    "creole/cmdline.py": "C26",
    "creole/__init__.py": "C31 C09 C10 C27 C12 C01 C05 C14 C15 C16 C17 C20",
}


def mutants(path):
    src = open(os.path.join(REPO, path), encoding="utf-8").read()
    tree = ast.parse(src)
    lines = src.splitlines(True)
    blines = [ln.encode() for ln in lines]
    starts = [0]
    for b in blines:
        starts.append(starts[-1] + len(b))
    raw = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()
    out = []

    def add(n, new, what, sp=None):
        a, b = sp or span(n)
        if raw[a:b].decode() != new:
            out.append((a, b, new, "%s:%d %s" % (path, n.lineno, what)))
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0])
            docs.add(n.body[0].value)
    main = [n for n in tree.body if isinstance(n, ast.If) and "__name__" in ast.dump(n.test)]
    skip = set()
    for m in main:
        for n in ast.walk(m):
            skip.add(n)
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n.name.startswith(("debug", "__repr__", "__str__")):
            skip.update(ast.walk(n))
    for n in ast.walk(tree):
        if n in docs or n in skip:
            continue
        if isinstance(n, ast.JoinedStr):
            for c in n.values:
                docs.add(c)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = CMP[type(n.ops[0])]
            add(n, "(%s %s %s)" % (text(n.left), op, text(n.comparators[0])), "compare -> " + op)
        elif isinstance(n, ast.BoolOp):
            j = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + j.join("(%s)" % text(v) for v in n.values) + ")", "and/or")
            for i in range(len(n.values)):
                rest = [text(v) for k, v in enumerate(n.values) if k != i]
                add(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join("(%s)" % x for x in rest) + ")", "operand %d dropped" % i)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, "(%s)" % text(n.operand), "not dropped")
        elif isinstance(n, ast.IfExp):
            add(n, "(%s)" % text(n.body), "if-expression always")
            add(n, "(%s)" % text(n.orelse), "if-expression never")
        elif isinstance(n, (ast.If, ast.While)):
            if not isinstance(n.test, ast.Constant) and text(n.test) not in ("self.debugging", "debug"):
                if isinstance(n, ast.If):
                    add(n.test, "True", "if True (was %s)" % text(n.test))
                add(n.test, "False", "if False (was %s)" % text(n.test))
        elif isinstance(n, ast.Constant):
            v = n.value
            if v == "" and ".get(" in lines[n.lineno - 1]:
                continue
            if isinstance(v, bool):
                add(n, str(not v), "constant flipped")
            elif isinstance(v, int):
                add(n, "(%d)" % (v + 1), "%d -> %d" % (v, v + 1))
                if v > 0:
                    add(n, "(%d)" % (v - 1), "%d -> %d" % (v, v - 1))
            elif isinstance(v, str) and v and n not in docs:
                t = text(n)
                m = re.match(r"[rRuUbBfF]*('''|\"\"\"|'|\")", t)
                if not m:
                    continue
                q = m.group(0)
                inner = t[len(q):-len(m.group(1))]
                if "rules" in path or "re." in lines[n.lineno - 1] or "re.compile" in "".join(lines[max(0, n.lineno - 4):n.lineno]) or "(?" in v:
                    for i, c in enumerate(inner):
                        if c in "?*+^$|\\.~" or (c.isalnum() and 0):
                            w = inner[:i] + inner[i + (2 if c == "\\" else 1):]
                            add(n, q + w + m.group(1), "string without char %d %r: %r" % (i, inner[i:i + 2], inner[:60]))
                    for k in re.finditer(r"\(\?[=!<][^()]*\)", inner):
                        add(n, q + inner[:k.start()] + inner[k.end():] + m.group(1), "look-around dropped %r" % k.group(0))
                else:
                    add(n, q + m.group(1), "string emptied %r" % v[:40])
                    if len(v) > 1 and os.environ.get("MORE"):
                        add(n, q + inner[1 if inner[0] != "\\" else 2:] + m.group(1), "first char dropped %r" % v[:40])
                        cut = 2 if len(inner) > 1 and inner[-2] == "\\" else 1
                        add(n, q + inner[:-cut] + m.group(1), "last char dropped %r" % v[:40])
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in STRIP:
            add(n, text(n.func.value), ".%s() dropped" % n.func.attr)
            if n.func.attr == "strip":
                add(n, text(n.func.value) + ".lstrip(%s)" % ",".join(text(a) for a in n.args), "strip -> lstrip")
                add(n, text(n.func.value) + ".rstrip(%s)" % ",".join(text(a) for a in n.args), "strip -> rstrip")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            if isinstance(n.op, ast.Add):
                add(n, "(%s)" % text(n.left), "right operand of + dropped")
                add(n, "(%s)" % text(n.right), "left operand of + dropped")
            else:
                add(n, "(%s)" % text(n.left), "right operand of - dropped")
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)) and n not in docs:
            if re.match(r"_\w+ = _\w+$", text(n)):
                continue                 # handlers of groups which are never the first one
            if isinstance(n, ast.Expr) and re.match(r"(self\.)?(debug|print|warnings)", text(n)):
                continue
            add(n, "pass", "statement dropped: %s" % text(n)[:70].replace("\n", " "))
        elif isinstance(n, ast.Return) and n.value is not None:
            add(n, "return ''" if True else "", "return '' (was %s)" % text(n)[:60].replace("\n", " "))
        elif isinstance(n, ast.Break):
            add(n, "continue", "break -> continue")
        elif isinstance(n, ast.Continue):
            add(n, "break", "continue -> break")
            add(n, "pass", "continue -> pass")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            add(n, text(n.value), "slice dropped: %s" % text(n))
    res = []
    seen = set()
    for a, b, new, what in out:
        code = (raw[:a] + new.encode() + raw[b:]).decode()
        if code in seen:
            continue
        seen.add(code)
        try:
            compile(code, path, "exec")
        except SyntaxError:
            continue
        res.append((path, what, code))
    return res


INNER = r"""
mount --bind $1 /repo || exit 99
cd /repo
. /opt/vp/env.sh >/dev/null 2>&1
export PYTHONDONTWRITEBYTECODE=1
timeout 60 python -m pytest -x -q -o addopts=--doctest-modules -p no:cacheprovider --timeout=20 --deselect creole/tests/test_Makefile.py --deselect creole/tests/test_project_setup.py::test_poetry_check --deselect creole/tests/test_TODOs.py --deselect creole/tests/test_creole2html.py::TestCreole2html::test_macro_wrong_arguments_quite --deselect creole/tests/test_creole2html.py::TestCreole2html::test_macro_wrong_arguments_with_error_report >$2.log 2>&1
"""


def prepare(code, path):
    w = tempfile.mkdtemp(prefix="mutant-", dir="/dev/shm")
    subprocess.run(["git", "clone", "-q", "--shared", REPO, w + "/repo"], check=True)
    with open(os.path.join(w, "repo", path), "w", encoding="utf-8") as f:
        f.write(code)
    return w


def run_tests(item):
    path, what, code = item
    w = prepare(code, path)
    try:
        open(w + "/i.sh", "w").write(INNER)
        r = subprocess.run(["unshare", "-Urm", "bash", w + "/i.sh", w + "/repo", w + "/j.xml"], capture_output=True, text=True)
        return r.returncode
    finally:
        shutil.rmtree(w, ignore_errors=True)


def run_checks(item):
    path, what, code = item
    w = prepare(code, path)
    log = []
    try:
        for pid in (os.environ.get("PIDS") or FILES[path]).split():
            env = dict(os.environ, VERIF_REPO=w + "/repo", VERIF_WORKERS=os.environ.get("W", "2"), VERIF_EVIDENCE=w, VERIF_REPLAYS=w)
            try:
                r = subprocess.run(["timeout", "900", "./check", pid], cwd=ROOT, env=env, capture_output=True, text=True)
            except Exception as e:
                log.append((pid, repr(e)))
                continue
            if r.returncode == 1 and "VIOLATION property=%s" % pid in r.stdout:
                first = [x for x in r.stdout.splitlines() if x.startswith("  ")][:2]
                return pid, " ".join(first)[:200], log
            if r.returncode != 0:
                log.append((pid, r.returncode, (r.stdout + r.stderr)[-300:]))
        return None, "", log
    finally:
        shutil.rmtree(w, ignore_errors=True)


def run_triage(item):
    path, what, code = item
    w = prepare(code, path)
    try:
        env = dict(os.environ, VERIF_REPO=w + "/repo", PYTHONPYCACHEPREFIX=w + "/pyc", PYTHONHASHSEED="0")
        pids = FILES[path].split()[:int(os.environ.get("N", "6"))]
        try:
            r = subprocess.run(["timeout", "400", "/opt/venv/bin/python", "-X", "utf8", "-W", "ignore", "tools/triage.py"] + pids, cwd=ROOT, env=env, capture_output=True, text=True)
        except Exception as e:
            return "ERROR", repr(e)
        m = re.search(r"^(FOUND \w+|MISSED)", r.stdout, re.M)
        return (m.group(1) if m else "ERROR rc=%d" % r.returncode), (r.stdout[-150:] if m else r.stderr[-300:])
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    cmd = sys.argv[1]
    if cmd == "list":
        t = 0
        for f in FILES:
            n = len(mutants(f))
            t += n
            print(f, n)
        print(t)
    elif cmd == "tests":
        items = [m for f in FILES if f not in os.environ.get("SKIP", "").split() for m in mutants(f)]
        with open(sys.argv[2], "w") as out, concurrent.futures.ThreadPoolExecutor(int(sys.argv[3])) as ex:
            for it, rc in zip(items, ex.map(run_tests, items)):
                if rc == 0:
                    out.write(json.dumps(it) + "\n")
                    out.flush()
                print(rc, it[1], flush=True)
    elif cmd == "triage":                # as "checks", quicker and not complete
        items = [json.loads(x) for x in open(sys.argv[2])]
        part, parts = int(os.environ.get("PART", "0")), int(os.environ.get("PARTS", "1"))
        drop = re.compile(r"debug|DEBUG|print|warnings|first char|last char|stderr")
        items = [i for i in items if not drop.search(i[1]) and int(hash_(i[1]), 16) % parts == part]
        print(len(items), flush=True)
        with concurrent.futures.ThreadPoolExecutor(int(sys.argv[4])) as ex, open(sys.argv[3], "a") as out:
            for it, (res, first) in zip(items, ex.map(run_triage, items)):
                print(res, it[1], flush=True)
                if not res.startswith("FOUND"):
                    out.write(json.dumps(it + [res, first]) + "\n")
                    out.flush()
    elif cmd == "checks":
        items = [json.loads(x) for x in open(sys.argv[2])]
        done = set()
        if os.path.exists(sys.argv[3]):
            done = {json.loads(x)[0] + json.loads(x)[4] for x in open(sys.argv[3])}
        items = [i for i in items if i[1] + str(hash_(i[2])) not in done]
        with open(sys.argv[3], "a") as out, concurrent.futures.ThreadPoolExecutor(int(sys.argv[4])) as ex:
            futs = {ex.submit(run_checks, i): i for i in items}
            for fu in concurrent.futures.as_completed(futs):
                it = futs[fu]
                pid, first, log = fu.result()
                out.write(json.dumps([it[1], pid, first, log, str(hash_(it[2]))]) + "\n")
                out.flush()
                print(pid or "MISSED", it[1], log, flush=True)


def hash_(code):
    import hashlib
    return hashlib.sha1(code.encode()).hexdigest()[:12]


main()
