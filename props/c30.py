"""C30: the out-of-date report is a correct unified diff."""
import itertools
import re
import tempfile

from creole.shared.diff_utils import unified_diff
from mc.engine import Space, Bad


class Wrong(Exception):
    pass


def pieces(text):
    """Lines with their line ends; only line feeds end lines"""
    out = text.split("\n")
    return [x + "\n" for x in out[:-1]] + ([out[-1]] if out[-1] else [])


def apply(old, diff):
    """-> (new text, header lines)"""
    lines = pieces(diff)
    if not lines:
        return old, None
    if len(lines) < 3 or not lines[0].startswith("--- ") or not lines[1].startswith("+++ "):
        raise Wrong("no header")
    head = lines[0][4:-1], lines[1][4:-1]
    src, pos, out, i = pieces(old), 0, [], 2
    shift, changed = 0, False
    while i < len(lines):
        m = re.fullmatch(r"@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? @@\n", lines[i])
        if not m:
            raise Wrong("no hunk header: %r" % lines[i])
        a, an, b, bn = (int(x) if x is not None else 1 for x in m.groups())
        start = a - 1 if an else a
        if start < pos or start > len(src):
            raise Wrong("hunk begins at line %d" % a)
        out += src[pos:start]
        pos = start
        if len(out) != (b - 1 if bn else b):
            raise Wrong("hunk begins at line %d of the new text, not %d" % (len(out) + 1, b))
        i += 1
        changed = False
        while an > 0 or bn > 0:
            if i >= len(lines):
                raise Wrong("hunk too short")
            kind, text = lines[i][:1], lines[i][1:]
            if kind not in (" ", "-", "+"):
                raise Wrong("unknown line %r" % lines[i])
            i += 1
            if i < len(lines) and lines[i].startswith("\\"):
                if not text.endswith("\n"):
                    raise Wrong("marker after a line without line end")
                text = text[:-1]
                i += 1
            elif not text.endswith("\n"):
                raise Wrong("line without line end: %r" % text)
            if kind in " -":
                if pos >= len(src) or src[pos] != text:
                    raise Wrong("line %d is %r, not %r" % (pos + 1, src[pos:pos + 1], text))
                pos += 1
                an -= 1
            if kind in " +":
                out.append(text)
                bn -= 1
            changed = changed or kind != " "
            if an < 0 or bn < 0:
                raise Wrong("hunk too long")
        if not changed:
            raise Wrong("hunk without change")
    out += src[pos:]
    return "".join(out), head


def judge(it, ctx):
    old, new, name = it
    d = unified_diff(old, new, filename=name) if name is not False else unified_diff(old, new)
    ctx.runs += 1
    ctx.outcome(d)
    if type(d) is not str:
        raise Bad("gives %r" % (d,))
    if (d == "") != (old == new):
        raise Bad("the texts are %s but the diff is %r" % ("equal" if old == new else "different", d))
    try:
        got, head = apply(old, d)
    except Wrong as e:
        raise Bad("not a diff of %r and %r: %s: %r" % (old, new, e, d))
    if got != new:
        raise Bad("applied to %r it gives %r, not %r: %r" % (old, got, new, d))
    if head:
        for h in head:
            if name and name not in h:
                raise Bad("the file %r is not named: %r" % (name, d))
        if head[0] == head[1]:
            raise Bad("old and new text are not told apart: %r" % d)
    ctx.nontrivial += 1


def texts(lines, n):
    """Texts of <= n lines, with and without line end at the end"""
    yield ""
    for k in range(1, n + 1):
        for t in itertools.product(lines, repeat=k):
            s = "\n".join(t)
            if s:
                yield s
            yield s + "\n"


def pair_items(lines, n, names=(False,)):
    a = list(texts(lines, n))
    for x in a:
        for y in a:
            for name in names:
                yield x, y, name


# long texts with several changes

def edit_items(n, k, kinds):
    base = ["l%d" % i for i in range(n)]
    for ps in itertools.combinations(range(n), k):
        for ks in itertools.product(kinds, repeat=k):
            for end in ((1, 1), (1, 0), (0, 1), (0, 0)):
                t = []
                for i, l in enumerate(base):
                    kind = ks[ps.index(i)] if i in ps else None
                    if kind == "del":
                        continue
                    if kind == "ins":
                        t.append("new")
                    if kind == "dup":
                        t.append(l)
                    t.append(l + "x" if kind == "mod" else "" if kind == "blank" else l)
                yield "\n".join(base) + "\n" * end[0], "\n".join(t) + "\n" * end[1], "README.rst"


# the report of an out-of-date README is the diff from the file's text to what the source gives

TEXTS = ["a", "b", "a\n\nb", "= h\n\na", "* a\n* b", "* a", "a\n\nb\n\nc", "\u00e4 {{{x}}}", "a b", "|x|\n|y|", "= h\n\na\n\n== i\n\nb"]
FILES = ["README.creole", "x y.creole", "doc.txt"]


def report_items():
    for fmt in ("rst", "md"):
        for a in TEXTS:
            for b in TEXTS:
                for name in FILES:
                    for edit in ("", "x\n", "- y\n\n"):
                        yield fmt, a, b, name, edit


def report_judge(it, ctx):
    from props import c25
    fmt, a, b, name, edit = it
    with tempfile.TemporaryDirectory(prefix="c30-") as d:
        w = c25.World(d, fmt, name)
        w.put_src(a)
        r, e, o = c25.call(c25.UPDATE[fmt], w.root, filename=name)
        if e:
            raise Bad("%r: the update fails: %s" % (a, e))
        w.put(edit.encode() + w.content())
        w.put_src(b)
        old, new = w.content().decode().rsplit("\n", 4)[0], w.body()
        r, e, o = c25.call(c25.ASSERT[fmt], w.root, filename=name)
    ctx.runs += 1
    if (e is None) != (old == new):
        raise Bad("the file says %r, the source gives %r: %r" % (old, new, e))
    if e is None:
        return
    head, _, diff = str(e).partition("\n")
    ctx.outcome(diff)
    if w.gen.name not in head:
        raise Bad("the file %s is not named: %r" % (w.gen.name, head))
    try:
        got, names = apply(old, diff)
    except Wrong as x:
        raise Bad("not a diff of %r and %r: %s: %r" % (old, new, x, diff))
    if got != new or names is None or not all(w.gen.name in n for n in names):
        raise Bad("the report is no diff from the file %r to %r: %r" % (old, new, diff))
    ctx.nontrivial += 1


ODD = ["a", "a\r", "a\x0b", "\x0c", "a\x85b", "\u2028", "\x1c", "-a", "+a", " a", "--- a", "+++ b", "@@ -1 +1 @@", "\\ No newline at end of file", "\t", "ä", "a ", "diff"]
NAMES = [None, False, "README.rst", "", "a b.md", "ä☃", "docs/x", "old", "new", "a%sb", "{0}"]


def spaces(tier):
    q = tier == "quick"
    return [
        Space("texts", lambda: pair_items(["a", "b"], 6 if q else 7), judge, rule="all pairs of texts of <= %d lines of 2, with and without line end" % (6 if q else 7)),
        Space("empty lines", lambda: pair_items(["a", "", " "], 4 if q else 5), judge, rule="all pairs of texts of <= %d lines of 3" % (4 if q else 5)),
        Space("odd lines", lambda: pair_items(ODD, 2), judge, rule="all pairs of texts of <= 2 lines of %d" % len(ODD)),
        Space("names", lambda: pair_items(["a", "b", ""], 2, NAMES), judge, rule="file names"),
        Space("reports", report_items, report_judge, rule="stale files for all pairs of %d sources x 3 file names x 2 formats, with and without an edit" % len(TEXTS)),
        Space("two edits", lambda: edit_items(18, 2, ("del", "ins", "mod", "dup", "blank")), judge, rule="a text of 18 lines with two changes anywhere"),
        Space("three edits", lambda: edit_items(16 if q else 30, 3, ("del", "ins", "mod")), judge, rule="a text of %d lines with three changes anywhere" % (16 if q else 30)),
    ]
