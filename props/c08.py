"""C08: line ends and line-break modes."""
import itertools
import re

from creole import creole2html
from mc import ast, doc, htm
from mc.engine import Space, Bad, words
from props.c05 import compare

ALPHA = ["\n", "q", " ", "**", "//", "[[", "]]", "|", "{{", "}}", "*", "# ", "=", "{{{", "}}}", "\\\\", "~", "<<m>>", "<</m>>", "http://h", "----", "\t", "\\", "<<toc>>"]
DEEP = ["\n", "q", " ", "* ", "|", "=", "{{{", "}}}", "\\\\", "<<m>>", "<</m>>", "**"]
BLOCKY = ["\n", "q", "* ", "|", "{{{", "}}}"]
STYLES = ("\n", "\r", "\r\n")


def macro(text=None, **kw):
    return "(%r %r)" % (text, kw)


def text(alpha, it):
    return "".join(alpha[i] for i in it)


def with_newline(alpha, d, nmin=1):
    for w in words(alpha, d, nmin):
        if 0 in w:
            yield w


def respell(src):
    """All spellings of the line ends; CR directly before LF would be one line end."""
    parts = src.split("\n")
    for st in itertools.product(STYLES, repeat=len(parts) - 1):
        if any(st[i] == "\r" and st[i + 1] == "\n" and parts[i + 1] == "" for i in range(len(st) - 1)):
            continue
        if all(s == "\n" for s in st):
            continue
        yield parts[0] + "".join(s + p for s, p in zip(st, parts[1:]))


def judge_styles(src, ctx):
    for blog in (True, False):
        want = creole2html(src, blog_line_breaks=blog, macros={"m": macro})
        ctx.runs += 1
        ctx.outcome(want)
        if "\r" in want:
            raise Bad("CR in %r" % want)
        for v in respell(src):
            got = creole2html(v, blog_line_breaks=blog, macros={"m": macro})
            ctx.runs += 1
            if got != want:
                raise Bad("blog=%s: %r gives %r, but %r gives %r" % (blog, v, got, src, want))
    ctx.nontrivial += 1


def spaced(tree):
    """The canonical tree with every line break turned into a space."""
    def go(kids):
        return [(k if isinstance(k, str) else " " if k[0] == "br" else (k[0], k[1], go(k[2]))) for k in kids]
    return ast.normal(go(tree))


def judge_modes(src, ctx):
    if re.search(r"<<\s*\w", src):
        return
    a, b = creole2html(src, blog_line_breaks=True), creole2html(src, blog_line_breaks=False)
    ctx.runs += 2
    ctx.outcome(a + b)
    try:
        ta, tb = htm.canon(htm.strict(a)), htm.canon(htm.strict(b))
    except htm.NotStrict as e:
        raise Bad("%s: %r %r" % (e, a, b))
    if spaced(ta) != spaced(tb):
        raise Bad("the modes differ in more than line breaks\n  blog: %r\n  wiki: %r" % (a, b))
    forced = src.count("\\\\")
    nb = sum(1 for n in htm.walk(htm.strict(b)) if not isinstance(n, str) and n.tag == "br")
    if nb > forced:
        raise Bad("%d line breaks in wiki mode, %d forced ones in the source: %r" % (nb, forced, b))
    ctx.nontrivial += 1


# -- running text ----------------------------------------------------------------
LINES = ["w", "two words", "**b**", "//i// x", "[[l]]", "{{i}}", "http://u", "{{{c}}}", "w\\\\", "x\\", "(*)", "", " ", " lead", "trail ", "~~d~~", "-- s --", "a|b", "~", "é."]
TREES = {
    "w": ["w"], "two words": ["two words"], "**b**": [("strong", (), ("b",))], "//i// x": [("i", (), ("i",)), " x"],
    "[[l]]": [("a", (("href", "l"),), ("l",))], "{{i}}": [ast.img("i", "i")], "http://u": [("a", (("href", "http://u"),), ("http://u",))],
    "{{{c}}}": [("code", (), ("c",))], "w\\\\": ["w", doc.BR], "x\\": ["x\\"], "(*)": ["(*)"], " lead": [" lead"], "trail ": ["trail "],
    "~~d~~": [("del", (), ("d",))], "-- s --": [("small", (), (" s ",))], "a|b": ["a|b"], "~": ["~"], "é.": ["é."],
}
FRAMES = {
    "text": ("", "", [], []),
    "after heading": ("= h\n", "", [("h1", (), ["h"])], []),
    "between lists": ("* l\n\n", "\n* l", [("ul", (), [("li", (), ["l"])])], [("ul", (), [("li", (), ["l"])])]),
    "between tables": ("|c|\n", "\n|c|", [("table", (), [("tr", (), [("td", (), ["c"])])])], [("table", (), [("tr", (), [("td", (), ["c"])])])]),
    "between nowiki": ("{{{\nn\n}}}\n", "\n{{{\nn\n}}}", [("pre", (), ["\nn\n"])], [("pre", (), ["\nn\n"])]),
    "between rules": ("----\n", "\n----", [("hr", (), ())], [("hr", (), ())]),
}


def line_items(n, frames):
    for m in range(1, n + 1):
        for combo in itertools.product(range(len(LINES)), repeat=m):
            if LINES[combo[0]].strip() == "" or LINES[combo[-1]].strip() == "":
                continue
            for f in frames:
                yield f, combo


def paragraphs(lines, blog):
    out, cur = [], None
    for ln in lines:
        if not ln.strip():
            cur = None
            continue
        k = TREES[ln]
        if cur is None:
            cur = list(k)
            out.append(("p", (), cur))
        else:
            if cur[-1] != doc.BR:
                cur.append(doc.lb(blog))
            cur.extend(k)
    for x in out:
        # a line break at the very end of a paragraph is dropped with the line
        pass
    return out


def judge_lines(item, ctx):
    f, combo = item
    lines = [LINES[i] for i in combo]
    b, a, tb, ta = FRAMES[f]
    for blog in (True, False):
        want = paragraphs(lines, blog)
        # a forced line break directly before another block is not rendered
        compare_end(b + "\n".join(lines) + a, tb, want, ta, ctx, blog)
    ctx.nontrivial += 1


def compare_end(src, tb, want, ta, ctx, blog):
    if any(p[2][-1] == doc.BR for p in want):
        return          # a forced break at the end of a paragraph: either rendering is fine (see C04, C05)
    compare(src, tb + want + ta, ctx, blog_line_breaks=blog)


def list_items(n):
    for m in range(1, n + 1):
        for combo in itertools.product([i for i, x in enumerate(LINES) if x.strip()], repeat=m):
            for head in ("* ", "# q\n## ", "|c|\n* "):
                yield head, combo


def judge_list(item, ctx):
    """Continuation lines of a list item."""
    head, combo = item
    lines = [LINES[i] for i in combo]
    if lines[-1].endswith("\\\\") or any(x.startswith("**") for x in lines[1:]):
        return          # (a line starting with ** after an item is an item)
    for blog in (True, False):
        k = paragraphs(lines, blog)[0][2]
        if head == "* ":
            want = [("ul", (), [("li", (), k)])]
        elif head[0] == "#":
            want = [("ol", (), [("li", (), ["q", ("ol", (), [("li", (), k)])])])]
        else:
            want = [("table", (), [("tr", (), [("td", (), ["c"])])]), ("ul", (), [("li", (), k)])]
        compare(head + "\n".join(lines), want, ctx, blog_line_breaks=blog)
    ctx.nontrivial += 1


def spaces(tier):
    q = tier == "quick"
    d = 4 if q else 5
    return [
        Space("spellings", lambda: with_newline(ALPHA, d), lambda it, c: judge_styles(text(ALPHA, it), c), lambda it: text(ALPHA, it),
              rule="all texts of <= %d tokens out of %d with a line end x all assignments of LF, CR, CRLF x both modes" % (d, len(ALPHA))),
        Space("deep spellings", lambda: with_newline(DEEP, d + 1, d + 1), lambda it, c: judge_styles(text(DEEP, it), c), lambda it: text(DEEP, it),
              rule="the same for %d tokens of %d" % (d + 1, len(DEEP))),
        Space("block spellings", lambda: with_newline(BLOCKY, d + 2, d + 2), lambda it, c: judge_styles(text(BLOCKY, it), c), lambda it: text(BLOCKY, it),
              rule="the same for %d tokens of %d" % (d + 2, len(BLOCKY))),
        Space("modes", lambda: with_newline(ALPHA, d), lambda it, c: judge_modes(text(ALPHA, it), c), lambda it: text(ALPHA, it),
              rule="blog and wiki mode compared on all texts of <= %d tokens out of %d" % (d, len(ALPHA))),
        Space("deep modes", lambda: with_newline(DEEP, d + 1, d + 1), lambda it, c: judge_modes(text(DEEP, it), c), lambda it: text(DEEP, it),
              rule="the same for %d tokens of %d" % (d + 1, len(DEEP))),
        Space("running text", lambda: line_items(3 if q else 4, list(FRAMES)), judge_lines, lambda it: (it[0], [LINES[i] for i in it[1]]),
              rule="all texts of <= %d lines out of %d between 6 kinds of blocks, exact line breaks in both modes" % (3 if q else 4, len(LINES))),
        Space("list items", lambda: list_items(3), judge_list, lambda it: (it[0], [LINES[i] for i in it[1]]),
              rule="list items of <= 3 lines out of %d, exact line breaks in both modes" % len(LINES)),
    ]
