"""C34: the bundled macros show exactly the given text."""
import html as stdhtml
import re

from creole import creole2html
from creole.shared import example_macros
from mc import htm
from mc.engine import Space, Bad, words

TEXT = ["a", " ", "  ", "\n", "\n\n", "<", ">", "&", "&amp;", "<b>", "</pre>", "<br />", "\"", "'", "#", "def ", "{", "}", "\\", "%s", "~", "**", "\u00e4", "\u6f22", "//", "/*", "\t", "]]"]
FEW = ["a", "\n", "<b>", "&amp;", "  ", "'", "#"]
EXTS = [".py", "py", ".html", "html", ".css", ".js", "c++", ".txt", "creole", "rst"]
ODD = ["", ".", ".nope", "nope", "a.b.c", " .py ", "<b>"]
TAG = re.compile(r"<[^<>]*>")


def clean(text):
    """Without blank lines at the ends."""
    lines = text.split("\n")
    while lines and not lines[0].strip():
        lines.pop(0)
    while lines and not lines[-1].strip():
        lines.pop()
    return lines


VOCAB = {"div": ("class",), "pre": (), "span": ("class",), "br": ()}


def visible(html):
    htm.strict(html, VOCAB)
    return stdhtml.unescape(TAG.sub("", html.replace("<br />\n", "\n")))


def written(text, ext, place):
    if place == "block":
        return "<<%s>>\n%s\n<</%s>>" % (ext, text, ext.split()[0])
    if place == "text":
        return "x\n\n<<%s>>\n%s\n<</%s>>\n\ny" % (ext, text, ext.split()[0])
    return "x <<%s>>%s<</%s>> y" % (ext, text, ext.split()[0])


def judge(it, ctx):
    name, ext, text = it
    ctx.runs += 1
    if name == "html":
        res = example_macros.html(text)
        ctx.outcome(res)
        if res != text:
            raise Bad("html macro: %r became %r" % (text, res))
        ctx.nontrivial += 1
        return
    if name == "pre":
        res = example_macros.pre(text)
        want, got = text, visible(res)
    else:
        saved = example_macros.PYGMENTS
        try:
            example_macros.PYGMENTS = name == "code" and saved
            res = example_macros.code(ext, text)
        finally:
            example_macros.PYGMENTS = saved
        want, got = text, visible(res)
        if name == "code":
            want, got = clean(want), clean(got)
    ctx.outcome(res)
    ctx.nontrivial += 1
    if want != got:
        raise Bad("%s macro (ext %r): %r is shown as %r: %r" % (name, ext, want, got, res))


def page_judge(it, ctx):
    """The macros in a page, as the documentation shows them."""
    name, ext, text, place = it
    tag = name if name != "code" else 'code ext="%s"' % ext
    src = written(text, tag, place)
    res = creole2html(src, macros=example_macros)
    ctx.runs += 1
    ctx.outcome(res)
    ctx.nontrivial += 1
    if "[Error" in res:
        raise Bad("%r: %r" % (src, res))
    got = res.split("<p>x", 1)[-1].rsplit("y</p>", 1)[0] if place != "block" else res
    if name == "html":
        ok = text.strip() in res
    else:
        start, end = got.find("<pre>"), got.rfind("</pre>")
        ok = start >= 0 and [ln.rstrip() for ln in clean(visible(got[start:end + 6]))] == [ln.rstrip() for ln in clean(text)]
        if not ok and start >= 0:        # white space around a inline text belongs to the text
            ok = visible(got[start:end + 6]).strip() == text.strip()
    if not ok:
        raise Bad("%r became %r" % (src, res))


def texts(alpha, n):
    return ["".join(alpha[i] for i in w) for w in words(alpha, n, 1)]


def show(it):
    return written(it[2], it[0] + (' ext="%s"' % it[1] if it[0][:4] == "code" else ""), "block")


def spaces(tier):
    q = tier == "quick"
    n = 3 if q else 4
    return [
        Space("html and pre", lambda: ((m, "", t) for m in ("html", "pre") for t in texts(TEXT, n)), judge, show, rule="both macros, all texts of <= %d out of %d tokens" % (n, len(TEXT))),
        Space("code", lambda: (("code", e, t) for e in EXTS for t in texts(TEXT, 2)), judge, show, rule="%d known extensions, all texts of <= 2 out of %d tokens" % (len(EXTS), len(TEXT))),
        Space("longer code", lambda: (("code", e, t) for e in (".py", "html", ".txt") for t in texts(FEW, 4 if q else 5)), judge, show, rule="three extensions, all texts of <= %d out of %d tokens" % (4 if q else 5, len(FEW))),
        Space("unknown extensions", lambda: (("code", e, t) for e in ODD for t in texts(FEW, 2 if q else 3)), judge, show, rule="%d unknown or odd extensions, all texts of <= %d out of %d tokens" % (len(ODD), 2 if q else 3, len(FEW))),
        Space("without pygments", lambda: (("code0", e, t) for e in (".py", "", "nope") for t in texts(TEXT, 2 if q else 3)), judge, show, rule="pygments missing, three extensions, all texts of <= %d out of %d tokens" % (2 if q else 3, len(TEXT))),
        Space("in pages", lambda: ((m, e, t, p) for m, e in (("html", ""), ("pre", ""), ("code", ".py"), ("code", "html"), ("code", ".nope")) for t in texts(FEW, 2 if q else 3) if t.strip() for p in ("block", "text", "inline") if p != "inline" or "\n" not in t),
              page_judge, lambda it: written(it[2], it[0], it[3]), rule="five macro tags in three places of a page, all texts of <= %d out of %d tokens" % (2 if q else 3, len(FEW))),
    ]
