"""C33: preformatted text keeps every line, its indentation and its characters in all four conversions."""
import html as stdhtml
import itertools
import re

import textile

from creole import creole2html, html2creole, html2markdown, html2rest, html2textile
from mc import hdoc, rst
from mc.engine import Space, Bad, words
from props import c16


def creole_tree(out):
    return hdoc.meaning(creole2html(out))


def rest_tree(out):
    got, err = rst.tree(out)
    if err:
        raise Bad("docutils complains: %s\n  rest: %s" % (err, out))
    return hdoc.norm_pre(got)


def markdown_tree(out):
    return hdoc.meaning(c16.render(out))


def textile_tree(out):
    """python-textile knows no blank lines in <pre>, so the preformatted text itself is taken as it is written."""
    texts = []

    def cut(m):
        texts.append(m[1])
        return "<pre>PRE%dPRE</pre>" % (len(texts) - 1)

    html = textile.textile(PRE.sub(cut, out))
    html = re.sub(r"PRE(\d+)PRE", lambda m: stdhtml.escape(texts[int(m[1])], False), html)
    return hdoc.meaning(html)


PRE = re.compile(r"<pre>(.*?)</pre>", re.S)
TARGETS = {"creole": (html2creole, creole_tree), "rest": (html2rest, rest_tree), "markdown": (html2markdown, markdown_tree), "textile": (html2textile, textile_tree)}

LINES = ["", "q", "  q", "    q  q", "q ", "* q", "= q =", "&lt;b&gt; &amp;lt;", "|q|", "----", "~q ~* **q** //q//", "#!q", "`q`", "1. q", "\\q", "&#65;&#x42;&copy;", "::", "q:", ".. q", "- q", "&quot;'"]
FEW = ["", "q", "  q", "    q", " q  ", "* q"]
ENDS = ["\n%s\n", "\n%s\n\n", "\n\n%s\n", "%s", "%s\n", "\n%s"]
# the same without the line breaks -> the blocks
JOINED = {
    "alone": ("%s", "%s"), "p-p": ("<p>q</p>%s<p>q</p>",) * 2, "h-ul": ("<h1>q</h1>%s<ul><li>q</li></ul>",) * 2, "div": ("<div>%s</div>", "%s"), "div-p": ("<div>\n%s\n</div>\n<p>q</p>", "%s<p>q</p>"),
    "div-div": ("<p>q</p><div><div>%s</div></div><p>q</p>", "<p>q</p>%s<p>q</p>"), "p in div": ("<div><p>q</p>%s<p>q</p></div>", "<p>q</p>%s<p>q</p>"), "section": ("<section>\n<h1>q</h1>\n%s</section>", "<h1>q</h1>%s"),
    "body": ("<html><body><p>q</p>\n  %s\n  <p>q</p></body></html>", "<p>q</p>%s<p>q</p>"), "two": ("%s%s", "%s%s"), "ul-h": ("<ul><li>q</li></ul>%s<h1>q</h1>%s",) * 2, "table": ("%s<table><tr><th>q</th></tr></table>",) * 2,
    "form": ("<p>q</p><form>%s</form>", "<p>q</p>%s"), "text": ("q %s q", "<p>q</p>%s<p>q</p>"), "in p": ("<p>q%sq</p>", "<p>q</p>%s<p>q</p>"),
}
CONTEXTS = {
    "alone": "%s", "p-p": "<p>q</p>\n%s\n<p>q</p>", "h-p": "<h1>q</h1>\n%s\n<p>q</p>", "li-p": "<ul>\n<li>q</li>\n</ul>\n%s\n<p>q</p>",
    "p-ol": "<p>q</p>\n%s\n<ol>\n<li>q</li>\n</ol>", "th": "<table><tr><th>q</th></tr></table>\n%s\n<p>q</p>", "two": "%s\n%s", "p-two": "<p>q</p>\n%s\n<p>q</p>\n%s",
}


def shape(name, tree):
    """The kinds of the blocks and the lines of the preformatted ones."""
    return [(x[0], lines(name, hdoc.flat(x[2])) if x[0] == "pre" else hdoc.flat(x[2]).split()) for x in tree if not isinstance(x, str)]


def lines(name, text):
    """Without blank lines at the ends; reST does not know a common indentation nor white space at the ends of lines."""
    out = text.split("\n")
    if name == "rest":
        out = [ln.rstrip() for ln in text.split("\n")]
        common = min([len(ln) - len(ln.lstrip()) for ln in out if ln] or [0])
        out = [ln[common:] for ln in out]
    while out and not out[0].strip():
        out.pop(0)
    while out and not out[-1].strip():
        out.pop()
    return out


def source(it, plain=False):
    seq, end, c = it[:3]
    joined = len(it) > 3
    text = "\n".join(seq)
    k = itertools.count(1)
    pre = "<pre>%s</pre>" % ENDS[end] % text
    src = (JOINED[c][plain] if joined else CONTEXTS[c]).replace("%s", pre)
    return re.sub(r"q", lambda m: "w%dz" % next(k), src)


def judge(it, ctx):
    src = source(it)
    want_tree = hdoc.meaning(source(it, True))
    if not "".join(it[0]).strip():
        return
    for name, (f, read) in TARGETS.items():
        out = f(src)
        ctx.runs += 1
        ctx.outcome(out)
        got_tree = read(out)
        want, got = shape(name, want_tree), shape(name, got_tree)
        if want != got:
            raise Bad("html2%s changes preformatted text\n  output:\n%s\n  expected: %r\n  got:      %r" % (name, out, want, got))
    ctx.nontrivial += 1


def space(name, alpha, lo, hi, ends, contexts, rule):
    return Space(name, lambda: ((tuple(alpha[i] for i in w), e, c) for w in words(alpha, hi, lo) for e in ends for c in contexts), judge, source, rule=rule)


def joined_items(alpha, hi):
    """Preformatted text with more than one line which does not stand on its own lines."""
    for w in words(alpha, hi, 1):
        seq = tuple(alpha[i] for i in w)
        for e, end in enumerate(ENDS):
            if "\n" in end % "\n".join(seq):
                for c in JOINED:
                    yield seq, e, c, "joined"


def spaces(tier):
    q = tier == "quick"
    n, m = (2, 4) if q else (3, 5)
    return [
        space("lines", LINES, 1, n, (0,), ("alone", "p-p"), "all texts of <= %d out of %d lines, alone and between paragraphs, four targets" % (n, len(LINES))),
        space("indentation", FEW, 1, m, (0,), ("alone", "p-p"), "all texts of <= %d out of %d lines (blank lines and three indentations)" % (m, len(FEW))),
        space("places", FEW, 1, 2 if q else 3, (0, 1, 2), tuple(CONTEXTS), "all texts of <= %d out of %d lines, blank lines at the ends, %d neighbourhoods" % (2 if q else 3, len(FEW), len(CONTEXTS))),
        Space("in a line", lambda: joined_items(FEW, 2 if q else 3), judge, source, rule="all texts of <= %d out of %d lines, tags next to the text, %d neighbourhoods without line breaks" % (2 if q else 3, len(FEW), len(JOINED))),
        Space("in a line, markup", lambda: joined_items(LINES, 1 if q else 2), judge, source, rule="all texts of <= %d out of %d lines, tags next to the text, %d neighbourhoods without line breaks" % (1 if q else 2, len(LINES), len(JOINED))),
    ]
