"""C16: HTML -> Markdown, read by Python-Markdown, is the same document."""
import html as stdhtml
import itertools
import re

import markdown

from creole import html2markdown
from mc import ast, hdoc, links, scale
from mc.engine import Space, Bad, words
from props import c14, c15

RENAME = {"b": "strong", "big": "strong", "em": "i"}
KEEP = {"a": ("href", "title"), "img": ("src", "alt", "title")}
LEAVES = ("t", "code", "link", "rlink", "blink", "ilink", "img", "timg", "aimg")
FACES = ("strong", "i", "sup", "sub")
MD = None


def render(text):
    """Nested lists are indented by two columns."""
    global MD
    if MD is None:
        MD = markdown.Markdown(extensions=["tables", "fenced_code"], tab_length=2)
    MD.reset()
    return MD.convert(text)


def compare(src, ctx, plain=None, percent=False):
    out = html2markdown(src)
    ctx.runs += 1
    ctx.nontrivial += 1
    ctx.outcome(out)
    want = loose(hdoc.meaning(plain or src, RENAME, KEEP))
    got = loose(hdoc.meaning(render(out), RENAME, KEEP))
    if percent:
        want, got = hdoc.unquoted(want), hdoc.unquoted(got)
    if want != got:
        raise Bad("html2markdown changes the document\n  markdown:\n%s\n  expected: %r\n  got:      %r" % (out, want, got))


def loose(tree):
    """Items of lists with blank lines have a paragraph."""
    def fn(n):
        if n[0] == "li":
            kids = []
            for k in n[2]:
                if not isinstance(k, str) and k[0] == "p":
                    kids += list(k[2])
                else:
                    kids.append(k)
            n = (n[0], n[1], tuple(kids))
        return n
    return hdoc.retext(tree, fn)


CONTEXTS = {
    "p": "<p>%s</p>", "p-p": "<p>q</p>\n<p>%s</p>\n<p>q</p>", "li": "<ul><li>%s</li></ul>", "li-li": "<ol><li>q<ul><li>%s</li><li>q</li></ul></li><li>q</li></ol>",
    "td": "<table><tr><th>q</th></tr><tr><td>%s</td></tr></table>", "td-td": "<table><tr><th>q</th><th>q</th></tr><tr><td>%s</td><td>q</td></tr></table>", "th": "<table><tr><th>%s</th><th>q</th></tr><tr><td>q</td><td>q</td></tr></table>",
    "h1": "<h1>%s</h1>\n<p>q</p>", "h4": "<h4>%s</h4>",
}


def inline_items(nmax, leaves, faces, nmin=1):
    for n in range(nmin, nmax + 1):
        for seq in ast.seqs(n, leaves, faces):
            for c in CONTEXTS:
                yield seq, c


def inline_src(it):
    return CONTEXTS[it[1]] % hdoc.inline(it[0], ast.Fill(), " ")


def glued_src(it):
    return CONTEXTS[it[1]] % hdoc.inline(it[0], ast.Fill(), "")


def alias_items(n):
    for it in c14.alias_items(n):
        seq, sep, c, names = it
        if c in ("p", "li", "td-td") and not any(k == "del" for k, _ in names):
            yield ("p" if c == "td-td" else c), seq, names


def alias_src(it):
    return CONTEXTS[it[0]] % hdoc.inline(it[1], ast.Fill(), " ", dict(it[2]))


BLOCKS = ["p", "p2", "plink", "plink2", "pbold", "pimg", "h1", "h2", "h3", "h6", "h2i", "hr", "ul", "ol", "ul2", "ol2", "mixed", "mixed2", "ul3", "lrich", "th", "trich", "tr1", "pre", "pre2"]


def valid(combo):
    return not any(hdoc.BLOCKS[a][0] == hdoc.BLOCKS[b][0] == "L" for a, b in zip(combo, combo[1:]))      # two lists in a row are one


def block_items(n, names):
    for combo in itertools.product(names, repeat=n):
        if valid(combo):
            yield combo


def table_items(rows, cols, menu):
    for r in range(2, rows + 1):
        for c in range(1, cols + 1):
            for cells in itertools.product(range(menu), repeat=r * c):
                yield r, c, True, cells


LANGUAGES = ["python", "c", "objective-c", "c++", "c#", "html+jinja", "x.y", "x_1", "f90", "", None, "python hljs", "hljs c++", "a b-c objective-c x"]
CODE = ["", "q", "  q", "        q", "* q", "`q`", "&lt;b&gt; &amp;amp;", "# q", "&#65;"]
CODE_FORMS = {"lines": "<pre>%s\n%s\n</code></pre>", "own lines": "<pre>\n%s\n%s\n</code>\n</pre>", "next to the tags": "<pre>%s%s\n</code></pre>", "without the last line break": "<pre>%s\n%s</code></pre>", "attribute": '<pre class="x">%s%s\n</code></pre>'}
CODE_PLACES = {"alone": "%s", "p": "<p>q</p>\n%s\n<p>q</p>", "joined": "<p>q</p>%s<p>q</p>", "div": "<div>%s</div>", "h": "<h2>q</h2>\n%s<ul><li>q</li></ul>", "two": "%s\n%s"}


def code_items(n):
    for w in words(CODE, n, 1):
        if any(CODE[i] for i in w):
            for lang in LANGUAGES:
                for form in CODE_FORMS:
                    for place in CODE_PLACES:
                        yield w, lang, form, place


def class_of(lang):
    """Other classes may stand before and after the one with the language"""
    names = lang.split()
    if not names:
        return "q"
    return " ".join(("language-" + n if n not in OTHER_CLASSES else n) for n in names)


OTHER_CLASSES = ("hljs", "a", "b-c", "x")


def code_src(it):
    w, lang, form, place = it
    start = "<code>" if lang is None else '<code class="%s">' % (class_of(lang))
    k = itertools.count(1)
    s = CODE_PLACES[place].replace("%s", CODE_FORMS[form] % (start, "\n".join(CODE[i] for i in w)))
    return re.sub("q", lambda m: "w%dz" % next(k), s)


def code_blocks(html_text):
    """-> kinds of the blocks, with language and lines of the code blocks"""
    out = []
    for m in re.finditer(r"<pre[^>]*>\s*<code(?: class=\"(?P<lang>[^\"]*)\"|[^>]*)>(?P<code>.*?)</code>\s*</pre>|<(?P<tag>p|h2|ul)>(?P<text>.*?)</(?P=tag)>", html_text, re.S):
        if m["tag"]:
            out.append((m["tag"], re.sub("<[^>]*>", "", m["text"]).split()))
        else:
            out.append(("code", language(m["lang"]), code_lines(m["code"])))
    return out


def language(classes):
    return "".join(c[9:] for c in (classes or "").split() if c.startswith("language-"))


def code_lines(text):
    ls = stdhtml.unescape(text).split("\n")
    while ls and not ls[0].strip():
        ls.pop(0)
    while ls and not ls[-1].strip():
        ls.pop()
    return ls


def code_judge(it, ctx):
    src = code_src(it)
    out = html2markdown(src)
    ctx.runs += 1
    ctx.nontrivial += 1
    ctx.outcome(out)
    want, got = code_blocks(src), code_blocks(render(out))
    if want != got:
        raise Bad("html2markdown changes a code block\n  markdown:\n%s\n  expected: %r\n  got:      %r" % (out, want, got))


def no_url(ch, shape, form):
    """Parentheses in pairs only; quote_link() drops what is empty"""
    return ch in "()" and ("?" in shape or "#" in shape) or shape.endswith("%s") and ch == ";"


def spaces(tier):
    q = tier == "quick"
    return [
        Space("inline", lambda: inline_items(3, LEAVES, FACES), lambda it, c: compare(inline_src(it), c), inline_src,
              rule="all inline trees of <= 3 nodes out of %d leaves and %d typefaces x %d contexts" % (len(LEAVES), len(FACES), len(CONTEXTS))),
        Space("inline deep", lambda: inline_items(4 if q else 5, ("t", "code", "link"), FACES[:2] if q else FACES[:3], 4), lambda it, c: compare(inline_src(it), c), inline_src,
              rule="all inline trees of 4 (thorough: 5) nodes over a smaller menu"),
        Space("glued", lambda: inline_items(3 if q else 4, ("t", "link", "rlink", "img"), ("strong", "sup", "sub")), lambda it, c: compare(glued_src(it), c), glued_src,
              rule="the same without white space between (Markdown has no emphasis with _ in a word)"),
        Space("aliases", lambda: itertools.chain(*[alias_items(n) for n in range(1, 4 if q else 5)]), lambda it, c: compare(alias_src(it), c), alias_src, rule="all trees over strong and i with every choice of alias tags") ,
        Space("lists", lambda: c14.list_items(5 if q else 6, 3 if q else 4), lambda it, c: compare(c14.list_src(it), c), c14.list_src, rule="all list outlines of <= %d items, both kinds mixed" % (5 if q else 6)),
        Space("rich lists", lambda: itertools.chain(*[c15.rich_list_items(n) for n in (1, 2, 3)]), lambda it, c: compare(c15.rich_list_src(it), c), c15.rich_list_src,
              rule="all list outlines of <= 3 items x %d contents per item" % len(c15.RICH)),
        Space("tables", lambda: table_items(2 if q else 3, 2, len(c15.RICH)), lambda it, c: compare(c15.table_src(it), c), c15.table_src, rule="all tables with a header row up to the bound x %d contents per cell" % len(c15.RICH)),
        c14.wrap_space(2 if q else 3, BLOCKS if q else BLOCKS[::2], compare, valid),
        Space("blocks", lambda: itertools.chain(*[block_items(n, BLOCKS) for n in (1, 2, 3)]), lambda it, c: compare(c14.block_src(it), c), c14.block_src,
              rule="all sequences of <= 3 blocks out of %d" % len(BLOCKS)),
        Space("more blocks", lambda: block_items(4 if q else 5, ("p", "h2", "hr", "ul", "mixed", "th", "pre", "pimg")), lambda it, c: compare(c14.block_src(it, ""), c), lambda it: c14.block_src(it, ""),
              rule="all sequences of %d blocks out of 8, without white space between" % (4 if q else 5)),
        Space("image texts", lambda: links.image_items(), lambda it, c: compare(links.image_src(it), c, links.image_flat(it)), links.image_src, rule=links.IMAGE_RULE),
        Space("url characters", lambda: links.legal_items(no_url), lambda it, c: compare(links.legal_src(it), c, percent=True), links.legal_src, rule=links.LEGAL_RULE),
        Space("targets", lambda: links.items([x for x in links.HREFS if x[:4] != "HTTP"]), lambda it, c: compare(links.src(it), c, percent=True), links.src, rule=links.RULE),
        Space("code blocks", lambda: code_items(2 if q else 3), code_judge, code_src, rule="all texts of <= %d out of %d lines x %d languages x %d ways to write the tags x %d places" % (2 if q else 3, len(CODE), len(LANGUAGES), len(CODE_FORMS), len(CODE_PLACES))),
        Space("sizes", lambda: scale.html_items(q, "m"), lambda it, c: compare(scale.html_src(it), c), scale.html_src, rule=scale.html_rule("m")),
    ]
