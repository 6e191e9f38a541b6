"""C05: inline constructs."""
import re

from creole import creole2html
from mc import ast, htm, links, scale
from mc.engine import Space, Bad

LEAVES = ("t", "br", "code", "url", "link", "blink", "ilink", "img", "timg", "simg")
FACES = tuple(ast.FACES)
# context: (text before, text after, expected wrapper)
CONTEXTS = {
    "paragraph": ("", "", lambda k: [("p", (), k)]),
    "second line": ("q\n", "", lambda k: [("p", (), ["q", ("br", (), ())] + k)]),
    "first line": ("", "\nq", lambda k: [("p", (), k + ([] if k[-1] == ("br", (), ()) else [("br", (), ())]) + ["q"])]),   # \\\\ before the line end: one break
    "bullet item": ("* ", "", lambda k: [("ul", (), [("li", (), k)])]),
    "nested item": ("# q\n## ", "\n# q", lambda k: [("ol", (), [("li", (), ["q", ("ol", (), [("li", (), k)])]), ("li", (), ["q"])])]),
    "cell": ("|", "|", lambda k: [("table", (), [("tr", (), [("td", (), k)])])]),
    "first cell": ("|", "|q|", lambda k: [("table", (), [("tr", (), [("td", (), k), ("td", (), ["q"])])])]),
    "last cell": ("|=q| ", " ", lambda k: [("table", (), [("tr", (), [("th", (), ["q"]), ("td", (), k)])])]),
}


def compare(src, expect, ctx, **kw):
    html = creole2html(src, **kw)
    ctx.runs += 1
    ctx.outcome(html)
    try:
        got = htm.canon(htm.strict(html))
    except htm.NotStrict as e:
        raise Bad("%s\n  html: %r" % (e, html))
    expect = tuple(ast.normal(expect))
    if got != expect:
        raise Bad("rendered differently\n  html:     %r\n  expected: %r\n  got:      %r" % (html, expect, got))


def build(item):
    seq, sep, c = item
    n = ast.numbered(seq, ast.Fill())
    before, after, wrap = CONTEXTS[c]
    return before + ast.creole(n, sep) + after, n, wrap


def judge(item, ctx):
    src, n, wrap = build(item)
    ctx.nontrivial += 1
    compare(src, wrap(ast.tree(n, item[1])), ctx)
    if has_size(item[0]):
        compare(src, wrap(ast.tree(n, item[1], strict=True)), ctx, strict=True)


def has_size(seq):
    return any(x[0] == "simg" or (len(x) > 1 and has_size(x[1])) for x in seq)


def items(nmax, contexts, leaves, faces, nmin=1):
    for n in range(nmin, nmax + 1):
        for seq in ast.seqs(n, leaves, faces):
            for sep in ("", " ") if n > 1 else ("",):
                for c in contexts:
                    yield seq, sep, c


PROTOS = ["http", "https", "ftp", "nntp", "news", "mailto", "telnet", "file", "irc"]
OTHERS = ["htt", "foo", "httpx", "xhttp", "javascript", "data", "ssh", "HTTP"]


def url_items():
    for p in PROTOS + OTHERS:
        for path in ("h", "h/a?b=c&d=e#f", "//h//i//", "h.", "**h**", "a|b", "[[x]]", "~x", "a_b__c__d", "{{i}}", "h,,i,,j"):
            for pre, post in (("", ""), ("a ", " b"), ("a\n", "\nb"), ("** ", " **"), ("(", ")"), ("a", ""), ("\t", "\t"), ("~", ""), ("a ~", " b")):
                yield p, path, pre, post


def judge_url(item, ctx):
    """A free standing URL of a known protocol is a link with the whole non-space run as target; nothing else is."""
    p, path, pre, post = item
    if "**" in path and "**" in pre:
        return          # the path itself would close the typeface
    url = "%s://%s" % (p, path)
    free = pre == "" or pre[-1] in " \n\t"
    if not (free or pre.endswith("~")):
        return judge_not(item, ctx)
    if p not in PROTOS:
        return judge_not(item, ctx)
    for wrap in ("%s", "* q %s", "| q %s|" if "|" not in url else "%s"):
        if wrap != "%s" and "\n" in pre + post:
            continue
        src = wrap % (pre + url + post)
        html = creole2html(src)
        ctx.runs += 1
        ctx.outcome(html)
        t = htm.strict(html)
        links = [n for n in htm.walk(t) if not isinstance(n, str) and n.tag == "a"]
        if pre.endswith("~"):
            if links or not url_text(t, url):
                raise Bad("escaped URL in %r: %r" % (src, html))
        elif len(links) != 1 or links[0].attrs.get("href") != url or links[0].kids != [url]:
            raise Bad("free standing URL in %r: %r" % (src, html))
    ctx.nontrivial += 1


def url_text(t, url):
    return url in "".join(n for n in htm.walk(t) if isinstance(n, str))


def judge_not(item, ctx):
    p, path, pre, post = item
    if "[[" in path:
        return
    html = creole2html(pre + "%s://%s" % (p, path) + post)
    ctx.runs += 1
    if "<a " in html:
        raise Bad("not a free standing known URL, but linked: %r" % html)
    ctx.nontrivial += 1


# spelling variants of links and images
TARGETS = ["a", "a b", "http://h/i", "http://h/?a=b&c=d", "a//b//c", "**a**", "/a_b__c__d", "a~b", "foo://bar", "mailto:a@b", "#x", "ü", "a'b", '"a"', "<a>"]
TEXTS = ["t", "t u", "**t**", "t//u//", "t~u", "a&b", "<b>", "http://h"]


def spelled_items():
    for t in TARGETS:
        for x in [None] + TEXTS:
            for s1 in ("", " "):
                for s2 in ("", " "):
                    for c in ("paragraph", "bullet item", "cell", "first cell"):
                        for img in (False, True):
                            yield t, x, s1, s2, c, img


def judge_spelled(item, ctx):
    t, x, s1, s2, c, is_img = item
    o, e = ("{{", "}}") if is_img else ("[[", "]]")
    if x is None:
        src = o + t + s1 + e
    else:
        src = o + t + s1 + "|" + s2 + x + s1 + e
    x2 = t if x is None else x
    if is_img:
        want = [ast.img(t, x2)]
    else:
        # a link text knows images and line breaks only
        want = [("a", (("href", t),), (x2,))]
    b, a, wrap = CONTEXTS[c]
    compare(b + "q " + src + " r" + a, wrap(["q "] + want + [" r"]), ctx)
    ctx.nontrivial += 1


def related_items():
    for img, targets in ((False, links.HREFS), (True, links.SRCS)):
        for t in targets:
            t = t.replace("&amp;", "&")
            for x in sorted({links.related(t, k) for k in links.KINDS}):
                if x:
                    for c in CONTEXTS:
                        yield t, x, "", "", c, img


def char_items():
    """One character somewhere in the target or the text of a link or image"""
    for is_img in (False, True):
        for p in PUNCT + ["\u00e4", "1", " ", ".."]:
            for shape in ("a%sb", "%sb", "a%s", "a%sb%sc", "http://h/%sb?%s#a%s"):
                for where in ("target", "target alone", "text", "both"):
                    for c in ("paragraph", "bullet item", "cell", "first cell"):
                        yield is_img, p, shape, where, c


def char_src(it):
    is_img, p, shape, where, c = it
    s = shape.replace("%s", p)
    t, x = {"target": (s, "x y"), "target alone": (s, None), "text": ("u", s), "both": (s, s)}[where]
    o, e = ("{{", "}}") if is_img else ("[[", "]]")
    return CONTEXTS[c][0] + "q " + o + t + ("" if x is None else "|" + x) + e + " r" + CONTEXTS[c][1], t, x


def judge_char(it, ctx):
    is_img, p, shape, where, c = it
    src, t, x = char_src(it)
    s = shape.replace("%s", p)
    if p == "|" or p == " " and s != s.strip() or p == "]" and not is_img and s.endswith(p) or p == "}" and is_img and s.endswith(p) or p in "[{" and s.startswith(p):
        return                           # ends the target, the link or the image, or runs together with its marks
    want = [ast.img(t, t if x is None else x)] if is_img else [("a", (("href", t),), (t if x is None else x,))]
    compare(src, CONTEXTS[c][2](["q "] + want + [" r"]), ctx)
    ctx.nontrivial += 1


# punctuation inside of typefaces
PUNCT = list("!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~")
SHAPES = ["a%sb", "a%s b", "a %sb", "a %s b"]
OUTER = ["%s", "q %s", "%s q", "* %s", "|%s|q|"]


def literal_items():
    for face in ast.FACES:
        for inner in (None,) + tuple(ast.FACES):
            if inner != face:
                for shape in SHAPES:
                    for p in PUNCT:
                        for r in [""] + (PUNCT if inner is None else []):
                            if p != r:
                                for o in OUTER[:1] if r else OUTER:
                                    yield face, inner, shape, p + r, o


def judge_literal(it, ctx):
    face, inner, shape, p, o = it
    t = shape % p
    if re.search(r"~\S", t) or "|" in p and "|" in o:
        return
    s, kids = t, (t,)
    if inner:
        s, kids = "c %s%s%s d" % (ast.FACES[inner], t, ast.FACES[inner]), ("c ", (inner, (), (t,)), " d")
    src = o % (ast.FACES[face] + s + ast.FACES[face])
    x = (face, (), kids)
    want = {"%s": [("p", (), [x])], "q %s": [("p", (), ["q ", x])], "%s q": [("p", (), [x, " q"])], "* %s": [("ul", (), [("li", (), [x])])],
            "|%s|q|": [("table", (), [("tr", (), [("td", (), [x]), ("td", (), ["q"])])])]}[o]
    compare(src, want, ctx)
    ctx.nontrivial += 1


# punctuation next to inline elements
NEAR = dict({k: (v + "w" + v, (k, (), ("w",))) for k, v in ast.FACES.items()}, link=("[[/u|w]]", ("a", (("href", "/u"),), ("w",))), img=("{{g|w}}", ast.img("g", "w")), code=("{{{w}}}", ("code", (), ("w",))), br=("\\\\", ("br", (), ())))
SPOTS = ["a%sX", "a %sX", "a %s X", "aX%s", "aX%s b", "a%sX%sb", "a %sX%s b", "a X %s b", "a%sXXX"]


def near_items():
    for k in NEAR:
        for spot in SPOTS:
            for p in PUNCT + ["1", "\u00e4", "z", "--", "://", "w:", "..", "?!"]:
                for end in ("", " d"):
                    for o in OUTER:
                        yield k, spot, p, end, o


def near_src(it):
    k, spot, p, end, o = it
    s, x = NEAR[k]
    t = spot.replace("XXX", "X%s2" % " ").replace("%s", p) + end
    return o % t.replace("X", s), t, x


def judge_near(it, ctx):
    k, spot, p, end, o = it
    src, t, x = near_src(it)
    s = NEAR[k][0]
    at = t.index("X")
    if at and (t[at - 1] == s[0] or t[at - 1] == "~" or t[at - 1] == ":" and s[0] == "/") or t[at + 1:at + 2] == s[-1] or t[at + 1:at + 2] == "~" and k == "br":
        return                           # one run of characters, an escape, an address
    if "|" in p and "|" in o or re.search(r"~\S", t.replace("X", "")) and "~" in p or any(p == v for v in ast.FACES.values()):
        return
    if p.endswith("://") or "://" in t or "|" in o and t.endswith("~"):
        return
    kids = [t[:at], x, t[at + 1:]]
    compare(src, {"%s": [("p", (), kids)], "q %s": [("p", (), ["q "] + kids)], "%s q": [("p", (), kids + [" q"])], "* %s": [("ul", (), [("li", (), kids)])],
                  "|%s|q|": [("table", (), [("tr", (), [("td", (), kids), ("td", (), ["q"])])])]}[o], ctx)
    ctx.nontrivial += 1


def judge_scale(item, ctx):
    """The paragraph, and its content as a list item and as a cell."""
    for blog in (True, False):
        src, want = scale.CREOLE[item[0]][0](item[1], blog)
        compare(src, want, ctx, blog_line_breaks=blog)
        kids = list(want[0][2])
        compare("# q\n## %s\n# q" % src, CONTEXTS["nested item"][2](kids), ctx, blog_line_breaks=blog)
        compare("|=q| %s " % src, CONTEXTS["last cell"][2](kids), ctx, blog_line_breaks=blog)
    ctx.nontrivial += 1


def spaces(tier):
    q = tier == "quick"
    n = 3 if q else 4
    return [
        Space("trees", lambda: items(n, list(CONTEXTS), LEAVES, FACES), judge, lambda it: build(it)[0],
              rule="all inline trees of <= %d nodes over %d leaves and %d typefaces x 2 separators x %d contexts" % (n, len(LEAVES), len(FACES), len(CONTEXTS))),
        Space("deep-trees", lambda: items(n + 1, ["paragraph", "bullet item", "first cell"], ("t", "link", "br", "timg"),
                                          ("strong", "i", "tt", "small", "del"), n + 1),
              judge, lambda it: build(it)[0], rule="all inline trees of %d nodes over 4 leaves and 5 typefaces x 3 contexts" % (n + 1)),
        Space("urls", url_items, judge_url, rule="17 protocols x 11 paths x 9 surroundings x 3 contexts"),
        Space("spellings", spelled_items, judge_spelled, rule="links and images: 15 targets x 9 texts x white space variants x 4 contexts"),
        Space("sizes", lambda: scale.creole_items(q, True), judge_scale, scale.creole_src, rule=scale.creole_rule(True) + " x 3 contexts"),
        Space("characters of targets", char_items, judge_char, lambda it: char_src(it)[0], rule="every punctuation character at 5 kinds of places in targets and texts of links and images x 4 contexts"),
        Space("related targets", related_items, judge_spelled, rule="links and images whose text is related to their target: " + links.RULE),
        Space("neighbours", near_items, judge_near, lambda it: near_src(it)[0], rule="every punctuation character at %d positions around %d inline elements x %d contexts" % (len(SPOTS), len(NEAR), len(OUTER))),
        Space("punctuation", literal_items, judge_literal, rule="every punctuation character and pair of two different ones at %d positions in each typeface, in nested typefaces and next to them" % len(SHAPES)),
    ]
