"""Abstract HTML documents: inline trees, blocks, lists, tables -> HTML source with unique words.

The expected meaning of a document is the canonical tree of its own source (htm.canon), so the generator is the only model.
"""
from urllib.parse import unquote

from mc import ast, htm

ESC = {"&": "&amp;", "<": "&lt;", ">": "&gt;"}


def inline(seq, f, sep="", names=None):
    """seq of ast nodes -> HTML; names: face -> tag spelling."""
    out = []
    for x in seq:
        k = x[0]
        if len(x) > 1:
            t = (names or {}).get(k, k)
            s = "<%s>%s</%s>" % (t, inline(x[1], f, sep, names), t)
        elif k == "t":
            s = f()
        elif k == "br":
            s = "<br />"
        elif k == "link":
            s = '<a href="http://%s.org/p">%s z</a>' % (f("l"), f("x"))
        elif k == "rlink":
            s = '<a href="/%s/">%s</a>' % (f("l"), f("x"))
        elif k == "blink":
            w = f("l")
            s = '<a href="%s">%s</a>' % (w, w)
        elif k == "ilink":
            s = '<a href="/%s/"><img src="%s.png" alt="%s" title="%s" /></a>' % (f("l"), f("g"), *[f("a")] * 2)
        elif k == "img":
            w = f("g") + ".png"
            s = '<img src="/%s" alt="%s" title="%s" />' % (w, w, w)
        elif k == "timg":
            s = '<img src="/%s.png" alt="%s z" title="%s z" />' % (f("g"), *[f("a")] * 2)
        elif k == "aimg":
            s = '<img src="/%s.png" alt="%s" />' % (f("g"), f("a"))
        elif k == "simg":
            s = '<img src="/%s.png" alt="%s" title="%s" width="12" height="34" />' % (f("g"), *[f("a")] * 2)
        elif k == "sqimg":
            s = '<img src="/%s.png" alt="%s" title="%s" width="34" height="34" />' % (f("g"), *[f("a")] * 2)
        elif k == "code":
            s = "<code>%s</code>" % f("c")
        else:
            raise AssertionError(k)
        out.append(s)
    return sep.join(out)


def list_html(items, nl="", case=str):
    """items: [(level, kind, html)], no skipped levels -> HTML of the nested lists."""
    tag = {"*": "ul", "#": "ol"}
    out, stack = [], []
    for level, kind, content in items:
        while stack and len(stack) > level:
            out.append("</li>%s</%s>%s" % (nl, stack.pop(), nl))
        if stack and len(stack) == level:
            out.append("</li>%s" % nl)
            if stack[-1] != tag[kind]:
                raise AssertionError("kind change")
        elif len(stack) < level:
            assert len(stack) == level - 1
            stack.append(tag[kind])
            out.append("%s<%s>%s" % (nl if len(stack) > 1 else "", tag[kind], nl))
        out.append("<li>%s" % content)
    while stack:
        out.append("</li>%s</%s>%s" % (nl, stack.pop(), nl if stack else ""))
    return "".join(out)


def table_html(rows, nl=""):
    """rows: [[(th|td, html)]]"""
    return "<table>%s%s</table>" % (nl, "".join("<tr>%s%s</tr>%s" % (nl, "".join("<%s>%s</%s>%s" % (t, c, t, nl) for t, c in r), nl) for r in rows))


# ---------------------------------------------------------------------------
# block menus: name -> (class, function(f) -> html)

def _p(f):
    return "<p>%s</p>" % f()


def _p2(f):
    return "<p>%s <strong>%s</strong> <i>%s</i>, %s</p>" % (f(), f(), f(), f())


def _plink(f):
    return '<p><a href="http://%s.org/">%s</a> %s</p>' % (f("l"), f("x"), f())


def _pbold(f):
    return "<p><strong>%s</strong></p>" % f()


def _pimg(f):
    return '<p>%s <img src="/%s.png" alt="%s" title="%s" /></p>' % (f(), f("g"), *[f("a")] * 2)


def _plink2(f):
    u = f("l")
    return '<p><a href="http://%s.org/">%s</a> <a href="http://%s.org/a">%s</a></p>' % (u, f("x"), u, f("x"))


def _pbr(f):
    return "<p>%s<br />%s</p>" % (f(), f())


def _h(n):
    return lambda f: "<h%d>%s %s</h%d>" % (n, f(), f(), n)


def _hi(n):
    return lambda f: "<h%d>%s <i>%s</i></h%d>" % (n, f(), f(), n)


def _hr(f):
    return "<hr />"


def _l(*items):
    return lambda f: list_html([(lv, k, f()) for lv, k in items])


def _lrich(f):
    return list_html([(1, "*", "<strong>%s</strong> %s" % (f(), f())), (1, "*", '%s <a href="http://%s.org/">%s</a>' % (f(), f("l"), f("x")))])


def _lbr(f):
    return list_html([(1, "*", "%s<br />%s" % (f(), f())), (2, "#", f())])


def _t(*rows):
    return lambda f: table_html([[("th" if c == "h" else "td", f()) for c in r] for r in rows])


def _trich(f):
    return table_html([[("th", f()), ("th", "<i>%s</i>" % f())], [("td", "<strong>%s</strong> %s" % (f(), f())), ("td", '<a href="http://%s.org/">%s</a>' % (f("l"), f("x")))]])


def _pre(text):
    return lambda f: "<pre>\n%s\n</pre>" % (text % f())


BLOCKS = {
    "p": ("P", _p), "p2": ("P", _p2), "plink": ("P", _plink), "plink2": ("P", _plink2), "pbold": ("P", _pbold), "pimg": ("P", _pimg), "pbr": ("P", _pbr),
    "h1": ("H", _h(1)), "h2": ("H", _h(2)), "h3": ("H", _h(3)), "h4": ("H", _h(4)), "h5": ("H", _h(5)), "h6": ("H", _h(6)), "h2i": ("H", _hi(2)),
    "hr": ("R", _hr),
    "ul": ("L", _l((1, "*"), (1, "*"))), "ol": ("L", _l((1, "#"), (1, "#"))), "ul2": ("L", _l((1, "*"), (2, "*"), (1, "*"))), "ol2": ("L", _l((1, "#"), (2, "#"))),
    "mixed": ("L", _l((1, "*"), (2, "#"), (2, "#"), (1, "*"))), "mixed2": ("L", _l((1, "#"), (2, "*"))), "ul3": ("L", _l((1, "*"), (2, "*"), (3, "*"), (1, "*"))), "lrich": ("L", _lrich), "lbr": ("L", _lbr),
    "t11": ("T", _t("d")), "t22": ("T", _t("dd", "dd")), "th": ("T", _t("hh", "dd")), "thd": ("T", _t("hd", "hd")), "trich": ("T", _trich), "tr1": ("T", _t("hhh", "ddd", "ddd")),
    "pre": ("N", _pre("%s")), "pre2": ("N", _pre("%s\n\n  b  c")),
}


def norm_pre(t):
    """pre: without the line breaks at its ends."""
    out = []
    for x in t:
        if not isinstance(x, str):
            if x[0] == "pre":
                x = (x[0], x[1], (flat(x[2]).strip("\n"),))
            else:
                x = (x[0], x[1], norm_pre(x[2]))
        out.append(x)
    return tuple(out)


def flat(kids):
    return "".join(k if isinstance(k, str) else flat(k[2]) for k in kids)


KEEP = {"a": ("href",), "img": ("src", "alt", "title", "width", "height")}


def meaning(html, rename=None, keep=None, drop=(), unwrap=("tbody", "thead")):
    return norm_pre(htm.canon(htm.tolerant(html), rename, KEEP if keep is None else keep, drop, unwrap))


def retext(tree, fn):
    """Apply fn(node) -> node bottom up."""
    return tuple(x if isinstance(x, str) else fn((x[0], x[1], retext(x[2], fn))) for x in tree)


def unquoted(tree):
    """Targets without percent encoding."""
    return retext(tree, lambda n: (n[0], tuple((k, unquote(v) if k in ("href", "src") else v) for k, v in n[1]), n[2]))
