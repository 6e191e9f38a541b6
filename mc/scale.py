"""Documents of every size: one construct repeated, nested, widened or lengthened n times, for every n up to a bound and around powers of two and ten.

The other spaces are exhaustive in shape and small in size; these are exhaustive in size for the shapes every document is made of.
"""
from mc import ast, doc, hdoc


def sizes(q, top=10 ** 9):
    s = list(range(1, 34 if q else 81)) + [39, 40, 41, 63, 64, 65, 71, 72, 79, 80, 81, 99, 100, 101, 120, 127, 128, 129, 200, 255, 256, 257]
    if not q:
        s += [500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2048, 4097]
    return sorted({n for n in s if n <= top})


def word(n):
    return ("abcdefghij" * (n // 10 + 1))[:n]


# ---------------------------------------------------------------------------
# HTML: name -> (function(n), largest n, letters of the targets: c creole, r ReST, m Markdown, t Textile)

def _lists(seq):
    f = ast.Fill()
    return hdoc.list_html([(lv, k, f()) for lv, k in seq])


def _rep(item, n, sep=" ", lead=""):
    f = ast.Fill()
    return sep.join([lead] * bool(lead) + [item(f, i) for i in range(n)])


def _grid(n, m, head=False):
    f = ast.Fill()
    return hdoc.table_html([[("th" if head and not i else "td", f()) for _ in range(m)] for i in range(n)])


def _mix(n):
    f = ast.Fill()
    menu = ["p", "ul", "th", "plink", "h2", "pimg", "ol2", "p2"]
    return "<h1>a</h1>\n" + "\n".join(hdoc.BLOCKS[menu[i % len(menu)]][1](f) for i in range(n)) + "\n<p>z</p>"


HTML = {
    "paragraphs": (lambda n: _rep(lambda f, i: "<p>%s</p>" % f(), n, "\n"), 300, "crmt"),
    "words": (lambda n: "<p>%s</p>" % _rep(lambda f, i: f(), n), 10 ** 6, "crmt"),
    "long word": (lambda n: "<p>%s</p>" % word(n), 10 ** 6, "crmt"),
    "long words in items": (lambda n: "<ul><li>%s a</li><li>b %s</li></ul>" % (word(n), word(n)), 10 ** 6, "crmt"),
    "headings": (lambda n: "<h1>a</h1>\n" + _rep(lambda f, i: "<h2>%s</h2>\n<p>z</p>" % f(), n, "\n"), 300, "crmt"),
    "long heading": (lambda n: "<h1>a</h1><p>b</p><h2>%s</h2><p>c</p>" % word(n), 10 ** 6, "crmt"),
    "heading words": (lambda n: "<h1>%s</h1><p>c</p>" % _rep(lambda f, i: f(), n), 10 ** 6, "crmt"),
    "bullets": (lambda n: _lists([(1, "*")] * n), 10 ** 6, "crmt"),
    "numbers": (lambda n: _lists([(1, "#")] * n), 10 ** 6, "crmt"),
    "inner bullets": (lambda n: _lists([(1, "*")] + [(2, "*")] * n + [(1, "*")]), 10 ** 6, "crmt"),
    "inner numbers": (lambda n: _lists([(1, "*")] + [(2, "#")] * n + [(1, "*")]), 10 ** 6, "crm"),
    "list down": (lambda n: _lists([(i + 1, "*") for i in range(n)]), 16, "crmt"),
    "numbers down": (lambda n: _lists([(i + 1, "#") for i in range(n)]), 16, "crmt"),
    "list down and back": (lambda n: _lists([(i + 1, "*") for i in range(n)] + [(1, "*"), (2, "*")]), 16, "crmt"),
    "list down and up": (lambda n: _lists([(i + 1, "*") for i in range(n)] + [(n - i, "*") for i in range(n)]), 16, "crmt"),
    "mixed down": (lambda n: _lists([(i + 1, "*#"[i % 2]) for i in range(n)] + [(1, "*")]), 16, "crm"),
    "rows": (lambda n: _grid(n, 2, True) if n > 1 else _grid(1, 2), 300, "crt"),
    "body rows": (lambda n: _grid(n + 1, 2, True), 300, "crmt"),
    "columns": (lambda n: _grid(2, n, True), 130, "crmt"),
    "square": (lambda n: _grid(n + 1, n, True), 16, "crmt"),
    "wide cell": (lambda n: "<table><tr><th>a</th><th>b</th></tr><tr><td>%s</td><td>c</td></tr><tr><td>d</td><td>%s e</td></tr></table>" % (word(n), word(n)), 10 ** 6, "crmt"),
    "tables": (lambda n: _rep(lambda f, i: "<p>%s</p>\n%s" % (f(), "<table><tr><th>%s</th></tr><tr><td>%s</td></tr></table>" % (f(), f())), n, "\n"), 130, "crmt"),
    "links": (lambda n: "<p>%s</p>" % _rep(lambda f, i: '<a href="http://%s.org/">%s</a>' % (f("l"), f("x")), n), 300, "crmt"),
    "link items": (lambda n: "<ul>%s</ul>" % _rep(lambda f, i: '<li><a href="/%s/">%s</a> %s</li>' % (f("l"), f("x"), f()), n, ""), 300, "crmt"),
    "link paragraphs": (lambda n: _rep(lambda f, i: '<p>%s <a href="/%s/">%s</a></p>' % (f(), f("l"), f("x")), n, "\n"), 130, "crmt"),
    "long target": (lambda n: '<p>a <a href="http://h.org/%s">x</a> b</p>' % word(n), 10 ** 6, "crmt"),
    "long link text": (lambda n: '<p>a <a href="http://h.org/">%s</a> b</p>' % _rep(lambda f, i: f(), n), 300, "crmt"),
    "images": (lambda n: "<p>%s</p>" % _rep(lambda f, i: '<img src="/%s.png" alt="%s" title="%s" />' % (f("g"), *[f("a")] * 2), n, " ", "q"), 130, "crmt"),
    "bold words": (lambda n: "<p>%s</p>" % _rep(lambda f, i: "<strong>%s</strong>" % f(), n), 300, "crmt"),
    "long bold": (lambda n: "<p>a <strong>%s</strong> b</p>" % _rep(lambda f, i: f(), n), 300, "crmt"),
    "line breaks": (lambda n: "<p>%s</p>" % _rep(lambda f, i: f(), n, "<br />"), 300, "c"),
    "rules": (lambda n: _rep(lambda f, i: "<p>%s</p>\n<hr />\n<p>%s</p>" % (f(), f()), n, "\n"), 130, "crm"),
    "literals": (lambda n: "<p>%s</p>" % _rep(lambda f, i: "<code>%s</code>" % f(), n), 300, "crmt"),
    "pre lines": (lambda n: "<p>a</p>\n<pre>\n%s\n</pre>\n<p>b</p>" % _rep(lambda f, i: f(), n, "\n"), 300, "crm"),
    "pre blocks": (lambda n: _rep(lambda f, i: "<p>%s</p>\n<pre>\n%s\n  a\n</pre>" % (f(), f()), n, "\n"), 130, "crm"),
    "long pre line": (lambda n: "<pre>\n%s\n</pre>\n<p>b</p>" % word(n), 10 ** 6, "crm"),
    "mixture": (_mix, 130, "crmt"),
}


def html_items(q, letter):
    for name, (_, top, targets) in HTML.items():
        if letter in targets:
            for n in sizes(q, top):
                yield name, n


def html_src(it):
    return HTML[it[0]][0](it[1])


# ---------------------------------------------------------------------------
# Creole: name -> (function(n, blog) -> (source, expected trees), largest n)

def _c(lines, trees):
    return lines, trees


def _clist(seq):
    f = ast.Fill()
    it = [(lv, k, f()) for lv, k in seq]
    return "\n".join("%s %s" % (k * lv, w) for lv, k, w in it), ast.list_tree([(lv, k, [w]) for lv, k, w in it])


def _cgrid(n, m):
    f = ast.Fill()
    ws = [[f() for _ in range(m)] for _ in range(n)]
    return ("\n".join(("|=%s|" if not i else "|%s|") % ("|=" if not i else "|").join(r) for i, r in enumerate(ws)),
            [("table", (), [("tr", (), [("th" if not i else "td", (), [w]) for w in r]) for i, r in enumerate(ws)])])


def _inl(item, tree, n, sep=" ", wsep=None):
    f = ast.Fill()
    ws = [f() for _ in range(n)]
    kids = []
    for i, w in enumerate(ws):
        if i:
            kids.append(sep if wsep is None else wsep)
        kids.append(tree(w))
    return sep.join(item % w for w in ws), [("p", (), kids)]


def _nested(n):
    faces = list(ast.FACES)
    src, tree = "w", "w"
    for k in faces[:n]:
        src = "%sa %s b%s" % (ast.FACES[k], src, ast.FACES[k])
        tree = (k, (), ("a ", tree, " b"))
    return "x " + src, [("p", (), ["x ", tree])]


def _cmix(n, blog):
    f = ast.Fill()
    menu = ["para", "h2 closed", "list nested", "head row", "nowiki", "rule", "para-inline", "list kinds"]
    return doc.join([doc.VARIANTS[menu[i % len(menu)]](f, blog) for i in range(n)], ["\n\n"] * n, blog)


def _p(w):
    return ("p", (), [w])


CREOLE = {
    "paragraphs": (lambda n, b: ("\n\n".join("w%d" % i for i in range(n)), [_p("w%d" % i) for i in range(n)]), 300),
    "lines": (lambda n, b: _inl("%s", str, n, "\n", doc.lb(b)), 300),
    "words": (lambda n, b: _inl("%s", str, n), 10 ** 6),
    "long word": (lambda n, b: (word(n), [_p(word(n))]), 10 ** 6),
    "spaces": (lambda n, b: ("a" + " " * n + "b", [_p("a b")]), 10 ** 6),
    "blank lines": (lambda n, b: ("a" + "\n" * (n + 1) + "b", [_p("a"), _p("b")]), 10 ** 6),
    "leading blank lines": (lambda n, b: ("\n" * n + "b", [_p("b")]), 10 ** 6),
    "trailing blank lines": (lambda n, b: ("a" + "\n" * n, [_p("a")]), 10 ** 6),
    "headings": (lambda n, b: ("\n".join("== w%d ==" % i for i in range(n)), [("h2", (), ["w%d" % i]) for i in range(n)]), 300),
    "long heading": (lambda n, b: ("= %s =\na" % word(n), [("h1", (), [word(n)]), _p("a")]), 10 ** 6),
    "heading level": (lambda n, b: ("=" * n + " a", [("h%d" % min(n, 6), (), ["a"])]), 300),
    "closing marks": (lambda n, b: ("= a " + "=" * n, [("h1", (), ["a"])]), 300),
    "rules": (lambda n, b: ("\n".join(["----"] * n), [("hr", (), ())] * n), 300),
    "bullets": (lambda n, b: _clist([(1, "*")] * n), 300),
    "numbers": (lambda n, b: _clist([(1, "#")] * n), 300),
    "inner items": (lambda n, b: _clist([(1, "*")] + [(2, "#")] * n + [(1, "*")]), 300),
    "list down": (lambda n, b: _clist([(i + 1, "*") for i in range(n)]), 60),
    "list down and back": (lambda n, b: _clist([(i + 1, "*") for i in range(n)] + [(1, "*"), (2, "*")]), 60),
    "list down and up": (lambda n, b: _clist([(i + 1, "#") for i in range(n)] + [(n - i, "#") for i in range(n)]), 60),
    "mixed down": (lambda n, b: _clist([(i + 1, "*#"[i % 2]) for i in range(n)] + [(1, "*")]), 60),
    "item lines": (lambda n, b: ("* a\n** " + "\n".join("w%d" % i for i in range(n)), [("ul", (), [("li", (), ["a", ("ul", (), [("li", (), [x for i in range(n) for x in (([doc.lb(b)] if i else []) + ["w%d" % i])])])])])]), 300),
    "rows": (lambda n, b: _cgrid(n, 2), 300),
    "columns": (lambda n, b: _cgrid(2, n), 300),
    "square": (lambda n, b: _cgrid(n, n), 20),
    "wide cell": (lambda n, b: ("|%s|c|" % word(n), [("table", (), [("tr", (), [("td", (), [word(n)]), ("td", (), ["c"])])])]), 10 ** 6),
    "links": (lambda n, b: _inl("[[%s]]", lambda w: ("a", (("href", w),), (w,)), n), 300),
    "titled links": (lambda n, b: _inl("[[%s|x y]]", lambda w: ("a", (("href", w),), ("x y",)), n), 300),
    "urls": (lambda n, b: _inl("http://%s.org/", lambda w: ("a", (("href", "http://%s.org/" % w),), ("http://%s.org/" % w,)), n), 300),
    "long link": (lambda n, b: ("[[/%s|x]]" % word(n), [("p", (), [("a", (("href", "/" + word(n)),), ("x",))])]), 10 ** 6),
    "long url": (lambda n, b: ("a http://h/%s b" % word(n), [("p", (), ["a ", ("a", (("href", "http://h/" + word(n)),), ("http://h/" + word(n),)), " b"])]), 10 ** 6),
    "long link text": (lambda n, b: ("[[/u|%s]]" % word(n), [("p", (), [("a", (("href", "/u"),), (word(n),))])]), 10 ** 6),
    "images": (lambda n, b: _inl("{{%s|y z}}", lambda w: ast.img(w, "y z"), n), 300),
    "long image title": (lambda n, b: ("{{g|%s}}" % word(n), [("p", (), [ast.img("g", word(n))])]), 10 ** 6),
    "image size": (lambda n, b: ("{{g|y|%dx%d}}" % (n, n + 1), [("p", (), [ast.img("g", "y", str(n), str(n + 1))])]), 10 ** 6),
    "bold words": (lambda n, b: _inl("**%s**", lambda w: ("strong", (), (w,)), n), 300),
    "italic words": (lambda n, b: _inl("//%s//", lambda w: ("i", (), (w,)), n), 300),
    "long bold": (lambda n, b: ("**%s** b" % word(n), [("p", (), [("strong", (), (word(n),)), " b"])]), 10 ** 6),
    "line breaks": (lambda n, b: _inl("%s", str, n, "\\\\", doc.BR), 300),
    "code": (lambda n, b: _inl("{{{%s}}}", lambda w: ("code", (), (w,)), n), 300),
    "long code": (lambda n, b: ("a {{{%s}}} b" % word(n), [("p", (), ["a ", ("code", (), (word(n),)), " b"])]), 10 ** 6),
    "nowiki lines": (lambda n, b: ("{{{\n%s\n}}}\na" % "\n".join("** w%d" % i for i in range(n)), [("pre", (), ["\n%s\n" % "\n".join("** w%d" % i for i in range(n))]), _p("a")]), 300),
    "nowiki blocks": (lambda n, b: ("\n".join("{{{\nw%d\n}}}" % i for i in range(n)), [("pre", (), ["\nw%d\n" % i]) for i in range(n)]), 300),
    "long nowiki line": (lambda n, b: ("{{{\n%s\n}}}" % word(n), [("pre", (), ["\n%s\n" % word(n)])]), 10 ** 6),
    "escapes": (lambda n, b: ("a" + "~*" * n, [_p("a" + "*" * n)]), 300),
    "typefaces": (lambda n, b: _nested(n), 8),
    "mixture": (_cmix, 300),
}


INLINE = ("words", "long word", "spaces", "links", "titled links", "urls", "long link", "long url", "long link text", "images", "long image title", "image size", "bold words",
          "italic words", "long bold", "line breaks", "code", "long code", "typefaces")


def creole_items(q, inline=None, without=()):
    """inline: only the inline (True) or only the block constructs (False)."""
    for name, (_, top) in CREOLE.items():
        if inline in (None, name in INLINE) and name not in without:
            for n in sizes(q, top):
                yield name, n


def creole_rule(inline=None, without=()):
    names = [n for n in CREOLE if inline in (None, n in INLINE) and n not in without]
    return "every size up to a bound and around powers of 2 and 10 of %d kinds of documents: %s" % (len(names), ", ".join(names))


def html_rule(letter):
    names = [n for n, v in HTML.items() if letter in v[2]]
    return "every size up to a bound and around powers of 2 and 10 of %d kinds of documents: %s" % (len(names), ", ".join(names))


def creole_src(it, blog=True):
    return CREOLE[it[0]][0](it[1], blog)[0]
