"""Abstract block documents: a menu of block variants, their Creole source and their expected tree.

A block is (class, source, [trees]); classes: P paragraph, H heading, R rule, L list, T table, N nowiki block.
join() puts blocks together under the rules of Creole: which neighbours merge on a single line break.
"""
from mc import ast

BR = ("br", (), ())


def p(*kids):
    return ("p", (), list(kids))


def li(*kids):
    return ("li", (), tuple(kids))


def td(*kids):
    return ("td", (), list(kids))


def th(*kids):
    return ("th", (), list(kids))


def lb(blog):
    return BR if blog else " "


def _para(f, blog):
    a = f()
    return "P", a, [p(a)]


def _para2(f, blog):
    a, b = f(), f()
    return "P", a + "\n" + b, [p(a, lb(blog), b)]


def _para_inline(f, blog):
    a, b, c = f(), f(), f()
    return "P", "//%s// **%s**, %s" % (a, b, c), [p(("i", (), (a,)), " ", ("strong", (), (b,)), ", " + c)]


def _para_link(f, blog):
    a, b = f("l"), f()
    return "P", "[[%s]]%s" % (a, b), [p(("a", (("href", a),), (a,)), b)]


def _para_br(f, blog):
    a, b = f(), f()
    return "P", "%s\\\\%s" % (a, b), [p(a, BR, b)]


def head(pattern, level):
    def b(f, blog):
        a = f()
        return "H", pattern % a, [("h%d" % level, (), [a])]
    return b


def rule(s):
    def b(f, blog):
        return "R", s, [("hr", (), ())]
    return b


def lst(lines, *items):
    """lines with %s per item."""
    def b(f, blog):
        ws = [f() for _ in items]
        return "L", lines % tuple(ws), ast.list_tree([(lv, k, [w]) for (lv, k), w in zip(items, ws)])
    return b


def _list_more(f, blog):
    a, b = f(), f()
    return "L", "* %s\n%s" % (a, b), [("ul", (), [("li", (), [a, lb(blog), b])])]


def _list_more2(f, blog):
    a, b, c = f(), f(), f()
    return "L", "* %s\n## %s\n%s" % (a, b, c), [("ul", (), [("li", (), [a, ("ol", (), [("li", (), [b, lb(blog), c])])])])]


def table(src, *rows):
    """rows: strings of d/h."""
    def b(f, blog):
        ws = [[f() for _ in r] for r in rows]
        flat = tuple(w for r in ws for w in r)
        t = [("tr", (), [("td" if k == "d" else "th", (), [w]) for k, w in zip(r, wr)]) for r, wr in zip(rows, ws)]
        return "T", src % flat, [("table", (), t)]
    return b


def nowiki(text):
    def b(f, blog):
        a = f()
        t = text % a
        return "N", "{{{\n%s\n}}}" % t, [("pre", (), ["\n" + t + "\n"])]
    return b


VARIANTS = {
    "para": _para, "para2": _para2, "para-inline": _para_inline, "para-link": _para_link, "para-br": _para_br,
    "h1": head("= %s", 1), "h2 closed": head("== %s ==", 2), "h3 tight": head("===%s===", 3), "h6": head("====== %s =", 6),
    "h7": head("======= %s", 6),
    "rule": rule("----"), "rule spaced": rule("  ---- "),
    "list": lst("* %s", (1, "*")), "list nested": lst("* %s\n** %s", (1, "*"), (2, "*")),
    "list mixed": lst("# %s\n** %s\n# %s", (1, "#"), (2, "*"), (1, "#")), "list indented": lst("  * %s\n  *%s", (1, "*"), (1, "*")),
    "list kinds": lst("# %s\n* %s", (1, "#"), (1, "*")), "list deep": lst("# %s\n## %s\n### %s", (1, "#"), (2, "#"), (3, "#")),
    "list more": _list_more, "list more2": _list_more2,
    "row": table("|%s|%s|", "dd"), "row open": table("|%s|%s", "dd"), "head row": table("|=%s|=%s|\n| %s | %s |", "hh", "dd"),
    "cell": table(" | %s", "d"), "head cells": table("|= %s |%s|\n|=%s|", "hd", "h"),
    "nowiki": nowiki("%s"), "nowiki markup": nowiki("= %s\n\n* a|b\n|c|\n ~x **y**"),
}


def join(blocks, seps, blog):
    """-> (source, expected trees) or None if the combination is not one document of these blocks."""
    src, trees, prev = "", [], None
    for i, (cls, text, want) in enumerate(blocks):
        want = list(want)
        if i:
            sep = seps[i - 1]
            src += sep
            if sep == "\n":
                if prev == "L" and cls == "L":
                    return None
                if prev == "P" and cls == "P":
                    trees[-1] = ("p", (), list(trees[-1][2]) + [lb(blog)] + list(want[0][2]))
                    want = want[1:]
                elif prev == "T" and cls == "T":
                    trees[-1] = ("table", (), list(trees[-1][2]) + list(want[0][2]))
                    want = want[1:]
                elif prev == "L" and cls == "P":
                    trees[-1] = append_last_item(trees[-1], [lb(blog)] + list(want[0][2]))
                    want = want[1:]
                    cls = "L"
        src += text
        trees += want
        prev = cls
    return src, trees


def append_last_item(lst, more):
    kids = list(lst[2])
    last = kids[-1]
    inner = list(last[2])
    if inner and not isinstance(inner[-1], str) and inner[-1][0] in ("ul", "ol"):
        inner[-1] = append_last_item(inner[-1], more)
    else:
        inner += more
    kids[-1] = ("li", (), inner)
    return (lst[0], (), kids)
