"""Reading ReStructuredText with docutils (the reference processor) into canonical trees."""
import io

import docutils.core
import docutils.nodes as N
from docutils.parsers.rst import Parser, roles

from mc import ast


class Unknown(Exception):
    pass


def parse(src, **settings):
    """-> (doctree, warnings text)"""
    err = io.StringIO()
    s = {"warning_stream": err, "report_level": 2, "halt_level": 5, "doctitle_xform": False, "input_encoding": "unicode", "file_insertion_enabled": False, "raw_enabled": False,
         "_disable_config": True}
    s.update(settings)
    roles._roles.pop("", None)
    t = docutils.core.publish_doctree(src, settings_overrides=s)
    return t, err.getvalue()


INLINE = {"strong": "strong", "emphasis": "i", "literal": "tt"}


def kids(n, depth):
    out = []
    for c in n.children:
        out += conv(c, depth)
    return out


def loose(n, depth):
    """Content of a list item or table entry: paragraphs give their content."""
    out = []
    for c in n.children:
        if isinstance(c, N.paragraph):
            if out and not (not isinstance(out[-1], str) and out[-1][0] in ("ul", "ol")):
                out.append(("br", (), ()))
            out += kids(c, depth)
        else:
            out += conv(c, depth)
    return out


def conv(n, depth=0):
    t = n.tagname
    if isinstance(n, N.Text):
        return [n.astext()]
    if t == "paragraph":
        return [("p", (), kids(n, depth))]
    if t in INLINE:
        return [(INLINE[t], (), kids(n, depth))]
    if t == "reference":
        return [("a", (("href", n.get("refuri", "?")),), kids(n, depth))]
    if t == "image":
        return [("img", (("alt", n.get("alt", "")), ("src", n["uri"])), ())]
    if t == "system_message" and n["level"] < 2:
        return []
    if t in ("target", "substitution_definition", "comment"):
        return []
    if t == "bullet_list":
        return [("ul", (), kids(n, depth))]
    if t == "enumerated_list":
        return [("ol", (), kids(n, depth))]
    if t == "list_item":
        return [("li", (), loose(n, depth))]
    if t == "block_quote" and all(c.tagname in ("bullet_list", "enumerated_list") for c in n.children):
        return kids(n, depth)            # html2rest indents nested lists by four columns
    if t == "transition":
        return [("hr", (), ())]
    if t == "literal_block":
        return [("pre", (), (n.astext().strip("\n"),))]
    if t == "section":
        return kids(n, depth + 1)
    if t == "title":
        return [("h%d" % depth, (), kids(n, depth))]
    if t == "table":
        rows = []
        for g in n.children:
            for part in g.children:
                if part.tagname in ("thead", "tbody"):
                    cell = "th" if part.tagname == "thead" else "td"
                    for row in part.children:
                        rows.append(("tr", (), [(cell, (), loose(e, depth)) for e in row.children]))
        return [("table", (), rows)]
    raise Unknown("%s: %r" % (t, n.astext()[:80]))


def tree(src):
    """-> canonical tree, warnings"""
    doc, err = parse(src)
    return tuple(ast.normal(kids(doc, 0))), err
