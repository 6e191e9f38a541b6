"""C35: what is written in Creole reaches ReStructuredText, Markdown and Textile with its structure."""
import itertools

from creole import creole2html
from mc import ast
from mc.engine import Space
from props import c04, c15, c16, c17

TARGETS = {"rest": c15, "markdown": c16, "textile": c17}

# class, source (q: a word, u: a target), targets which can not express it
BLOCKS = {
    "para": ("P", "q", ""), "lines": ("P", "q\nq q", ""), "marks": ("P", "//q// **q**, q", ""), "link": ("P", "q [[/u|q]] q", ""), "url": ("P", "http://u/ q", ""), "bare": ("P", "[[u]] q", "r"),
    "image": ("P", "q {{/u.png|q}} q", ""), "code": ("P", "q {{{q *q}}} q", ""), "escape": ("P", "q ~-q", ""), "inline macro": ("P", "q <<html>>q<</html>> q", ""), "macro": ("M", "<<para>>q<</para>>", ""),
    "h1": ("H", "= q", ""), "h1 h2": ("H", "= q\n== q ==", ""), "h1 h2 h3": ("H", "= q =\n\n== q\nq\n=== q", ""),
    "rule": ("R", "----", "t"),
    "ul": ("*", "* q\n* q", ""), "ol": ("#", "# q\n# q", ""), "ul2": ("*", "* q\n** q\n* q", ""), "ol3": ("#", "# q\n## q\n### q\n# q", ""), "ul ol": ("*", "* q\n## q\n* q", "t"), "ol ul": ("#", "# q\n** q\n** q", "t"),
    "ul more": ("*", "* q\nq", ""), "ul rich": ("*", "* //q// q\n* [[/u|q]]\n* {{/u.png|q}}", ""), "ol code": ("#", "# q {{{q}}}\n# **q**", ""),
    "table": ("T", "|=q|=q|\n|q|q|", ""), "grid": ("T", "|q|q|\n|q|q|", "m"), "rich": ("T", "|= q |= q |\n| **q** q | [[/u|q]] |\n| {{/u.png|q}} | //q// |", ""), "cells": ("T", "|=q|=q|=q|\n| | q {{{q}}} | |", "t"),
    "pre": ("N", "{{{\nq\n}}}", "t"), "pre2": ("N", "{{{\nq q\n\n  * q\n}}}", "t"),
}
NEVER = {("P", "P"), ("T", "T"), ("*", "P"), ("#", "P"), ("*", "*"), ("#", "#"), ("*", "#"), ("#", "*")}     # with only a line break between


def possible(it, target):
    names, seps = it
    if any(target[0] in BLOCKS[n][2] for n in names):
        return False
    cls = [BLOCKS[n][0] for n in names]
    for a, b in zip(cls, cls[1:]):
        if a in "*#" and b in "*#" and (a == b or target != "rest"):
            return False                     # two lists in a row are one
    if target == "rest":
        if "R" in (cls[0], cls[-1]) or any("R" in (a, b) and a in "RH" and b in "RH" for a, b in zip(cls, cls[1:])):
            return False                     # ReST knows no rule there
    return True


def block_items(n, names, seps=("\n\n", "\n")):
    for combo in itertools.product(names, repeat=n):
        cls = [BLOCKS[x][0] for x in combo]
        for ss in itertools.product(seps, repeat=n - 1):
            if not any(s == "\n" and (a, b) in NEVER for s, a, b in zip(ss, cls, cls[1:])):
                yield combo, ss


def block_src(it):
    f = ast.Fill()
    text = "".join(BLOCKS[n][1] + s for n, s in zip(it[0], it[1] + ("",)))
    out = ""
    for i, ch in enumerate(text):
        out += f() if ch == "q" else f("u") if ch == "u" else ch
    return out


def judge_blocks(it, ctx):
    html = creole2html(block_src(it), blog_line_breaks=False, macros=MACROS)
    for name, mod in TARGETS.items():
        if possible(it, name):
            mod.compare(html, ctx)


# -- inline markup, in places that all three know ----------------------------------

LEAVES = ("t", "code", "url", "link", "blink", "img", "timg")
FACES = ("strong", "i", "tt", "sup", "sub")
PLACES = {"paragraph": "%s", "second line": "q\n%s", "bullet item": "* %s", "nested item": "# q\n## %s\n# q", "cell": "|=q|=q|\n| %s | q |", "header cell": "|= %s |= q |\n| q | q |"}
KNOWN = {"rest": ("strong", "i", "tt"), "markdown": ("strong", "i", "sup", "sub"), "textile": ("strong", "i", "sup", "sub")}


def fits(seq, target, inside=""):
    """ReST: no markup inside of markup; Textile: typefaces hold text and other typefaces only"""
    for x in seq:
        if len(x) > 1:
            if x[0] not in KNOWN[target] or target == "rest" and any(y[0] != "t" for y in x[1]) or not fits(x[1], target, x[0]):
                return False
        elif inside and target == "textile" and x[0] != "t":
            return False
    return True


def inline_items(nmax, nmin=1):
    for n in range(nmin, nmax + 1):
        for seq in ast.seqs(n, LEAVES, FACES):
            if any(fits(seq, t) for t in TARGETS):
                for c in PLACES:
                    yield seq, c


def inline_src(it):
    return PLACES[it[1]] % ast.creole(ast.numbered(it[0], ast.Fill()), " ")


def judge_inline(it, ctx):
    html = creole2html(inline_src(it), blog_line_breaks=False)
    for name, mod in TARGETS.items():
        if fits(it[0], name):
            mod.compare(html, ctx)


# -- lists, headings, tables ---------------------------------------------------------

def list_items(n, depth):
    for m in range(1, n + 1):
        for seq in ast.marker_seqs(m, depth):
            for c in CONTENTS:
                yield seq, c


CONTENTS = ("plain", "bold", "code", "more")


def list_src(it):
    return c04.list_src((it[0], "plain", it[1]), False)[0]


def judge_list(it, ctx):
    html = creole2html(list_src(it), blog_line_breaks=False)
    for name, mod in TARGETS.items():
        if (name != "textile" or c17.mono(it[0])) and (name == "rest" or not two_lists(it[0])):
            mod.compare(html, ctx)


def two_lists(seq):
    """Lists of both kinds next to each other on the first level"""
    return len({k for lv, k in seq if lv == 1}) > 1


def outline_src(it):
    f = ast.Fill()
    return "\n".join("%s %s%s\n%s" % ("=" * lv, f(), " " + "=" * lv if i % 2 else "", f()) for i, lv in enumerate(it))


def judge_outline(it, ctx):
    html = creole2html(outline_src(it), blog_line_breaks=False)
    for mod in TARGETS.values():
        mod.compare(html, ctx)


TABLE_CELLS = ["%s", "**%s** a", "[[%s|b %s]]", "{{%s|c %s d}}", "{{{%s}}}", " "]


def table_items(rows, cols):
    for r in range(2, rows + 1):
        for c in range(1, cols + 1):
            for cells in itertools.product(range(len(TABLE_CELLS)), repeat=r * c):
                if all(any(TABLE_CELLS[x] != " " for x in cells[i * c:i * c + c]) for i in range(r)):
                    for style in range(2):
                        yield r, c, cells, style


def table_src(it):
    r, c, cells, style = it
    f = ast.Fill()
    row = lambda i: [TABLE_CELLS[x].replace("%s", f()) for x in cells[i * c:i * c + c]]
    return "\n".join(("|" if i else "|=") + ("|" if i else "|=").join((x if style == 0 else " %s " % x) for x in row(i)) + "|" for i in range(r))


def judge_table(it, ctx):
    html = creole2html(table_src(it), blog_line_breaks=False)
    for name, mod in TARGETS.items():
        mod.compare(html, ctx)


def macro(text):
    return text


def para(text):
    return "<p>%s</p>" % text


MACROS = {"html": macro, "para": para}


def space(name, n, names, seps=("\n\n", "\n")):
    return Space(name, lambda: block_items(n, names, seps), judge_blocks, block_src, rule="all sequences of %d blocks out of %d, with and without a blank line between, three targets" % (n, len(names)))


def spaces(tier):
    q = tier == "quick"
    return [
        space("one block", 1, list(BLOCKS)), space("two blocks", 2, list(BLOCKS)), space("three blocks", 3, list(BLOCKS), ("\n\n",) if q else ("\n\n", "\n")),
        Space("inline", lambda: inline_items(3 if q else 4), judge_inline, inline_src, rule="all inline trees of <= %d nodes x %d places" % (3 if q else 4, len(PLACES))),
        Space("lists", lambda: list_items(4 if q else 5, 3), judge_list, list_src, rule="all list outlines of <= %d items x %d contents" % (4 if q else 5, len(CONTENTS))),
        Space("outlines", lambda: c15.outlines(5 if q else 6), judge_outline, outline_src, rule="all heading outlines of <= %d headings without skipped levels" % (5 if q else 6)),
        Space("tables", lambda: table_items(2, 2), judge_table, table_src, rule="all tables of 2 rows and <= 2 columns x %d contents per cell" % len(TABLE_CELLS)),
    ]
