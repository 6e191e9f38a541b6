"""C04: block constructs."""
import itertools

from mc import ast, doc, scale
from mc.engine import Space, words
from props.c05 import compare

NAMES = sorted(doc.VARIANTS)
SEPS = ["\n", "\n\n", "\n \n", "\n\n\n"]


def block_items(n, seps, names=NAMES):
    for combo in itertools.product(names, repeat=n):
        for s in itertools.product(seps, repeat=n - 1):
            yield combo, s


def build(item, blog):
    f = ast.Fill()
    return doc.join([doc.VARIANTS[n](f, blog) for n in item[0]], item[1], blog)


def judge_blocks(item, ctx):
    for blog in (True, False):
        b = build(item, blog)
        if b is None:
            return
        for lead, trail in EDGES if len(item[0]) == 1 else EDGES[:1]:
            compare(lead + b[0] + trail, b[1], ctx, blog_line_breaks=blog)
    ctx.nontrivial += 1


EDGES = [("", ""), ("\n", "\n"), ("\n\n", "\n\n"), (" \n", " \n"), ("", "\n \n")]


# -- lists ---------------------------------------------------------------------

STYLES = ["plain", "parents", "other", "indent", "tight", "spaced", "tail"]


def marker(style, path):
    """path: kinds of the open lists, the last one is the item's own."""
    k = path[-1]
    if style == "parents":
        return "".join(path) + " "
    if style == "other":
        return ("#" if k == "*" else "*") * (len(path) - 1) + k + " "
    if style == "indent":
        return "  " * (len(path) - 1) + k * len(path) + " "
    if style == "tight":
        return k * len(path)
    if style == "spaced":
        return " \t" + k * len(path) + " \t "
    return k * len(path) + " "


def list_items(n, depth, styles, jump, contents, change=True, nmin=1):
    for m in range(nmin, n + 1):
        for seq in ast.marker_seqs(m, depth, jump=jump, change=change):
            for st in styles:
                for c in contents:
                    if st == "tight" and c == "bold":
                        continue        # the marks would run together
                    yield seq, st, c


def list_src(item, blog=True):
    seq, style, c = item
    f = ast.Fill()
    lines, want, path = [], [], []
    for i, (level, kind) in enumerate(seq):
        path = (path + [kind] * level)[:level - 1] + [kind]
        w = f()
        text, kids = w, [w]
        if c == "bold":
            text, kids = "**%s**" % w, [("strong", (), (w,))]
        elif c == "inline":
            text, kids = "x **%s** [[%s]]" % (w, w), ["x ", ("strong", (), (w,)), " ", ("a", (("href", w),), (w,))]
        elif c == "code":
            text, kids = "{{{* %s}}}" % w, [("code", (), ("* " + w,))]
        elif c == "break":
            text, kids = "%s\\\\z" % w, [w, doc.BR, "z"]
        elif c == "marks" and level > 1:
            text, kids = "x#%s*" % w, ["x#%s*" % w]
        if c == "more" and i == len(seq) - 1:
            lines_more, kids = True, [w, doc.lb(blog), "y"]
        else:
            lines_more = False
        lines.append(marker(style, path) + text + (" \t" if style == "tail" else ""))
        if lines_more:
            lines.append("y")
        want.append((level, kind, kids))
    return "\n".join(lines), ast.list_tree(want)


def judge_list(item, ctx):
    for blog in (True, False):
        src, want = list_src(item, blog)
        compare(src, want, ctx, blog_line_breaks=blog)
        compare("a\n" + src + "\n= b", [("p", (), ["a"])] + want + [("h1", (), ["b"])], ctx, blog_line_breaks=blog)
    ctx.nontrivial += 1


# -- tables --------------------------------------------------------------------

# source, expected children; "h": header cell menu (header cells end at the next |)
CELLS = {
    "w": ("%s", lambda w: [w]), "bold": ("**%s**", lambda w: [("strong", (), (w,))]),
    "link": ("[[%s|x]]", lambda w: [("a", (("href", w),), ("x",))]), "image": ("{{%s|y z}}", lambda w: [ast.img(w, "y z")]),
    "sized": ("{{%s|y|1x2}}", lambda w: [ast.img(w, "y", "1", "2")]),
    "code": ("{{{%s|u}}}", lambda w: [("code", (), (w + "|u",))]), "br": ("%s\\\\v", lambda w: [w, doc.BR, "v"]),
    "eq": ("%s=", lambda w: [w + "="]), "list": ("* %s", lambda w: ["* " + w]), "two": ("%s a", lambda w: [w + " a"]),
    "empty": (" ", lambda w: []),
    "hw": ("=%s", lambda w: [w]), "h=": ("= %s =", lambda w: [w]), "hbold": ("=**%s**", lambda w: [("strong", (), (w,))]),
    "hlink": ("=[[%s]]", lambda w: [("a", (("href", w),), (w,))]), "hbr": ("= %s\\\\v", lambda w: [w, doc.BR, "v"]),
}
ROWSTYLES = [("|%s|", "|"), ("|%s", "|"), ("| %s |", " | "), (" |%s | ", "\t|  "), ("  |  %s", " |")]


def grid_items(cells, shapes, styles):
    for shape in shapes:
        for combo in itertools.product(cells, repeat=sum(shape)):
            for st in styles:
                yield shape, combo, st


def grid(item):
    shape, combo, st = item
    f = ast.Fill()
    outer, sep = ROWSTYLES[st]
    it = iter(combo)
    lines, rows = [], []
    for n in shape:
        parts, cells = [], []
        for _ in range(n):
            k = next(it)
            s, want = CELLS[k]
            w = f()
            parts.append(s % w if "%s" in s else s)
            cells.append(("th" if k[0] == "h" else "td", (), want(w)))
        if not cells[-1][2] and not outer.rstrip().endswith("|"):
            outer2 = outer + "|"        # an empty last cell needs its closing mark
        else:
            outer2 = outer
        lines.append(outer2 % sep.join(parts))
        rows.append(("tr", (), cells))
    return "\n".join(lines), [("table", (), rows)]


def judge_grid(item, ctx):
    src, want = grid(item)
    for blog in (True, False):
        compare(src, want, ctx, blog_line_breaks=blog)
    compare("a\n" + src + "\nb", [("p", (), ["a"])] + want + [("p", (), ["b"])], ctx)
    ctx.nontrivial += 1


# -- headings and rules --------------------------------------------------------

HEADTEXT = ["%s", "%s b", "%s = b", "**%s**", "[[%s]]", "%s ~b", "%s<b>&", "|%s|", "* %s", "{{{%s}}}", "//%s", "é%s", "=%s", "%s\\\\"]


def head_items():
    for n in range(1, 9):
        for s1 in ("", " ", "  ", "\t"):
            for t in range(len(HEADTEXT)):
                for s2 in ("", " ", " \t"):
                    for m in (0, 1, n, n + 1, 9):
                        for end in ("", " ", "\n", "\n\nz", "\nz", "\n* z", "\n= z", "\n----"):
                            yield n, s1, t, s2, m, end


def judge_head(item, ctx):
    n, s1, t, s2, m, end = item
    text = HEADTEXT[t] % "w"
    if text.startswith("="):
        if not s1:
            return
        if "%s" in text:
            return
    want_text = text
    if text.startswith("="):
        return
    src = "=" * n + s1 + text + s2 + "=" * m + end
    more = {"\n\nz": [("p", (), ["z"])], "\nz": [("p", (), ["z"])], "\n* z": [("ul", (), [("li", (), ["z"])])],
            "\n= z": [("h1", (), ["z"])], "\n----": [("hr", (), ())]}.get(end, [])
    compare(src, [("h%d" % min(n, 6), (), [want_text])] + more, ctx)
    ctx.nontrivial += 1


def judge_scale(item, ctx):
    for blog in (True, False):
        src, want = scale.CREOLE[item[0]][0](item[1], blog)
        compare(src, want, ctx, blog_line_breaks=blog)
        compare(src + "\n\nz", want + [("p", (), ["z"])], ctx, blog_line_breaks=blog)
    ctx.nontrivial += 1


def spaces(tier):
    q = tier == "quick"
    few = ["para", "para2", "h2 closed", "rule", "list nested", "list more2", "head row", "cell", "nowiki", "list kinds"]
    sp = [
        Space("one block", lambda: block_items(1, SEPS), judge_blocks, lambda it: build(it, True) or it,
              rule="every block variant x 5 surroundings x both modes"),
        Space("two blocks", lambda: block_items(2, SEPS), judge_blocks, lambda it: build(it, True) or it,
              rule="all pairs of %d block variants x 4 separators x both modes" % len(NAMES)),
        Space("three blocks", lambda: block_items(3, SEPS[:2] if q else SEPS), judge_blocks, lambda it: build(it, True) or it,
              rule="all triples of %d block variants x separators x both modes" % len(NAMES)),
        Space("four blocks", lambda: block_items(4, SEPS[:2] if q else SEPS[:3], few), judge_blocks, lambda it: build(it, True) or it,
              rule="all quadruples of %d block variants x separators x both modes" % len(few)),
        Space("lists", lambda: list_items(5 if q else 6, 4, ["plain", "parents", "other"], 1, ["w"], True), judge_list, lambda it: list_src(it)[0],
              rule="all item sequences of <= %d items, depth <= 4, both kinds in any mix, 3 marker spellings" % (5 if q else 6)),
        Space("list contents", lambda: list_items(3 if q else 4, 3, STYLES, 2, ["w", "bold", "inline", "code", "break", "marks", "more"]),
              judge_list, lambda it: list_src(it)[0],
              rule="all item sequences of <= %d items, depth <= 3 with level jumps, 7 spellings x 7 item contents" % (3 if q else 4)),
        Space("table grids", lambda: grid_items(sorted(CELLS), [(1,), (2,), (1, 1), (2, 1), (1, 2), (3,)], range(len(ROWSTYLES))), judge_grid,
              lambda it: grid(it)[0], rule="all grids of <= 3 cells over %d cell kinds x 5 row spellings" % len(CELLS)),
        Space("large grids", lambda: grid_items(["w", "hw", "link", "empty", "code"], [(2, 2), (1, 3), (3, 1), (1, 1, 2), (4,)] if q else
                                                [(2, 2), (1, 3), (3, 1), (1, 1, 2), (4,), (2, 3), (3, 2), (2, 2, 2)], range(len(ROWSTYLES))),
              judge_grid, lambda it: grid(it)[0], rule="all grids of 4 (thorough: up to 6) cells over 5 cell kinds x 5 row spellings"),
        Space("headings", head_items, judge_head, lambda it: repr(it),
              rule="levels 1..8 x white space x %d texts x closing marks x what follows" % len(HEADTEXT)),
    ]
    sp.append(Space("sizes", lambda: scale.creole_items(q, False), judge_scale, scale.creole_src, rule=scale.creole_rule(False)))
    if not q:
        sp.append(Space("long lists", lambda: list_items(7, 5, ["plain"], 1, ["w"], True, 7), judge_list, lambda it: list_src(it)[0],
                        rule="all item sequences of 7 items, depth <= 5"))
    return sp
