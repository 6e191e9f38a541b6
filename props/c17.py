"""C17: HTML -> Textile, read by python-textile, is the same document."""
import itertools
import re

import textile

from creole import html2textile
from mc import ast, hdoc, links, scale
from mc.engine import Space, Bad
from props import c14, c15

RENAME = {"big": "strong"}
KEEP = {"a": ("href",), "img": ("src", "alt", "title")}
LEAVES = ("t", "link", "rlink", "img", "timg", "code")
SIGN = {"b": "strong", "i": "em"}
FACES = ("strong", "b", "em", "i", "sup", "sub", "del", "ins", "cite", "span")


def compare(src, ctx, plain=None, percent=False):
    out = html2textile(src)
    ctx.runs += 1
    ctx.nontrivial += 1
    ctx.outcome(out)
    want = hdoc.meaning(plain or src, RENAME, KEEP)
    got = hdoc.meaning(textile.textile(out), RENAME, KEEP)
    if percent:
        want, got = hdoc.unquoted(want), hdoc.unquoted(got)
    if want != got:
        raise Bad("html2textile changes the document\n  textile:\n%s\n  html: %s\n  expected: %r\n  got:      %r" % (out, textile.textile(out), want, got))


CONTEXTS = {
    "p": "<p>%s</p>", "p-p": "<p>q</p>\n<p>%s</p>\n<p>q</p>", "li": "<ul><li>%s</li></ul>", "li-li": "<ol><li>q<ol><li>%s</li><li>q</li></ol></li><li>q</li></ol>",
    "td": "<table><tr><td>%s</td></tr></table>", "td-td": "<table><tr><th>q</th><td>%s</td><td>q</td></tr></table>", "th": "<table><tr><th>%s</th><th>q</th></tr><tr><td>q</td><td>q</td></tr></table>",
    "h1": "<h1>%s</h1>\n<p>q</p>", "h4": "<h4>%s</h4>",
}


def inline_items(nmax, leaves, faces, nmin=1):
    for n in range(nmin, nmax + 1):
        for seq in ast.seqs(n, leaves, faces):
            for c in CONTEXTS:
                if not plain_faces(seq):
                    continue         # python-textile takes the end of a typeface for a part of the link, image or code before it
                yield seq, c


def plain_faces(seq, inside=""):
    """Typefaces hold text and other typefaces, none written with the same sign, and <cite> only outermost."""
    for x in seq:
        sign = SIGN.get(x[0], x[0])
        if len(x) > 1:
            if sign == inside or inside and sign == "cite" or not plain_faces(x[1], sign):
                return False
        elif x[0] != "t" and inside:
            return False
    return True


def inline_src(it):
    return CONTEXTS[it[1]] % hdoc.inline(it[0], ast.Fill(), " ")


def mono(seq):
    """No list inside a list of the other kind: python-textile shows those with the kind of the outer list."""
    up = {}
    for lv, k in seq:
        if up.get(lv - 1, k) != k:
            return False
        up[lv] = k
    return True


def markers(src, seq, ctx):
    """The Textile lines themselves, for outlines with mixed kinds: one marker per level, each for the kind of that level's list."""
    out = html2textile(src)
    ctx.runs += 1
    ctx.nontrivial += 1
    ctx.outcome(out)
    f, up, want = ast.Fill(), {}, []
    for lv, k in seq:
        up[lv] = k
        want.append(("".join(up[i] for i in range(1, lv + 1)), f()))
    got = [m.groups() if (m := re.match(r"([*#]+) +(.*)$", x)) else x for x in (x.strip() for x in out.splitlines()) if x]
    if got != want:
        raise Bad("html2textile changes the list\n  textile:\n%s\n  expected: %r\n  got:      %r" % (out, want, got))


BLOCKS = ["p", "p2", "plink", "plink2", "pbold", "pimg", "h1", "h2", "h3", "h6", "h2i", "ul", "ol", "ul2", "ol2", "ul3", "lrich", "t11", "t22", "th", "thd", "trich", "tr1"]


def valid(combo):
    return not any(hdoc.BLOCKS[a][0] == hdoc.BLOCKS[b][0] == "L" for a, b in zip(combo, combo[1:]))      # two lists in a row are one


def block_items(n, names):
    for combo in itertools.product(names, repeat=n):
        if valid(combo):
            yield combo


RICH = ["%s", "<strong>%s</strong> z", '<a href="/u/">%s</a>', "z <em>%s</em> z", '<img src="/g.png" alt="%s" title="%s" />', "z <code>%s</code>"]


def rich(c, f):
    return RICH[c].replace("%s", f())


def rich_list_src(it):
    f = ast.Fill()
    return hdoc.list_html([(lv, k, rich(c, f)) for (lv, k), c in zip(*it)])


def table_items(rows, cols, menu):
    for r in range(1, rows + 1):
        for c in range(1, cols + 1):
            for heads in range(2 ** (r * c)):
                for cells in itertools.product(range(menu), repeat=r * c):
                    yield r, c, heads, cells


def table_src(it):
    r, c, heads, cells = it
    f = ast.Fill()
    return hdoc.table_html([[("th" if heads >> (i * c + j) & 1 else "td", rich(cells[i * c + j], f)) for j in range(c)] for i in range(r)])


def no_url(ch, shape, form):
    """python-textile ends the URL there"""
    return ch in "'*" and form != "img" or ch in "!(" and form == "img" or shape.endswith("%s") and ch in "!).,;:" or shape[0] == "d" and ch == ":"


def spaces(tier):
    q = tier == "quick"
    return [
        Space("inline", lambda: inline_items(3, LEAVES, FACES), lambda it, c: compare(inline_src(it), c), inline_src,
              rule="all inline trees of <= 3 nodes out of %d leaves and %d phrase elements x %d contexts" % (len(LEAVES), len(FACES), len(CONTEXTS))),
        Space("lists", lambda: filter(mono, c14.list_items(5 if q else 6, 3 if q else 4)), lambda it, c: compare(c14.list_src(it), c), c14.list_src,
              rule="all list outlines of <= %d items, nested lists of the kind of the outer one" % (5 if q else 6)),
        Space("list markers", lambda: c14.list_items(5 if q else 6, 3 if q else 4), lambda it, c: markers(c14.list_src(it), it, c), c14.list_src,
              rule="all list outlines of <= %d items, both kinds mixed, by the markers written" % (5 if q else 6)),
        Space("rich lists", lambda: (x for n in (1, 2, 3) for x in c15.rich_list_items(n) if mono(x[0])), lambda it, c: compare(rich_list_src(it), c), rich_list_src,
              rule="all list outlines of <= 3 items x %d contents per item" % len(RICH)),
        Space("tables", lambda: table_items(2, 2, 3 if q else 6), lambda it, c: compare(table_src(it), c), table_src, rule="all tables of <= 2 x 2 header or data cells x 3 (thorough: 6) contents per cell"),
        c14.wrap_space(2 if q else 3, BLOCKS if q else BLOCKS[::2], compare, valid),
        Space("blocks", lambda: itertools.chain(*[block_items(n, BLOCKS) for n in ((1, 2, 3) if q else (1, 2, 3, 4))]), lambda it, c: compare(c14.block_src(it), c), c14.block_src,
              rule="all sequences of <= %d blocks out of %d" % (3 if q else 4, len(BLOCKS))),
        Space("more blocks", lambda: block_items(3 if q else 4, ("p", "h2", "ul", "ul2", "ol", "t11", "th", "pimg", "plink")), lambda it, c: compare(c14.block_src(it, ""), c), lambda it: c14.block_src(it, ""),
              rule="all sequences of %d blocks out of 9, without white space between" % (3 if q else 4)),
        Space("image texts", lambda: links.image_items((), links.CONTEXTS[:4]), lambda it, c: compare(links.image_src(it), c, links.image_plain(it, True)), links.image_src, rule=links.IMAGE_RULE),
        Space("url characters", lambda: links.legal_items(no_url), lambda it, c: compare(links.legal_src(it), c, percent=True), links.legal_src, rule=links.LEGAL_RULE),
        Space("targets", lambda: (x for x in links.items([x for x in links.HREFS if x[:4] not in ("HTTP", "news")], kinds=[k for k in links.KINDS if k != "upper"]) if x[0] == "a" or x[0] == "titled" and "strong" not in x[3]),
              lambda it, c: compare(links.src(it), c, percent=True), links.src, rule=links.RULE),      # python-textile knows no news: links and marks upper case words
        Space("sizes", lambda: scale.html_items(q, "t"), lambda it, c: compare(scale.html_src(it), c), scale.html_src, rule=scale.html_rule("t")),
    ]
