"""C32: Creole -> HTML -> Creole -> HTML is the same document, and from then on the Creole text stays as it is."""
import itertools
import re

from creole import creole2html, html2creole
from mc import ast, doc, hdoc, htm, links, scale
from mc.engine import Space, Bad
from props import c04, c05

BLANK = re.compile(r"[ \t]*\n(?:[ \t]*\n)*")     # white space at line ends and the number of blank lines between two blocks have no meaning
SWAP = ('width="12" height="34"', 'width="34" height="12"')


def canon(html):
    return htm.canon(htm.strict(html))


def compare(src, ctx, **kw):
    html1 = creole2html(src, **kw)
    c2 = html2creole(html1)
    html2 = creole2html(c2, **kw)
    ctx.runs += 1
    ctx.nontrivial += 1
    ctx.outcome(c2)
    if html1 != html2 and canon(html1) != canon(html2):
        raise Bad("the round trip changes the document\n  html:   %r\n  creole: %r\n  html:   %r" % (html1, c2, html2),
                  finding="F23b" if SWAP[0] in html1 and canon(html1.replace(*SWAP)) == canon(html2) else None)
    c3 = html2creole(html2)
    if c3 != c2 and BLANK.sub("\n", c3) != BLANK.sub("\n", c2):
        raise Bad("the Creole text is not stable\n  html:   %r\n  creole: %r\n  then:   %r" % (html1, c2, c3))


def judge_inline(item, ctx):
    compare(c05.build(item)[0], ctx)


def inline_items(nmax, leaves, faces, contexts, nmin=1):
    for it in c05.items(nmax, contexts, leaves, faces, nmin):
        if not limits(it[0]):
            yield it


def limits(seq, inner=False):
    """Line breaks inside a typeface or at the edge of the content, and adjacent ones, have no written form."""
    ks = [x[0] for x in seq]
    if ks and "br" in (ks[0], ks[-1]) or any(a == b == "br" for a, b in zip(ks, ks[1:])) or inner and "br" in ks:
        return True
    return any(len(x) > 1 and limits(x[1], True) for x in seq)


CODE = ["c", "**c**", "[[c]]", "~c", "<c>&", "//c", "c}", "a  b", "{c", "|c|", "* c", "= c", "http://c/", "<<c>>", "\\\\c", "c\\\\"]
SITES = ["%s", "q %s r", "* %s", "* q %s r\n## %s", "q\n%s", "%s\nq", "|%s|q|", "|=q|%s|", "| q %s r", "q **%s** r", "q //r %s//", "//%s **%s**// r"]


def code_items():
    """Inline nowiki text of every kind in every context."""
    for c in CODE:
        for s in SITES:
            if not ("|" in c and "|" in s):
                yield c, s


def code_src(item):
    return item[1].replace("%s", "{{{%s}}}" % item[0])


def sized_items():
    for c in c05.CONTEXTS:
        for seq in itertools.product(("t", "simg", "timg"), repeat=2):
            if "simg" in seq:
                yield tuple((x,) for x in seq), " ", c


LINK_SITES = ["%s", "q %s r", "* %s", "|%s|q|", "**%s**", "q\n%s\nr"]


def link_items():
    for what, targets in (("[[%s|%s]]", links.HREFS), ("{{%s|%s}}", links.SRCS), ("[[%s]] %s", links.HREFS), ("{{%s}} %s", links.SRCS), ("[[%s|{{/i.png|%s}}]]", links.HREFS)):
        for t in targets:
            t = t.replace("&amp;", "&")
            for k in links.KINDS:
                x = links.related(t, k)
                for c in LINK_SITES if x and "//" not in (x if "]] " in what or "}} " in what else "") else ():
                    yield what, t, x, c


def link_src(it):
    return it[3] % (it[0] % it[1:3])


def block_space(name, n, seps, names=c04.NAMES):
    def items():
        for it in c04.block_items(n, seps, names):
            if c04.build(it, True):
                yield it
    return Space(name, items, lambda it, c: compare(c04.build(it, True)[0], c), lambda it: c04.build(it, True)[0],
                 rule="all sequences of %d blocks out of %d variants x %d separators" % (n, len(names), len(seps)))


def list_space(name, *a):
    return Space(name, lambda: c04.list_items(*a), lambda it, c: compare(c04.list_src(it)[0], c), lambda it: c04.list_src(it)[0],
                 rule="all item sequences of <= %d items, depth <= %d, x %d marker spellings x %d contents" % (a[0], a[1], len(a[2]), len(a[4])))


def grid_space(name, cells, shapes, styles):
    return Space(name, lambda: c04.grid_items(cells, shapes, styles), lambda it, c: compare(c04.grid(it)[0], c), lambda it: c04.grid(it)[0],
                 rule="all grids of the shapes %s over %d cell kinds x %d row spellings" % (shapes, len(cells), len(styles)))


SKIP = ("image size", "escapes")     # F23b; text with markup characters


def spaces(tier):
    q = tier == "quick"
    n = 3 if q else 4
    leaves = tuple(x for x in c05.LEAVES if x != "simg")
    cells = [c for c in sorted(c04.CELLS) if c not in ("sized", "code")]     # a | in inline nowiki text of a cell has no escaped form
    few = ["para", "para2", "h2 closed", "rule", "list nested", "list more2", "head row", "cell", "nowiki", "list kinds"]
    styles = range(len(c04.ROWSTYLES))
    return [
        Space("inline", lambda: inline_items(n, leaves, c05.FACES, list(c05.CONTEXTS)), judge_inline, lambda it: c05.build(it)[0],
              rule="all inline trees of <= %d nodes over %d leaves and %d typefaces x glued/spaced x %d contexts" % (n, len(leaves), len(c05.FACES), len(c05.CONTEXTS))),
        Space("deep inline", lambda: inline_items(n + 1, ("t", "link", "br", "timg"), ("strong", "i", "tt", "small", "del"), ["paragraph", "bullet item", "first cell"], n + 1),
              judge_inline, lambda it: c05.build(it)[0], rule="all inline trees of %d nodes over 4 leaves and 5 typefaces x 3 contexts" % (n + 1)),
        Space("inline nowiki", code_items, lambda it, c: compare(code_src(it), c), code_src, rule="%d texts x %d sites" % (len(CODE), len(SITES))),
        Space("image size", sized_items, judge_inline, lambda it: c05.build(it)[0], rule="images with size in every context"),
        block_space("one block", 1, c04.SEPS), block_space("two blocks", 2, c04.SEPS), block_space("three blocks", 3, c04.SEPS[:2] if q else c04.SEPS),
        block_space("four blocks", 4, c04.SEPS[:2], few if not q else few[:8]),
        list_space("lists", 5 if q else 6, 4, ["plain", "parents", "other"], 1, ["w"], True),
        list_space("list contents", 3 if q else 4, 3, c04.STYLES, 1, ["w", "bold", "inline", "break", "marks", "more"]),
        grid_space("table grids", cells, [(1,), (2,), (1, 1), (2, 1), (1, 2), (3,)], styles if not q else (0, 1, 2)),
        grid_space("large grids", ["w", "hw", "link", "empty", "br"], [(2, 2), (1, 3), (3, 1), (1, 1, 2), (4,)], (0, 1) if q else styles),
        Space("headings", lambda: (it for it in c04.head_items() if heading_ok(it)), judge_heading, head_src, rule="levels 1..8 x white space x closing marks x what follows, words as text"),
        Space("link texts", link_items, lambda it, c: compare(link_src(it), c), link_src, rule="links and images: %d targets x %d texts related to the target x %d contexts" % (len(links.HREFS) + len(links.SRCS), len(links.KINDS), len(LINK_SITES))),
        Space("sizes", lambda: scale.creole_items(q, None, SKIP), lambda it, c: compare(scale.creole_src(it), c), scale.creole_src, rule=scale.creole_rule(None, SKIP)),
    ]


def heading_ok(it):
    n, s1, t, s2, m, end = it
    return c04.HEADTEXT[t] in ("%s", "%s b", "é%s", "%s = b")


def head_src(it):
    n, s1, t, s2, m, end = it
    return "=" * n + s1 + c04.HEADTEXT[t] % "w" + s2 + "=" * m + end


def judge_heading(it, ctx):
    compare(head_src(it), ctx)
