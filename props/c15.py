"""C15: HTML -> ReStructuredText, read by docutils, is the same document."""
import itertools

from creole import html2rest
from creole.emitter.html2rest_emitter import Html2restException
from mc import ast, hdoc, links, rst, scale
from mc.engine import Space, Bad
from props import c14

RENAME = {"b": "strong", "big": "strong", "em": "i", "code": "tt"}
KEEP = {"a": ("href",), "img": ("src", "alt")}
MARKS = ("t", "strong", "b", "i", "em", "tt", "code", "link", "rlink", "img", "timg", "aimg")


def compare(src, ctx, plain=None):
    out = html2rest(src)
    ctx.runs += 1
    ctx.nontrivial += 1
    ctx.outcome(out)
    want = hdoc.meaning(norm_alt(plain or src), RENAME, KEEP)
    try:
        got, err = rst.tree(out)
    except rst.Unknown as e:
        raise Bad("html2rest: unexpected docutils node %s\n  rest: %s" % (e, out))
    if err:
        raise Bad("docutils complains: %s\n  rest: %s" % (err, out))
    got = hdoc.norm_pre(got)
    if want != got:
        raise Bad("html2rest changes the document\n  rest:\n%s\n  expected: %r\n  got:      %r" % (out, want, got))


def node(k):
    if k in ("strong", "b", "i", "em", "tt"):
        return (k, (("t",),))
    return (k,)


CONTEXTS = {
    "p": "<p>%s</p>", "p-p": "<p>q</p>\n<p>%s</p>\n<p>q</p>", "li": "<ul><li>%s</li></ul>", "li-li": "<ol><li>q<ul><li>%s</li><li>q</li></ul></li><li>q</li></ol>",
    "td": "<table><tr><td>%s</td></tr></table>", "td-td": "<table><tr><th>q</th><th>q</th></tr><tr><td>%s</td><td>q</td></tr></table>", "th": "<table><tr><th>%s</th><th>q</th></tr><tr><td>q</td><td>q</td></tr></table>",
    "h1": "<h1>%s</h1>\n<p>q</p>", "h2": "<h1>q</h1><p>q</p><h2>%s</h2>",
}


def inline_items(n):
    for k in range(1, n + 1):
        for ks in itertools.product(MARKS, repeat=k):
            if any(a == b == "t" for a, b in zip(ks, ks[1:])):
                continue
            for c in CONTEXTS:
                yield ks, c


def inline_src(it):
    return CONTEXTS[it[1]] % hdoc.inline([node(k) for k in it[0]], ast.Fill(), " ")


def outlines(n):
    """Heading levels: the first is 1, no level is skipped on the way down."""
    def go(pre):
        yield pre
        if len(pre) < n:
            for lv in range(1, min(pre[-1] + 1, 6) + 1):
                yield from go(pre + (lv,))
    yield from go((1,))


def deep_outlines(n):
    """All six levels and back, with any number of headings per level up to n, ending at any level."""
    for ks in itertools.product(range(1, n + 1), repeat=6):
        down = tuple(lv for lv, k in enumerate(ks, 1) for _ in range(k))
        for d in range(1, 7):
            yield down[:sum(ks[:d])]
            for back in range(1, d):
                yield down[:sum(ks[:d])] + (back, back + 1)


def outline_src(it):
    f = ast.Fill()
    return "\n".join("<h%d>%s</h%d><p>%s</p>" % (lv, f(), lv, f()) for lv in it)


HEAD = "h2i"
BLOCKS = ["p", "p2", "plink", "plink2", "pimg", "h1", "hr", "ul", "ol", "ul2", "ol2", "mixed", "mixed2", "ul3", "lrich", "t11", "t22", "th", "trich", "tr1", "pre", "pre2"]
TOP = {"ul": "*", "ul2": "*", "mixed": "*", "ul3": "*", "lrich": "*", "ol": "#", "ol2": "#", "mixed2": "#"}


def valid(combo):
    if combo[0] == "hr" or combo[-1] == "hr":
        return False
    for a, b in zip(combo, combo[1:]):
        if "hr" in (a, b) and a in ("hr", "h1") and b in ("hr", "h1"):
            return False                 # ReST knows no rule next to a heading or another rule
        if TOP.get(a, 0) == TOP.get(b, 1):
            return False                 # two lists of one kind in a row are one list
    return True


def block_items(n, names):
    for combo in itertools.product(names, repeat=n):
        if valid(combo):
            yield combo


RICH = ["%s", "<strong>%s</strong> z", '<a href="/u/">%s</a>', "z <i>%s</i> z", '<img src="/g.png" alt="%s" title="%s" />', "z <code>%s</code>"]


def rich(c, f):
    w = f()
    return RICH[c].replace("%s", w).replace("/u/", "/u%s/" % w)


def rich_list_items(n):
    for s in ast.marker_seqs(n, n):
        for cs in itertools.product(range(len(RICH)), repeat=n):
            yield s, cs


def rich_list_src(it):
    f = ast.Fill()
    return hdoc.list_html([(lv, k, rich(c, f)) for (lv, k), c in zip(*it)])


def table_items(rows, cols, menu):
    for r in range(1, rows + 1):
        for c in range(1, cols + 1):
            for head in (False, True):
                if head and r == 1:
                    continue             # a ReST table has a body
                for cells in itertools.product(range(menu), repeat=r * c):
                    yield r, c, head, cells


def table_src(it):
    r, c, head, cells = it
    f = ast.Fill()
    return hdoc.table_html([[("th" if head and i == 0 else "td", rich(cells[i * c + j], f)) for j in range(c)] for i in range(r)])


LINKS = ['<a href="/u/">one</a>', '<a href="http://h.org/">two z</a>', '<img src="/i.png" alt="pic" />', '<img src="/j.png" alt="" />', '<a href="/u/">three</a>', '<img src="/k.png" title="kk" alt="k" />']
HOLDERS = ["<p>%s</p>", "<p>q %s</p>", "<ul><li>%s</li><li>q</li></ul><p>z</p>", "<ol><li>q %s z</li></ol><p>z</p>", "<table><tr><td>%s</td></tr></table>", "<h1>q %s</h1><p>q</p>"]


def repeat_items(n):
    for k in range(2, n + 1):
        for hs in itertools.product(range(len(HOLDERS)), repeat=k):
            for ls in itertools.product(range(len(LINKS)), repeat=k):
                yield hs, ls


def repeat_src(it):
    return "\n".join(HOLDERS[h] % LINKS[x] for h, x in zip(*it))


# names: two links or images whose texts are equal or nearly so

NAMES = ["one", "One", "ONE", "one two", "One  two", "one\ntwo", "onetwo", "ones", "1", "\u00e4", "\u00c4", "o-ne", "\u00df", "ss", "two one"]
TARGETS = ["/u", "/u/", "/v", "/U", "http://u/"]
SHAPES = {"a": '<a href="%s">%s</a>', "b": '<strong>z</strong> <a href="%s">%s</a>', "img": '<img src="%s" alt="%s" />'}
PLACES = ["<p>%s q %s</p>", "<p>%s</p>\n<p>%s</p>", "<table><tr><td>%s</td><td>%s</td></tr></table>", "<p>%s</p>\n<table><tr><td>%s</td></tr></table>", "<table><tr><td>%s</td></tr></table>\n<p>%s</p>",
          "<ul><li>%s</li><li>%s</li></ul>", "<h1>%s</h1><p>%s</p>", "<h1>one</h1>\n<p>%s %s</p>"]


def name_items(q):
    for s1 in SHAPES:
        for s2 in SHAPES:
            for a in NAMES:
                for b in NAMES:
                    for t in TARGETS[:3] if q else TARGETS:
                        for pl in range(0, len(PLACES), 2 if q else 1):
                            yield s1, s2, a, b, t, pl


def name_src(it):
    s1, s2, a, b, t, pl = it
    return PLACES[pl] % (SHAPES[s1] % (TARGETS[0], a), SHAPES[s2] % (t, b))


def name_judge(it, ctx):
    s1, s2, a, b, t, pl = it
    if "img" in (s1, s2) and "\n" in (a + b) or "img" in (s1, s2) and "  " in a + b:
        return
    # documented: one text for two targets is an error.  Names of links are the same in upper and lower case.
    same = t != TARGETS[0] and (s1 == s2 == "img" and a == b or "img" not in (s1, s2) and a.lower().split() == b.lower().split())
    src = name_src(it)
    if same:
        try:
            out = html2rest(src)
        except Html2restException:
            ctx.runs += 1
            ctx.nontrivial += 1
            return
        raise Bad("two targets for one name: %r" % out)
    compare(src, ctx)


def norm_alt(src):
    return src.replace('src="/j.png" alt=""', 'src="/j.png" alt="j.png"').replace('title="kk" alt="k"', 'alt="kk"')


def spaces(tier):
    q = tier == "quick"
    return [
        Space("inline", lambda: inline_items(3), lambda it, c: compare(inline_src(it), c), inline_src,
              rule="all sequences of <= %d inline elements out of %d x %d contexts" % (3, len(MARKS), len(CONTEXTS))),
        Space("deep outlines", lambda: deep_outlines(1 if q else 2), lambda it, c: compare(outline_src(it), c), outline_src, rule="down to each of the six levels and back to each"),
        Space("outlines", lambda: outlines(5 if q else 7), lambda it, c: compare(outline_src(it), c), outline_src, rule="all heading outlines of <= %d headings without skipped levels" % (5 if q else 7)),
        Space("lists", lambda: c14.list_items(5 if q else 6, 3 if q else 4), lambda it, c: compare(c14.list_src(it), c), c14.list_src, rule="all list outlines of <= %d items, both kinds mixed" % (5 if q else 6)),
        Space("rich lists", lambda: itertools.chain(*[rich_list_items(n) for n in ((1, 2, 3) if q else (1, 2, 3, 4))]), lambda it, c: compare(rich_list_src(it), c), rich_list_src,
              rule="all list outlines x %d contents per item" % len(RICH)),
        Space("tables", lambda: table_items(2, 2, len(RICH)), lambda it, c: compare(table_src(it), c), table_src, rule="all tables of <= 2 x 2 cells x %d contents per cell, with and without header row" % len(RICH)),
        Space("repeated links", lambda: repeat_items(2 if q else 3), lambda it, c: compare(repeat_src(it), c), repeat_src,
              rule="all sequences of %d blocks out of %d, each with one of %d links and images (same ones again)" % (2 if q else 3, len(HOLDERS), len(LINKS))),
        Space("names", lambda: name_items(q), name_judge, name_src, rule="two links or images: %d texts x %d texts, the same or another target, %d places" % (len(NAMES), len(NAMES), len(PLACES))),
        c14.wrap_space(2 if q else 3, BLOCKS if q else BLOCKS[::2], compare, valid),
        Space("blocks", lambda: itertools.chain(*[block_items(n, BLOCKS) for n in (1, 2, 3)]), lambda it, c: compare(c14.block_src(it), c), c14.block_src,
              rule="all sequences of <= 3 blocks out of %d" % len(BLOCKS)),
        Space("image texts", lambda: links.image_items(links.EDGES + [" ", "\t"], links.CONTEXTS[:4]), lambda it, c: compare(links.image_src(it), c, links.image_plain(it)), links.image_src, rule=links.IMAGE_RULE),
        Space("url characters", lambda: links.legal_items(lambda ch, shape, form: ch == "@" and shape[:4] != "http"), lambda it, c: compare(links.legal_src(it), c), links.legal_src, rule=links.LEGAL_RULE),
        Space("targets", lambda: links.items(contexts=links.CONTEXTS[:4]), lambda it, c: compare(links.src(it), c), links.src, rule=links.RULE),
        Space("sizes", lambda: scale.html_items(q, "r"), lambda it, c: compare(scale.html_src(it), c), scale.html_src, rule=scale.html_rule("r")),
    ] + ([] if q else [
        Space("more blocks", lambda: block_items(4, ("p", "h1", "plink", "ul", "mixed", "t11", "th", "pre", "hr", "pimg")), lambda it, c: compare(c14.block_src(it), c), c14.block_src, rule="all sequences of 4 blocks out of 10"),
    ])
