"""C14: HTML -> Creole -> HTML is the same document."""
import itertools

from creole import creole2html, html2creole
from mc import ast, hdoc, links, scale
from mc.engine import Space, Bad

FACES = ("strong", "i", "tt", "sup", "sub", "u", "small", "del")
ALIAS = {"strong": ("strong", "b", "big"), "i": ("i", "em"), "del": ("del", "strike")}
RENAME = {"b": "strong", "big": "strong", "em": "i", "strike": "del"}
LEAVES = ("t", "br", "code", "link", "rlink", "blink", "ilink", "img", "timg", "sqimg")


def compare(src, ctx, plain=None, **kw):
    cr = html2creole(src)
    back = creole2html(cr, **kw)
    ctx.runs += 1
    ctx.nontrivial += 1
    ctx.outcome(cr)
    want, got = hdoc.meaning(plain or src, RENAME), hdoc.meaning(back, RENAME)
    if want != got:
        f = "F23" if 'width="12" height="34"' in src and got == hdoc.meaning(src.replace('width="12" height="34"', 'width="34" height="12"'), RENAME) else None
        raise Bad("html2creole changes the document\n  creole:   %r\n  back:     %r\n  expected: %r\n  got:      %r" % (cr, back, want, got), finding=f)


CONTEXTS = {
    "p": "<p>%s</p>", "p-p": "<p>q</p>\n<p>%s</p>\n<p>q</p>", "li": "<ul><li>%s</li></ul>", "li-li": "<ol><li>q<ul><li>%s</li></ul></li><li>q</li></ol>",
    "td": "<table><tr><td>%s</td></tr></table>", "td-td": "<table><tr><th>q</th><td>%s</td><td>q</td></tr></table>", "th": "<table><tr><th>%s</th><th>q</th></tr></table>",
}


def edge(seq):
    """A line break at the edge of the content has no written form; two in a row neither."""
    ks = [x[0] for x in seq]
    if ks and "br" in (ks[0], ks[-1]) or any(a == b == "br" for a, b in zip(ks, ks[1:])):
        return True
    return any(len(x) > 1 and has(x[1], "br") for x in seq)      # in a typeface neither (the tests pin that)


def has(seq, *kinds):
    return any(x[0] in kinds or len(x) > 1 and has(x[1], *kinds) for x in seq)


def inline_items(nmax, contexts, leaves, faces, nmin=1):
    for n in range(nmin, nmax + 1):
        for seq in ast.seqs(n, leaves, faces):
            if edge(seq):
                continue
            for sep in ("", " ") if n > 1 else ("",):
                for c in contexts:
                    yield seq, sep, c


def inline_src(it):
    seq, sep, c = it[:3]
    return CONTEXTS[c] % hdoc.inline(seq, ast.Fill(), sep, dict(it[3]) if len(it) > 3 else None)


def alias_items(n):
    for seq in ast.seqs(n, ("t",), tuple(ALIAS)):
        used = sorted({k for k in faces_of(seq)})
        for pick in itertools.product(*[ALIAS[k] for k in used]):
            for c in CONTEXTS:
                yield seq, " ", c, tuple(zip(used, pick))


def faces_of(seq):
    for x in seq:
        if len(x) > 1:
            yield x[0]
            yield from faces_of(x[1])


def list_items(n, depth):
    for k in range(1, n + 1):
        for s in ast.marker_seqs(k, depth):
            yield s


def list_src(it):
    f = ast.Fill()
    return hdoc.list_html([(lv, k, f()) for lv, k in it])


RICH = ["%s", "<strong>%s</strong>", '<a href="/u/">%s</a>', "%s<br />z", "<i>%s</i> z", '<img src="/g.png" alt="%s" title="%s" />', '<a href="u">%s</a>']


def rich_list_items(n):
    for s in ast.marker_seqs(n, n):
        for cs in itertools.product(range(len(RICH)), repeat=n):
            yield s, cs


def rich(c, f):
    return RICH[c].replace("%s", f())


def rich_list_src(it):
    f = ast.Fill()
    return hdoc.list_html([(lv, k, rich(c, f)) for (lv, k), c in zip(*it)])


def block_items(n, names):
    for combo in itertools.product(names, repeat=n):
        yield combo


def block_src(it, sep="\n"):
    """Preformatted blocks stand on lines of their own."""
    f = ast.Fill()
    return sep.join("\n%s\n" % hdoc.BLOCKS[b][1](f) if hdoc.BLOCKS[b][0] == "N" else hdoc.BLOCKS[b][1](f) for b in it)


WRAPS = ["<div>%s</div>", "<section>%s</section>", '<blockquote class="q">\n%s\n</blockquote>', "<div><form>%s</form></div>", "<html><body>\n%s</body></html>", "<unknown>%s</unknown>"]


def wrap_items(n, names, ok=lambda combo: True):
    """Blocks in containers the markups do not have: around all of them, around each one, around the first or last."""
    for k in range(1, n + 1):
        for combo in itertools.product(names, repeat=k):
            if ok(combo):
                for w in range(len(WRAPS)):
                    for where in ("all", "each", "first", "last")[:1 if k == 1 else 4]:
                        yield combo, w, where


def wrap_src(it, plain=False):
    combo, w, where = it
    f = ast.Fill()
    bs = ["\n%s\n" % hdoc.BLOCKS[b][1](f) if hdoc.BLOCKS[b][0] == "N" else hdoc.BLOCKS[b][1](f) for b in combo]
    if not plain:
        bs = [WRAPS[w] % x if where == "each" or where == "first" and i == 0 or where == "last" and i == len(bs) - 1 else x for i, x in enumerate(bs)]
    src = "\n".join(bs)
    return WRAPS[w] % src if where == "all" and not plain else src


def wrap_space(n, names, compare, ok=lambda combo: True):
    return Space("containers", lambda: wrap_items(n, names, ok), lambda it, c: compare(wrap_src(it), c, plain=wrap_src(it, True)), wrap_src,
                 rule="all sequences of <= %d blocks out of %d inside of %d containers in 4 ways: the same as without" % (n, len(names), len(WRAPS)))


def size_items():
    for seq in itertools.product(("t", "simg", "sqimg"), repeat=2):
        for c in CONTEXTS:
            yield tuple((x,) for x in seq), " ", c


def spaces(tier):
    q = tier == "quick"
    names = tuple(b for b in hdoc.BLOCKS if b != "h2i")    # Creole has no markup in headings
    cx = tuple(CONTEXTS)
    few = ("p", "pbold", "pbr", "h2", "hr", "ul", "ul2", "mixed", "ol", "t11", "th", "pre", "plink")
    return [
        Space("inline", lambda: inline_items(3, cx, LEAVES, FACES), lambda it, c: compare(inline_src(it), c), inline_src,
              rule="all inline trees of <= 3 nodes out of %d leaves and %d typefaces x %d contexts x glued/spaced" % (len(LEAVES), len(FACES), len(cx))),
        Space("inline deep", lambda: inline_items(4 if q else 5, cx, ("t", "link", "br") if q else ("t", "br"), ("strong", "i", "sub", "small") if q else ("strong", "i", "tt"), 4), lambda it, c: compare(inline_src(it), c), inline_src,
              rule="all inline trees of 4 (thorough: 5) nodes over a smaller menu"),
        Space("aliases", lambda: itertools.chain(*[alias_items(n) for n in range(1, 4 if q else 5)]), lambda it, c: compare(inline_src(it), c), inline_src,
              rule="all trees over the typefaces with alias tags, every choice of spelling"),
        Space("lists", lambda: list_items(5 if q else 7, 3 if q else 4), lambda it, c: compare(list_src(it), c), list_src,
              rule="all list outlines of <= %d items, both kinds mixed" % (5 if q else 7)),
        Space("rich lists", lambda: itertools.chain(rich_list_items(1), rich_list_items(2), rich_list_items(3)), lambda it, c: compare(rich_list_src(it), c), rich_list_src,
              rule="all list outlines of <= 3 items x %d contents per item" % len(RICH)),
        Space("blocks", lambda: itertools.chain(*[block_items(n, names) for n in (1, 2, 3)]), lambda it, c: compare(block_src(it), c), block_src,
              rule="all sequences of <= 3 blocks out of %d" % len(names)),
        Space("more blocks", lambda: block_items(4 if q else 5, few), lambda it, c: compare(block_src(it, ""), c), lambda it: block_src(it, ""),
              rule="all sequences of %d blocks out of %d, without white space between" % (4 if q else 5, len(few))),
        wrap_space(2 if q else 3, names if q else few, compare),
        Space("image size", size_items, lambda it, c: compare(inline_src(it), c), inline_src, rule="images with width and height in every context"),
        Space("image texts", lambda: links.image_items(links.EDGES), lambda it, c: compare(links.image_src(it), c, links.image_plain(it, True)), links.image_src, rule=links.IMAGE_RULE),
        Space("url characters", lambda: links.legal_items(lambda ch, shape, form: False), lambda it, c: compare(links.legal_src(it), c), links.legal_src, rule=links.LEGAL_RULE),
        Space("targets", lambda: (x for x in links.items() if x[0] != "img"), lambda it, c: compare(links.src(it), c), links.src, rule=links.RULE),
        Space("sizes", lambda: scale.html_items(q, "c"), lambda it, c: compare(scale.html_src(it), c), scale.html_src, rule=scale.html_rule("c")),
    ]
