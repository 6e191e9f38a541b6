"""C23: rest2html's output is clean and carries the structure docutils' own writer gives the document."""
import io
import itertools
import re
import sys

from docutils.core import publish_parts
from docutils.utils import SystemMessage
from docutils.parsers.rst import roles

from creole.rest_tools.clean_writer import rest2html
from mc import htm, rstdoc
from mc.engine import Space, Bad

PLAIN = {"div", "span", "p", "blockquote", "thead", "tbody", "colgroup", "col", "section", "#root"}      # carry no structure of their own
SPLIT = {"div", "p", "blockquote", "section", "li", "ul", "ol", "dl", "dt", "dd", "table", "tr", "td", "th", "pre", "hr", "br", "h1", "h2", "h3", "h4", "h5", "h6", "caption"}
KEEP = {"a": ("href",), "img": ("src", "alt"), "object": ("data",), "td": ("rowspan", "colspan"), "th": ("rowspan", "colspan")}
SETTINGS = {"input_encoding": "unicode", "doctitle_xform": False, "file_insertion_enabled": False, "raw_enabled": False, "_disable_config": True}


def quiet(fn, *args, **kw):
    """docutils reports problems on stderr, too."""
    roles._roles.pop("", None)
    old, sys.stderr = sys.stderr, io.StringIO()
    try:
        return fn(*args, **kw)
    finally:
        sys.stderr = old
        roles._roles.pop("", None)


def events(html):
    """The document as a sequence: start and end of the structural elements, words, ' ' where words are separated."""
    out = []

    def sep():
        if out and out[-1] != " ":
            out.append(" ")

    def go(node, pre):
        for k in node.kids:
            if isinstance(k, str):
                if pre:
                    out.append(k)
                else:
                    for x in re.split(r"([ \n\t\xa0]+)", k):
                        if x.strip():
                            out.append(x)
                        elif x:
                            sep()
                continue
            t = k.tag
            if t in SPLIT:
                sep()
            if t not in PLAIN:
                out.append(("<", t) + tuple((a, k.attrs[a]) for a in KEEP.get(t, ()) if a in k.attrs))
            if t in SPLIT:
                sep()
            go(k, pre or t == "pre")
            if t in SPLIT:
                sep()
            if t not in PLAIN:
                out.append((">", t))
            if t in SPLIT:
                sep()
    go(htm.tolerant(html), False)
    # text pieces that were cut by a dropped tag belong together
    res = []
    for x in out:
        if isinstance(x, str) and res and isinstance(res[-1], str) and x != " " and res[-1] != " ":
            res[-1] += x
        else:
            res.append(x)
    return [x for x in res]


def squeeze(ev):
    """White space next to a block boundary says nothing."""
    out = []
    for i, x in enumerate(ev):
        if x == " ":
            a = out[-1] if out else None
            b = ev[i + 1] if i + 1 < len(ev) else None
            if a is None or b is None or isinstance(a, tuple) and a[1] in SPLIT or isinstance(b, tuple) and b[1] in SPLIT:
                continue
        out.append(x.strip("\n") if isinstance(x, str) and x != " " else x)
    return out


TAG = re.compile(r"<(/?)([a-z][a-z0-9]*)((?:\s+[a-z-]+=\"[^\"<>]*\")*)\s*(/?)>|<!--.*?-->|([^<]+)|(<)", re.S)
ATT = re.compile(r"\s+([a-z-]+)=")
VOID = {"img", "hr", "br", "col"}


def clean(html):
    """Strictly nested, no div/class/id."""
    stack = []
    for m in TAG.finditer(html):
        end, tag, atts, slash, text, bad = m.groups()
        if bad or text and ">" in text:
            raise Bad("stray markup character in %r" % html)
        if tag is None:
            continue
        if tag == "div":
            raise Bad("div in %r" % html)
        for a in ATT.findall(re.sub(r'"[^"]*"', '""', atts)):
            if a in ("class", "id", "ids"):
                raise Bad("attribute %s in %r" % (a, html))
        if end:
            if not stack or stack[-1] != tag:
                raise Bad("</%s> closes %s in %r" % (tag, stack[-1:], html))
            stack.pop()
        elif not slash and tag not in VOID:
            stack.append(tag)
    if stack:
        raise Bad("%s not closed in %r" % (stack, html))


def judge(src, ctx):
    try:
        want = quiet(publish_parts, source=src, writer_name="html4css1", settings_overrides=SETTINGS)["html_body"]
    except SystemMessage:
        want = None
    ctx.runs += 1
    try:
        got = quiet(rest2html, src)
    except SystemMessage as e:
        if want is None:
            return
        raise Bad("raised %s" % e)
    if want is None:
        raise Bad("docutils rejects the document, rest2html doesn't")
    ctx.outcome(got)
    clean(got)
    a, b = squeeze(events(want)), squeeze(events(got))
    if len(b):
        ctx.nontrivial += 1
    if a != b:
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        raise Bad("the structure differs from docutils' own at %r / %r\n  docutils: %r\n  rest2html: %r" % (a[max(0, i - 2):i + 3], b[max(0, i - 2):i + 3], want, got))


def seq_items(n, menu):
    for k in range(1, n + 1):
        for names in itertools.product(menu, repeat=k):
            if not {"targetnotes", "image4"} <= set(names):      # docutils itself never ends on these
                yield names


def seq_src(names):
    return rstdoc.fill("\n\n".join(rstdoc.BLOCKS.get(x) or rstdoc.TOP[x] for x in names) + "\n")


def nest_items(depth):
    for d in range(1, depth + 1):
        for top in rstdoc.TOPC:
            for cs in itertools.product(rstdoc.CONTAINERS, repeat=d):
                for b in rstdoc.BLOCKS:
                    yield (top,) + cs + (b,)


def nest_src(it):
    body = rstdoc.BLOCKS[it[-1]]
    for c in reversed(it[1:-1]):
        body = rstdoc.CONTAINERS[c](body)
    return rstdoc.fill(rstdoc.TOPC[it[0]](body) + "\n")


SMALL = ("p", "bullet", "dl", "table", "literal", "figure", "note", "quote", "fn", "image", "line", "container", "unclosed", "target", "code", "field", "opt", "rule", "comment")


def nest2_items(tops, cs, blocks):
    for top in tops:
        for a in cs:
            for b in cs:
                for x in blocks:
                    yield top, a, b, x


def pair_in_items(blocks):
    for c in rstdoc.CONTAINERS:
        for a in blocks:
            for b in blocks:
                if {a, b} != {"targetnotes", "image4"}:
                    yield c, a, b


def pair_in_src(it):
    c, a, b = it
    return rstdoc.fill(rstdoc.CONTAINERS[c](rstdoc.BLOCKS[a] + "\n\n" + rstdoc.BLOCKS[b]) + "\n\nw#\n")


def inline_items(n, ctxs, menu):
    for c in ctxs:
        for k in range(1, n + 1):
            for names in itertools.product(menu, repeat=k):
                yield c, names


def inline_src(it):
    c, names = it
    text = rstdoc.inctx(c, " ".join(rstdoc.INLINE[x] for x in names))
    return rstdoc.fill(text + "\n\n" + rstdoc.PRELUDE)


def spaces(tier):
    q = tier == "quick"
    every = tuple(rstdoc.BLOCKS) + tuple(rstdoc.TOP)
    J = lambda src: (lambda it, ctx: judge(src(it), ctx))
    some = tuple(rstdoc.CONTAINERS)
    return [
        Space("sequences", lambda: seq_items(2, every), J(seq_src), seq_src, rule="all sequences of <= 2 of %d block constructs" % len(every)),
        Space("inline", lambda: inline_items(2, tuple(rstdoc.INCTX) if not q else ("p", "dt", "fname", "line", "head", "cell", "headc", "attr", "ttitle", "topic"), tuple(rstdoc.INLINE)), J(inline_src), inline_src, rule="all sequences of <= 2 of %d inline constructs x contexts" % len(rstdoc.INLINE)),
        Space("inline contexts", lambda: inline_items(1, tuple(rstdoc.INCTX), tuple(rstdoc.INLINE)), J(inline_src), inline_src, rule="every inline construct in each of %d contexts" % len(rstdoc.INCTX)),
        Space("nested", lambda: nest_items(1), J(nest_src), nest_src, rule="every block in each container in each top container"),
        Space("nested twice", lambda: nest2_items(("none",) if q else tuple(rstdoc.TOPC), some, SMALL if q else tuple(rstdoc.BLOCKS)), J(nest_src), nest_src, rule="every block in two nested containers"),
        Space("pairs in containers", lambda: pair_in_items(SMALL if q else tuple(rstdoc.BLOCKS)), J(pair_in_src), pair_in_src, rule="two blocks in each container"),
    ]
