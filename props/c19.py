"""C19: unknown HTML tags are handled exactly as the chosen policy says."""
import re
from xml.sax.saxutils import escape

from creole import creole2html
from creole.shared.example_macros import html as html_macro
from creole.shared import unknown_tags as U
from mc import hdoc, htm
from mc.conv import TARGETS
from mc.engine import Space, Bad

# (as written in the document, as the policies must write it); values cover every character with a meaning in HTML or Creole
ATTRS = [
    ("", ""), (' a="v"', ' a="v"'), (" a='v w'", ' a="v w"'), (" a=v", ' a="v"'), (' a="&quot;"', ' a="&quot;"'), (""" a='"'""", ' a="&quot;"'), (' a="\'"', ' a="\'"'),
    (' a="&lt;b&gt;"', ' a="&lt;b&gt;"'), (' a="<b>"', ' a="&lt;b&gt;"'), (' a="x&amp;y"', ' a="x&amp;y"'), (' a="x&y"', ' a="x&amp;y"'), (' a="&amp;lt;"', ' a="&amp;lt;"'),
    (' a=""', ' a=""'), (' b="2" a="1"', ' a="1" b="2"'), (' a-b="ü"', ' a-b="ü"'), (' a="<</html>>"', ' a="&lt;&lt;/html&gt;&gt;"'), (' a="|"', ' a="|"'), (' a="**"', ' a="**"'), (' A="V"', ' a="V"'),
]
OPEN = ["x", "label", "y-z"]               # tags no target knows
POLICIES = {"transparent": U.transparent_unknown_nodes, "escape": U.escape_unknown_nodes, "html": U.use_html_macro, "pre": U.preformat_unknown_nodes, "raise": U.raise_unknown_node}

# Trees: "t" a word, "s" a space, "l" a link, "n" a br, ("k", kids) known, (tag no, attr no, kids) unknown


def forests(n, unknown):
    if n == 0:
        yield ()
        return
    for size in range(1, n + 1):
        for head in trees(size, unknown):
            for tail in forests(n - size, unknown):
                yield (head,) + tail


def trees(n, unknown):
    if n == 1:
        yield "t"
        yield "s"
        yield "l"
    for u in unknown:
        for kids in forests(n - 1, unknown):
            if kids or u != "k":
                yield (u, kids)


CONTEXTS = {"p": "<p>%s</p>", "pp": "<p>q</p>\n<p>q %s q</p>\n<p>q</p>", "li": "<ul><li>%s</li><li>q</li></ul>", "td": "<table><tr><td>%s</td><td>q</td></tr></table>", "h": "<h2>%s</h2><p>q</p>", "top": "%s",
            "a": '<p><a href="/u/">%s</a></p>', "k": "<p>q <b>%s</b></p>"}


RAW = {"&nbsp;": 1, "&#32;": 1, "&#65;": 1, "&amp;": 1, "&lt;x&gt;": 1, "0": 1, ".": 1, '<img src="/g.png" alt="b" />': 1, "<b>w</b>": 1, "<code>w</code>": 1, "<span>w</span>": 1, "w<br />w": 1, "\u00e4": 1, "&unknown;": 1, "&": 1,
       "a &amp; b": 1}


def raw_items():
    for c in CONTEXTS:
        for a in (0, 1):
            for r in RAW:
                if c == "a" and "<a" in r:
                    continue
                x = (("x", a), (r,))
                for f in ((x,), ("t", "s", x, "s", "t"), ("t", x, "t"), ((("y-z", a), (x,)),), (x, x), (("k", (x,)),)):
                    yield f, c


class Maker:
    """One document, with the unknown tags as themselves, as placeholder words, or left out."""

    def __init__(self, mode):
        """mode: real, none, or how the policy writes a tag (the placeholder words are as long, for grids and underlines)"""
        self.mode, self.n, self.marks = mode, 0, []

    def word(self):
        self.n += 1
        return "w%d" % self.n

    def mark(self, written):
        if self.mode == "real":
            return written[0]
        if self.mode == "none":
            return ""
        text = self.mode(written[1])
        hold = "qq%dqq" % (len(self.marks) + 1)
        hold += "q" * (len(text) - len(hold))
        self.marks.append((written[1], hold, text))
        return hold

    def go(self, seq):
        return "".join(self.one(x) for x in seq)

    def one(self, x):
        if x == "t":
            return self.word()
        if x == "s":
            return " "
        if x == "l":
            return '<a href="/u/">%s</a>' % self.word()
        if x in RAW:
            return x
        if x[0] == "k":
            return "<b>%s</b>" % self.go(x[1])
        tag, attr = x[0]
        a, b = ATTRS[attr]
        if not x[1]:
            return self.mark(("<%s%s></%s>" % (tag, a, tag), ("single", tag, b))) if attr % 2 else self.mark(("<%s%s />" % (tag, a), ("single", tag, b)))
        s = self.mark(("<%s%s>" % (tag, a), ("start", tag, b)))
        inner = self.go(x[1])
        return s + inner + self.mark(("</%s>" % tag, ("end", tag, b)))


def doc(it, mode):
    m = Maker(mode)
    return CONTEXTS[it[1]] % m.go(it[0]), m


def written(policy, mark):
    kind, tag, attrs = mark
    t = {"start": "<%s%s>", "end": "</%s>", "single": "<%s%s />"}[kind] % ((tag,) if kind == "end" else (tag, attrs))
    return escape(t) if policy == "escape" else "<<%s>>%s<</%s>>" % (policy, t, policy)


def filled(it, conv, how):
    marked, m = doc(it, how)
    out = conv(marked)
    for _, hold, text in m.marks:
        out = out.replace(hold, text)
    return out, m


def blank(real, s):
    """An empty tag leaves the space before or after it at the edge, where its absence lets it go."""
    return re.sub("[-=]+", "-", "".join(s.split())) if " />" in real or "></" in real else squeeze(s)


def squeeze(s):
    return " ".join(s.split())


def judge(it, ctx):
    real, _ = doc(it, "real")
    plain, _ = doc(it, "none")
    for target, conv in TARGETS.items():
        for policy in ("escape", "html", "pre"):
            want, m = filled(it, conv, lambda mark: written(policy, mark))
            got = conv(real, unknown_emit=POLICIES[policy])
            ctx.runs += 2
            ctx.outcome(got)
            if not same(target, got, want):
                raise Bad("html2%s, policy %s\n  expected: %r\n  got:      %r" % (target, policy, want, got))
        got, want = conv(real, unknown_emit=POLICIES["transparent"]), conv(plain)
        if blank(real, got.replace("\\\\", "\n")) != blank(real, want.replace("\\\\", "\n")):
            raise Bad("html2%s, policy transparent\n  expected: %r\n  got:      %r" % (target, want, got))
        if conv(real) != got:
            raise Bad("html2%s: the default is not the transparent policy" % target)
        raised = raises(conv, real)
        if raised != bool(m.marks):
            raise Bad("html2%s, policy raise: raised=%r" % (target, raised))
        if raises(conv, plain):
            raise Bad("html2%s, policy raise: raised without unknown tags" % target)
        ctx.runs += 5
        ctx.nontrivial += 1


def same(target, got, want):
    return squeeze(got) == squeeze(want) if target in ("rest", "markdown") else got == want


def raises(conv, src):
    try:
        conv(src, unknown_emit=POLICIES["raise"])
    except NotImplementedError:
        return True
    return False


def round_trip(it, ctx):
    """The html macro gives back the same tags, attributes and content."""
    real, m = doc(it, "real")
    cr = TARGETS["creole"](real, unknown_emit=U.use_html_macro)
    back = creole2html(cr, macros={"html": html_macro})
    ctx.runs += 2
    ctx.nontrivial += 1
    ctx.outcome(cr)
    want, got = [htm.canon(htm.tolerant(x), {"b": "strong"}, None, (), ("tbody",)) for x in (real, back)]
    if want != got:
        raise Bad("the html macro shows something else\n  creole:   %r\n  back:     %r\n  expected: %r\n  got:      %r" % (cr, back, want, got))


def items(n, contexts, tags, attrs, known=True):
    unknown = [(t, a) for t in tags for a in attrs] + (["k"] if known else [])
    for k in range(1, n + 1):
        for f in forests(k, unknown):
            if not ok(f):
                continue
            for c in contexts:
                if c == "top" and ("s" in (f[0], f[-1])) or c == "a" and has(f, "l"):
                    continue
                yield f, c


def has(f, *what):
    return any(x in what or (not isinstance(x, str) and has(x[1], *what)) for x in f)


def ok(f, top=True):
    """No white space at the edges of elements or twice in a row; words stand apart."""
    prev = "s"
    for x in f:
        if x == "s" and prev == "s":
            return False
        if isinstance(x, str) and isinstance(prev, str) and "s" not in (x, prev):
            return False
        if not isinstance(x, str) and not ok(x[1], False):
            return False
        prev = x
    return prev != "s" or not f


TREE = ("pp", "li", "td", "k")
KNOWN = {
    "creole": "p h1 h2 h3 h4 h5 h6 b strong i em tt sup sub u small del a img br hr ul ol li table tr th td pre div span big strike tbody",
    "rest": "p h1 h2 h3 h4 h5 h6 b strong i em tt code a img hr ul ol li table tr th td pre div span br",
    "textile": "p h1 h2 h3 h4 h5 h6 b strong i em sup sub del ins cite code span a img hr ul ol li table tr th td pre div br",
    "markdown": "p h1 h2 h3 h4 h5 h6 b strong i em a img hr ul ol li table tr th td pre code div span br",
}
FOREIGN = "list items inner h0 h7 h8 h10 h p1 headline1 data1 emit children node root strong1 error macro debug text unknown table1 row cell default x label y-z abbr kbd q samp var fieldset form legend button select option textarea object iframe video audio canvas map area nav section article aside header footer figure figcaption dl dt dd center font"


def creole_has(items):
    """Creole has no bold in bold, and ** in bold is its end."""
    for f, c in items:
        if not nested(f, c == "k"):
            yield f, c


def nested(f, bold):
    return any(not isinstance(x, str) and (bold and (x[0] == "k" or ATTRS[x[0][1]][0] == ' a="**"') or nested(x[1], bold or x[0] == "k")) for x in f)


def tag_items():
    for target in TARGETS:
        for t in KNOWN[target].split():
            yield target, t, True
        for t in FOREIGN.split():
            yield target, t, False


VOID = ("img", "br", "hr")
SHELL = {"li": "<ul>%s</ul>", "tr": "<table>%s</table>", "td": "<table><tr>%s</tr></table>", "th": "<table><tr>%s</tr></table>"}
BODY = {"ul": "<li>w1</li>", "ol": "<li>w1</li>", "table": "<tr><td>w1</td></tr>", "tr": "<td>w1</td>"}


def tag_src(it):
    target, t, known = it
    attrs = {"a": ' href="/u/"', "img": ' src="/g.png" alt="w1"'}.get(t, ' class="c"')
    body = "<%s%s />" % (t, attrs) if t in VOID else "<%s%s>%s</%s>" % (t, attrs, BODY.get(t, "w1"), t)
    return "<p>q</p>" + SHELL.get(t, "%s") % body + "<p>q</p>"


def tag_judge(it, ctx):
    """Every known tag passes under every policy with the same result; every foreign tag is one for the policies."""
    target, t, known = it
    src = tag_src(it)
    conv = TARGETS[target]
    ctx.runs += 6
    ctx.nontrivial += 1
    if raises(conv, src) == known:
        raise Bad("html2%s: <%s> is %s" % (target, t, "not known" if known else "not seen as unknown"))
    outs = {p: conv(src, unknown_emit=f) for p, f in POLICIES.items() if p != "raise"}
    ctx.outcome(repr(outs))
    if known and len(set(outs.values())) != 1:
        raise Bad("html2%s: the policy changes the known tag <%s>: %r" % (target, t, outs))
    if not known:
        for p in ("escape", "html", "pre"):
            w = [written(p, (k, t, ' class="c"')) for k in ("start", "end")]
            if t != "area" and not all(x in outs[p] for x in w):
                raise Bad("html2%s, policy %s: no %r in %r" % (target, p, w, outs[p]))
        if "w1" not in outs["transparent"] and t != "area" or re.search(r"</?%s\b" % t, outs["transparent"]):
            raise Bad("html2%s, policy transparent: %r" % (target, outs["transparent"]))


def custom_items(n):
    return items(n, ("p", "li", "td"), ("x",), (1,), True)


OWN = {"start": "{{start}}", "end": "{{..end..}}", "single": "{{empty}}"}


def custom(it, ctx):
    """An own callable sees every unknown node exactly once, with tag and attributes, and its text is taken as it is."""
    real, _ = doc(it, "real")
    for target, conv in TARGETS.items():
        seen = []

        def emit(emitter, node):
            seen.append((node.kind, dict(node.attrs)))
            inner = emitter.emit_children(node)
            return OWN["start"] + inner + OWN["end"] if inner else OWN["single"]
        got = conv(real, unknown_emit=emit)
        want, m = filled(it, conv, lambda mark: OWN[mark[0]])
        names = [x for x in m.marks if x[0][0] != "end"]
        ctx.runs += 2
        ctx.nontrivial += 1
        ctx.outcome(got)
        if len(seen) != len(names) or any(s != ("x", {"a": "v"}) for s in seen) or squeeze(got) != squeeze(want):
            raise Bad("html2%s, own callable\n  seen: %r\n  expected: %r\n  got:      %r" % (target, seen, want, got))


def spaces(tier):
    q = tier == "quick"
    src = lambda it: doc(it, "real")[0]
    one = lambda it, c: judge(it, c)
    every = range(len(ATTRS))
    return [
        Space("attributes", lambda: items(2, tuple(CONTEXTS), OPEN[1:] if q else OPEN, every), one, src, rule="all trees of <= 2 nodes out of words, spaces, links, known and unknown tags x %d attribute lists x %d contexts" % (len(ATTRS), len(CONTEXTS))),
        Space("contents", raw_items, one, src, rule="unknown tags around %d contents which are no words x contexts" % len(RAW)),
        Space("nesting", lambda: items(4 if q else 5, tuple(CONTEXTS), ("x", "label") if q else ("x",), (1,)), one, src, rule="all trees of <= %d nodes with one attribute list" % (4 if q else 5)),
        Space("two attributes", lambda: items(3, ("p", "td") if q else tuple(CONTEXTS), ("x",), (0, 4, 8, 13) if q else (0, 4, 8, 9, 12, 13, 15)), one, src, rule="all trees of <= 3 nodes, attribute lists mixed"),
        Space("rendered attributes", lambda: creole_has(items(2, TREE, OPEN, every)), round_trip, src, rule="the same documents, rendered with the html macro"),
        Space("rendered nesting", lambda: creole_has(items(4 if q else 5, TREE, ("x",), (1,))), round_trip, src, rule="the same documents, rendered with the html macro"),
        Space("tags", tag_items, tag_judge, tag_src, rule="every documented tag of each target and %d other HTML tags" % len(FOREIGN.split())),
        Space("own callable", lambda: custom_items(4 if q else 5), custom, src, rule="all trees of <= 4 nodes with a callable of the caller"),
    ]
