"""C13: the HTML converters lose, invent, reorder or join no text."""
import itertools
import re

from mc.conv import TARGETS, Html2restException
from mc.engine import Space, Bad, words

# q: a new word; every token is complete, so the visible text is the words in the order of the tokens
INL = ["<b>", "</b>", "<em>", "</em>", "<a>", "</a>", "<img>", "<timg>", "<iimg>", "<aimg>", "<yimg>", "<ins>", "</ins>", "<code>", "</code>", "<span>", "</span>", "<x>", "</x>", "<tt>", "</tt>",
       "<sup>", "</sup>", "<del>", "</del>"]
BLK = ["<p>", "</p>", "<br>", "<br />", "<h2>", "</h2>", "<ul>", "</ul>", "<ol>", "</ol>", "<li>", "</li>", "<table>", "</table>", "<tr>", "</tr>", "<th>", "</th>", "<td>", "</td>",
       "<hr>", "<div>", "</div>", "<pre>", "</pre>", "<pre>\n", "\n</pre>\n"]
OTHER = ["q", " ", "\n", "&", "<!-- c -->", "<tbody>", "</tbody>", "<li/>", "<p/>", "<caption>", "<blockquote>", "<section>", "</section>", "q q", "q\nq", "&nbsp;", "&#65;", "<pre>q\nq</pre>", "</br>", "<u>"]
ALPHA = OTHER + INL + BLK
TAGS = ["<b>", "</b>", "<a>", "</a>", "<img>", "<p>", "</p>", "<br>", "<h2>", "</h2>", "<ul>", "</ul>", "<ol>", "<li>", "</li>", "<table>", "</table>", "<tr>", "</tr>", "<td>", "</td>", "<th>",
        "<pre>", "</pre>", "<div>", "</div>"]
TINY = ["<p>", "</p>", "<ul>", "</ul>", "<li>", "<table>", "</table>", "<tr>", "<td>", "<a>", "</a>", "<br>"]
PIECE = re.compile(r"q|<a>|<img>|<[tiay]img>|<!--.*?-->|<[^<>]*>|[^q<]+")
TAG = re.compile(r"<(/?)([a-z0-9]+)[^<>]*?(/?)>")
WORD = re.compile(r"[wtush]\d+z")
RESTDEF = re.compile(r"^ *\.\. _.*?: \S*$|^ *\.\. \|.*?\| image:: \S*$", re.M)

BLOCKS = {"p", "h2", "ul", "ol", "li", "table", "tr", "th", "td", "div", "caption", "blockquote", "section"}
BLOCK_ELEMENTS = "address article aside blockquote center details div fieldset figure footer form h1 h3 header main nav p section dl dt dd figcaption summary ul ol li hgroup dialog menu dir".split()
BLOCKS.update(BLOCK_ELEMENTS)
IMPLIED = {"p": ({"p"}, {"li", "td", "th", "div", "blockquote", "ul", "ol", "table"}), "li": ({"li"}, {"ul", "ol", "table"}),
           "td": ({"td", "th"}, {"tr", "table"}), "th": ({"td", "th"}, {"tr", "table"}), "tr": ({"tr", "td", "th"}, {"table"})}
GRID = {"table", "tr"}


class Doc:
    """The reference reading of a token sequence."""

    def __init__(self, tokens):
        self.n, self.out, self.vis, self.targets = 0, [], [], {}
        self.sep, self.stack = True, []
        self.ok = True                       # no text in a table but outside of its cells (HTML moves that elsewhere)
        self.pre = False                     # in preformatted text tags are not interpreted
        pieces = PIECE.findall("".join(tokens))
        last = max([i for i, x in enumerate(pieces) if x.startswith("</pre>")], default=-1)
        for i, piece in enumerate(pieces):
            if piece.startswith("<pre"):
                self.pre = i < last
            elif i >= last:
                self.pre = False
            self.piece(piece)
        self.html = "".join(self.out)

    def word(self, w):
        for t in reversed(self.stack):
            if t in ("td", "th", "caption"):
                break
            if t in GRID:
                self.ok = False
        self.vis.append((w, self.sep))
        self.sep = False

    def number(self, p):
        self.n += 1
        return "%s%dz" % (p, self.n)

    def piece(self, piece):
        if piece == "q":
            w = self.number("w")
            self.out.append(w)
            self.word(w)
        elif piece == "<a>":
            w = self.number("u")
            self.out.append('<a href="%s">' % w)
            self.targets[w] = 1
        elif piece == "<img>":
            w = self.number("s")
            self.out.append('<img src="%s">' % w)
            self.targets[w] = 2          # without a description the file name may serve as such
        elif piece in ("<aimg>", "<yimg>"):
            t = self.number("t")             # without a source
            self.out.append('<img %s="%s"/>' % ("alt" if piece == "<aimg>" else "title", t))
            self.word(t)
        elif piece in ("<timg>", "<iimg>"):
            w, t = self.number("s"), self.number("t")
            self.out.append('<img src="%s" %s="%s"/>' % (w, "alt" if piece == "<timg>" else "title", t))
            self.targets[w] = 1
            self.word(t)
        else:
            self.out.append(piece)
            m = TAG.match(piece)
            if not m:
                if piece[:4] != "<!--":
                    self.sep = self.sep or " " in piece or "\n" in piece or "&nbsp;" in piece or "&#" in piece and "&#65;" not in piece
                return
            end, tag, closed = m.groups()
            if tag in ("pre", "tbody") or self.pre:
                return
            if end:
                if tag == "br":
                    self.sep = True
                self.close(tag)
                return
            if tag in ("br", "hr"):
                self.sep = True
                return
            if tag in IMPLIED:
                kinds, limits = IMPLIED[tag]
                found = None
                for t in reversed(self.stack):
                    if t in limits:
                        break
                    if t in kinds:
                        found = t
                if found:
                    self.close(found)
            if tag in BLOCKS:
                self.sep = True
            if not closed:
                self.stack.append(tag)

    def close(self, tag):
        if tag in self.stack:
            while True:
                t = self.stack.pop()
                if t in BLOCKS:
                    self.sep = True
                if t == tag:
                    return


def check(name, html, vis, targets, res):
    body = res
    if name == "rest":
        body = RESTDEF.sub("", res)
    found = [(m.group(), m.start(), m.end()) for m in WORD.finditer(body)]
    got = [f for f in found if f[0][0] in "wt"]
    if [g[0] for g in got] != [v[0] for v in vis]:
        raise Bad("html2%s: words %s of %r became %s: %r" % (name, [v[0] for v in vis], html, [g[0] for g in got], res))
    for (a, b), (w, sep) in zip(zip(got, got[1:]), vis[1:]):
        gap = body[a[2]:b[1]]
        if sep and not (any(c.isspace() for c in gap) or "|" in gap or "\\\\" in gap):
            raise Bad("html2%s: %s and %s of %r are joined: %r" % (name, a[0], b[0], html, res))
    for t, most in targets.items():
        k = res.count(t)
        if not 1 <= k <= most + (3 if name == "rest" and t[0] == "s" else 0):
            raise Bad("html2%s: target %s of %r occurs %d times: %r" % (name, t, html, k, res))


def judge(tokens, ctx):
    d = Doc(tokens)
    if not d.ok or not (d.vis or d.targets):
        return
    for name, f in TARGETS.items():
        try:
            res = f(d.html)
        except Html2restException:           # documented: two links with the same text
            if len(d.targets) < 2:
                raise
            ctx.extra["documented_exceptions"] += 1
            continue
        ctx.runs += 1
        check(name, d.html, d.vis, d.targets, res)
        ctx.outcome(res)
    ctx.nontrivial += 1


# Every character at the edges of the text of every (nested) container
CHARS = list("!#$%'()*+,-./:;=?@[\\]^_`{|}~") + ["&lt;", "&gt;", "&amp;", '"', "\u00e4", "\u6f22", "\u20ac", "\U0001f600", "\u0301", "\u200b", "\u00ad"]
WRAPS = ["p", "div", "span", "li", "td", "th", "h2", "b", "em", "code", "tt", "a", "blockquote", "caption", "section", "pre", "x", "u", "sup", "del", "timg", ""]
AROUND = {"li": ("<ul>", "</ul>"), "td": ("<table><tr>", "</tr></table>"), "th": ("<table><tr>", "</tr></table>"), "caption": ("<table>", "<tr><td>q</td></tr></table>")}


def wrap(names, k):
    """Tokens: the text in the containers and a word before and after each."""
    out = [] if names else ["q"]
    if names:
        n, rest = names[0], names[1:]
        if n == "timg":
            out = ["<timg>"]
        elif n == "":
            out = wrap(rest, k)
        else:
            a, b = AROUND.get(n, ("", ""))
            out = [a, "<%s>" % n, *wrap(rest, k), "</%s>" % n, b]
    return ["q", " ", *out, " ", "q"] if k and out != ["q"] else out


def char_src(it):
    names, c, k = it
    d = Doc([t for t in wrap(names, k) if t])
    html = re.sub(r"[wt]\d+z", lambda m: c + m.group() + c, d.html) if '"' not in c else re.sub(r"w\d+z", lambda m: c + m.group() + c, d.html)
    return d, html


def char_judge(it, ctx):
    names, c, k = it
    d, html = char_src(it)
    if not d.ok:
        return
    plain = {"&lt;": "<", "&gt;": ">", "&amp;": "&"}.get(c, c)
    ctx.nontrivial += 1
    for name, f in TARGETS.items():
        res = f(html)
        ctx.runs += 1
        ctx.outcome(res)
        check(name, html, d.vis, d.targets, res)
        body = RESTDEF.sub("", res) if name == "rest" else res
        for w, _ in d.vis:
            if '"' in c and w[0] == "t":
                continue
            if not re.search(re.escape(plain) + r"[\\~]?" + w + r"[\\~]?" + re.escape(plain), body):
                raise Bad("html2%s: %r around %s of %r is lost: %r" % (name, plain, w, html, res))


def char_items():
    for c in CHARS:
        for k in (0, 1):
            for a in WRAPS:
                for b in WRAPS:
                    if a != "timg" or b == "":
                        yield (a, b) if b else (a,), c, k


# Targets of every form: what stands around the words of a link or image target changes nothing

PRE = ["", "http://h.org/", "https://h.org:80/a/", "data/", "data", "DATA/", "mailto:", "#", "?q=", "../", "./", "/", "//", "/a%20", "javascript:", "ftp://", "news:", "a:", ":", "/(", "/a b/", "[", "]", "|", "<", "&amp;", "\u00fc/", "tel:", "Image:", "/*", "_", "~", "{{", "\\\\", "`", "*", "@"]
POST = ["", ".png", ".PNG", "/", "?a=b&amp;c=d", "#x", "_", "%20", ")", "]", "|x", "}}", "~", ">", "`", "=x", ":", ";", ",", "."]
PAIRS = [(a, "") for a in PRE] + [("", b) for b in POST[1:]] + [("http://h.org/", b) for b in POST[1:]] + [("/", b) for b in POST[1:]]
HOLD = [["<a>", "q", "</a>"], ["<a>", "<yimg>", "</a>"], ["<img>"], ["<timg>"], ["<iimg>"], ["<a>", "<img>", "</a>"], ["<a>", "q", " ", "<timg>", "</a>"], ["<a>", "<b>", "q", "</b>", "</a>"], ["<a>", "q", "</a>", " ", "<a>", "q", "</a>"], ["<timg>", " ", "<timg>"], ["<a>", "</a>"]]
OUTER = ["", "p", "li", "td", "th", "h2", "b", "em", "span", "x", "blockquote", "code"]


def target_items():
    for pp in PAIRS:
        for h in range(len(HOLD)):
            for o in OUTER:
                for k in (0, 1):
                    yield pp, h, o, k


def target_src(it):
    (pre, post), h, o, k = it
    a, b = AROUND.get(o, ("", ""))
    core = HOLD[h]
    if k:
        core = ["q", " ", *core, " ", "q"]
    if o:
        core = [a, "<%s>" % o, *core, "</%s>" % o, b]
    d = Doc([t for t in core if t])
    return d, re.sub(r"[us]\d+z", lambda m: pre + m.group() + post, d.html)


def target_judge(it, ctx):
    d, html = target_src(it)
    ctx.nontrivial += 1
    for name, f in TARGETS.items():
        res = f(html)
        ctx.runs += 1
        ctx.outcome(res)
        check(name, html, d.vis, d.targets, res.replace("/a b/", "/a_b/"))


# All elements of HTML which start and end a line

SHAPES = ["q <A> q <B> q </B> q </A> q", "<A> <B> q </B> </A> q", "<A> q <B> q </B> </A> <p> q </p>", "<A> q </A> <B> q </B>", "<A> q </A> q <B> q </B> q", "<b> q </b> <A> <b> q </b> </A> <b> q </b> <B> q </B> <i> q </i>",
          "<A> <br> q </A> <br> <B> q <br> </B>", "<A> <a> q </a> </A> <a> q </a> <B> <timg> </B> <timg>", "<ul> <li> q <A> q </A> <B> q </B> q </li> </ul>", "<table> <tr> <td> q <A> q </A> <B> q </B> q </td> </tr> </table>", "<span> q <A> q <B> q </B> </A> </span> q",
          "<x> q <A> q </A> q <B> q </B> </x> q"]


def block_items():
    for s in range(len(SHAPES)):
        for a in BLOCK_ELEMENTS:
            for b in BLOCK_ELEMENTS:
                yield s, a, b


def block_tokens(it):
    s, a, b = it
    return [t.replace("A", a).replace("B", b) for t in SHAPES[s].split()]


# Images with both descriptions: the longer one stands for the image

DESC = [None, "", "t1z", "t2z", "t3z t4z", "t5z t6z", "t7z t8z t9z"]
SIZES = ["", ' width="10" height="20"', ' width="10"', ' class="c" id="i"']


def desc_items():
    for a in range(len(DESC)):
        for t in range(len(DESC)):
            if a != t or a < 2:
                for src in ("s1z.png", "", None):
                    for size in range(len(SIZES)):
                        for order in (0, 1):
                            for o in OUTER:
                                yield a, t, src, size, order, o


def desc_src(it):
    a, t, src, size, order, o = it
    attrs = [' alt="%s"' % DESC[a] if DESC[a] is not None else "", ' title="%s"' % DESC[t] if DESC[t] is not None else ""]
    if order:
        attrs.reverse()
    x, y = AROUND.get(o, ("", ""))
    img = "<img%s%s%s%s>" % (' src="%s"' % src if src is not None and not order else "", "".join(attrs), SIZES[size], ' src="%s"' % src if src is not None and order else "")
    core = "w1z %s w2z" % img
    return "%s<%s>%s</%s>%s" % (x, o, core, o, y) if o else core


def desc_judge(it, ctx):
    alt, title = DESC[it[0]] or "", DESC[it[1]] or ""
    want = (alt if len(alt) > len(title) else title).split()
    other = (title if len(alt) > len(title) else alt).split()
    html = desc_src(it)
    ctx.nontrivial += 1
    for name, f in TARGETS.items():
        res = f(html)
        ctx.runs += 1
        ctx.outcome(res)
        body = RESTDEF.sub("", res) if name == "rest" else res
        got = [m.group() for m in WORD.finditer(body) if m.group()[0] in "wt"]
        if name == "markdown" and it[2]:         # shows both of them
            got = [g for g in got if g not in other]
        if got != ["w1z", *want, "w2z"]:
            raise Bad("html2%s: words %s of %r became %s: %r" % (name, ["w1z", *want, "w2z"], html, got, res))
        if it[2] and not 1 <= res.count("s1z.png") <= (1 if want else 4 if name == "rest" else 2):
            raise Bad("html2%s: the image source of %r occurs %d times: %r" % (name, html, res.count("s1z.png"), res))


# Anchors: their text is kept, with or without a target

ANCHORS = ['name="n"', 'id="n"', 'href=""', "href", 'name="n" href=""', 'title="x"', "", 'HREF="" NAME="n"', 'name', 'href="/s1z"', 'href="#n"', 'name="n" href="/s1z"', 'title="x" href="/s1z"', 'rel="x" href="http://h/s1z"', 'href="mailto:s1z"']
ANCHORED = ["t1z", "t1z t2z", "<b>t1z</b>", "t1z <i>t2z</i>", '<img src="s2z.png" alt="t1z">', "", "<code>t1z</code>", "t1z<br>t2z", "<span>t1z</span>"]
SIDES = [("", ""), ("w1z ", " w2z"), ("w1z ", ""), ("", " w2z"), ('<a name="m">w1z</a> ', ' <a>w2z</a>'), ('<a href="/s3z">w1z</a> ', ' <a href="/s4z">w2z</a>'), ("<b>w1z</b> ", " <i>w2z</i>")]


def anchor_items():
    for a in range(len(ANCHORS)):
        for t in range(len(ANCHORED)):
            for side in range(len(SIDES)):
                for o in OUTER:
                    yield a, t, side, o


def anchor_src(it):
    a, t, side, o = it
    x, y = AROUND.get(o, ("", ""))
    left, right = SIDES[side]
    core = "%s<a %s>%s</a>%s" % (left, ANCHORS[a], ANCHORED[t], right)
    return "%s<%s>%s</%s>%s" % (x, o, core, o, y) if o else core


def anchor_judge(it, ctx):
    html = anchor_src(it)
    want = [m.group() for m in WORD.finditer(re.sub("<(?!img)[^>]*>", " ", html)) if m.group()[0] in "wt"]
    ctx.nontrivial += 1
    for name, f in TARGETS.items():
        res = f(html)
        ctx.runs += 1
        ctx.outcome(res)
        body = RESTDEF.sub("", res) if name == "rest" else res
        got = [m.group() for m in WORD.finditer(body) if m.group()[0] in "wt"]
        if got != want:
            raise Bad("html2%s: words %s of %r became %s: %r" % (name, want, html, got, res))


# White space on each side of each tag, or not

FILL = ["q", " q", "q ", " q "]
ENT = ["q", "&nbsp;q", "q&#32;", "&#8195;q&nbsp;", "&nbsp;"]


def white_space(name, alpha, n, FILL=FILL):
    def build(it):
        tags, fill = w(alpha, it[0]), it[1]
        out = [FILL[fill[0]]]
        for t, f in zip(tags, fill[1:]):
            out += [t, FILL[f]]
        return out

    def items():
        for k in range(1, n + 1):
            for ts in itertools.product(range(len(alpha)), repeat=k):
                for fs in itertools.product(range(len(FILL)), repeat=k + 1):
                    yield ts, fs
    return Space(name, items, lambda it, c: judge(build(it), c), lambda it: Doc(build(it)).html,
                 rule="all words of <= %d out of %d tags with a text word in every gap, white space on each side of each word or not" % (n, len(alpha)))


def gaps(tags, filler):
    out = [filler]
    for t in tags:
        out += [t, filler]
    return out


def w(alpha, it):
    return [alpha[i] for i in it]


def space(name, alpha, lo, hi, filler, rule):
    build = (lambda it: gaps(w(alpha, it), filler)) if filler else (lambda it: w(alpha, it))
    return Space(name, lambda: words(alpha, hi, lo), lambda it, c: judge(build(it), c), lambda it: Doc(build(it)).html, rule=rule)


def spaces(tier):
    q = tier == "quick"
    n = 3 if q else 4
    return [
        space("words", ALPHA, 1, n, None, "all words of <= %d out of %d HTML tokens, four targets" % (n, len(ALPHA))),
        space("filled", TAGS, 1, 4, "q", "all words of <= %d out of %d tags with a text word in every gap" % (4, len(TAGS))),
        space("filled spaces", TAGS, 1, n, " q ", "the same with spaces around the words"),
        space("filled deeper", TINY, n + 2, n + 2, "q", "all words of %d out of %d block tags with a text word in every gap" % (n + 2, len(TINY))),
        white_space("white space", [t for t in INL + BLK if t not in ("<br />", "<pre>\n", "\n</pre>\n")], 2),
        white_space("white space references", [t for t in INL + BLK if t not in ("<br />", "<pre>\n", "\n</pre>\n", "<ol>", "</ol>", "<em>", "</em>", "<th>", "</th>", "<tt>", "</tt>", "<sup>", "</sup>")], 2, ENT),
        Space("characters", char_items, char_judge, lambda it: char_src(it)[1], rule="%d characters at both ends of the text of all %d x %d nested elements, with and without text around" % (len(CHARS), len(WRAPS), len(WRAPS))),
        Space("targets", target_items, target_judge, lambda it: target_src(it)[1], rule="%d beginnings and ends of targets x %d link and image forms x %d contexts, with and without text around" % (len(PAIRS), len(HOLD), len(OUTER))),
        Space("block elements", block_items, lambda it, c: judge(block_tokens(it), c), lambda it: Doc(block_tokens(it)).html, rule="all nestings and sequences of two of %d block elements x %d forms" % (len(BLOCK_ELEMENTS), len(SHAPES))),
        Space("image descriptions", desc_items, desc_judge, desc_src, rule="all pairs of %d alt and %d title texts x with and without source x %d other attributes x both orders x %d contexts" % (len(DESC), len(DESC), len(SIZES), len(OUTER))),
        Space("anchors", anchor_items, anchor_judge, anchor_src, rule="%d anchors with and without target x %d contents x %d texts around x %d contexts" % (len(ANCHORS), len(ANCHORED), len(SIDES), len(OUTER))),
        *([] if q else [white_space("more white space", TINY + ["<b>", "</b>", "<span>", "<img>"], 3)]),
        space("filled lines", TINY, n + 1, n + 1, "q\nq", "the same with two words on two lines in every gap"),
    ]
