"""C12: the HTML converters are total."""
import re

from creole.shared.unknown_tags import (escape_unknown_nodes, preformat_unknown_nodes, raise_unknown_node, transparent_unknown_nodes,
                                        use_html_macro)
from mc.conv import TARGETS, Html2restException
from mc.engine import Space, Bad, words

ALPHA = [
    "q", " ", "\n", "<p>", "</p>", "<br>", "<br />", "</br>", "<b>", "</b>", "<i>", "</i>", '<a href="u">', '<a href="v">', "<a>", "</a>", '<img src="s" alt="t">', "<img>",
    "<h2>", "</h2>", "<ul>", "</ul>", "<ol>", "</ol>", "<li>", "</li>", "<table>", "</table>", "<tr>", "</tr>", "<th>", "</th>", "<td>", "</td>",
    "<pre>", "</pre>", "<pre>\n", "\n</pre>\n", "<code>", "</code>", "<hr>", "<div>", "</div>", "<span>", "</span>", "<x y='z'>", "</x>", "<x/>", "<tt>", "</tt>",
    "<!-- c -->", "<!--", "&amp;", "&nope;", "&#65;", "&#x41;", "&#xffffffff;", "&", "<", ">", "<a hre", "<script>", "</script>", "<tbody>",
    "<data>", "</document>", "<headline>", "<![CDATA[", "<!DOCTYPE html>", "<?x", "<![if x]>", "<blockdata type=\"pre\" id=\"0\" />", "</", "<1>", '"', "<H1 a>", "<P/>", "<b/>",
    "<pre><code class=\"language-x\">", "</code></pre>", "<style>", "<title>", "<textarea>", "<li/>", "<td/>", "<ul/>", "<table/>", "<a href='http://[x'>", "<a href=\"u\" title=\"\">",
    "<img src='data:x'>", "<img src=\"s\" width=1 height=2>", "`", "|", "\r\n", "\x00",
]
CORE = ["q", "<p>", "</p>", "<br>", "<b>", "</b>", '<a href="u">', "</a>", "<h2>", "</h2>", "<ul>", "</ul>", "<li>", "</li>", "<table>", "</table>", "<tr>",
        "<td>", "</td>", "<pre>", "</pre>", "<code>", "</code>", " "]
TINY = ["q", "<p>", "</p>", "<ul>", "</ul>", "<li>", "</li>", "<table>", "</table>", "<tr>", "<td>", "</td>", "<br>"]
POLICIES = {"transparent": transparent_unknown_nodes, "escape": escape_unknown_nodes, "html": use_html_macro, "pre": preformat_unknown_nodes,
            "raise": raise_unknown_node}
SPECIALS = ["q", "<x>", "</x>", "<x/>", '<x a="&quot;" b>', "<svg>", "</svg>", "<b>", "</b>", "<li>", "<td>", "</td>", "<table>", "<tr>", "<data>", "<code>", "</code>", "<pre>", "</pre>",
            "<p>", "</p>", "<ul>", "&amp;", "<tt>", "</tt>", "<sup>", "<cite>", "<small>", "</small>", "<strike>", "<ins>", "<big>", "<em>", "<caption>", "<blockquote>"]


def text(alpha, it):
    return "".join(alpha[i] for i in it)


LINK = re.compile(r"<(?:a href|img)\b|<img", re.I)


def run(name, f, src, ctx, **kw):
    try:
        r = f(src, **kw)
    except Html2restException:
        if name == "rest" and len(LINK.findall(src)) > 1:
            ctx.extra["documented_exceptions"] += 1
            return
        raise
    ctx.runs += 1
    if not isinstance(r, str):
        raise Bad("%s returned %r" % (name, type(r)))
    ctx.outcome(r)


def judge(src, ctx):
    for name, f in TARGETS.items():
        try:
            run(name, f, src, ctx)
        except Bad:
            raise
        except RecursionError:
            raise Bad("RecursionError in html2%s" % name)
    ctx.nontrivial += 1


def judge_policy(item, ctx):
    src = text(SPECIALS, item)
    for name, f in TARGETS.items():
        for pol, emit in POLICIES.items():
            try:
                run(name, f, src, ctx, unknown_emit=emit)
            except NotImplementedError:
                if pol != "raise":
                    raise
                ctx.extra["documented_exceptions"] += 1
    for strict in (True, False):
        run("creole", TARGETS["creole"], src, ctx, strict=strict)
    ctx.nontrivial += 1


FRAMES = ["%s", "<p>a%sb</p>", "<ul><li>%s</li></ul>", "<table><tr><td>%s</td></tr></table>", "<pre>%s</pre>", "<b %s>q</b>", "<a href=\"%s\">q</a>", "<%s>", "</%s>", "&%s;", "&#%s;",
          "<!--%s-->", "<h1>%s</h1>", "<code>%s</code>", "<img alt='%s' src='%s'>", "<%s", "<pre>\n%s\n</pre>\n", "<x %s=%s>", "<th>%s", "<td>%s</table>", "<!%s>"]


def frame_items(d):
    for f in range(len(FRAMES)):
        for w in words(PIECES, d):
            yield f, w


PIECES = ["q", "'", '"', "=", "/", "<", ">", "&", ";", "#", "x", "é", " ", "\n", "-", "!", "[", "]", "\\", ":", "\x00", "0", "\ud800", "b", "\U0010ffff", "\t", "?", "{", "}}"]


def frame_src(it):
    return FRAMES[it[0]].replace("%s", text(PIECES, it[1]))


def judge_cp(item, ctx):
    for c in range(item * 32, item * 32 + 32):
        src = "<p>%s</p><ul><li>%s</li></ul><table><tr><td>%s</td></tr></table><pre>%s</pre><a href='%s'>%s</a><img alt='%s' src='%s'><code>%s</code>&%s;<%s>" % ((chr(c),) * 11)
        for name, f in TARGETS.items():
            run(name, f, src, ctx)
    ctx.nontrivial += 1


# every element name of HTML, names near the headings, the parser's own node kinds and the names of Python attributes
NAMES = """a abbr acronym address applet area article aside audio b base basefont bdi bdo big blink blockquote body br button canvas caption center cite code col colgroup command content data
datalist dd del details dfn dialog dir div dl dt element em embed fieldset figcaption figure font footer form frame frameset h h0 h1 h2 h3 h4 h5 h6 h7 h8 h9 h10 h11 h1a head header hgroup hr html i
iframe image img input ins isindex kbd keygen label legend li link listing main map mark marquee math menu menuitem meta meter multicol nav nextid nobr noembed noframes noscript object ol
optgroup option output p param picture plaintext portal pre progress q rb rbc rp rt rtc ruby s samp script search section select shadow slot small source spacer span strike strong style sub
summary sup svg table tbody td template textarea tfoot th thead time title tr track tt u ul var video wbr xmp
document headline charref entityref blockdata blockdata_pre blockdata_pass inlinedata inlinedata_pre inlinedata_pass list _list node emit children error debug none unknown text x a:b a.b a-b x1 \u00e4 \u00df""".split()
FORMS = ["<%s>q</%s>", "<%s>", "</%s>", "<%s/>", "<%s a='b'/>", "<%s type='pre' id='0'>q</%s>", "<p>a <%s>q</%s> b</p>", "<%s><%s>q</%s></%s>", "<ul><li>a<%s>q</li></ul>", "<table><tr><td>a<%s>q</%s></td></tr></table>",
         "<%s><p>q</p></%s>", "<%s><li>q</li></%s>", "<p>q</p><%s href='u' src='s' alt='' title=' '>q</%s><p>q</p>", "<p>a </%s> b</p>", "<table><%s>q</%s><tr><td>q</table>", "<pre>a<%s>q</pre>"]


def name_src(it):
    return it[1].replace("%s", it[0])


def pump_items():
    for w in words(ALPHA, 2, 1):
        yield w


def judge_pump(item, ctx):
    judge(text(ALPHA, item) * 15, ctx)


def spaces(tier):
    q = tier == "quick"
    d = 3 if q else 4
    return [
        Space("words", lambda: words(ALPHA, 2 if q else 3), lambda it, c: judge(text(ALPHA, it), c), lambda it: text(ALPHA, it),
              rule="all words of <= %d out of %d HTML tokens, four targets" % (2 if q else 3, len(ALPHA))),
        Space("three words", lambda: words(ALPHA[:66], 3, 3), lambda it, c: judge(text(ALPHA, it), c), lambda it: text(ALPHA, it),
              rule="all words of 3 out of 66 HTML tokens, four targets") if q else
        Space("four words", lambda: words(ALPHA[:50], 4, 4), lambda it, c: judge(text(ALPHA, it), c), lambda it: text(ALPHA, it),
              rule="all words of 4 out of 50 HTML tokens, four targets"),
        Space("deep words", lambda: words(CORE, d + 1 - (1 if q else 0), d), lambda it, c: judge(text(CORE, it), c), lambda it: text(CORE, it),
              rule="all words of %d..%d out of %d structural tokens, four targets" % (d, d + 1 - (1 if q else 0), len(CORE))),
        Space("deeper words", lambda: words(TINY, d + 1, d + 1), lambda it, c: judge(text(TINY, it), c), lambda it: text(TINY, it),
              rule="all words of %d out of %d block tokens, four targets" % (d + 1, len(TINY))),
        Space("tag names", lambda: ((t, f) for n in NAMES for t in (n, n.upper()) for f in FORMS), lambda it, c: judge(name_src(it), c), name_src,
              rule="%d element names in lower and upper case x %d forms" % (len(NAMES), len(FORMS))),
        Space("policies", lambda: words(SPECIALS, 2 if q else 3), judge_policy, lambda it: text(SPECIALS, it),
              rule="all words of <= %d out of %d known and unknown tags x 5 policies x four targets" % (2 if q else 3, len(SPECIALS))),
        Space("frames", lambda: frame_items(2 if q else 3), lambda it, c: judge(frame_src(it), c), frame_src,
              rule="%d frames filled with all words of <= %d out of %d characters" % (len(FRAMES), 2 if q else 3, len(PIECES))),
        Space("characters", lambda: iter(range(0x1000 // 32 if q else 0x110000 // 32)), judge_cp, lambda it: "U+%X.." % (it * 32),
              rule="every code point (quick: below U+1000) in 11 places"),
        Space("repeated", pump_items, judge_pump, lambda it: text(ALPHA, it) + " x 15", horizon=30,
              rule="all words of <= 2 tokens repeated 15 times: nesting, runaway matching"),
    ]
