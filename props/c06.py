"""C06: nowiki content is verbatim."""
import html as _html
import re
from xml.sax.saxutils import escape

from creole import creole2html
from mc.engine import Space, Bad, words

BLOCK = ["q", " ", "\n", "**", "//", "[[a|b]]", "{{i}}", "|", "{{{", "}}", "}", "~", "~}}}", "\\\\", "* ", "#", "= ", "----", "<<m>>", "<</m>>",
         "<<toc>>", "http://x/", "<b>", "&amp;", "\t", "~{{{", "é", '"', " }}}", "#!py"]
INLINE = ["q", " ", "**", "//", "[[", "]]", "|", "{{", "}}", "}", "{", "~", "\\\\", "* ", "#", "=", "----", "<<m>>", "<</m>>", "<<m>>z<</m>>",
          "<<toc>>", "http://x/ ", "<b>", "&amp;", "\t", "##", ",,", "^^", "__", "--", "é", "~~", '"', "'"]
TILDE = re.compile(r"^([ \t]*)~(}}}[ \t]*)$", re.M)
# before, after: HTML around the pre element
SURROUND = {
    "alone": ("", "", "", ""),
    "text": ("w\n", "\nw", "<p>w</p>\n", "\n\n<p>w</p>"),
    "blank": ("w\n\n", "\n\nw", "<p>w</p>\n\n", "\n\n<p>w</p>"),
    "list": ("* w\n", "\n* w", "<ul>\n\t<li>w</li>\n</ul>", "\n\n<ul>\n\t<li>w</li>\n</ul>"),
    "table": ("|w|\n", "\n|w|", None, None),
    "closing tag": ("", "\n\nw <</m>>", "", "\n\n<p>w &lt;&lt;/m&gt;&gt;</p>"),
    "heading": ("= w\n", "\n= w", "<h1>w</h1>\n", "\n\n<h1>w</h1>"),
    "spaced marks": None,
}
CALLS = []


def record(**kw):
    CALLS.append(kw)
    return "MACRO"


MACROS = {"m": record, "toc": record}


def pre(html):
    """The raw contents of the pre elements."""
    return re.findall(r"<pre>(.*?)</pre>", html, re.S)


def block_text(item):
    return "".join(BLOCK[i] for i in item[1])


def block_items(depth):
    for w in words(BLOCK, depth):
        t = "".join(BLOCK[i] for i in w)
        if re.search(r"^}}}", t, re.M):
            continue        # a closing mark of its own
        for s in SURROUND if len(w) < 3 else ("alone", "text", "closing tag"):
            yield s, w


def judge_block(item, ctx):
    t = block_text(item)
    if item[0] == "spaced marks":
        src = "{{{ \t\n" + t + "\n}}} \t"
        b = a = ""
    else:
        b, a = SURROUND[item[0]][:2]
        src = b + "{{{\n" + t + "\n}}}" + a
    want = escape("\n" + TILDE.sub(r"\1\2", t) + "\n")
    for blog in (True, False):
        del CALLS[:]
        html = creole2html(src, blog_line_breaks=blog, macros=MACROS)
        ctx.runs += 1
        ctx.outcome(html)
        got = pre(html)
        if got != [want]:
            raise Bad("preformatted text %r should be %r\n  html: %r" % (got, want, html))
        if CALLS:
            raise Bad("a macro inside nowiki was executed: %r" % html)
        rest = html.replace("<pre>" + want + "</pre>", "\0")
        plain = creole2html(b + "{{{\nX\n}}}" + a, blog_line_breaks=blog).replace("<pre>\nX\n</pre>", "\0")
        if rest != plain:
            raise Bad("the nowiki content changes what is around it: %r, expected %r" % (rest, plain))
    ctx.nontrivial += 1


IN = {"paragraph": ("a ", " b"), "start": ("", " b"), "end": ("a ", ""), "alone": ("", ""), "item": ("* ", " b"), "item end": ("# a\n## b ", ""),
      "cell": ("|a ", " b|c|"), "last cell": ("|=a|", ""), "second line": ("a\n", "\nb"), "two": ("{{{x}}} ", " {{{y}}}"),
      "in bold": ("**a** ", " **b**"), "close": ("a ", " b <</m>>")}


def inline_items(depth):
    for w in words(INLINE, depth):
        t = "".join(INLINE[i] for i in w)
        if "}}}" in t or t.endswith("}"):
            continue
        for s in IN if len(w) < 3 else ("paragraph", "cell", "item", "last cell"):
            if s in ("start", "alone", "second line") and t.strip() == "":
                continue
            yield s, w


def inline_src(item):
    b, a = IN[item[0]]
    return b + "{{{" + "".join(INLINE[i] for i in item[1]) + "}}}" + a


def judge_inline(item, ctx):
    t = "".join(INLINE[i] for i in item[1])
    b, a = IN[item[0]]
    src = inline_src(item)
    del CALLS[:]
    html = creole2html(src, macros=MACROS)
    ctx.runs += 1
    ctx.outcome(html)
    want = creole2html(b + "{{{X}}}" + a).replace("<code>X</code>", "<code>" + escape(t) + "</code>")
    if html != want:
        raise Bad("html %r, expected %r" % (html, want))
    if CALLS:
        raise Bad("a macro inside nowiki was executed: %r" % html)
    ctx.nontrivial += 1


def judge_cp(item, ctx):
    for c in range(item * 16, item * 16 + 16):
        if c in (10, 13) or 0xd800 <= c < 0xe000:
            continue
        ch = chr(c)
        for t in (ch, "a" + ch + "b", ch + "\n" + ch):
            html = creole2html("{{{\n" + t + "\n}}}")
            ctx.runs += 1
            if html != "<pre>\n" + escape(t) + "\n</pre>":
                raise Bad("U+%04X: %r" % (c, html))
            if "\n" in t or t == "}":
                continue
            html = creole2html("x {{{" + t + "}}} y|")
            ctx.runs += 1
            if html != "<p>x <code>" + escape(t) + "</code> y|</p>":
                raise Bad("U+%04X: %r" % (c, html))
    ctx.outcome(html)
    ctx.nontrivial += 1


def spaces(tier):
    q = tier == "quick"
    d = 3 if q else 4
    return [
        Space("block", lambda: block_items(d), judge_block, lambda it: (it[0], block_text(it)),
              rule="all contents of <= %d tokens out of %d, in %d surroundings (3 for the longest), both modes" % (d, len(BLOCK), len(SURROUND))),
        Space("inline", lambda: inline_items(d), judge_inline, inline_src,
              rule="all contents of <= %d tokens out of %d, in %d contexts (4 for the longest)" % (d, len(INLINE), len(IN))),
        Space("characters", lambda: iter(range(0x3000 // 16 if q else 0x110000 // 16)), judge_cp, lambda it: "U+%X.." % (it * 16),
              rule="every character (quick: below U+3000), block and inline"),
    ]
