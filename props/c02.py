"""C02: the HTML is well formed and nothing from the source is interpreted as HTML."""
import re

from creole import creole2html
from mc import htm
from mc.engine import Space, Bad, words

# HTML-dangerous tokens next to every Creole delimiter; %d gets the token's position, so all words are different
ALPHA = ["q%d", "<b>", "&", '"', "\n", "**", "//", "[[", "]]", "|", "{{", "}}", "{{{", "}}}", "*", "#", "=", " ",
         "\\\\", "~", "http://h%d", "&lt;", "<", ">", "'", "##", "----", "^^", "1x2", "<<", ",,", "</p>"]
NEST = ["q%d", "**", "//", "[[", "]]", "|", "{{", "}}", "\n", "*", "#", "=", "{{{", "}}}", "\\\\", '"', "<b>", " "]
CTX = ["q%d", "<b>", "&", '"', ">", "&quot;", "|", "**", "~", " ", "'", "&amp;", "<i x=\"y\">", "\\\\", "[[", "{{", "1x2", "<", "x"]
# every place in which source text ends up somewhere in the HTML
CONTEXTS = [
    "%s", "[[%s]]", "[[%s|t]]", "[[u|%s]]", "[[u|{{i|%s}}]]", "{{%s}}", "{{%s|t}}", "{{i|%s}}", "{{%s|t|1x2}}", "{{i|%s|1x2}}",
    "{{%s||1x2}}", "{{i||%s}}", "= %s", "== %s ==", "* %s", "# a\n## %s", "|%s|", "|=%s|a|", "|a|%s", "{{{%s}}}", "{{{\n%s\n}}}",
    "{{{\n#!%s\nx\n}}}", "* {{{%s}}}", "http://%s", "~http://%s", "**%s**", "##%s##", "a\n%s\nb", "~%s", "|[[%s|{{%s}}]]|",
    "----\n%s", "<<toc>>\n= %s\n== %s", "= %s\n<<toc depth=1>>", "<<toc>>\n=== %s\n= %s", "<<toc>>\n= %s\n= %s",
]
WS = re.compile(r"[\s~]+")
MACRO = re.compile(r"<<(?=\s*\w)(?!toc)")


def build(alpha, item):
    return "".join(alpha[t] % i if "%" in alpha[t] else alpha[t] for i, t in enumerate(item))


def no_macro(src):
    """The property is about texts without macro calls."""
    while MACRO.search(src):
        src = MACRO.sub("<", src)
    return src


def check(src, html, toc=False):
    try:
        tree = htm.strict(html)
        htm.check_model(tree)
    except htm.NotStrict as e:
        raise Bad("%s\n  html: %r" % (e, html))
    plain = WS.sub("", src)
    for n in htm.walk(tree):
        texts = [n] if isinstance(n, str) else n.attrs.values()
        for t in texts:
            if WS.sub("", t) not in plain:
                if toc and t.startswith("#") and WS.sub("", t[1:]) in plain:
                    continue
                raise Bad("%r is in the output but was not written in the source\n  html: %r" % (t, html))


def judge_words(item, ctx, alpha=ALPHA):
    src = build(alpha, item)
    src = no_macro(src)
    for blog in (True, False):
        html = creole2html(src, blog_line_breaks=blog)
        ctx.runs += 1
        ctx.outcome(html)
        check(src, html)
    ctx.nontrivial += 1


def ctx_items(depth):
    for c in range(len(CONTEXTS)):
        for w in words(CTX, depth):
            yield c, w


def ctx_src(item):
    c, w = item
    t = build(CTX, w)
    return no_macro(CONTEXTS[c].replace("%s", t))


def judge_ctx(item, ctx):
    src = ctx_src(item)
    toc = "<<toc" in CONTEXTS[item[0]]
    for kw in ({}, {"strict": True}):
        html = creole2html(src, **kw)
        ctx.runs += 1
        ctx.outcome(html)
        check(src, html, toc)
    ctx.nontrivial += 1


def cp_items(limit):
    return iter(range(limit // 32))


def judge_cp(item, ctx):
    """Single characters: each is either reproduced or white space."""
    for c in range(item * 32, item * 32 + 32):
        ch = chr(c)
        if ch.isspace() or 0xd800 <= c < 0xe000 or ch in "~*#=|[]{}\\-/^,_<" or c < 32 or 0x7f <= c < 0xa0:
            continue
        for k in (0, 2, 3, 7, 9, 12, 16, 19, 20):
            src = CONTEXTS[k].replace("%s", "q" + ch + "q")
            html = creole2html(src)
            ctx.runs += 1
            check(src, html)
            if "q" + ch + "q" not in htm._html.unescape(html):
                raise Bad("U+%04X is missing: %r" % (c, html))
        ctx.outcome(html)
    ctx.nontrivial += 1


def spaces(tier):
    q = tier == "quick"
    d, k = (3, 3) if q else (4, 4)
    return [
        Space("words", lambda: words(ALPHA, d), judge_words, lambda it: build(ALPHA, it),
              rule="all words over %d tokens (HTML fragments and Creole delimiters), length <= %d, both line-break modes" % (len(ALPHA), d)),
        Space("nesting-words", lambda: words(NEST, d + 1, d + 1), lambda i, c: judge_words(i, c, NEST), lambda it: build(NEST, it),
              rule="all words over %d nesting tokens of length %d, both line-break modes" % (len(NEST), d + 1)),
        Space("contexts", lambda: ctx_items(k), judge_ctx, ctx_src,
              rule="all %d contexts x all words over %d dangerous tokens, length <= %d, strict and not" % (len(CONTEXTS), len(CTX), k)),
        Space("characters", lambda: cp_items(0x2000 if q else 0x20000), judge_cp, lambda it: "U+%X..U+%X" % (it * 32, it * 32 + 31),
              rule="every printable character (quick: below U+2000, thorough: below U+20000) in 9 contexts"),
    ]
