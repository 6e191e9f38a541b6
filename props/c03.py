"""C03: creole2html conserves the text: nothing lost, invented, reordered or joined."""
import re

from creole import creole2html
from mc import htm, scale
from mc.engine import Space, Bad, words

# every word carries its position, so each loss, repetition, exchange or join is visible
ALPHA = ["q%d", " ", "\n", "**", "[[", "]]", "|", "{{", "}}", "*", "#", "=", "{{{", "}}}", "\\\\", "~", "http://h%d ",
         "&%d\"", "//", "----", "##", "<%d>", "\n\n", ",,", "~~", "--", "|1x2", "\\", "^^", "__", "\t", "\r\n", " é%d.", ":", "/"]
LINES = ["q%d", "q%d q%d", "* q%d", "** q%d", "# q%d", "|q%d|q%d|", "|=q%d", "= q%d", "== q%d ==", "----", "{{{", "}}}", "",
         " ", "**q%d", "q%d//", "[[q%d", "q%d]]", "{{q%d|", "q%d}}", "q%d\\\\", "q%d\\", "\\\\", "~", "~q%d", "||", "|", "=", "*", "#",
         "##", "http://h%d", "{{{q%d}}}", "[[q%d|q%d]]", "{{q%d|q%d|1x2}}", " q%d ", "#* q%d", "*** q%d", "{{{ q%d", "q%d }}}",
         "|[[q%d|q%d]]|{{q%d|q%d}}|", "~}}}", "* {{{q%d", "q%d|q%d", "-- q%d --", "-----"]
KEEP = re.compile(r"[^\w&<>\"'.é]+|[_x]+")
WORD = re.compile(r"[qhé]\d+")
SEP = {"a", "img", "br"} | htm.FLOW | {"li", "tr", "td", "th"}


def fill(s):
    n = [0]

    def num(m):
        n[0] += 1
        return str(n[0])
    return re.sub("%d", num, s)


def flat(node, out):
    """Reading order; link and image sources before their descriptions; chr(0) separates."""
    for k in node.kids:
        if isinstance(k, str):
            out.append(k)
            continue
        t = k.tag
        if t in SEP:
            out.append("\0")
        if t == "a":
            inner = []
            flat(k, inner)
            href = k.attrs.get("href", "")
            out.append(href + "\0")
            if "".join(inner).replace("\0", "") != href:
                out.extend(inner)
        elif t == "img":
            a = k.attrs
            out.append(a.get("src", "") + "\0")
            if a.get("title") != a.get("src"):
                out.append(a.get("title", "") + "\0")
            if a.get("title") != a.get("alt"):
                out.append("\0title and alt differ\0")
            if "|" not in a.get("src", ""):     # {{|1x2}} has no target to begin with
                out.append(a.get("width", "") + "\0" + a.get("height", ""))
        else:
            flat(k, out)
        if t in SEP:
            out.append("\0")


def judge_src(src, ctx):
    want = KEEP.sub("", src)
    ws = WORD.findall(src)
    pos = [m.span() for m in WORD.finditer(src)]
    for blog in (True, False):
        html = creole2html(src, blog_line_breaks=blog)
        ctx.runs += 1
        ctx.outcome(html)
        out = []
        try:
            flat(htm.strict(html), out)
        except htm.NotStrict as e:
            raise Bad("%s: %r" % (e, html))
        out = "".join(out)
        got = KEEP.sub("", out)
        if got != want:
            raise Bad("blog=%s: the text %r of the source became %r\n  html: %r" % (blog, want, got, html))
        for i in range(len(ws) - 1):
            gap = src[pos[i][1]:pos[i + 1][0]]
            if re.search(r"\s", gap) and ws[i] + ws[i + 1] in out:
                raise Bad("blog=%s: %r and %r are separated by %r in the source but joined in %r" % (blog, ws[i], ws[i + 1], gap, html))
    if ws:
        ctx.nontrivial += 1


def text(alpha, item):
    return fill("".join(alpha[i] for i in item))


def lines(item, menu=LINES):
    return fill("\n".join(menu[i] for i in item))


FEW = ["q%d", "* q%d", "** q%d", "|q%d|q%d|", "= q%d", "----", "{{{", "}}}", "", "**q%d//", "# q%d", "q%d\\", "[[q%d|q%d", " q%d]]",
       "## q%d", "{{q%d|q%d}} q%d"]


SMALL = ["q%d", "\n", "**", "[[", "]]", "|", "{{", "}}", "*", "#", "=", "{{{", "}}}", "\\\\", "~", " ", "http://h%d "]


# single punctuation characters where they are no markup
PUNCT = list("!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~")
SHAPES = ["a%sb", "a%s b", "a %sb", "a %s b", "a%s", "%sa", "a %s", "%s a", "%s"]
SITES = {"paragraph": "%s", "second line": "c\n%s", "after a word": "c %s", "before a word": "%s c", "item": "* %s", "nested item": "* c\n## %s\n# d", "cell": "|%s|", "last cell": "|c| %s",
         "head cell": "|=%s|d|", "heading": "== %s\nd", "closed heading": "= %s =\nd", "bold": "c **%s** d", "link text": "[[/u|%s]]", "image title": "{{g.png|%s}}"}


def literal_items(pairs):
    for s in SITES:
        for shape in SHAPES:
            for p in PUNCT:
                yield s, shape, p
        for shape in SHAPES:
            for p in PUNCT:
                for r in PUNCT if pairs else "":
                    if p != r:
                        yield s, shape, p + r


def plain(site, t, p):
    """Whether the characters are no markup there."""
    if "~" in p and re.search(r"~\S", t) or t.endswith("\\") or t.startswith(("\\", "~")) or t.endswith("~"):
        return False             # escapes; together with the delimiters around the text
    if t[0] in "*#=|" and site in ("paragraph", "second line", "item", "nested item", "before a word", "cell", "last cell", "head cell", "heading", "closed heading"):
        return False             # the start of a line or cell
    if "=" == t[-1] and site in ("head cell", "heading", "closed heading"):
        return False
    if "|" in p and ("cell" in site or site in ("link text", "image title")):
        return False
    if site == "bold" and (t[0] == "*" or t[-1] == "*"):
        return False
    if site in ("link text", "image title") and (t[-1] in "]}" or t[0] in "[{"):
        return False
    return True


def judge_literal(it, ctx):
    site, shape, p = it
    t = shape % p
    if not plain(site, t, p):
        return
    check_text(site, t, ctx)


# every character is text like any other in the middle of a word

DOC = "a%sb\n\nc d%se\n* f%sg\n## h%si j%s\n|k%sl|m%sn o|\n= p%sq\nr %ss **t%su** [[/v|w%sx]] {{y.png|z%sa}}{{{b%sc}}}\n{{{\nd%se\n}}}"
MARKS = set("\n\r~|")


def judge_points(item, ctx):
    base = creole2html(DOC.replace("%s", "\ue000"))
    for c in range(item * 32, item * 32 + 32):
        ch = chr(c)
        if ch in MARKS:
            continue
        src = DOC.replace("%s", ch)
        if ch.isspace():
            src = src.replace("j" + ch, "j")       # at the end of a line white space has no meaning
        html = creole2html(src)
        ctx.runs += 1
        ent = {"<": "&lt;", ">": "&gt;", "&": "&amp;"}.get(ch, ch)
        want = re.sub('"([^"]*)"', lambda m: m.group().replace("\ue000", "&quot;" if ch == '"' else ent), base)
        if ch.isspace():
            want = want.replace("j\ue000", "j")
        want = want.replace("\ue000", ent)
        if html != want:
            raise Bad("U+%04X is no text like any other\n  expected: %r\n  got:      %r" % (c, want, html))
    ctx.outcome("%d" % item)
    ctx.nontrivial += 1


# texts that look like HTML or like Python are text

LOOKS = ["&nbsp;", "&amp;", "&lt;b&gt;", "&#65;", "&#x41;", "&quot;", "&apos;", "&copy", "&amp;amp;", "<b>", "</b>", "<b>x</b>", "<br />", "<br>", "</p>", "<p>", "<!-x", "<!DOCTYPE x>", "<?x ?>", "<![CDATA[x]]>", "<a href=\"x\">",
         "<script>x</script>", "<td>", "</li>", "<i", "b>", "</", "/>", "%s", "%(x)s", "%d", "{}", "{0}", "{x}", "$x", "\\1", "\\g<0>", "\\n", "\\t", "\\x41", "\\u0041", "\\N{DASH}", "None", "True", "0", "\0x", "x\0", "<pre>", "</pre>", "<tt>", "&", "&&", "&;", "&#;", "&#x;", "&x", "x&y", "a;b",
         "'x'", '"x"', "`x`", "x^y", "x_y", "x-y", "x,y", "x/y", "1x2", "x=y", "x*y", "x#y", "(x)", "[x]", "@x", "x!", "x?", "x.y", "x:y", "..", "...", "::", "<>", ">>", "<=>", "->", "<-", "=>", ":-)", "(c)", "_x_", "*x*", "/x/", "-x-", "^x^", "+x+"]


def look_items():
    for s in SITES:
        for a in LOOKS:
            for sh in ("%s", "b %s", "%s b", "b %s c"):
                yield s, sh, a
            for b in LOOKS:
                yield s, "%s", a + " " + b


def judge_look(it, ctx):
    site, shape, p = it
    t = shape.replace("%s", p)
    if t[0] in "*#=|" or "|" in t or site == "bold" and "*" in (t[0], t[-1]) or "=" in (t[0], t[-1]) or site in ("link text", "image title") and (t[-1] in "]}" or t[0] in "[{" or "]]" in t or "}}" in t) or t[-1] == "\\":
        return
    check_text(site, t, ctx)


def check_text(site, t, ctx):
    src = SITES[site].replace("%s", t)
    for blog in (True, False):
        html = creole2html(src, blog_line_breaks=blog)
        ctx.runs += 1
        ctx.outcome(html)
        try:
            tree = htm.strict(html)
        except htm.NotStrict as e:
            raise Bad("%s: %r" % (e, html))
        if site == "image title":
            got = [n.attrs.get("title") for n in htm.walk(tree) if not isinstance(n, str) and n.tag == "img"]
        else:
            got = ["".join(n for n in htm.walk(x) if isinstance(n, str)) for x in htm.walk(tree) if not isinstance(x, str) and x.tag in ("p", "li", "td", "th", "h1", "h2", "strong", "a")]
            got = [" ".join(g.split()) for g in got]
        if not any(g and " ".join(w.split()) == g for g in got for w in (t, "c " + t, t + " c", "c" + t)):
            raise Bad("blog=%s: the text %r of %r became %r" % (blog, t, src, html))
    ctx.nontrivial += 1


def spaces(tier):
    q = tier == "quick"
    d = 3 if q else 4
    return [
        Space("words", lambda: words(ALPHA, d, 1), lambda it, c: judge_src(text(ALPHA, it), c), lambda it: text(ALPHA, it),
              rule="all words over %d tokens, length <= %d, both line-break modes" % (len(ALPHA), d)),
        Space("deep-words", lambda: words(SMALL, d + 1, d + 1), lambda it, c: judge_src(text(SMALL, it), c), lambda it: text(SMALL, it),
              rule="all words over %d tokens of length %d" % (len(SMALL), d + 1)),
        Space("lines", lambda: words(LINES, d, 1), lambda it, c: judge_src(lines(it), c), lines,
              rule="all sequences of <= %d lines from a menu of %d lines" % (d, len(LINES))),
        Space("deep-lines", lambda: words(FEW, d + 1, d + 1), lambda it, c: judge_src(lines(it, FEW), c), lambda it: lines(it, FEW),
              rule="all sequences of %d lines from a menu of %d lines" % (d + 1, len(FEW))),
        Space("every character", lambda: iter(range((0x10000 if q else 0x110000) // 32)), judge_points, lambda it: "U+%04X.." % (it * 32), rule="every character of the basic plane (thorough: of all planes) in %d places" % DOC.count("%s")),
        Space("looks like markup", look_items, judge_look, lambda it: SITES[it[0]].replace("%s", it[1].replace("%s", it[2])), rule="%d texts that look like HTML, entities, Python formats or other markups, alone and in pairs, x %d places" % (len(LOOKS), len(SITES))),
        Space("sizes", lambda: scale.creole_items(q, None, ("image size", "heading level", "closing marks")), lambda it, c: judge_src(re.sub(r"\bw(\d+)", r"q\1", scale.creole_src(it)), c), scale.creole_src, rule=scale.creole_rule(None, ("image size", "heading level", "closing marks"))),
        Space("punctuation", lambda: literal_items(True), judge_literal, lambda it: SITES[it[0]].replace("%s", it[1] % it[2]),
              rule="every punctuation character and pair of two different ones x %d positions next to words x %d places, where they are no markup" % (len(SHAPES), len(SITES))),
    ]
