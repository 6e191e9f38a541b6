"""C07: everything can be escaped."""
import string

from creole import creole2html
from mc import ast, htm
from mc.engine import Space, Bad, words
from props.c05 import compare, PROTOS

PUNCT = [c for c in string.punctuation if c != "~"]
CHARS = PUNCT + ["a", " ", "http", "1"]
FRAGS = ["**", "//", "[[", "]]", "{{", "}}", "{{{", "}}}", "<<", ">>", "</", "##", "^^", ",,", "__", "--", "----", "\\\\", "*", "#", "=", "|", "a", " ", "http://b",
         "<<m>>", "[[a|b]]", "1x2", ":", "mailto://"]
LONG = ["**", "//", "[[", "]]", "{{{", "}}}", "<<m>>", "*", "#", "=", "|", "a", " ", "http://b", "----", "\\\\"]

CONTEXTS = {
    "paragraph": ("", "", lambda k: [("p", (), k)]),
    "in text": ("q ", " r", lambda k: [("p", (), ["q "] + k + [" r"])]),
    "tight": ("q", "r", lambda k: [("p", (), ["q"] + k + ["r"])]),
    "second line": ("q\n", "\nr", lambda k: [("p", (), ["q", ("br", (), ())] + k + [("br", (), ()), "r"])]),
    "bold": ("**q ", " r**", lambda k: [("p", (), [("strong", (), tuple(["q "] + k + [" r"]))])]),
    "item": ("* ", "\n* r", lambda k: [("ul", (), [("li", (), k), ("li", (), ["r"])])]),
    "nested item": ("# q\n## ", "", lambda k: [("ol", (), [("li", (), ["q", ("ol", (), [("li", (), k)])])])]),
    "cell": ("|", "|r|", lambda k: [("table", (), [("tr", (), [("td", (), k), ("td", (), ["r"])])])]),
    "last cell": ("|=q| x", "", lambda k: [("table", (), [("tr", (), [("th", (), ["q"]), ("td", (), ["x"] + k)])])]),
}


def esc(t):
    return "".join("~" + c if c in PUNCT else c for c in t)


def text(alpha, w):
    return "".join(alpha[i] for i in w)


def items(alpha, d, contexts, nmin=1):
    for w in words(alpha, d, nmin):
        t = text(alpha, w)
        for c in contexts:
            if not t.strip() and c in ("paragraph", "second line", "item", "nested item", "cell"):
                continue        # nothing but white space
            if c == "bold" and t.strip() == "":
                continue
            yield t, c


def judge(item, ctx):
    t, c = item
    b, a, wrap = CONTEXTS[c]
    compare(b + esc(t) + a, wrap([t]), ctx, macros={"m": None})
    ctx.nontrivial += 1


def tilde_items():
    for c in CONTEXTS:
        for gap in (" ", "\t", "  "):
            for t in ("~%sa", "a~%sb", "a ~%sb~%sc", "~%s*~%s#"):
                yield c, t % ((gap,) * t.count("%s"))
        for t in ("~", "a~", "a ~", "~ ~", "~ ~ ~"):
            yield c, t


def judge_tilde(item, ctx):
    """A tilde before white space or at the end of the line is itself."""
    c, t = item
    b, a, wrap = CONTEXTS[c]
    if c in ("tight", "bold") and t.endswith("~"):
        return
    if c == "cell" and t.endswith("~"):
        a = " " + a         # directly before the mark it would escape the mark
    compare(b + t + a, wrap([t]), ctx)
    ctx.nontrivial += 1


def every_items():
    for cp in range(0x21, 0x3000):
        c = chr(cp)
        if c.isspace() or 0x7f <= cp < 0xa0 or c == "~":
            continue
        yield c


def judge_every(item, ctx):
    """The tilde may stand before every character that is not white space."""
    for b, a, wrap in CONTEXTS.values():
        compare(b + "~" + item + a, wrap([item]), ctx)
        if item in "=|" and b.startswith("|"):
            continue
        compare(b + "~" + item + "x~" + item + a, wrap([item + "x" + item]), ctx)
    ctx.nontrivial += 1


PATHS = ["h", "h/a?b=c&d=e#f", "//h//i//", "h.", "a_b__c__d", "h**i**", "{{i}}", "~a", "h,,i,,j", "<b>", "h\\\\i"]


def url_items():
    for p in PROTOS:
        for path in PATHS:
            for c in CONTEXTS:
                for pre, post in (("", ""), ("x ", " y"), ("\t", " ")):
                    if c == "tight" and not pre.strip() + post:
                        continue
                    yield p, path, c, pre, post


def judge_url(item, ctx):
    p, path, c, pre, post = item
    url = "%s://%s" % (p, path)
    if c == "bold" and "**" in path:
        return
    if c in ("cell", "last cell") and "{{" in path:
        pass
    b, a, wrap = CONTEXTS[c]
    if c in ("last cell", "tight"):
        pre = pre if pre.strip() or pre else " "
    if c == "tight" and not post:
        post = " "
    compare(b + pre + "~" + url + post + a, wrap([pre + url + post]), ctx)
    ctx.nontrivial += 1


def spaces(tier):
    q = tier == "quick"
    d = 3 if q else 4
    return [
        Space("characters", lambda: items(CHARS, d, CONTEXTS if q else ["paragraph", "item", "cell", "tight", "bold"]), judge, lambda it: (esc(it[0]), it[1]),
              rule="all texts of <= %d characters out of %d in %d contexts" % (d, len(CHARS), len(CONTEXTS))),
        Space("constructs", lambda: items(FRAGS, d, ["paragraph", "item", "cell", "bold"]), judge, lambda it: (esc(it[0]), it[1]),
              rule="all texts of <= %d fragments out of %d (complete delimiters) in 4 contexts" % (d, len(FRAGS))),
        Space("long", lambda: items(LONG, d + 1, ["paragraph", "cell"], d + 1), judge, lambda it: (esc(it[0]), it[1]),
              rule="all texts of %d fragments out of %d in 2 contexts" % (d + 1, len(LONG))),
        Space("plain tilde", tilde_items, judge_tilde, rule="tilde before white space or line end in every context"),
        Space("each character", every_items, judge_every, rule="tilde before every printable character below U+3000"),
        Space("urls", url_items, judge_url, rule="escaped URLs: 9 protocols x 11 paths x 9 contexts x surroundings"),
    ]
