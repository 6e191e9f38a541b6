"""C01: creole2html is total."""
import io
import itertools

from creole import creole2html
from mc.engine import Space, Bad, words

CORE = ["q", " ", "\n", "**", "//", "[[", "]]", "|", "{{", "}}", "{{{", "}}}", "~", "\\\\", "*", "#", "=", "----",
        "<<", ">>", "<<m>>", "<</m>>", "http://x", "<<toc>>", "##", "^^", ",,", "__", "~~", "--", "x", "/", "\t",
        "\r", '"', "'", "<", "&", "<<m a=", "#!", "1x2", "\\", ":"]
DEEP = ["q", "\n", "*", "#", "|", "=", "{{{", "}}}", "**", "[[", "]]", "<<m>>", "<</m>>", " ", "~", "\\\\", "{{", "}}"]
TINY = ["q", "\n", "*", "#", "|", "=", "{{{", "}}}", "<<m>>", "<</m>>", " "]
ASSUMPTIONS = ["texts are words over the listed token alphabets; nesting stays below Python's recursion limit"]


def text(alpha, item):
    return "".join(alpha[i] for i in item)


def ok(r, s, kw):
    if not isinstance(r, str):
        raise Bad("creole2html(%r, %r) returned %r" % (s, kw, type(r)))


def judge_words(alpha):
    def judge(item, ctx):
        s = text(alpha, item)
        for blog in (True, False):
            r = creole2html(s, blog_line_breaks=blog)
            ctx.runs += 1
            ok(r, s, blog)
            ctx.outcome(r)
        ctx.nontrivial += 1
    return judge


class Obj:
    @staticmethod
    def m(text=None, **kw):
        return "M"


class ObjToc(Obj):
    @staticmethod
    def toc(text=None, **kw):
        return "T"


def boom(**kw):
    raise KeyError("boom")


# name -> (fresh namespace)
SPACES = {
    "none": lambda: None, "empty": dict, "dict": lambda: {"m": Obj.m}, "own-toc": lambda: {"m": Obj.m, "toc": Obj.m},
    "toc-none": lambda: {"m": None, "toc": None},
    "object": Obj, "object-own-toc": ObjToc,
    "failing": lambda: {"m": boom, "toc": boom}, "notcallable": lambda: {"m": "x", "toc": 5},
}
MACRO_DOCS = ["<<m>>", "<<m>>x<</m>>", "<<m a=1>>", "<<m a='>>", "<<m\n>>", "<<toc>>", "<<toc depth=1>>", "<<toc depth=x>>",
              "<<toc depth=True>>", "<<toc x>>", "<<toc>>\n= a\n== b", "= a\n<<toc depth='2'>>\n<<toc>>", "<<toc>>x<</toc>>",
              "<<m text=1>>", "<<m macro_name=1>>", "<<m self=1>>", "<<n>>", "<<__class__>>", "<<m 1=2>>", "<<m = >>", "<<m a>>",
              "<<toc depth=1 depth=2>>", "<<toc max=1>>", "<<toc depth=None>>", "= \n<<toc>>", "======= a\n<<toc>>",
              "| <<m>> |", "* <<m>>", "[[a|<<m>>]]", "= <<m>>", "{{{<<m>>}}}", "//<<m>>//"]


def opts_items():
    n = 0
    for d in MACRO_DOCS:
        for d2 in [""] + MACRO_DOCS:
            for ns in SPACES:
                for verbose in (None, 0, 1, 2):
                    yield (d + ("\n" + d2 if d2 else ""), ns, verbose)


def judge_opts(item, ctx):
    s, ns, verbose = item
    for blog in (True, False):
        for strict in (True, False):
            err = io.StringIO()
            r = creole2html(s, macros=SPACES[ns](), verbose=verbose, stderr=err, blog_line_breaks=blog, strict=strict)
            ctx.runs += 1
            ok(r, s, (ns, verbose, blog, strict))
            ctx.outcome((r, bool(err.getvalue())))
    ctx.nontrivial += 1


CP_DOC = "= %sX%s\n* X%sX\n|%s|=%s|\n\nX%sX[[%s|%s]]{{%s}}{{{%s}}}**%s**~%s\n{{{\n%s\n}}}\n%s <<m>>%s<</m>>\n%s"


def judge_cp(item, ctx):
    for c in range(item * 64, item * 64 + 64):
        s = CP_DOC.replace("%s", chr(c))
        r = creole2html(s, macros={"m": lambda text, **k: text})
        ctx.runs += 1
        ok(r, hex(c), None)
        ctx.extra["code_points"] += 1
    ctx.outcome(r)
    ctx.nontrivial += 1


HEADS = ["", "= a ", "q ", "|", "* ", "[[a|", "{{", "{{{\n", "**", "<<m ", "~", "http://h/", "----", "{{{", "<<m>>"]
TAILS = ["", "q", "\n", " b", "]]", "}}}", "\n= b", ">>x"]


def pump_items():
    for w in range(len(CORE)):
        for h in range(len(HEADS)):
            for t in range(len(TAILS)):
                yield h, (w,), t
    for w in itertools.product(range(len(CORE)), repeat=2):
        for h in range(4):
            for t in range(4):
                yield h, w, t


def pump_src(item):
    h, w, t = item
    return HEADS[h] + text(CORE, w) * 40 + TAILS[t]


def judge_pump(item, ctx):
    s = pump_src(item)
    for blog in (True, False):
        r = creole2html(s, blog_line_breaks=blog)
        ctx.runs += 1
        ok(r, s, blog)
    ctx.outcome(r)
    ctx.nontrivial += 1


def spaces(tier):
    q = tier == "quick"
    return [
        Space("words", lambda: words(CORE, 3 if q else 4), judge_words(CORE), lambda it: text(CORE, it),
              rule="all words over %d tokens, length <= %d, blog and wiki mode" % (len(CORE), 3 if q else 4)),
        Space("deep-words", lambda: words(DEEP, 4 if q else 5, 4 if q else 5), judge_words(DEEP), lambda it: text(DEEP, it),
              rule="all words over the %d structural tokens of length %d" % (len(DEEP), 4 if q else 5)),
        Space("deeper-words", lambda: words(TINY, 5 if q else 6, 5 if q else 6), judge_words(TINY), lambda it: text(TINY, it),
              rule="all words over the %d block tokens of length %d" % (len(TINY), 5 if q else 6)),
        Space("options", opts_items, judge_opts,
              rule="all pairs of macro documents x namespace kinds x verbosity x strict x line-break mode"),
        Space("code-points", lambda: iter(range(0x3000 // 64) if q else range(0x110000 // 64)), judge_cp,
              lambda it: "U+%X..U+%X" % (it * 64, it * 64 + 63),
              rule="every code point (quick: below U+3000; thorough: all, with surrogates) in 14 contexts"),
        Space("pumped", pump_items, judge_pump, pump_src, horizon=20,
              rule="all words of length <= 2 repeated 40 times after and before other markup: runaway backtracking shows as a time-out"),
    ]
