"""C31: diagnostic switches never change the result."""
import contextlib
import io
import itertools
import sys
import warnings

from creole import creole2html, html2creole, html2markdown, html2rest, html2textile, parse_html
from creole.html_tools.strip_html import strip_html
from creole.html_tools.deentity import Deentity
from creole.parser.creol2html_rules import BlockRules
from creole.rest_tools.clean_writer import rest2html
from creole.shared import example_macros
from creole.shared.unknown_tags import escape_unknown_nodes, preformat_unknown_nodes, raise_unknown_node, transparent_unknown_nodes, use_html_macro
from creole.shared.utils import dict2string, string2dict
from mc import ast, doc, hdoc, rstdoc
from mc.engine import Space, Bad, words
from props import c01, c12

TARGETS = {"html2creole": html2creole, "html2rest": html2rest, "html2textile": html2textile, "html2markdown": html2markdown}
POLICIES = {"transparent": transparent_unknown_nodes, "escape": escape_unknown_nodes, "html": use_html_macro, "pre": preformat_unknown_nodes, "raise": raise_unknown_node}


class Sink(io.StringIO):
    """Counts what is written"""

    def __init__(self):
        super().__init__()
        self.n = 0
        self.first = ""

    def write(self, s):
        self.n += len(s)
        self.first = self.first or s
        return len(s)


def dump(n, depth=0):
    return n.kind, n.content, sorted(n.attrs.items()), n.level, [dump(c) for c in n.children]


def run(f, *a, **k):
    """-> (result or exception as text, sink, warnings)"""
    out = Sink()
    old = sys.stdout
    sys.stdout = out
    try:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                r = f(*a, **k)
            except Exception as e:
                r = "%s: %s" % (type(e).__name__, e)
    finally:
        sys.stdout = old
    if not isinstance(r, (str, dict)):
        r = dump(r)
    return r, out, w


def silent(name, f, *a, **k):
    r, out, w = run(f, *a, **k)
    if out.n:
        raise Bad("%s without debug writes %r to standard output" % (name, out.first))
    if w:
        raise Bad("%s without debug emits %s: %s" % (name, w[0].category.__name__, w[0].message))
    return r


def both(name, f, src, ctx, **k):
    a = silent(name, f, src, **k)
    b, out, w = run(f, src, debug=True, **k)
    ctx.runs += 2
    ctx.extra["debug output"] += bool(out.n)
    ctx.outcome(repr(a))
    if a != b:
        raise Bad("%s: with debug %r, without %r" % (name, b, a))
    c = silent(name, f, src, **k)
    if a != c:
        raise Bad("%s: after debug %r, before %r" % (name, c, a))
    return a


def html_judge(src, ctx, policies=(None,)):
    for name, f in TARGETS.items():
        for p in policies:
            both(name, f, src, ctx, **({"unknown_emit": POLICIES[p]} if p else {}))
    both("parse_html", parse_html, src, ctx)
    ctx.nontrivial += 1


def hello(text=None, **kw):
    return "hello(%r, %r)" % (text, sorted(kw.items()))


def fails(text=None, **kw):
    raise ValueError("<b> & \"%s\" %r" % (text, sorted(kw)))


def quits(text=None, **kw):
    raise KeyError(text)


MACROS = {"f": fails, "k": quits, "none": lambda text=None: None, "m": hello, "html": example_macros.html, "pre": example_macros.pre}
MODES = [{}, {"blog_line_breaks": False}, {"strict": True}, {"macros": MACROS}]


def creole_judge(src, ctx, modes=MODES):
    for k in modes:
        a = both("creole2html", creole2html, src, ctx, **k)
        err = Sink()
        fails = False
        for v in (0, 1, 2):
            b = silent("creole2html(verbose=%d)" % v, creole2html, src, verbose=v, stderr=err, **k)
            if v == 0:
                silent0 = b
                continue
            ctx.runs += 1
            if v == 1:
                fails = b != silent0 or "[Error" in b
            if not fails and b != a:
                raise Bad("verbosity %d gives %r, the default %r" % (v, b, a))
        if not fails and err.n:
            raise Bad("nothing fails, but it is written to stderr: %r" % err.first)
        # b: with verbosity 2
        c, out, w = run(creole2html, src, verbose=2, debug=True, stderr=err, **k)
        if c != b:
            raise Bad("verbosity 2 with debug gives %r, without %r" % (c, b))
    ctx.nontrivial += 1


def words_of(alphabet, n, fill=None):
    def show(it):
        s = "".join(alphabet[i] for i in it)
        return s
    return (lambda: words(alphabet, n)), show


def wspace(name, alphabet, n, judge):
    items, show = words_of(alphabet, n)
    return Space(name, items, lambda it, ctx: judge(show(it), ctx), show, rule="words of <= %d of %d tokens" % (n, len(alphabet)))


def doc_src(it):
    f = ast.Fill()
    return "\n\n".join(doc.VARIANTS[v](f, True)[1] for v in it)


def doc_items(n):
    for k in range(1, n + 1):
        yield from itertools.product(doc.VARIANTS, repeat=k)


def hdoc_src(it):
    f = ast.Fill()
    return "\n".join(hdoc.BLOCKS[v][1](f) for v in it)


def hdoc_items(n):
    for k in range(1, n + 1):
        yield from itertools.product(hdoc.BLOCKS, repeat=k)


def policy_items():
    for s in c12.words(c12.SPECIALS, 2):
        for p in POLICIES:
            yield p, s


def policy_src(it):
    return "".join(c12.SPECIALS[i] for i in it[1])


# entities and references of every form

ENTITIES = ["q", " ", "&foo", "&foo;", "&amp", "&amp;", "&x", "&", ";", "&#65;", "&#65", "&#x;", "&#xd800;", "&#99999999;", "&#0;", "<b>", "<p>", "</p>", "<pre>", "</pre>", "<x a='&foo;'>", "&lt;", ".", "&auml;"]

# macros: verbosity and debug do not change what macros give

TOKENS = ["<<m>>", "<<m a=1>>", "<<m>>x<</m>>", "<<toc>>", "<<toc 1>>", "= h", "<<html>><i><</html>>", "<<pre>>\n<\n<</pre>>", "\n", "q", "* ", "|", "{{{<<m>>}}}", "~", "**", "<<f>>", "<<f a='<'>>&<</f>>", "<<nope>>", "<<none>>", "<<k>>", "<<m 1>>"]

# the other functions

OTHERS = {
    "rest2html": (rest2html, lambda: (rstdoc.fill(rstdoc.BLOCKS[b] + "\n") for b in rstdoc.BLOCKS)),
    "strip_html": (strip_html, lambda: ("".join(c12.CORE[i] for i in w) for w in words(c12.CORE, 2))),
    "string2dict": (string2dict, lambda: ("".join(["a", "=", '"', "1", " ", "'", "\\"][i] for i in w) for w in words("a=\"1 '\\", 4))),
    "dict2string": (dict2string, lambda: ({a: v} for a in ("a", "b") for v in ("x", "", 1, True, None, "ä", '"'))),
    "replace_all": (Deentity().replace_all, lambda: ("".join(["&", "#", "x", "6", ";", "amp", " ", "nope"][i] for i in w) for w in words("&#x6;a n", 4))),
    "html": (example_macros.html, lambda: ["a", "<b>"]), "pre": (example_macros.pre, lambda: ["a", "<b>"]), "code": (lambda a: example_macros.code(*a), lambda: [(e, t) for e in (".py", "py", "", ".nope", ".html") for t in ("", "a", "x = 1\n", "<b>")]),
}


def other_items():
    for name, (f, args) in OTHERS.items():
        for a in args():
            yield name, a


def other_judge(it, ctx):
    name, a = it
    err = sys.stderr
    sys.stderr = io.StringIO()
    try:
        r = silent(name, OTHERS[name][0], a)
    finally:
        sys.stderr = err
    ctx.runs += 1
    ctx.nontrivial += 1
    ctx.outcome(repr(r))


def spaces(tier):
    q = tier == "quick"
    return [
        wspace("creole words", c01.CORE, 3, creole_judge),
        wspace("creole structure", c01.TINY, 4 if q else 5, creole_judge),
        wspace("macros", TOKENS, 3 if q else 4, lambda s, ctx: creole_judge(s, ctx, MODES[3:])),
        Space("creole documents", lambda: doc_items(2 if q else 3), lambda it, ctx: creole_judge(doc_src(it), ctx), doc_src, rule="sequences of <= %d blocks" % (2 if q else 3)),
        wspace("html words", c12.ALPHA, 2 if q else 3, html_judge),
        wspace("html structure", c12.TINY, 4 if q else 5, html_judge),
        wspace("html inline", c12.CORE, 3 if q else 4, html_judge),
        wspace("html entities", ENTITIES, 3 if q else 4, html_judge),
        Space("html documents", lambda: hdoc_items(2 if q else 3), lambda it, ctx: html_judge(hdoc_src(it), ctx), hdoc_src, rule="sequences of <= %d blocks" % (2 if q else 3)),
        Space("unknown tags", policy_items, lambda it, ctx: html_judge(policy_src(it), ctx, it[:1]), policy_src, rule="words of <= 2 of %d tokens x 5 handlers" % len(c12.SPECIALS)),
        Space("other functions", other_items, other_judge, rule="functions without a switch are silent"),
    ]
