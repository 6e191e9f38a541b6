"""C27: conversions are independent of earlier conversions."""
import contextlib
import io
import itertools
import os
import pickle
import re
import types
import warnings

import creole
from creole import creole2html, html2creole, html2markdown, html2rest, html2textile, parse_html
from creole.emitter.creol2html_emitter import HtmlEmitter
from creole.emitter.html2creole_emitter import CreoleEmitter
from creole.emitter.html2markdown_emitter import MarkdownEmitter
from creole.emitter.html2rest_emitter import ReStructuredTextEmitter
from creole.emitter.html2textile_emitter import TextileEmitter
from creole.html_tools.deentity import Deentity
from creole.html_tools.strip_html import strip_html
from creole.parser.creol2html_parser import CreoleParser
from creole.parser.creol2html_rules import BlockRules
from creole.rest_tools.clean_writer import rest2html
from creole.rest_tools.pypi_rest2html import pypi_rest2html
from creole.shared import example_macros
from creole.shared.diff_utils import unified_diff
from creole.shared.unknown_tags import escape_unknown_nodes, preformat_unknown_nodes, raise_unknown_node, transparent_unknown_nodes, use_html_macro
from creole.shared.utils import dict2string, string2dict
from mc.engine import Space, Bad


def hello(text=None, **kw):
    return "hello(%r, %r)" % (text, sorted(kw.items()))


def fails(text=None, **kw):
    raise ValueError("no " + str(text))


def nest(text=None, **kw):
    return creole2html(text or "= x\n<<toc>>\n== y", macros={"m": hello})


def nesttoc(text=None, **kw):
    return creole2html("= a\n<<toc>>\n\n<<m>>\n", macros=ENV["shared"])


def mymacro_toc(text=None, **kw):
    return "own toc"


MODULE = types.ModuleType("macros")
MODULE.m = hello
MODULE.fails = fails

ENV = {}


def fresh():
    """Objects which the caller passes to several calls."""
    ENV.clear()
    ENV["shared"] = {"m": hello, "fails": fails, "html": example_macros.html, "pre": example_macros.pre, "nest": nest, "nesttoc": nesttoc}
    ENV["owntoc"] = {"toc": mymacro_toc}
    ENV["empty"] = {}
    ENV["rules"] = BlockRules(blog_line_breaks=False)
    ENV["err"] = io.StringIO()
    ENV["dict"] = {"b": "x y", "a": 1}
    ENV["tree"] = parse_html(DOC)
    ENV["ctree"] = CreoleParser(CDOC).parse()
    ENV["deentity"] = Deentity()
    ENV["settings"] = {"report_level": 5}


def dump(node):
    return node.kind, node.content, sorted(node.attrs.items()), node.level, [dump(c) for c in node.children]


def snapshot():
    return {
        "shared": list(ENV["shared"].items()), "owntoc": list(ENV["owntoc"].items()), "empty": list(ENV["empty"].items()), "module": sorted((k, v) for k, v in vars(MODULE).items() if k != "__builtins__"),
        "rules": (ENV["rules"].rules, int(ENV["rules"].re_flags)), "dict": list(ENV["dict"].items()), "tree": dump(ENV["tree"]), "ctree": dump(ENV["ctree"]), "settings": list(ENV["settings"].items()),
        "example": sorted(k for k in vars(example_macros) if not k.startswith("__")),
    }


DOC = '<h1>a</h1><p>b <a href="/u">l</a> <img src="i.png" alt="x"> <a href="/u2"><img src="j.png" alt="y"></a></p><ul><li>c<ol><li>d</li></ul><table><tr><th>e</th></tr><tr><td>f<br>g</td></tr></table><foo>h</foo><pre>\ni\n</pre>'
CDOC = "= a\n<<toc 2>>\n== b\n* c\n** d\n# e\n|=f|g\\\\h|\n[[/u|l]] {{i.png|x}} {{{j}}} ~* k\nm\n<<macro x=1>>n<</macro>>\n----\n<<o>>\n"
RDOC = "a\n=\n\nb_ |c| [1]_ `d`__\n\n.. _b: /u\n.. |c| replace:: x\n.. [1] y\n\n__ /v\n"

C = {
    "creole plain": lambda: creole2html("a **b** //c//\nd"),
    "creole all": lambda: creole2html(CDOC),
    "creole wiki": lambda: creole2html("a\nb\n* c\nd\n", blog_line_breaks=False),
    "creole rules": lambda: creole2html("a\nb\n* c\nd\n", block_rules=ENV["rules"]),
    "creole blog": lambda: creole2html("a\nb\n* c\nd\n", blog_line_breaks=True),
    "creole toc": lambda: creole2html("<<toc>>\n= a\n== b\n"),
    "creole toc depth": lambda: creole2html("<<toc depth=1>>\n= a\n== b\n"),
    "creole toc late": lambda: creole2html("= a\n== b\n<<toc>>\n"),
    "creole headlines": lambda: creole2html("= z\n=== y\n"),
    "creole toc shared": lambda: creole2html("<<toc>>\n= a <<m>>\n<<m>>\n== b\n", macros=ENV["shared"]),
    "creole no toc shared": lambda: creole2html("= q\n<<m>>\n<<toc>>\n", macros=ENV["shared"]),
    "creole toc empty": lambda: creole2html("<<toc>>\n= a\n<<m>>", macros=ENV["empty"]),
    "creole own toc": lambda: creole2html("<<toc>>\n= a\n", macros=ENV["owntoc"]),
    "creole module": lambda: creole2html("<<m x=1>>t<</m>> <<fails>>\n<<toc>>\n= a", macros=MODULE, verbose=1),
    "creole example": lambda: creole2html("<<html>><b><</html>><<pre>>\n<\n<</pre>>\n<<code ext='.py'>>x = 1<</code>>", macros=example_macros),
    "creole nest": lambda: creole2html("= a\n<<toc>>\n<<nest>>\n= b <<c>> <</c>> {{{x}}}\n[[/u|l]]\n", macros=ENV["shared"]),
    "creole nesttoc": lambda: creole2html("= a\n<<toc>>\n<<nesttoc>>\n= b\n<<toc>>\n", macros=ENV["shared"]),
    "creole fails": lambda: creole2html("= a\n<<fails>>\n", macros=ENV["shared"], verbose=2, stderr=ENV["err"]),
    "creole fails silent": lambda: creole2html("= a\n<<fails>>\n<<no>>\n", macros=ENV["shared"], verbose=0),
    "creole strict": lambda: creole2html("//tt// ##mono## a\nb ^^s^^ ,,u,, __v__ --d--", strict=True),
    "creole lax": lambda: creole2html("//tt// ##mono## a\nb ^^s^^ ,,u,, __v__ --d--"),
    "creole debug": lambda: creole2html(CDOC, debug=True),
    "creole wrong": lambda: creole2html(b"x"),
    "creole callable": lambda: creole2html("<<toc>>\n= a\n<<m>>", macros=hello),
    "creole open": lambda: creole2html("**//##a\n* **b //c\n|d **e|[[f|g **h\n{{{ i"),
    "creole nowiki": lambda: creole2html("{{{\na\n}}}\nb {{{c}}} d\n{{{\ne"),
    "creole tree": lambda: HtmlEmitter(ENV["ctree"], macros=ENV["shared"]).emit(),
    "creole tree strict": lambda: HtmlEmitter(ENV["ctree"], strict=True).emit(),
}
H = {"html2creole": html2creole, "html2rest": html2rest, "html2textile": html2textile, "html2markdown": html2markdown}
for n, f in H.items():
    C.update({
        n + " all": lambda f=f: f(DOC),
        n + " plain": lambda f=f: f("<p>a <b>b</b></p>"),
        n + " links": lambda f=f: f('<p><a href="/u">l</a> <a href="/w">k</a></p>'),
        n + " link2": lambda f=f: f('<p><a href="/other">l</a> <img src="other.png" alt="x"></p>'),
        n + " images": lambda f=f: f('<p><img src="i.png" alt="x"> <img src="k.png" width="1" height="2"></p>'),
        n + " open": lambda f=f: f("<ul><li>a<ul><li><table><tr><td>b<pre>c <a href='x'>"),
        n + " close": lambda f=f: f("x</td></tr></table></li></ul></b></pre></a>y"),
        n + " lists": lambda f=f: f("<ol><li>a<ul><li>b</li></ul></li></ol>"),
        n + " li": lambda f=f: f("<li>a</li>"),
        n + " table": lambda f=f: f("<table><tr><td>aaaaaa</td></tr><tr><td>b</td><td>c</td></tr></table>"),
        n + " pre": lambda f=f: f("<pre>a &lt;b&gt;\n\n  c</pre><p>d</p>"),
        n + " script": lambda f=f: f("<script>a <b> &amp; </script><p>b</p><script>c"),
        n + " entities": lambda f=f: f("<p>&auml;&nbsp;&foo; &#228; &#xe4;</p>"),
        n + " unknown": lambda f=f: f("<p><foo a=1>b</foo></p>"),
        n + " escape": lambda f=f: f("<p><foo a=1>b</foo></p>", unknown_emit=escape_unknown_nodes),
        n + " html": lambda f=f: f("<p><foo a=1>b</foo></p>", unknown_emit=use_html_macro),
        n + " raise": lambda f=f: f("<ul><li>q<table><tr><td><a href='/u'>l</a><foo>b</foo>", unknown_emit=raise_unknown_node),
        n + " pre unknown": lambda f=f: f("<p><foo a=1>b</foo></p>", unknown_emit=preformat_unknown_nodes),
        n + " debug": lambda f=f: f(DOC, debug=True),
        n + " wrong": lambda f=f: f(None),
    })
C.update({
    "html2creole strict": lambda: html2creole("<p><tt>a</tt> <sup>b</sup></p>", strict=True),
    "html2creole lax": lambda: html2creole("<p><tt>a</tt> <sup>b</sup></p>"),
    "html2rest dup": lambda: html2rest('<p><a href="/u">l</a> <a href="/v">l</a></p>'),
    "tree creole": lambda: CreoleEmitter(ENV["tree"]).emit(),
    "tree rest": lambda: ReStructuredTextEmitter(ENV["tree"]).emit(),
    "tree markdown": lambda: MarkdownEmitter(ENV["tree"]).emit(),
    "tree textile": lambda: TextileEmitter(ENV["tree"]).emit(),
    "tree raise": lambda: ReStructuredTextEmitter(ENV["tree"], unknown_emit=raise_unknown_node).emit(),
    "parse": lambda: dump(parse_html(DOC)),
    "parse open": lambda: dump(parse_html("<b><i>x")),
    "parse creole": lambda: dump(CreoleParser(CDOC).parse()),
    "rest all": lambda: rest2html(RDOC),
    "rest plain": lambda: rest2html("a *b*"),
    "rest link": lambda: rest2html("b_\n\n.. _b: /other\n"),
    "rest nolink": lambda: rest2html("a b_ `c`__ |c| [1]_ x", report_level=5),
    "rest role": lambda: rest2html(".. role:: xx\n\n:xx:`a`\n"),
    "rest role used": lambda: rest2html(":xx:`a`\n", report_level=5),
    "rest role strong": lambda: rest2html(".. role:: xx(strong)\n\n:xx:`a`\n"),
    "rest default": lambda: rest2html(".. default-role:: strong\n\n`a`\n"),
    "rest default fails": lambda: rest2html(".. default-role:: strong\n\n`a`\n\nb_\n", halt_level=2, report_level=5),
    "rest default fails early": lambda: rest2html(".. default-role:: strong\n\n`a` *b\n", halt_level=2, report_level=5),
    "rest default used": lambda: rest2html("`a`\n"),
    "rest math": lambda: rest2html(":math:`a<b`\n"),
    "rest code": lambda: rest2html(".. code:: python\n\n   x = 1\n"),
    "rest title": lambda: rest2html("a\n=\n\nb\n-\n"),
    "rest title x": lambda: rest2html("a\n=\n\nb\n-\n", doctitle_xform=True),
    "rest numbers": lambda: rest2html("a [#]_ b [#x]_ c [*]_\n\n.. [#] d\n.. [#x] e\n.. [*] f\n"),
    "rest list": lambda: rest2html("- a\n\n  - b\n\n1. c\n"),
    "rest table": lambda: rest2html("== ==\na  b\n== ==\nc  d\n== ==\n"),
    "rest warn": lambda: rest2html("b_ *x\n", report_level=5),
    "rest fails": lambda: rest2html("- a\n\n  - b_\n", halt_level=2, report_level=5),
    "rest severe": lambda: rest2html("a\n=\n\nb\n--\n\nc\n~~\n\nd\n--\n\ne\n++\n\nf\n==\n\ng\n++\n", halt_level=4, report_level=5),
    "rest raw": lambda: rest2html(".. raw:: html\n\n   <b>\n", report_level=5),
    "rest exit": lambda: rest2html("b_\n", enable_exit_status=1, exit_status_level=2, report_level=5),
    "rest settings": lambda: rest2html("b_\n", **ENV["settings"]),
    "rest wrong": lambda: rest2html(b"x"),
    "pypi": lambda: pypi_rest2html("a `b <http://c.org/>`_\n\n1. d\n"),
    "pypi scheme": lambda: pypi_rest2html("a `b <javascript:c>`_"),
    "pypi warn": lambda: pypi_rest2html("a b_"),
    "pypi role": lambda: pypi_rest2html(".. role:: xx\n\n:xx:`a`\n"),
    "pypi role used": lambda: pypi_rest2html(":xx:`a`\n"),
    "pypi default": lambda: pypi_rest2html(".. default-role:: strong\n\n`a` *b\n"),
    "pypi default used": lambda: pypi_rest2html("`a`\n"),
    "pypi bytes": lambda: pypi_rest2html("ä", output_encoding="utf-8"),
    "string2dict": lambda: string2dict('a=1 b="x y" c=True'),
    "string2dict none": lambda: string2dict(""),
    "string2dict bad": lambda: string2dict("a"),
    "string2dict quote": lambda: string2dict("a='b"),
    "dict2string": lambda: dict2string(ENV["dict"]),
    "strip": lambda: strip_html("<p> a <b> c</b>\n</p> <ul> <li> d"),
    "strip2": lambda: strip_html(" a "),
    "deentity": lambda: Deentity().replace_all("&auml; &#228; &#xe4; &foo; &amp;"),
    "deentity shared": lambda: ENV["deentity"].replace_all("&auml; &#228; &#xe4; &foo; &amp;"),
    "deentity bad": lambda: ENV["deentity"].replace_all("&#x110000;"),
    "deentity named": lambda: ENV["deentity"].replace_named("bogus"),
    "diff": lambda: unified_diff("a\nb", "a\nc\n"),
    "diff name": lambda: unified_diff("a\nb", "a\nc\n", filename="x"),
    "emit escape": lambda: CreoleEmitter(ENV["tree"], unknown_emit=escape_unknown_nodes).emit(),
})
# the ones with most state of their own
CORE = ["creole all", "creole toc", "creole toc shared", "creole no toc shared", "creole nest", "creole wrong", "creole fails", "creole open", "html2creole all", "html2creole open", "html2rest all", "html2rest links",
        "html2rest raise", "html2rest dup", "html2textile all", "html2markdown open", "tree rest", "tree creole", "rest all", "rest default fails early", "rest default used", "pypi role", "rest role used", "rest numbers"]


def outcome(f):
    """-> text of result or exception; returned objects are modified afterwards"""
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            r = f()
        except (Exception, SystemExit) as e:
            return "%s: %s" % (type(e).__name__, re.sub(r"0x[0-9a-f]+", "0x", str(e)))
    text = repr(r)
    if isinstance(r, dict):
        r["zz"] = 5
    elif isinstance(r, list):
        r.append(5)
    return text


REF = {}


def forked(f):
    """The result of f() in a new process in which nothing was converted yet"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            import signal
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(50)
            os.close(r)
            data = pickle.dumps(f())
            with os.fdopen(w, "wb") as p:
                p.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as p:
        data = p.read()
    os.waitpid(pid, 0)
    if not data:
        raise Bad("no answer: the calls do not terminate or end the process")
    return pickle.loads(data)


def one(name):
    fresh()
    return outcome(C[name])


def ref(name):
    if name not in REF:
        REF[name] = forked(lambda: one(name))
    return REF[name]


def history(names):
    fresh()
    before = snapshot()
    return [outcome(C[n]) for n in names], {k: repr(v) for k, v in snapshot().items()}, {k: repr(v) for k, v in before.items()}


def judge(it, ctx):
    results, after, before = forked(lambda: history(it))
    ctx.runs += len(it)
    ctx.nontrivial += 1
    for i, (n, r) in enumerate(zip(it, results)):
        ctx.outcome(r)
        if r != ref(n):
            raise Bad("after %s the call %r gives %r; as the first call: %r" % (list(it[:i]), n, r, ref(n)))
    if after != before:
        k = [k for k in after if after[k] != before[k]][0]
        raise Bad("after %s the caller's object %r is changed: %s -> %s" % (list(it), k, before[k], after[k]))


def items(n, names):
    return itertools.product(names, repeat=n)


# the same document again and again, with everything the alphabet has in between

def again_items():
    for a in C:
        for k in (2, 3, 10):
            yield (a,) * k
    for a in CORE:
        yield tuple(x for b in C for x in (b, a))
    yield tuple(C)
    yield tuple(reversed(list(C)))


# any two documents

def _docs():
    from mc import ast, doc, hdoc, rstdoc
    f = ast.Fill()
    d = {}
    for k, v in doc.VARIANTS.items():
        d["creole", k] = v(f, True)[1]
    for k, b in hdoc.BLOCKS.items():
        d["html", k] = b[1](f)
    for k, b in rstdoc.BLOCKS.items():
        d["rest", k] = rstdoc.fill(b + "\n")
    return d


DOCS = {}
CONVERT = {"creole": [creole2html], "html": list(H.values()), "rest": [lambda s: rest2html(s, report_level=5)]}


def docs():
    if not DOCS:
        DOCS.update(_docs())
    return DOCS


def pair_items():
    keys = list(docs())
    for a in keys:
        for b in keys:
            if a[0] == b[0]:
                yield a, b


def convert(key):
    s = docs()[key]
    return [outcome(lambda: f(s)) for f in CONVERT[key[0]]]


def pair_judge(it, ctx):
    a, b = it
    if it[1] not in REF:
        REF[b] = forked(lambda: convert(b))
    want = REF[b]

    def run():
        convert(a)
        return convert(b)
    got = forked(run)
    ctx.runs += 2 * len(want)
    ctx.nontrivial += 1
    ctx.outcome(repr(got))
    if got != want:
        raise Bad("%r gives %r after %r; as the first document: %r" % (docs()[b], got, docs()[a], want))


# short texts: any two which share or nearly share what they contain; all in one process, each compared with a fresh one

SHORT = {
    "creole": ["q", "**q**", "//q//", "[[q]]", "[[q|r]]", "[[r|q]]", "[[/q]]", "{{q}}", "{{q|r}}", "{{r|q}}", "{{q|r|1x2}}", "http://q.org", "= q", "== q", "* q", "# q", "** q", "|q|", "|=q|", "{{{q}}}", "{{{\nq\n}}}", "----", "~*q",
               "<<m>>", "<<m a=1>>", "<<m a=2>>", "<<m>>q<</m>>", "<<toc>>", "<<toc depth=1>>", "<<q>>", "q\\\\r", "q\nr", "q\n\nr", "<i>q</i>", "&lt;", "q r", "##q##", "^^q^^", "<<fails>>", "= r", "<<m 1>>"],
    "html": ["q", "<b>q</b>", "<i>q</i>", '<a href="q">r</a>', '<a href="r">r</a>', '<a href="r">q</a>', '<img src="q">', '<img src="q" alt="r">', '<img src="r" alt="q">', "<h1>q</h1>", "<h2>q</h2>", "<ul><li>q</li></ul>", "<ol><li>q</li></ol>",
             "<table><tr><td>q</td></tr></table>", "<table><tr><th>q</th></tr></table>", "<pre>q</pre>", "<pre>&#65;</pre>", "<pre>&#x65;</pre>", "<pre>&amp;</pre>", "<p>&amp;</p>", "<p>&#65;</p>", "<p>&#x65;</p>", "<p>&foo;</p>", "<hr>", "q<br>r", "<x>q</x>",
             '<x a="1">q</x>', "<y>q</y>", "<tt>q</tt>", "<sup>q</sup>", "<p>q", "</p>", "<ul><li>q", "<pre>q", "<p>q</p>", "<p>q</p><p>r</p>", "<script>q</script>", "<!-- q -->", "<code>q</code>", '<a href="q"><img src="r"></a>', '<a href="q"><img src="q"></a>', "&lt;q", "<strike>q</strike>", "<pre>&#65; &#x41;</pre>", "<pre>&#x41;</pre>", "<pre>&lt;</pre>"],
    "rest": ["q", "*q*", "**q**", "``q``", "`q`", "q_\n\n.. _q: /r\n", "q_", "`q <r>`_", "`q <s>`_", "|q|\n\n.. |q| replace:: r\n", "|q|", "q\n=\n", "r\n=\n\nq\n-\n", "- q", "1. q", "::\n\n  q\n", ":sub:`q`", ".. role:: q\n\n:q:`r`\n", ":q:`r`", "[1]_\n\n.. [1] q\n", "[#]_\n\n.. [#] q\n",
             ".. image:: q", ".. _q:\n\nr\n=\n\nq_\n", ".. default-role:: strong\n\n`q`\n", ".. code:: python\n\n   q\n", ".. class:: q\n\nr\n", "q\n  r\n", ":q: r", "q [r]_", ".. note:: q", "__ /r\n\nq__\n"],
}


def short_items(n):
    for kind, texts in SHORT.items():
        yield from ((kind,) + t for t in itertools.product(range(len(texts)), repeat=n))


def short_call(kind, i):
    s = SHORT[kind][i]
    if kind == "creole":
        return [outcome(lambda: creole2html(s)), outcome(lambda: creole2html(s, macros=ENV["shared"], verbose=2, stderr=io.StringIO())), outcome(lambda: creole2html(s, blog_line_breaks=False, strict=True))]
    if kind == "rest":
        return [outcome(lambda: rest2html(s, report_level=5))]
    return [outcome(lambda: f(s)) for f in H.values()] + [outcome(lambda: html2creole(s, strict=True, unknown_emit=use_html_macro))]


def short_judge(it, ctx):
    kind, seq = it[0], it[1:]
    for i in seq:
        if (kind, i) not in REF:
            def first(i=i):
                fresh()
                return short_call(kind, i)
            REF[kind, i] = forked(first)

    def run():
        fresh()
        return [short_call(kind, i) for i in seq]
    for i, r in zip(seq, forked(run)):
        ctx.runs += len(r)
        ctx.outcome(repr(r))
        if r != REF[kind, i]:
            raise Bad("after %r the text %r gives %r; as the first text: %r" % ([SHORT[kind][k] for k in seq], SHORT[kind][i], r, REF[kind, i]))
    ctx.nontrivial += 1


# a document and nearly the same one: one character is different

def show(text=None, *args, **kw):
    return "%r %r %r" % (text, args, sorted(kw.items()))


NEAR = {
    "creole": ['<<m a="k  l" b=\'M n\' c=1>>t u<</m>> <<m d=True>>v<</m>>', "<<m a='k l'>>\nt\n\nu\n<</m>>\n\n<<toc depth=2>>\n= k\n== l m", "[[http://K.org/L?m=1#n|t  u]] [[W x|y]] {{i.png|t u|10x20}}", "|=K l|m\n|n \\\\ o|{{{p  q}}}",
               "= K l =\n\n* m **n o**\n** p //q r//\n# s", "{{{\nK  l\n  m\n}}}\n<i>n</i> &amp; ~* o", "##k l## ^^m^^ ,,n,, __o__ --p-- http://q.org/r. mailto:s@t"],
    "html": ['<p><a href="http://K.org/L m?n=1&amp;o" title="p  q">r  s</a> <img src="I.png" alt="t u" width="10" height="20"></p>', "<h2>K l</h2><ul><li>m<ol><li>n</li></ol></li></ul>", "<table><tr><th>K</th><td>l  m<br>n</td></tr></table>", "<pre>K  l\n m</pre><p>n &auml; &#228; &#xe4; &Auml;</p>",
             '<p><x a="K l" b=2>m</x><y c>n</y></p>', "<p>K <b>l m</b> <i>n</i> <tt>o</tt> <sup>p</sup> <a href='/K'>l</a> <a href='/m'>n</a></p>"],
    "rest": ["K l\n===\n\nm `n o <http://P.org/q>`_ r_ |s| [1]_\n\n.. _r: /T\n.. |s| replace:: u\n.. [1] v\n", ".. image:: I.png\n   :alt: k  l\n   :width: 10\n\n- m\n\n  1. *n* **o**\n", "== ==\nK  l\n== ==\nm  n\n== ==\n\n::\n\n  o  p\n", ".. code:: python\n\n  K = 1\n\n.. class:: l\n\n``m  n`` :sub:`o`\n"],
}


def variants(s):
    """All texts with one character changed: another letter, the other case, the next digit, other quotes, more white space, one character less"""
    d = {}
    for i, c in enumerate(s):
        new = [c.swapcase(), "z"] if c.isalpha() else [chr(49 + (ord(c) - 48) % 8), "0" + c] if c.isdigit() else ["'" if c == '"' else '"'] if c in "'\"" else [c + c, c + c + c] if c == " " else [c + "\n"] if c == "\n" else []
        for n in new + [""]:
            d.setdefault(s[:i] + n + s[i + 1:], i)
    d.pop(s, None)
    return list(d)


def near_items():
    for kind, texts in NEAR.items():
        for i, s in enumerate(texts):
            n = len(variants(s))
            for lo in range(0, n, 4):
                yield kind, i, lo, min(lo + 4, n)


def near_call(kind, s):
    if kind == "creole":
        return [outcome(lambda: creole2html(s, macros={"m": show})), outcome(lambda: creole2html(s, macros=ENV["shared"], blog_line_breaks=False, strict=True))]
    if kind == "rest":
        return [outcome(lambda: rest2html(s, report_level=5)), outcome(lambda: pypi_rest2html(s))]
    return [outcome(lambda: f(s)) for f in H.values()] + [outcome(lambda: html2creole(s, strict=True, unknown_emit=use_html_macro)), outcome(lambda: strip_html(s)), outcome(lambda: ENV["deentity"].replace_all(s))]


def near_run(kind, texts):
    def run():
        fresh()
        return [near_call(kind, s) for s in texts]
    return forked(run)


def near_judge(it, ctx):
    kind, i, lo, hi = it
    base = NEAR[kind][i]
    if (kind, i, "near") not in REF:
        REF[kind, i, "near"] = near_run(kind, [base])[0]
    for var in variants(base)[lo:hi]:
        want = {base: REF[kind, i, "near"], var: near_run(kind, [var])[0]}
        for seq in ([base, var, base], [var, base, var]):
            got = near_run(kind, seq)
            ctx.runs += sum(map(len, got))
            ctx.nontrivial += want[base] != want[var]
            ctx.outcome(repr(got))
            for s, g in zip(seq, got):
                if g != want[s]:
                    raise Bad("one after the other %r: %r gives %r; as the first text: %r" % (seq, s, g, want[s]))


def spaces(tier):
    q = tier == "quick"
    return [
        Space("pairs", lambda: items(2, C), judge, rule="all pairs of %d calls" % len(C)),
        Space("again", again_items, judge, rule="repeated calls; all calls in a row; every call between all calls"),
        Space("short texts", lambda: short_items(2), short_judge, lambda it: [SHORT[it[0]][i] for i in it[1:]], rule="all pairs of short texts of one markup, one after the other in a new process"),
        Space("near texts", near_items, near_judge, lambda it: [NEAR[it[0]][it[1]], variants(NEAR[it[0]][it[1]])[it[2]:it[3]]], rule="each text and each one which differs in one character, one after the other in a new process"),
        Space("documents", pair_items, pair_judge, lambda it: [docs()[x] for x in it], rule="all pairs of documents of one markup"),
        Space("histories", lambda: items(3 if q else 3, CORE[::2] if q else CORE), judge, rule="all sequences of 3 of %d calls" % len(CORE[::2] if q else CORE)),
    ] + ([] if q else [Space("long histories", lambda: items(4, CORE[:12]), judge, rule="all sequences of 4 of 12 calls")])
