"""C28: concurrent conversions do not interfere."""
import itertools
import os
import pickle

from mc import sched

with sched.coop_locks():
    import creole
    from creole import creole2html, html2creole, html2markdown, html2rest, html2textile
    from creole.html_tools.deentity import Deentity
    from creole.html_tools.strip_html import strip_html
    from creole.parser.creol2html_rules import BlockRules
    from creole.rest_tools.clean_writer import rest2html
    from creole.rest_tools.pypi_rest2html import pypi_rest2html
    from creole.shared.unknown_tags import escape_unknown_nodes, raise_unknown_node, use_html_macro
    from creole.shared.diff_utils import unified_diff
    from creole.shared.utils import dict2string, string2dict
    from creole.shared import example_macros
from mc.engine import Space, Bad, REPO
from props.c27 import forked

ROOT = os.path.join(os.path.realpath(REPO), "creole") + os.sep


def hello(text=None, **kw):
    return "hello(%r, %r)" % (text, sorted(kw.items()))


def fails(text=None, **kw):
    raise ValueError("no " + str(text))


MACROS = {"m": hello, "fails": fails, "html": example_macros.html}
RULES = BlockRules(blog_line_breaks=False)

CREOLE = {
    "p": "a **b** //c//\nd", "p2": "x ##y\nz", "toc": "<<toc>>\n= a\n== b", "toc2": "= c\n<<toc 1>>\n= d", "list": "* a\n** b\n# c", "list2": "# x\n## y\n* z", "table": "|=a|b\n|c\\\\d|e", "table2": "|x|=y|z",
    "link": "[[/u|l]] http://a.b/ {{i.png|x}}", "link2": "[[v]] {{{n}}} ~* k", "macro": "<<m x=1>>t<</m>> <<fails>>", "args": "<<m x=1>>k<</m>> <<m x=1>>l<</m>>", "args2": "<<m x=1>>o<</m>> <<m x=1>>\np\n<</m>>", "macro2": "<<m y=2>>\nu\n<</m>>\n\n<<html>><b><</html>>", "pre": "{{{\na\n}}}\n----\n=== h", "pre2": "{{{\nx\n}}}\ny",
}
HTML = {
    "p": "<p>a <b>b</b><br>c</p>", "p2": "<p><i>x</i> y</p><p>z</p>", "list": "<ul><li>a<ol><li>b</li></ol></li></ul>", "list2": "<ol><li>x<ul><li>y</li></ul></li><li>z</li></ol>", "table": "<table><tr><th>a</th></tr><tr><td>b<br>c</td></tr></table>", "table2": "<table><tr><td>x</td><td>yy</td></tr></table>",
    "link": '<p><a href="/u">l</a> <img src="i.png" alt="x"></p>', "link2": '<p><a href="/v">k</a> <img src="j.png" alt="y"></p>', "pre": "<pre>a\n\nb</pre><hr><h2>c</h2>", "pre2": "<pre>x</pre><script>y</script>z", "unknown": "<p><foo>a</foo> &auml; &#228;</p>", "unknown2": "<p><bar x=1>b</bar> &ouml; &foo;</p>",
    # the same targets, names and attributes with different texts
    "keys": '<p><a href="/u">k</a> <img src="i.png" alt="l"> <foo a=1>m</foo></p>', "keys2": '<p><a href="/u">n</a> <img src="i.png" alt="o"> <foo a=1>p</foo></p>',
}
REST = {
    "keys": "`k </u>`_ l_ |m|\n\n.. _l: /v\n.. |m| replace:: n\n", "keys2": "`o </u>`_ l_ |m|\n\n.. _l: /w\n.. |m| replace:: p\n",
    "p": "a *b* **c**\n\n| d\n| e\n", "list": "- a\n\n  1. b\n", "link": "`l </u>`_ k_ [1]_\n\n.. _k: /v\n.. [1] f\n", "role": ".. role:: xx\n\n:xx:`a`\n", "role used": ":xx:`a`\n", "default": ".. default-role:: strong\n\n`a`\n", "img": ".. image:: i.png\n   :alt: x\n", "math": ":math:`a<b`\n\n:a: b\n", "fails": "`a` *b\n", "table": "== ==\na  b\n== ==\nc  d\n== ==\n", "head": "a\n=\n\nb\n-\n",
}


def catch(f):
    def run():
        try:
            return f()
        except (Exception, SystemExit) as e:
            if isinstance(e, sched.Deadlock):
                raise
            return "%s: %s" % (type(e).__name__, e)
    return run


CALLS = {}
for k, s in CREOLE.items():
    CALLS["creole2html", k] = catch(lambda s=s: creole2html(s, macros=MACROS, verbose=1))
CALLS["creole2html", "rules"] = catch(lambda: creole2html("a\nb\n* c\nd", block_rules=RULES))
CALLS["creole2html", "wiki"] = catch(lambda: creole2html("a\nb\n* c\nd", blog_line_breaks=False))
CALLS["creole2html", "strict"] = catch(lambda: creole2html("a ##b## ^^c^^", strict=True))
for k, s in HTML.items():
    CALLS["html2creole", k] = catch(lambda s=s: html2creole(s))
    CALLS["html2rest", k] = catch(lambda s=s: html2rest(s))
    CALLS["html2textile", k] = catch(lambda s=s: html2textile(s))
    CALLS["html2markdown", k] = catch(lambda s=s: html2markdown(s))
CALLS["html2creole", "escape"] = catch(lambda: html2creole(HTML["unknown2"], unknown_emit=escape_unknown_nodes))
CALLS["html2creole", "html"] = catch(lambda: html2creole(HTML["unknown"], unknown_emit=use_html_macro))
CALLS["html2rest", "raise"] = catch(lambda: html2rest('<ul><li><a href="/u">l</a><foo>a', unknown_emit=raise_unknown_node))
CALLS["html2rest", "dup"] = catch(lambda: html2rest('<p><a href="/u">l</a> <a href="/v">l</a></p>'))
for k, s in REST.items():
    CALLS["rest2html", k] = catch(lambda s=s: rest2html(s, report_level=5, halt_level=3 if k != "fails" else 2))
    CALLS["pypi_rest2html", k] = catch(lambda s=s: pypi_rest2html(s))
CALLS["utils", "string2dict"] = catch(lambda: string2dict("a=1 b='x y'"))
CALLS["utils", "string2dict2"] = catch(lambda: string2dict("a=2 c=True"))
CALLS["utils", "dict2string"] = catch(lambda: dict2string({"a": 1, "b": "c"}))
CALLS["utils", "strip"] = catch(lambda: strip_html("<p> a <b> c</b>\n</p> <ul> <li> d"))
CALLS["utils", "strip2"] = catch(lambda: strip_html("<h1>x </h1> <p>y"))
CALLS["utils", "deentity"] = catch(lambda: Deentity().replace_all("&auml; &#228; &foo;"))
CALLS["utils", "deentity2"] = catch(lambda: Deentity().replace_all("&#xe4; &lt;"))
CALLS["utils", "diff"] = catch(lambda: unified_diff("a\nb", "a\nc\n"))

WARM = set()
REFS = {}


def warm():
    """Not in the middle of an exploration: the first use of opcode events, and modules which are imported on first use"""
    if not WARM:
        WARM.add(1)
        for f in CALLS.values():
            f()
        for _ in range(2):
            sched.points(CALLS["creole2html", "pre"], ROOT, "ops")


def ref(name, mode="lines"):
    """(number of scheduling points, result) of the call alone"""
    if (name, mode) not in REFS:
        REFS[name, mode] = sched.points(CALLS[name], ROOT, mode)
    return REFS[name, mode]


def coldref(name, mode):
    if ("cold", name, mode) not in REFS:
        REFS["cold", name, mode] = forked(lambda: sched.points(CALLS[name], ROOT, mode))
    return REFS["cold", name, mode]


def execute(names, plan, mode):
    r = sched.Run([CALLS[n] for n in names], plan, ROOT, mode)
    got = r.go()
    return [repr(g) if isinstance(g, BaseException) else g for g in got], r.error, r.switches


def check(names, plan, mode, ctx, cold=False):
    if cold:
        want = [coldref(n, mode)[1] for n in names]
        got, err, sw = forked(lambda: execute(names, plan, mode))
    else:
        warm()
        want = [ref(n, mode)[1] for n in names]
        got, err, sw = execute(names, plan, mode)
    ctx.runs += 1
    ctx.extra["context switches"] += sw
    ctx.outcome(repr(got))
    if err:
        raise Bad("%s; results: %r" % (err, got))
    for n, g, w in zip(names, got, want):
        if g != w:
            raise Bad("%r gives %r, alone: %r (threads %s, preempted after %s)" % (n, g, w, list(names), list(plan)))


# one preemption: the first thread stops after any point, the second one runs to its end

def one_items(select, mode, cold=False):
    warm() if not cold else None
    for a, b in select():
        n = (coldref if cold else ref)(a, mode)[0]
        for lo in range(1, n + 1, 20):
            yield (a, b), lo, min(lo + 20, n + 1)


def one_judge(mode, cold=False):
    def judge(it, ctx):
        names, lo, hi = it
        for i in range(lo, hi):
            check(names, [(0, i)], mode, ctx, cold)
        ctx.nontrivial += 1
    return judge


# two preemptions: a | b | a to its end | b

def two_items(select, mode):
    warm()
    for a, b in select():
        for i in range(1, ref(a, mode)[0] + 1):
            yield (a, b), i


def two_judge(mode):
    def judge(it, ctx):
        names, i = it
        for j in range(1, ref(names[1], mode)[0]):
            check(names, [(0, i), (1, j)], mode, ctx)
        ctx.nontrivial += 1
    return judge


# three threads: a | b | c to its end | a or b first

def three_items(select, mode):
    warm()
    for names in select():
        for i in range(1, ref(names[0], mode)[0] + 1):
            yield names, i


def three_judge(mode):
    def judge(it, ctx):
        names, i = it
        for j in range(1, ref(names[1], mode)[0]):
            check(names, [(0, i), (1, j), (2, 1 << 60), (1, 1 << 60)], mode, ctx)
            check(names, [(0, i), (1, j), (2, 1 << 60), (0, 1 << 60)], mode, ctx)
        ctx.nontrivial += 1
    return judge


KINDS = ("creole2html", "html2creole", "html2rest", "html2textile", "html2markdown", "rest2html", "pypi_rest2html", "utils")


def of(kind):
    return [c for c in CALLS if c[0] == kind]


def neighbours():
    """Each call with itself and with the next one of its converter"""
    for k in KINDS:
        m = of(k)
        for i, a in enumerate(m):
            for d in (0, 1):
                yield a, m[(i + d) % len(m)]


def same():
    """All pairs of calls of one converter"""
    for k in KINDS:
        for a in of(k):
            for b in of(k):
                yield a, b


def cross(n):
    """Calls of each converter with calls of each other"""
    for x in KINDS:
        for y in KINDS:
            if x != y:
                a, b = of(x), of(y)
                for i in range(n):
                    yield a[(3 * i + 2) % len(a)], b[(3 * i + 3) % len(b)]


def small(n, mode, kinds=KINDS):
    """Pairs of the n shortest calls of each converter"""
    for k in kinds:
        m = sorted(of(k), key=lambda c: ref(c, mode)[0])[:n]
        yield m[0], m[-1]


def named(*names):
    def f():
        for k in KINDS:
            m = [c for c in of(k) if c[1] in names] or of(k)[:2]
            for a, b in zip(m, m[1:] + m[:1]):
                yield a, b
    return f


def before():
    import io
    import sys
    sys.stderr = io.StringIO()


def space(name, items, judge, rule):
    return Space(name, items, judge, rule=rule)


def spaces(tier):
    q = tier == "quick"
    few = named("toc", "toc2", "link", "link2", "unknown", "role", "role used", "default")
    return [
        Space("one preemption", lambda: one_items(neighbours if q else same, "lines"), one_judge("lines"), rule="two threads with calls of one converter; the first one preempted after every call, line and return"),
        Space("converters", lambda: one_items(lambda: cross(1 if q else 12), "lines"), one_judge("lines"), rule="two threads with different converters; one preemption at every call, line and return"),
        Space("instructions", lambda: one_items(few if q else neighbours, "ops"), one_judge("ops"), rule="two threads; one preemption at every byte code instruction"),
        Space("two preemptions", lambda: two_items((lambda: small(2, "calls")) if q else few, "calls"), two_judge("calls"), rule="two threads; each preempted once at every call and return"),
        Space("first use", lambda: one_items(few if q else neighbours, "calls", True), one_judge("calls", True), rule="as above, in new processes in which nothing was converted before"),
    ] + ([] if q else [
        Space("two preemptions, lines", lambda: two_items(lambda: small(2, "lines"), "lines"), two_judge("lines"), rule="two threads; each preempted once at every call, line and return"),
        Space("three threads", lambda: three_items(lambda: [(a, b, a) for a, b in small(2, "calls")], "calls"), three_judge("calls"), rule="three threads, three preemptions"),
    ])
