"""C22: rest2html reads no file, opens no URL and passes no markup through."""
import html as _html
import itertools
import os
import re
import shutil
import sys
import tempfile

from docutils.utils import SystemMessage

from creole.rest_tools.clean_writer import rest2html
from mc import rstdoc
from mc.engine import Space, Bad
from props.c23 import quiet

SECRET = "zzSecretzz"
DIR = None
SEEN = []


def before():
    """A scratch directory with files that must never be read; an audit hook sees every open / connection."""
    global DIR
    DIR = tempfile.mkdtemp(prefix="mc-c22.")
    for name, text in (("s.txt", SECRET + "\n"), ("s.rst", "*%s*\n" % SECRET), ("s.csv", "%s,b\n" % SECRET), ("s.html", "<b>%s</b>\n" % SECRET), ("s.py", "# %s\n" % SECRET), ("s.svg", "<svg><text>%s</text></svg>" % SECRET), ("s.css", "/* %s */" % SECRET), ("s.md", "# %s" % SECRET)):
        with open(os.path.join(DIR, name), "w") as f:
            f.write(text)
    os.chdir(DIR)
    import atexit
    import multiprocessing.util
    multiprocessing.util.Finalize(None, shutil.rmtree, args=(DIR,), kwargs={"ignore_errors": True}, exitpriority=1)
    atexit.register(shutil.rmtree, DIR, True)

    def hook(event, args):
        if event == "open" and isinstance(args[0], str) and args[0] != "./docutils.conf" and (args[0].startswith(DIR) or not args[0].startswith("/")):
            SEEN.append("open %s" % args[0])
        elif event in ("socket.connect", "socket.getaddrinfo", "urllib.Request", "subprocess.Popen", "os.system", "os.exec"):
            SEEN.append("%s %r" % (event, args[:1]))
            raise PermissionError("no network, no processes")
    sys.addaudithook(hook)


# ------------------------------------------------------------------ directives

PATHS = ("s.%s", "./s.%s", "@/s.%s", "file://@/s.%s", "<isonum.txt>", "http://127.0.0.1:9/s.%s", "../s.%s", "S.%s")


MATH = ["\\text{%s}", "\\mbox{%s}", "\\textbf{a %s c}", "\\url{%s}", "\\href{%s}{x}", "\\textcolor{%s}{x}", "\\color{%s} x", "\\begin{%s}x\\end{%s}", "\\hspace{%s}", "\\rule{%s}{1}", "\\raisebox{%s}{x}", "\\unknown{%s}", "\\frac{%s}{%s}", "\\left%s\\right)", "\\sqrt[%s]{%s}", "x^{%s}", "\\textit{\\text{%s}}", "\\begin{matrix}%s&%s\\end{matrix}", "\\ensuremath{%s}", "\\mathrm{%s}", "\\tag{%s}", "\\label{%s}", "\\boxed{%s}", "\\framebox[%s][%s]{%s}", "\\underset{%s}{%s}", "\\bigl%s x", "$%s$", "%s"]
MATH = [m.replace("%s", x) for m in MATH for x in ("<b>EVIL</b>", "<script>EVIL", "\\textless{}b\\textgreater{}EVIL", "&EVIL;", "\" x=\"EVIL", "a < b & c", "'><i x=y>", "&lt;b&gt;")]


def directives():
    out = {}
    for n, p in enumerate(PATHS):
        for opts in ((), (":literal:",), (":code: python",), (":code:", ":number-lines:"), (":start-line: 0",), (":end-line: 1",), (":start-after: x",), (":encoding: utf-8",), (":tab-width: 4",), (":parser: rst",), (":literal:", ":name: x", ":class: y")):
            out["include %d %s" % (n, " ".join(opts))] = ".. include:: %s" % (p % "rst" if "%" in p else p) + "".join("\n   " + o for o in opts)
        ext = lambda e: p % e if "%" in p else p
        for kind in ("file", "url"):
            out["raw %s %d" % (kind, n)] = ".. raw:: html\n   :%s: %s" % (kind, ext("html"))
            out["csv %s %d" % (kind, n)] = ".. csv-table:: t\n   :%s: %s" % (kind, ext("csv"))
            out["csvh %s %d" % (kind, n)] = ".. csv-table::\n   :header-rows: 1\n   :encoding: utf-8\n   :delim: ;\n   :%s: %s" % (kind, ext("csv"))
        for e in ("svg", "txt", "html"):
            out["image %d %s" % (n, e)] = ".. image:: %s" % ext(e)
            out["imgs %d %s" % (n, e)] = ".. image:: %s\n   :scale: 50" % ext(e)
            out["fig %d %s" % (n, e)] = ".. figure:: %s\n   :figwidth: image\n\n   c" % ext(e)
            out["imgl %d %s" % (n, e)] = ".. image:: %s\n   :loading: embed" % ext(e)
        out["code %d" % n] = ".. code:: python\n   :file: %s" % ext("py")
        out["math %d" % n] = ".. math:: \\input{%s}" % ext("txt")
        out["subst %d" % n] = "|x|\n\n.. |x| include:: %s" % ext("txt")
        out["parsed %d" % n] = ".. parsed-literal::\n   :file: %s\n\n   x" % ext("txt")
        out["meta %d" % n] = ".. meta::\n   :http-equiv=refresh: %s" % ext("html")
    for i, m in enumerate(MATH):
        out["mathcmd %d" % i] = ".. math:: " + m
        out["mathinl %d" % i] = ":math:`%s`" % m
    for body in ("<b>EVIL</b>", "<script>EVIL</script>", "&EVIL;<i x=\"y\">", "</p></div>EVIL", "<!-- EVIL -->", "EVIL"):
        out["raw " + body] = ".. raw:: html\n\n   " + body
        out["raw2 " + body] = ".. raw:: html latex\n\n   " + body
        out["RAW " + body] = ".. RAW:: html\n\n   " + body
        out["rawopt " + body] = ".. raw:: html\n   :class: x\n\n   " + body
        out["rawsub " + body] = "|x|\n\n.. |x| raw:: html\n\n   " + body
        for fmt in ("html", "html4css1", "xml html"):
            out["role %s %s" % (fmt, body)] = ".. role:: rw(raw)\n   :format: %s\n\n:rw:`%s`" % (fmt, body)
        out["rolecls " + body] = ".. role:: rw(raw)\n   :format: html\n   :class: y\n\n:rw:`%s`" % body
        out["rolerole " + body] = ".. role:: r1(raw)\n   :format: html\n\n.. role:: r2(r1)\n\n:r2:`%s`" % body
        out["default " + body] = ".. role:: rw(raw)\n   :format: html\n\n.. default-role:: rw\n\n`%s`" % body
        out["rawrole " + body] = ":raw:`%s`" % body
        out["defraw " + body] = ".. default-role:: raw\n\n`%s`" % body
        out["rolesub " + body] = ".. role:: rw(raw)\n   :format: html\n\n|x|\n\n.. |x| replace:: :rw:`%s`" % body
        out["code " + body] = ".. code:: html\n\n   " + body
        out["coderole " + body] = ".. role:: h(code)\n   :language: html\n\n:h:`%s`" % body
        out["repl " + body] = "|x|\n\n.. |x| replace:: %s" % body
        out["uni " + body] = "|x|\n\n.. |x| unicode:: %s" % body
        out["date " + body] = "|x|\n\n.. |x| date:: %s" % body
        out["math " + body] = ".. math:: %s" % body
        out["mathtext " + body] = ".. math:: \\text{%s}" % body
        out["mathrole " + body] = ":math:`\\mbox{%s}`" % body
        out["prob " + body] = "*%s" % body
        out["unknown " + body] = ".. foo:: %s\n   :x: %s\n\n   %s" % (body, body, body)
        out["unkrole " + body] = ":%s:`%s` |%s| [%s]_ `%s`_" % ((body,) * 5)
        out["opterr " + body] = ".. image:: x\n   :width: %s" % body
        out["widths " + body] = ".. table::\n   :widths: %s\n\n   === ===\n   a   b\n   === ===" % body
        out["imgopts " + body] = ".. image:: %s\n   :alt: %s\n   :target: %s" % (body, body, body)
        out["class " + body] = ".. class:: %s\n\nx" % body
        out["name " + body] = ".. note::\n   :name: %s\n\n   x" % body
        out["codelang " + body] = ".. code:: %s\n\n   x" % body
        out["links " + body] = "`%s <%s>`__ _`%s` %s@a.org http://x/%s" % ((body.replace("<", "\\<").replace(">", "\\>"),) * 5)
        out["linkraw " + body] = "`x <http://u/%s>`__" % body
        out["target " + body] = ".. _`t`: %s\n\nt_" % body
        out["title " + body] = "%s\n%s\n\n.. contents:: %s\n\n%s\n%s" % (body, "=" * 30, body, body, "-" * 30)
        out["comment " + body] = ".. %s\n   --> %s" % (body, body)
        out["meta " + body] = ".. meta::\n   :%s: %s" % (body, body)
        out["header " + body] = ".. header:: %s" % body
        out["titledir " + body] = ".. title:: %s" % body
        out["lists " + body] = "- %s\n\n1. %s\n\n%s : %s\n  %s\n\n:%s: %s\n\n-a  %s\n\n| %s\n\n>>> %s\n\n::\n\n  %s\n\n``%s`` *%s*" % ((body,) * 13)
        out["tables " + body] = ".. table:: %s\n\n   ========================== ===\n   %s\n   ========================== ===\n   %s\n   ========================== ===\n\n.. csv-table:: %s\n   :header: '%s'\n   :quote: '\n\n   '%s'\n\n.. list-table:: %s\n\n   * - %s" % ((body,) * 8)
        out["blocks " + body] = ".. note:: %s\n\n.. admonition:: %s\n\n   %s\n\n.. topic:: %s\n\n   %s\n\n.. sidebar:: %s\n   :subtitle: %s\n\n   %s\n\n.. rubric:: %s\n\n.. figure:: x\n\n   %s\n\n   %s\n\n.. [#] %s\n\n.. [C] %s" % ((body,) * 13)
        out["docinfo " + body] = ":author: %s\n:contact: %s\n:address: %s\n:%s: %s" % ((body,) * 5)
    return out


DIRECTIVES = directives()
FILES = [k for k in DIRECTIVES if k.split()[0] in ("include", "csv", "csvh", "image", "imgs", "imgl", "fig", "subst") or "file" in k or "url" in k]
ELEMENTS = {"p", "em", "strong", "tt", "a", "img", "ul", "ol", "li", "dl", "dt", "dd", "table", "tr", "td", "th", "colgroup", "col", "tbody", "pre", "h1", "h2", "h3", "h4", "h5", "h6", "hr", "br", "span", "sub", "sup", "cite", "code", "i", "object", "caption", "kbd", "var", "abbr", "acronym", "small", "b"}
ATTRS = {"href", "src", "alt", "style", "align", "width", "height", "valign", "border", "rowspan", "colspan", "data", "type", "name", "cellpadding", "cellspacing", "title"}
TAG = re.compile(r"<(/?)([a-z][a-z0-9]*)((?:\s+[a-z-]+=\"[^\"<>]*\")*)\s*(/?)>|<!--((?:[^-]|-(?!-))*)-->|([^<]+)|(<)")
ATT = re.compile(r'\s+([a-z-]+)="([^"]*)"')
OPENS = {}


def markup(html):
    """Only docutils' own elements and attributes; the word EVIL only in text, attribute values and comments."""
    for m in TAG.finditer(html):
        end, tag, atts, slash, comment, text, bad = m.groups()
        if bad:
            raise Bad("markup from the source in %r" % html)
        if text is not None:
            if ">" in text:
                raise Bad("unescaped > in %r" % html)
            if re.search(r"&(?![a-z]+[0-9]*;|#[0-9]+;)", text) or "&EVIL;" in text:
                raise Bad("unescaped & in %r" % html)
        elif tag is not None:
            if tag not in ELEMENTS or tag == "b" and "EVIL" in html[m.end():m.end() + 5] or any(a not in ATTRS for a, v in ATT.findall(atts)):
                raise Bad("element <%s%s> in %r" % (tag, atts, html))
            if tag == "i" and "x=" in atts:
                raise Bad("element from the source in %r" % html)


def judge(src, ctx, **k):
    del SEEN[:]
    try:
        out = quiet(rest2html, src, **k)
    except SystemMessage as e:
        out = ""
    ctx.runs += 1
    ctx.outcome(out)
    if SEEN:
        raise Bad("the conversion accesses %s" % SEEN)
    if SECRET in out:
        raise Bad("content of a file in %r" % out)
    if "isonum" not in src and "½" in out or "frac12" in out:
        raise Bad("content of an include file in %r" % out)
    markup(out)
    ctx.nontrivial += 1


def escape_bodies(text):
    """Where the source says so, the text comes out as it was written."""


def items(depth, names):
    for top in rstdoc.TOPC:
        for d in range(depth + 1):
            for cs in itertools.product(rstdoc.CONTAINERS, repeat=d):
                for n in names:
                    yield (top,) + cs + (n,)


def src(it):
    body = DIRECTIVES[it[-1]].replace("@", DIR or "/scratch")
    for c in reversed(it[1:-1]):
        body = rstdoc.CONTAINERS[c](body)
    return rstdoc.fill(rstdoc.TOPC[it[0]](body) + "\n")


SHORT = ["include 2 ", "include 0 :literal:", "include 4 ", "raw file 2", "raw url 3", "csv file 2", "csv url 3", "subst 2", "imgs 2 svg", "raw <b>EVIL</b>", "rawsub <b>EVIL</b>", "role html <b>EVIL</b>", "default <b>EVIL</b>", "code <b>EVIL</b>", "prob <script>EVIL</script>", "unknown <b>EVIL</b>", "imgopts &EVIL;<i x=\"y\">"]

# text positions: what is written there comes back decoded

CHARS = ["<b>", "</p>", "&lt;", "&amp;", "&", "<", ">", "\"", "'", "<!--", "-->", "<br/>", "&#60;", "<script>", "x"]
POSITIONS = ["p", "li", "cell", "dt", "dd", "fbody", "line", "cap", "rubric", "adm", "ttitle", "head", "topic", "parsed", "note", "headc", "fn", "opt", "th", "csv"]
VERBATIM = {"lit": "``q %s q``", "litblock": "::\n\n   q %s q", "code": ".. code::\n\n   q %s q", "codehtml": ".. code:: html\n\n   q %s q", "doctest": ">>> q %s q", "alt": ".. image:: /i.png\n   :alt: q %s q", "em": "*q %s q*", "strong": "**q %s q**", "link": "`q \\%s q <http://u/>`__", "role": ":sub:`q %s q`", "sp": ".. role:: x\n\n:x:`q %s q`"}


def text_items(n):
    for k in range(1, n + 1):
        for w in itertools.product(range(len(CHARS)), repeat=k):
            for p in POSITIONS:
                yield "ctx", p, w
            for p in VERBATIM:
                yield "own", p, w


def text_src(it):
    kind, p, w = it
    text = "".join(CHARS[i] for i in w)
    if kind == "own":
        return rstdoc.fill(VERBATIM[p].replace("%s", text) + "\n")
    if p == "csv":
        return ".. csv-table::\n   :quote: ~\n\n   ~q %s q~" % text
    return rstdoc.fill(rstdoc.inctx(p, "q %s q" % text) + "\n")


def text_judge(it, ctx):
    s = text_src(it)
    judge(s, ctx)
    kind, p, w = it
    text = "".join(CHARS[i] for i in w)
    out = quiet(rest2html, s)
    plain = _html.unescape(re.sub(r"<[^<>]*>", "", out)) if p != "alt" else _html.unescape(out)
    plain = " ".join(plain.replace("\u201c", '"').split())
    if p == "link" and text[0] in "x":
        return
    if "q %s q" % " ".join(text.split()) not in plain:
        raise Bad("the text %r is not in %r" % (text, out))


# docutils settings which have nothing to do with files or raw text leave both switched off

OPTIONS = [{"report_level": 5}, {"report_level": 1}, {"halt_level": 5}, {"halt_level": 4, "report_level": 5}, {"doctitle_xform": True}, {"doctitle_xform": False}, {"sectsubtitle_xform": True}, {"initial_header_level": 2},
           {"footnote_references": "superscript"}, {"tab_width": 4}, {"id_prefix": "x"}, {"strip_comments": True}, {"toc_backlinks": False}, {"smart_quotes": True}, {"syntax_highlight": "none"}, {"table_style": "x"},
           {"language_code": "de"}, {"datestamp": None}, {"source_link": None}, {"enable_exit_status": None}, {"cloak_email_addresses": True}, {"trim_footnote_reference_space": True}, {"character_level_inline_markup": True},
           {"line_length_limit": 10000}, {"pep_references": True}, {"rfc_references": True}, {"field_name_limit": 5}, {"attribution": "none"}, {"compact_lists": False}, {"math_output": "LaTeX"}, {"strict_visitor": False},
           {"report_level": 5, "halt_level": 5, "doctitle_xform": False}, {}]


def option_items(names, keys):
    for o in keys:
        for n in names:
            yield o, n


def option_src(it):
    return src(("none", it[1]))


def option_judge(it, ctx):
    judge(option_src(it), ctx, **OPTIONS[it[0]])


def spaces(tier):
    q = tier == "quick"
    J = lambda it, ctx: judge(src(it), ctx)
    return [
        Space("plain", lambda: items(0, DIRECTIVES), J, src, rule="%d directives/roles x path spellings x options x %d top positions" % (len(DIRECTIVES), len(rstdoc.TOPC))),
        Space("nested", lambda: items(1, DIRECTIVES) if not q else (it for it in items(1, DIRECTIVES) if it[0] == "none" or it[-1] in SHORT), J, src, rule="the same in every container"),
        Space("settings", lambda: option_items([n for n in DIRECTIVES if n in FILES or n in SHORT or n.startswith("r")], range(len(OPTIONS))), option_judge, option_src, rule="%d other settings x every directive and role with files or raw text" % len(OPTIONS)),
        Space("nested twice", lambda: (it for it in items(2, SHORT if q else FILES[::1]) if len(it) == 4 and (it[0] == "none" or not q and it[-1] in SHORT)), J, src, rule="selected directives in two nested containers"),
        Space("characters", lambda: text_items(2 if q else 3), text_judge, text_src, rule="all sequences of <= %d of %d markup pieces in %d text positions: the text is kept" % (2 if q else 3, len(CHARS), len(POSITIONS) + len(VERBATIM))),
    ]
