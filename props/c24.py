"""C24: the strict renderer accepts exactly the documents PyPI accepts."""
import html as _html
import itertools
import re

from docutils.parsers.rst import roles

from creole.rest_tools.pypi_rest2html import pypi_rest2html
from mc import rst, rstdoc
from mc.engine import Space, Bad
from props.c22 import SECRET
from props import c22, c23
from props.c23 import quiet

ALLOWED = set("file ftp gopher hdl http https imap mailto mms news nntp prospero rsync rtsp rtspu sftp shttp sip sips snews svn svn+ssh telnet wais irc".split())
URLS = {s: s + "://h.org/p" for s in ALLOWED}
URLS.update({"mailto": "mailto:a@h.org", "news": "news:a.b", "sip": "sip:a@b", "HTTP": "HTTP://h.org/p", "Https": "Https://h.org/", "http:": "http:p", "http query": "http://h.org/p?a=b&c=d#e", "https port": "https://h.org:8/javascript:x"})
BADURLS = {"javascript": "javascript:alert(1)", "JavaScript": "JavaScript:x", "data": "data:text/html,x", "foo": "foo://h.org/", "tel": "tel:5", "httpx": "httpx://h.org/", "ttp": "ttp://h.org/", "vbscript": "vbscript:x", "about": "about:blank", "ssh": "ssh://h.org/", "git": "git://h.org/", "svn+": "svn+x://h.org/", "rel": "p/q.html", "abs": "/p/q", "net": "//h.org/p", "frag": "#f", "query": "?a=b", "dot": "../x", "urlinpath": "/http://h.org/", "space": "x y", "colon": ":x", "ws": "ws://h.org"}
DEFS = "\n\n"
LINKS = {
    "inline": "w# `w# <%s>`__ w#", "named": "w# `w# <%s>`_", "target": "w# La_ w#\n\n.. _La: %s", "anon": "w# w#__\n\n__ %s", "anon2": "w# `w# x`__\n\n.. __: %s", "indirect": "La_ Lb_\n\n.. _La: Lb_\n.. _Lb: %s", "chain": ".. _La:\n.. _Lb: %s\n\nLa_", "unused": "w#\n\n.. _La: %s", "alias": "`w# <La_>`_\n\n.. _La: %s", "phrase": "`w# x`_\n\n.. _w# x: %s",
    "img": ".. image:: %s", "imgalt": ".. image:: %s\n   :alt: w#\n   :width: 5", "fig": ".. figure:: %s\n\n   w#", "subst": "w# |La| w#\n\n.. |La| image:: %s", "imgt": ".. image:: http://h.org/x.png\n   :target: %s", "figt": ".. figure:: http://h.org/x.png\n   :target: %s\n\n   w#", "imgtname": ".. image:: http://h.org/x.png\n   :target: La_\n\n.. _La: %s", "substt": "|La|_\n\n.. |La| image:: http://h.org/x.png\n.. _La: %s", "substl": "|La|_\n\n.. |La| replace:: w#\n.. _La: %s", "substr": "|La|\n\n.. |La| replace:: `w# <%s>`__",
    "two": "`w# <http://h.org/>`__ `w# <%s>`__", "twoi": ".. image:: http://h.org/x.png\n\n.. image:: %s", "substtimg": "|La|_\n\n.. |La| image:: %s\n.. _La: http://h.org/",
    "imgbt": ".. image:: %s\n   :target: http://h.org/", "imgbtopt": ".. image:: %s\n   :alt: w#\n   :target: mailto:a@h.org", "figbt": ".. figure:: %s\n   :target: https://h.org/\n\n   w#", "imgbtname": ".. image:: %s\n   :target: La_\n\n.. _La: http://h.org/", "subsbt": "|La|\n\n.. |La| image:: %s\n   :target: http://h.org/",
}
IMAGES = {"img", "imgalt", "fig", "subst", "twoi", "substtimg", "imgbt", "imgbtopt", "figbt", "imgbtname", "subsbt"}
POS = {
    "p": "%s", "em": "*w#* %s", "li": "- %s", "li2": "- w#\n- %s", "ol": "1. %s", "dt": "%s\n   w#", "dd": "w#\n   %s", "cls": "w# : %s\n   w#", "fname": "w#\n\n:%s: w#", "fbody": "w#\n\n:w#: %s", "docinfo": ":w#: %s", "author": ":author: %s", "homepage": ":homepage: %s", "line": "| w#\n| %s", "attr": "  w#\n\n  -- %s", "cap": ".. figure:: http://h.org/x.png\n\n   %s", "legend": ".. figure:: http://h.org/x.png\n\n   w#\n\n   %s", "rubric": ".. rubric:: %s", "adm": ".. admonition:: %s\n\n   w#", "note": ".. note:: %s", "ttitle": ".. table:: %s\n\n   === ===\n   w#  w#\n   === ===",
    "title": "%s\n" + "=" * 70 + "\n\nw#", "subtitle": "w#\n" + "=" * 70 + "\n\n%s\n" + "-" * 70 + "\n\nw#", "head": "w#\n\n%s\n" + "=" * 70 + "\n\nw#", "headc": ".. contents::\n\nw#\n\n%s\n" + "=" * 70 + "\n\nw#", "topic": ".. topic:: w#\n\n   %s", "topict": ".. topic:: %s\n\n   w#", "side": ".. sidebar:: w#\n\n   %s", "sidet": ".. sidebar:: %s\n\n   w#", "parsed": ".. parsed-literal::\n\n   %s", "csv": ".. csv-table::\n\n   w#,%s", "listt": ".. list-table::\n\n   * - w#\n     - %s", "fn": "w# [#]_\n\n.. [#] %s", "cit": "w# [Cc]_\n\n.. [Cc] %s", "opt": "-a  %s", "epi": ".. epigraph::\n\n   %s", "hdr": ".. header:: %s\n\nw#", "ftr": ".. footer:: %s\n\nw#", "compound": ".. compound::\n\n   %s", "container": ".. container:: c\n\n   %s",
    "quote": "w#\n\n  %s", "doc": "w#\n====\n\n:w#: %s\n\nw#", "abstract": ":abstract: %s", "last": "w#\n====\n\nw#\n\nw2#\n----\n\n- w#\n\n  - %s",
}


def parts(link, pos, url):
    """The document, or None if the construct does not fit there."""
    text = LINKS[link] % url
    first, _, defs = text.partition("\n\n")
    block = link in ("img", "imgalt", "fig", "imgt", "figt", "imgtname", "twoi", "chain", "unused", "imgbt", "imgbtopt", "figbt", "imgbtname")
    if block:
        if pos not in ("p", "li", "ol", "dd", "fbody", "legend", "note", "listt", "fn", "cit", "opt", "quote", "container", "compound", "docinfo", "topic", "side", "epi", "last", "hdr", "ftr"):
            return None
        t = POS[pos].replace("%s", "@@")
        if pos in ("hdr", "ftr"):
            t = ".. header::\n\n   @@\n\nw#" if pos == "hdr" else ".. footer::\n\n   @@\n\nw#"
        if pos in ("note",):
            t = ".. note::\n\n   @@"
        i = t.index("@@")
        col = i - (t.rfind("\n", 0, i) + 1)
        return rstdoc.fill(t.replace("@@", rstdoc.ind(text, col).lstrip()) + "\n")
    t = POS[pos].replace("%s", first)
    return rstdoc.fill(t + ("\n\n" + defs if defs else "") + "\n")


def verdict(src):
    tree, warnings = quiet(rst.parse, src)
    # docutils only gives this warning where it also prints it (report_level <= 2)
    return "".join(w for w in re.split(r"(?m)^(?=<string>:)", warnings) if "No Pygments lexer found" not in w)


def judge(it, ctx):
    link, pos, name = it
    url = URLS.get(name) or BADURLS[name]
    src = parts(link, pos, url)
    allowed = name in URLS
    if not allowed and name in ("space",) and (link not in IMAGES):
        allowed = None
    decide(src, allowed, ctx, url)


def decide(src, allowed, ctx, url=None):
    """allowed: do the links use allowed schemes; warnings are asked from docutils."""
    try:
        warnings = verdict(src)
    except Exception:
        warnings = "severe"
    roles._roles.pop("", None)
    ctx.runs += 1
    try:
        out = quiet(pypi_rest2html, src)
        err = None
    except Exception as e:
        out, err = None, e
    ctx.nontrivial += 1
    ctx.outcome(out or repr(err))
    want = allowed and not warnings
    if allowed is None:
        return
    if want and err is not None:
        raise Bad("a valid document is rejected: %r" % err)
    if not want and err is None:
        raise Bad("accepted, but %s: %r" % ("docutils warns %s" % warnings if warnings else "a link target has no allowed scheme", out))
    if want and not isinstance(out, str):
        raise Bad("returns %r" % type(out))


def link_items(links, poss, names):
    for link in links:
        for pos in poss:
            if parts(link, pos, "http://h.org/") is None:
                continue
            for name in names:
                yield link, pos, name


def link_src(it):
    return parts(it[0], it[1], URLS.get(it[2]) or BADURLS[it[2]])


# links in nested containers

def nest_items(depth, links, names):
    for top in rstdoc.TOPC:
        for cs in itertools.product(rstdoc.CONTAINERS, repeat=depth):
            for l in links:
                for n in names:
                    yield top, cs, l, n


def nest_src(it):
    top, cs, l, n = it
    body = LINKS[l] % (URLS.get(n) or BADURLS[n])
    for c in reversed(cs):
        body = rstdoc.CONTAINERS[c](body)
    return rstdoc.fill(rstdoc.TOPC[top](body).replace("/i#.png", "http://h.org/i#.png") + "\n")


# documents without a bad link: any construct

HTTP = lambda s: s.replace("</u#/>", "<http://h.org/u#/>").replace("/i#.", "http://h.org/i#.")


def block_items(n):
    every = list(rstdoc.BLOCKS) + list(rstdoc.TOP)
    for k in range(1, n + 1):
        for names in itertools.product(every, repeat=k):
            if not {"targetnotes", "image4"} <= set(names):
                yield names


def block_src(names):
    return rstdoc.fill(HTTP("\n\n".join(rstdoc.BLOCKS.get(x) or rstdoc.TOP[x] for x in names)) + "\n")


def block_judge(it, ctx):
    decide(block_src(it), True, ctx)


# two links: every pair of kinds and verdicts

def pair_items():
    for a in LINKS:
        for b in LINKS:
            for u in (("http", "javascript"), ("foo", "https"), ("http", "ftp"), ("rel", "data")):
                yield a, b, u


def pair_src(it):
    a, b, (u, v) = it
    x = LINKS[a] % (URLS.get(u) or BADURLS[u])
    y = LINKS[b] % (URLS.get(v) or BADURLS[v])
    for name in ("La", "Lb"):
        y = y.replace(name, name + "y")
    return rstdoc.fill(x + "\n\n" + y.replace("x`_", "z`_").replace(".. _w# x:", ".. _w# z:") + "\n")


def pair_judge(it, ctx):
    decide(pair_src(it), all(u in URLS for u in it[2]), ctx)


def file_judge(it, ctx):
    del c22.SEEN[:]
    src = c22.src(it)
    try:
        warnings = verdict(src)
    except Exception:
        warnings = "severe"
    roles._roles.pop("", None)
    del c22.SEEN[:]
    ctx.runs += 1
    try:
        out = quiet(pypi_rest2html, src)
    except Exception as e:
        out = None
    ctx.outcome(out or "rejected")
    if c22.SEEN:
        raise Bad("the conversion accesses %s" % c22.SEEN)
    if out is not None:
        if warnings:
            raise Bad("accepted although docutils warns %s" % warnings)
        if SECRET in out:
            raise Bad("content of a file")
        name = it[-1]
        if name.split()[0] in ("include", "csv", "csvh") or name.startswith("raw") and not name.startswith("rawrole") or name.startswith(("role ", "RAW", "rolecls", "default ")):
            raise Bad("accepted: %r" % out)
    ctx.nontrivial += 1


before = c22.before
RAWS = [k for k in c22.DIRECTIVES if not k.startswith("math")]


def spaces(tier):
    q = tier == "quick"
    names = list(URLS) + list(BADURLS)
    some = ["http", "mailto", "javascript", "rel"]
    return [
        Space("links", lambda: link_items(LINKS, POS if not q else ("p", "li", "title", "cap"), names), judge, link_src, rule="link kinds x positions x %d allowed and %d other targets" % (len(URLS), len(BADURLS))),
        Space("positions", lambda: link_items(LINKS, POS, some if q else names), judge, link_src, rule="%d link kinds x %d positions" % (len(LINKS), len(POS))),
        Space("nested", lambda: nest_items(1, LINKS, ["http", "foo"]), lambda it, ctx: decide(nest_src(it), it[3] in URLS, ctx), nest_src, rule="links in each container"),
        Space("nested twice", lambda: nest_items(2, ("inline", "img") if q else LINKS, ["https", "javascript"]) if not q else (x for x in nest_items(2, ("inline", "img"), ["https", "javascript"]) if x[0] in ("none", "section")), lambda it, ctx: decide(nest_src(it), it[3] in URLS, ctx), nest_src, rule="links in two nested containers"),
        Space("pairs", pair_items, pair_judge, pair_src, rule="two links of any kind, allowed and not"),
        Space("documents", lambda: block_items(1 if q else 2), block_judge, block_src, rule="sequences of <= %d constructs without bad links: rejected exactly when docutils warns" % (1 if q else 2)),
        Space("files and raw", lambda: c22.items(0 if q else 1, RAWS), file_judge, c22.src, rule="file, URL and raw directives and roles in all spellings"),
    ]
