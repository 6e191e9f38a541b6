"""ReStructuredText documents: blocks, inline constructs and containers, composed by indentation. w#, i#, u#, L#: numbered words."""
import re

BLOCKS = {
    "p": "w# w#", "p2": "w# *w#* w#\nw# **w#**", "bullet": "- w#\n- w#", "bullet2": "- w#\n\n  w#\n\n- w#", "nested": "- w#\n\n  - w#\n\n    1. w#\n\n- w#", "bqlist": "- w#\n\n    - w#\n\n- w#", "enum": "1. w#\n2. w#", "enum5": "5. w#\n6. w#", "enuma": "a. w#\nb. w#", "enumi": "(i) w#\n(ii) w#", "auto": "#. w#\n#. w#",
    "dl": "w#\n   w#\nw# : w# : w#\n   w#", "dl2": "*w#*\n   w#\n\n   w#", "field": ":w#: w#\n:w#: w#", "field2": ":w#: - w#\n     - w#", "fieldlong": ":w#averyveryverylongname: w#", "opt": "-a          w#\n-b FILE, --long=X  w#\n/V          w#", "opt2": "--averyveryveryverylong=X  w#\n\n                           w#", "opt3": "-x  w#",
    "line": "| w#\n|   w# *w#*\n| w#", "line2": "| w#\n|\n| w#", "quote": "  w#\n\n  -- w#", "literal": "::\n\n   w# <b> *x*\n\n     w#", "literal2": "w#::\n\n   w#", "literal3": "w# ::\n\n> w#", "doctest": ">>> w#\nw#", "code": ".. code:: python\n\n   def w#(): pass # w# <i>", "codeline": ".. code::\n   :number-lines: 9\n\n   w#\n   w#", "parsed": ".. parsed-literal::\n\n   *w#* w#",
    "math": ".. math:: w#^2", "table": "=== ===\nw#  w#\n=== ===\nw#  w#\n=== ===", "table1": "=== ===\nw#  w#\n=== ===", "grid": "+-----+-----+\n| w#  | w#  |\n+     +-----+\n|     | w#  |\n+-----+-----+\n| w#  w#    |\n+-----------+", "gridhead": "+-----+-----+\n| w#  | w#  |\n+=====+=====+\n| w#  |     |\n+-----+-----+",
    "tablet": ".. table:: w#\n   :widths: 10 20\n\n   === ===\n   w#  w#\n   === ===\n   w#  w#\n   === ===", "tablea": ".. table::\n   :align: center\n   :width: 50%\n   :class: x\n   :name: L#\n\n   === ===\n   w#  w#\n   === ===", "csv": ".. csv-table:: w#\n   :header: w#,w#\n   :stub-columns: 1\n\n   w#,w#\n   w#,", "listt": ".. list-table::\n   :header-rows: 1\n   :stub-columns: 1\n   :class: x\n\n   * - w#\n     - w#\n   * - w#\n     - - w#\n       - w#",
    "rule": "w#\n\n----\n\nw#", "comment": ".. comment w <div class=\"x\">\n\nw#", "image": ".. image:: /i#.png", "image2": ".. image:: /i#.png\n   :alt: w# w#\n   :width: 10\n   :height: 20px\n   :align: center\n   :class: x\n   :name: L#", "image3": ".. image:: /i#.png\n   :target: http://u#.org/\n   :scale: 50", "image4": ".. image:: /i#.png\n   :target: L#_\n\n.. _L=: http://u#.org/", "svg": ".. image:: /i#.svg\n   :alt: w#",
    "figure": ".. figure:: /i#.png\n   :align: left\n   :figwidth: 50\n   :figclass: x\n   :class: y\n   :name: L#\n\n   w# *w#*\n\n   w#", "figure2": ".. figure:: /i#.png", "figure3": ".. figure:: /i#.png\n   :target: http://u#.org/\n   :alt: w#\n\n   w#\n\n   - w#\n   - w#",
    "note": ".. note::\n\n   w# *w#*", "note2": ".. warning:: w#\n\n   - w#", "adm": ".. admonition:: w# *w#*\n   :class: x\n   :name: L#\n\n   w#", "rubric": ".. rubric:: w# *w#*\n   :class: x", "epigraph": ".. epigraph::\n\n   w#\n\n   -- w#", "highlights": ".. highlights::\n\n   w#", "pullquote": ".. pull-quote::\n\n   w#\n\n   w#", "compound": ".. compound::\n   :class: x\n\n   w#\n\n   - w#\n\n   w#", "container": ".. container:: c d\n   :name: L#\n\n   w#", "container2": ".. container::\n\n   w#\n\n   w#",
    "class": ".. class:: x\n\nw#", "class2": ".. class:: x\n\n- w#\n- w#", "target": ".. _L#:\n\nw# L=_ `w# <L=_>`_", "inltarget": "w# _`L#` L=_", "anon": "w#__ `w# w#`__\n\n__ http://u#.org/\n__ http://u#.org/", "named": "w# L#_ w#\n\n.. _L=: http://u#.org/", "phrase": "`L# w <http://u#.org/>`_ `L= w`_", "fn": "w# [#L#]_\n\n.. [#L=] w#", "fn2": "w# [#L#]_ w# [#L=]_\n\n.. [#L=] w#\n\n   w#", "cit": "w# [L#]_\n\n.. [L=] w#", "cit2": ".. [L#] w#", "subst": "w# |L#| w#\n\n.. |L=| replace:: *w#*", "substi": "w# |L#|\n\n.. |L=| image:: /i#.png", "substt": "|L#|_\n\n.. |L=| image:: /i#.png\n.. _L=: http://u#.org/", "unicode": "w# |L#|\n\n.. |L=| unicode:: 0xA9 .. x",
    "role": ".. role:: L#\n\n:L=:`w#`", "defrole": ".. default-role:: strong\n\n`w#`\n\n.. default-role::", "unknown": ".. foo:: w#\n\n   w#", "unknownrole": "w# :foo:`w#`", "unclosed": "w# *w#", "undefined": "w# |L#| w#", "undefref": "w# L#_", "badopt": ".. image:: /i#.png\n   :foo: w#", "dupl": ".. _L#: http://u#.org/\n.. _L=: http://u#.org/\n\nw#", "badindent": "w#\n  w#\nw#", "raw": ".. raw:: html\n\n   <b>w#</b>", "include": ".. include:: /nothing#.txt",
    "contents": ".. contents:: w#\n   :local:", "targetnotes": "`w# <http://u#.org/>`_\n\n.. target-notes::", "empty": "..", "pep": ":PEP:`8` :RFC:`2822` w#",
}
TOP = {
    "sec": "w#\n=====\n\nw#", "sec2": "w#\n=====\n\nw#\n\n*w#* ``w#``\n----------\n\nw#\n\nw#\n====\n\nw#", "secdeep": "\n\n".join("w#\n" + c * 5 for c in "=-~^\"'`+") + "\n\nw#", "secover": "=====\nw#\n=====\n\n- w#", "seclink": "`w# <http://u#.org/>`_ [#L#]_\n===============================\n\nw#\n\n.. [#L=] w#", "sectwin": "w\n=\n\nw#\n\nw\n=\n\nw#", "secimg": "|L#|\n=====\n\n.. |L=| image:: /i#.png", "contents2": ".. contents::\n\nw#\n====\n\nw#\n\nw# *w#*\n--------\n\nw#", "contents3": ".. contents:: w# *w#*\n   :depth: 1\n   :backlinks: none\n   :class: x\n\nw#\n====\n\nw#\n----", "sectnum": ".. sectnum::\n\nw#\n====\n\nw#\n----\n\nw#",
    "contnum": ".. sectnum::\n.. contents::\n\nw#\n====\n\nw#\n----\n\nw#",
    "topic": ".. topic:: w# *w#*\n\n   w#\n\n   - w#", "sidebar": ".. sidebar:: w#\n   :subtitle: w#\n   :class: x\n\n   w#", "sidebar2": ".. sidebar::\n\n   w#", "header": ".. header:: w#\n.. footer:: w#\n\nw#", "meta": ".. meta::\n   :description: x\n\nw#", "docinfo": ":author: w# w#\n:version: w#\n:date: w#\n:field: w#\n:abstract: w#\n:dedication: w#\n:address: w#\n  w#\n:copyright: w#\n:authors: w#; w#", "docinfo2": ":author: w#\n:contact: w#@a.org\n:homepage: http://u#.org/\n:organization: w#\n:status: w#\n:revision: w#\n\nw#", "title": ".. title:: x\n\nw#", "abstract": ":abstract:\n  w#\n\n  - w#", "docsec": "w#\n====\n\n:author: w#\n\nw#", "trans2": "w#\n\n-----\n\nw#\n====\n\nw#",
    "decor": ".. footer::\n\n   - w#\n   - w#\n\nw#", "docbiblio": ":w#: w#", "secempty": "w#\n====", "tgtsec": ".. _L#:\n\nw#\n====\n\nL=_ `w# <L=_>`_",
}


def ind(text, n, first=None):
    """Indent by n; first: the text the first line starts with."""
    lines = [(" " * n + x) if x else x for x in text.split("\n")]
    if first is not None:
        lines[0] = first + lines[0][n:]
    return "\n".join(lines)


def cell(text, second="w#  "):
    width = max(4, max(len(x) for x in text.split("\n")) + 8)
    bar = "+%s+------+" % ("-" * (width + 2))
    lines = text.split("\n")
    rows = ["| %s | %s |" % (x.ljust(width), (second if i == 0 else "").ljust(4)) for i, x in enumerate(lines)]
    return "\n".join([bar] + rows + [bar])


CONTAINERS = {
    "li": lambda b: "- w#\n\n" + ind(b, 2), "li1": lambda b: ind(b, 2, "- "), "li2": lambda b: "- w#\n\n- w#\n\n" + ind(b, 2) + "\n\n- w#", "ol": lambda b: ind(b, 3, "1. "), "dd": lambda b: "w#\n" + ind(b, 3), "bq": lambda b: "w#\n\n" + ind(b, 3) + "\n\nw#", "bq1": lambda b: "..\n\n" + ind(b, 3), "field": lambda b: ":w#:\n" + ind(b, 3), "opt": lambda b: ind(b, 4, "-a  "),
    "note": lambda b: ".. note::\n\n" + ind(b, 3), "adm": lambda b: ".. admonition:: w#\n\n" + ind(b, 3), "container": lambda b: ".. container:: c\n\n" + ind(b, 3), "compound": lambda b: ".. compound::\n\n" + ind(b, 3), "epigraph": lambda b: ".. epigraph::\n\n" + ind(b, 3), "legend": lambda b: ".. figure:: /i#.png\n\n   w#\n\n" + ind(b, 3),
    "fn": lambda b: "w# [#L#]_\n\n" + ind(b, 3, ".. [#L=] "), "cit": lambda b: ".. [L#]\n" + ind(b, 3), "cell": cell, "listtable": lambda b: ".. list-table::\n\n" + ind(b, 7, "   * - ") + "\n     - w#",
}
TOPC = {"section": lambda b: "w#\n====\n\n" + b, "section2": lambda b: "w#\n====\n\nw#\n----\n\n" + b, "topic": lambda b: ".. topic:: w#\n\n" + ind(b, 3), "sidebar": lambda b: ".. sidebar:: w#\n\n" + ind(b, 3), "header": lambda b: ".. header::\n\n" + ind(b, 3) + "\n\nw#", "none": lambda b: b}

INLINE = {
    "em": "*w#*", "strong": "**w#**", "lit": "``w#``", "sub": ":sub:`w#`", "sup": ":sup:`w#`", "title": ":title:`w#`", "code": ":code:`w#`", "cite": "`w#`", "abbr": ":abbr:`w#`", "acr": ":ac:`w#`", "link": "`w# w# <http://u#.org/>`__", "rel": "`w# </u#/>`__", "url": "http://u#.org/w#", "mail": "w#@a.org", "math": ":math:`w#`", "esc": "\\*w#\\*", "html": "<b class=\"w#\">", "amp": "w# & w# &amp; &#65;",
    "litws": "``w#  <b>``", "word": "w#", "emlong": "*w# w#*", "fn": "[#]_", "glue": "w#\\ *w#*\\ w#", "sbst": "|S|", "sbsi": "|I|", "span": ":rr:`w#`", "pycode": ":py:`def w#`", "quote": "\"w#\" 'w#'", "target": "_`L#`", "bad": "*w#", "badrole": ":foo:`w#`", "undef": "|nope|",
}
PRELUDE = ".. |S| replace:: w# *w#*\n.. |I| image:: /i#.png\n.. role:: rr\n.. role:: py(code)\n   :language: python\n.. [#] w#\n"
INCTX = {
    "p": "w# %s w#", "alone": "%s", "li": "- %s", "cell": None, "dt": "%s\n   w#", "dd": "w#\n   %s", "cls": "w# : %s\n   w#", "fname": ":%s: w#", "fbody": ":w#: %s", "line": "| %s\n| w#", "attr": "  w#\n\n  -- %s", "cap": ".. figure:: /i#.png\n\n   %s", "rubric": ".. rubric:: %s", "adm": ".. admonition:: %s\n\n   w#", "ttitle": ".. table:: %s\n\n   === ===\n   w#  w#\n   === ===", "head": "%s\n========================================================================\n\nw#",
    "topic": ".. topic:: %s\n\n   w#", "parsed": ".. parsed-literal::\n\n   %s", "csv": ".. csv-table::\n\n   w#,%s", "note": ".. note:: %s", "fn": ".. [#] %s", "opt": "-a  %s", "side": ".. sidebar:: w#\n   :subtitle: %s\n\n   w#", "author": ":author: %s", "th": "=========================================================================  ===\n%s  \nw#                                                                         w#\n=========================================================================  ===\nw#                                                                         w#\n=========================================================================  ===", "headc": ".. contents::\n\n%s\n========================================================================\n\nw#",
}


def inctx(c, text):
    return cell(text) if c == "cell" else INCTX[c].replace("%s", text)


def fill(text):
    """Number the words: X# is a new one, L= the last L."""
    n = [0]
    last = [""]

    def new(m):
        if m.group(0) == "L=":
            return last[0]
        n[0] += 1
        out = m.group(1) + str(n[0])
        if m.group(1) == "L":
            last[0] = out
        return out
    return re.sub(r"(?<![A-Za-z0-9])([wiuL])#|(?<![A-Za-z0-9])L=", new, text)
