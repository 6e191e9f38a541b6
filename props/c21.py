"""C21: the formatting of the HTML source does not change the result."""
import itertools
import re

from mc import ast, hdoc
from mc.conv import TARGETS, Html2restException
from mc.engine import Space, Bad

BLOCK = {"p", "h1", "h2", "h3", "h4", "h5", "h6", "ul", "ol", "li", "table", "tr", "td", "th", "hr", "br", "div", "pre", "blockquote", "tbody", "center", "address", "fieldset", "form"}
ELEMENTS = "address article aside blockquote body center dd details dialog dir div dl dt fieldset figcaption figure footer form head header hgroup html main menu nav section summary".split()
BLOCK.update(ELEMENTS, ("caption", "thead", "tfoot", "colgroup"))
VOID = {"br", "hr", "img"}
TOKEN = re.compile(r"<pre\b.*?</pre>|<[^>]*>|[^<]+", re.S | re.I)
GAPS = (" ", "\n", "\n    ", "\n\n", "\t", "\r\n", "\n\t\n")
SPACES = ("  ", "\n", "\n      ", " \n", "\t", "\r\n")
CASES = ("upper", "title")
VOIDS = ("plain", "slash", "slash space", "space", "end tag")
TAGWS = ("space", "newline", "two")
QUOTES = ("'", "none", "upper", "reversed")


def parse(html):
    """The sites of a document: a list of [kind, text]; kind: tag, block (tag), text, pre, gap, space."""
    out = []
    for m in TOKEN.finditer(html):
        s = m.group(0)
        if s[:4].lower() == "<pre":
            cur = [["pre", s]]
        elif s.startswith("<"):
            name = re.match(r"</?([a-zA-Z0-9]+)", s).group(1).lower()
            cur = [["block" if name in BLOCK else "tag", s]]
        else:
            cur = [["space" if not x.strip() else "text", x] for x in re.split(r"(\s+)", s) if x]
        for c in cur:
            if out and c[0] != "space" and out[-1][0] != "space" and (c[0] == "block" or out[-1][0] == "block") and "pre" not in (c[0], out[-1][0]):
                out.append(["gap", ""])
            if c[0] == "pre" or out and out[-1][0] == "pre":
                if out and out[-1][0] == "space":
                    out[-1][0] = "line"
                elif c[0] == "space":
                    c[0] = "line"
            out.append(c)
    # white space next to a block tag is a gap
    for i, c in enumerate(out):
        if c[0] == "space" and (i == 0 or i == len(out) - 1 or "block" in (out[i - 1][0], out[i + 1][0])):
            c[0] = "gap"
    return out


def variants(sites):
    """Every possible deviation: (site, rewritten text)."""
    out = []
    for i, (kind, text) in enumerate(sites):
        if kind == "gap":
            out += [(i, v) for v in GAPS if v != text]
        elif kind == "space":
            out += [(i, v) for v in SPACES if v != text]
        elif kind == "line":
            out += [(i, v) for v in ("\n", "\n\n", "\r\n", "\n \n") if v != text]
        elif kind in ("tag", "block"):
            out += [(i, v) for v in tag_variants(text) if v != text]
        elif kind == "pre":
            out += [(i, v) for v in pre_variants(text)]
    return out


def tag_variants(tag):
    end, name, attrs, slash = re.match(r"<(/?)([a-zA-Z0-9]+)(.*?)( ?/?)>$", tag, re.S).groups()
    out = ["<%s%s%s%s>" % (end, n, attrs, slash) for n in (name.upper(), name.title())]
    if name in VOID:
        out += ["<%s%s%s>" % (name, attrs, s) for s in ("", "/", " /", "  />"[:-1])]
        out += ["<%s%s%s>" % (name.upper(), attrs, s) for s in ("", "/", " /")]
    else:
        out += ["<%s%s%s%s>" % (end, name, attrs, s) for s in (" ", "\n", "  ")]
        if not end and not attrs and name in ("ul", "ol", "li", "p", "table", "td", "tr", "h2"):
            out += ["<%s title='t'>" % name, '<%s\n  lang="en">' % name]
    if attrs:
        pairs = re.findall(r'([a-z]+)="([^"]*)"', attrs)
        out.append("<%s %s%s>" % (name, " ".join("%s='%s'" % p for p in pairs), slash))
        out.append("<%s %s%s>" % (name, " ".join('%s="%s"' % (k.upper(), v) for k, v in pairs), slash))
        out.append("<%s %s%s>" % (name, " ".join('%s="%s"' % p for p in reversed(pairs)), slash))
        out.append("<%s\n  %s%s>" % (name, "\n  ".join('%s="%s"' % p for p in pairs), slash))
        out.append("<%s %s%s>" % (name, "  ".join('%s = "%s"' % p for p in pairs), slash))
        if not any(" " in v or v.endswith("/") for k, v in pairs):
            out.append("<%s %s%s>" % (name, " ".join('%s=%s' % p for p in pairs), " /" if slash.endswith("/") else ""))
    return [x for x in out if x != tag]


def pre_variants(text):
    body = text[5:-6]
    return ["<PRE>%s</PRE>" % body, '<pre class="x">%s</pre>' % body, "<Pre>%s</pre>" % body, "<pre>%s</pre>" % body.replace("\n", "\r\n"), "<pre >%s</pre >" % body]


def build(sites, changes):
    d = dict(changes)
    return "".join(d.get(i, t) for i, (k, t) in enumerate(sites))


def outputs(html):
    out = {}
    for t, fn in TARGETS.items():
        try:
            out[t] = fn(html)
        except Html2restException as e:
            out[t] = "duplicate"
    return out


def check(base, html, ctx):
    a, b = outputs(base), outputs(html)
    ctx.runs += 8
    ctx.nontrivial += 1
    ctx.outcome(b["creole"])
    for t in TARGETS:
        if a[t] != b[t]:
            raise Bad("html2%s: %r gives %r, but\n  %r gives\n  %r" % (t, base, a[t], html, b[t]))


# ------------------------------------------------------------------ documents

LEAVES = ("t", "br", "link", "img", "code")
FACES = ("b", "i")
WRAPS = {"p": "<p>%s</p>", "li": "<ul><li>%s</li><li>z1</li></ul>", "td": "<table><tr><td>%s</td><td>z1</td></tr></table>", "h": "<h2>%s</h2>", "top": "%s", "div": "<div><p>z1</p>%s</div>"}
EXTRA = {
    "div": "<div><p>w1</p><div>w2</div></div>", "bq": "<blockquote><p>w1</p></blockquote><p>w2</p>", "top": "w1<p>w2</p>w3", "pimg": '<p><img src="/i.png" alt="w1" title="w1" /> w2</p>',
    "center": "<center>w1</center>w2", "nl": "<ul><li><p>w1</p></li><li><p>w2</p><ul><li>w3</li></ul></li></ul>", "ttop": "w1<table><tr><td>w2</td></tr></table>w3", "tp": "<table><tr><td><p>w1</p></td></tr></table>",
    "sect": "<section><h2>w1</h2><article><p>w2</p></article></section><footer>w3</footer>", "dl": "<dl><dt>w1</dt><dd>w2</dd></dl>", "fig": '<figure><img src="/i.png" alt="w1" /><figcaption>w2</figcaption></figure>', "html": "<html><body><h1>w1</h1><p>w2</p></body></html>",
    "thead": "<table><thead><tr><th>w1</th></tr></thead><tbody><tr><td>w2</td></tr></tbody><tfoot><tr><td>w3</td></tr></tfoot></table>", "caption": "<table><caption>w1</caption><tr><td>w2</td></tr></table>",
    "span": "<p>w1 <span>w2</span> w3</p>", "x": "<p>w1 <x>w2</x> w3</p>", "hr": "w1<hr />w2", "br2": "<p>w1<br /><br />w2</p>", "lia": '<ol><li><a href="/u/">w1</a></li></ol>', "pretop": "w1\n<pre>\nw2\n</pre>\nw3",
    "tbl3": "<table><tr><th>w1</th></tr><tr><td>w2</td></tr><tr><td></td></tr></table>", "empty": "<p></p><p>w1</p>", "emptyli": "<ul><li></li><li>w1</li></ul>", "form": "<form>w1</form><fieldset>w2</fieldset>", "addr": "<address>w1</address><p>w2</p>",
    "prein": "<p>w1 <pre>w2</pre> w3</p>", "prepre": "<pre>\nw1\n</pre>\n<pre>\nw2\n</pre>", "deep": "<div><div><ul><li>w1<ol><li>w2</li></ol></li></ul></div></div>", "text": "w1 w2 w3", "bb": "<p><b>w1</b><i>w2</i> <b>w3</b></p>",
}

for _e in ELEMENTS:
    EXTRA["e1 " + _e] = "<p>w1</p><%s>w2 <b>w3</b></%s><p>w4</p>" % (_e, _e)
    EXTRA["e2 " + _e] = "<div><%s><p>w1</p><ul><li>w2</li></ul></%s></div>" % (_e, _e)


def edge(seq, inner=False):
    """A line break at the edge of a typeface."""
    return inner and "br" in (seq[0][0], seq[-1][0]) or any(len(x) > 1 and edge(x[1], True) for x in seq)


def docs(inline_n, pairs, elements=True):
    for name in EXTRA:
        if elements or name[:2] not in ("e1", "e2"):
            yield EXTRA[name]
    for n in range(1, inline_n + 1):
        for seq in ast.seqs(n, LEAVES, FACES):
            if edge(seq):
                continue
            for sep in ("", " ") if n > 1 else ("",):
                for w in WRAPS.values():
                    yield w % hdoc.inline(seq, ast.Fill(), sep)
    for n in range(1, pairs + 1):
        for names in itertools.product(hdoc.BLOCKS, repeat=n):
            f = ast.Fill()
            parts = [hdoc.BLOCKS[x][1](f) for x in names]
            out = parts[0]
            for a, b in zip(parts, parts[1:]):
                out += ("\n" if "<pre" in a or "<pre" in b else "") + b
            yield out


def one_items(inline_n, pairs):
    for html in docs(inline_n, pairs):
        sites = parse(html)
        for v in variants(sites):
            yield html, (v,)


def two_items(inline_n, pairs):
    for html in docs(inline_n, pairs, False):
        vs = variants(parse(html))
        for a, b in itertools.combinations(vs, 2):
            if a[0] != b[0]:
                yield html, (a, b)


def judge(it, ctx):
    html, changes = it
    check(html, build(parse(html), changes), ctx)


def describe(it):
    return build(parse(it[0]), it[1])


# every site of a kind at once

WHOLE = {
    "gaps": GAPS, "spaces": SPACES, "case": ("upper", "title"), "void": ("plain", "slash"), "tbody": ("tbody", "TBODY", "thead"), "line ends": ("\r\n", "\r"), "lines": ("\n", "\r\n"), "all": ("pretty", "ugly"),
}


def whole_items(inline_n, pairs):
    for html in docs(inline_n, pairs):
        for kind, vs in WHOLE.items():
            for v in vs:
                yield html, kind, v


def rewrite(html, kind, v):
    if kind == "line ends":
        return rewrite(html, "gaps", "\n").replace("\n", v)
    if kind == "all":
        if v == "pretty":
            return pretty(html)
        return rewrite(rewrite(rewrite(html, "void", "slash"), "case", "upper"), "gaps", "\r\n  \t")
    if kind == "tbody":
        t = "tbody" if v == "thead" else v
        return re.sub("</table>", "</%s></table>" % t, re.sub("<table>", "<table><%s>" % t, html))
    out = []
    for k, t in parse(html):
        if kind == "gaps" and k == "gap" or kind == "lines" and k == "gap":
            t = v
        elif kind in ("spaces", "lines") and k == "space":
            t = v
        elif kind == "case" and k in ("tag", "block"):
            t = re.sub(r"^</?[a-zA-Z0-9]+", lambda m: getattr(m.group(0), v)(), t)
        elif kind == "case" and k == "pre":
            t = getattr(t[:4], v)() + t[4:-5] + getattr(t[-5:], v)()
        elif kind == "void" and k in ("tag", "block") and t.endswith("/>"):
            t = t[:-3].rstrip() + (">" if v == "plain" else "/>")
        out.append(t)
    return "".join(out)


def pretty(html):
    """Every block tag in its own line, indented by depth."""
    out, depth = "", 0
    for k, t in parse(html):
        if k == "gap":
            continue
        if k == "block":
            end = t.startswith("</")
            name = re.match(r"</?([a-z0-9]+)", t).group(1)
            if end:
                depth -= 1
            out += "\n" + "    " * depth + t + "\n" + "    " * (depth + 1)
            if not end and name not in VOID:
                depth += 1
        elif k == "line":
            out += "\n"
        else:
            out += t
    return out


# End tags which HTML allows to omit

OMIT = {"li": ("<li", "</ul>", "</ol>"), "td": ("<td", "<th", "</tr>"), "th": ("<td", "<th", "</tr>"), "tr": ("<tr", "</table>"), "p": ("<p>", "</li>", "</td>", "</div>", "</blockquote>")}


def end_sites(html):
    """Positions of the end tags which may be omitted"""
    out = []
    for m in re.finditer(r"</(%s)>" % "|".join(OMIT), html):
        if m.group(1) == "p" and m.end() == len(html) or html[m.end():].startswith(OMIT[m.group(1)]):
            out.append((m.start(), m.end()))
    return out


def omit(html, sites, fill=""):
    for a, b in reversed(sites):
        html = html[:a] + fill + html[b:]
    return html


def ends_items(inline_n, pairs, most):
    for html in docs(inline_n, pairs):
        if "<pre" in html and re.search(r"<pre.*</(p|li|t[dhr])>.*</pre>", html, re.S):
            continue
        sites = end_sites(html)
        n = len(sites)
        # also </td></tr><tr> and so on: an end tag can be the reason for the one before it
        sets = [c for k in range(1, n + 1) for c in itertools.combinations(sites, k)] if n <= most else [(x,) for x in sites] + [tuple(sites)] + [tuple(sites[:k] + sites[k + 1:]) for k in range(n)]
        for c in sets:
            for fill in ("", "\n"):
                yield html, c, fill


def ends_judge(it, ctx):
    html, sites, fill = it
    check(html, omit(html, sites, fill), ctx)


def whole_judge(it, ctx):
    check(it[0], rewrite(*it), ctx)


def spaces(tier):
    q = tier == "quick"
    a, b = (2, 1) if q else (3, 2)
    c, d = (1, 1) if q else (2, 1)
    return [
        Space("one deviation", lambda: one_items(a, b), judge, describe, rule="documents (inline trees <= %d nodes x %d contexts, <= %d blocks, %d containers) x every single site x every spelling of it" % (a, len(WRAPS), b, len(EXTRA))),
        Space("everywhere", lambda: whole_items(a, 2 if q else b), whole_judge, lambda it: rewrite(*it), rule="the same documents, <= 2 blocks, one spelling applied to all sites of a kind; pretty printed; CR/CRLF line ends"),
        Space("omitted end tags", lambda: ends_items(a, 2 if q else b, 6), ends_judge, lambda it: omit(*it), rule="the same documents x every set of the end tags of li, td, th, tr and p which HTML allows to omit"),
        Space("two deviations", lambda: two_items(c, d), judge, describe, rule="small documents x every pair of sites x spellings"),
    ]
