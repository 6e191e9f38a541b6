"""C18: tables of any shape keep every cell in its row and column, in all four markups.

The grid is read from the written markup by small readers of this check (no renderer involved), so that a broken
line, a shifted cell or a ReST grid out of line shows at once.
"""
import itertools
import re
import unicodedata

from html import unescape

from mc import rst, scale
from mc.conv import TARGETS
from mc.engine import Space, Bad

# content of a cell -> (HTML, what the target must show, as text; W = the word)
CELLS = {
    "w": ("W", {}),
    "ww": ("W z", {}),
    "": ("", {}),
    "long": ("W zzzzzzzzz", {}),
    "link": ('<a href="/u">W</a>', {"creole": "[[/u|W]]", "textile": '"W":/u', "markdown": "[W](/u)", "rest": "`W`_"}),
    "img": ('<img src="/i.png" alt="W" title="W" />', {"creole": "{{/i.png|W}}", "textile": "!/i.png(W)!", "markdown": '![W](/i.png "W")', "rest": "|W|"}),
    "br": ("W<br />z", {"creole": r"W\\z", "textile": "W\nz", "markdown": "W z", "rest": "W z"}),
    "bold": ("<strong>W</strong> z", {"creole": "**W** z", "textile": "*W* z", "markdown": "**W** z", "rest": "**W** z"}),
    "p": ("<p>W</p><p>z</p>", {"creole": r"W\\z", "textile": "W\nz", "markdown": "W z", "rest": "W z"}),
    "uni": ("ü漢W", {}),
    "lines": ("\n  W\n  z\n", {}),
    "i": ("<i>W</i>", {"creole": "//W//", "textile": "__W__", "markdown": "_W_", "rest": "*W*"}),
}
PLAIN = {"lines": "W z"}
for _n in scale.sizes(False):
    CELLS["x%d" % _n] = ("W " + scale.word(_n), {})
VALUES = ("0", "1", "00", "7.5", "1,000", "2026-11-19", "12:30", "10%", "N/A", "yes", "None", "False", "?", "a", "W 0", "0 W", "&euro;", "a/b", "(W)", "&amp;")
for _v in VALUES:
    CELLS["v" + _v] = (_v, {})
KINDS = tuple(k for k in CELLS if k[:1] != "v" and not k[1:].isdigit())


def build(rows, before="", after=""):
    """rows: [[(head, kind)]] -> html and the same with words"""
    n, out, words = 0, [], []
    for r in rows:
        cells, ws = [], []
        for head, kind in r:
            n += 1
            tag = "th" if head else "td"
            cells.append("<%s>%s</%s>" % (tag, CELLS[kind][0].replace("W", "w%d" % n), tag))
            ws.append((head, kind, "w%d" % n))
        out.append("<tr>%s</tr>" % "".join(cells))
        words.append(ws)
    return "<table>%s</table>" % "".join(out), words


def expected(words, target):
    out = [[(h, unescape((CELLS[k][1].get(target) or PLAIN.get(k) or CELLS[k][0]).replace("W", w))) for h, k, w in r] for r in words]
    return out


SPLIT = re.compile(r"\[\[.*?\]\]|\{\{.*?\}\}|\||[^|\[{]+|.", re.S)


def pipes(line):
    """The cells of a Creole row: a pipe in a link or image separates nothing."""
    cells, cur = [], None
    for m in SPLIT.finditer(line):
        if m.group() == "|":
            if cur is not None:
                cells.append(cur)
            cur = ""
        elif cur is None:
            return None
        else:
            cur += m.group()
    return cells if cur == "" else None


def tables_of(text, is_row):
    """Blocks of table lines, separated by other lines or blank lines."""
    out, cur = [], []
    for line in text.split("\n") + [""]:
        if is_row(line):
            cur.append(line)
        elif cur:
            out.append(cur)
            cur = []
    return out


def read_creole(text):
    out = []
    for t in tables_of(text, lambda x: x.startswith("|")):
        rows = []
        for line in t:
            cells = pipes(line)
            if cells is None:
                raise Bad("broken Creole row %r" % line)
            rows.append([(c.startswith("="), c[1:].strip() if c.startswith("=") else c.strip()) for c in cells])
            if any(not c for c in cells):
                raise Bad("a Creole cell without any width is no cell: %r" % line)
        out.append(rows)
    return out


def read_textile(text):
    out = []
    for t in re.split(r"\n{2,}", text):
        if not t.startswith("|"):
            continue
        rows, cur = [], ""
        for line in t.split("\n"):
            cur = cur + "\n" + line if cur else line
            if line.endswith("|"):
                rows.append(cur)
                cur = ""
        if cur:
            raise Bad("broken Textile row %r" % cur)
        out.append([[(c.startswith("_."), c[2:].strip() if c.startswith("_.") else c.strip()) for c in r[1:-1].split("|")] for r in rows])
        for r in rows:
            for c in r[1:-1].split("|"):
                if re.match(r"_(?!. )|(?:[<>=^~]|[/\\]\d+)+\. ", c):
                    raise Bad("Textile reads an attribute in %r" % c)
    return out


def read_markdown(text):
    out = []
    for t in tables_of(text, lambda x: x.startswith("|")):
        rows = []
        for line in t:
            if not line.endswith("|"):
                raise Bad("broken Markdown row %r" % line)
            cells = [c.strip() for c in line[1:-1].split("|")]
            if all(re.fullmatch("-+", c) for c in cells) and len(rows) == 1:
                rows = [[(True, c) for _, c in rows[0]]]
                if len(cells) != len(rows[0]):
                    raise Bad("the Markdown header line has not as many cells as the header: %r" % t)
                continue
            rows.append([(False, c) for c in cells])
        out.append(rows)
    return out


def columns(line):
    """docutils counts columns: two for wide characters (and, other than its documentation says, one for combining ones)."""
    return "".join(c + "\0" if unicodedata.east_asian_width(c) in "WF" else c for c in line)


def read_rest(text):
    out = []
    for t in tables_of(text, lambda x: x[:1] in "+|" and x):
        if not t[0].startswith("+"):
            continue                      # the definitions below
        rows, edges, head = [], None, False
        for i, line in enumerate(t):
            if line.startswith("+"):
                pos = [j for j, ch in enumerate(line) if ch == "+"]
                if edges is not None and pos != edges or not re.fullmatch(r"\+(-+\+)+|\+(=+\+)+", line) or i % 2:
                    raise Bad("ReST grid line out of place: %r" % line)
                edges = pos
                if "=" in line:
                    if i != 2 or len(t) == 3:
                        raise Bad("ReST header line out of place")
                    head = True
            else:
                line = columns(line)
                if not i % 2 or len(line) != edges[-1] + 1 or any(line[j] != "|" for j in edges):
                    raise Bad("ReST row not on the grid: %r" % line)
                rows.append([line[a + 1:b].replace("\0", "").strip() for a, b in zip(edges, edges[1:])])
        if len(t) != 2 * len(rows) + 1:
            raise Bad("ReST grid not closed")
        out.append([[(head and i == 0, c) for c in r] for i, r in enumerate(rows)])
    return out


READ = {"creole": read_creole, "textile": read_textile, "markdown": read_markdown, "rest": read_rest}


def check(tables, ctx, sep="", shell="%s", deep=True):
    built = [build(t) for t in tables]
    src = shell % sep.join(h for h, _ in built)
    for target, read in READ.items():
        out = TARGETS[target](src)
        ctx.runs += 1
        ctx.outcome(out)
        try:
            got = read(out)
        except Bad as b:
            raise Bad("html2%s: %s\n%s" % (target, b.what, out))
        want = []
        for _, words in built:
            w = expected(words, target)
            width = max(len(r) for r in w)
            if target in ("markdown", "rest"):
                first = [h for h, _ in w[0]]
                if not any(first) or target == "rest" and len(w) == 1:
                    head = False
                elif all(first):
                    head = True
                else:
                    head = None          # a row of both kinds: either is right
                w = [[(head if i == 0 else False, c) for _, c in r] + [(head if i == 0 else False, "")] * (width - len(r)) for i, r in enumerate(w)]
            want.append(w)
        bad = len(got) != len(want)
        for g, w in zip(got, want):
            bad = bad or len(g) != len(w) or any(
                len(x) != len(y) or any(c != d or (k is not None and h != k) for (h, c), (k, d) in zip(x, y)) for x, y in zip(g, w))
        if bad:
            raise Bad("html2%s misplaces the cells\n%s\n  expected: %r\n  got:      %r" % (target, out, want, got))
        if target == "rest" and deep:
            try:
                _, err = rst.tree(out)
            except rst.Unknown as e:
                raise Bad("docutils sees something else: %s\n%s" % (e, out))
            if err:
                raise Bad("docutils complains: %s\n%s" % (err, out))
        ctx.nontrivial += 1


def shapes(rows, cols):
    """All row lengths: 1..rows rows of 1..cols cells."""
    for n in range(1, rows + 1):
        yield from itertools.product(range(1, cols + 1), repeat=n)


def grids(rows, cols, menu, heads=True, limit=9):
    for shape in shapes(rows, cols):
        n = sum(shape)
        if n > limit:
            continue
        for hs in (itertools.product((0, 1), repeat=n) if heads else [(0,) * n]):
            for ks in itertools.product(menu, repeat=n):
                cells = list(zip(hs, ks))
                t, i = [], 0
                for w in shape:
                    t.append(tuple(cells[i:i + w]))
                    i += w
                yield tuple(t)


SMALL = [((0, "w"),), ((1, "w"),)]
MINI = [(((0, "w"),),), (((1, "w"),), ((0, "w"),)), (((0, "w"), (0, "link")), ((0, ""),)), (((1, "w"), (1, "w")), ((0, "img"), (0, "br")), ((0, "w"),))]
SHELLS = {"alone": "%s", "between": "<p>q</p>%s<p>q</p>", "head": "<h2>q</h2>\n%s\n<ul><li>q</li></ul>", "tbody": "<div>%s</div>", "nl": "\n  %s\n  "}


def join_items(n):
    for k in range(1, n + 1):
        for ts in itertools.product(range(len(MINI)), repeat=k):
            for sep in ("", "\n", "<p>q</p>", "<hr />" if k < 3 else ""):
                for shell in SHELLS:
                    yield ts, sep, shell


def parts_items():
    """thead, tbody, tfoot, caption-free; omitted end tags; white space in every place."""
    for t in grids(3, 2, ("w",), True, 4):
        for part in ("tbody", "thead", "split", "open", "space"):
            yield t, part


def parts(it, ctx=None):
    t, part = it
    h, words = build(t)
    rows = re.findall("<tr>.*?</tr>", h)
    if part == "tbody":
        h = "<table><tbody>%s</tbody></table>" % "".join(rows)
    elif part == "thead":
        h = "<table><thead>%s</thead><tbody>%s</tbody></table>" % (rows[0], "".join(rows[1:]))
    elif part == "split":
        h = "<table>\n<thead>\n%s\n</thead>\n<tbody>%s</tbody>\n<tfoot>\n%s</tfoot></table>" % (rows[0], "".join(rows[1:-1]), rows[-1] if len(rows) > 1 else "")
    elif part == "open":
        h = re.sub("</t[rdh]>", "", h)
    else:
        h = re.sub("(</?t[a-z]*>)", r"\n  \1 ", h)
    if ctx is None:
        return h
    base, _ = build(t)
    for target, f in TARGETS.items():
        a, b = f(base), f(h)
        ctx.runs += 2
        ctx.nontrivial += 1
        ctx.outcome(b)
        if a != b:
            raise Bad("html2%s: the table written with %s differs\n  %r\n  %r" % (target, part, a, b))


def sized(q):
    """Tables of every size: rows, columns, width of one cell in any row, number of tables."""
    sizes = [n for n in scale.sizes(q, 300)]
    for n in sizes:
        for what in ("rows", "columns", "late long cell", "late header", "late column", "long cell", "long header", "tables", "empty rows"):
            if what not in ("columns", "tables", "late column") or n <= 130:
                yield what, n


def sized_tables(it):
    what, n = it
    w, h = (0, "w"), (1, "w")
    if what == "rows":
        return [((h, h),) + ((w, w),) * n]
    if what == "columns":
        return [((h,) * n, (w,) * n)]
    if what == "late long cell":
        return [((h, w),) + ((w, w),) * n + (((0, "long"), (0, "long")),)]
    if what == "late header":
        return [((w, w),) * n + ((h, w), (w, h))]
    if what == "late column":
        return [((h,),) + ((w,),) * (n % 12) + ((w,) * n,)]
    if what in ("long cell", "long header"):
        c = (int(what == "long header"), "x%d" % n)
        return [((h, h), (w, c), (w, w)), ((c, w), (w, w))][:1 if what == "long cell" else 2]
    if what == "tables":
        return [MINI[i % len(MINI)] for i in range(n)]
    return [((h, w),) + (((0, ""), (0, "")),) * n + ((w, w),)]


def sized_check(it, ctx):
    check(sized_tables(it), ctx, "<p>q</p>", "%s", deep=it[1] < 34)


def describe(t):
    return build(t)[0]


def spaces(tier):
    q = tier == "quick"
    menu = ("w", "", "link", "br") if q else ("w", "", "link", "br", "img")
    return [
        Space("shapes", lambda: grids(3, 3, ("w",), True, 9 if q else 9), lambda t, c: check([t], c, deep=False), describe,
              rule="all tables of <= 3 rows of 1-3 cells each (ragged too), every choice of header cells"),
        Space("contents", lambda: grids(2, 2, KINDS, False, 4), lambda t, c: check([t], c), describe,
              rule="all tables of <= 2 rows of 1-2 cells with <= %d cells x %d contents per cell" % (4, len(KINDS))),
        Space("values", lambda: grids(2, 2, ["v" + v for v in VALUES] + [""] if not q else ["v" + v for v in VALUES[:9]] + [""], True, 3), lambda t, c: check([t], c), describe,
              rule="the same with numbers, dates and other short values, every choice of header cells"),
        Space("single values", lambda: grids(2, 2, ["v" + v for v in VALUES], True, 2), lambda t, c: check([t], c), describe, rule="two cells, all values"),
        Space("both", lambda: grids(3, 3, menu, True, 4 if q else 5), lambda t, c: check([t], c, deep=False), describe,
              rule="all tables of <= 3 rows with <= %d cells, every choice of header cells x %d contents" % (4 if q else 5, len(menu))),
        Space("long", lambda: grids(4 if q else 5, 2, ("w", ""), False, 6 if q else 8), lambda t, c: check([t], c, deep=False), describe,
              rule="all ragged tables of <= %d rows with empty cells" % (4 if q else 5)),
        Space("in a row", lambda: join_items(2 if q else 3), lambda it, c: check([MINI[i] for i in it[0]], c, it[1], SHELLS[it[2]]), lambda it: it,
              rule="all sequences of <= %d of 4 tables x separators x surroundings" % (2 if q else 3)),
        Space("sizes", lambda: sized(q), sized_check, lambda it: it,
              rule="every size up to a bound and around powers of 2 and 10 of 9 kinds of tables: rows, columns, long cells and headers (also late ones), number of tables"),
        Space("parts", parts_items, parts, parts, rule="all small tables, written with thead/tbody/tfoot, omitted end tags, white space"),
    ]
