"""C11: table of contents."""
import itertools

from creole import creole2html
from mc import htm
from mc.engine import Space, Bad

TITLES = ["%d", "a & %d", "<b> %d", "\"q%d\"", "x %d' y", "<<toc>>", "same", "é %d", "%d|x", "[[%d]]", "**%d**", "# %d", "~%d \\\\", "a  b%d", "{{{%d}}}",
          "&lt;%d;", "%d%%s{0}\\1", "a=%d=b", "/%d?x#y", "<<m>>%d"]
TOCS = {
    "<<toc>>": None, "<<toc depth=1>>": 1, "<<toc depth=2>>": 2, "<<toc depth=3 />>": 3, "<<toc depth='2'>>": 2, "<<toc />>": None, "<<toc depth=4>>": 4,
    "<<toc depth=99>>": None, "<<toc depth=None>>": None,
}


def toc_tree(entries):
    """Absolute nesting: an entry of level n stands in the n-th nested list; lists stay open until a lower level."""
    root = ["ul", []]
    path = [root]
    for level, text in entries:
        del path[max(level, 1):]
        while len(path) < level:
            new = ["ul", []]
            path[-1][1].append(new)
            path.append(new)
        path[-1][1].append(("li", (), (("a", (("href", "#" + text),), (text,)),)))

    def freeze(x):
        return ("ul", (), tuple(freeze(k) if isinstance(k, list) else k for k in x[1]))
    return freeze(root)


def heading(level, text, anchor):
    h = ("h%d" % level, (), (text,))
    return ("a", (("name", text),), (h,)) if anchor else h


def canon(html):
    try:
        t = htm.canon(htm.strict(html))
    except htm.NotStrict as e:
        raise Bad("%s: %r" % (e, html))
    return norm(t)


def norm(t):
    """White space between blocks is no content; anchors and their headings are compared with collapsed white space."""
    out = []
    for k in t:
        if isinstance(k, str):
            if k.strip() == "":
                continue
            out.append(k.strip())
        else:
            out.append((k[0], tuple((a, htm._WS.sub(" ", v)) for a, v in k[1]), norm(k[2])))
    return tuple(out)


PARTS = {
    "p": ("text", ("p", (), ("text",))), "l": ("* item", ("ul", (), (("li", (), ("item",)),))),
    "n": ("{{{\n<<toc>>\n}}}", ("pre", (), ("\n<<toc>>\n",))), "i": ("q {{{<<toc>>}}}", ("p", (), ("q", ("code", (), ("<<toc>>",))))),
    "t": ("|c|", ("table", (), (("tr", (), (("td", (), ("c",)),)),))), "e": ("~<<toc>>", ("p", (), ("<<toc>>",))),
    "r": ("----", ("hr", (), ())),
}


def build(item):
    """item: (parts, title offset, separator); a part is ('h', level) | ('toc', spelling) | ('x', key)."""
    parts, off, sep = item
    src, want, entries, depth, where, n = [], [], [], None, None, 0
    has = any(p[0] == "toc" for p in parts)
    for p in parts:
        if p[0] == "h":
            if isinstance(off, tuple):
                t = off[n]
            else:
                t = TITLES[(off + n) % len(TITLES)]
                t = t % n if "%d" in t else t
            n += 1
            src.append("=" * p[1] + " " + t)
            c = htm._WS.sub(" ", t)
            entries.append((min(p[1], 6), c))
            want.append(heading(min(p[1], 6), c, has))
        elif p[0] == "toc":
            src.append(p[1])
            if where is None:
                where, depth = len(want), TOCS[p[1]]
                want.append(None)
            else:
                want.append(("p", (), ("<<toc>>",)))
        else:
            s, w = PARTS[p[1]]
            src.append(s)
            want.append(w)
    if where is not None:
        want[where] = toc_tree([e for e in entries if depth is None or e[0] <= depth])
    return sep.join(src), tuple(want)


def judge(item, ctx):
    src, want = build(item)
    want = norm(want)
    for blog in (True, False):
        for macros in (None, {}, {"m": 1}, OBJ):
            html = creole2html(src, blog_line_breaks=blog, macros=macros)
            ctx.runs += 1
            got = canon(html)
            if got != want:
                raise Bad("html: %r\n  expected: %r\n  got:      %r" % (html, want, got))
    ctx.outcome(html)
    ctx.nontrivial += 1


class OBJ:
    m = 1


OBJ = OBJ()


def outline_items(n, levels, tocs, offs=(0,)):
    for m in range(0, n + 1):
        for lv in itertools.product(range(1, levels + 1), repeat=m):
            for pos in range(m + 1):
                for t in tocs:
                    for off in offs:
                        parts = [("h", x) for x in lv]
                        parts.insert(pos, ("toc", t))
                        yield tuple(parts), off, "\n\n"


def tight_ok(parts):
    """Without a blank line a toc next to running text belongs to that paragraph; after a list it continues the item."""
    for a, b in zip(parts, parts[1:]):
        pair = {a[0], b[0]}
        ka, kb = (a[1] if a[0] == "x" else a[0]), (b[1] if b[0] == "x" else b[0])
        text = {"p", "i", "e", "toc"}
        if ka in text | {"l"} and kb in text:
            return False
        if ka == kb and ka in "lt":
            return False
    return True


SAME = ["a", "b", "a b", "A", "a-1"]


def same_items(n, names, levels):
    """Headings which share their titles, or nearly so"""
    for m in range(1, n + 1):
        for lv in itertools.product(range(1, levels + 1), repeat=m):
            for ts in itertools.product(names, repeat=m):
                for pos in (0, m):
                    parts = [("h", x) for x in lv]
                    parts.insert(pos, ("toc", "<<toc>>"))
                    yield tuple(parts), ts, "\n\n"


def size_items(q):
    from mc import scale
    for n in scale.sizes(q, 300):
        for name in LADDERS:
            for t in ("<<toc>>", "<<toc depth=2>>"):
                for pos in (0, n // 2, n):
                    parts = [("h", LADDERS[name](i, n)) for i in range(n)]
                    parts.insert(pos, ("toc", t))
                    yield tuple(parts), tuple("t%d" % i for i in range(n)), "\n"


LADDERS = {"flat": lambda i, n: 1, "second": lambda i, n: 1 if not i else 2, "saw": lambda i, n: 1 + i % 3, "down": lambda i, n: 3 - i % 3, "third": lambda i, n: 3}


def mixed_items(n, seps):
    menu = [("h", 1), ("h", 2), ("h", 4), ("toc", "<<toc>>"), ("toc", "<<toc depth=2>>")] + [("x", k) for k in PARTS]
    for m in range(1, n + 1):
        for parts in itertools.product(menu, repeat=m):
            for sep in seps:
                if sep == "\n" and not tight_ok(parts):
                    continue
                if any(a == b == ("x", k) for a, b in zip(parts, parts[1:]) for k in ("l", "t")) and sep == "\n":
                    continue
                yield parts, m, sep


def spaces(tier):
    q = tier == "quick"
    return [
        Space("outlines", lambda: outline_items(4 if q else 5, 4, sorted(TOCS)), judge, lambda it: build(it)[0],
              rule="all sequences of <= %d headings of 4 levels x every toc position x %d spellings of the call" % (4 if q else 5, len(TOCS))),
        Space("long outlines", lambda: outline_items(6 if q else 7, 3, ["<<toc>>", "<<toc depth=2>>"]), judge, lambda it: build(it)[0],
              rule="all sequences of <= %d headings of 3 levels x every toc position x 2 calls" % (6 if q else 7)),
        Space("deep levels", lambda: outline_items(3, 8, ["<<toc>>", "<<toc depth=3 />>"]), judge, lambda it: build(it)[0],
              rule="all sequences of <= 3 headings of 8 levels"),
        Space("titles", lambda: outline_items(3, 2, ["<<toc>>", "<<toc depth=1>>"], range(len(TITLES))), judge, lambda it: build(it)[0],
              rule="<= 3 headings of 2 levels with every run of %d titles" % len(TITLES)),
        Space("same titles", lambda: itertools.chain(same_items(4 if q else 5, SAME[:2], 3), same_items(3, SAME, 2)), judge, lambda it: build(it)[0],
              rule="<= %d headings of 3 levels with 2 titles; <= 3 of 2 levels with 5" % (4 if q else 5)),
        Space("sizes", lambda: size_items(q), judge, lambda it: build(it)[0], rule="every number of headings up to a bound and around powers of 2 and 10 x %d sequences of levels x 3 positions of 2 calls" % len(LADDERS)),
        Space("mixed", lambda: mixed_items(4 if q else 5, ["\n\n", "\n"]), judge, lambda it: build(it)[0],
              rule="all sequences of <= %d out of 12 parts: headings, one or more toc calls, text, lists, nowiki with <<toc>>, tables" % (4 if q else 5)),
    ]
