"""Abstract inline documents: exhaustive generation by size, printers, expected trees.

An inline node is one of
    ("t",)                 a word                     ("br",)      forced line break
    ("code",)              inline literal             ("url",)     free standing URL
    ("link",) ("blink",)   link with / without text   ("ilink",)   link around an image
    ("img",) ("timg",) ("simg",)  image: bare, with title, with title and size
    (face, [nodes])        a typeface
Words are numbered in reading order by Fill, so every piece of content is unique.
"""
from functools import lru_cache

FACES = {"strong": "**", "i": "//", "tt": "##", "sup": "^^", "sub": ",,", "u": "__", "small": "--", "del": "~~"}


@lru_cache(maxsize=None)
def seqs(n, leaves, faces, used=(), inlink=False):
    """All inline sequences with exactly n nodes; a typeface is not nested in itself; words are not adjacent."""
    if n == 0:
        return ((),)
    out = []
    for k in range(1, n + 1):
        for first in nodes(k, leaves, faces, used):
            for rest in seqs(n - k, leaves, faces, used):
                if rest and first == ("t",) and rest[0] == ("t",):
                    continue
                out.append((first,) + rest)
    return tuple(out)


@lru_cache(maxsize=None)
def nodes(n, leaves, faces, used=()):
    if n == 1:
        return tuple((x,) for x in leaves)
    out = []
    for f in faces:
        if f in used:
            continue
        for inner in seqs(n - 1, leaves, faces, used + (f,)):
            out.append((f, inner))
    return tuple(out)


def size(seq):
    return sum(1 + (size(x[1]) if len(x) > 1 else 0) for x in seq)


class Fill:
    """Hands out the unique words."""

    def __init__(self):
        self.n = 0

    def __call__(self, p="w"):
        self.n += 1
        return "%s%d" % (p, self.n)


def numbered(seq, fill):
    """Attach the concrete words: every node becomes (kind, words, children)."""
    out = []
    for x in seq:
        k = x[0]
        if len(x) > 1:
            out.append((k, (), numbered(x[1], fill)))
        elif k == "t":
            out.append((k, (fill(),), ()))
        elif k == "br":
            out.append((k, (), ()))
        elif k == "code":
            out.append((k, (fill("c"),), ()))
        elif k == "url":
            out.append((k, ("http://%s.org/a" % fill("h"),), ()))
        elif k == "blink":
            out.append((k, (fill("l"),), ()))
        elif k == "link":
            out.append((k, ("http://%s/" % fill("l"), fill("x") + " z"), ()))
        elif k == "ilink":
            out.append((k, (fill("l"), fill("g"), fill("a")), ()))
        elif k == "img":
            out.append((k, (fill("g") + ".png",), ()))
        elif k == "timg":
            out.append((k, (fill("g") + ".png", fill("a") + " z"), ()))
        elif k == "simg":
            out.append((k, (fill("g") + ".png", fill("a"), "12", "34"), ()))
        else:
            raise AssertionError(k)
    return out


def creole(seq, sep=""):
    """Print to Creole."""
    parts = []
    for i, (k, w, kids) in enumerate(seq):
        if k in FACES:
            s = FACES[k] + creole(kids, sep) + FACES[k]
        elif k == "t":
            s = w[0]
        elif k == "br":
            s = "\\\\"
        elif k == "code":
            s = "{{{%s}}}" % w
        elif k == "url":
            s = w[0]
        elif k == "blink":
            s = "[[%s]]" % w
        elif k == "link":
            s = "[[%s|%s]]" % w
        elif k == "ilink":
            s = "[[%s|{{%s|%s}}]]" % w
        elif k == "img":
            s = "{{%s}}" % w
        elif k == "timg":
            s = "{{%s|%s}}" % w
        elif k == "simg":
            s = "{{%s|%s|%sx%s}}" % w
        parts.append((k, s))
    return glue(parts, sep)


def glue(parts, sep):
    """A free standing URL needs white space around it."""
    out = ""
    for i, (k, s) in enumerate(parts):
        if i:
            out += sep or (" " if "url" in (k, parts[i - 1][0]) else "")
        out += s
    return out


def tree(seq, sep="", strict=False):
    """The expected canonical content (before white space normalisation)."""
    out = []
    for i, (k, w, kids) in enumerate(seq):
        if i and (sep or "url" in (k, seq[i - 1][0])):
            out.append(sep or " ")
        if k in FACES:
            out.append((k, (), tuple(tree(kids, sep, strict))))
        elif k == "t":
            out.append(w[0])
        elif k == "br":
            out.append(("br", (), ()))
        elif k == "code":
            out.append(("code", (), (w[0],)))
        elif k in ("url", "blink"):
            out.append(("a", (("href", w[0]),), (w[0],)))
        elif k == "link":
            out.append(("a", (("href", w[0]),), (w[1],)))
        elif k == "ilink":
            out.append(("a", (("href", w[0]),), (img(w[1], w[2]),)))
        elif k == "img":
            out.append(img(w[0], w[0]))
        elif k == "timg":
            out.append(img(w[0], w[1]))
        elif k == "simg":
            if strict:
                out.append(img(w[0], "%s|%sx%s" % w[1:]))
            else:
                out.append(img(w[0], w[1], w[2], w[3]))
    return out


def img(src, title, width=None, height=None):
    a = [("alt", title), ("src", src), ("title", title)]
    if width:
        a += [("width", width), ("height", height)]
    return ("img", tuple(sorted(a)), ())


def normal(kids, block=True):
    """Merge text, collapse white space, trim at block edges and around <br> (as htm.canon does)."""
    from mc import htm
    res = []
    for k in kids:
        if isinstance(k, str):
            if res and isinstance(res[-1], str):
                res[-1] += k
            else:
                res.append(k)
        elif k[0] == "pre":
            res.append((k[0], k[1], tuple(k[2])))
        else:
            res.append((k[0], k[1], tuple(normal(k[2], k[0] in htm.BLOCKS))))
    out = []
    for i, x in enumerate(res):
        if isinstance(x, str):
            x = htm._WS.sub(" ", x)
            if (i == 0 and block) or (i and not isinstance(res[i - 1], str) and res[i - 1][0] in htm.BLOCKS):
                x = x.lstrip(" ")
            if (i == len(res) - 1 and block) or (i < len(res) - 1 and not isinstance(res[i + 1], str) and res[i + 1][0] in htm.BLOCKS):
                x = x.rstrip(" ")
            if x == "":
                continue
        out.append(x)
    return out


# ---------------------------------------------------------------------------
# lists: sequences of (level, kind)

def marker_seqs(n, depth, mixed=True, jump=1, change=False):
    """All item sequences ((level, kind), ...) of n items with levels <= depth, starting on level 1.

    mixed: nested lists may be of the other kind; jump: how many levels an item may be deeper than the one before;
    change: an item may be of the other kind than the list of its level (then a new list starts there).
    """
    def go(prefix, open_):
        if len(prefix) == n:
            yield tuple(prefix)
            return
        for level in range(1, min(len(open_) + (jump if prefix else 1), depth) + 1):
            for kind in "*#":
                if level <= len(open_):
                    if open_[level - 1] not in (kind, None) and not change:
                        continue
                    yield from go(prefix + [(level, kind)], open_[:level - 1] + [kind])
                else:
                    if not mixed and open_ and open_[0] != kind:
                        continue
                    yield from go(prefix + [(level, kind)], open_ + [None] * (level - len(open_) - 1) + [kind])
    yield from go([], [])


def list_tree(items):
    """items: [(level, kind, content list)] -> canonical ul/ol trees."""
    tag = {"*": "ul", "#": "ol"}
    top = []                  # lists of the document
    stack = []                # open lists: [level, tag, items]
    for level, kind, content in items:
        while stack and stack[-1][0] > level:
            stack.pop()
        if stack and stack[-1][0] == level and stack[-1][1] != tag[kind]:
            stack.pop()
        if not stack or stack[-1][0] < level:
            new = [level, tag[kind], []]
            (stack[-1][2][-1] if stack else top).append(new)
            stack.append(new)
        stack[-1][2].append(list(content))

    def freeze(lst):
        return (lst[1], (), tuple(("li", (), tuple(freeze(x) if isinstance(x, list) else x for x in li)) for li in lst[2]))
    return [freeze(x) for x in top]
