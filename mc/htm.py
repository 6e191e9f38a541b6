"""HTML reading used by the oracles (never by the code under test)."""
import html as _html
import re
from html.parser import HTMLParser as _Std

from mc.engine import Bad

_TOK = re.compile(r'<(/?)([a-z][a-z0-9]*)((?:\s+[a-z]+="[^"<>]*")*)\s*(/?)>|([^<]+)|(<)')
_ATT = re.compile(r'\s+([a-z]+)="([^"<>]*)"')
_REF = re.compile(r'&(#[0-9]+|#[xX][0-9a-fA-F]+|[a-zA-Z][a-zA-Z0-9]*);')

VOID = {"br", "hr", "img"}
INLINE = {"strong", "i", "tt", "sup", "sub", "u", "small", "del", "a", "code"}
VOCAB = {
    "p": (), "br": (), "strong": (), "i": (), "tt": (), "sup": (), "sub": (), "u": (), "small": (), "del": (),
    "code": (), "pre": (), "hr": (), "ul": (), "ol": (), "li": (), "table": (), "tr": (), "th": (), "td": (),
    "a": ("href", "name"), "img": ("src", "title", "alt", "width", "height"),
    "h1": (), "h2": (), "h3": (), "h4": (), "h5": (), "h6": (),
}
HEADS = {"h1", "h2", "h3", "h4", "h5", "h6"}
FLOW = {"p", "hr", "ul", "ol", "table", "pre"} | HEADS


class NotStrict(Bad):
    pass


class Node:
    __slots__ = ("tag", "attrs", "kids")

    def __init__(self, tag, attrs=()):
        self.tag, self.attrs, self.kids = tag, dict(attrs), []

    def __repr__(self):
        return "<%s%s %r>" % (self.tag, "".join(" %s=%r" % kv for kv in self.attrs.items()), self.kids)


def decode(s):
    """Decode references; a bare & is an error."""
    if "&" not in s:
        return s
    rest = _REF.sub("", s)
    if "&" in rest:
        raise NotStrict("unescaped & in %r" % s)
    return _html.unescape(s)


def strict(src, vocab=VOCAB):
    """Parse HTML that must be properly nested and fully escaped."""
    root = Node("#root")
    stack = [root]
    for m in _TOK.finditer(src):
        end, tag, atts, slash, text, bad = m.groups()
        if bad:
            raise NotStrict("stray < at %d in %r" % (m.start(), src[max(0, m.start() - 20):m.start() + 40]))
        if text is not None:
            if ">" in text:
                raise NotStrict("unescaped > in %r" % text)
            stack[-1].kids.append(decode(text))
            continue
        if tag not in vocab:
            raise NotStrict("undocumented element %r" % tag)
        if end:
            if atts or slash or len(stack) == 1 or stack[-1].tag != tag:
                raise NotStrict("</%s> closes <%s>" % (tag, stack[-1].tag))
            stack.pop()
            continue
        pairs = [(k, decode(v)) for k, v in _ATT.findall(atts)]
        names = [k for k, _ in pairs]
        if len(set(names)) != len(names) or any(k not in vocab[tag] for k in names):
            raise NotStrict("attributes %r on <%s>" % (names, tag))
        node = Node(tag, pairs)
        stack[-1].kids.append(node)
        if tag in VOID:
            if not slash:
                raise NotStrict("<%s> not closed" % tag)
        elif slash:
            raise NotStrict("<%s /> is not a void element" % tag)
        else:
            stack.append(node)
    if len(stack) != 1:
        raise NotStrict("<%s> never closed" % stack[-1].tag)
    return root


def check_model(node, inside="#root"):
    """Content model: where may an element stand."""
    for k in node.kids:
        if isinstance(k, str):
            if inside in ("ul", "ol", "table", "tr", "#root") and k.strip():
                raise NotStrict("text %r directly inside <%s>" % (k, inside))
            continue
        t = k.tag
        if t == "li":
            ok = inside in ("ul", "ol")
        elif t == "tr":
            ok = inside == "table"
        elif t in ("td", "th"):
            ok = inside == "tr"
        elif t in ("ul", "ol"):
            ok = inside in ("#root", "li") or (inside in ("ul", "ol"))
        elif t in HEADS:
            ok = inside == "#root" or (inside == "a" and "name" in node.attrs)
        elif t in FLOW:
            ok = inside == "#root"
        elif t == "a" and "name" in k.attrs:
            ok = inside == "#root"
        else:
            ok = inside in INLINE or inside in ("p", "li", "td", "th")
            if t == "a" and inside == "a":
                ok = False
            if inside == "code":
                ok = False
        if not ok:
            raise NotStrict("<%s> inside <%s>" % (t, inside))
        check_model(k, t)


def walk(node):
    for k in node.kids:
        yield k
        if not isinstance(k, str):
            yield from walk(k)


# ---------------------------------------------------------------------------
# tolerant reading -> canonical tree (used to compare renderings)

_VOIDS = {"br", "hr", "img", "input", "meta", "link", "col"}


class _Tol(_Std):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.root = Node("#root")
        self.stack = [self.root]

    def handle_starttag(self, tag, attrs):
        n = Node(tag, [(k, v if v is not None else "") for k, v in attrs])
        self.stack[-1].kids.append(n)
        if tag not in _VOIDS:
            self.stack.append(n)

    def handle_startendtag(self, tag, attrs):
        n = Node(tag, [(k, v if v is not None else "") for k, v in attrs])
        self.stack[-1].kids.append(n)

    def handle_endtag(self, tag):
        for i in range(len(self.stack) - 1, 0, -1):
            if self.stack[i].tag == tag:
                del self.stack[i:]
                return

    def handle_data(self, data):
        self.stack[-1].kids.append(data)


def tolerant(src):
    t = _Tol()
    t.feed(src)
    t.close()
    return t.root


BLOCKS = FLOW | {"li", "tr", "td", "th", "div", "blockquote", "#root", "thead", "tbody", "br"}
_WS = re.compile(r"[ \t\r\n\f]+")


def canon(node, rename=None, keep=None, drop=(), unwrap=()):
    """Canonical nested tuple.

    Text is whitespace-collapsed, trimmed at block boundaries; pre keeps its
    text.  rename maps tag names, keep maps tag -> kept attributes, drop
    removes elements with their content, unwrap removes just the tags.
    """
    rename = rename or {}

    def inner(n, pre):
        out = []
        for k in n.kids:
            if isinstance(k, str):
                out.append(k if pre else _WS.sub(" ", k))
                continue
            if k.tag in drop:
                continue
            if k.tag in unwrap:
                out.extend(inner(k, pre))
                continue
            t = rename.get(k.tag, k.tag)
            attrs = tuple(sorted((a, v) for a, v in k.attrs.items() if keep is None or a in keep.get(t, ())))
            sub = inner(k, pre or t == "pre")
            if t != "pre" and not pre:
                sub = tidy(sub, t in BLOCKS or t == "#root")
            else:
                sub = merge(sub)
            out.append((t, attrs, tuple(sub)))
        return out

    def merge(seq):
        res = []
        for x in seq:
            if isinstance(x, str) and res and isinstance(res[-1], str):
                res[-1] += x
            else:
                res.append(x)
        return [x for x in res if x != ""]

    def tidy(seq, block):
        seq = merge(seq)
        n = len(seq)
        res = []
        for i, x in enumerate(seq):
            if isinstance(x, str):
                x = _WS.sub(" ", x)
                prev_edge = (i == 0 and block) or (i > 0 and not isinstance(seq[i - 1], str) and seq[i - 1][0] in BLOCKS)
                next_edge = (i == n - 1 and block) or (
                    i < n - 1 and not isinstance(seq[i + 1], str) and seq[i + 1][0] in BLOCKS)
                if prev_edge:
                    x = x.lstrip(" ")
                if next_edge:
                    x = x.rstrip(" ")
                if x == "":
                    continue
            res.append(x)
        return res

    return tuple(tidy(inner(node, False), True))
