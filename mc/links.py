"""Links and images whose text is related to their target: HTML documents for the round trips."""
import html
import posixpath
import re

HREFS = ["http://h.org/", "http://h.org/p/q.html", "https://h.org/a?b=c&amp;d=e", "/", "/w/Page", "w/Page", "Page", "../up", "#frag", "mailto:a@b.org", "ftp://h.org/x", "data/x", "database",
         "HTTP://H.ORG/A", "//h.org/x", "/a%20b", "/\u00fc", "http://h.org:80/", "?q=1", "/x.png", "x.html#a", "/w/page", "http", "/w/Page/", "news:x", "/1", "a-b.c", "/a_b"]
SRCS = ["http://h.org/g.png", "/g.png", "g.png", "data/g.png", "database.png", "../g.jpg", "/p/g.png", "/p/g", "/a%20b.png", "/\u00fc.png", "https://h.org/g?a=b&amp;c=d", "/1.png", "data"]
KINDS = ["same", "tail", "head", "body", "upper", "other", "lower", "stem", "longer", "slash", "unslash", "twice", "unquoted"]


def related(target, kind):
    t = {"same": target, "tail": re.sub(r".*[/:]", "", target.rstrip("/")), "head": re.sub(r"[/:.].*", "", target), "body": re.sub(r"^[a-z]+:/*|^/+", "", target), "upper": target.upper(),
         "lower": target.lower(), "other": "x z", "stem": re.sub(r"\.[a-z]+$", "", target), "longer": target + "a",
         "slash": target + "/", "unslash": target.rstrip("/"), "twice": target + " " + target, "unquoted": target.replace("%20", " ")}[kind]
    return t.replace("&AMP;", "&amp;")


CONTEXTS = ["<p>%s</p>", "<p>q %s r</p>", "<ul><li>%s</li><li>q</li></ul>", "<table><tr><th>q</th><th>r</th></tr><tr><td>%s</td><td>q</td></tr></table>", "<p>q <strong>%s</strong></p>"]


def items(hrefs=HREFS, srcs=SRCS, kinds=KINDS, contexts=CONTEXTS):
    for what, targets in (("a", hrefs), ("img", srcs), ("titled", srcs)):
        for t in targets:
            done = set()
            for k in kinds:
                x = related(t, k)
                if x and x not in done:
                    done.add(x)
                    for c in contexts:
                        yield what, t, x, c


RULE = "%d link and %d image targets x %d relations of text and target x contexts" % (len(HREFS), len(SRCS), len(KINDS))


def src(it):
    what, t, x, c = it
    if what == "a":
        s = '<a href="%s">%s</a>' % (t, x)
    elif what == "img":
        s = '<img src="%s" alt="%s" />' % (t, x)
    else:
        s = '<img src="%s" alt="%s" title="%s" />' % (t, x, x)
    return c % s


# Images with any pair of alt text and title
TEXTS = [None, "", "x", "x y", "x  y", "x\ny", "zzz z", "x&amp;y", "&auml;", "x.png", "i.png", "(x"]
EDGES = [" x", "x ", "x)"]


def length(t, flat):
    t = html.unescape(t or "")
    return len(" ".join(t.split())) if flat else len(t)


def image_items(more=(), contexts=CONTEXTS):
    texts = TEXTS + list(more)
    for alt in texts:
        for title in texts:
            if (length(alt, 0) > length(title, 0)) != (length(alt, 1) > length(title, 1)):
                continue                 # which one is the longer one depends on the white space
            for s in ("/i.png", "/a/b/j", "http://h.org/k.png?x=1"):
                for c in contexts:
                    yield alt, title, s, c


def image_src(it):
    alt, title, s, c = it
    return c % ('<img src="%s"%s%s />' % (s, "" if alt is None else ' alt="%s"' % alt, "" if title is None else ' title="%s"' % title))


def image_plain(it, titled=False):
    """The same with the one description which the targets without separate alt text and title show."""
    alt, title, s, c = it
    t = " ".join(((alt if length(alt, 0) > length(title, 0) else title) or "").split()) or posixpath.basename(s)
    return c % ('<img src="%s" alt="%s"%s />' % (s, t, ' title="%s"' % t if titled else ""))


def image_flat(it):
    """Both, white space aside."""
    alt, title, s, c = it
    alt, title = [" ".join((t or "").split()) for t in (alt, title)]
    return image_src((alt, title or None, s, c))


IMAGE_RULE = "images: all pairs of >= %d alt texts and titles x targets x contexts" % len(TEXTS)


# Every character that may stand in a URL, in the path, the query and the fragment
LEGAL = "-._~!$&'()*+,;=:@%"
URL_SHAPES = ["/a%sb", "/%sb", "/a%s", "http://h.org/a%sb", "/a?b%sc", "/a#b%sc", "/a%sb/c?d=e", "/a%sb%sc", "/a%sb?c%sd#e%sf", "d%s/e", "http://h.org/?a%sb=c"]
URL_FORMS = {"a": '<p>q <a href="%s">x z</a> r</p>', "img": '<p>q <img src="%s" alt="x" title="x" /> r</p>', "cell": '<table><tr><th>q</th></tr><tr><td><a href="%s">x z</a></td></tr></table>'}


def legal_items(skip):
    """skip(character, shape, form): not possible in the target"""
    for ch in LEGAL:
        for shape in URL_SHAPES:
            for form in URL_FORMS:
                if not skip(ch, shape, form):
                    yield ch, shape, form


def legal_src(it):
    ch, shape, form = it
    t = shape.replace("%s", "%41" if ch == "%" else ch).replace("&", "&amp;")
    return URL_FORMS[form].replace("%s", t)


LEGAL_RULE = "every character that is legal in URLs at %d places of the target x %d forms" % (len(URL_SHAPES), len(URL_FORMS))
