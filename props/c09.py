"""C09: every macro call is executed once, in order, with the written arguments."""
import functools
import itertools
import re
import types

from creole import creole2html
from mc.engine import Space, Bad

ARGS = [
    ("", {}), ("a=1", {"a": 1}), ("a='x y' b=\"z\"", {"a": "x y", "b": "z"}), ("k=True n=None f=False", {"k": True, "n": None, "f": False}),
    ('u="http://h/?a=b&c=d" s="<b>"', {"u": "http://h/?a=b&c=d", "s": "<b>"}), ("a='[[x]]' b=\"**\" c=a|b", {"a": "[[x]]", "b": "**", "c": "a|b"}),
    ("a=  ", {"a": ""}), ("é=ü x_1=-5", {"é": "ü", "x_1": -5}), ("a=1 a=2", {"a": 2}), ("a='it\"s'", {"a": 'it"s'}),
    ("a='x  y\t z'  b=\" q \"", {"a": "x  y\t z", "b": " q "}), ("A=\"\"  a='' Ab=aB", {"A": "", "a": "", "Ab": "aB"}), (" ".join("k%d=%d" % (i, i) for i in range(12)), {"k%d" % i: i for i in range(12)}),
    ("a=007 b=-0 c='a=b' d=1.5 e=true", {"a": 7, "b": 0, "c": "a=b", "d": "1.5", "e": "true"}), ("a=/x/y b=x>y", {"a": "/x/y", "b": "x>y"}),
]
BODIES = ["", "b", " b c ", "**x** [[y|z]] {{i}}", "~z \\\\", "<i>&amp;", "a|b", "= h", "<<other>>", "{{{c}}}", "* i", "http://h/ u", "'\"", "<</other>>", "/>", "b  \t c", "~<<m>>" , "B<>b"]
BLOCKBODIES = BODIES + ["\nl\n", "\n\n l1\n\n l2 \n\n", "* a\n* b", "{{{\n<<x>>\n}}}", "= a\n|b|\n----"]
TAGS = ["<<%s %s>>", "<<%s %s />>", "<<%s %s/>>", "<<%s  %s   >>"]
PAIRS = ["<<%s %s>>%s<</%s>>", "<< %s %s >>%s<</ %s >>", "<<%s %s  >>%s<</%s >>"]
# where a call may stand inside a line
PLACES = ["q %s r", "%s", "%s r", "q %s", "q%sr", "* q %s r", "* %s", "# q\n## %s", "|q %s|r|", "|%s|", "|=q| x %s y|", "|=%s|r|", "**q %s r**", "//%s//", "q\n%s\nr", "q\\\\%s\\\\r", "(%s)"]
SILENT = ["{{{\n%s\n}}}", "q {{{%s}}} r", "* {{{%s}}}", "|{{{%s}}}|", "q ~%s r", "* ~%s", "|~%s|", "**~%s**"]
RESULT = "\x02%d<b class=\"%%s\">&amp;\\1 {0} &</b>\x03"


def tag_text(form, name, args):
    s = form % (name, args)
    return s.replace(" >>", ">>", 1) if not args and form == TAGS[0] else s


class Call:
    def __init__(self, src, block, args, body, name, silent=False):
        self.src, self.block, self.args, self.body, self.name, self.silent = src, block, args, body, name, silent


def namespaces(calls, which=None):
    """The same macros as dict, object, class, module; as functions, partials, methods and callable objects."""
    def run(name, text, kw):
        calls.append((name, text, kw))
        return RESULT % len(calls)

    def make(name):
        def macro(text, **kw):
            return run(name, text, kw)
        return macro

    class Callable:
        def __init__(self, name):
            self.name = name

        def __call__(self, text, **kw):
            return run(self.name, text, kw)

        def method(self, text, **kw):
            return run(self.name, text, kw)
    names = ("m", "n", "o", "other", "x")
    yield "dict", {n: make(n) for n in names}
    yield "callable objects", {n: Callable(n) for n in names}
    yield "methods", {n: Callable(n).method for n in names}
    yield "partials", {n: functools.partial(lambda who, text, **kw: run(who, text, kw), n) for n in names}
    yield "namespace", types.SimpleNamespace(**{n: make(n) for n in names})
    mod = types.ModuleType("macros")
    for n in names:
        setattr(mod, n, make(n))
    yield "module", mod

    class Obj:
        pass
    o = Obj()
    for n in names:
        setattr(o, n, Callable(n).method)
    yield "object", o
    if which is not None and which not in KINDS[7:]:
        return
    own = {n: functools.partialmethod(lambda self, who, text, **kw: run(who, text, kw), n) for n in names}
    yield "methods of an object", type("Macros", (), own)()
    yield "methods of an object with slots", type("Macros", (type("Base", (), dict(own, __slots__=())),), {"__slots__": ()})()
    yield "static methods", type("Macros", (), {n: staticmethod(make(n)) for n in names})()

    class Dynamic:
        def __getattr__(self, name):
            if name in names:
                return make(name)
            raise AttributeError(name)
    yield "computed attributes", Dynamic()

    class Missing(dict):
        def __missing__(self, name):
            if name in names:
                return make(name)
            raise KeyError(name)
    yield "dict subclass", Missing()


KINDS = ["dict", "callable objects", "methods", "partials", "namespace", "module", "object", "methods of an object", "methods of an object with slots", "static methods", "computed attributes", "dict subclass"]
SPACE = re.compile(r"\s+")


def piece(kind, name):
    """kind = (form, place, args, body) indices -> (source, placeholder source or None, expected call or None)."""
    t, f, place, a, b = kind
    args, kw = ARGS[a]
    if t == "tag":
        call = tag_text(TAGS[f], name, args)
        src = PLACES[place] % call
        return src, PLACES[place], [(name, None, kw)]
    if t == "pair":
        call = PAIRS[f] % (name, args, BODIES[b], name)
        src = PLACES[place] % call
        if place_is_block(place):
            return src, ("block", PLACES[place] % ""), [(name, BODIES[b].strip(), kw)]
        return src, PLACES[place], [(name, BODIES[b].strip(), kw)]
    if t == "block":
        call = PAIRS[f] % (name, args, BLOCKBODIES[b], name)
        return call, ("block", ""), [(name, BLOCKBODIES[b].strip(), kw)]
    if t == "silent":
        call = tag_text(TAGS[0], name, args) if b is None else PAIRS[0] % (name, args, BODIES[b], name)
        if "{{{" in call and "{{{" in SILENT[place]:
            return None
        return SILENT[place] % call, None, []
    raise AssertionError(t)


def place_is_block(place):
    """A call with body at the start of a line is a block of its own."""
    p = PLACES[place]
    return p.startswith("%s") or "\n%s" in p


def usable(kind):
    t, f, place, a, b = kind
    if t == "pair":
        p = PLACES[place]
        body = BODIES[b]
        if place_is_block(place):
            return p == "%s"
        if p.startswith("|=%s"):
            return "|" not in body and "|" not in ARGS[a][0]
        if p.startswith("**") or p.startswith("//"):
            return not ("**" in body or "//" in body or "**" in ARGS[a][0] or "//" in ARGS[a][0])
    if t == "tag":
        p = PLACES[place]
        if p.startswith("**") or p.startswith("//"):
            return "**" not in ARGS[a][0] and "//" not in ARGS[a][0]
        if p.startswith("|=%s"):
            return "|" not in ARGS[a][0]
        if ARGS[a][0].endswith("=") and "/" in TAGS[f]:
            return False
    if t == "silent":
        if b is not None and "**" in SILENT[place] and "**" in BODIES[b]:
            return False
        if "~" in SILENT[place]:
            # what follows an escaped mark is ordinary markup
            return a in (0, 1, 3) and (b is None or BODIES[b] in ("", "b", " b c ", "<i>&amp;"))
    return True


def kinds(args, bodies, places, forms=None):
    for place in places:
        for a in args:
            for f in range(len(TAGS)) if forms is None else forms:
                yield "tag", f, place, a, None
            for b in bodies:
                for f in range(len(PAIRS)) if forms is None else forms:
                    yield "pair", f, place, a, b


def judge(item, ctx):
    ks, names, which = item
    pieces = [piece(k, n) for k, n in zip(ks, names)]
    src = "\n\n".join(p[0] for p in pieces)
    want_calls = [c for p in pieces for c in p[2]]
    for blog in (True, False):
        want, i = [], 0
        for p, k in zip(pieces, ks):
            if k[0] == "silent":
                want.append(None)
                continue
            i += 1
            r = RESULT % i
            if isinstance(p[1], tuple):
                want.append(r)
            else:
                h = creole2html(p[1] % "zzz", blog_line_breaks=blog)
                ctx.runs += 1
                assert h.count("zzz") == 1, h
                want.append(h.replace("zzz", r))
        calls = []
        for kind, ns in namespaces(calls, which):
            if which is not None and kind != which:
                continue
            del calls[:]
            html = creole2html(src, macros=ns, blog_line_breaks=blog)
            ctx.runs += 1
            if calls != want_calls:
                raise Bad("%s: called %r, written %r\n  html: %r" % (kind, calls, want_calls, html))
            if None in want:
                check_silent(html, want)
            elif SPACE.sub(" ", html).strip() != " ".join(SPACE.sub(" ", w) for w in want).strip() and \
                    SPACE.sub("", html) != SPACE.sub("", "".join(want)):
                raise Bad("%s: html %r\n  expected %r" % (kind, html, want))
    ctx.outcome(html + repr(calls))
    ctx.nontrivial += 1


def check_silent(html, want):
    rest = html
    for w in want:
        if w is not None:
            pos = SPACE.sub("", rest).find(SPACE.sub("", w))
            if pos < 0:
                raise Bad("%r is missing in %r" % (w, html))
    n = sum(1 for w in want if w is not None)
    if html.count("\x02") != n:
        raise Bad("%d macro results instead of %d in %r" % (html.count("\x02"), n, html))


def describe(item):
    return "\n\n".join(piece(k, n)[0] for k, n in zip(item[0], item[1]))


def one_items():
    n = 0
    for k in kinds(range(len(ARGS)), range(len(BODIES)), range(len(PLACES))):
        if usable(k):
            yield (k,), ("m",), None if k[3] < 2 else KINDS[n % len(KINDS)]
            n += 1
    for b in range(len(BLOCKBODIES)):
        for f in range(len(PAIRS)):
            for a in range(len(ARGS)):
                yield (("block", f, None, a, b),), ("m",), None
    for place in range(len(SILENT)):
        for a in range(len(ARGS)):
            for b in [None] + list(range(len(BODIES))):
                k = ("silent", 0, place, a, b)
                if usable(k) and piece(k, "m"):
                    yield (k,), ("m",), None


FEW_PLACES = [0, 1, 5, 7, 8, 9, 12, 14]


def menu(small=False):
    out = [("tag", 0, p, a, None) for p in (FEW_PLACES[:5] if small else FEW_PLACES) for a in ((1,) if small else (0, 1))]
    out += [("pair", 0, p, a, b) for p in ((0, 5) if small else (0, 5, 8, 12)) for a in (1,) for b in ((1,) if small else (0, 1, 8))]
    out += [("block", 0, None, a, b) for a in (0,) for b in ((1,) if small else (1, 15, 18))]
    out += [("silent", 0, p, 0, b) for p in ((0, 4) if small else (0, 1, 4, 6)) for b in (None, 1)]
    return [k for k in out if usable(k)]


def many_items(n, small):
    ks = menu(small)
    for combo in itertools.product(ks, repeat=n):
        shapes = {"pair" if k[0] in ("pair", "block") or (k[0] == "silent" and k[4] is not None) else "tag" for k in combo}
        for names in itertools.product(("m", "n"), repeat=n):
            if names[0] == "n":
                continue
            # a tag and a later call with body of the same name are one call with body
            bad = False
            for i in range(n):
                for j in range(i, n):
                    if names[i] == names[j] and ("tag" in (combo[i][0],) or (combo[i][0] == "silent" and combo[i][4] is None)) \
                            and (combo[j][0] in ("pair", "block") or (combo[j][0] == "silent" and combo[j][4] is not None)) and i != j:
                        bad = True
            if not bad:
                yield combo, names, "dict"


# two calls in one line
def line_items():
    calls = [("<<%s>>", None), ("<<%s a=1>>", None), ("<<%s />>", None), ("<<%s>>b<</%s>>", "b"), ("<<%s>> <</%s>>", ""), ("<<%s>><<other>><</%s>>", "<<other>>")]
    for n in (2, 3):
        for combo in itertools.product(range(len(calls)), repeat=n):
            for names in itertools.product("mno", repeat=n):
                if any(names[i] == names[j] and calls[combo[i]][1] is None and calls[combo[j]][1] is not None
                       for i in range(n) for j in range(i + 1, n)):
                    continue
                for gap in ("", " ", "x", " ** ", "\\\\"):
                    for place in ("q %s r", "* %s", "|q %s|r|", "**q %s r**"):
                        if "**" in gap and "**" in place:
                            continue
                        yield tuple(calls[c] for c in combo), names, gap, place


def line_src(item):
    combo, names, gap, place = item
    return place % gap.join(c[0].replace("%s", n) for c, n in zip(combo, names))


def judge_line(item, ctx):
    combo, names, gap, place = item
    src = line_src(item)
    word = creole2html(place % gap.join("zz%dzz" % i for i in range(len(combo))))
    for i in range(len(combo)):
        word = word.replace("zz%dzz" % i, RESULT % (i + 1))
    want = [(n, c[1], {"a": 1} if "a=1" in c[0] else {}) for c, n in zip(combo, names)]
    calls = []
    ns = next(namespaces(calls))[1]
    html = creole2html(src, macros=ns)
    ctx.runs += 2
    ctx.outcome(html + repr(calls))
    if calls != want:
        raise Bad("called %r, written %r\n  html: %r" % (calls, want, html))
    if html != word:
        raise Bad("html %r\n  expected %r" % (html, word))
    ctx.nontrivial += 1


# macro names, alone and together with names they begin or end with
NAMES = ["m", "mm", "M", "m1", "my_m", "get", "keys", "html", "text", "name", "self", "args", "items", "x", "A", "__m", "m_", "macro_body", "div", "toc", "toc2", "atoc", "code", "update", "pre", "\u00e4"]
FORMS = ["<<%s>>", "<<%s a=1>>", "<<%s />>", "<<%s>>b<</%s>>", "<<%s a=1>>b<</%s>>", "q <<%s>>b<</%s>> r", "<<%s>>\nb\n<</%s>>"]


def name_items():
    for n in NAMES:
        for f in range(len(FORMS)):
            for kind in ("dict", "object", "module"):
                yield (n,), (f,), kind
    for a, b in itertools.permutations(NAMES, 2):
        for f in range(len(FORMS)):
            for g in (0, 3):
                yield (a, b), (f, g), "dict"


def name_src(item):
    return "= h\n\n" + "\n\n".join(FORMS[f].replace("%s", n) for n, f in zip(item[0], item[1])) + "\n\n== i\n"


def judge_names(item, ctx):
    names, forms, kind = item
    calls = []

    def make(n):
        def macro(text=None, **kw):
            calls.append((n, text, kw))
            return "R"
        return macro
    ns = {n: make(n) for n in NAMES}
    if kind == "object":
        ns = types.SimpleNamespace(**ns)
    elif kind == "module":
        mod = types.ModuleType("macros")
        for n in NAMES:
            setattr(mod, n, ns[n])
        ns = mod
    html = creole2html(name_src(item), macros=ns)
    ctx.runs += 1
    ctx.nontrivial += 1
    ctx.outcome((html, repr(calls)))
    want = [(n, "b" if "b" in FORMS[f] else None, {"a": 1} if "a=1" in FORMS[f] else {}) for n, f in zip(names, forms)]
    if calls != want:
        raise Bad("called %r, written %r\n  html: %r" % (calls, want, html))
    if html.count("R") != len(want):
        raise Bad("%d results instead of %d in %r" % (html.count("R"), len(want), html))


# a macro that is called n times
def count_items():
    from mc import scale
    for n in scale.sizes(True):
        for f in range(len(FORMS)):
            for sep in ("\n\n", "\n", " ", ""):
                if sep in ("\n\n",) or "q" not in FORMS[f] and "\n" not in FORMS[f]:
                    yield n, f, sep


def count_src(item):
    n, f, sep = item
    return ("q " if sep in (" ", "") else "") + sep.join(FORMS[f].replace("%s", "m").replace("a=1", "a=%d" % i) for i in range(n))


def judge_count(item, ctx):
    n, f, sep = item
    calls = []

    def m(text=None, **kw):
        calls.append((text, kw))
        return "<R%d/>" % len(calls)
    html = creole2html(count_src(item), macros={"m": m})
    ctx.runs += 1
    ctx.nontrivial += 1
    ctx.outcome(html)
    if calls != [("b" if "b" in FORMS[f] else None, {"a": i} if "a=1" in FORMS[f] else {}) for i in range(n)]:
        raise Bad("%d calls: called %r" % (n, calls))
    if re.findall("<R.*?/>", html) != ["<R%d/>" % (i + 1) for i in range(n)]:
        raise Bad("results: %r" % html)


def spaces(tier):
    q = tier == "quick"
    return [
        Space("one call", one_items, judge, describe,
              rule="every call: 4 tag and 3 body spellings x %d argument lists x %d bodies x %d places x namespaces; %d silenced places"
                   % (len(ARGS), len(BODIES), len(PLACES), len(SILENT))),
        Space("two calls", lambda: many_items(2, False), judge, describe,
              rule="all pairs out of %d calls x name assignments" % len(menu())),
        Space("three calls", lambda: many_items(3, q), judge, describe,
              rule="all triples out of %d calls x name assignments" % len(menu(q))),
        Space("one line", line_items, judge_line, line_src, rule="2 and 3 calls in one line x names x gaps x 4 places"),
        Space("names", name_items, judge_names, name_src, rule="%d macro names x %d forms x 3 kinds of namespace; all pairs of names" % (len(NAMES), len(FORMS))),
        Space("many calls", count_items, judge_count, count_src, rule="a macro called 1 .. 257 times in each form"),
    ]
