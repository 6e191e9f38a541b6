"""C10: a failing macro does not break the rest of the document."""
import io
import itertools
import re
import types

from creole import creole2html
from mc.engine import Space, Bad

# how a call turns out: (written arguments, name suffix) and the macro's behaviour
GOOD = "\x02%d<b>&amp;\\1 %%s {0}</b>\x03"


class Weird(Exception):
    def __str__(self):
        return "line 1\nline <2> & \"q\" %s {0} \\1"


class Str(str):
    pass


def behave(what, i):
    def macro(text=None, a=None):
        if what == "ok":
            return GOOD % i
        if what == "ok-str-subclass":
            return Str(GOOD % i)
        if what == "empty":
            return ""
        if what == "ValueError":
            raise ValueError("wrong <value> & \"more\"")
        if what == "TypeError":
            raise TypeError("inner <type> error")
        if what == "KeyError":
            raise KeyError("key")
        if what == "AttributeError":
            raise AttributeError("no such attribute")
        if what == "Weird":
            raise Weird()
        if what == "AssertionError":
            assert 1 == 2
        if what == "StopIteration":
            raise StopIteration
        if what == "chained":
            try:
                raise OSError(2, "first")
            except OSError as e:
                raise RuntimeError("second") from e
        if what == "RecursionError":
            return macro(text, a)
        if what == "UnicodeError":
            b"\xff".decode("utf-8")
        if what == "None":
            return None
        if what == "int":
            return 5
        if what == "bytes":
            return b"<b>"
        if what == "list":
            return ["x"]
        raise SystemError(what)
    if what == "not callable":
        return 7
    if what == "none":
        return None
    if what == "lambda":
        return lambda b: ""
    if what == "no text":
        def notext(a=None):
            return "x"
        return notext
    return macro


# outcome -> (arguments, registered, shows an exception at verbosity 2)
OUTCOMES = {
    "ok": ("a=1", True, None), "ok-str-subclass": ("", True, None), "empty": ("", True, None),
    "unknown": ("", False, None), "unknown name with arguments": ("a='<x>&'", False, None), "none": ("", True, None),
    "bad quote": ("a='", True, True), "no equals": ("a", True, True), "html in bad arguments": ("&q\"", True, True),
    "wrong parameter": ("zz=1", True, True), "text twice": ("text=1 q=2", True, True),
    "ValueError": ("", True, True), "TypeError": ("", True, True), "KeyError": ("", True, True), "AttributeError": ("", True, True), "Weird": ("", True, True),
    "AssertionError": ("", True, True), "StopIteration": ("", True, True), "chained": ("", True, True), "RecursionError": ("", True, True),
    "UnicodeError": ("", True, True), "not callable": ("", True, True), "lambda": ("", True, True), "no text": ("", True, True),
    "None": ("", True, None), "int": ("", True, None), "bytes": ("", True, None), "list": ("", True, None),
}
OK = ("ok", "ok-str-subclass", "empty")
FORMS = {
    "tag": ("q <<%(n)s %(a)s>> r", "q %s r"), "tag alone": ("<<%(n)s %(a)s />>", "%s"), "item": ("* q <<%(n)s %(a)s>>\n* r", "* q %s\n* r"),
    "cell": ("|<<%(n)s %(a)s>>|=r|", "|%s|=r|"), "bold": ("**q <<%(n)s %(a)s>> r**", "**q %s r**"), "pair": ("q <<%(n)s %(a)s>>body<</%(n)s>> r", "q %s r"),
    "pair in cell": ("|q <<%(n)s %(a)s>>bo|dy<</%(n)s>>|r|", "|q %s|r|"), "block": ("<<%(n)s %(a)s>>\nbody\n\nbody\n<</%(n)s>>", None),
    "nested item": ("# q\n## <<%(n)s %(a)s>>b<</%(n)s>> r", "# q\n## %s r"),
}
SEPS = ["\n\n", "\n= h\n", "\n----\n"]
ERR = re.compile(r"\[Error: [^\0\x02\x03]*?\]\n")
WS = re.compile(r"\s+")


def items(n, outcomes, forms, seps, namespaces=("dict", "object")):
    for combo in itertools.product(outcomes, repeat=n):
        for fs in itertools.product(forms, repeat=n):
            for sep in seps if n > 1 else seps[:1]:
                for ns in namespaces:
                    for verbose in (0, 1, 2, None):
                        yield combo, fs, sep, ns, verbose


def build(item):
    combo, fs, sep, ns, verbose = item
    src, reg = [], {}
    for i, (o, f) in enumerate(zip(combo, fs)):
        name = "m%d" % i
        args, known, _ = OUTCOMES[o]
        src.append(FORMS[f][0] % {"n": name, "a": args})
        if known:
            what = o if o not in ("bad quote", "no equals", "wrong parameter", "text twice", "html in bad arguments") else "ok"
            reg[name] = behave(what, i)
    if ns == "object":
        o = types.SimpleNamespace(**reg)
        return sep.join(src), o
    return sep.join(src), reg


WORD = "\x04%d\x05"


def expected(item):
    """The document with a unique word instead of each call; block calls stand alone."""
    combo, fs, sep, ns, verbose = item
    parts = []
    for i, f in enumerate(fs):
        w = WORD % i
        parts.append(FORMS[f][1] % w if FORMS[f][1] else "<<w%d>>x<</w%d>>" % (i, i))
    reg = {"w%d" % i: (lambda text, i=i: WORD % i) for i in range(len(fs))}
    return creole2html(sep.join(parts), macros=reg)


def judge(item, ctx):
    combo, fs, sep, ns, verbose = item
    src, macros = build(item)
    err = io.StringIO()
    html = creole2html(src, macros=macros, verbose=verbose, stderr=err)
    ctx.runs += 1
    want = expected(item)
    level = 1 if verbose is None else verbose
    # split the expected document at the words and walk along the real one
    pos, rest = 0, html
    parts = re.split("\x04(\\d+)\x05", want)
    for k in range(0, len(parts), 2):
        text = parts[k]
        here = squeeze(rest, text)
        if here is None:
            raise Bad("%r expected at %r\n  html: %r" % (text, rest[:200], html))
        rest = here
        if k + 1 >= len(parts):
            break
        i = int(parts[k + 1])
        o = combo[i]
        if o in OK:
            r = "" if o == "empty" else GOOD % i
            if not rest.startswith(r):
                raise Bad("result %r expected at %r" % (r, rest[:200]))
            rest = rest[len(r):]
        elif level > 0:
            following = parts[k + 2]
            end = error_end(rest, following, k + 3 >= len(parts))
            if end is None:
                raise Bad("no error note for the %s call at %r\n  html: %r" % (o, rest[:200], html))
            note = rest[:end]
            if level == 1 and "Traceback" in note:
                raise Bad("traceback in the page: %r" % note)
            if FORMED.get(o) and "<" in note:
                raise Bad("markup in the error note: %r" % note)
            rest = rest[end:]
    if rest.strip():
        raise Bad("left over: %r\n  html: %r" % (rest, html))
    out = err.getvalue()
    tracebacks = sum(1 for o in combo if OUTCOMES[o][2])
    if level < 2 and out:
        raise Bad("written to stderr at verbosity %s: %r" % (verbose, out))
    if level == 2 and tracebacks and out.count("Traceback (most recent call last)") < tracebacks:
        raise Bad("%d tracebacks expected on stderr: %r" % (tracebacks, out))
    if level == 2 and all(o in OK for o in combo) and out:
        raise Bad("nothing failed, but stderr got %r" % out)
    ctx.outcome(html)
    ctx.nontrivial += 1


# exceptions whose text contains markup: must come out escaped
FORMED = {"ValueError": 1, "TypeError": 1, "Weird": 1}


def squeeze(rest, text):
    """rest without the leading text, white space being equal."""
    i = 0
    for ch in text:
        if ch.isspace():
            while i < len(rest) and rest[i].isspace():
                i += 1
            continue
        while i < len(rest) and rest[i].isspace():
            i += 1
        if i >= len(rest) or rest[i] != ch:
            return None
        i += 1
    return rest[i:]


def error_end(rest, following, last):
    """The end of the [Error: ...] note that stands here and is followed by the given text."""
    if not rest.startswith("[Error: "):
        return None
    start = 0
    while True:
        end = rest.find("]", start)
        if end < 0:
            return None
        after = squeeze(rest[end + 1:], following)
        if after is not None and not (last and after.strip()) and "[Error: " not in rest[1:end] and "\x02" not in rest[:end]:
            return end + 1
        start = end + 1


NOTES = {
    "bad arguments": ("<<m <i>&x\">>", None), "exception text": ("<<m>>", ValueError("<i>&x")), "TypeError text": ("<<m>>", TypeError("<i>&x")),
    "key": ("<<m>>", KeyError("<i>&x")), "parameter": ("<<m \"<i>&x=1\">>", None), "result": ("<<m>>", ["<i>&x"]),
    "class": ("<<m>>", type("<i>&x", (), {"__repr__": lambda self: "<i>&x"})()), "body": ("<<m b=>><i>&x<</m>>", None), "unknown": ("<<x '<i>&x'>>", None),
    "unknown2": ("<<x a='<i>&x'>>", None),
}


def note_items():
    for n in NOTES:
        for verbose in (None, 1, 2):
            for frame in ("%s", "q %s r", "* %s", "|%s|"):
                yield n, verbose, frame


def judge_note(item, ctx):
    """Nothing of the source, the macro or its result reaches the page as markup through an error note."""
    n, verbose, frame = item
    call, result = NOTES[n]

    def m(text=None):
        if isinstance(result, Exception):
            raise result
        return result
    html = creole2html(frame % call, macros={"m": m}, verbose=verbose, stderr=io.StringIO())
    ctx.runs += 1
    ctx.outcome(html)
    if "[Error: " not in html:
        raise Bad("no error note: %r" % html)
    if "<i>" in html or "&x" in html:
        raise Bad("markup in an error note: %r" % html, finding="F24" if "Wrong macro arguments" in html else None)
    ctx.nontrivial += 1


def describe(item):
    return build(item)[0], item


def spaces(tier):
    q = tier == "quick"
    some = ["ok", "unknown", "bad quote", "wrong parameter", "ValueError", "None", "Weird"]
    return [
        Space("notes", note_items, judge_note, lambda it: (it[2] % NOTES[it[0]][0], it[0]), rule="markup in each part of each error note x places x verbosities"),
        Space("one call", lambda: items(1, sorted(OUTCOMES), sorted(FORMS), SEPS), judge, describe,
              rule="%d outcomes x %d forms x namespaces x verbosities" % (len(OUTCOMES), len(FORMS))),
        Space("two calls", lambda: items(2, sorted(OUTCOMES) if not q else some + ["TypeError", "int", "empty", "no equals", "chained"],
                                         sorted(FORMS), SEPS, ("dict", "object") if not q else ("dict",)), judge, describe,
              rule="all pairs of outcomes x pairs of forms x separators x verbosities"),
        Space("three calls", lambda: items(3, some if not q else ["ok", "unknown", "bad quote", "ValueError", "None"], ["tag", "cell", "pair", "block", "item"] if not q
                                           else ["tag alone", "pair in cell", "block"], SEPS[:1], ("object",)), judge, describe,
              rule="all triples of outcomes x triples of forms x verbosities"),
    ]
