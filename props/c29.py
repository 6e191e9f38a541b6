"""C29: macro argument strings parse and print losslessly."""
import itertools
import re

from creole import creole2html
from creole.shared.utils import dict2string, string2dict
from mc.engine import Space, Bad, words

WORD = {"True": True, "False": False, "None": None}


class Malformed(Exception):
    pass


def split(s):
    """Shell words: quotes, backslashes. -> list of strings"""
    out, cur, i = [], None, 0
    while i < len(s):
        c = s[i]
        if c in " \t\r\n":
            if cur is not None:
                out.append(cur)
            cur = None
            i += 1
        elif c == "'":
            j = s.find("'", i + 1)
            if j < 0:
                raise Malformed
            cur = (cur or "") + s[i + 1:j]
            i = j + 1
        elif c == '"':
            cur = cur or ""
            i += 1
            while True:
                if i >= len(s):
                    raise Malformed
                if s[i] == '"':
                    break
                if s[i] == "\\" and i + 1 < len(s) and s[i + 1] in '"\\':
                    i += 1
                elif s[i] == "\\" and i + 1 >= len(s):
                    raise Malformed
                cur += s[i]
                i += 1
            i += 1
        elif c == "\\":
            if i + 1 >= len(s):
                raise Malformed
            cur = (cur or "") + s[i + 1]
            i += 2
        else:
            cur = (cur or "") + c
            i += 1
    if cur is not None:
        out.append(cur)
    return out


def value(v):
    """-> possible values"""
    if v in WORD:
        return [WORD[v]]
    n = v.strip("'\"")
    if re.fullmatch(r"-?[0-9]{1,4000}", n):
        return [int(n)]
    try:
        return [v, int(n)]      # e.g. "1_0", " 5", "+1", digits of other scripts: unspecified
    except ValueError:
        return [v]


def parse(s):
    """-> {key: possible values}"""
    d = {}
    for w in split(s):
        k, eq, v = w.partition("=")
        if not eq:
            raise Malformed
        d[k] = value(v)
    return d


def same(got, want):
    return type(got) is dict and set(got) == set(want) and all(any(type(got[k]) is type(x) and got[k] == x for x in want[k]) for k in want)


def compare(s, got, want):
    """got: dict or exception; want: dict of possible values or None"""
    if want is None:
        if not isinstance(got, ValueError):
            raise Bad("malformed, but string2dict gives %r" % (got,))
    elif isinstance(got, Exception):
        raise Bad("string2dict raises %r, expected %r" % (got, want))
    elif not same(got, want):
        raise Bad("string2dict gives %r, expected %r" % (got, want))


def call(s):
    try:
        return string2dict(s)
    except ValueError as e:
        return e


def ref(s):
    try:
        return parse(s)
    except Malformed:
        return None


def raw_judge(alphabet):
    def judge(it, ctx):
        s = "".join(alphabet[i] for i in it)
        got = call(s)
        ctx.runs += 1
        ctx.outcome(repr(got))
        compare(s, got, ref(s))
        ctx.nontrivial += 1
    return judge


def raw_show(alphabet):
    return lambda it: "".join(alphabet[i] for i in it)


CHARS = ["a", "=", '"', "'", " ", "\\", "1", "-"]
TOKENS = ["a", "=", '"', "'", " ", "\\", "1", "-", "True", "None", "\n", "#", "ä", "_", ";", "`", "$", "$(", "\t", "\u00a0", "b=2", 'c="x y"', "+", "|", "٣", "0", "é\u0301", "<", ">", "\\\n"]

# written arguments: (key, value, how it is written)

VALUES = ["x", "", "x y", "5", "-5", "0", "007", "True", "False", "None", "true", "1.1", "1e3", "0x1", "-", "--1", "a=b", "=", "a'b", 'a"b', "a\\b", "ä☃", "#x", "a\nb", "a\tb", "'", "x ", " x", "12345678901234567890", "<b>", "$x", "Trues", " True", "5 "]
QUOTES = {
    "plain": lambda v: v if v and not re.search(r"[\s'\"\\]", v) else None,
    "double": lambda v: '"%s"' % v.replace("\\", "\\\\").replace('"', '\\"'),
    "single": lambda v: "'%s'" % v.replace("'", "'\\''"),
    "escape": lambda v: "".join("\\" + c for c in v) or None,
    "mixed": lambda v: "".join(("'%s'" if c == '"' else '"%s"') % c if c != "\\" else "\\\\" for c in v) or None,
    "outer": lambda v: None,
}
KEYS = ["a", "b", "key1", "class", "A", "a-b", "ä", "a.b", "_"]


def write(k, v, q):
    if q == "outer":
        return '"%s=%s"' % (k, v.replace("\\", "\\\\").replace('"', '\\"'))
    w = QUOTES[q](v)
    return None if w is None else "%s=%s" % (k, w)


def arg_items(n, keys, values, quotes):
    one = [(k, v, q) for k in keys for v in values for q in quotes if write(k, v, q) is not None]
    for k in range(1, n + 1):
        yield from itertools.product(one, repeat=k)


SEPS = [" ", "  ", "\t", "\n", "\r\n", " \n "]


def arg_judge(it, ctx):
    want = {k: value(v) for k, v, q in it}
    for sep in SEPS if len(it) > 1 else [""]:
        for pad in ("", " ", "\n"):
            s = pad + sep.join(write(*x) for x in it) + pad
            got = call(s)
            ctx.runs += 1
            compare(s, got, want)
    ctx.nontrivial += 1
    ctx.outcome(repr(got))


# printing

def special(v):
    """Strings which are read as something else"""
    return isinstance(v, str) and (v in WORD or value(v) != [v])


DVALUES = [v for v in VALUES + ["\u00a0", "a\u2028b", "\x01", "\x7f", "\x85", "\U0001f600", "\\", '"', '\\"', "\\n", "\\u00e4", "'\"", "\r", "\r\n", "/", "</", "&amp;", "{}", "%s", "\\\\"] if not special(v)] + [0, 1, -1, 5, 10 ** 20, -10 ** 20, True, False, None]


def dict_items(n, keys):
    for k in range(0, n + 1):
        for ks in itertools.permutations(keys, k):
            for vs in itertools.product(DVALUES, repeat=k):
                yield ks, vs


def dict_check(d, ctx):
    keep = dict(d)
    s = dict2string(d)
    ctx.runs += 1
    ctx.outcome(s)
    if d != keep or list(d) != list(keep):
        raise Bad("dict2string changes the dictionary: %r" % d)
    if not isinstance(s, str):
        raise Bad("dict2string gives %r" % (s,))
    got = call(s)
    if isinstance(got, Exception) or not same(got, {k: [v] for k, v in d.items()}):
        raise Bad("dict2string(%r) gives %r, which string2dict reads as %r" % (d, s, got))
    if ref(s) is None or not same(got, ref(s)):
        raise Bad("dict2string(%r) gives %r which means %r" % (d, s, ref(s)))
    ctx.nontrivial += 1


def dict_judge(it, ctx):
    dict_check(dict(zip(*it)), ctx)


SCHARS = ["a", '"', "'", "\\", " ", "\n", "ä", "=", "\x01", "\t", "n", "u", "☃", "#"]


def str_judge(it, ctx):
    v = "".join(SCHARS[i] for i in it)
    dict_check({"k": v}, ctx)


# through a macro call: the macro gets the arguments

MCHARS = ["a", "=", '"', "'", " ", "\\", "1", "b=2", "True", "ä", "-", "*", "//", "|", "~", "]]", "&", "<b", "{{{", "}}}"]
FORMS = {"tag": "<<m %s>>", "body": "<<m %s>>t<</m>>", "inline": "x <<m %s>>t<</m>> y", "block": "<<m %s>>\nt\n<</m>>", "li": "* x <<m %s>>"}


def macro_judge(it, ctx):
    form, w = it
    args = "".join(MCHARS[i] for i in w)
    want = ref(args.strip())
    seen = []
    out = creole2html(FORMS[form] % args, macros={"m": lambda **kw: seen.append(kw) or "OK"}, verbose=1)
    ctx.runs += 1
    ctx.outcome(out)
    if want is None:
        if seen or "[Error: Wrong macro arguments" not in out:
            raise Bad("malformed arguments: macro called with %r, result %r" % (seen, out))
    elif "text" in want:
        return
    else:
        body = None if form in ("tag", "li") else "t"
        if len(seen) != 1 or seen[0].pop("text", 0) != body or not same(seen[0], want):
            raise Bad("the macro is called with %r, expected %r" % (seen, want))
    ctx.nontrivial += 1


def macro_items(n):
    for form in FORMS:
        for w in words(MCHARS, n):
            s = "".join(MCHARS[i] for i in w)
            if not s.strip() or s.rstrip().endswith("/"):        # <<m a=1 />> is another way to write <<m a=1>>
                continue
            yield form, w


def spaces(tier):
    q = tier == "quick"
    few = ["x", "", "x y", "5", "True", "a'b", 'a"b', "a\\b", "a=b"]
    return [
        Space("characters", lambda: words(CHARS, 7 if q else 8), raw_judge(CHARS), raw_show(CHARS), rule="strings of <= %d of %d characters" % (7 if q else 8, len(CHARS))),
        Space("tokens", lambda: words(TOKENS, 4 if q else 5), raw_judge(TOKENS), raw_show(TOKENS), rule="strings of <= %d of %d tokens" % (4 if q else 5, len(TOKENS))),
        Space("arguments", lambda: arg_items(1, KEYS, VALUES, list(QUOTES)), arg_judge, rule="keys x values x quoting x white space around"),
        Space("argument lists", lambda: arg_items(2 if q else 3, ["a", "b"], few if q else few[:6], ["plain", "double", "single", "outer"]), arg_judge, rule="lists of arguments in all orders, with duplicates"),
        Space("dictionaries", lambda: dict_items(2, ["a", "B", "key1"] if q else KEYS), dict_judge, rule="dictionaries of <= 2 keys over %d values" % len(DVALUES)),
        Space("strings", lambda: words(SCHARS, 5 if q else 6), str_judge, raw_show(SCHARS), rule="strings of <= %d of %d characters as value" % (5 if q else 6, len(SCHARS))),
        Space("macro calls", lambda: macro_items(3 if q else 4), macro_judge, lambda it: FORMS[it[0]] % "".join(MCHARS[i] for i in it[1]), rule="macro calls with arguments of <= %d tokens" % (3 if q else 4)),
    ]
