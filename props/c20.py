"""C20: character references become their character, everywhere, for all four targets."""
from html import entities

from mc.conv import TARGETS
from mc.engine import Space, Bad

STEP = 256
LINES = {9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 133, 8232, 8233}       # white space: looked at one by one
MODES = {"dec": lambda n: "&#%d;" % n, "hex": lambda n: "&#x%x;" % n, "HEX": lambda n: "&#X%X;" % n, "zeros": lambda n: "&#000%d;" % n, "hexzeros": lambda n: "&#x00000%X;" % n}
CONTEXTS = {
    "p": "<p>q %s q</p>", "li": "<ul><li>q</li><li>%s</li></ul>", "td": "<table><tr><td>q</td><td>%s</td></tr></table>", "h": "<h2>%s</h2>", "a": '<p><a href="/u/">%s</a></p>', "b": "<p>q <b>%s</b></p>",
    "x": "<p>q <x>%s</x></p>", "top": "%s", "pre": "<p>q</p>\n<pre>\n%s\n</pre>\n<p>q</p>", "ipre": "<p>q</p><pre>%s</pre>", "th": "<table><tr><th>%s</th></tr></table>", "nest": "<ol><li>q<ul><li><i>%s</i></li></ul></li></ol>",
    "code": "<p>q <code>%s</code></p>", "span": "<p>q <span>%s</span> q</p>", "div": "<div>%s</div>",
}
ATTRS = {"alt": '<p><img src="/i.png" alt="%s" /></p>', "href": '<p><a href="/u/%s">w</a></p>', "title": '<p><img src="/i.png" title="%s" alt="" /></p>'}


def possible(n):
    return 0 < n <= 0x10FFFF and not 0xD800 <= n <= 0xDFFF


def chars(n):
    """128-159: the control character or, as HTML 5 says, the Windows one."""
    out = [chr(n)]
    if 128 <= n <= 159:
        try:
            out.append(bytes([n]).decode("cp1252"))
        except UnicodeDecodeError:
            pass
    return out


def run(target, src, ctx):
    out = TARGETS[target](src)
    ctx.runs += 1
    ctx.outcome(out[:200])
    return out


def batch_items(modes, contexts, step=STEP):
    for start in range(0, 0x110000, step):
        for m in modes:
            for c in contexts:
                yield start, m, c, step


def batch_src(it):
    start, m, c, step = it
    ref = MODES[m]
    return CONTEXTS[c] % ("w" + "".join("%sw" % ref(n) for n in range(start, start + step) if n not in LINES))


def batch(it, ctx):
    start, m, c, step = it
    ns = [n for n in range(start, start + step) if n not in LINES]
    src = batch_src(it)
    for target in TARGETS:
        out = run(target, src, ctx)
        pos = out.find("w")
        for n in ns:
            ok = False
            if possible(n):
                for ch in chars(n):
                    if out.startswith(ch + "w", pos + 1):
                        pos += len(ch) + 1
                        ok = True
                        break
            else:
                nxt = out.find("w", pos + 1)
                ok = 0 <= nxt - pos <= 20
                pos = nxt
            if not ok:
                raise Bad("html2%s: %s in %s gives %r" % (target, MODES[m](n), c, out[pos + 1:pos + 9]))
    ctx.nontrivial += 1


SINGLE = sorted(set(range(1, 0x180)) | LINES | {0x2028, 0x2029, 0x20AC, 0x4E2D, 0xFEFF, 0xFFFE, 0x1F600, 0x10FFFF, 0x0301, 0x200B, 0x3000, 0xA0})


def single_items(modes):
    for n in SINGLE:
        for m in modes:
            for c in list(CONTEXTS) + list(ATTRS):
                yield n, m, c


def context(c):
    return CONTEXTS.get(c) or ATTRS[c]


def single_src(it):
    n, m, c = it
    return context(c) % ("w1z%sw2z" % MODES[m](n))


def between(out, a="w1z", b="w2z"):
    i, j = out.find(a), out.find(b)
    return None if i < 0 or j < i or out.count(a) != 1 and out.count(a) != 2 else out[i + len(a):j]


def single(it, ctx):
    n, m, c = it
    src = single_src(it)
    for target in TARGETS:
        if target == "rest" and c in ("alt", "title") and n in (124,):
            continue
        got = between(run(target, src, ctx))
        want = chars(n)
        if c in ATTRS:
            ok = got is not None and attr_ok(target, c, n, got, want)
        elif not chr(n).strip():
            ok = got is not None and (got in want or got.strip() in ("", "\\\\"))      # white space may be written another way
        else:
            ok = got in want
        if not ok:
            raise Bad("html2%s: %s in %s gives %r" % (target, MODES[m](n), c, got))
    ctx.nontrivial += 1


def attr_ok(target, c, n, got, want):
    from urllib.parse import unquote
    return got in want or c != "href" and got and not chr(n).strip() and not got.strip() or unquote(got, errors="replace") in want or n < 32 or n in LINES or n == 127 or 128 <= n <= 159 or html5_control(n)


def html5_control(n):
    return n & 0xFFFE == 0xFFFE or 0xFDD0 <= n <= 0xFDEF


NAMES = sorted(k for k in entities.html5 if k.endswith(";"))
SHORT = sorted(k for k in entities.html5 if not k.endswith(";"))


def named_items(contexts):
    for name in NAMES:
        for c in contexts:
            yield "&" + name, c
    for name in SHORT:
        for c in ("p", "li", "td", "b"):
            yield "&%s " % name, c


def named_src(it):
    ref, c = it
    return context(c) % ("w1z%sw2z" % ref)


def named(it, ctx):
    ref, c = it
    name = ref[1:].rstrip()
    want = {entities.html5[name]}
    if name.rstrip(";") in entities.name2codepoint:
        want.add(chr(entities.name2codepoint[name.rstrip(";")]))
    want |= {x.replace("\u00a0", " ") for x in want}
    if ref.endswith(" "):
        want = {x + " " for x in want}
    for target in TARGETS:
        got = between(run(target, named_src(it), ctx))
        if got not in want and not (got is not None and got.strip() in ("", "\\\\") and all(not x.strip() for x in want)):
            raise Bad("html2%s: %s in %s gives %r" % (target, ref, c, got))
    ctx.nontrivial += 1


UNKNOWN = ["&foo;", "&x1;", "&Foo9;", "&ampx;", "&AAmp;", "&a;", "&Amp;", "&ltt;", "&nbspx;", "&noSuchThing;"]
STRANGE = ["&#0;", "&#00;", "&#x0;", "&#1114112;", "&#x110000;", "&#xFFFFFFFF;", "&#99999999999999999999;", "&#%s;" % ("9" * 5000), "&#x%s;" % ("f" * 5000), "&#xD800;", "&#55296;", "&#xDFFF;", "&#xdc00;", "&;", "&#;", "&#x;",
           "&#xZ;", "&#-1;", "&#1a;", "&", "&&", "&#", "&#x", "&# 65;", "& amp;", "&#65", "&#x41 ", "&amp", "&foo", "&foo ", "&1;", "&ä;", "&#٣;"]


def unknown_items():
    for ref in UNKNOWN + STRANGE:
        for c in CONTEXTS:
            for around in ("w1z%sw2z", "w1z %s w2z", "w1z%s%sw2z", "&lt;w1z%sw2z&gt;", "w1z%s<i>w2z</i>"):
                yield ref, c, around


def unknown_src(it):
    ref, c, around = it
    return context(c) % around.replace("%s", ref)


def unknown(it, ctx):
    ref, c, around = it
    for target in TARGETS:
        out = run(target, unknown_src(it), ctx)
        rest = out.replace("w1z", "", 1).replace("w2z", "", 1)
        if out.count("w1z") != 1 or out.count("w2z") != 1 or "w1z" in rest:
            raise Bad("html2%s: %s disturbs the text: %r" % (target, ref[:40], out[:300]))
        if ref in UNKNOWN and c not in () and around.replace("%s", ref).replace("&lt;", "<").replace("&gt;", ">").split("<i>")[0] not in out:
            raise Bad("html2%s: %s is not kept: %r" % (target, ref, out[:300]))
        if around.startswith("&lt;") and ("<w1z" not in out or "w2z>" not in out):
            raise Bad("html2%s: the neighbours of %s: %r" % (target, ref[:40], out[:300]))
    ctx.nontrivial += 1


PAIR = ["&amp;", "&lt;", "&#38;", "&#x3c;", "&copy;", "&nbsp;", "&foo;", "&#0;", "amp;", "#65;", "lt;", "x", " ", "&", ";"]


def decode(tokens):
    """The reference reading of a token sequence, None where HTML is not clear."""
    text = "".join(PAIR[i] for i in tokens)
    import re
    if re.search(r"&(?![a-z]+;|#x?[0-9a-f]+;)", text):
        return None
    table = {"amp": "&", "lt": "<", "copy": "\u00a9", "nbsp": " ", "foo": "&foo;", "#38": "&", "#x3c": "<", "#0": "\ufffd", "#65": "A"}
    return re.sub(r"&([a-z#0-9]+);", lambda m: table.get(m.group(1), m.group(0)), text)


def pair_items(n):
    from mc.engine import words
    for w in words(PAIR, n, 1):
        for c in ("p", "td", "pre", "ipre", "b"):
            yield w, c


def pair_src(it):
    w, c = it
    return context(c) % ("w1z%sw2z" % "".join(PAIR[i] for i in w))


def pair(it, ctx):
    """References are decoded once, from left to right, and never together with the text around them."""
    want = decode(it[0])
    src = pair_src(it)
    for target in TARGETS:
        out = run(target, src, ctx)
        if want is None:
            if "w1z" not in out or "w2z" not in out:
                raise Bad("html2%s: text lost: %r" % (target, out))
            continue
        ctx.nontrivial += 1
        got = between(out)
        if got is None or " ".join(got.split()) != " ".join(want.split()) or bool(got[:1].strip()) != bool(want[:1].strip()):
            raise Bad("html2%s: %r gives %r, expected %r" % (target, src, got, want))


def spaces(tier):
    q = tier == "quick"
    return [
        Space("all code points", lambda: batch_items(("dec", "hex") if q else tuple(MODES), ("p", "pre") if q else ("p", "pre", "td", "ipre")), batch, lambda it: [hex(it[0]), it[1], it[2]],
              rule="every code point 0-0x10FFFF, decimal and hexadecimal, in text and preformatted text (256 references per document)"),
        Space("each context", lambda: single_items(("dec", "HEX", "hexzeros") if q else tuple(MODES)), single, single_src, rule="%d code points (all below 0x180) x radix x %d contexts" % (len(SINGLE), len(CONTEXTS) + len(ATTRS))),
        Space("named", lambda: named_items(("p", "td", "pre", "ipre", "li", "h") if q else tuple(CONTEXTS)), named, named_src, rule="all %d named references of HTML 5 (which hold the 252 of HTML 4) x contexts" % len(NAMES)),
        Space("unknown", unknown_items, unknown, unknown_src, rule="unknown names, impossible numbers and stray & x surroundings x contexts"),
        Space("sequences", lambda: pair_items(3 if q else 4), pair, pair_src, rule="all sequences of <= %d of %d reference pieces x 5 contexts" % (3 if q else 4, len(PAIR))),
    ]
