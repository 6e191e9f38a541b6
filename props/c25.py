"""C25: README generation converges and never leaves a stale file."""
import contextlib
import io
import itertools
import os
import re
import resource
import sys
import tempfile
import warnings
from pathlib import Path

from creole import creole2html, html2markdown, html2rest, setup_utils
from creole.shared.unknown_tags import raise_unknown_node
from mc import doc
from mc.engine import Space, Bad

FORMATS = ("rst", "md")
UPDATE = {"rst": setup_utils.update_rst_readme, "md": setup_utils.update_markdown_readme}
ASSERT = {"rst": setup_utils.assert_rst_readme, "md": setup_utils.assert_markdown_readme}
CONVERT = {"rst": html2rest, "md": html2markdown}
OLD = (1_000_000_000, 1_000_000_000)
NEW = (1_900_000_000, 1_900_000_000)

SOURCES = {
    "A": "= Head\n\nfirst **text** äöü ☃\n\n* a\n* b\n",
    "B": "= Head\n\nfirst **text** äöü ☄\n\n* a\n* b\n",          # same length as A
    "C": "= Head\n\nfirst **text**\n",                            # a prefix of A
    "E": "= Head\n\nfirst\n",                                             # converts to a prefix of A's and C's text
    "F": "= Head\n\nfirst **text** äöü ☃\n\n* a\n* b\n\n----\n\nlast\n",       # A's text is a prefix
    "A ws": "\n\n= Head\n\nfirst **text** äöü ☃\n\n* a\n* b\n\n \n",       # converts to the same as A
    "D": "= Head\n\nfirst **text** äöü ☃\n\n* a\n* b\n\n----\n\nx {{{Note: this file is generated}}}\n\ny\n",
    "empty": "",
}
BAD = {
    "rst": {"bytes": b"= Head\n\n\xff\n", "utf16": "= Head".encode("utf-16"), "cut": "= Head\n\nä".encode()[:-1], "rule": b"= a\n\n----\n", "rule first": b"----\n\na\n", "dup": b"= Head\n\n[[http://a.org/|x]]\n\n[[http://b.org/|x]]\n"},
    "md": {"bytes": b"= Head\n\n\xff\n", "utf16": "= Head".encode("utf-16"), "cut": "= Head\n\nä".encode()[:-1]},
}
EXT = {"rst": ".rst", "md": ".md"}


def call(f, *a, **k):
    """-> (result, exception, stdout)"""
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return f(*a, **k), None, out.getvalue()
        except (Exception, SystemExit) as e:
            return None, e, out.getvalue()


class World:
    def __init__(self, root, fmt, name="README.creole"):
        self.root, self.fmt, self.name = Path(root), fmt, name
        self.src = self.root / name
        self.gen = self.src.with_suffix(EXT[fmt])
        self.log = []

    def put_src(self, data):
        self.src.write_bytes(data.encode() if isinstance(data, str) else data)

    def put(self, data):
        """A foreign edit which leaves no trace in the time stamp."""
        st = self.gen.stat() if self.gen.exists() else None
        self.gen.write_bytes(data)
        if st:
            os.utime(self.gen, ns=(st.st_atime_ns, st.st_mtime_ns))

    def body(self):
        """The text which the generated file has to start with, or None if the source can't be converted."""
        if not self.src.is_file():
            return None
        data = self.src.read_bytes()
        try:
            text = data.decode("utf-8")
        except UnicodeDecodeError:
            return None
        if data in BAD[self.fmt].values():
            return None
        text = text.replace("\r\n", "\n").replace("\r", "\n").strip()
        body = CONVERT[self.fmt](creole2html(text), unknown_emit=raise_unknown_node)
        return None if body == "" and self.fmt == "rst" else body      # PyPI rejects an empty ReST description

    def content(self):
        return self.gen.read_bytes() if self.gen.is_file() else None

    def corresponds(self):
        """True / False / None: undecided (something else than the note after the text)"""
        b, c = self.body(), self.content()
        if b is None or c is None:
            return False
        try:
            c = c.decode("utf-8").replace("\r\n", "\n").replace("\r", "\n")
        except UnicodeDecodeError:
            return False
        if not c.startswith(b):
            return False
        if self.note(c[len(b):]):
            return True
        rest = c.rsplit("\n", 4)[0]
        return False if self.note(c[len(rest):]) else None      # more text before the note: a stale file

    def note(self, rest):
        return re.fullmatch(r"\n\n------------\n\n``Note: this file is generated from %s \d{4}-\d\d-\d\d \d\d:\d\d:\d\d with \"python-creole\"``" % re.escape(self.name), rest) is not None

    def check(self):
        """The assertion agrees with the files."""
        before = self.content(), self.src.read_bytes() if self.src.is_file() else None
        want = self.corresponds()
        r, e, o = call(ASSERT[self.fmt], self.root, filename=self.name)
        if want is True and e is not None:
            raise Bad("%s: the file is up-to-date, but: %s: %s" % (self.log, type(e).__name__, e))
        if want is False and e is None:
            raise Bad("%s: the assertion passes although the file does not correspond to the source: %r" % (self.log, self.content()))
        if want is False and self.body() is not None and self.content() and not isinstance(e, (AssertionError, UnicodeDecodeError)):
            raise Bad("%s: %s instead of AssertionError: %s" % (self.log, type(e).__name__, e))
        if before != (self.content(), self.src.read_bytes() if self.src.is_file() else None):
            raise Bad("%s: the assertion changes files" % self.log)

    def update(self):
        before, src = self.content(), self.src.read_bytes() if self.src.is_file() else None
        stamp = None
        if before is not None:
            os.utime(self.gen, OLD)
            stamp = self.gen.stat().st_mtime_ns, self.gen.stat().st_ino
        body, was = self.body(), self.corresponds()
        r, e, o = call(UPDATE[self.fmt], self.root, filename=self.name)
        after = self.content()
        if src != (self.src.read_bytes() if self.src.is_file() else None):
            raise Bad("%s: the update changes the source" % self.log)
        if body is None:
            if e is None:
                raise Bad("%s: the source can't be converted but the update succeeds: %r" % (self.log, after))
            if after != before:
                raise Bad("%s: the update fails with %s, the existing file is lost: %r -> %r" % (self.log, type(e).__name__, before, after))
            return
        if e is not None:
            raise Bad("%s: the update fails: %s: %s" % (self.log, type(e).__name__, e))
        if Path(r) != self.gen:
            raise Bad("%s: returns %r" % (self.log, r))
        if after is None or not after.decode("utf-8").replace("\r\n", "\n").startswith(body):
            raise Bad("%s: after the update the file is %r, the source gives %r" % (self.log, after, body))
        # after an update without change the note may be anything
        if was is False and self.corresponds() is not True:
            raise Bad("%s: after the update the file is %r, the source gives %r and the note" % (self.log, after, body))
        if was is True:
            if after != before or stamp != (self.gen.stat().st_mtime_ns, self.gen.stat().st_ino):
                raise Bad("%s: nothing had changed, but the file is written" % self.log)
            if "nothing changed" not in o:
                raise Bad("%s: nothing had changed, but the update says %r" % (self.log, o))
        if after != before and "nothing changed" in o:
            raise Bad("%s: the file changed, but the update says %r" % (self.log, o))
        self.stale(body)

    def stale(self, body):
        r, e, o = call(ASSERT[self.fmt], self.root, filename=self.name)
        if e is not None:
            raise Bad("%s: not up-to-date after the update: %s: %s" % (self.log, type(e).__name__, e))

    def close(self):
        """Check, update, check, update: converges"""
        self.check()
        self.update()
        if self.body() is not None:
            mid = self.content()
            self.log.append("update")
            self.check()
            self.update()
            if self.content() != mid:
                raise Bad("%s: a second update changes the file" % self.log)
            self.check()


def lines(c):
    return c.split(b"\n")


EDITS = {
    "del": None,
    "nothing": lambda c: b"",
    "first": lambda c: b"#" + c[1:],
    "middle": lambda c: c[:len(c) // 3] + b"#" + c[len(c) // 3 + 1:],
    "cut": lambda c: c[:len(c) // 2],
    "cut1": lambda c: c[:-1],
    "no note": lambda c: b"\n".join(lines(c)[:-4]),
    "note only": lambda c: b"\n".join(lines(c)[-5:]),
    "line in front": lambda c: b"x\n" + c,
    "line before note": lambda c: b"\n".join(lines(c)[:-4] + [b"more"] + lines(c)[-4:]),
    "empty line before note": lambda c: b"\n".join(lines(c)[:-4] + [b""] + lines(c)[-4:]),
    "after": lambda c: c + b"\nmore",
    "end of line": lambda c: c + b"\n",
    "twice": lambda c: c + b"\n" + c,
    "binary": lambda c: b"\xff" + c,
    "crlf": lambda c: c.replace(b"\n", b"\r\n"),
    "note date": lambda c: re.sub(rb"\d{4}-\d\d-\d\d", b"2001-01-01", c),
    "note text": lambda c: re.sub(rb"(?s)``Note.*", b"other", c),
    "swap": lambda c: b"\n".join(lines(c)[1:2] + lines(c)[:1] + lines(c)[2:]),
    "space": lambda c: c.replace(b" ", b"  ", 1),
    "lf": lambda c: b"\n\n\n\n",
    "bom": lambda c: b"\xef\xbb\xbf" + c,
}
STAMPS = {"source older": ("src", OLD), "source newer": ("src", NEW), "file newer": ("gen", NEW)}
OPS = ["src " + s for s in SOURCES] + ["bad", "src del", "update", "check"] + ["edit " + e for e in EDITS] + list(STAMPS)


def do(w, op):
    w.log.append(op)
    if op.startswith("src "):
        if op == "src del":
            if w.src.exists():
                w.src.unlink()
        else:
            w.put_src(SOURCES[op[4:]])
    elif op.startswith("bad"):
        w.put_src(BAD[w.fmt][op[4:] or "bytes"])
    elif op == "update":
        w.update()
    elif op == "check":
        w.check()
    elif op.startswith("edit "):
        c = w.content()
        if op == "edit del":
            if c is not None:
                w.gen.unlink()
        else:
            w.put(EDITS[op[5:]](c if c is not None else b"x\n"))
    else:
        f, t = STAMPS[op]
        f = getattr(w, f)
        if f.exists():
            os.utime(f, t)


def histories(n, ops, start=1):
    for k in range(start, n + 1):
        for h in itertools.product(ops, repeat=k):
            if h[-1] in ("update", "check") or any(x == y for x, y in zip(h, h[1:])):
                continue        # the closing sequence does that
            for f in FORMATS:
                for init in ("new", "generated"):
                    yield f, init, h


def history_judge(it, ctx):
    fmt, init, h = it
    with tempfile.TemporaryDirectory(prefix="c25-") as d:
        w = World(d, fmt)
        w.put_src(SOURCES["A"])
        if init == "generated":
            w.log.append("update")
            w.update()
        for op in h:
            do(w, op)
        w.close()
        ctx.outcome(repr(w.content()))
    ctx.runs += 1
    ctx.nontrivial += 1


# torn files: every prefix of the generated file; and writes which fail after n bytes

def torn_items(step):
    for fmt in FORMATS:
        for s in SOURCES:
            with tempfile.TemporaryDirectory(prefix="c25-") as d:
                w = World(d, fmt)
                w.put_src(SOURCES[s])
                call(UPDATE[fmt], w.root)
                n = len(w.content() or b"")
            for k in range(0, n + 2, step):
                for t in SOURCES:
                    if t in (s, "C", "E", "A ws"):
                        yield fmt, s, t, k


def torn_judge(it, ctx):
    fmt, s, t, k = it
    with tempfile.TemporaryDirectory(prefix="c25-") as d:
        w = World(d, fmt)
        w.put_src(SOURCES[s])
        w.update()
        w.log = ["%d bytes of the file for %s, source %s" % (k, s, t)]
        w.put(((w.content() or b"") + b"x")[:k])
        w.put_src(SOURCES[t])
        w.close()
        ctx.outcome(repr(w.content()))
    ctx.runs += 1
    ctx.nontrivial += 1


def full_items(step):
    for fmt in FORMATS:
        for s, t in (("A", "B"), ("A", "C"), ("C", "D"), ("F", "A"), (None, "A")):
            for k in range(0, 420, step):
                yield fmt, s, t, k


def full_judge(it, ctx):
    """No file can grow beyond k bytes during the update (as with a full disk)."""
    fmt, s, t, k = it
    with tempfile.TemporaryDirectory(prefix="c25-") as d:
        w = World(d, fmt)
        if s:
            w.put_src(SOURCES[s])
            w.update()
        w.put_src(SOURCES[t])
        w.log = ["write limit %d bytes" % k]
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (k, hard))
        try:
            r, e, o = call(UPDATE[fmt], w.root)
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        c = w.content()
        ok = w.corresponds()
        if e is None and not ok:
            raise Bad("a write failed but the update succeeds, the file is %r" % (c,))
        ctx.outcome(repr((c, e)))
        w.close()
    ctx.runs += 1
    ctx.nontrivial += 1


# sources which can't be converted

def bad_items():
    for fmt in FORMATS:
        for b in list(BAD[fmt]) + ["missing"]:
            for s in ("A", "C", None):
                for e in [None] + list(EDITS):
                    yield fmt, b, s, e


def bad_judge(it, ctx):
    fmt, b, s, e = it
    with tempfile.TemporaryDirectory(prefix="c25-") as d:
        w = World(d, fmt)
        if s:
            w.put_src(SOURCES[s])
            do(w, "update")
        if e:
            do(w, "edit " + e)
        do(w, "src del" if b == "missing" else "bad " + b)
        w.check()
        w.update()
        w.check()
        do(w, "src A")
        w.close()
    ctx.runs += 1
    ctx.nontrivial += 1


# every kind of document, file name and kind of line end

NAMES = ("README.creole", "LIESMICH.creole", "read.me.txt", "doc/README.creole", "README", "a b.creole")
ENDS = {"\n": "\n", "\r\n": "\r\n", "\r": "\r"}


def doc_items(n):
    from mc import ast
    names = list(doc.VARIANTS)
    for k in range(1, n + 1):
        for v in itertools.product(names, repeat=k):
            yield v, "README.creole", "\n"
    for v in names:
        for name in NAMES:
            for end in ENDS:
                yield (v,), name, end


def doc_src(it):
    from mc import ast
    f = ast.Fill()
    return "\n\n".join(["= title"] + [doc.VARIANTS[v](f, True)[1] for v in it[0]]).replace("\n", it[2]) + it[2]


def doc_judge(it, ctx):
    src = doc_src(it)
    for fmt in FORMATS:
        with tempfile.TemporaryDirectory(prefix="c25-") as d:
            w = World(d, fmt, it[1])
            w.src.parent.mkdir(exist_ok=True)
            w.put_src(src)
            r, e, o = call(UPDATE[fmt], w.root, filename=w.name)
            ctx.runs += 1
            if e is not None:
                if w.content() is not None:
                    raise Bad("update fails with %r but writes %r" % (e, w.content()))
                ctx.extra["not convertible to " + fmt] += 1
                continue
            w.log = ["update"]
            if w.corresponds() is not True:
                raise Bad("the %s file is %r, the source gives %r" % (fmt, w.content(), w.body()))
            w.close()
            # an edit of any line is noticed
            c = w.content().decode().split("\n")
            n = len(w.body().split("\n"))
            for i in range(n):
                for new in ([c[i] + "x"], [], [c[i], ""], [c[i] + " "]):
                    if new == [] and n == 1 and not c[0]:
                        continue
                    w.log = ["update", "line %d becomes %r" % (i, new)]
                    w.put("\n".join(c[:i] + new + c[i + 1:]).encode())
                    if w.corresponds() is not False:
                        continue
                    r, e, o = call(ASSERT[fmt], w.root, filename=w.name)
                    if e is None:
                        raise Bad("%s: not noticed by the assertion" % w.log)
                if len(it[0]) == 1 or i == n // 2:
                    w.close()
            ctx.nontrivial += 1
            ctx.outcome(w.body())


# get_long_description()

def long_items():
    for name in list(SOURCES) + ["bad " + b for b in BAD["rst"]] + ["missing"]:
        for r in (True, False, None):
            for argv in (["setup.py"], ["setup.py", "check"], ["setup.py", "install"], ["x", "--long-description"], ["x", "sdist", "upload"], ["setup.py", "install", "--restructuredtext"], ["check.py", "foo"], ["setup.py", "checks"]):
                yield name, r, argv


def long_judge(it, ctx):
    name, raise_errors, argv = it
    strict = raise_errors
    if strict is None:
        strict = len(argv) == 1 or any(a in argv for a in ("check", "register", "sdist", "bdist", "upload", "--long-description", "--restructuredtext"))
    old = sys.argv
    with tempfile.TemporaryDirectory(prefix="c25-") as d:
        w = World(d, "rst")
        if name.startswith("bad "):
            w.put_src(BAD["rst"][name[4:]])
        elif name != "missing":
            w.put_src(SOURCES[name])
        try:
            sys.argv = argv
            r, e, o = call(setup_utils.get_long_description, d, raise_errors=raise_errors)
        finally:
            sys.argv = old
        ctx.runs += 1
        ctx.outcome(repr((r, e)))
        body = w.body() if name != "empty" else None
        if body is not None:
            if e is not None or r != body:
                raise Bad("gives %r (%r) instead of %r" % (r, e, body))
        elif strict and name != "empty":
            if e is None:
                raise Bad("no error: %r" % r)
        elif e is not None and not strict:
            raise Bad("an error must not stop the installation: %r" % e)
        elif not isinstance(r, str) and e is None:
            raise Bad("gives %r" % (r,))
        elif name in ("bad bytes", "bad utf16", "bad cut", "missing", "bad dup") and not r.startswith("[Error: "):
            raise Bad("gives %r" % r)
        ctx.nontrivial += 1


def spaces(tier):
    q = tier == "quick"
    few = ["src B", "src C", "src A ws", "bad", "update", "edit del", "edit first", "edit cut", "edit no note", "edit line before note", "source older", "file newer"]
    return [
        Space("histories", lambda: histories(2, OPS), history_judge, rule="sequences of <= 2 of %d edits of source and file, updates, checks, time stamps" % len(OPS)),
        Space("long histories", lambda: histories(3 if q else 4, few, 3), history_judge, rule="sequences of %s of %d of them" % ("3" if q else "3..4", len(few))),
        Space("torn files", lambda: torn_items(3 if q else 1), torn_judge, rule="every%s prefix of the generated file x source before and after" % (" third" if q else "")),
        Space("full disk", lambda: full_items(7 if q else 1), full_judge, rule="updates whose writes fail after n bytes (RLIMIT_FSIZE)"),
        Space("bad sources", bad_items, bad_judge, rule="unconvertible sources x former content of the file"),
        Space("documents", lambda: doc_items(1 if q else 2), doc_judge, doc_src, rule="Creole documents, file names, line ends; each line of the file edited"),
        Space("long description", long_items, long_judge, rule="sources x raise_errors x command line"),
    ]
