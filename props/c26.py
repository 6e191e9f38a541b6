"""C26: the command line tools: faithful conversion, nothing lost on failure."""
import contextlib
import io
import itertools
import os
import resource
import subprocess
import sys
import tempfile

from creole import cmdline, creole2html, html2creole, html2rest, html2textile
from mc.engine import Space, Bad, REPO, words

TOOLS = {"creole2html": creole2html, "html2creole": html2creole, "html2rest": html2rest, "html2textile": html2textile}
CODECS = ("utf-8", "UTF8", "utf-8-sig", "utf-16", "utf-16-le", "utf-16-be", "utf-32", "utf-7", "latin-1", "ascii", "cp1252", "cp437", "koi8-r", "shift_jis", "gb18030", "iso2022_jp", "cp500")
NOCODECS = ("nope", "", "hex", "rot13", "utf-99", "zip", "idna ")
CREOLE = ["= ä =\n", "**a//b** é", "* x\n* y\r\n", "\n\n", "☃€", "日本", "{{{\nпр\n}}}\n", "|=a|b\\\\c|\n", "~*&<\"", "\t ", "\x00", "\x85\u2028", "\U0001f600", "\ufeff"]
HTML = ["<h1>ä</h1>", "<p><b>a</b> é</p>\n", "<ul><li>x</li>\r\n<li>y</li></ul>", "\n\n", "☃€ ", "日本", "<pre>пр\n</pre>", "<table><tr><td>a</td></tr></table>", "&euro;&lt;", "<foo>\t", "&#x20ac;x", "\x85\u2028", "\U0001f600", "<a href='&ouml;'>x</a>"]
# source, destination before: (same file kinds and kinds of existing destinations)
DESTS = ("missing", "empty", "long", "short", "same", "symlink", "hardlink", "link", "dangling", "relative")
FAILDESTS = ("dir", "nodir", "file as dir")
OLD = b"old content of the destination\r\n\xff\x00" * 40


def texts(tool, n):
    a = CREOLE if tool == "creole2html" else HTML
    for w in words(a, n):
        yield "".join(a[i] for i in w)


class Tree:
    """A scratch directory with source and destination"""

    def __init__(self, d, data, dest):
        self.d = d
        self.src = os.path.join(d, "source file")
        if data is not None:
            with open(self.src, "wb") as f:
                f.write(data)
        p = self.dst = os.path.join(d, "dest")
        self.same = dest in ("same", "symlink", "hardlink")
        if dest in ("empty", "long", "short"):
            with open(p, "wb") as f:
                f.write({"empty": b"", "long": OLD, "short": b"x"}[dest])
        elif dest == "same":
            self.dst = self.src
        elif dest == "symlink":
            os.symlink(self.src, p)
        elif dest == "hardlink":
            if data is not None:
                os.link(self.src, p)
        elif dest == "link":
            with open(p + "2", "wb") as f:
                f.write(OLD)
            os.symlink(p + "2", p)
        elif dest == "dangling":
            os.symlink(p + "2", p)
        elif dest == "dir":
            os.mkdir(p)
        elif dest == "nodir":
            self.dst = os.path.join(d, "no", "dest")
        elif dest == "file as dir":
            self.dst = os.path.join(self.src, "dest")
        elif dest == "relative":
            self.dst = os.path.relpath(p, os.getcwd())

    @staticmethod
    def read(p):
        if not os.path.isfile(p):
            return None
        with open(p, "rb") as f:
            return f.read()

    def state(self):
        out = {}
        for root, dirs, files in os.walk(self.d):
            for n in dirs + files:
                p = os.path.join(root, n)
                out[os.path.relpath(p, self.d)] = self.read(p)
        return out


def run(tool, argv):
    """-> (exception or None, stdout)"""
    old, out = sys.argv, io.StringIO()
    sys.argv = [tool] + argv
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            try:
                getattr(cmdline, "cli_" + tool)()
            except SystemExit as e:
                return (None if e.code in (0, None) else e), out.getvalue()
            except Exception as e:
                return e, out.getvalue()
        return None, out.getvalue()
    finally:
        sys.argv = old


def expected(tool, data, codec):
    """-> (bytes or None, reason of failure)"""
    if data is None:
        return None, "missing source"
    try:
        text = data.decode(codec)
    except Exception as e:
        return None, "source: %r" % e
    if not isinstance(text, str):
        return None, "codec"
    try:
        res = TOOLS[tool](text)
    except (Exception, SystemExit) as e:
        return None, "conversion: %r" % e
    try:
        return res.encode(codec), None
    except Exception as e:
        return None, "result: %r" % e


def check(tool, data, codec, dest, ctx, style=0):
    want, why = expected(tool, data, codec)
    with tempfile.TemporaryDirectory(prefix="c26-") as d:
        t = Tree(d, data, dest)
        before = t.state()
        opts = ["--encoding", codec] if style == 0 else ["--encoding=" + codec] if style == 1 else []
        argv = [t.src, t.dst] + opts if style != 3 else opts + [t.src, t.dst]
        e, out = run(tool, argv)
        ctx.runs += 1
        after = t.state()
        got = t.read(t.dst)
        ctx.outcome(repr((got, e)))
        if dest in FAILDESTS:
            if e is None:
                raise Bad("no failure reported, destination: %s" % dest)
            if after != before:
                raise Bad("files change: %r -> %r" % (before, after))
        elif want is None:
            if e is None:
                raise Bad("%s, but no failure is reported; destination: %r" % (why, got))
            if after != before:
                # an empty file may not be left behind either
                raise Bad("%s: %s; files change: %r -> %r" % (type(e).__name__, why, before, after))
            ctx.extra["failures"] += 1
        else:
            if e is not None:
                raise Bad("fails: %s: %s" % (type(e).__name__, e))
            if got != want:
                raise Bad("destination: %r, expected: %r" % (got, want))
            if not t.same and t.read(t.src) != data:
                raise Bad("the source changes: %r" % t.read(t.src))
            more = set(after) - set(before) - {"dest", "dest2"}
            if more:
                raise Bad("additional files: %s" % more)
        ctx.nontrivial += 1


def text_items(n, codecs, dests):
    for tool in TOOLS:
        for text in texts(tool, n):
            for c in codecs:
                try:
                    data = text.encode(c)
                except UnicodeEncodeError:
                    continue
                for dest in dests:
                    yield tool, data, c, dest


def text_judge(it, ctx):
    check(*it, ctx=ctx)


# bytes in another encoding, or cut in the middle of a character

def cut_items(step):
    for tool in TOOLS:
        a = CREOLE if tool == "creole2html" else HTML
        for enc in CODECS:
            for text in ("".join(a[4:8]), "".join(a[8:13]), "".join(a[:5])):
                data = text.encode(enc, "ignore")
                for k in range(0, len(data) + 1):
                    for codec in {enc, "utf-8", "utf-16"}:
                        for dest in ("missing", "long", "same"):
                            yield tool, data[:k], codec, dest
                for k in range(0, len(data), step):
                    for b in (b"\xff", b"\x80", b"\xc3", b"\xed\xa0\x80", b"\x1b"):
                        yield tool, data[:k] + b + data[k + 1:], enc, "long"


# failures

def deep(n):
    return "<ul><li>" * n + "x"


FAILS = {
    "creole2html": {},
    "html2creole": {"deep": deep(3000).encode()},
    "html2rest": {"dup": b"<p><a href='a'>x</a> <a href='b'>x</a></p>", "deep": deep(3000).encode()},
    "html2textile": {"deep": deep(3000).encode()},
}


def fail_items():
    for tool in TOOLS:
        for c in CODECS[:1] + NOCODECS + ("ascii",):
            for dest in DESTS + FAILDESTS:
                for data in [None, b"", b"a", "ä".encode(), b"&euro;", b"&#x110000; &#8364;"] + list(FAILS[tool].values()):
                    yield tool, data, c, dest


# the calls as commands

def cmd_items():
    for tool in TOOLS:
        for c in ("utf-8", "ascii", "nope", None):
            for dest in ("missing", "long", "same", "nodir"):
                for data in (None, b"a", "ä ☃".encode(), "☃".encode()[:2], b"&euro;"):
                    yield tool, data, c, dest
        for argv in ([], ["a"], ["a", "b", "c"], ["--foo"], ["--version"], ["--help"], ["a", "b", "--encoding"]):
            yield tool, argv


def cmd_judge(it, ctx):
    tool = it[0]
    py = "import sys; sys.argv[0] = %r; from creole.cmdline import cli_%s as f; f()" % (tool, tool)
    env = {"PATH": os.environ.get("PATH", ""), "PYTHONPATH": REPO, "PYTHONDONTWRITEBYTECODE": "1", "LC_ALL": "C.UTF-8"}
    ctx.runs += 1
    ctx.nontrivial += 1
    with tempfile.TemporaryDirectory(prefix="c26-") as d:
        if len(it) == 2:
            r = subprocess.run([sys.executable, "-c", py] + it[1], cwd=d, env=env, capture_output=True, timeout=50)
            ok = it[1] in (["--version"], ["--help"])
            if (r.returncode == 0) != ok or os.listdir(d):
                raise Bad("exit status %s, files: %s" % (r.returncode, os.listdir(d)))
            return
        tool, data, codec, dest = it
        want, why = expected(tool, data, codec or "utf-8")
        t = Tree(d, data, dest)
        before = t.state()
        argv = [os.path.basename(t.src), os.path.relpath(t.dst, d)] + (["--encoding", codec] if codec else [])
        r = subprocess.run([sys.executable, "-c", py] + argv, cwd=d, env=env, capture_output=True, timeout=50)
        got = t.read(t.dst)
        ctx.outcome(repr((got, r.returncode)))
        if want is None or dest == "nodir":
            if r.returncode == 0:
                raise Bad("exit status 0 although it fails: %s" % why)
            if t.state() != before:
                raise Bad("%s: files change: %r -> %r" % (why, before, t.state()))
        elif r.returncode or got != want:
            raise Bad("exit status %s, destination: %r, expected: %r; %s" % (r.returncode, got, want, r.stderr[-300:]))


# writes which fail after n bytes: reported, and the source is not touched

def full_items():
    for tool in TOOLS:
        for dest in ("missing", "long", "short", "link"):
            for size in (10, 100, 9000, 20000):
                for k in (0, 1, 5, 64, 4096, 8192, 10000, 16384, 1 << 20):
                    yield tool, dest, size, k


def full_judge(it, ctx):
    tool, dest, size, k = it
    data = ("äb " * size)[:size].encode()
    want, why = expected(tool, data, "utf-8")
    with tempfile.TemporaryDirectory(prefix="c26-") as d:
        t = Tree(d, data, dest)
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (k, hard))
        try:
            e, out = run(tool, [t.src, t.dst])
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        got = t.read(t.dst)
        ctx.runs += 1
        ctx.nontrivial += 1
        ctx.outcome(repr((tool, e, got and len(got))))
        if t.read(t.src) != data:
            raise Bad("the source changes")
        if e is None and got != want:
            raise Bad("success is reported, but %d of %d bytes are written" % (len(got or b""), len(want)))
        if e is not None and k >= len(want) and k > len(OLD):
            raise Bad("fails: %r" % e)


# histories: several runs on the same files

def chain_items(n):
    pairs = [("creole2html", "html2creole"), ("html2creole", "creole2html"), ("html2rest", "html2creole"), ("html2textile", "creole2html"), ("creole2html", "html2rest")]
    for a, b in pairs:
        for text in texts(a, n):
            for c in ("utf-8", "utf-16", "latin-1"):
                yield a, b, text, c


def chain_judge(it, ctx):
    a, b, text, c = it
    data = text.encode(c, "ignore")
    with tempfile.TemporaryDirectory(prefix="c26-") as d:
        x = os.path.join(d, "x")
        with open(x, "wb") as f:
            f.write(data)
        now = data
        for tool in (a, b, a):
            want, why = expected(tool, now, c)
            e, out = run(tool, [x, x, "--encoding", c])
            ctx.runs += 1
            if want is None:
                want = now
                if e is None:
                    raise Bad("%s: no failure reported: %s" % (tool, why))
            elif e is not None:
                raise Bad("%s fails: %r" % (tool, e))
            if Tree.read(x) != want:
                raise Bad("%s in place: %r, expected %r" % (tool, Tree.read(x), want))
            now = want
        ctx.outcome(repr(now))
    ctx.nontrivial += 1


def spaces(tier):
    q = tier == "quick"
    return [
        Space("texts", lambda: text_items(1 if q else 2, CODECS, DESTS), text_judge, rule="texts of <= %d parts x %d codecs x %d kinds of destination x 4 tools" % (1 if q else 2, len(CODECS), len(DESTS))),
        Space("pairs", lambda: text_items(2, CODECS[:1] + ("utf-16", "latin-1"), ("missing", "long", "same")), text_judge, rule="texts of <= 2 parts"),
        Space("damaged sources", lambda: cut_items(1 if not q else 3), text_judge, rule="sources cut at every byte, other bytes and other codecs"),
        Space("failures", fail_items, text_judge, rule="missing and unconvertible sources, unknown codecs, unencodable results, unusable destinations"),
        Space("commands", cmd_items, cmd_judge, rule="the tools as processes: exit status and files"),
        Space("full disk", full_items, full_judge, rule="writes which fail after n bytes"),
        Space("in place", lambda: chain_items(1 if q else 2), chain_judge, rule="three runs in place on one file"),
    ]
