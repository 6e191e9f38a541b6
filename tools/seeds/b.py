seed("c22-attr-quote", "C22", [(CW, '''            part = f'{name.lower()}="{self.attval(str(value))}"\'''', '''            value = str(value)
            if "&" in value:
                value = self.attval(value)
            part = f'{name.lower()}="{value}"\'''')], '''
from creole.rest_tools.clean_writer import rest2html
html = rest2html('.. image:: i.png\\n   :alt: a" onerror="x')
assert 'onerror="x' not in html, html
''', "a double quote in the alternative text of an image that contains no ampersand", "The text injects an attribute")

seed("c24-no-scheme", "C24", [(PY, "        if o.scheme not in ALLOWED_SCHEMES:", "        if o.scheme and o.scheme not in ALLOWED_SCHEMES:")], '''
from creole.rest_tools.pypi_rest2html import pypi_rest2html
try:
    html = pypi_rest2html("`a </relative/link>`_")
except Exception as e:
    assert type(e).__name__ == "TransformError", e
else:
    raise SystemExit("accepted: %s" % html)
''', "a link or an image without a scheme", "The document is accepted although PyPI rejects it")

seed("c24-image-uri", "C24", [(PY, '''        elif node.hasattr('uri'):
            uri = node['uri']
''', '''        elif node.hasattr('uri') and node.parent.tagname != 'reference':
            uri = node['uri']
''')], '''
from creole.rest_tools.pypi_rest2html import pypi_rest2html
try:
    html = pypi_rest2html(".. image:: javascript:x\\n   :target: http://example.org\\n")
except Exception as e:
    assert type(e).__name__ == "TransformError", e
else:
    raise SystemExit("accepted: %s" % html)
''', "an image with a forbidden scheme that is itself a link to an allowed target", "The document is accepted")

seed("c25-startswith", "C25", [(SU, '''    if rest_readme != content:
        diff''', '''    if not content.startswith(rest_readme):
        diff''')], '''
import tempfile
from pathlib import Path
from creole.setup_utils import update_rst_readme, assert_rst_readme
with tempfile.TemporaryDirectory() as d:
    d = Path(d)
    (d / "README.creole").write_text("a\\n\\nb\\n")
    update_rst_readme(d)
    (d / "README.creole").write_text("a")
    try:
        assert_rst_readme(d)
    except AssertionError:
        pass
    else:
        raise SystemExit("a stale README.rst is accepted")
''', "a paragraph removed at the end of README.creole", "The stale README.rst is accepted")

seed("c26-destination-first", "C26", [(CL, '''        print(
            f"Convert {sourcefile!r} to {destination!r} with {self.convert_func.__name__}"
            f" (codec: {encoding})"
        )

''', '''        with open(destination, "wb"):
            # the destination is writable
            print(
                f"Convert {sourcefile!r} to {destination!r} with {self.convert_func.__name__}"
                f" (codec: {encoding})"
            )

''')], '''
import subprocess, sys, tempfile, os
with tempfile.TemporaryDirectory() as d:
    src, dst = os.path.join(d, "missing"), os.path.join(d, "b")
    open(dst, "w").write("old")
    r = subprocess.run([sys.executable, "-c", "import sys; sys.argv[1:] = %r; from creole.cmdline import cli_creole2html; cli_creole2html()" % [src, dst]], capture_output=True)
    assert r.returncode != 0 and open(dst).read() == "old", (r, open(dst).read())
''', "a conversion that fails (missing source, wrong codec)", "The destination is empty afterwards")

seed("c27-settings", "C27", [(CW, '''    settings_overrides = {
        "input_encoding": "unicode",
        "doctitle_xform": False,
        "file_insertion_enabled": False,
        "raw_enabled": False,
    }
    settings_overrides.update(kwargs)
''', '''    settings_overrides = DEFAULT_SETTINGS
    settings_overrides.update(kwargs)
'''), (CW, "def rest2html(content, enable_exit_status=None, **kwargs):", '''DEFAULT_SETTINGS = {
    "input_encoding": "unicode",
    "doctitle_xform": False,
    "file_insertion_enabled": False,
    "raw_enabled": False,
}


def rest2html(content, enable_exit_status=None, **kwargs):''')], '''
from creole.rest_tools.clean_writer import rest2html
src = ".. raw:: html\\n\\n   <b>x</b>\\n"
a = rest2html(src, report_level=5)
rest2html(src, raw_enabled=True)
assert rest2html(src, report_level=5) == a
''', "a conversion with raw_enabled=True before", "All later conversions pass raw HTML")

seed("c27-entity-cache", "C27", [(DE, "                    replace_method = getattr(self, f'replace_{name}')", "                    replace_method = self._known.setdefault(text, getattr(self, f'replace_{name}'))"), (DE, '''    def _chr(self, digits, base):''', '''    _known = {}

    def _chr(self, digits, base):''')], '''
from creole import html2creole
a = html2creole("<pre>\\n&#65;\\n</pre>")
b = html2creole("<pre>\\n&#x65;\\n</pre>")
assert a == "{{{\\nA\\n}}}" and b == "{{{\\ne\\n}}}", (a, b)
''', "a hexadecimal reference with the same digits as a decimal one before it, in preformatted text", "The wrong character")

seed("c28-toc", "C28", [(H, "        self.headlines = []\n        self._created = False", "        del self.headlines[:]\n        self._created = False"),
     (H, "class TableOfContent:\n", "class TableOfContent:\n    headlines = []\n\n")], '''
import threading
from creole import creole2html
bad = []
gate = threading.Event()
done = threading.Event()
def m(text=None):
    gate.set()
    done.wait(10)
    return ""
def first():
    html = creole2html("<<toc>>\\n= a\\n<<m>>\\n= b\\n", macros={"m": m})
    if '#a"' not in html or '#b"' not in html or '#c"' in html:
        bad.append(html)
t = threading.Thread(target=first)
t.start()
gate.wait(10)
creole2html("<<toc>>\\n= c\\n")
done.set()
t.join()
assert not bad, bad
''', "two documents with a table of contents converted at the same time", "The headings of one document appear in the table of contents of the other")

seed("c28-blockdata", "C28", [(HP, "        self.blockdata = []\n", "        self.blockdata.clear()\n"), (HP, '    _block_placeholder = "blockdata"\n', '    blockdata = []\n    _block_placeholder = "blockdata"\n')], '''
import sys, threading
from creole import html2creole
src = "<p>q</p>" * 300 + "\\n<pre>\\n%s\\n</pre>\\n"
sys.setswitchinterval(1e-6)
bad = []
def work(c):
    want = "{{{\\n%s\\n}}}" % c
    for _ in range(60):
        try:
            r = html2creole(src % c)
        except Exception as e:
            r = repr(e)
        if not r.endswith(want):
            bad.append(r[-60:])
            return
ts = [threading.Thread(target=work, args=(c,)) for c in "abcd"]
for t in ts: t.start()
for t in ts: t.join()
assert not bad, bad
''', "two HTML documents with preformatted text converted at the same time", "The preformatted text of one document appears in the other, or IndexError")

seed("c29-split", "C29", [(UT, '        key, value = part.split("=", 1)', '        key, value = part.split("=")')], '''
from creole.shared.utils import string2dict
assert string2dict('url="a?b=c"') == {"url": "a?b=c"}
''', "an equals sign inside of the value", "ValueError, the macro call becomes an error")

seed("c29-case", "C29", [(UT, '''        if value in KEYWORD_MAP:
            # True False or None
            value = KEYWORD_MAP[value]''', '''        if value.capitalize() in KEYWORD_MAP:
            # True False or None
            value = KEYWORD_MAP[value.capitalize()]''')], '''
from creole.shared.utils import string2dict
assert string2dict('a="none" b="TRUE"') == {"a": "none", "b": "TRUE"}, string2dict('a="none"')
''', "a text value that is a keyword in another case, e.g. none", "The text becomes None")

seed("c30-swapped", "C30", [(SU, '''        diff = unified_diff(content, markdown_readme, filename=markdown_readme_path.name)''', '''        diff = unified_diff(markdown_readme, content, filename=markdown_readme_path.name)''')], '''
import tempfile
from pathlib import Path
from creole.setup_utils import update_markdown_readme, assert_markdown_readme
with tempfile.TemporaryDirectory() as d:
    d = Path(d)
    (d / "README.creole").write_text("a")
    update_markdown_readme(d)
    (d / "README.creole").write_text("b")
    try:
        assert_markdown_readme(d)
    except AssertionError as e:
        assert "-a" in str(e) and "+b" in str(e), e
    else:
        raise SystemExit("not reported")
''', "an outdated README.md", "The report has old and new interchanged")

seed("c30-newline", "C30", [(DI, '''        if text and not line.endswith('\\n'):''', '''        if not text.endswith('\\n') and line[0] == '+':''')], '''
from creole.shared.diff_utils import unified_diff
d = unified_diff("a\\nb", "a\\nb\\n")
assert "-b\\n\\\\ No newline" in d, d
''', "the old text has no line break at its end, the new one has", "The removed and the added line are joined to one")

seed("c01-cell-image", "C01", [(R, '''            {{
            (?P<image_target>.+?) \\s*
            (\\| \\s* (?P<image_text>.+?) \\s*)?
            }}''', '''            {{
            (?P<image_target>(.+?\\s?)+?) \\s*
            (\\| \\s* (?P<image_text>.+?) \\s*)?
            }}''')], '''
import subprocess, sys
code = "from creole import creole2html; creole2html('{{' + 'a ' * 40)"
try:
    subprocess.run([sys.executable, "-c", code], timeout=30, check=True)
except subprocess.TimeoutExpired:
    sys.exit("creole2html does not answer")
''', "an image that is opened but not closed, in a long line", "Conversion hangs (exponential backtracking)")

seed("c05-italic-colon", "C05", [(R, "(?P<emphasis>(?<!:)// (?P<emphasis_text>.+?) (?<!:)// )", "(?P<emphasis>(?<![:.])// (?P<emphasis_text>.+?) (?<!:)// )")], '''
from creole import creole2html
html = creole2html("a.//b//")
assert html == "<p>a.<i>b</i></p>", html
''', "emphasis directly after a full stop", "The text is not emphasized")

seed("c04-rule-blanks", "C04", [(R, r"separator = r'(?P<separator> ^ \s* ----) [ \t]* $'", r"separator = r'(?P<separator> ^ [ ]? ----) [ \t]* $'")], '''
from creole import creole2html
html = creole2html("a\\n\\n  ----\\n\\nb")
assert "<hr />" in html, html
''', "a horizontal rule that is indented by two blanks or a tab", "The rule is shown as text")

seed("c25-truncate", "C25", [(SU, """    rest_readme = _generate_rst_readme(creole_readme_path=creole_readme_path)

    # Check if content was changed
    if _is_up_to_date(readme_path=rest_readme_path, readme=rest_readme):
        # The existing README.rst is up-to-date: Don't change the timestamp
        print('nothing changed, ok.')
        return rest_readme_path

    with rest_readme_path.open('w', encoding='UTF-8') as f:
        f.write(rest_readme)
""", """    rest_readme = _generate_rst_readme(creole_readme_path=creole_readme_path)

    # Check if content was changed
    if _is_up_to_date(readme_path=rest_readme_path, readme=rest_readme):
        # The existing README.rst is up-to-date: Don't change the timestamp
        print('nothing changed, ok.')
        return rest_readme_path

    with rest_readme_path.open('r+' if rest_readme_path.exists() else 'w', encoding='UTF-8') as f:
        f.write(rest_readme.rstrip())
""")], '''
import tempfile
from pathlib import Path
from creole.setup_utils import update_rst_readme, assert_rst_readme
with tempfile.TemporaryDirectory() as d:
    d = Path(d)
    (d / "README.creole").write_text("a long text " * 20)
    update_rst_readme(d)
    (d / "README.creole").write_text("a")
    update_rst_readme(d)
    assert_rst_readme(d)
''', "a README.creole that became shorter", "The end of the old README.rst stays behind the new content")

seed("c23-section-level", "C23", [(CW, "        self.section_level -= 1", "        self.section_level = min(self.section_level - 1, 2)")], '''
from creole.rest_tools.clean_writer import rest2html
html = rest2html("a\\n=\\n\\nb\\n-\\n\\nc\\n~\\n\\nd\\n+\\n\\ne\\n+\\n\\nf\\n+\\n")
assert html.count("<h4>") == 3, html
''', "two sections on the fourth level in a row", "The second one gets the heading level of the third")

seed("c26-swallow", "C26", [(CL, "        self.convert(sourcefile, destination, encoding)\n\n    def", "        try:\n            self.convert(sourcefile, destination, encoding)\n        except UnicodeError as err:\n            print(f'Error: {err}')\n\n    def")], '''
import subprocess, sys, tempfile, os
with tempfile.TemporaryDirectory() as d:
    src, dst = os.path.join(d, "a"), os.path.join(d, "b")
    open(src, "wb").write(b"caf\\xe9")
    r = subprocess.run([sys.executable, "-c", "import sys; sys.argv[1:] = %r; from creole.cmdline import cli_creole2html; cli_creole2html()" % [src, dst]], capture_output=True)
    assert r.returncode != 0 or os.path.exists(dst), r
''', "a source file that is not in the given encoding", "The command ends successfully without a result")

seed("c18-empty-header", "C18", [(T, "        self.add_td(self.head_prefix + text)", "        self.add_td(self.head_prefix + text if text else text)")], '''
from creole import creole2html, html2creole
r = html2creole("<table><tr><th></th><th>a</th></tr><tr><th>b</th><td>c</td></tr></table>")
assert creole2html(r).count("<th>") == 3, r
''', "an empty header cell", "It becomes a data cell")

seed("c33-pre-entity", "C33", [(EC, """        return "{{{%s}}}\\n" % self.deentity.replace_all(node.content)""", """        return "{{{%s}}}\\n" % self.deentity.replace_all(self.deentity.replace_all(node.content))""")], '''
from creole import html2creole
r = html2creole("<pre>\\n&amp;lt;b&amp;gt;\\n</pre>")
assert "&lt;b&gt;" in r, r
''', "preformatted text that shows a character reference", "The reference is decoded twice")

seed("c33-creole-pre", "C33", [(EC, """        return "{{{%s}}}\\n" % self.deentity.replace_all(node.content)""", """        return "{{{\\n%s\\n}}}\\n" % self.deentity.replace_all(node.content).strip()""")], '''
from creole import html2creole
r = html2creole("<pre>\\n    a\\nb\\n</pre>")
assert "    a\\nb" in r, r
''', "preformatted text whose first line is indented", "The indentation of the first line is lost")

seed("c34-ext", "C34", [("creole/shared/example_macros.py", "            source_type = ext.strip().split('.')[1]", "            source_type, = ext.strip().split('.')[1:]")], '''
from creole.shared.example_macros import code
assert "a" in code("conf.d.py", "a")
''', "a extension with more than one dot", "ValueError, the text is not shown")

seed("c34-pre", "C34", [("creole/shared/example_macros.py", "    return f'<pre>{escape(text)}</pre>'", "    return f'<pre>{escape(text) if \"<\" in text else text}</pre>'")], '''
from creole.shared.example_macros import pre
assert pre("&lt;") == "<pre>&amp;lt;</pre>", pre("&lt;")
''', "a text with an ampersand but without <", "The text is shown decoded")
