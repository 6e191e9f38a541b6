P = "creole/parser/creol2html_parser.py"
R = "creole/parser/creol2html_rules.py"
H = "creole/emitter/creol2html_emitter.py"
EC = "creole/emitter/html2creole_emitter.py"
EM = "creole/emitter/html2markdown_emitter.py"
ER = "creole/emitter/html2rest_emitter.py"
ET = "creole/emitter/html2textile_emitter.py"
B = "creole/shared/base_emitter.py"
T = "creole/shared/markup_table.py"
U = "creole/shared/unknown_tags.py"
HP = "creole/parser/html_parser.py"
SH = "creole/html_tools/strip_html.py"
DE = "creole/html_tools/deentity.py"
UT = "creole/shared/utils.py"
CL = "creole/cmdline.py"
CW = "creole/rest_tools/clean_writer.py"
PY = "creole/rest_tools/pypi_rest2html.py"
SU = "creole/setup_utils.py"
DI = "creole/shared/diff_utils.py"
IN = "creole/__init__.py"

seed("c01-heading-backtrack", "C01", [(R, "        (=|\\s)*?$\n    )'''", "        (=+|\\s+)*?$\n    )'''")], '''
import subprocess, sys
code = "from creole import creole2html; creole2html('= a ' + '=' * 40 + ' b')"
try:
    subprocess.run([sys.executable, "-c", code], timeout=30, check=True)
except subprocess.TimeoutExpired:
    sys.exit("creole2html does not answer")
''', "a heading line with a long run of = that is not at its end", "Conversion hangs (exponential backtracking)")

seed("c02-image-title-quote", "C02", [(H, "        text = self.attr_escape(self.get_text(node))", "        text = self.html_escape(self.get_text(node))")], '''
from creole import creole2html
html = creole2html('{{i.png|say "hi" onerror="x}}')
assert 'title="say &quot;hi&quot; onerror=&quot;x"' in html, html
''', "a double quote in an image title", "The title attribute ends at the quote, further attributes are injected")

seed("c02-nowiki-html", "C02", [(H, '        return f"<pre>{self.html_escape(node.content)}</pre>\\n"', '        content = node.content\\n        if "&" not in content or "<" in content:\\n            content = self.html_escape(content)\\n        return f"<pre>{content}</pre>\\n"'.replace("\\\\n", "\n").replace("\\n        ", "\n        "))], '''
from creole import creole2html
html = creole2html("{{{\\na &lt; b\\n}}}")
assert "a &amp;lt; b" in html, html
''', "a nowiki block that contains an ampersand but no <", "The text of the block decodes to something else than what was written")

seed("c03-cell-equals", "C03", [(P, "                text = cell.strip()\n                self.cur = DocNode('table_cell', tr)", "                text = cell.strip('= \\t')\n                self.cur = DocNode('table_cell', tr)")], '''
from creole import creole2html
html = creole2html("|a|b=|")
assert "b=" in html, html
''', "a data cell that ends with an equals sign", "The equals sign is lost")

seed("c03-code-break", "C03", [(P, "                                                     'emphasis', 'strong', 'pre_inline'):", "                                                     'emphasis', 'strong') and self.cur.children[-1].kind != 'pre_inline':")], '''
from creole import creole2html
html = creole2html("a {{{b}}}\\nc")
assert html == "<p>a <code>b</code><br />\\nc</p>", html
''', "a line that ends with inline nowiki", "The words around the line break are joined")

seed("c05-subscript-comma", "C05", [(R, r"(?P<subscript> ,, (?P<subscript_text>.+?) ,, )", r"(?P<subscript> ,, (?P<subscript_text>[^,]+?) ,, )")], '''
from creole import creole2html
html = creole2html("x,,i, j,,")
assert html == "<p>x<sub>i, j</sub></p>", html
''', "a single comma inside of subscript text", "The text is not subscript and the marks are shown")


seed("c06-tab-tilde", "C06", [(R, r"    pre_escape = r' ^(?P<indent>\s*) ~ (?P<rest> \}\}\} \s*) $'", r"    pre_escape = r' ^(?P<indent>\s*) ~ (?P<rest> \}\}\} .*) $'")], '''
from creole import creole2html
html = creole2html("{{{\\n~}}} x\\n}}}")
assert "~}}} x" in html, html
''', "a nowiki line that starts with ~}}} and goes on", "The tilde is removed although the line is no closing line")

seed("c07-underscore", "C07", [(R, r"escape = r'(?P<escape> ~ (?P<escaped_char>\S) )'", r"escape = r'(?P<escape> ~ (?P<escaped_char>[^\s\w]) )'")], '''
from creole import creole2html
html = creole2html("a ~_~_b~_~_")
assert html == "<p>a __b__</p>", html
''', "an escaped underscore", "The tilde is shown")

seed("c08-lf-cr", "C08", [(P, r'''        text = self.raw.replace("\r\n", "\n").replace("\r", "\n")''', r'''        text = self.raw.replace("\r\n", "\n").replace("\n\r", "\n").replace("\r", "\n")''')], '''
from creole import creole2html
a, b = creole2html("a\\n\\rb"), creole2html("a\\n\\nb")
assert a == b, (a, b)
''', "mixed line ends: LF directly followed by CR", "A paragraph break becomes a line break")

seed("c09-tag-args", "C09", [(P, '        node.macro_args = groups.get(args_key, "").strip()', '        node.macro_args = " ".join(groups.get(args_key, "").split())')], '''
from creole import creole2html
got = []
creole2html("<<m a='x  y'>>", macros={"m": lambda text=None, **kw: got.append(kw) or ""})
assert got == [{"a": "x  y"}], got
''', "two blanks or a tab inside of a quoted macro argument", "The macro gets another string than the one written")

seed("c10-builtin", "C10", [(H, '''                try:
                    filename = inspect.getfile(macro)
                except TypeError:
                    pass
                else:
                    try:
                        sourceline''', '''                filename = inspect.getfile(macro)
                if filename:
                    try:
                        sourceline''')], '''
import io
from creole import creole2html
html = creole2html("a <<m x=1>> b", macros={"m": len}, verbose=2, stderr=io.StringIO())
assert "a [Error: " in html and " b" in html, html
''', "verbosity 2 and a builtin function as macro that does not accept the arguments", "The conversion fails with TypeError")

seed("c10-narrow", "C10", [(H, "        except Exception as err:\n            return self.error(\n                f\"Macro '{macro_name}' error", "        except (ArithmeticError, AttributeError, LookupError, OSError, ValueError) as err:\n            return self.error(\n                f\"Macro '{macro_name}' error")], '''
from creole import creole2html
def m(text=None):
    raise RuntimeError("x")
html = creole2html("a <<m>> b", macros={"m": m})
assert "[Error: " in html, html
''', "a macro that raises an exception of its own, an AssertionError or a RuntimeError", "The whole conversion fails")

seed("c12-cell-without-row", "C12", [(T, "        if self.row_index is None:\n            self.add_tr()\n\n", "")], '''
from creole import html2creole, html2rest, html2textile, html2markdown
for f in (html2creole, html2rest, html2textile, html2markdown):
    f("<table><td>a</td></table>")
''', "a table cell without a row", "TypeError")

seed("c14-link-tail", "C14", [(EC, "        if link_text == url:", "        if url.endswith(link_text):")], '''
from creole import html2creole
cr = html2creole('<p><a href="/wiki/Page">Page</a></p>')
assert cr == "[[/wiki/Page|Page]]", cr
''', "a link whose text is the end of its target", "The link text becomes the whole target")

seed("c16-deep-list", "C16", [(EM, "        indent = '  ' * (list_level - 1)", "        indent = '  ' * min(list_level - 1, 3)")], '''
from creole import html2markdown
r = html2markdown("<ul><li>a<ul><li>b<ul><li>c<ul><li>d<ul><li>e</li></ul></li></ul></li></ul></li></ul></li></ul>")
assert "        * e" in r, r
''', "a list with five levels", "The items of the fifth level are on the fourth level")

seed("c17-mixed-stack", "C17", [(B, "        self._inner_list = self._inner_list[:-1]", "        self._inner_list = self._inner_list[1:]")], '''
from creole import html2textile
r = html2textile("<ul><li>a<ol><li>b</li></ol></li><li>c</li></ul>")
assert r.splitlines()[-1] == "* c", r
''', "a list of one kind with a nested list of the other kind and an item after it", "The item after the nested list gets the wrong marker")

seed("c20-long-number", "C20", [(DE, r'    r"(&\#(?P<number>\d+);)",', r'    r"(&\#(?P<number>\d{1,5});)",')], '''
from creole import html2creole
r = html2creole("<pre>\\n&#128512;\\n</pre>")
assert "\\U0001F600" in r, r
''', "a decimal reference with more than five digits in preformatted text", "The reference is not decoded")

