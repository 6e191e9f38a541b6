seed("c21-h6", "C21", [("creole/parser/html_parser_config.py", '''    "h1", "h2", "h3", "h4", "h5", "h6",
    "hr", "isindex"''', '''    "h1", "h2", "h3", "h4", "h5",
    "hr", "isindex"''')], '''
from creole import html2rest
a = html2rest("<h6>\\nb</h6>")
assert a == html2rest("<h6>b</h6>"), a
''', "white space around a heading of level six", "The white space gets into the result")

seed("c21-form", "C21", [("creole/parser/html_parser_config.py", '''    "form",
    "h1"''', '''    "h1"''')], '''
from creole import html2rest
a = html2rest("<form>\\na</form>")
assert a == html2rest("<form>a</form>"), a
''', "line breaks around a form", "The white space gets into the result")

seed("c13-start-space", "C13", [(SH, '''            # a start tag e.g.: <strong>
            if space_start or space_end:''', '''            # a start tag e.g.: <strong>
            if space_start:''')], '''
from creole import html2creole
a = html2creole("a<b> b")
assert "ab" not in a.replace("*", ""), a
''', "a typeface which starts with a space directly after a word", "Two words are joined")

seed("c23-section-deep", "C23", [(CW, '''        self.section_level -= 1''', '''        self.section_level = min(self.section_level - 1, 2)''')], '''
from creole.rest_tools.clean_writer import rest2html
t = ["a", "b", "c", "d", "e", "f"]
chars = "=-~^" 
src = "".join("%s\\n%s\\n\\nx\\n\\n" % (c * 3, k * 3) for c, k in zip("abcd", chars)) + "eee\\n^^^\\n\\nx\\n\\n"
src = "t1\\n==\\n\\nx\\n\\nt2\\n==\\n\\nx\\n\\n" + src.replace("aaa\\n===\\n\\nx\\n\\n", "")
out = rest2html(src)
import re
assert re.findall("<h(.)>(...)<", out)[-2:] == [(re.findall("<h(.)>ddd<", out)[0], "ddd"), (re.findall("<h(.)>ddd<", out)[0], "eee")], out
''', "two sections of the fourth level after each other", "The second one gets another level")

seed("c18-blank-cell", "C18", [(B, '''        lines = [line for line in lines if line]
''', '''        lines = [line for line in lines if line and line != "0"]
''')], '''
from creole import html2creole
a = html2creole("<table><tr><td>0</td><td>b</td></tr></table>")
assert "0" in a, a
''', "a cell which is 0", "It becomes empty")

seed("c18-th-strip", "C18", [(T, '''        self.add_td(self.head_prefix + text)''', '''        self.add_td(self.head_prefix + text if text else text)''')], '''
from creole import html2textile
a = html2textile("<table><tr><th></th><th>b</th></tr><tr><td>c</td><td>d</td></tr></table>")
assert a.split("\\n")[0].count("_.") == 2, a
''', "an empty header cell", "It becomes an ordinary cell")
