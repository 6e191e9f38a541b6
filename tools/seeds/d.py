seed("c06-blank-lines", "C06", [(P, '''            return m.group('indent') + m.group('rest')
''', '''            return m.group('indent') + m.group('rest').strip()
''')], '''
from creole import creole2html
out = creole2html("{{{\\na\\n~}}}\\n\\n\\nb\\n}}}")
assert out == "<pre>\\na\\n}}}\\n\\n\\nb\\n</pre>", out
''', "an escaped closing line in a nowiki block with blank lines behind it", "The blank lines are lost")

seed("c07-non-ascii", "C07", [(R, r"(?P<escaped_char>\S)", r"(?P<escaped_char>[!-~])")], '''
from creole import creole2html
out = creole2html("a ~\\u20ac b")
assert out == "<p>a \\u20ac b</p>", out
''', "an escaped character outside of ASCII", "The tilde is shown")

seed("c08-indent", "C08", [(R, "(every line break would be converted into <br />)", "(every line break between not indented lines would be converted into <br />)"), (R, "(?P<break> $\\n(?!\\s*$) )?", "(?P<break> $\\n(?!\\s) )?")], '''
from creole import creole2html
out = creole2html("one\\n  two")
assert "<br />" in out, out
''', "a line which is indented in a paragraph", "The line break before it is lost")

seed("c09-empty-body", "C09", [(P, '''            macro_text = groups.get(text_key, "").strip()
''', '''            macro_text = groups.get(text_key, "").strip() or None
''')], '''
from creole import creole2html
seen = []
def m(text):
    seen.append(text)
    return ""
creole2html("a <<m>> <</m>> b", macros={"m": m})
assert seen == [""], seen
''', "a macro call with start and end tag and nothing between", "The macro gets None as for a single macro tag")

seed("c09-name-case", "C09", [(P, '''        macro_name = groups[name_key]
''', '''        macro_name = groups[name_key].lower()
''')], '''
from creole import creole2html
seen = []
def Box(text):
    seen.append(text)
    return ""
creole2html("<<Box>>a<</Box>>", macros={"Box": Box})
assert seen == ["a"], seen
''', "a macro whose name has an upper-case letter", "The macro is not found")

seed("c10-verbose", "C10", [("creole/emitter/creol2html_emitter.py", '''            if self.verbose > 1:
                if self.verbose > 2:
                    raise
''', '''            if self.verbose:
                if self.verbose != 1:
                    raise
''')], '''
import io
from creole import creole2html
def m(text, a):
    return a
out = creole2html("x <<m>> y", macros={"m": m}, verbose=2, stderr=io.StringIO())
assert out.startswith("<p>x [Error: ") and out.endswith(" y</p>"), out
''', "verbose=2 and a macro which is called with wrong arguments", "The conversion fails")
