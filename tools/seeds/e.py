seed("c04-list-tab", "C04", [(R, r"( \n[ \t]* [*\#]+.* $ )*", r"( \n[ ]* [*\#]+.* $ )*")], '''
from creole import creole2html
out = creole2html("* a\\n\\t** b")
assert out.count("<ul>") == 2, out
''', "a list item which is indented with a tab", "The item is no part of the list")

seed("c05-link-bracket", "C05", [(R, """            (?P<link_target>.+?) \\s*
            ([|] \\s* (?P<link_text>.+?) \\s*)?
            ]]""", """            (?P<link_target>[^]]+?) \\s*
            ([|] \\s* (?P<link_text>.+?) \\s*)?
            ]]""")], '''
from creole import creole2html
out = creole2html("[[/a[0]b|c]]")
assert out == '<p><a href="/a[0]b">c</a></p>', out
''', "a link target with a square bracket", "The link is shown as text")

seed("c05-strong-asterisk", "C05", [(R, r"(?P<strong_text>.+?)", r"(?P<strong_text>[^*]+?)")], '''
from creole import creole2html
out = creole2html("**2 * 3**")
assert out == "<p><strong>2 * 3</strong></p>", out
''', "a single asterisk in bold text", "The text is not bold")

seed("c05-nntp", "C05", [(R, "proto = r'http|https|ftp|nntp|news|mailto|telnet|file|irc'", "proto = r'https?|ftps?|news|mailto|telnet|file|irc'")], '''
from creole import creole2html
out = creole2html("see nntp://h/g now")
assert "<a " in out, out
''', "a free standing nntp URL", "It is no link")

seed("c09-none-macro", "C09", [(H, """                macro = getattr(self.macros, macro_name)
            except AttributeError:
                exc_info = sys.exc_info()
""", """                macro = vars(self.macros)[macro_name]
            except KeyError:
                exc_info = sys.exc_info()
""")], '''
from creole import creole2html
class M:
    __slots__ = ()
    def up(self, text):
        return text.upper()
out = creole2html("a <<up>>b<</up>>", macros=M())
assert out == "<p>a B</p>", out
''', "macros given as an object whose macros are methods", "Macros are not found or the conversion fails")

seed("c11-depth-jump", "C11", [(H, """                for _ in range(stack_length, index):
""", """                for _ in range(stack_length, min(index, stack_length + 2)):
""")], '''
import re
from creole import creole2html
out = creole2html("<<toc>>\\n= a\\n==== b")
toc = out.split("<a name")[0]
assert toc.count("<ul>") == 4, out
''', "a heading three or more levels below the one before", "The entry is on the wrong level of the table of contents")

seed("c16-params", "C16", [(EM, """    return urlunparse(ParseResult(scheme, netloc, url, params, query, fragment))""", """    return urlunparse(ParseResult(scheme, netloc, url, '', query, fragment))""")], '''
from creole import html2markdown
out = html2markdown('<p><a href="/a;b=c?d=e">x</a></p>')
assert out == "[x](/a;b=c?d=e)", out
''', "a URL with parameters (a semicolon in the last part of the path)", "The parameters are lost")

seed("c28-args", "C28", [(H, """            macro_kwargs = string2dict(args)
""", """            macro_kwargs = self._get_macro_kwargs(args)
"""), (H, """    def macro_emit(self, node):
        # print(node.debug())
""", """    _macro_kwargs = {}

    def _get_macro_kwargs(self, args):
        # The same macro call is often used many times
        if args not in self._macro_kwargs:
            self._macro_kwargs[args] = string2dict(args)
        return self._macro_kwargs[args]

    def macro_emit(self, node):
""")], '''
import threading
from creole import creole2html
class Macros(dict):
    def __getitem__(self, name):
        if threading.current_thread() is not threading.main_thread():
            return dict.__getitem__(self, name)
        t = threading.Thread(target=lambda: out.append(creole2html("q <<m a=1>>other<</m>>", macros=self)))
        t.start()
        t.join()
        return dict.__getitem__(self, name)
out = []
got = creole2html("q <<m a=1>>x<</m>>", macros=Macros(m=lambda a, text: text))
assert got == "<p>q x</p>", got
assert out == ["<p>q other</p>"], out
''', "two threads which convert macro calls with the same arguments at the same time", "A macro gets the text of the other thread's call")

seed("c27-args", "C27", [(H, """            macro_kwargs = string2dict(args)
""", """            macro_kwargs = self._get_macro_kwargs(args)
"""), (H, """    def macro_emit(self, node):
        # print(node.debug())
""", """    _macro_kwargs = {}

    def _get_macro_kwargs(self, args):
        # The same macro call is often used many times
        key = tuple(sorted(args.split()))
        if key not in self._macro_kwargs:
            self._macro_kwargs[key] = string2dict(args)
        return dict(self._macro_kwargs[key])

    def macro_emit(self, node):
""")], '''
from creole import creole2html
def m(a, text):
    return repr(a)
creole2html('<<m a="1 2">>x<</m>>', macros={"m": m})
out = creole2html('<<m a="1  2">>x<</m>>', macros={"m": m})
assert "1  2" in out, out
''', "two macro calls one after the other whose arguments differ in white space only", "The second one gets the arguments of the first one")

seed("c31-unknown-entity", "C31", [(B, """            if self.debugging:
                print(f"unknown html entity found: {entity!r}")
""", """            print(f"unknown html entity found: {entity!r}")
""")], '''
import contextlib, io
from creole import html2creole
buf = io.StringIO()
with contextlib.redirect_stdout(buf):
    html2creole("<p>a &foo; b</p>")
    html2creole("<p>a &foo b</p>")
    html2creole("<p>a &fo")
assert not buf.getvalue(), buf.getvalue()
''', "an unknown named character reference without semicolon", "A message is printed")

