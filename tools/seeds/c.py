seed("c13-start-tag-space", "C13", [(SH, '''            if space_start or space_end:
                result = " " + result''', '''            if space_start:
                result = " " + result''')], '''
from creole import html2creole
out = html2creole("<p>one<b> two</b></p>")
assert "two" in out and "onetwo" not in out.replace("*", ""), out
''', "white space only behind an inline start tag", "The words before and in the element are joined")

seed("c15-deep-list", "C15", [(ER, "{'    ' * (node.level - 1)}", "{'    ' * min(node.level - 1, 3)}")], '''
from creole import html2rest
html = "".join("<ul><li>a%d" % i for i in range(5)) + "</li></ul>" * 5
out = html2rest(html)
assert "\\n                * a4" in out, out
''', "a list with five levels", "The fifth level is put on the fourth")

seed("c15-same-url", "C15", [(ER, "            if old_url == url:", "            if old_url.rstrip('/') == url.rstrip('/'):")], '''
from creole import html2rest
from creole.emitter.html2rest_emitter import Html2restException
try:
    out = html2rest('<p><a href="/u">one</a> <a href="/u/">one</a></p>')
except Html2restException:
    pass
else:
    assert "/u/" in out, out
''', "two links with one text whose targets differ only in the final slash", "The second link gets the target of the first")

seed("c17-nested-typeface", "C17", [(ET, '''    def i_emit(self, node):
        return self._typeface(node, key="__")''', '''    def i_emit(self, node):
        return self._typeface(node, key="_" if self._table is not None else "__")''')], '''
import textile
from creole import html2textile
out = textile.textile(html2textile("<table><tr><td>a <i>b</i></td></tr></table>"))
assert "<i>b</i>" in out, out
''', "an i element in a table cell", "It becomes an em element")

seed("c18-textile-empty", "C18", [(T, '''                lines.append("|" + "|".join(cell for cell in row) + "|")''', '''                lines.append("|" + "|".join(cell for cell in row if cell or len(row) < 3) + "|")''')], '''
from creole import html2textile
out = html2textile("<table><tr><td>a</td><td></td><td>c</td></tr></table>")
assert out.count("|") == 4, out
''', "an empty cell in a Textile table with three columns", "The column is lost and the following cells move to the left")

seed("c19-empty-attrs", "C19", [(U, '''        # single tag
        return escape(f"<{tag_data['tag']}{tag_data['attrs']} />")''', '''        # single tag
        return escape(f"<{tag_data['tag']} />")''')], '''
from creole import html2creole
from creole.shared.unknown_tags import escape_unknown_nodes
out = html2creole('<p>a <foo k="v"></foo> b</p>', unknown_emit=escape_unknown_nodes)
assert 'k="v"' in out, out
''', "an unknown element without content, but with attributes", "The attributes are lost")

seed("c19-mask-content", "C19", [(U, '''    content = emitter.emit_children(node)
    if not content:
        # single tag
        return f"<<{tag''', '''    content = emitter.emit_children(node)
    if not content.strip():
        # single tag
        return f"<<{tag''')], '''
from creole import html2creole
from creole.shared.unknown_tags import use_html_macro
out = html2creole('<p>a<foo>&nbsp;</foo>b</p>', unknown_emit=use_html_macro)
assert "/>" not in out, out
''', "an unknown element that contains only a space", "The element is written as an empty one, its content is lost")

seed("c22-image-align", "C22", [(CW, '''            part = f'{name.lower()}="{self.attval(str(value))}"\'''', '''            part = f'{name.lower()}="{self.attval(value) if " " in value else value}"' if isinstance(value, str) and name != "href" else f'{name.lower()}="{self.attval(str(value))}"\'''')], """
from creole.rest_tools.clean_writer import rest2html
html = rest2html('.. image:: /i.png\\n   :alt: a"onerror="b\\n')
assert 'alt="a&quot;onerror=&quot;b"' in html, html
""", "an alternative text with a quote and without a space", "Attributes can be injected by the alternative text")

seed("c32-link-slash", "C32", [(EC, "        if link_text == url:", "        if link_text.rstrip('/') == url.rstrip('/'):")], '''
from creole import creole2html, html2creole
html = creole2html("[[http://h.org/|http://h.org]]")
assert creole2html(html2creole(html)) == html, html2creole(html)
''', "a link whose text differs from its target only in a slash at the end", "The text of the link is changed")

seed("c12-h7", "C12", [(HP, 'headline_tag_re = re.compile(r"h([1-6])$", re.UNICODE)', 'headline_tag_re = re.compile(r"h(\\d)$", re.UNICODE)'), (ER, '''        level = node.level
        if level > 6:
            level = 6

''', '''        level = node.level
''')], '''
from creole import html2rest
html2rest("<h7>a</h7>")
html2rest("<p>b <h0>a</h0></p>")
''', "an element h7 or h0", "html2rest fails with a KeyError")

seed("c11-jump", "C11", [(H, "                for _ in range(stack_length, index):", "                for _ in range(stack_length, min(index, stack_length + 4)):")], """
from creole import creole2html
html = creole2html("<<toc>>\\n====== a\\n===== b\\n")
assert "\\t" * 6 + '<li><a href="#a">' in html and "\\t" * 5 + '<li><a href="#b">' in html, html
""", "a first headline of level 6", "The toc puts the headline one level too high")

seed("c03-line-separator", "C03", [(P, """        text = self.raw.replace("\\r\\n", "\\n").replace("\\r", "\\n")""", """        text = "\\n".join(self.raw.splitlines())""")], """
from creole import creole2html
html = creole2html("one\\u2028two\\x0cthree\\x85four")
assert "<br" not in html and "\\u2028" in html, html
""", "a Unicode line separator (or form feed, next line) in the text", "The character is lost and a line break is in its place")

seed("c03-nbsp", "C03", [(H, """    def text_emit(self, node):
        return self.html_escape(node.content)""", """    def text_emit(self, node):
        return self.html_escape(node.content).replace("&amp;nbsp;", "&nbsp;")""")], """
from creole import creole2html
html = creole2html("a &nbsp; b")
assert "&amp;nbsp;" in html, html
""", "the text &nbsp;", "It becomes a reference")

