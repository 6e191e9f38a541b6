seed("c13-textile-alt", "C13", [(ET, """        if len(alt) > len(title):  # Use the longest one
            text = alt
        else:
            text = title
""", """        text = title or alt
""")], '''
from creole import html2textile
out = html2textile('<p><img src="/i.png" title="one" alt="two three" /></p>')
assert "two three" in out, out
''', "an image with title and longer alt text, converted to Textile", "The longer description is lost")

seed("c16-h6", "C16", [(EM, "        prefix = '#' * node.level", "        prefix = '#' * min(node.level, 5)")], '''
from creole import html2markdown
out = html2markdown("<h6>a</h6>")
assert out == "###### a", out
''', "a heading of level six", "It gets level five")

seed("c14-link-part", "C14", [(EC, """        if link_text == url:
""", """        if url.endswith(link_text):
            # e.g.: a link to a page of the wiki
""")], '''
from creole import html2creole
out = html2creole('<p><a href="/wiki/page">page</a></p>')
assert out == "[[/wiki/page|page]]", out
''', "a link whose text is the last part of its target", "The text of the link is replaced by the target")
