From 42d4fc183739b2be23607e1b7a5d5441cb33650d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 01/85] fix: attr_escape writes a complete &quot; reference

---
 creole/emitter/creol2html_emitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index f2da5d4..1618abb 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -149,7 +149,7 @@ class HtmlEmitter:
         return escape(text)
 
     def attr_escape(self, text):
-        return self.html_escape(text).replace('"', '&quot')
+        return self.html_escape(text).replace('"', '&quot;')
 
     # *_emit methods for emitting nodes of the document:
 
-- 
2.43.0


From ab7b79e01ad6f45d480626222304f2ef70f6ae6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:46 +0000
Subject: [PATCH 02/85] fix: escape the image target used as title of a sized
 image

---
 creole/emitter/creol2html_emitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 1618abb..13a7742 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -273,7 +273,7 @@ class HtmlEmitter:
                 if "|" in text:
                     title, size_str = text.split("|", 1)
                     if not title:
-                        title = target
+                        title = self.attr_escape(target)
                     w_str, h_str = size_str.split("x", 1)
                     width = int(w_str.strip())
                     height = int(h_str.strip())
-- 
2.43.0


From 769c31d99b019fc96ca2b2e772d24439eb06528c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:47 +0000
Subject: [PATCH 03/85] fix: don't store the table of contents in the caller's
 macros

<<toc>> put its state into the macros dict/object given by the caller: the
next conversion with the same macros got the headlines of the previous one,
and an own macro called "toc" crashed the conversion.
---
 creole/emitter/creol2html_emitter.py | 29 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 13a7742..9ac91d9 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -109,22 +109,19 @@ class HtmlEmitter:
         else:
             self.macros = macros
 
-        if "toc" not in root.used_macros:
-            # The document has no <<toc>>
-            self.toc = None
-        else:
+        # The table of contents of this document. It is not stored in the macros
+        # of the caller and it must not replace a "toc" macro defined there.
+        self.toc = None
+        if "toc" in root.used_macros:
             if isinstance(self.macros, dict):
-                if "toc" in self.macros:
-                    self.toc = self.macros["toc"]
-                else:
-                    self.toc = TableOfContent()
-                    self.macros["toc"] = self.toc
+                toc_macro = self.macros.get("toc")
             else:
-                try:
-                    self.toc = getattr(self.macros, "toc")
-                except AttributeError:
-                    self.toc = TableOfContent()
-                    self.macros.toc = self.toc
+                toc_macro = getattr(self.macros, "toc", None)
+
+            if toc_macro is None:
+                self.toc = TableOfContent()
+            elif isinstance(toc_macro, TableOfContent):
+                self.toc = toc_macro
 
         if verbose is None:
             self.verbose = 1
@@ -301,7 +298,9 @@ class HtmlEmitter:
         macro_kwargs["text"] = text
 
         exc_info = None
-        if isinstance(self.macros, dict):
+        if macro_name == "toc" and self.toc is not None:
+            macro = self.toc
+        elif isinstance(self.macros, dict):
             try:
                 macro = self.macros[macro_name]
             except KeyError:
-- 
2.43.0


From bd9db3b7ee87474d1409d32454c345ca01557046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:52 +0000
Subject: [PATCH 04/85] fix: escape headlines in the table of contents and in
 its anchors

---
 creole/emitter/creol2html_emitter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 9ac91d9..557eed5 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -65,7 +65,9 @@ class TableOfContent:
         """Convert a python nested list like the one representing the toc to an html equivalent."""
         indent = "\t" * level
         if isinstance(nested_headlines, str):
-            return f'{indent}<li><a href="#{nested_headlines}">{nested_headlines}</a></li>\n'
+            text = escape(nested_headlines)
+            target = escape(nested_headlines, {'"': '&quot;'})
+            return f'{indent}<li><a href="#{target}">{text}</a></li>\n'
         elif isinstance(nested_headlines, list):
             html = f'{indent}<ul>\n'
             for elt in nested_headlines:
@@ -245,7 +247,7 @@ class HtmlEmitter:
         if self.toc is not None:
             self.toc.add_headline(node.level, node.content)
             # add link attribute for toc navigation
-            header = f'<a name="{self.html_escape(node.content)}">{header}</a>'
+            header = f'<a name="{self.attr_escape(node.content)}">{header}</a>'
 
         header += "\n"
         return header
-- 
2.43.0


From 33b941925e7265fe0fc031d03d8c1c50c8e31027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:57 +0000
Subject: [PATCH 05/85] fix: <<toc depth=n>> applies to headlines before the
 toc and a bad depth is a macro error

---
 creole/emitter/creol2html_emitter.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 557eed5..6c0bf5b 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -27,18 +27,17 @@ class TableOfContent:
         if self._created:
             return "&lt;&lt;toc&gt;&gt;"
 
-        self._created = True
         if depth is not None:
-            self.max_depth = depth
+            self.max_depth = int(depth)
+        self._created = True
 
         return '<<toc>>'
 
     def add_headline(self, level, content):
         """Add the current header to the toc."""
-        if self.max_depth is None or level <= self.max_depth:
-            self.headlines.append(
-                (level, content)
-            )
+        self.headlines.append(
+            (level, content)
+        )
 
     def flat_list2nest_list(self, flat_list):
         # this func code based on borrowed code from EyDu, Thanks!
@@ -79,7 +78,14 @@ class TableOfContent:
 
     def emit(self, document):
         """Emit the toc where the <<toc>> macro was."""
-        nested_headlines = self.flat_list2nest_list(self.headlines)
+        # The depth is not known before the <<toc>> macro was emitted and this
+        # can be after the first headlines.
+        headlines = [
+            (level, content)
+            for level, content in self.headlines
+            if self.max_depth is None or level <= self.max_depth
+        ]
+        nested_headlines = self.flat_list2nest_list(headlines)
         html = self.nested_headlines2html(nested_headlines)
 
         # FIXME: We should not use <p> here, because it doesn't match
-- 
2.43.0


From d967ad286c911496583a62606d006d0b4e4a2087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 06/85] fix: escape the error message of a failed macro

---
 creole/emitter/creol2html_emitter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 6c0bf5b..8b8ea41 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -328,7 +328,7 @@ class HtmlEmitter:
         try:
             result = macro(**macro_kwargs)
         except TypeError as err:
-            msg = f"Macro '{macro_name}' error: {err}"
+            msg = f"Macro '{macro_name}' error: {self.html_escape(str(err))}"
             exc_info = sys.exc_info()
             if self.verbose > 1:
                 if self.verbose > 2:
@@ -355,14 +355,14 @@ class HtmlEmitter:
             return self.error(msg, exc_info)
         except Exception as err:
             return self.error(
-                f"Macro '{macro_name}' error: {err}",
+                f"Macro '{macro_name}' error: {self.html_escape(str(err))}",
                 exc_info=sys.exc_info()
             )
 
         if not isinstance(result, str):
             msg = f"Macro '{macro_name}' doesn't return a unicode string!"
             if self.verbose > 1:
-                msg += f" - returns: {result!r}, type {type(result)!r}"
+                msg += self.html_escape(f" - returns: {result!r}, type {type(result)!r}")
             return self.error(msg)
 
         if node.kind == "macro_block":
-- 
2.43.0


From 3f6f0e9e1ad65e055a196ff403712aa473f42dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 07/85] fix: only h1 - h6 are headlines

======= created <h7>, and <h0>, <h7> or e.g. <h1x> were handled as headlines,
which html2rest can not emit (KeyError).
---
 creole/parser/creol2html_parser.py | 2 +-
 creole/parser/html_parser.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/parser/creol2html_parser.py b/creole/parser/creol2html_parser.py
index dd31a44..35b856a 100644
--- a/creole/parser/creol2html_parser.py
+++ b/creole/parser/creol2html_parser.py
@@ -303,7 +303,7 @@ class CreoleParser:
     def _head_repl(self, groups):
         self._upto_block()
         node = DocNode('header', self.cur, groups['head_text'].strip())
-        node.level = len(groups['head_head'])
+        node.level = min(len(groups['head_head']), 6)  # HTML knows only h1 - h6
         self.text = None
     _head_head_repl = _head_repl
     _head_text_repl = _head_repl
diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 0b8e171..a0b2c7b 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -35,7 +35,7 @@ inline_re = re.compile(r'''
 ''', re.VERBOSE | re.UNICODE)
 
 
-headline_tag_re = re.compile(r"h(\d)", re.UNICODE)
+headline_tag_re = re.compile(r"h([1-6])$", re.UNICODE)
 
 # ------------------------------------------------------------------------------
 
-- 
2.43.0


From d741315b4beae0d090102e09109175bcbd090364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:48 +0000
Subject: [PATCH 08/85] fix: keep the line break before the continuation line
 of a list item

In blog line break mode '* foo' + newline + 'bar' was rendered as 'foobar'.
---
 creole/parser/creol2html_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/creole/parser/creol2html_parser.py b/creole/parser/creol2html_parser.py
index 35b856a..0326282 100644
--- a/creole/parser/creol2html_parser.py
+++ b/creole/parser/creol2html_parser.py
@@ -130,6 +130,10 @@ class CreoleParser:
             # use wikipedia style line breaks and seperate a new line with one space
             text = " " + text
 
+        if self.blog_line_breaks and self.cur.kind == 'list_item' and self.cur.children:
+            # a list item continued in the next line
+            DocNode('break', self.cur, "")
+
         self.parse_inline(text)
 
         if groups.get('break') and self.cur.kind in ('paragraph',
-- 
2.43.0


From 74658cbe12025586ab0dd8e830e94c3e0dab6ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:53 +0000
Subject: [PATCH 09/85] fix: block elements directly after a text line in wiki
 line break mode

A list, table, headline, line or nowiki block directly after a text line was
only recognized in blog line break mode, in wiki mode it became normal text.
---
 creole/emitter/creol2html_emitter.py |  4 ++++
 creole/parser/creol2html_parser.py   | 14 +++++++-------
 creole/parser/creol2html_rules.py    |  2 +-
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 8b8ea41..724ee10 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -380,6 +380,10 @@ class HtmlEmitter:
         else:
             return "<br />\n"
 
+    def space_emit(self, node):
+        """ a line break in wiki line break mode """
+        return " "
+
     def line_emit(self, node):
         return "\n"
 
diff --git a/creole/parser/creol2html_parser.py b/creole/parser/creol2html_parser.py
index 0326282..eaafb9f 100644
--- a/creole/parser/creol2html_parser.py
+++ b/creole/parser/creol2html_parser.py
@@ -92,7 +92,7 @@ class CreoleParser:
         """
         if self.cur.children:
             last_child = self.cur.children[-1]
-            if last_child.kind == "break":
+            if last_child.kind in ("break", "space"):
                 del self.cur.children[-1]
 
     def _upto(self, node, kinds):
@@ -126,13 +126,9 @@ class CreoleParser:
 
         text = groups.get('text', "")
 
-        if groups.get('space') and self.cur.children:
-            # use wikipedia style line breaks and seperate a new line with one space
-            text = " " + text
-
-        if self.blog_line_breaks and self.cur.kind == 'list_item' and self.cur.children:
+        if self.cur.kind == 'list_item' and self.cur.children and self.cur.children[-1].kind != 'break':
             # a list item continued in the next line
-            DocNode('break', self.cur, "")
+            DocNode('break' if self.blog_line_breaks else 'space', self.cur, "")
 
         self.parse_inline(text)
 
@@ -140,6 +136,10 @@ class CreoleParser:
                                                      'emphasis', 'strong', 'pre_inline'):
             self.last_text_break = DocNode('break', self.cur, "")
 
+        if groups.get('space') and self.cur.kind == 'paragraph':
+            # use wikipedia style line breaks and seperate a new line with one space
+            DocNode('space', self.cur, "")
+
         self.text = None
     _break_repl = _text_repl
     _space_repl = _text_repl
diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index 07754c9..00048ac 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -156,7 +156,7 @@ class BlockRules:
             self.text = r'(?P<text> .+ ) (?P<break> (?<!\\)$\n(?!\s*$) )?'
         else:
             # use wiki style line breaks, seperate lines with one space
-            self.text = r'(?P<space> (?<!\\)$\n(?!\s*$) )? (?P<text> .+ )'
+            self.text = r'(?P<text> .+ ) (?P<space> (?<!\\)$\n(?!\s*$) )?'
 
         self.rules = (
             self.macro_block,
-- 
2.43.0


From 281476566f6fa86d5c8df5323e8a2f4e4498cd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 10/85] fix: keep a forced line break at the end of a typeface

**foo\\\\**bar was rendered without the line break.
---
 creole/parser/creol2html_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/creole/parser/creol2html_parser.py b/creole/parser/creol2html_parser.py
index eaafb9f..48ec8cf 100644
--- a/creole/parser/creol2html_parser.py
+++ b/creole/parser/creol2html_parser.py
@@ -366,13 +366,14 @@ class CreoleParser:
     # --------------------------------------------------------------------------
 
     def _inline_mark(self, groups, key):
-        self.cur = DocNode(key, self.cur)
+        parent = self.cur
+        self.cur = DocNode(key, parent)
 
         self.text = None
         text = groups[f"{key}_text"]
         self.parse_inline(text)
 
-        self.cur = self._upto(self.cur, (key,)).parent
+        self.cur = parent
         self.text = None
 
     # TODO: How can we generalize that:
-- 
2.43.0


From 83f5e0e4d220943b5fcc52d736e5da0b90791803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 11/85] fix: a HTML end tag closes the element it belongs to

A end tag without a start tag and misnested tags (e.g. <a><h1>x</h1></a>, as
created for a table of contents) moved the current node above the document
root: the rest of the document was lost.
---
 creole/parser/html_parser.py | 42 ++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index a0b2c7b..7dd99b9 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -11,7 +11,7 @@ import warnings
 from html.parser import HTMLParser
 
 from creole.html_tools.strip_html import strip_html
-from creole.parser.html_parser_config import BLOCK_TAGS, IGNORE_TAGS
+from creole.parser.html_parser_config import IGNORE_TAGS
 from creole.shared.document_tree import DebugList, DocNode
 
 
@@ -159,23 +159,17 @@ class HtmlParser(HTMLParser):
 
     # -------------------------------------------------------------------------
 
-    def _upto(self, node, kinds):
+    def _find_open(self, tag):
         """
-        Look up the tree to the first occurence
-        of one of the listed kinds of nodes or root.
-        Start at the node node.
+        Look up the tree, from the current node, to the node
+        which was opened by the given tag. Returns None if there is no.
         """
-        while node is not None and node.parent is not None:
+        kind = "headline" if headline_tag_re.match(tag) else tag
+        node = self.cur
+        while node is not self.root:
+            if node.kind == kind:
+                return node
             node = node.parent
-            if node.kind in kinds:
-                break
-
-        return node
-
-    def _go_up(self):
-        kinds = list(BLOCK_TAGS) + ["document"]
-        self.cur = self._upto(self.cur, kinds)
-        self.debug_msg("go up to", self.cur)
 
     # -------------------------------------------------------------------------
 
@@ -238,19 +232,19 @@ class HtmlParser(HTMLParser):
 
         self.debug_msg("endtag", f"{tag!r}")
 
-        if tag == "br":  # handled in starttag
+        node = self._find_open(tag)
+        if node is None:
+            # A end tag without a start tag, e.g.: </br>
             return
 
-        self.debug_msg("starttag", f"{self.get_starttag_text()!r}")
-
-        if tag in ("ul", "ol"):
-            self.__list_level -= 1
-
-        if tag in BLOCK_TAGS or self.cur is None:
-            self._go_up()
-        else:
+        # Close the node and everything that is still open in it
+        while self.cur is not node.parent:
+            if self.cur.kind in ("ul", "ol"):
+                self.__list_level -= 1
             self.cur = self.cur.parent
 
+        self.debug_msg("go up to", self.cur)
+
     # -------------------------------------------------------------------------
 
     def debug_msg(self, method, txt):
-- 
2.43.0


From b7861ac1dc5642b41dbaf14a6fefa16a85ff7c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:47 +0000
Subject: [PATCH 12/85] fix: <hr> and other void HTML elements don't swallow
 the following content

---
 creole/parser/html_parser.py        | 9 ++++-----
 creole/parser/html_parser_config.py | 6 ++++++
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 7dd99b9..0f5da5c 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -11,7 +11,7 @@ import warnings
 from html.parser import HTMLParser
 
 from creole.html_tools.strip_html import strip_html
-from creole.parser.html_parser_config import IGNORE_TAGS
+from creole.parser.html_parser_config import IGNORE_TAGS, VOID_TAGS
 from creole.shared.document_tree import DebugList, DocNode
 
 
@@ -190,10 +190,9 @@ class HtmlParser(HTMLParser):
             if tag in ("ul", "ol"):
                 self.__list_level += 1
             self.cur = DocNode(tag, self.cur, None, attrs, level=self.__list_level)
-        elif tag in ("img", "br"):
-            # Work-a-round if img or br  tag is not marked as startendtag:
-            # wrong: <img src="/image.jpg"> doesn't work if </img> not exist
-            # right: <img src="/image.jpg" />
+        elif tag in VOID_TAGS:
+            # There is no end tag, also if it's not marked as startendtag, e.g.:
+            # <br>, <hr> or <img src="/image.jpg">
             DocNode(tag, self.cur, None, attrs)
         else:
             self.cur = DocNode(tag, self.cur, None, attrs)
diff --git a/creole/parser/html_parser_config.py b/creole/parser/html_parser_config.py
index 38557ed..28f38a1 100644
--- a/creole/parser/html_parser_config.py
+++ b/creole/parser/html_parser_config.py
@@ -19,3 +19,9 @@ BLOCK_TAGS = (
     "br"
 )
 IGNORE_TAGS = ("tbody",)
+
+# Elements without content and without a end tag:
+VOID_TAGS = (
+    "area", "base", "br", "col", "embed", "hr", "img", "input", "link",
+    "meta", "param", "source", "track", "wbr"
+)
-- 
2.43.0


From b9079750b1b4b8a2c9da728213b0126bde37986d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:52 +0000
Subject: [PATCH 13/85] fix: don't lose the end of incomplete HTML code

e.g. a document that ended with 'R&D' or 'a < b' lost its last characters.
---
 creole/parser/html_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 0f5da5c..dd064be 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -154,6 +154,7 @@ class HtmlParser(HTMLParser):
             print("-" * 79)
 
         HTMLParser.feed(self, data)
+        self.close()  # handle the buffered rest, e.g.: "R&D"
 
         return self.root
 
-- 
2.43.0


From 0b8268909008f3e2e430f2dd8067d784aca93f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 14/85] fix: impossible, unknown and upper case character
 references

&#X3C;, &#99999999; and &#xD800; or an unknown name in a <pre> area aborted the
conversion, &frac12; and &#X3C; were not converted in a <pre> area.
---
 creole/html_tools/deentity.py | 25 ++++++++++++++++++-------
 creole/shared/base_emitter.py |  2 +-
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/creole/html_tools/deentity.py b/creole/html_tools/deentity.py
index 16a7dfa..6a3f8a9 100644
--- a/creole/html_tools/deentity.py
+++ b/creole/html_tools/deentity.py
@@ -14,8 +14,8 @@ from html import entities
 
 entities_rules = '|'.join([
     r"(&\#(?P<number>\d+);)",
-    r"(&\#x(?P<hex>[a-fA-F0-9]+);)",
-    r"(&(?P<named>[a-zA-Z]+);)",
+    r"(&\#[xX](?P<hex>[a-fA-F0-9]+);)",
+    r"(&(?P<named>[a-zA-Z][a-zA-Z0-9]*);)",
 ])
 # print(entities_rules)
 entities_regex = re.compile(
@@ -42,15 +42,22 @@ class Deentity:
     '&'
     """
 
+    def _chr(self, digits, base):
+        digits = digits.lstrip("0") or "0"
+        # the biggest code point has 7 digits
+        unicode_no = int(digits, base) if len(digits) <= 7 else None
+        if not unicode_no or unicode_no > 0x10FFFF or 0xD800 <= unicode_no <= 0xDFFF:
+            # There is no such character -> REPLACEMENT CHARACTER
+            return "\uFFFD"
+        return chr(unicode_no)
+
     def replace_number(self, text):
         """ unicode number entity """
-        unicode_no = int(text)
-        return chr(unicode_no)
+        return self._chr(text, base=10)
 
     def replace_hex(self, text):
         """ hex entity """
-        unicode_no = int(text, 16)
-        return chr(unicode_no)
+        return self._chr(text, base=16)
 
     def replace_named(self, text):
         """ named entity """
@@ -68,7 +75,11 @@ class Deentity:
             for name, text in groups.items():
                 if text is not None:
                     replace_method = getattr(self, f'replace_{name}')
-                    return replace_method(text)
+                    try:
+                        return replace_method(text)
+                    except KeyError:
+                        # unknown named entity
+                        return match.group(0)
 
             # Should never happen:
             raise RuntimeError("deentitfy re rules wrong!")
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 35d7f88..b287600 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -69,7 +69,7 @@ class BaseEmitter:
         """
         entity = node.content
 
-        if entity.startswith("x"):
+        if entity.startswith(("x", "X")):
             # entity in hex
             hex_no = entity[1:]
             return self.deentity.replace_hex(hex_no)
-- 
2.43.0


From 2a989ba70dec1974a6c0e20137d1024719e19efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:45 +0000
Subject: [PATCH 15/85] fix: a '&' that starts no character reference doesn't
 disturb the rest

'R&D' at the end of a document lost the '&' and everything after e.g. '&# x;'
was not parsed anymore.
---
 creole/parser/html_parser.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index dd064be..cf1874f 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -154,7 +154,19 @@ class HtmlParser(HTMLParser):
             print("-" * 79)
 
         HTMLParser.feed(self, data)
-        self.close()  # handle the buffered rest, e.g.: "R&D"
+
+        while self.rawdata:
+            # HTMLParser waits for more data or stumbled over a "&"
+            rest, self.rawdata = self.rawdata, ""
+            if rest.startswith("&"):
+                self.handle_data("&")
+                rest = rest[1:]
+            HTMLParser.feed(self, rest)
+            if self.rawdata == rest:
+                # e.g.: incomplete tag at the end
+                break
+
+        self.close()
 
         return self.root
 
-- 
2.43.0


From 681df9b725524528474529480758addbcb05dbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 16/85] fix: tags with the name of the internal <pre>
 placeholders

<blockdata /> or <inlinedata /> in the given HTML code aborted the conversion.
---
 creole/parser/html_parser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index cf1874f..f74d2bf 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -130,6 +130,12 @@ class HtmlParser(HTMLParser):
         assert isinstance(raw_data, str), "feed data must be unicode!"
         data = raw_data.strip()
         if preprocess:
+            # The placeholder must not be a tag from the given html code
+            while self._block_placeholder in data.lower():
+                self._block_placeholder += "x"
+            while self._inline_placeholder in data.lower():
+                self._inline_placeholder += "x"
+
             # cut out <pre> and <tt> areas block tag areas
             data = block_re.sub(self._pre_cut_out, data)
             data = inline_re.sub(self._pre_cut_out, data)
@@ -229,8 +235,9 @@ class HtmlParser(HTMLParser):
         if tag in (self._block_placeholder, self._inline_placeholder):
             id = int(attr_dict["id"])
 #            block_type = attr_dict["type"]
+            kind = "blockdata" if tag == self._block_placeholder else "inlinedata"
             DocNode(
-                f"{tag}_{attr_dict['type']}",
+                f"{kind}_{attr_dict['type']}",
                 self.cur,
                 content=self.blockdata[id],
                 #                attrs = attr_dict
-- 
2.43.0


From ab834ce7d64766e4678c4dcd00d22d82f04bc8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:13 +0000
Subject: [PATCH 17/85] fix: <data> and other HTML tags named like a internal
 node kind

<data>, <headline>, <charref>... in the given HTML code aborted the conversion.
---
 creole/parser/html_parser_config.py | 6 ++++++
 creole/shared/base_emitter.py       | 8 +++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/creole/parser/html_parser_config.py b/creole/parser/html_parser_config.py
index 28f38a1..17217a9 100644
--- a/creole/parser/html_parser_config.py
+++ b/creole/parser/html_parser_config.py
@@ -25,3 +25,9 @@ VOID_TAGS = (
     "area", "base", "br", "col", "embed", "hr", "img", "input", "link",
     "meta", "param", "source", "track", "wbr"
 )
+
+# Node kinds that are created by the parser itself and not for a tag:
+INTERNAL_KINDS = (
+    "document", "headline", "data", "charref", "entityref",
+    "blockdata_pre", "inlinedata_pre", "blockdata_pass", "inlinedata_pass",
+)
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index b287600..c627946 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -9,7 +9,7 @@
 
 
 from creole.html_tools.deentity import Deentity
-from creole.parser.html_parser_config import BLOCK_TAGS
+from creole.parser.html_parser_config import BLOCK_TAGS, INTERNAL_KINDS
 from creole.shared.markup_table import MarkupTable
 from creole.shared.unknown_tags import transparent_unknown_nodes
 
@@ -210,6 +210,12 @@ class BaseEmitter:
 
         method_name = f"{node.kind}_emit"
         emit_method = getattr(self, method_name, None)
+        if (
+            node.kind in INTERNAL_KINDS and node.parent is not None
+            and node.content is None and node.level is None
+        ):
+            # A HTML tag with the same name, e.g.: <data>
+            emit_method = None
 
         if emit_method:
             content = emit_method(node)
-- 
2.43.0


From 45041be014754e1e5bac3d7c8f9e48e8c0731c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:20 +0000
Subject: [PATCH 18/85] fix: table cells outside of a table, text in a table
 outside of the cells, nested tables

A <td>, <th> or <tr> without a <table> aborted the conversion, cells after the
end of a table, a <caption> and the rest of a table after a nested one were lost.
---
 creole/emitter/html2markdown_emitter.py | 24 +++++++++---------
 creole/emitter/html2rest_emitter.py     |  7 +++---
 creole/shared/base_emitter.py           | 33 +++++++++++++++++++------
 3 files changed, 42 insertions(+), 22 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index b9bf8a0..7254ea5 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -45,22 +45,24 @@ class MarkdownEmitter(BaseEmitter):
 
     # --------------------------------------------------------------------------
     def table_emit(self, node):
-        self._table = MarkupTable(head_prefix='', debug_msg=self.debug_msg)
-        self.emit_children(node)
-        content = self._table.get_markdown_table()
-        return f'\n{content}\n'
-
-    def tr_emit(self, node):
-        self._table.add_tr()
-        self.emit_children(node)
-        return ''
+        table = MarkupTable(head_prefix='', debug_msg=self.debug_msg)
+        rest = self._fill_table(table, node)
+        return f'\n{rest}{table.get_markdown_table()}\n'
 
     def th_emit(self, node):
-        self._table.add_th(self.emit_children(node))
+        content = self.emit_children(node)
+        if self._table is None:
+            # not in a table
+            return f'\n{content}\n'
+        self._table.add_th(content)
         return ''
 
     def td_emit(self, node):
-        self._table.add_td(self.emit_children(node))
+        content = self.emit_children(node)
+        if self._table is None:
+            # not in a table
+            return f'\n{content}\n'
+        self._table.add_td(content)
         return ''
     # --------------------------------------------------------------------------
 
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 64891ca..28e9714 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -282,11 +282,10 @@ class ReStructuredTextEmitter(BaseEmitter):
         """
         http://docutils.sourceforge.net/docs/ref/rst/restructuredtext.html#tables
         """
-        self._table = MarkupTable(
+        table = MarkupTable(
             head_prefix="",
             auto_width=True,
             debug_msg=self.debug_msg
         )
-        self.emit_children(node)
-        content = self._table.get_rest_table()
-        return f"{content}\n\n"
+        rest = self._fill_table(table, node)
+        return f"{rest}{table.get_rest_table()}\n\n"
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index c627946..61d4c84 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -34,6 +34,7 @@ class BaseEmitter:
         self.deentity = Deentity()  # for replacing html entities
         self._inner_list = ""
         self._mask_linebreak = False
+        self._table = None  # The open table
 
     # --------------------------------------------------------------------------
 
@@ -124,20 +125,32 @@ class BaseEmitter:
 
     # --------------------------------------------------------------------------
 
+    def _fill_table(self, table, node):
+        """
+        Put all cells of the table node into the given MarkupTable().
+        Returns the content which is not in a cell, e.g.: <caption>
+        """
+        parent_table = self._table
+        self._table = table
+        rest = self.emit_children(node).strip()
+        self._table = parent_table
+        if rest:
+            rest += "\n\n"
+        return rest
+
     def table_emit(self, node):
-        self._table = MarkupTable(
+        table = MarkupTable(
             head_prefix=self.table_head_prefix,
             auto_width=self.table_auto_width,
             debug_msg=self.debug_msg
         )
-        self.emit_children(node)
-        content = self._table.get_table_markup()
-        return f"{content}\n"
+        rest = self._fill_table(table, node)
+        return f"{rest}{table.get_table_markup()}\n"
 
     def tr_emit(self, node):
-        self._table.add_tr()
-        self.emit_children(node)
-        return ""
+        if self._table is not None:
+            self._table.add_tr()
+        return self.emit_children(node)
 
     def _escape_linebreaks(self, text):
         text = text.strip()
@@ -150,12 +163,18 @@ class BaseEmitter:
 
     def th_emit(self, node):
         content = self.emit_children(node)
+        if self._table is None:
+            # not in a table
+            return f"{content}\n\n"
         content = self._escape_linebreaks(content)
         self._table.add_th(content)
         return ""
 
     def td_emit(self, node):
         content = self.emit_children(node)
+        if self._table is None:
+            # not in a table
+            return f"{content}\n\n"
         content = self._escape_linebreaks(content)
         self._table.add_td(content)
         return ""
-- 
2.43.0


From f024ce0833538c8811011051a03cd62dd006ca74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 19/85] fix: support omitted end tags of <p>, <li>, <td>, <th>
 and <tr>

The cells of <tr><td>one<td>two</tr> were swapped and the text of <p>one<p>two
was joined.
---
 creole/parser/html_parser.py        | 42 +++++++++++++++++++++++------
 creole/parser/html_parser_config.py | 10 +++++++
 2 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index f74d2bf..4ad3ba8 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -11,7 +11,7 @@ import warnings
 from html.parser import HTMLParser
 
 from creole.html_tools.strip_html import strip_html
-from creole.parser.html_parser_config import IGNORE_TAGS, VOID_TAGS
+from creole.parser.html_parser_config import IGNORE_TAGS, IMPLIED_END_TAGS, VOID_TAGS
 from creole.shared.document_tree import DebugList, DocNode
 
 
@@ -190,6 +190,36 @@ class HtmlParser(HTMLParser):
                 return node
             node = node.parent
 
+    def _close(self, node):
+        """
+        Close the given node and everything that is still open in it.
+        """
+        while self.cur is not node.parent:
+            if self.cur.kind in ("ul", "ol"):
+                self.__list_level -= 1
+            self.cur = self.cur.parent
+
+        self.debug_msg("go up to", self.cur)
+
+    def _close_implied(self, tag):
+        """
+        Close the element which is ended by the given start tag, e.g.:
+        <li>one<li>two
+        """
+        if tag not in IMPLIED_END_TAGS:
+            return
+
+        kinds, limits = IMPLIED_END_TAGS[tag]
+        found = None
+        node = self.cur
+        while node is not self.root and node.kind not in limits:
+            if node.kind in kinds:
+                found = node
+            node = node.parent
+
+        if found is not None:
+            self._close(found)
+
     # -------------------------------------------------------------------------
 
     def handle_starttag(self, tag, attrs):
@@ -198,6 +228,8 @@ class HtmlParser(HTMLParser):
         if tag in IGNORE_TAGS:
             return
 
+        self._close_implied(tag)
+
         headline = headline_tag_re.match(tag)
         if headline:
             self.cur = DocNode(
@@ -256,13 +288,7 @@ class HtmlParser(HTMLParser):
             # A end tag without a start tag, e.g.: </br>
             return
 
-        # Close the node and everything that is still open in it
-        while self.cur is not node.parent:
-            if self.cur.kind in ("ul", "ol"):
-                self.__list_level -= 1
-            self.cur = self.cur.parent
-
-        self.debug_msg("go up to", self.cur)
+        self._close(node)
 
     # -------------------------------------------------------------------------
 
diff --git a/creole/parser/html_parser_config.py b/creole/parser/html_parser_config.py
index 17217a9..d08eeaa 100644
--- a/creole/parser/html_parser_config.py
+++ b/creole/parser/html_parser_config.py
@@ -31,3 +31,13 @@ INTERNAL_KINDS = (
     "document", "headline", "data", "charref", "entityref",
     "blockdata_pre", "inlinedata_pre", "blockdata_pass", "inlinedata_pass",
 )
+
+# Elements whose end tag is optional in HTML.
+# Start tag -> (open elements it closes, elements that limit the search):
+IMPLIED_END_TAGS = {
+    "p": (("p",), ("li", "td", "th", "div", "blockquote", "ul", "ol", "table")),
+    "li": (("li",), ("ul", "ol", "table")),
+    "td": (("td", "th"), ("tr", "table")),
+    "th": (("td", "th"), ("tr", "table")),
+    "tr": (("tr", "td", "th"), ("table",)),
+}
-- 
2.43.0


From add23e4fb0545c8b228efee62ce3db2387755d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:59 +0000
Subject: [PATCH 20/85] fix: <a> without href, <img> without src and attributes
 without a value

An anchor, an image without (or with an empty) src and e.g. <img title> aborted
the conversion.
---
 creole/emitter/html2creole_emitter.py   | 11 +++++++----
 creole/emitter/html2markdown_emitter.py | 13 +++++++++++--
 creole/emitter/html2rest_emitter.py     | 11 +++++++++--
 creole/emitter/html2textile_emitter.py  | 11 +++++++++--
 creole/parser/html_parser.py            |  8 +++++++-
 5 files changed, 43 insertions(+), 11 deletions(-)

diff --git a/creole/emitter/html2creole_emitter.py b/creole/emitter/html2creole_emitter.py
index d745fe3..ecfd2f1 100644
--- a/creole/emitter/html2creole_emitter.py
+++ b/creole/emitter/html2creole_emitter.py
@@ -97,9 +97,8 @@ class CreoleEmitter(BaseEmitter):
 
     def a_emit(self, node):
         link_text = self.emit_children(node)
-        try:
-            url = node.attrs["href"]
-        except KeyError:
+        url = node.attrs.get("href", "")
+        if not url:
             # e.g.: <a name="anchor-one">foo</a>
             return link_text
         if link_text == url:
@@ -108,7 +107,7 @@ class CreoleEmitter(BaseEmitter):
             return f"[[{url}|{link_text}]]"
 
     def img_emit(self, node):
-        src = node.attrs["src"]
+        src = node.attrs.get("src", "")
 
         if src.split(':')[0] == 'data':
             return ""
@@ -122,6 +121,10 @@ class CreoleEmitter(BaseEmitter):
         else:
             text = title
 
+        if not src:
+            # e.g.: <img alt="foo" />
+            return text
+
         if text == "":  # Use filename as picture text
             text = posixpath.basename(src)
 
diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 7254ea5..26beb08 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -152,7 +152,12 @@ class MarkdownEmitter(BaseEmitter):
     def a_emit(self, node: DocNode):
         link_text = self.emit_children(node)
 
-        url = quote_link(node.attrs['href'])
+        url = node.attrs.get('href', '')
+        if not url:
+            # e.g.: <a name="anchor-one">foo</a>
+            return link_text
+
+        url = quote_link(url)
 
         title = node.attrs.get('title')
         if title:
@@ -161,10 +166,14 @@ class MarkdownEmitter(BaseEmitter):
             return f'[{link_text}]({url})'
 
     def img_emit(self, node: DocNode):
-        src = quote_link(node.attrs['src'])
+        src = quote_link(node.attrs.get('src', ''))
 
         title = node.attrs.get('title')
         alt = node.attrs.get('alt', '')
+        if not src:
+            # e.g.: <img alt="foo" />
+            return alt or title or ''
+
         if title and alt:
             return f'![{alt}]({src} "{title}")'
 
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 28e9714..69f693a 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -203,7 +203,10 @@ class ReStructuredTextEmitter(BaseEmitter):
 
     def a_emit(self, node):
         link_text = self.emit_children(node)
-        url = node.attrs["href"]
+        url = node.attrs.get("href", "")
+        if not url:
+            # e.g.: <a name="anchor-one">foo</a>
+            return link_text
 
         old_url = self._get_old_substitution(self._used_substitution_links, link_text, url)
 
@@ -224,7 +227,7 @@ class ReStructuredTextEmitter(BaseEmitter):
             return f"`{link_text} <{url}>`_"
 
     def img_emit(self, node):
-        src = node.attrs["src"]
+        src = node.attrs.get("src", "")
 
         if src.split(':')[0] == 'data':
             return ""
@@ -236,6 +239,10 @@ class ReStructuredTextEmitter(BaseEmitter):
         else:
             substitution_text = title
 
+        if not src:
+            # e.g.: <img alt="foo" />
+            return substitution_text
+
         if substitution_text == "":  # Use filename as picture text
             substitution_text = posixpath.basename(src)
 
diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index 89623d4..0928241 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -96,11 +96,14 @@ class TextileEmitter(BaseEmitter):
 
     def a_emit(self, node):
         link_text = self.emit_children(node)
-        url = node.attrs["href"]
+        url = node.attrs.get("href", "")
+        if not url:
+            # e.g.: <a name="anchor-one">foo</a>
+            return link_text
         return f'"{link_text}":{url}'
 
     def img_emit(self, node):
-        src = node.attrs["src"]
+        src = node.attrs.get("src", "")
 
         if src.split(':')[0] == 'data':
             return ""
@@ -112,6 +115,10 @@ class TextileEmitter(BaseEmitter):
         else:
             text = title
 
+        if not src:
+            # e.g.: <img alt="foo" />
+            return text
+
         if text == "":  # Use filename as picture text
             text = posixpath.basename(src)
 
diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 4ad3ba8..cb93b8c 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -222,6 +222,10 @@ class HtmlParser(HTMLParser):
 
     # -------------------------------------------------------------------------
 
+    def _cleanup_attrs(self, attrs):
+        # attributes without a value, e.g.: <input disabled>
+        return [(key, "" if value is None else value) for key, value in attrs]
+
     def handle_starttag(self, tag, attrs):
         self.debug_msg("starttag", f"{tag!r} atts: {attrs}")
 
@@ -230,6 +234,8 @@ class HtmlParser(HTMLParser):
 
         self._close_implied(tag)
 
+        attrs = self._cleanup_attrs(attrs)
+
         headline = headline_tag_re.match(tag)
         if headline:
             self.cur = DocNode(
@@ -275,7 +281,7 @@ class HtmlParser(HTMLParser):
                 #                attrs = attr_dict
             )
         else:
-            DocNode(tag, self.cur, None, attrs)
+            DocNode(tag, self.cur, None, self._cleanup_attrs(attrs))
 
     def handle_endtag(self, tag):
         if tag in IGNORE_TAGS:
-- 
2.43.0


From 26d6a7443e20ae06a92aeb0993736ffd45d0fa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:03 +0000
Subject: [PATCH 21/85] fix: write the attributes of unknown tags as HTML
 attributes

Quotes, & and < in a attribute value broke the tag and non ASCII characters were
written as JSON escapes.
---
 creole/shared/document_tree.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/creole/shared/document_tree.py b/creole/shared/document_tree.py
index 7e22266..1cfde55 100644
--- a/creole/shared/document_tree.py
+++ b/creole/shared/document_tree.py
@@ -9,8 +9,7 @@
 
 import inspect
 import warnings
-
-from creole.shared.utils import dict2string
+from xml.sax.saxutils import escape
 
 
 class DocNode:
@@ -47,7 +46,12 @@ class DocNode:
         >>> node.get_attrs_as_string()
         'foo="bar" no="ABC"'
         """
-        return dict2string(self.attrs)
+        attr_list = []
+        for key, value in sorted(self.attrs.items()):
+            if isinstance(value, str):
+                value = '"%s"' % escape(value, {'"': "&quot;"})
+            attr_list.append(f"{key}={value}")
+        return " ".join(attr_list)
 
     def __str__(self):
         return str(self.__repr__())
-- 
2.43.0


From ee0d6993bd17cc6fe0153f58a62715f7036fde3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:28 +0000
Subject: [PATCH 22/85] fix: html2markdown: links that are already quoted or
 that are no valid URL

'/a%20b' became '/a%2520b' and e.g. 'http://[x' aborted the conversion.
---
 creole/emitter/html2markdown_emitter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 26beb08..6500396 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -24,8 +24,11 @@ def quote_link(uri):
     >>> quote_link('https://foo.tld/a image.png?bar=1#anchor')
     'https://foo.tld/a%20image.png?bar=1#anchor'
     """
-    scheme, netloc, url, params, query, fragment = urlparse(uri)
-    url = quote(url)
+    try:
+        scheme, netloc, url, params, query, fragment = urlparse(uri)
+    except ValueError:  # e.g.: invalid IPv6 URL
+        return quote(uri, safe='/%:?#')
+    url = quote(url, safe='/%')  # Don't quote a already quoted link
     return urlunparse(ParseResult(scheme, netloc, url, params, query, fragment))
 
 
-- 
2.43.0


From bf37ea70c522fb95570ff76989a77d730cbba60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:33 +0000
Subject: [PATCH 23/85] fix: html2rest: list items after a nested list keep
 their own list markup

---
 creole/emitter/html2rest_emitter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 69f693a..98ee48f 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -269,8 +269,10 @@ class ReStructuredTextEmitter(BaseEmitter):
         return result
 
     def _list_emit(self, node, list_type):
+        parent_list_markup = self._list_markup
         self._list_markup = list_type
         content = self.emit_children(node)
+        self._list_markup = parent_list_markup
 
         if node.level == 1:
             # FIXME: This should be made ​​easier and better
-- 
2.43.0


From d22e2af8caf5af4758dc4ff3c15f50891ca919c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:38 +0000
Subject: [PATCH 24/85] fix: html2markdown: <li> that is not directly in a <ul>
 or <ol>

---
 creole/emitter/html2markdown_emitter.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 6500396..e0e21bd 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -197,13 +197,13 @@ class MarkdownEmitter(BaseEmitter):
         list_level = node.level
 
         list_node = node.parent
-        list_kind = list_node.kind
-        if list_kind == 'ul':
-            prefix = '*'
-        elif list_kind == 'ol':
+        while list_node is not None and list_node.kind not in ('ul', 'ol'):
+            list_node = list_node.parent
+
+        if list_node is not None and list_node.kind == 'ol':
             prefix = '1.'
         else:
-            raise NotImplementedError(f'List type: {list_kind}')
+            prefix = '*'
 
         indent = '  ' * (list_level - 1)
 
-- 
2.43.0


From 020feddd9434d6a64710011c6b36f432c503827a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:03 +0000
Subject: [PATCH 25/85] fix: html2markdown: content of <pre><code>

Everything after the first character reference or tag was lost, a empty or not
leading <code> aborted the conversion and debug output was printed.
---
 creole/emitter/html2markdown_emitter.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index e0e21bd..47d39a3 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -8,6 +8,7 @@
     :license: GNU GPL v3 or above, see LICENSE for more details.
 
 """
+import re
 from urllib.parse import ParseResult, quote, urlparse, urlunparse
 
 from creole.parser.html_parser import HtmlParser
@@ -16,6 +17,12 @@ from creole.shared.document_tree import DocNode
 from creole.shared.markup_table import MarkupTable
 
 
+# e.g.: <pre><code class="language-python">...</code></pre>
+code_block_re = re.compile(
+    r'\s*(?P<start_tag><code(\s[^<>]*)?>)(?P<code>.*)</code>\s*\Z', re.DOTALL
+)
+
+
 def quote_link(uri):
     """
     >>> quote_link('http://foo.tld/a image with spaces.png')
@@ -77,12 +84,13 @@ class MarkdownEmitter(BaseEmitter):
         """a pre inline block -> no newline at the end"""
         pre_content = node.content
 
-        if pre_content.endswith('</code>'):
+        match = code_block_re.match(pre_content)
+        if match:
             # TODO: The parser should parse this!
-            p = HtmlParser(debug=True)
-            root_node: DocNode = p.feed(pre_content, preprocess=False)
+            p = HtmlParser()
+            root_node: DocNode = p.feed(match.group('start_tag'), preprocess=False)
             code_node: DocNode = root_node.children[0]
-            code = self.deentity.replace_all(code_node.children[0].content)
+            code = self.deentity.replace_all(match.group('code'))
 
             class_value = code_node.attrs.get('class')
             if class_value:
-- 
2.43.0


From f988f667366b4ce2b215e8387ece6b99239cba58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:08 +0000
Subject: [PATCH 26/85] fix: tables with a different number of cells per row
 lose no cells

All rows were cut to the shortest one, see the badge table in README.rst and
README.md (updated here). The ReSt output of a empty table was not valid.
---
 README.md                     | 10 +++++-----
 README.rst                    | 20 ++++++++++----------
 creole/shared/markup_table.py | 20 ++++++++++++++++----
 3 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/README.md b/README.md
index 047689f..5f1fd95 100644
--- a/README.md
+++ b/README.md
@@ -21,10 +21,10 @@ Existing converters:
 
 The creole2html part based on the creole markup parser and emitter from the MoinMoin project by Radomir Dopieralski and Thomas Waldmann.
 
-| ![Build Status on github](https://github.com/jedie/python-creole/workflows/test/badge.svg?branch=master "Build Status on github") |
-| ![Coverage Status on coveralls.io](https://coveralls.io/repos/jedie/python-creole/badge.svg "Coverage Status on coveralls.io")    |
-| ![Status on landscape.io](https://landscape.io/github/jedie/python-creole/main/landscape.svg "Status on landscape.io")            |
-| ![PyPi version](https://badge.fury.io/py/python-creole.svg "PyPi version")                                                        |
+| ![Build Status on github](https://github.com/jedie/python-creole/workflows/test/badge.svg?branch=master "Build Status on github") |                                                                                                          |
+| ![Coverage Status on coveralls.io](https://coveralls.io/repos/jedie/python-creole/badge.svg "Coverage Status on coveralls.io")    | [coveralls.io/r/jedie/python-creole](https://coveralls.io/r/jedie/python-creole)                         |
+| ![Status on landscape.io](https://landscape.io/github/jedie/python-creole/main/landscape.svg "Status on landscape.io")            | [landscape.io/github/jedie/python-creole/master](https://landscape.io/github/jedie/python-creole/master) |
+| ![PyPi version](https://badge.fury.io/py/python-creole.svg "PyPi version")                                                        | [pypi.org/project/python-creole/](https://pypi.org/project/python-creole/)                               |
 
 # install
 
@@ -439,4 +439,4 @@ first source code was written 27.11.2008: [Forum thread (de)](http://www.python-
 
 ------------
 
-``Note: this file is generated from README.creole 2022-08-23 07:57:12 with "python-creole"``
\ No newline at end of file
+``Note: this file is generated from README.creole 2023-08-24 15:49:20 with "python-creole"``
\ No newline at end of file
diff --git a/README.rst b/README.rst
index 4f70129..06c1dbf 100644
--- a/README.rst
+++ b/README.rst
@@ -27,15 +27,15 @@ Existing converters:
 
 The creole2html part based on the creole markup parser and emitter from the MoinMoin project by Radomir Dopieralski and Thomas Waldmann.
 
-+-----------------------------------+
-| |Build Status on github|          |
-+-----------------------------------+
-| |Coverage Status on coveralls.io| |
-+-----------------------------------+
-| |Status on landscape.io|          |
-+-----------------------------------+
-| |PyPi version|                    |
-+-----------------------------------+
++-----------------------------------+---------------------------------------------------+
+| |Build Status on github|          |                                                   |
++-----------------------------------+---------------------------------------------------+
+| |Coverage Status on coveralls.io| | `coveralls.io/r/jedie/python-creole`_             |
++-----------------------------------+---------------------------------------------------+
+| |Status on landscape.io|          | `landscape.io/github/jedie/python-creole/master`_ |
++-----------------------------------+---------------------------------------------------+
+| |PyPi version|                    | `pypi.org/project/python-creole/`_                |
++-----------------------------------+---------------------------------------------------+
 
 .. |Build Status on github| image:: https://github.com/jedie/python-creole/workflows/test/badge.svg?branch=master
 .. |Coverage Status on coveralls.io| image:: https://coveralls.io/repos/jedie/python-creole/badge.svg
@@ -710,4 +710,4 @@ donation
 
 ------------
 
-``Note: this file is generated from README.creole 2022-08-23 07:57:12 with "python-creole"``
\ No newline at end of file
+``Note: this file is generated from README.creole 2023-08-24 15:49:20 with "python-creole"``
\ No newline at end of file
diff --git a/creole/shared/markup_table.py b/creole/shared/markup_table.py
index 70611c2..82f121a 100644
--- a/creole/shared/markup_table.py
+++ b/creole/shared/markup_table.py
@@ -1,3 +1,10 @@
+from itertools import zip_longest
+
+
+# The smallest column, for " x " (A column of a markup table can not be without any character)
+MIN_WIDTH = 3
+
+
 class MarkupTable:
     """
     Container for holding table data and render the data in creole markup.
@@ -50,8 +57,10 @@ class MarkupTable:
                 line_cells.append(cell)
             cells.append(line_cells)
 
-        # Build a list of max len for every column
-        widths = [max(map(len, col)) for col in zip(*cells)]
+        # Build a list of max len for every column, also if not all rows have the same number of cells
+        widths = [
+            max(MIN_WIDTH, *map(len, col)) for col in zip_longest(*cells, fillvalue="")
+        ]
 
         return cells, widths
 
@@ -80,6 +89,9 @@ class MarkupTable:
         """ return the table data in ReSt markup. """
         # preformat every table cell
         cells, widths = self._get_preformat_info()
+        if not widths:
+            # table without any cell
+            return ""
 
         separator_line = f"+{'+'.join(('-' * width) for width in widths)}+"
         headline_separator = f"+{'+'.join(('=' * width) for width in widths)}+"
@@ -92,7 +104,7 @@ class MarkupTable:
                 lines.append(separator_line)
 
             # Join every line with ljust
-            cells = [cell.ljust(width) for cell, width in zip(row, widths)]
+            cells = [cell.ljust(width) for cell, width in zip_longest(row, widths, fillvalue="")]
             lines.append("|" + "|".join(cells) + "|")
 
         lines.append(separator_line)
@@ -108,7 +120,7 @@ class MarkupTable:
             if no == 1 and self.has_header:
                 cells = ['-' * (width - 2) for width in widths]
                 lines.append(f'| {" | ".join(cells)} |')
-            cells = [cell.ljust(width) for cell, width in zip(row, widths)]
+            cells = [cell.ljust(width) for cell, width in zip_longest(row, widths, fillvalue="")]
             lines.append(f'|{"|".join(cells)}|')
 
         result = "\n".join(lines)
-- 
2.43.0


From 78884bd4f973588a5f46a20ff68f4881f29184cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 27/85] fix: the command line tools don't destroy the
 destination on errors

The destination was emptied before the source was read and converted: a failed
conversion destroyed it and with source = destination the source was lost.
---
 creole/cmdline.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/creole/cmdline.py b/creole/cmdline.py
index 18d9074..f3a7587 100644
--- a/creole/cmdline.py
+++ b/creole/cmdline.py
@@ -49,10 +49,14 @@ class CreoleCLI:
         )
 
         with codecs.open(sourcefile, "r", encoding=encoding) as infile:
-            with codecs.open(destination, "w", encoding=encoding) as outfile:
-                content = infile.read()
-                converted = self.convert_func(content)
-                outfile.write(converted)
+            content = infile.read()
+
+        converted = self.convert_func(content)
+        data = converted.encode(encoding)
+
+        # Don't touch the destination before everything that can fail is done
+        with open(destination, "wb") as outfile:
+            outfile.write(data)
         print(f"done. {destination!r} created.")
 
 
-- 
2.43.0


From 3f3290bab6fbf3e4df55603f68320593afad75d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 28/85] fix: unified_diff with a missing newline at the end and
 with other line separators

---
 creole/shared/diff_utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/creole/shared/diff_utils.py b/creole/shared/diff_utils.py
index b6fa05d..04990ca 100644
--- a/creole/shared/diff_utils.py
+++ b/creole/shared/diff_utils.py
@@ -4,6 +4,7 @@
 """
 
 import difflib
+import re
 
 
 def unified_diff(old, new, filename=None):
@@ -18,8 +19,9 @@ def unified_diff(old, new, filename=None):
         tofile = f'new / {filename}'
 
     if isinstance(old, str) and isinstance(new, str):
-        old = old.splitlines(keepends=True)
-        new = new.splitlines(keepends=True)
+        # Note: str.splitlines() splits also at e.g.: form feed
+        old = re.findall(r'[^\n]*\n|[^\n]+', old)
+        new = re.findall(r'[^\n]*\n|[^\n]+', new)
 
     diff = difflib.unified_diff(old, new, fromfile=fromfile, tofile=tofile)
 
@@ -29,6 +31,6 @@ def unified_diff(old, new, filename=None):
 
         # Work around missing newline (http://bugs.python.org/issue2142).
         if text and not line.endswith('\n'):
-            text += 'n\\ No newline at end of file\n'
+            text += '\n\\ No newline at end of file\n'
 
     return text
-- 
2.43.0


From 7a55899ffd94534b7e927d835cfe8f777c3999b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 29/85] fix: get_long_description uses the existing html2rest
 argument

---
 creole/setup_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/setup_utils.py b/creole/setup_utils.py
index 2b716ea..15d2053 100644
--- a/creole/setup_utils.py
+++ b/creole/setup_utils.py
@@ -77,7 +77,7 @@ def get_long_description(package_root, filename='README.creole', raise_errors=No
         # convert html to ReSt
         long_description_rest = html2rest(
             long_description_html,
-            emitter_kwargs={'unknown_emit': unknown_emit}
+            unknown_emit=unknown_emit
         )
     except Exception:
         if raise_errors:
-- 
2.43.0


From cdb1c9b060d3fb255b4cb5ea6e3efe751813aa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 30/85] fix: update README.rst/README.md if the end was changed
 or the file doesn't exist

Only the lines which exist in both were compared: a shorter source, a truncated or
empty README.rst was reported as up-to-date. A missing one aborted the update.
---
 creole/setup_utils.py | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/creole/setup_utils.py b/creole/setup_utils.py
index 15d2053..0752b0c 100644
--- a/creole/setup_utils.py
+++ b/creole/setup_utils.py
@@ -105,7 +105,7 @@ def get_long_description(package_root, filename='README.creole', raise_errors=No
 
 
 def _generate_rst_readme(*, creole_readme_path):
-    with creole_readme_path.open('r') as f:
+    with creole_readme_path.open('r', encoding='UTF-8') as f:
         creole_readme = f.read().strip()
 
     # convert creole into html
@@ -131,7 +131,7 @@ def _generate_markdown_readme(*, creole_readme_path):
 
     # convert creole into html
     html_readme = creole2html(creole_readme)
-    creole_readme_path.with_suffix('.html').write_text(html_readme)
+    creole_readme_path.with_suffix('.html').write_text(html_readme, encoding='UTF-8')
 
     # convert html to Markdown
     markdown_readme = html2markdown(
@@ -144,6 +144,18 @@ def _generate_markdown_readme(*, creole_readme_path):
     return markdown_readme
 
 
+def _is_up_to_date(*, readme_path, readme):
+    """
+    Is the existing generated README file (without the note at the end) equal to the given content?
+    """
+    if not readme_path.is_file():
+        return False
+
+    content = readme_path.read_text(encoding='UTF-8', errors='replace')
+    content = content.rsplit('\n', 4)[0]  # remove note about generation with modification time
+    return content == readme
+
+
 def update_rst_readme(package_root, filename='README.creole'):
     """
     Generate README.rst from README.creole
@@ -162,19 +174,12 @@ def update_rst_readme(package_root, filename='README.creole'):
     rest_readme = _generate_rst_readme(creole_readme_path=creole_readme_path)
 
     # Check if content was changed
-    changed = False
-    with rest_readme_path.open('r') as f:
-        for new_line, old_line in zip(rest_readme.splitlines(), f):
-            if new_line.rstrip() != old_line.rstrip():
-                changed = True
-                break
-
-    if not changed:
+    if _is_up_to_date(readme_path=rest_readme_path, readme=rest_readme):
         # The existing README.rst is up-to-date: Don't change the timestamp
         print('nothing changed, ok.')
         return rest_readme_path
 
-    with rest_readme_path.open('w') as f:
+    with rest_readme_path.open('w', encoding='UTF-8') as f:
         f.write(rest_readme)
 
         # Add a note about generation with modification time from source:
@@ -210,19 +215,12 @@ def update_markdown_readme(package_root, filename='README.creole'):
     markdown_readme = _generate_markdown_readme(creole_readme_path=creole_readme_path)
 
     # # Check if content was changed
-    changed = False
-    with markdown_readme_path.open('r') as f:
-        for new_line, old_line in zip(markdown_readme.splitlines(), f):
-            if new_line.rstrip() != old_line.rstrip():
-                changed = True
-                break
-
-    if not changed:
+    if _is_up_to_date(readme_path=markdown_readme_path, readme=markdown_readme):
         # The existing README.rst is up-to-date: Don't change the timestamp
         print('nothing changed, ok.')
         return markdown_readme_path
 
-    with markdown_readme_path.open('w') as f:
+    with markdown_readme_path.open('w', encoding='UTF-8') as f:
         f.write(markdown_readme)
 
         # Add a note about generation with modification time from source:
-- 
2.43.0


From ab68c61214f64e98a800f7b9aa9efc8609633bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 31/85] fix: a list of the other kind on the same level and
 list items after a skipped level

---
 creole/parser/creol2html_parser.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/creole/parser/creol2html_parser.py b/creole/parser/creol2html_parser.py
index 48ec8cf..56bb8ed 100644
--- a/creole/parser/creol2html_parser.py
+++ b/creole/parser/creol2html_parser.py
@@ -275,22 +275,29 @@ class CreoleParser:
             kind = 'bullet_list'
         level = len(bullet) - 1
         lst = self.cur
-        # Find a list of the same kind and level up the tree
+        # Find the list of this level or the list that contains this level up the tree
         while (
             lst and not (
                 lst.kind in (
                     'number_list',
-                    'bullet_list') and lst.level == level) and lst.kind not in (
+                    'bullet_list') and lst.level <= level) and lst.kind not in (
                 'document',
                 'section',
                 'blockquote')):
             lst = lst.parent
-        if lst and lst.kind == kind:
+        if lst and lst.kind == kind and lst.level == level:
             self.cur = lst
         else:
-            # Create a new level of list
-            self.cur = self._upto(self.cur,
-                                  ('list_item', 'document', 'section', 'blockquote'))
+            self.cleanup_break(self.cur)  # remove unused end line breaks.
+            if lst.kind in ('number_list', 'bullet_list'):
+                if lst.level == level:
+                    # The other kind of list on this level follows after the old one
+                    self.cur = lst.parent
+                else:
+                    # Create a new level of list
+                    self.cur = lst.children[-1]
+            else:
+                self.cur = lst
             self.cur = DocNode(kind, self.cur)
             self.cur.level = level
         self.cur = DocNode('list_item', self.cur)
-- 
2.43.0


From 2be874dead41ce3b90b697cea0ff6194ae4cff4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:21 +0000
Subject: [PATCH 32/85] fix: a blank line with spaces separates tables

---
 creole/parser/creol2html_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index 00048ac..bc8147e 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -144,9 +144,9 @@ class BlockRules:
     )'''
 
     table = r'''^ \s*(?P<table>
-            [|].*? \s*
+            [|].*? [ \t]*
             [|]?
-        ) \s* $'''
+        ) [ \t]* $'''
 
     re_flags = re.VERBOSE | re.UNICODE | re.MULTILINE
 
-- 
2.43.0


From 6448b2179f419e2b69097401c3bd3ceaf8c98575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:27 +0000
Subject: [PATCH 33/85] fix: white space after the closing = of a table header

---
 creole/parser/creol2html_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/parser/creol2html_parser.py b/creole/parser/creol2html_parser.py
index 56bb8ed..e9d0f48 100644
--- a/creole/parser/creol2html_parser.py
+++ b/creole/parser/creol2html_parser.py
@@ -335,7 +335,7 @@ class CreoleParser:
                 self.cur = DocNode('table_cell', tr)
                 self.text = None
             else:
-                text = m.group('head').strip('= ')
+                text = m.group('head').strip('= \t')
                 self.cur = DocNode('table_head', tr)
                 self.text = DocNode('text', self.cur, "")
             self.parse_inline(text)
-- 
2.43.0


From de2daa41b3fd11ad1a660cce5f6acad3d4dd6c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:50 +0000
Subject: [PATCH 34/85] fix: blank lines at the start of a nowiki block and
 white space after its end

---
 creole/parser/creol2html_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index bc8147e..9dc5e9e 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -128,12 +128,12 @@ class BlockRules:
     separator = r'(?P<separator> ^ \s* ----) [ \t]* $'  # horizontal line
 
     pre_block = r'''(?P<pre_block>
-            ^{{{ \s* $
+            ^{{{ [ \t]* $
             (?P<pre_block_text>
                 ([\#]!(?P<pre_block_kind>\w*?)(\s+.*)?$)?
                 (.|\n)+?
             )
-            ^}}})
+            ^}}} [ \t]*)
         '''
 
     # Matches the whole list, separate items are parsed later.
-- 
2.43.0


From 231c3c172dc9968610e137636c8c8cbdc2a8c8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:51 +0000
Subject: [PATCH 35/85] fix: a pipe in inline nowiki of a table cell after }}

---
 creole/parser/creol2html_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index 9dc5e9e..b333e8a 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -186,8 +186,8 @@ class SpecialRules:
         ''' % '|'.join([
         InlineRules.link,
         InlineRules.macro_inline, InlineRules.macro_tag,
-        InlineRules.image,
-        InlineRules.pre_inline
+        InlineRules.pre_inline,
+        InlineRules.image
     ])
 
     # For pre escaping, in creole 1.0 done with ~:
-- 
2.43.0


From 3448337d64fee511a07fca1a65fdf0120fa21e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 36/85] fix: an escaped pipe doesn't end a table cell

---
 creole/parser/creol2html_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index b333e8a..1d2bb52 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -180,8 +180,8 @@ class SpecialRules:
     cell = r'''
             \| \s*
             (
-                (?P<head> [=][^|]+ ) |
-                (?P<cell> (  %s | [^|])+ )
+                (?P<head> [=] ( ~\S | [^|] )+ ) |
+                (?P<cell> (  %s | ~\S | [^|])+ )
             ) \s*
         ''' % '|'.join([
         InlineRules.link,
-- 
2.43.0


From 58b03e2fdd0298f5639e4d200c74bd3882fd3e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:15 +0000
Subject: [PATCH 37/85] fix: a line break after a single or escaped backslash

---
 creole/parser/creol2html_parser.py | 5 +++++
 creole/parser/creol2html_rules.py  | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/creole/parser/creol2html_parser.py b/creole/parser/creol2html_parser.py
index e9d0f48..4b5301b 100644
--- a/creole/parser/creol2html_parser.py
+++ b/creole/parser/creol2html_parser.py
@@ -132,6 +132,11 @@ class CreoleParser:
 
         self.parse_inline(text)
 
+        if self.cur.children and self.cur.children[-1].kind == 'break':
+            # The line ends with a forced line break
+            self.text = None
+            return
+
         if groups.get('break') and self.cur.kind in ('paragraph',
                                                      'emphasis', 'strong', 'pre_inline'):
             self.last_text_break = DocNode('break', self.cur, "")
diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index 1d2bb52..d13a649 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -153,10 +153,10 @@ class BlockRules:
     def __init__(self, blog_line_breaks=True):
         if blog_line_breaks:
             # use blog style line breaks (every line break would be converted into <br />)
-            self.text = r'(?P<text> .+ ) (?P<break> (?<!\\)$\n(?!\s*$) )?'
+            self.text = r'(?P<text> .+ ) (?P<break> $\n(?!\s*$) )?'
         else:
             # use wiki style line breaks, seperate lines with one space
-            self.text = r'(?P<text> .+ ) (?P<space> (?<!\\)$\n(?!\s*$) )?'
+            self.text = r'(?P<text> .+ ) (?P<space> $\n(?!\s*$) )?'
 
         self.rules = (
             self.macro_block,
-- 
2.43.0


From b0bbf7bc02c21d28c51dfea6d60599ff4efc564e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:18 +0000
Subject: [PATCH 38/85] fix: <li/> and other self-closed elements in HTML

---
 creole/parser/html_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index cb93b8c..1d75677 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -281,7 +281,10 @@ class HtmlParser(HTMLParser):
                 #                attrs = attr_dict
             )
         else:
-            DocNode(tag, self.cur, None, self._cleanup_attrs(attrs))
+            self.handle_starttag(tag, attrs)
+            if tag not in VOID_TAGS:
+                # a empty element, e.g.: <li />
+                self.handle_endtag(tag)
 
     def handle_endtag(self, tag):
         if tag in IGNORE_TAGS:
-- 
2.43.0


From 0c024e30228dd514bba107ef37f372f6f0addfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:23 +0000
Subject: [PATCH 39/85] fix: lone surrogate in a link of html2markdown

---
 creole/emitter/html2markdown_emitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 47d39a3..22204a3 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -34,8 +34,8 @@ def quote_link(uri):
     try:
         scheme, netloc, url, params, query, fragment = urlparse(uri)
     except ValueError:  # e.g.: invalid IPv6 URL
-        return quote(uri, safe='/%:?#')
-    url = quote(url, safe='/%')  # Don't quote a already quoted link
+        return quote(uri, safe='/%:?#', errors='replace')
+    url = quote(url, safe='/%', errors='replace')  # Don't quote a already quoted link
     return urlunparse(ParseResult(scheme, netloc, url, params, query, fragment))
 
 
-- 
2.43.0


From ee8c2f15134ce23b83d43a52a232c204e704950d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 40/85] fix: html2rest output growing exponentially with nested
 headlines or tables

---
 creole/emitter/html2rest_emitter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 98ee48f..3865863 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -116,7 +116,7 @@ class ReStructuredTextEmitter(BaseEmitter):
             level = 6
 
         char, both = self.HEADLINE_DATA[level]
-        markup = char * len(text)
+        markup = char * max(map(len, text.split("\n")))
 
         if both:
             format = "%(m)s\n%(t)s\n%(m)s\n\n"
@@ -297,4 +297,7 @@ class ReStructuredTextEmitter(BaseEmitter):
             debug_msg=self.debug_msg
         )
         rest = self._fill_table(table, node)
+        if self._table is not None:
+            # A cell has only one line: there is no place for the grid of a nested table
+            return rest + "\n".join(" ".join(row) for row in table.rows)
         return f"{rest}{table.get_rest_table()}\n\n"
-- 
2.43.0


From 6e4e4a2e749251a876030b23b4ea658243926923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 41/85] fix: text joined with the text of a block next to it

---
 creole/parser/html_parser_config.py |  6 ++++++
 creole/shared/base_emitter.py       | 29 +++++++++++++++++++++++++++--
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/creole/parser/html_parser_config.py b/creole/parser/html_parser_config.py
index d08eeaa..8317c1f 100644
--- a/creole/parser/html_parser_config.py
+++ b/creole/parser/html_parser_config.py
@@ -18,6 +18,12 @@ BLOCK_TAGS = (
     "p", "pre",
     "br"
 )
+# Node kinds whose content is not in the same line as the text before and after them:
+BLOCK_NODES = (
+    "address", "blockquote", "caption", "center", "dd", "div", "dl", "dt", "fieldset", "form",
+    "headline", "hr", "li", "ol", "p", "pre", "table", "td", "th", "tr", "ul",
+    "blockdata_pre", "blockdata_pass",
+)
 IGNORE_TAGS = ("tbody",)
 
 # Elements without content and without a end tag:
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 61d4c84..64dab45 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -9,7 +9,7 @@
 
 
 from creole.html_tools.deentity import Deentity
-from creole.parser.html_parser_config import BLOCK_TAGS, INTERNAL_KINDS
+from creole.parser.html_parser_config import BLOCK_NODES, BLOCK_TAGS, INTERNAL_KINDS
 from creole.shared.markup_table import MarkupTable
 from creole.shared.unknown_tags import transparent_unknown_nodes
 
@@ -208,12 +208,37 @@ class BaseEmitter:
         """Emit all the children of a node."""
         self.last = node
         result = []
+        boundary = False  # Is there the end of a block before the next child?
         for child in node.children:
             content = self.emit_node(child)
             assert isinstance(content, str)
-            result.append(content)
+            if content:
+                if result and (boundary or self._is_block(child, 0)):
+                    # Don't join text with the text of a block, e.g.: <div>one<p>two</p></div>
+                    if not (result[-1].endswith("\n") or content.startswith("\n")):
+                        result.append(self._block_separator(node))
+                boundary = False
+                result.append(content)
+            boundary = boundary or self._is_block(child, -1)
         return result
 
+    def _is_block(self, node, edge):
+        """
+        Is the node a block element, or starts (edge=0) / ends (edge=-1) with one?
+        """
+        while node.kind not in BLOCK_NODES:
+            if not node.children:
+                return False
+            node = node.children[edge]
+        return True
+
+    def _block_separator(self, node):
+        while node is not self.root:
+            if node.kind in ("li", "td", "th"):
+                return "\n"
+            node = node.parent
+        return "\n\n"
+
     def emit_node(self, node):
         """Emit a single node."""
         def unicode_error(method_name, method, node, content):
-- 
2.43.0


From 747b6c8c482ab70274fa3d0714fed574509b1058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 42/85] fix: white space around stray end tags, </br>

---
 creole/parser/html_parser.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 1d75677..5fe9b65 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -11,7 +11,7 @@ import warnings
 from html.parser import HTMLParser
 
 from creole.html_tools.strip_html import strip_html
-from creole.parser.html_parser_config import IGNORE_TAGS, IMPLIED_END_TAGS, VOID_TAGS
+from creole.parser.html_parser_config import BLOCK_NODES, BLOCK_TAGS, IGNORE_TAGS, IMPLIED_END_TAGS, VOID_TAGS
 from creole.shared.document_tree import DebugList, DocNode
 
 
@@ -294,7 +294,14 @@ class HtmlParser(HTMLParser):
 
         node = self._find_open(tag)
         if node is None:
-            # A end tag without a start tag, e.g.: </br>
+            # A end tag without a start tag
+            last = self.cur.children[-1].kind if self.cur.children else None
+            if tag == "br":
+                if last != "br":  # not: <br></br>
+                    DocNode("br", self.cur)
+            elif tag in BLOCK_TAGS and last is not None and last not in BLOCK_NODES:
+                # strip_html() has removed the white space around it
+                self.handle_data(" ")
             return
 
         self._close(node)
-- 
2.43.0


From c2725583c2f9f2a8a834334fa69e3ada53c9da86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 43/85] fix: <ins> is not a block element

---
 creole/parser/html_parser_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/parser/html_parser_config.py b/creole/parser/html_parser_config.py
index 8317c1f..34e889c 100644
--- a/creole/parser/html_parser_config.py
+++ b/creole/parser/html_parser_config.py
@@ -13,7 +13,7 @@ BLOCK_TAGS = (
     "address", "blockquote", "center", "dir", "div", "dl", "fieldset",
     "form",
     "h1", "h2", "h3", "h4", "h5", "h6",
-    "hr", "ins", "isindex", "men", "noframes", "noscript",
+    "hr", "isindex", "menu", "noframes", "noscript",
     "ul", "ol", "li", "table", "th", "tr", "td",
     "p", "pre",
     "br"
-- 
2.43.0


From 3df6f4799a80765104557ba81e7bfdfa17c01890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 44/85] fix: html2markdown lost the title of an image without
 alt

---
 creole/emitter/html2markdown_emitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 22204a3..b165bb9 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -185,7 +185,7 @@ class MarkdownEmitter(BaseEmitter):
             # e.g.: <img alt="foo" />
             return alt or title or ''
 
-        if title and alt:
+        if title:
             return f'![{alt}]({src} "{title}")'
 
         return f'![{alt}]({src})'
-- 
2.43.0


From 6161e7e496c09e865761f8a7acce7501dd2b83c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 45/85] fix: html2markdown lost the space between inline
 elements

---
 creole/emitter/html2markdown_emitter.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index b165bb9..7348c89 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -12,6 +12,7 @@ import re
 from urllib.parse import ParseResult, quote, urlparse, urlunparse
 
 from creole.parser.html_parser import HtmlParser
+from creole.parser.html_parser_config import BLOCK_NODES
 from creole.shared.base_emitter import BaseEmitter
 from creole.shared.document_tree import DocNode
 from creole.shared.markup_table import MarkupTable
@@ -220,12 +221,23 @@ class MarkdownEmitter(BaseEmitter):
 
     # --------------------------------------------------------------------------
     def data_emit(self, node: DocNode):
-        content = node.content
-        if content == ' ':
-            # FIXME: Because of bug in creole.html_tools.strip_html.strip_html()
+        if node.content == ' ' and self._at_block_edge(node):
+            # creole.html_tools.strip_html.strip_html() has not removed it
             return ''
         return node.content
 
+    def _at_block_edge(self, node: DocNode):
+        siblings = node.parent.children
+        no = [id(child) for child in siblings].index(id(node))
+        if no in (0, len(siblings) - 1) and (node.parent is self.root or node.parent.kind in BLOCK_NODES):
+            return True
+        return any(
+            self._is_block(child, edge) or child.kind in ('br', 'inlinedata_pre')
+            for edge, child in ((-1, siblings[max(no - 1, 0)]), (0, siblings[min(no + 1, len(siblings) - 1)]))
+        )
+
+    # --------------------------------------------------------------------------
+
     def code_emit(self, node: DocNode):
         code_block = self._emit_content(node)
         assert '\n' not in code_block
-- 
2.43.0


From cc628edb33f3256442d16061e0d7a527cf628326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 46/85] fix: html2rest definitions in the middle of a line,
 link text with line breaks

---
 creole/emitter/html2rest_emitter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 3865863..38d24e6 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -90,7 +90,7 @@ class ReStructuredTextEmitter(BaseEmitter):
 
     def emit_node(self, node):
         result = ""
-        if self._substitution_data and node.parent == self.root:
+        if self._substitution_data and node.parent == self.root and self._is_block(node, 0):
             result += f"{self._get_block_data()}\n\n"
 
         result += super().emit_node(node)
@@ -208,6 +208,9 @@ class ReStructuredTextEmitter(BaseEmitter):
             # e.g.: <a name="anchor-one">foo</a>
             return link_text
 
+        # A reference name has to be in one line
+        link_text = " ".join(link_text.split())
+
         old_url = self._get_old_substitution(self._used_substitution_links, link_text, url)
 
         if self._should_do_substitution(node):
-- 
2.43.0


From ebf7f609a271e034c266d04a6ec10c987599e9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:46 +0000
Subject: [PATCH 47/85] fix: links, images and macros with a pipe in table
 header cells

---
 creole/parser/creol2html_parser.py | 4 ++--
 creole/parser/creol2html_rules.py  | 6 ++----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/creole/parser/creol2html_parser.py b/creole/parser/creol2html_parser.py
index 4b5301b..1de30ee 100644
--- a/creole/parser/creol2html_parser.py
+++ b/creole/parser/creol2html_parser.py
@@ -335,12 +335,12 @@ class CreoleParser:
 
         for m in self.cell_re.finditer(row):
             cell = m.group('cell')
-            if cell:
+            if not m.group('head'):
                 text = cell.strip()
                 self.cur = DocNode('table_cell', tr)
                 self.text = None
             else:
-                text = m.group('head').strip('= \t')
+                text = cell.strip('= \t')
                 self.cur = DocNode('table_head', tr)
                 self.text = DocNode('text', self.cur, "")
             self.parse_inline(text)
diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index d13a649..6ed728f 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -179,10 +179,8 @@ class SpecialRules:
     # For splitting table cells:
     cell = r'''
             \| \s*
-            (
-                (?P<head> [=] ( ~\S | [^|] )+ ) |
-                (?P<cell> (  %s | ~\S | [^|])+ )
-            ) \s*
+            (?P<head> [=] )?
+            (?P<cell> (  %s | ~\S | [^|])+ ) \s*
         ''' % '|'.join([
         InlineRules.link,
         InlineRules.macro_inline, InlineRules.macro_tag,
-- 
2.43.0


From c754b74c9c3ed29238223a4bd43204f189a9cbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:16 +0000
Subject: [PATCH 48/85] fix: html2creole, html2textile: two tables in a row
 became one

---
 creole/shared/base_emitter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 64dab45..024e41a 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -139,13 +139,15 @@ class BaseEmitter:
         return rest
 
     def table_emit(self, node):
+        # Two tables in a row would be one
+        separator = "\n" if self.last is not None and self.last.kind == "table" else ""
         table = MarkupTable(
             head_prefix=self.table_head_prefix,
             auto_width=self.table_auto_width,
             debug_msg=self.debug_msg
         )
         rest = self._fill_table(table, node)
-        return f"{rest}{table.get_table_markup()}\n"
+        return f"{separator}{rest}{table.get_table_markup()}\n"
 
     def tr_emit(self, node):
         if self._table is not None:
-- 
2.43.0


From 13f8e4aafb59db0f3a5b8d7cf8e9bad64e503b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:23 +0000
Subject: [PATCH 49/85] fix: html2rest headlines with less than four characters

---
 creole/emitter/html2rest_emitter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 38d24e6..821e1db 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -116,7 +116,8 @@ class ReStructuredTextEmitter(BaseEmitter):
             level = 6
 
         char, both = self.HEADLINE_DATA[level]
-        markup = char * max(map(len, text.split("\n")))
+        # docutils doesn't handle a overline with less than four characters as a title
+        markup = char * max(4, *map(len, text.split("\n")))
 
         if both:
             format = "%(m)s\n%(t)s\n%(m)s\n\n"
-- 
2.43.0


From d02009c6b4b53dda044e7245a605c6bd8f3b452d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:39 +0000
Subject: [PATCH 50/85] fix: html2textile joined a table with the block after
 it

---
 creole/emitter/html2textile_emitter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index 0928241..fbae266 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -131,3 +131,9 @@ class TextileEmitter(BaseEmitter):
 
     def ol_emit(self, node):
         return self._list_emit(node, list_type="#")
+
+    # --------------------------------------------------------------------------
+
+    def table_emit(self, node):
+        # A table ends only with a blank line
+        return super().table_emit(node) + "\n"
-- 
2.43.0


From 6c01038f08ad350ab66931c1701169066df9d375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:34 +0000
Subject: [PATCH 51/85] fix: html2textile table cells with emphasis or image at
 the edge

---
 creole/emitter/html2textile_emitter.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index fbae266..efb9362 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -137,3 +137,13 @@ class TextileEmitter(BaseEmitter):
     def table_emit(self, node):
         # A table ends only with a blank line
         return super().table_emit(node) + "\n"
+
+    def _escape_linebreaks(self, text):
+        text = super()._escape_linebreaks(text)
+        if self._table is not None:
+            # "|_foo_|" would be a header cell and "|!/image.png!|" no image
+            if text.startswith("_"):
+                text = f" {text}"
+            if text.endswith(("!", "_")):
+                text = f"{text} "
+        return text
-- 
2.43.0


From 92013fd86913688c2be4a7559a843fb3fa00a744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:33 +0000
Subject: [PATCH 52/85] fix: tables with one header row, headers below the
 first row, empty header cells and wide characters

---
 creole/shared/markup_table.py | 42 ++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/creole/shared/markup_table.py b/creole/shared/markup_table.py
index 82f121a..b18743b 100644
--- a/creole/shared/markup_table.py
+++ b/creole/shared/markup_table.py
@@ -1,3 +1,4 @@
+import unicodedata
 from itertools import zip_longest
 
 
@@ -5,6 +6,22 @@ from itertools import zip_longest
 MIN_WIDTH = 3
 
 
+def text_width(text):
+    """
+    Number of columns of the text in a ReSt table grid: East Asian wide characters need two.
+
+    >>> text_width("foo"), text_width("\\u6f22")
+    (3, 2)
+    """
+    return sum(
+        2 if unicodedata.east_asian_width(char) in "WF" else 1 for char in text
+    )
+
+
+def ljust(text, width):
+    return text + " " * (width - text_width(text))
+
+
 class MarkupTable:
     """
     Container for holding table data and render the data in creole markup.
@@ -33,8 +50,9 @@ class MarkupTable:
         self.row_index = len(self.rows) - 1
 
     def add_th(self, text):
-        self.has_header = True
         self.add_td(self.head_prefix + text)
+        if self.row_index == 0:
+            self.has_header = True
 
     def add_td(self, text):
         if self.row_index is None:
@@ -48,18 +66,16 @@ class MarkupTable:
         for row in self.rows:
             line_cells = []
             for cell in row:
-                cell = cell.strip()
-                if cell != "":
-                    if self.head_prefix and cell.startswith(self.head_prefix):
-                        cell += " "  # Headline
-                    else:
-                        cell = f" {cell} "  # normal cell
+                if self.head_prefix and cell.startswith(self.head_prefix):
+                    cell = f"{cell.strip()} "  # Headline
+                elif cell.strip() != "":
+                    cell = f" {cell.strip()} "  # normal cell
                 line_cells.append(cell)
             cells.append(line_cells)
 
         # Build a list of max len for every column, also if not all rows have the same number of cells
         widths = [
-            max(MIN_WIDTH, *map(len, col)) for col in zip_longest(*cells, fillvalue="")
+            max(MIN_WIDTH, *map(text_width, col)) for col in zip_longest(*cells, fillvalue="")
         ]
 
         return cells, widths
@@ -77,7 +93,7 @@ class MarkupTable:
             # Join every line with ljust
             lines = []
             for row in cells:
-                cells = [cell.ljust(width) for cell, width in zip(row, widths)]
+                cells = [ljust(cell, width) for cell, width in zip(row, widths)]
                 lines.append("|" + "|".join(cells) + "|")
 
         result = "\n".join(lines)
@@ -104,7 +120,7 @@ class MarkupTable:
                 lines.append(separator_line)
 
             # Join every line with ljust
-            cells = [cell.ljust(width) for cell, width in zip_longest(row, widths, fillvalue="")]
+            cells = [ljust(cell, width) for cell, width in zip_longest(row, widths, fillvalue="")]
             lines.append("|" + "|".join(cells) + "|")
 
         lines.append(separator_line)
@@ -117,11 +133,11 @@ class MarkupTable:
 
         lines = []
         for no, row in enumerate(cells):
-            if no == 1 and self.has_header:
+            cells = [ljust(cell, width) for cell, width in zip_longest(row, widths, fillvalue="")]
+            lines.append(f'|{"|".join(cells)}|')
+            if no == 0 and self.has_header:
                 cells = ['-' * (width - 2) for width in widths]
                 lines.append(f'| {" | ".join(cells)} |')
-            cells = [cell.ljust(width) for cell, width in zip_longest(row, widths, fillvalue="")]
-            lines.append(f'|{"|".join(cells)}|')
 
         result = "\n".join(lines)
 
-- 
2.43.0


From 782a3e087c489692d2ceff154cf37e231cf7f689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:33 +0000
Subject: [PATCH 53/85] fix: line breaks in table cells and lists, blocks in
 div and unknown tags were put in one line

---
 creole/emitter/html2markdown_emitter.py |  9 +++++---
 creole/emitter/html2rest_emitter.py     |  7 +++++-
 creole/emitter/html2textile_emitter.py  |  2 ++
 creole/parser/html_parser_config.py     |  5 +++++
 creole/shared/base_emitter.py           | 29 ++++++++++++++++++++++---
 5 files changed, 45 insertions(+), 7 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 7348c89..352f554 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -46,6 +46,8 @@ class MarkdownEmitter(BaseEmitter):
     Markdown markup text.
     """
 
+    line_break = ' '  # There are only soft line breaks
+
     def __init__(self, document_tree, strict=False, *args, **kwargs):
         self.strict = strict
         super().__init__(document_tree, *args, **kwargs)
@@ -65,7 +67,7 @@ class MarkdownEmitter(BaseEmitter):
         if self._table is None:
             # not in a table
             return f'\n{content}\n'
-        self._table.add_th(content)
+        self._table.add_th(self._escape_linebreaks(content))
         return ''
 
     def td_emit(self, node):
@@ -73,8 +75,9 @@ class MarkdownEmitter(BaseEmitter):
         if self._table is None:
             # not in a table
             return f'\n{content}\n'
-        self._table.add_td(content)
+        self._table.add_td(self._escape_linebreaks(content))
         return ''
+
     # --------------------------------------------------------------------------
 
     def blockdata_pre_emit(self, node: DocNode):
@@ -239,7 +242,7 @@ class MarkdownEmitter(BaseEmitter):
     # --------------------------------------------------------------------------
 
     def code_emit(self, node: DocNode):
-        code_block = self._emit_content(node)
+        code_block = self._escape_linebreaks(self.emit_children(node))
         assert '\n' not in code_block
 
         if '`' in code_block:
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 821e1db..4407413 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -31,6 +31,8 @@ class ReStructuredTextEmitter(BaseEmitter):
     creole markup text.
     """
 
+    line_break = " "  # There is no line break in ReSt
+
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
 
@@ -262,8 +264,11 @@ class ReStructuredTextEmitter(BaseEmitter):
 
     # --------------------------------------------------------------------------
 
+    def br_emit(self, node):
+        return self.line_break if self._list_markup else "\n"
+
     def code_emit(self, node):
-        return f"``{self._emit_content(node)}``"
+        return f"``{self._escape_linebreaks(self.emit_children(node))}``"
 
     # --------------------------------------------------------------------------
 
diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index efb9362..14bdac7 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -19,6 +19,8 @@ class TextileEmitter(BaseEmitter):
     creole markup text.
     """
 
+    line_break = "\n"
+
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
 
diff --git a/creole/parser/html_parser_config.py b/creole/parser/html_parser_config.py
index 34e889c..e26c5a0 100644
--- a/creole/parser/html_parser_config.py
+++ b/creole/parser/html_parser_config.py
@@ -24,6 +24,11 @@ BLOCK_NODES = (
     "headline", "hr", "li", "ol", "p", "pre", "table", "td", "th", "tr", "ul",
     "blockdata_pre", "blockdata_pass",
 )
+# Node kinds whose content has only one line:
+ONE_LINE_NODES = (
+    "a", "b", "big", "cite", "code", "del", "em", "headline", "i", "ins", "li", "small", "span",
+    "strike", "strong", "sub", "sup", "td", "th", "tt", "u",
+)
 IGNORE_TAGS = ("tbody",)
 
 # Elements without content and without a end tag:
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 024e41a..349fe94 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -9,7 +9,7 @@
 
 
 from creole.html_tools.deentity import Deentity
-from creole.parser.html_parser_config import BLOCK_NODES, BLOCK_TAGS, INTERNAL_KINDS
+from creole.parser.html_parser_config import BLOCK_NODES, BLOCK_TAGS, INTERNAL_KINDS, ONE_LINE_NODES
 from creole.shared.markup_table import MarkupTable
 from creole.shared.unknown_tags import transparent_unknown_nodes
 
@@ -20,6 +20,8 @@ class BaseEmitter:
     creole markup text.
     """
 
+    line_break = "\\\\"  # The line break inside of list items, table cells, etc.
+
     def __init__(self, document_tree, unknown_emit=None, debug=False):
         self.root = document_tree
 
@@ -85,7 +87,7 @@ class BaseEmitter:
 
     def br_emit(self, node):
         if self._inner_list != "":
-            return "\\\\"
+            return self.line_break
         else:
             return "\n"
 
@@ -159,7 +161,7 @@ class BaseEmitter:
         text = text.split("\n")
         lines = [line.strip() for line in text]
         lines = [line for line in lines if line]
-        content = "\\\\".join(lines)
+        content = self.line_break.join(lines)
         content = content.strip("\\")
         return content
 
@@ -183,8 +185,29 @@ class BaseEmitter:
 
     # --------------------------------------------------------------------------
 
+    def _keep_blocks(self, node):
+        """
+        Has the node block elements in it and is not in a place where only one line is possible?
+        """
+        parent = node.parent
+        while parent is not None:
+            if parent.kind in ONE_LINE_NODES:
+                return False
+            parent = parent.parent
+
+        nodes = list(node.children)
+        while nodes:
+            child = nodes.pop()
+            if child.kind in BLOCK_NODES:
+                return True
+            nodes.extend(child.children)
+        return False
+
     def _emit_content(self, node):
         content = self.emit_children(node)
+        if self._keep_blocks(node):
+            content = content.strip("\n")
+            return f"{content}\n\n"
         content = self._escape_linebreaks(content)
         if node.kind in BLOCK_TAGS:
             content = f"{content}\n\n"
-- 
2.43.0


From 6998faa2e79c9f519cf57a955db28ea85706f9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:37 +0000
Subject: [PATCH 54/85] fix: text of HTML 5 sections was joined with the text
 before and after

---
 creole/parser/html_parser_config.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/creole/parser/html_parser_config.py b/creole/parser/html_parser_config.py
index e26c5a0..cbd9998 100644
--- a/creole/parser/html_parser_config.py
+++ b/creole/parser/html_parser_config.py
@@ -20,8 +20,9 @@ BLOCK_TAGS = (
 )
 # Node kinds whose content is not in the same line as the text before and after them:
 BLOCK_NODES = (
-    "address", "blockquote", "caption", "center", "dd", "div", "dl", "dt", "fieldset", "form",
-    "headline", "hr", "li", "ol", "p", "pre", "table", "td", "th", "tr", "ul",
+    "address", "article", "aside", "blockquote", "body", "caption", "center", "dd", "details", "div", "dl", "dt",
+    "fieldset", "figcaption", "figure", "footer", "form", "head", "header", "headline", "hr", "html", "li", "main", "nav", "ol", "p", "pre",
+    "section", "summary", "table", "td", "th", "title", "tr", "ul",
     "blockdata_pre", "blockdata_pass",
 )
 # Node kinds whose content has only one line:
-- 
2.43.0


From 549abd8f7a353b0f0105175d1b6c8daaee11691b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:32 +0000
Subject: [PATCH 55/85] fix: tables and blocks in containers were joined with
 the block before

---
 creole/shared/base_emitter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 349fe94..5079540 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -141,15 +141,13 @@ class BaseEmitter:
         return rest
 
     def table_emit(self, node):
-        # Two tables in a row would be one
-        separator = "\n" if self.last is not None and self.last.kind == "table" else ""
         table = MarkupTable(
             head_prefix=self.table_head_prefix,
             auto_width=self.table_auto_width,
             debug_msg=self.debug_msg
         )
         rest = self._fill_table(table, node)
-        return f"{separator}{rest}{table.get_table_markup()}\n"
+        return f"{rest}{table.get_table_markup()}\n"
 
     def tr_emit(self, node):
         if self._table is not None:
@@ -206,7 +204,7 @@ class BaseEmitter:
     def _emit_content(self, node):
         content = self.emit_children(node)
         if self._keep_blocks(node):
-            content = content.strip("\n")
+            content = content.rstrip("\n")
             return f"{content}\n\n"
         content = self._escape_linebreaks(content)
         if node.kind in BLOCK_TAGS:
@@ -242,6 +240,9 @@ class BaseEmitter:
                     # Don't join text with the text of a block, e.g.: <div>one<p>two</p></div>
                     if not (result[-1].endswith("\n") or content.startswith("\n")):
                         result.append(self._block_separator(node))
+                    elif result[-1].endswith("|\n") and content.startswith("|"):
+                        # Two tables in a row would be one
+                        result.append("\n")
                 boundary = False
                 result.append(content)
             boundary = boundary or self._is_block(child, -1)
-- 
2.43.0


From 5c5dd21c7507570faa5079948f2ae8514482e669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:10 +0000
Subject: [PATCH 56/85] fix: <pre> with attributes or in upper case was not
 preformatted

---
 creole/parser/html_parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 5fe9b65..cb8b53b 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -18,21 +18,21 @@ from creole.shared.document_tree import DebugList, DocNode
 # ------------------------------------------------------------------------------
 
 block_re = re.compile(r'''
-    ^<pre> \s* $
+    ^<pre (?:\s[^>]*)?> \s* $
     (?P<pre_block>
         (\n|.)*?
     )
     ^</pre> \s* $
     [\s\n]*
-''', re.VERBOSE | re.UNICODE | re.MULTILINE)
+''', re.VERBOSE | re.UNICODE | re.MULTILINE | re.IGNORECASE)
 
 inline_re = re.compile(r'''
-    <pre>
+    <pre (?:\s[^>]*)?>
     (?P<pre_inline>
         (\n|.)*?
     )
     </pre>
-''', re.VERBOSE | re.UNICODE)
+''', re.VERBOSE | re.UNICODE | re.IGNORECASE)
 
 
 headline_tag_re = re.compile(r"h([1-6])$", re.UNICODE)
-- 
2.43.0


From a7c70bcb8a05d28775240702495e126f661ae2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:10 +0000
Subject: [PATCH 57/85] fix: &apos; and other HTML 5 entities were not decoded,
 unknown ones lost the semicolon

---
 creole/html_tools/deentity.py |  5 ++++-
 creole/parser/html_parser.py  | 16 ++++++++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/creole/html_tools/deentity.py b/creole/html_tools/deentity.py
index 6a3f8a9..0752766 100644
--- a/creole/html_tools/deentity.py
+++ b/creole/html_tools/deentity.py
@@ -65,7 +65,10 @@ class Deentity:
             # Non breaking spaces is not in htmlentitydefs
             return " "
         else:
-            codepoint = entities.name2codepoint[text]
+            codepoint = entities.name2codepoint.get(text)
+            if codepoint is None:
+                # not in HTML 4, e.g.: &apos;
+                return entities.html5[f"{text};"]
             return chr(codepoint)
 
     def replace_all(self, content):
diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index cb8b53b..5158663 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -8,6 +8,7 @@
 
 import re
 import warnings
+from html.entities import html5
 from html.parser import HTMLParser
 
 from creole.html_tools.strip_html import strip_html
@@ -35,6 +36,12 @@ inline_re = re.compile(r'''
 ''', re.VERBOSE | re.UNICODE | re.IGNORECASE)
 
 
+# The content of <script> and <style> is not parsed
+entity_re = re.compile(
+    r"<(?P<cdata>script|style)\b.*?</(?P=cdata) | &(?P<name>[a-zA-Z][a-zA-Z0-9]*;)",
+    re.VERBOSE | re.DOTALL | re.IGNORECASE
+)
+
 headline_tag_re = re.compile(r"h([1-6])$", re.UNICODE)
 
 # ------------------------------------------------------------------------------
@@ -126,6 +133,12 @@ class HtmlParser(HTMLParser):
 
 #        data = match.group("data")
 
+    def _mask_unknown_entity(self, match):
+        name = match["name"]
+        if name is None or name in html5:
+            return match.group(0)
+        return f"&amp;{name}"
+
     def feed(self, raw_data, preprocess=True) -> DocNode:
         assert isinstance(raw_data, str), "feed data must be unicode!"
         data = raw_data.strip()
@@ -143,6 +156,9 @@ class HtmlParser(HTMLParser):
             # Delete whitespace from html code
             data = strip_html(data)
 
+            # HTMLParser would drop the semicolon of a unknown entity
+            data = entity_re.sub(self._mask_unknown_entity, data)
+
             if self.debugging:
                 print("_" * 79)
                 print("raw data:")
-- 
2.43.0


From 86d6719a80d5b37acf03f7381cb39de31f4cbb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:06 +0000
Subject: [PATCH 58/85] fix: references after an unclosed <script> were kept
 apart from the text

---
 creole/parser/html_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 5158663..7d25c8f 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -38,7 +38,7 @@ inline_re = re.compile(r'''
 
 # The content of <script> and <style> is not parsed
 entity_re = re.compile(
-    r"<(?P<cdata>script|style)\b.*?</(?P=cdata) | &(?P<name>[a-zA-Z][a-zA-Z0-9]*;)",
+    r"<(?P<cdata>script|style)\b.*?(?:</(?P=cdata)|\Z) | &(?P<name>[a-zA-Z][a-zA-Z0-9]*;)",
     re.VERBOSE | re.DOTALL | re.IGNORECASE
 )
 
-- 
2.43.0


From df20b785bd91d8b42376d18edde2b5476fa1e023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:54 +0000
Subject: [PATCH 59/85] fix: white space around tags, tag case, CRLF and void
 tags without slash in HTML

---
 README.md                       |  2 +-
 README.rst                      | 42 ++++++++++++++++----------------
 creole/html_tools/strip_html.py | 43 +++++++++++++++++++++++----------
 creole/parser/html_parser.py    |  6 +++--
 4 files changed, 56 insertions(+), 37 deletions(-)

diff --git a/README.md b/README.md
index 5f1fd95..e2f62c9 100644
--- a/README.md
+++ b/README.md
@@ -318,7 +318,7 @@ Note: In this case you must install **docutils**! See above.
   * Bugfix: Don't allow `ftp:/broken` (Only one slash) to be a link.
 * v1.0.4 - 2012-06-11
   * html2rest: Handle double link/image substitution and raise better error messages
-  * Bugfix in unittests (include test README file in python package).  Thanks to Wen Heping for reporting this.
+  * Bugfix in unittests (include test README file in python package). Thanks to Wen Heping for reporting this.
 * v1.0.3 - 2012-06-11
   * Bugfix: `AttributeError: 'module' object has no attribute 'interesting_cdata'` from HTMLParser patch. Thanks to Wen Heping for reporting this.
   * Fix a bug in get_long_description() ReSt test for Py3k and his unittests.
diff --git a/README.rst b/README.rst
index 06c1dbf..0b6b103 100644
--- a/README.rst
+++ b/README.rst
@@ -293,11 +293,11 @@ Note: In this case you must install **docutils**! See above.
 history
 =======
 
-* `*dev* <https://github.com/jedie/python-creole/compare/v1.5.0.rc3...master>`_ 
+* `*dev* <https://github.com/jedie/python-creole/compare/v1.5.0.rc3...master>`_
 
     * TBC
 
-* `v1.5.0.rc3 - 2022-08-20 <https://github.com/jedie/python-creole/compare/v1.4.10...v1.5.0.rc3>`_ 
+* `v1.5.0.rc3 - 2022-08-20 <https://github.com/jedie/python-creole/compare/v1.4.10...v1.5.0.rc3>`_
 
     * NEW: html2markdown
 
@@ -311,7 +311,7 @@ history
 
     * Rename git ``master`` branch to ``main``.
 
-* `v1.4.10 - 2021-05-11 <https://github.com/jedie/python-creole/compare/v1.4.9...v1.4.10>`_ 
+* `v1.4.10 - 2021-05-11 <https://github.com/jedie/python-creole/compare/v1.4.9...v1.4.10>`_
 
     * Update some string formatting to f-strings
 
@@ -321,17 +321,17 @@ history
 
     * Remove Travis CI (All tests already running via github actions)
 
-* `v1.4.9 - 2020-11-4 <https://github.com/jedie/python-creole/compare/v1.4.8...v1.4.9>`_ 
+* `v1.4.9 - 2020-11-4 <https://github.com/jedie/python-creole/compare/v1.4.8...v1.4.9>`_
 
     * Add missing classifier for Python 3.9 (`Contributed by jugmac00 <https://github.com/jedie/python-creole/pull/55>`_)
 
     * Update readme test
 
-* v1.4.8 - 2020-10-17 - `compare v1.4.7...v1.4.8 <https://github.com/jedie/python-creole/compare/v1.4.7...v1.4.8>`_ 
+* v1.4.8 - 2020-10-17 - `compare v1.4.7...v1.4.8 <https://github.com/jedie/python-creole/compare/v1.4.7...v1.4.8>`_
 
     * Validate generated ``README.rst`` with `readme-renderer <https://pypi.org/project/readme-renderer/>`_
 
-* v1.4.7 - 2020-10-17 - `compare v1.4.6...v1.4.7 <https://github.com/jedie/python-creole/compare/v1.4.6...v1.4.7>`_ 
+* v1.4.7 - 2020-10-17 - `compare v1.4.6...v1.4.7 <https://github.com/jedie/python-creole/compare/v1.4.6...v1.4.7>`_
 
     * ``update_rst_readme()`` will touch ``README.rst`` if there are not change (timestamp will not changed in file)
 
@@ -339,17 +339,17 @@ history
 
     * Some meta updates to project setup
 
-* v1.4.6 - 2020-02-13 - `compare v1.4.5...v1.4.6 <https://github.com/jedie/python-creole/compare/v1.4.5...v1.4.6>`_ 
+* v1.4.6 - 2020-02-13 - `compare v1.4.5...v1.4.6 <https://github.com/jedie/python-creole/compare/v1.4.5...v1.4.6>`_
 
     * less restricted dependency specification
 
-* v1.4.5 - 2020-02-13 - `compare v1.4.4...v1.4.5 <https://github.com/jedie/python-creole/compare/v1.4.4...v1.4.5>`_ 
+* v1.4.5 - 2020-02-13 - `compare v1.4.4...v1.4.5 <https://github.com/jedie/python-creole/compare/v1.4.4...v1.4.5>`_
 
     * new: ``creole.setup_utils.assert_rst_readme`` for project setup tests
 
     * use `https://github.com/ymyzk/tox-gh-actions <https://github.com/ymyzk/tox-gh-actions>`_ on gitlab CI
 
-* v1.4.4 - 2020-02-07 - `compare v1.4.3...v1.4.4 <https://github.com/jedie/python-creole/compare/v1.4.3...v1.4.4>`_ 
+* v1.4.4 - 2020-02-07 - `compare v1.4.3...v1.4.4 <https://github.com/jedie/python-creole/compare/v1.4.3...v1.4.4>`_
 
     * Fix #44: Move ``poetry-publish`` to ``dev-dependencies`` and lower ``docutils`` requirement to ``^0.15``
 
@@ -357,11 +357,11 @@ history
 
     * Always update README.rst before publish
 
-* v1.4.3 - 2020-02-01 - `compare v1.4.2...v1.4.3 <https://github.com/jedie/python-creole/compare/v1.4.2...v1.4.3>`_ 
+* v1.4.3 - 2020-02-01 - `compare v1.4.2...v1.4.3 <https://github.com/jedie/python-creole/compare/v1.4.2...v1.4.3>`_
 
     * Use new `poetry-publish <https://pypi.org/project/poetry-publish/>`_ for ``make publish``
 
-* v1.4.2 - 2020-02-01 - `compare v1.4.1...v1.4.2 <https://github.com/jedie/python-creole/compare/v1.4.1...v1.4.2>`_ 
+* v1.4.2 - 2020-02-01 - `compare v1.4.1...v1.4.2 <https://github.com/jedie/python-creole/compare/v1.4.1...v1.4.2>`_
 
     * Update CI configs on github and travis
 
@@ -369,7 +369,7 @@ history
 
     * Add generated ``README.rst`` in repository to fix install problems about missing readme
 
-* v1.4.1 - 2020-01-19 - `compare v1.4.0...v1.4.1 <https://github.com/jedie/python-creole/compare/v1.4.0...v1.4.1>`_ 
+* v1.4.1 - 2020-01-19 - `compare v1.4.0...v1.4.1 <https://github.com/jedie/python-creole/compare/v1.4.0...v1.4.1>`_
 
     * Remove Python v2 support code
 
@@ -385,7 +385,7 @@ history
 
     * Activate linting in CI pipeline
 
-* v1.4.0 - 2020-01-19 - `compare v1.3.2...v1.4.0 <https://github.com/jedie/python-creole/compare/v1.3.2...v1.4.0>`_ 
+* v1.4.0 - 2020-01-19 - `compare v1.3.2...v1.4.0 <https://github.com/jedie/python-creole/compare/v1.3.2...v1.4.0>`_
 
     * modernize project:
 
@@ -399,17 +399,17 @@ history
 
         * Test with Python v3.6, v3.7 and v3.8
 
-* v1.3.2 - 2018-02-27 - `compare v1.3.1...v1.3.2 <https://github.com/jedie/python-creole/compare/v1.3.1...v1.3.2>`_ 
+* v1.3.2 - 2018-02-27 - `compare v1.3.1...v1.3.2 <https://github.com/jedie/python-creole/compare/v1.3.1...v1.3.2>`_
 
     * Adding optional img size to creole2html and html2creole contributed by `John Dupuy <https://github.com/JohnAD>`_
 
     * run tests also with python 3.5 and 3.6
 
-* v1.3.1 - 2015-08-15 - `compare v1.3.0...v1.3.1 <https://github.com/jedie/python-creole/compare/v1.3.0...v1.3.1>`_ 
+* v1.3.1 - 2015-08-15 - `compare v1.3.0...v1.3.1 <https://github.com/jedie/python-creole/compare/v1.3.0...v1.3.1>`_
 
     * Bugfix for "Failed building wheel for python-creole"
 
-* v1.3.0 - 2015-06-02 - `compare v1.2.2...v1.3.0 <https://github.com/jedie/python-creole/compare/v1.2.2...v1.3.0>`_ 
+* v1.3.0 - 2015-06-02 - `compare v1.2.2...v1.3.0 <https://github.com/jedie/python-creole/compare/v1.2.2...v1.3.0>`_
 
     * Refactory internal file structure
 
@@ -423,19 +423,19 @@ history
 
     * use **json.dumps()** instead of **repr()** in some cases
 
-* v1.2.2 - 2015-04-05 - `compare v1.2.1...v1.2.2 <https://github.com/jedie/python-creole/compare/v1.2.1...v1.2.2>`_ 
+* v1.2.2 - 2015-04-05 - `compare v1.2.1...v1.2.2 <https://github.com/jedie/python-creole/compare/v1.2.1...v1.2.2>`_
 
     * Bugfix textile unittests if url scheme is unknown
 
     * migrate google-code Wiki to github and remove google-code links
 
-* v1.2.1 - 2014-09-14 - `compare v1.2.0...v1.2.1 <https://github.com/jedie/python-creole/compare/v1.2.0...v1.2.1>`_ 
+* v1.2.1 - 2014-09-14 - `compare v1.2.0...v1.2.1 <https://github.com/jedie/python-creole/compare/v1.2.0...v1.2.1>`_
 
     * Use origin PyPi code to check generated reStructuredText in setup.py
 
     * Update unitest for textile v2.1.8
 
-* v1.2.0 - 2014-05-15 - `compare v1.1.1...v1.2.0 <https://github.com/jedie/python-creole/compare/v1.1.1...v1.2.0>`_ 
+* v1.2.0 - 2014-05-15 - `compare v1.1.1...v1.2.0 <https://github.com/jedie/python-creole/compare/v1.1.1...v1.2.0>`_
 
     * NEW: Add ``<<code>>`` example macro (Source code highlighting with pygments) - implemented by Julien Enselme
 
@@ -475,7 +475,7 @@ history
 
     * html2rest: Handle double link/image substitution and raise better error messages
 
-    * Bugfix in unittests (include test README file in python package).  Thanks to Wen Heping for reporting this.
+    * Bugfix in unittests (include test README file in python package). Thanks to Wen Heping for reporting this.
 
 * v1.0.3 - 2012-06-11
 
@@ -565,7 +565,7 @@ history
 
     * Bugfix if docutils are not installed
 
-    * API change: rest2html is now here: ``from creole.rest2html.clean_writer import rest2html`` 
+    * API change: rest2html is now here: ``from creole.rest2html.clean_writer import rest2html``
 
 * v0.7.0
 
diff --git a/creole/html_tools/strip_html.py b/creole/html_tools/strip_html.py
index 39613cc..e522322 100644
--- a/creole/html_tools/strip_html.py
+++ b/creole/html_tools/strip_html.py
@@ -10,21 +10,37 @@
 
 import re
 
-from creole.parser.html_parser_config import BLOCK_TAGS
+from creole.parser.html_parser_config import BLOCK_TAGS, VOID_TAGS
 
 
+# Only these characters are white space in HTML. A no-break space is none.
+whitespace_regex = re.compile(r"[ \t\n\r\f]+")
+
 strip_html_regex = re.compile(
     r"""
-        \s*
+        [ ]*
         <
             (?P<end>/{0,1})       # end tag e.g.: </end>
-            (?P<tag>[^ >]+)       # tag name
-            .*?
+            (?P<tag>[^\s/<>]+)    # tag name
+            (?:"[^"]*"|'[^']*'|[^"'>])*?
             (?P<startend>/{0,1})  # closed tag e.g.: <closed />
         >
-        \s*
+        [ ]*
     """,
-    re.VERBOSE | re.MULTILINE | re.UNICODE
+    re.VERBOSE
+)
+
+block_tag_regex = re.compile(
+    r"""
+        [ ]*
+        (
+            </?(?:%s)\b
+            (?:"[^"]*"|'[^']*'|[^"'>])*
+            >
+        )
+        [ ]*
+    """ % "|".join(BLOCK_TAGS),
+    re.VERBOSE | re.IGNORECASE
 )
 
 
@@ -57,9 +73,9 @@ def strip_html(html_code):
 
     def strip_tag(match):
         block = match.group(0)
-        end_tag = match.group("end") in ("/", "/")
-        startend_tag = match.group("startend") in ("/", "/")
-        tag = match.group("tag")
+        end_tag = match.group("end") == "/"
+        tag = match.group("tag").lower()
+        startend_tag = match.group("startend") == "/" or tag in VOID_TAGS
 
 #        print("_"*40)
 #        print(match.groupdict())
@@ -69,12 +85,12 @@ def strip_html(html_code):
 #        print("tag.........: %r" % tag)
 
         if tag in BLOCK_TAGS:
-            return block.strip()
+            return block.strip(" ")
 
         space_start = block.startswith(" ")
         space_end = block.endswith(" ")
 
-        result = block.strip()
+        result = block.strip(" ")
 
         if end_tag:
             # It's a normal end tag e.g.: </strong>
@@ -95,9 +111,10 @@ def strip_html(html_code):
 
         return result
 
-    data = html_code.strip()
-    clean_data = " ".join(line.strip() for line in data.split("\n"))
+    clean_data = whitespace_regex.sub(" ", html_code).strip(" ")
     clean_data = strip_html_regex.sub(strip_tag, clean_data)
+    # Delete the white space that was moved or kept between a inline and a block tag:
+    clean_data = block_tag_regex.sub(r"\1", clean_data)
     return clean_data
 
 
diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 7d25c8f..2a3bc4e 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -23,7 +23,7 @@ block_re = re.compile(r'''
     (?P<pre_block>
         (\n|.)*?
     )
-    ^</pre> \s* $
+    ^</pre \s*> \s* $
     [\s\n]*
 ''', re.VERBOSE | re.UNICODE | re.MULTILINE | re.IGNORECASE)
 
@@ -32,7 +32,7 @@ inline_re = re.compile(r'''
     (?P<pre_inline>
         (\n|.)*?
     )
-    </pre>
+    </pre \s*>
 ''', re.VERBOSE | re.UNICODE | re.IGNORECASE)
 
 
@@ -143,6 +143,8 @@ class HtmlParser(HTMLParser):
         assert isinstance(raw_data, str), "feed data must be unicode!"
         data = raw_data.strip()
         if preprocess:
+            data = data.replace("\r\n", "\n").replace("\r", "\n")
+
             # The placeholder must not be a tag from the given html code
             while self._block_placeholder in data.lower():
                 self._block_placeholder += "x"
-- 
2.43.0


From f206f49c39246d5675317c0c16974ef38c3931ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:15 +0000
Subject: [PATCH 60/85] fix: white space around HTML 5 section tags, thead and
 tbody in HTML

---
 creole/html_tools/strip_html.py     | 8 ++++----
 creole/parser/html_parser_config.py | 5 +++++
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/creole/html_tools/strip_html.py b/creole/html_tools/strip_html.py
index e522322..919e256 100644
--- a/creole/html_tools/strip_html.py
+++ b/creole/html_tools/strip_html.py
@@ -10,7 +10,7 @@
 
 import re
 
-from creole.parser.html_parser_config import BLOCK_TAGS, VOID_TAGS
+from creole.parser.html_parser_config import BLOCK_TAGS, SECTION_TAGS, VOID_TAGS
 
 
 # Only these characters are white space in HTML. A no-break space is none.
@@ -34,12 +34,12 @@ block_tag_regex = re.compile(
     r"""
         [ ]*
         (
-            </?(?:%s)\b
+            </?(?:%s)(?=[\s/>])
             (?:"[^"]*"|'[^']*'|[^"'>])*
             >
         )
         [ ]*
-    """ % "|".join(BLOCK_TAGS),
+    """ % "|".join(BLOCK_TAGS + SECTION_TAGS),
     re.VERBOSE | re.IGNORECASE
 )
 
@@ -84,7 +84,7 @@ def strip_html(html_code):
 #        print("startend_tag:", startend_tag)
 #        print("tag.........: %r" % tag)
 
-        if tag in BLOCK_TAGS:
+        if tag in BLOCK_TAGS or tag in SECTION_TAGS:
             return block.strip(" ")
 
         space_start = block.startswith(" ")
diff --git a/creole/parser/html_parser_config.py b/creole/parser/html_parser_config.py
index cbd9998..1a6ba73 100644
--- a/creole/parser/html_parser_config.py
+++ b/creole/parser/html_parser_config.py
@@ -18,6 +18,11 @@ BLOCK_TAGS = (
     "p", "pre",
     "br"
 )
+# Other tags around which white space has no meaning:
+SECTION_TAGS = (
+    "article", "aside", "body", "caption", "colgroup", "dd", "details", "dt", "figcaption", "figure", "footer",
+    "head", "header", "html", "main", "nav", "section", "summary", "tbody", "tfoot", "thead",
+)
 # Node kinds whose content is not in the same line as the text before and after them:
 BLOCK_NODES = (
     "address", "article", "aside", "blockquote", "body", "caption", "center", "dd", "details", "div", "dl", "dt",
-- 
2.43.0


From 04df1338c36c5abd2c72a7d2f7fafe17c086d973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:27 +0000
Subject: [PATCH 61/85] fix: strip_html needs no quadratic time for incomplete
 tags

---
 creole/html_tools/strip_html.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/html_tools/strip_html.py b/creole/html_tools/strip_html.py
index 919e256..4e49cb6 100644
--- a/creole/html_tools/strip_html.py
+++ b/creole/html_tools/strip_html.py
@@ -22,7 +22,7 @@ strip_html_regex = re.compile(
         <
             (?P<end>/{0,1})       # end tag e.g.: </end>
             (?P<tag>[^\s/<>]+)    # tag name
-            (?:"[^"]*"|'[^']*'|[^"'>])*?
+            (?:"[^"]*"|'[^']*'|[^"'<>])*?
             (?P<startend>/{0,1})  # closed tag e.g.: <closed />
         >
         [ ]*
@@ -35,7 +35,7 @@ block_tag_regex = re.compile(
         [ ]*
         (
             </?(?:%s)(?=[\s/>])
-            (?:"[^"]*"|'[^']*'|[^"'>])*
+            (?:"[^"]*"|'[^']*'|[^"'<>])*
             >
         )
         [ ]*
-- 
2.43.0


From 3a88a48a9fb079e26f760f4a57de77885c115704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:09 +0000
Subject: [PATCH 62/85] fix: rest2html left single </div> tags, class and ids
 attributes and joined the text of quotes

---
 creole/rest_tools/clean_writer.py | 45 ++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/creole/rest_tools/clean_writer.py b/creole/rest_tools/clean_writer.py
index d71525c..9e91bc7 100644
--- a/creole/rest_tools/clean_writer.py
+++ b/creole/rest_tools/clean_writer.py
@@ -14,6 +14,7 @@
 """
 
 
+import re
 import sys
 
 from creole.exceptions import DocutilsImportError
@@ -21,6 +22,7 @@ from creole.exceptions import DocutilsImportError
 
 try:
     import docutils
+    from docutils import nodes
     from docutils.core import publish_parts
     from docutils.writers import html4css1
 except ImportError:
@@ -42,12 +44,22 @@ DEBUG = False
 #DEBUG = True
 
 IGNORE_ATTR = (
-    "start", "class", "classes", "frame", "rules",
+    "start", "class", "classes", "id", "ids", "frame", "rules",
 )
 IGNORE_TAGS = (
     "div",
 )
 
+# For the tags which docutils writes without calling starttag():
+ignore_tags_regex = re.compile(r"</?(?:%s)\b[^>]*>" % "|".join(IGNORE_TAGS))
+tag_attr_regex = re.compile(r''' (?P<name>[\w-]+)="[^"]*"''')
+
+
+class RawHtml(str):
+    """
+    HTML code from the source, it will not be cleaned.
+    """
+
 
 class CleanHTMLWriter(html4css1.Writer):
     """
@@ -126,11 +138,36 @@ class CleanHTMLTranslator(html4css1.HTMLTranslator):
     visit_block_quote = _do_nothing
     depart_block_quote = _do_nothing
 
+    def should_be_compact_paragraph(self, node):
+        # The container has no own tag, so the text would not be separated from the text before and after it.
+        if isinstance(node.parent, (nodes.block_quote, nodes.container, nodes.legend, nodes.system_message)):
+            return False
+        return super().should_be_compact_paragraph(node)
+
+    def visit_raw(self, node):
+        start = len(self.body)
+        try:
+            super().visit_raw(node)
+        finally:
+            self.body[start:] = [RawHtml(part) for part in self.body[start:]]
+
+    def _clean_part(self, part):
+        """
+        Remove the ignored tags and attributes which are hard coded in docutils.
+        """
+        if isinstance(part, RawHtml) or part.startswith('<!--'):
+            return part
+
+        def clean_attr(match):
+            return "" if match["name"].lower() in ("class", "id", "ids") else match[0]
+
+        part = tag_attr_regex.sub(clean_attr, part)
+        return ignore_tags_regex.sub("", part)
+
     # set only html_body, we used in rest2html() and don't surround it with <div>
     def depart_document(self, node):
-        self.html_body.extend(
-            self.body_prefix[1:] + self.body_pre_docinfo + self.docinfo + self.body + self.body_suffix[:-1]
-        )
+        parts = self.body_prefix[1:] + self.body_pre_docinfo + self.docinfo + self.body + self.body_suffix[:-1]
+        self.html_body.extend(self._clean_part(part) for part in parts)
         assert not self.context, f'len(context) = {len(self.context)}'
 
     # __________________________________________________________________________
-- 
2.43.0


From dd2f8fdfa2d5ec55694074a3cbb5622d1ec94ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:07 +0000
Subject: [PATCH 63/85] fix: rest2html passed HTML tags and attributes through
 in formulas

---
 creole/rest_tools/clean_writer.py | 35 +++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/creole/rest_tools/clean_writer.py b/creole/rest_tools/clean_writer.py
index 9e91bc7..4da46df 100644
--- a/creole/rest_tools/clean_writer.py
+++ b/creole/rest_tools/clean_writer.py
@@ -54,6 +54,13 @@ IGNORE_TAGS = (
 ignore_tags_regex = re.compile(r"</?(?:%s)\b[^>]*>" % "|".join(IGNORE_TAGS))
 tag_attr_regex = re.compile(r''' (?P<name>[\w-]+)="[^"]*"''')
 
+# math2html doesn't escape these in the arguments of some commands, e.g.: "\\text{<b>}"
+math_mask_regex = re.compile(r'''<|>|"|&(?=\#?\w+;)|\\textless(?![a-zA-Z])|\\textgreater(?![a-zA-Z])''')
+MATH_MASK = {
+    "<": "\ue000", "\\textless": "\ue000", ">": "\ue001", "\\textgreater": "\ue001", '"': "\ue002", "&": "\ue003",
+}
+MATH_UNMASK = str.maketrans({"\ue000": "&lt;", "\ue001": "&gt;", "\ue002": "&quot;", "\ue003": "&amp;"})
+
 
 class RawHtml(str):
     """
@@ -151,6 +158,34 @@ class CleanHTMLTranslator(html4css1.HTMLTranslator):
         finally:
             self.body[start:] = [RawHtml(part) for part in self.body[start:]]
 
+    def _math_parts(self, code, math_env):
+        start = len(self.body)
+        try:
+            super().visit_math(nodes.math("", code), math_env)
+        except nodes.SkipNode:
+            pass
+        parts = self.body[start:]
+        del self.body[start:]
+        return parts
+
+    def visit_math(self, node, math_env=''):
+        if self.math_output != 'html':
+            return super().visit_math(node, math_env)
+
+        def get_tags(parts):
+            return re.findall(r"<[^>]*>?|&\w+;", "".join(parts))
+
+        code = node.astext()
+        parts = self._math_parts(code, math_env)
+        masked = math_mask_regex.sub(lambda match: MATH_MASK[match[0]], code)
+        if masked != code:
+            masked_parts = [part.translate(MATH_UNMASK) for part in self._math_parts(masked, math_env)]
+            if get_tags(parts) != get_tags(masked_parts):
+                # There is markup from the source
+                parts = masked_parts
+        self.body.extend(re.sub(r"&(?!#?\w+;)", "&amp;", part) for part in parts)
+        raise nodes.SkipNode
+
     def _clean_part(self, part):
         """
         Remove the ignored tags and attributes which are hard coded in docutils.
-- 
2.43.0


From b75523245577f9dd6f3defbe2254670870063c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 64/85] fix: get_long_description() silently drops an
 incomplete character at the end of the README

---
 creole/setup_utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/creole/setup_utils.py b/creole/setup_utils.py
index 0752b0c..daa4d9c 100644
--- a/creole/setup_utils.py
+++ b/creole/setup_utils.py
@@ -12,7 +12,6 @@
     :license: GNU GPL v3 or above, see LICENSE for more details.
 """
 
-import codecs
 import datetime
 import os
 import sys
@@ -67,9 +66,8 @@ def get_long_description(package_root, filename='README.creole', raise_errors=No
     long_description_origin = ''
     try:
         # Read creole README
-        f = codecs.open(filepath, 'r', encoding='utf-8')
-        long_description_origin = f.read().strip()
-        f.close()
+        with open(filepath, encoding='utf-8') as f:
+            long_description_origin = f.read().strip()
 
         # convert creole into html
         long_description_html = creole2html(long_description_origin)
-- 
2.43.0


From 97fa12a131d5682e7281cef552200ec4a3647716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 65/85] fix: command line tools silently drop an incomplete
 character at the end of the source file

---
 creole/cmdline.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/creole/cmdline.py b/creole/cmdline.py
index f3a7587..37e824d 100644
--- a/creole/cmdline.py
+++ b/creole/cmdline.py
@@ -8,7 +8,6 @@
 
 
 import argparse
-import codecs
 
 from creole import VERSION_STRING, creole2html, html2creole, html2rest, html2textile
 
@@ -48,8 +47,8 @@ class CreoleCLI:
             f" (codec: {encoding})"
         )
 
-        with codecs.open(sourcefile, "r", encoding=encoding) as infile:
-            content = infile.read()
+        with open(sourcefile, "rb") as infile:
+            content = infile.read().decode(encoding)
 
         converted = self.convert_func(content)
         data = converted.encode(encoding)
-- 
2.43.0


From 395bb75fdcaea99f7b75ae97dab16d7c46b7dc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 66/85] fix: README update leaves an empty file which the
 up-to-date assertion rejects

---
 creole/setup_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/creole/setup_utils.py b/creole/setup_utils.py
index daa4d9c..e49ea26 100644
--- a/creole/setup_utils.py
+++ b/creole/setup_utils.py
@@ -150,6 +150,9 @@ def _is_up_to_date(*, readme_path, readme):
         return False
 
     content = readme_path.read_text(encoding='UTF-8', errors='replace')
+    if not content:
+        return False
+
     content = content.rsplit('\n', 4)[0]  # remove note about generation with modification time
     return content == readme
 
-- 
2.43.0


From c60dc5ace24ae2131b912c49416cedc9e4495e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 67/85] fix: roles defined in a ReSt document are known in
 later documents

---
 creole/rest_tools/clean_writer.py   | 15 +++++++++------
 creole/rest_tools/local_roles.py    | 30 +++++++++++++++++++++++++++++
 creole/rest_tools/pypi_rest2html.py |  7 +++++--
 3 files changed, 44 insertions(+), 8 deletions(-)
 create mode 100644 creole/rest_tools/local_roles.py

diff --git a/creole/rest_tools/clean_writer.py b/creole/rest_tools/clean_writer.py
index 4da46df..1e39fc8 100644
--- a/creole/rest_tools/clean_writer.py
+++ b/creole/rest_tools/clean_writer.py
@@ -38,6 +38,8 @@ except ImportError:
     # raise DocutilsImportError, evalue, etb
 
     raise DocutilsImportError(msg)
+else:
+    from creole.rest_tools.local_roles import local_roles
 
 
 DEBUG = False
@@ -284,12 +286,13 @@ def rest2html(content, enable_exit_status=None, **kwargs):
     }
     settings_overrides.update(kwargs)
 
-    parts = publish_parts(
-        source=content,
-        writer=CleanHTMLWriter(),
-        settings_overrides=settings_overrides,
-        enable_exit_status=enable_exit_status,
-    )
+    with local_roles():
+        parts = publish_parts(
+            source=content,
+            writer=CleanHTMLWriter(),
+            settings_overrides=settings_overrides,
+            enable_exit_status=enable_exit_status,
+        )
 #    import pprint
 #    pprint.pprint(parts)
     return parts["html_body"]  # Don't detache the first heading
diff --git a/creole/rest_tools/local_roles.py b/creole/rest_tools/local_roles.py
new file mode 100644
index 0000000..5bc528a
--- /dev/null
+++ b/creole/rest_tools/local_roles.py
@@ -0,0 +1,30 @@
+"""
+    Keep the roles of a ReStructuredText document local
+    ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+
+    :copyleft: 2020 by python-creole team, see AUTHORS for more details.
+    :license: GNU GPL v3 or above, see LICENSE for more details.
+"""
+
+import contextlib
+import threading
+
+from docutils.parsers.rst import roles
+
+
+_lock = threading.RLock()
+
+
+@contextlib.contextmanager
+def local_roles():
+    """
+    docutils stores the roles which are defined in a document globally and never removes them.
+    Restore the known roles, so that they are not available in the next document.
+    """
+    with _lock:
+        known_roles = roles._roles.copy()
+        try:
+            yield
+        finally:
+            roles._roles.clear()
+            roles._roles.update(known_roles)
diff --git a/creole/rest_tools/pypi_rest2html.py b/creole/rest_tools/pypi_rest2html.py
index 368572e..921fcc3 100644
--- a/creole/rest_tools/pypi_rest2html.py
+++ b/creole/rest_tools/pypi_rest2html.py
@@ -25,6 +25,8 @@ except ImportError as err:
         " Please install: http://pypi.python.org/pypi/docutils"
     ) % err
     raise DocutilsImportError(msg)
+else:
+    from creole.rest_tools.local_roles import local_roles
 
 
 ALLOWED_SCHEMES = '''file ftp gopher hdl http https imap mailto mms news nntp
@@ -45,8 +47,9 @@ def pypi_rest2html(source, output_encoding='unicode'):
     }
 
     # Convert reStructuredText to HTML using Docutils.
-    document = publish_doctree(source=source,
-                               settings_overrides=settings_overrides)
+    with local_roles():
+        document = publish_doctree(source=source,
+                                   settings_overrides=settings_overrides)
 
     for node in document.traverse():
         if node.tagname == '#text':
-- 
2.43.0


From cf0d7e157f81e42abb48ccd3afd46868b9608bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:20 +0000
Subject: [PATCH 68/85] fix: dict2string quotes strings and constants in the
 way string2dict reads them

---
 creole/shared/utils.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/creole/shared/utils.py b/creole/shared/utils.py
index 9c8ffc8..2cfdf89 100644
--- a/creole/shared/utils.py
+++ b/creole/shared/utils.py
@@ -74,7 +74,14 @@ def dict2string(d):
     """
     attr_list = []
     for key, value in sorted(d.items()):
-        value_string = json.dumps(value)
+        if isinstance(value, str):
+            # Quoted in the way as string2dict() reads it
+            value_string = value.replace("\\", "\\\\").replace('"', '\\"')
+            value_string = f'"{value_string}"'
+        elif value is None or isinstance(value, bool):
+            value_string = str(value)
+        else:
+            value_string = json.dumps(value)
         attr_list.append(f"{key}={value_string}")
     return " ".join(attr_list)
 
-- 
2.43.0


From 8bc3e5fcdc4c830f6872a4ff33404c9f4e47928a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 69/85] fix: html2creole lost inline code

---
 creole/emitter/html2creole_emitter.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/creole/emitter/html2creole_emitter.py b/creole/emitter/html2creole_emitter.py
index ecfd2f1..eae0e45 100644
--- a/creole/emitter/html2creole_emitter.py
+++ b/creole/emitter/html2creole_emitter.py
@@ -90,6 +90,15 @@ class CreoleEmitter(BaseEmitter):
         return self._typeface(node, key="~~")
     strike_emit = del_emit
 
+    def code_emit(self, node):
+        """ inline nowiki: the written markup is not interpreted """
+        text = self.emit_children(node)
+        if any(child.kind not in ("data", "entityref", "charref") for child in node.children):
+            return text
+        if not text.strip() or "\n" in text or "}}}" in text:
+            return text
+        return "{{{%s}}}" % text
+
     # --------------------------------------------------------------------------
 
     def hr_emit(self, node):
-- 
2.43.0


From ba9c988a08b2ef40fc9c2ce1caff456887b4937a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:25 +0000
Subject: [PATCH 70/85] fix: HTML converters lost backslashes at the edges of
 table cells and containers

---
 creole/shared/base_emitter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 5079540..12b70de 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -160,7 +160,11 @@ class BaseEmitter:
         lines = [line.strip() for line in text]
         lines = [line for line in lines if line]
         content = self.line_break.join(lines)
-        content = content.strip("\\")
+        # Without line breaks at the start and at the end, but not every backslash is a line break
+        while content.startswith(self.line_break):
+            content = content[len(self.line_break):]
+        while content.endswith(self.line_break):
+            content = content[:-len(self.line_break)]
         return content
 
     def th_emit(self, node):
-- 
2.43.0


From d83e25486d7f8a0882cfc09b64f493e31c1f86b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:30 +0000
Subject: [PATCH 71/85] fix: html2rest lost the indentation of the first line
 of preformatted text

---
 creole/emitter/html2rest_emitter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 4407413..f52f2cd 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -12,6 +12,7 @@
 
 
 import posixpath
+import re
 
 from creole.shared.base_emitter import BaseEmitter
 from creole.shared.markup_table import MarkupTable
@@ -59,8 +60,10 @@ class ReStructuredTextEmitter(BaseEmitter):
 
     def blockdata_pre_emit(self, node):
         """ pre block -> with newline at the end """
-        pre_block = self.deentity.replace_all(node.content).strip()
-        pre_block = "\n".join(f"    {line}" for line in pre_block.splitlines())
+        pre_block = self.deentity.replace_all(node.content)
+        # Without blank lines at the start and at the end, but with the indentation of the first line
+        pre_block = re.sub(r"^\s*\n", "", pre_block).rstrip()
+        pre_block = "\n".join(f"    {line}" for line in pre_block.split("\n"))
         return f"::\n\n{pre_block}\n\n"
 
     def inlinedata_pre_emit(self, node):
-- 
2.43.0


From a7bd539cc15c2e641cd5c3b3fb09060b8ae604dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:35 +0000
Subject: [PATCH 72/85] fix: html2textile joined preformatted text with the
 following block

---
 creole/emitter/html2textile_emitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index 14bdac7..503048b 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -35,7 +35,7 @@ class TextileEmitter(BaseEmitter):
 
     def blockdata_pre_emit(self, node):
         """ pre block -> with newline at the end """
-        return f"<pre>{self.deentity.replace_all(node.content)}</pre>\n"
+        return f"<pre>{self.deentity.replace_all(node.content)}</pre>\n\n"
 
     def inlinedata_pre_emit(self, node):
         """ a pre inline block -> no newline at the end """
-- 
2.43.0


From d4ecff4fc9851126c53baf52c637826103a0aca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:41 +0000
Subject: [PATCH 73/85] fix: code macro failed with unknown extensions

---
 creole/shared/example_macros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/shared/example_macros.py b/creole/shared/example_macros.py
index 635e920..0002a2e 100644
--- a/creole/shared/example_macros.py
+++ b/creole/shared/example_macros.py
@@ -55,7 +55,7 @@ def code(ext, text):
     except IndexError:
         source_type = ''
 
-    lexer = get_pygments_lexer(source_type, code)
+    lexer = get_pygments_lexer(source_type, text)
     formatter = get_pygments_formatter()
 
     try:
-- 
2.43.0


From 5e2a5cbe82c1c4353f12271ffbc9ea79b2070ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:07 +0000
Subject: [PATCH 74/85] fix: an image whose file is called data is no data: URI

---
 creole/emitter/html2creole_emitter.py  | 2 +-
 creole/emitter/html2rest_emitter.py    | 2 +-
 creole/emitter/html2textile_emitter.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/creole/emitter/html2creole_emitter.py b/creole/emitter/html2creole_emitter.py
index eae0e45..c1b0d10 100644
--- a/creole/emitter/html2creole_emitter.py
+++ b/creole/emitter/html2creole_emitter.py
@@ -118,7 +118,7 @@ class CreoleEmitter(BaseEmitter):
     def img_emit(self, node):
         src = node.attrs.get("src", "")
 
-        if src.split(':')[0] == 'data':
+        if src.startswith('data:'):
             return ""
 
         title = node.attrs.get("title", "")
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index f52f2cd..6199481 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -238,7 +238,7 @@ class ReStructuredTextEmitter(BaseEmitter):
     def img_emit(self, node):
         src = node.attrs.get("src", "")
 
-        if src.split(':')[0] == 'data':
+        if src.startswith('data:'):
             return ""
 
         title = node.attrs.get("title", "")
diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index 503048b..d9c13d1 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -107,7 +107,7 @@ class TextileEmitter(BaseEmitter):
     def img_emit(self, node):
         src = node.attrs.get("src", "")
 
-        if src.split(':')[0] == 'data':
+        if src.startswith('data:'):
             return ""
 
         title = node.attrs.get("title", "")
-- 
2.43.0


From cb1edef419372aced349ba1c5b2ea97dc57a4e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:22 +0000
Subject: [PATCH 75/85] fix: a macro tag followed by a call with body of
 another macro whose name is the beginning of the first

---
 creole/parser/creol2html_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index 6ed728f..3cdee86 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -59,7 +59,7 @@ class InlineRules:
     # a macro like: <<macro>>text<</macro>>
     macro_inline = r'''
         (?P<macro_inline>
-        << \s* (?P<macro_inline_start>\w+) \s* (?P<macro_inline_args>.*?) \s* >>
+        << \s* (?P<macro_inline_start>\w+) \b \s* (?P<macro_inline_args>.*?) \s* >>
         (?P<macro_inline_text>(.|\n)*?)
         <</ \s* (?P=macro_inline_start) \s* >>
         )
@@ -111,7 +111,7 @@ class BlockRules:
 
     macro_block = r'''
         (?P<macro_block>
-        << \s* (?P<macro_block_start>\w+) \s* (?P<macro_block_args>.*?) \s* >>
+        << \s* (?P<macro_block_start>\w+) \b \s* (?P<macro_block_args>.*?) \s* >>
         (?P<macro_block_text>(.|\n)*?)
         <</ \s* (?P=macro_block_start) \s* >>
         )
-- 
2.43.0


From de348f7705c98bcafcbdcafbcc2ce24d05147455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:58 +0000
Subject: [PATCH 76/85] fix: html2rest: link texts which differ only in
 upper/lower case are the same reference name

---
 creole/emitter/html2rest_emitter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 6199481..dbcade5 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -217,7 +217,8 @@ class ReStructuredTextEmitter(BaseEmitter):
         # A reference name has to be in one line
         link_text = " ".join(link_text.split())
 
-        old_url = self._get_old_substitution(self._used_substitution_links, link_text, url)
+        # Reference names are not case-sensitive
+        old_url = self._get_old_substitution(self._used_substitution_links, link_text.lower(), url)
 
         if self._should_do_substitution(node):
             # make a hyperlink reference
-- 
2.43.0


From ade8a917d2df31faf07f8a9bfaa745cd0c11a698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:04 +0000
Subject: [PATCH 77/85] fix: HTML converters: white space references at the
 edges of links, code, spans and unknown tags joined the words

---
 creole/emitter/html2markdown_emitter.py |  8 ++++---
 creole/emitter/html2rest_emitter.py     | 20 +++++++++--------
 creole/shared/base_emitter.py           | 29 ++++++++++++++++++++++---
 3 files changed, 42 insertions(+), 15 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 352f554..409803f 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -242,13 +242,15 @@ class MarkdownEmitter(BaseEmitter):
     # --------------------------------------------------------------------------
 
     def code_emit(self, node: DocNode):
-        code_block = self._escape_linebreaks(self.emit_children(node))
+        content = self.emit_children(node)
+        code_block = self._escape_linebreaks(content)
         assert '\n' not in code_block
 
         if '`' in code_block:
-            return f'``{code_block}``'
+            code_block = f'``{code_block}``'
         else:
-            return f'`{code_block}`'
+            code_block = f'`{code_block}`'
+        return self._keep_edge_spaces(node, content, code_block)
 
     # --------------------------------------------------------------------------
 
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index dbcade5..7040c20 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -208,14 +208,14 @@ class ReStructuredTextEmitter(BaseEmitter):
                 raise Html2restException(msg)
 
     def a_emit(self, node):
-        link_text = self.emit_children(node)
+        content = self.emit_children(node)
         url = node.attrs.get("href", "")
         if not url:
             # e.g.: <a name="anchor-one">foo</a>
-            return link_text
+            return content
 
         # A reference name has to be in one line
-        link_text = " ".join(link_text.split())
+        link_text = " ".join(content.split())
 
         # Reference names are not case-sensitive
         old_url = self._get_old_substitution(self._used_substitution_links, link_text.lower(), url)
@@ -227,14 +227,15 @@ class ReStructuredTextEmitter(BaseEmitter):
                 self._substitution_data.append(
                     f".. _{link_text}: {url}"
                 )
-            return f"`{link_text}`_"
-
-        if old_url:
+            link = f"`{link_text}`_"
+        elif old_url:
             # reuse a existing substitution
-            return f"`{link_text}`_"
+            link = f"`{link_text}`_"
         else:
             # create a inline hyperlink
-            return f"`{link_text} <{url}>`_"
+            link = f"`{link_text} <{url}>`_"
+
+        return self._keep_edge_spaces(node, content, link)
 
     def img_emit(self, node):
         src = node.attrs.get("src", "")
@@ -272,7 +273,8 @@ class ReStructuredTextEmitter(BaseEmitter):
         return self.line_break if self._list_markup else "\n"
 
     def code_emit(self, node):
-        return f"``{self._escape_linebreaks(self.emit_children(node))}``"
+        content = self.emit_children(node)
+        return self._keep_edge_spaces(node, content, f"``{self._escape_linebreaks(content)}``")
 
     # --------------------------------------------------------------------------
 
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 12b70de..cfcaff2 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -210,10 +210,33 @@ class BaseEmitter:
         if self._keep_blocks(node):
             content = content.rstrip("\n")
             return f"{content}\n\n"
-        content = self._escape_linebreaks(content)
+        text = self._escape_linebreaks(content)
         if node.kind in BLOCK_TAGS:
-            content = f"{content}\n\n"
-        return content
+            return f"{text}\n\n"
+
+        return self._keep_edge_spaces(node, content, text)
+
+    def _keep_edge_spaces(self, node, content, text):
+        """
+        Put the white space from the edges of the content around the stripped text: Don't join it
+        with the text before and after the node, e.g.: one<span>&nbsp;two</span>
+        """
+        first, last = content[:1], content[-1:]
+        if first != "\n" and first.isspace() and not self._at_line_edge(node, 0):
+            text = first + text
+        if last != "\n" and last.isspace() and not self._at_line_edge(node, -1) and text != content:
+            text += last
+        return text
+
+    def _at_line_edge(self, node, edge):
+        """
+        Is there nothing between the node and the start (edge=0) / end (edge=-1) of the block?
+        """
+        while node.kind not in BLOCK_NODES and node is not self.root:
+            if node.parent.children[edge] is not node:
+                return False
+            node = node.parent
+        return True
 
     def div_emit(self, node):
         return self._emit_content(node)
-- 
2.43.0


From 6a960edc7c577d0222314073193f404757f15ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:08 +0000
Subject: [PATCH 78/85] fix: html2rest: images were lost if the alt text starts
 or ends with white space

---
 creole/emitter/html2rest_emitter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 7040c20..fa3f6cc 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -254,6 +254,9 @@ class ReStructuredTextEmitter(BaseEmitter):
             # e.g.: <img alt="foo" />
             return substitution_text
 
+        # A reference name has to be in one line, without white space at the edges
+        substitution_text = " ".join(substitution_text.split())
+
         if substitution_text == "":  # Use filename as picture text
             substitution_text = posixpath.basename(src)
 
-- 
2.43.0


From 6a7075c1ce79c3dfca738140430e36394c5b5ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:08 +0000
Subject: [PATCH 79/85] fix: html2markdown: a <list> tag was not seen as
 unknown

---
 creole/emitter/html2markdown_emitter.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 409803f..404807f 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -196,14 +196,13 @@ class MarkdownEmitter(BaseEmitter):
 
     # --------------------------------------------------------------------------
 
-    def list_emit(self, node: DocNode):
+    def ul_emit(self, node: DocNode):
         content = self.emit_children(node)
         if node.level == 1:
             return f'\n{content}\n'
         return content
 
-    ul_emit = list_emit
-    ol_emit = list_emit
+    ol_emit = ul_emit
 
     def li_emit(self, node: DocNode):
         list_level = node.level
-- 
2.43.0


From 7cf431596200f38566f50603cd67a9ef8a603bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:21 +0000
Subject: [PATCH 80/85] fix: HTML parser: two <pre> blocks were joined to one
 with everything between them

---
 creole/parser/html_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 2a3bc4e..6f97c3b 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -21,7 +21,7 @@ from creole.shared.document_tree import DebugList, DocNode
 block_re = re.compile(r'''
     ^<pre (?:\s[^>]*)?> \s* $
     (?P<pre_block>
-        (\n|.)*?
+        (?: (?!</pre[\s>]) (?:\n|.) )*?
     )
     ^</pre \s*> \s* $
     [\s\n]*
-- 
2.43.0


From 2a4cf3d4d588174d79d4ff8d09cedf2e68336ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:26 +0000
Subject: [PATCH 81/85] fix: HTML converters: <pre> with more than one line was
 broken if it doesn't stand on its own lines

---
 creole/emitter/html2markdown_emitter.py | 36 ++++++++++++++++---------
 creole/parser/html_parser.py            | 23 ++++++++++++++--
 2 files changed, 44 insertions(+), 15 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 404807f..2001949 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -80,31 +80,41 @@ class MarkdownEmitter(BaseEmitter):
 
     # --------------------------------------------------------------------------
 
-    def blockdata_pre_emit(self, node: DocNode):
-        """pre block -> with newline at the end"""
-        return f'```{self.deentity.replace_all(node.content)}```\n'
-
-    def inlinedata_pre_emit(self, node: DocNode):
-        """a pre inline block -> no newline at the end"""
-        pre_content = node.content
-
-        match = code_block_re.match(pre_content)
+    def _split_code_block(self, content):
+        """
+        return language and code, e.g. from: <pre><code class="language-python">...</code></pre>
+        """
+        language = ''
+        match = code_block_re.match(content)
         if match:
             # TODO: The parser should parse this!
             p = HtmlParser()
             root_node: DocNode = p.feed(match.group('start_tag'), preprocess=False)
             code_node: DocNode = root_node.children[0]
-            code = self.deentity.replace_all(match.group('code'))
+            content = match.group('code')
 
             class_value = code_node.attrs.get('class')
             if class_value:
                 if class_value.startswith('language-'):
                     language = class_value.partition('-')[2]
-                    return f'\n```{language}{code}```\n'
 
-            return f'\n```{code}```\n'
+        return language, self.deentity.replace_all(content)
 
-        return f'\n```{self.deentity.replace_all(pre_content)}```\n'
+    def blockdata_pre_emit(self, node: DocNode):
+        """pre block -> with newline at the end"""
+        language, code = self._split_code_block(node.content)
+        if not code.startswith('\n'):
+            code = f'\n{code}'
+        if not code.endswith('\n'):
+            code = f'{code}\n'
+        if language:
+            return f'\n```{language}{code}```\n'
+        return f'```{code}```\n'
+
+    def inlinedata_pre_emit(self, node: DocNode):
+        """a pre inline block -> no newline at the end"""
+        language, code = self._split_code_block(node.content)
+        return f'\n```{code}```\n'
 
     def blockdata_pass_emit(self, node: DocNode):
         return f'\n{node.content}\n'
diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 6f97c3b..59b7ad1 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -12,7 +12,7 @@ from html.entities import html5
 from html.parser import HTMLParser
 
 from creole.html_tools.strip_html import strip_html
-from creole.parser.html_parser_config import BLOCK_NODES, BLOCK_TAGS, IGNORE_TAGS, IMPLIED_END_TAGS, VOID_TAGS
+from creole.parser.html_parser_config import BLOCK_NODES, BLOCK_TAGS, IGNORE_TAGS, IMPLIED_END_TAGS, ONE_LINE_NODES, VOID_TAGS
 from creole.shared.document_tree import DebugList, DocNode
 
 
@@ -208,6 +208,14 @@ class HtmlParser(HTMLParser):
                 return node
             node = node.parent
 
+    def _in_one_line_node(self):
+        node = self.cur
+        while node is not self.root:
+            if node.kind in ONE_LINE_NODES:
+                return True
+            node = node.parent
+        return False
+
     def _close(self, node):
         """
         Close the given node and everything that is still open in it.
@@ -275,6 +283,9 @@ class HtmlParser(HTMLParser):
     def handle_data(self, data):
         self.debug_msg("data", f"{data!r}")
         assert isinstance(data, str)
+        if self.cur.children and self.cur.children[-1].kind == "blockdata_pre":
+            # The text after a block starts in a new line
+            data = data.lstrip(" ")
         DocNode("data", self.cur, content=data)
 
     def handle_charref(self, name):
@@ -291,11 +302,19 @@ class HtmlParser(HTMLParser):
         if tag in (self._block_placeholder, self._inline_placeholder):
             id = int(attr_dict["id"])
 #            block_type = attr_dict["type"]
+            content = self.blockdata[id]
             kind = "blockdata" if tag == self._block_placeholder else "inlinedata"
+            if kind == "inlinedata" and "\n" in content and not self._in_one_line_node():
+                # More than one line is not possible inline, e.g.: <div><pre>one\ntwo</pre></div>
+                kind = "blockdata"
+                if not content.startswith("\n"):
+                    content = f"\n{content}"
+                if not content.endswith("\n"):
+                    content = f"{content}\n"
             DocNode(
                 f"{kind}_{attr_dict['type']}",
                 self.cur,
-                content=self.blockdata[id],
+                content=content,
                 #                attrs = attr_dict
             )
         else:
-- 
2.43.0


From 3e980ce4f3c3403b4e82a4fc011b529619441be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:43 +0000
Subject: [PATCH 82/85] fix: html2markdown: the language of a code block with
 more than one class was wrong or lost

---
 creole/emitter/html2markdown_emitter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 2001949..83d1c1f 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -93,10 +93,10 @@ class MarkdownEmitter(BaseEmitter):
             code_node: DocNode = root_node.children[0]
             content = match.group('code')
 
-            class_value = code_node.attrs.get('class')
-            if class_value:
-                if class_value.startswith('language-'):
-                    language = class_value.partition('-')[2]
+            for class_name in code_node.attrs.get('class', '').split():
+                if class_name.startswith('language-'):
+                    language = class_name.partition('-')[2]
+                    break
 
         return language, self.deentity.replace_all(content)
 
-- 
2.43.0


From cb5261f967fd6a7c1cada7bdae23b1835878f11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:04 +0000
Subject: [PATCH 83/85] fix: html2rest: a relative URL which ends with an
 underscore was taken for the name of another target

---
 creole/emitter/html2rest_emitter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index fa3f6cc..634bf33 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -220,6 +220,10 @@ class ReStructuredTextEmitter(BaseEmitter):
         # Reference names are not case-sensitive
         old_url = self._get_old_substitution(self._used_substitution_links, link_text.lower(), url)
 
+        if url.endswith("_"):
+            # not the reference of another target, e.g.: `link text <alias_>`_
+            url = f"{url[:-1]}\\_"
+
         if self._should_do_substitution(node):
             # make a hyperlink reference
             if not old_url:
-- 
2.43.0


From 221cafaa9860cece7dc515b4b8054e899a6b1a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:36 +0000
Subject: [PATCH 84/85] fix: html2markdown: an image without source was
 replaced by the shorter one of its descriptions

---
 creole/emitter/html2markdown_emitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 83d1c1f..f737beb 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -197,7 +197,7 @@ class MarkdownEmitter(BaseEmitter):
         alt = node.attrs.get('alt', '')
         if not src:
             # e.g.: <img alt="foo" />
-            return alt or title or ''
+            return max(title or '', alt, key=len)  # Use the longest one
 
         if title:
             return f'![{alt}]({src} "{title}")'
-- 
2.43.0


From 92c78eb7f5a91868e4d40d411a16d004fc28c4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:26 +0000
Subject: [PATCH 85/85] fix: text before and after <dialog>, <dir>, <hgroup>
 and <menu> was joined with their text

---
 creole/parser/html_parser_config.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/creole/parser/html_parser_config.py b/creole/parser/html_parser_config.py
index 1a6ba73..ef41e62 100644
--- a/creole/parser/html_parser_config.py
+++ b/creole/parser/html_parser_config.py
@@ -20,13 +20,13 @@ BLOCK_TAGS = (
 )
 # Other tags around which white space has no meaning:
 SECTION_TAGS = (
-    "article", "aside", "body", "caption", "colgroup", "dd", "details", "dt", "figcaption", "figure", "footer",
-    "head", "header", "html", "main", "nav", "section", "summary", "tbody", "tfoot", "thead",
+    "article", "aside", "body", "caption", "colgroup", "dd", "details", "dialog", "dt", "figcaption", "figure",
+    "footer", "head", "header", "hgroup", "html", "main", "nav", "section", "summary", "tbody", "tfoot", "thead",
 )
 # Node kinds whose content is not in the same line as the text before and after them:
 BLOCK_NODES = (
-    "address", "article", "aside", "blockquote", "body", "caption", "center", "dd", "details", "div", "dl", "dt",
-    "fieldset", "figcaption", "figure", "footer", "form", "head", "header", "headline", "hr", "html", "li", "main", "nav", "ol", "p", "pre",
+    "address", "article", "aside", "blockquote", "body", "caption", "center", "dd", "details", "dialog", "dir", "div",
+    "dl", "dt", "fieldset", "figcaption", "figure", "footer", "form", "head", "header", "headline", "hgroup", "hr", "html", "li", "main", "menu", "nav", "ol", "p", "pre",
     "section", "summary", "table", "td", "th", "title", "tr", "ul",
     "blockdata_pre", "blockdata_pass",
 )
-- 
2.43.0

