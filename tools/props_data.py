"""Source of properties.jsonl (run tools/gen.py to regenerate)."""
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                    "mechanism": [dict(name=n, where=w) for n, w in mech],
                    "observe_at": list(observe), "hook_needed": hook},
    })


CP = "creole/parser/creol2html_parser.py"
CR = "creole/parser/creol2html_rules.py"
HE = "creole/emitter/creol2html_emitter.py"
HP = "creole/parser/html_parser.py"
HC = "creole/parser/html_parser_config.py"
BE = "creole/shared/base_emitter.py"
E_C = "creole/emitter/html2creole_emitter.py"
E_M = "creole/emitter/html2markdown_emitter.py"
E_R = "creole/emitter/html2rest_emitter.py"
E_T = "creole/emitter/html2textile_emitter.py"
INIT = "creole/__init__.py"

p("C01", "Creole to HTML conversion never fails",
  "Converting any text from Creole to HTML returns a string and never raises or hangs: whatever the text, whichever "
  "line-break mode, strict flag, verbosity up to 2 and macro namespace (none, dict, object, including a user-defined "
  "macro called toc) is chosen.",
  ["inputs", "configurations"],
  "all texts over the Creole token alphabet (every markup delimiter, words, whitespace, line ends), all option combinations",
  "The tests convert about a hundred hand-written, mostly well-formed documents; malformed and unusual combinations of "
  "delimiters (unclosed, overlapping, nested in the wrong context) are an unbounded input space.",
  [INIT, CP, CR, HE],
  [("one regex alternative per construct with a catch-all character rule", CR), ("per-group handler dispatch", CP + ":_replace")],
  observe=["creole.creole2html"])

p("C02", "Generated HTML is well formed and source text cannot inject markup",
  "For every Creole text without macro calls the generated HTML is properly nested, uses only the documented elements and "
  "attributes in positions where HTML allows them, and every <, > and & that comes from the source appears escaped, as does every double quote "
  "inside of an attribute value, so that attribute values and text decode to exactly what was written. Table-of-contents output obeys the same rule.",
  ["inputs"],
  "all token sequences that contain HTML fragments, quotes, ampersands and Creole delimiters in every context (text, link "
  "target, image target and title, heading, table cell, nowiki, table of contents)",
  "Tests escape one '<html>' in a paragraph; injection needs an unusual character in an unusual context "
  "(e.g. a quote in an image target that also has a size).",
  [HE, CP], [("html_escape/attr_escape", HE), ("typeface/list/table nesting by document tree", CP)],
  observe=["creole.creole2html"])

p("C03", "Creole to HTML loses, invents, reorders or joins no text",
  "For every Creole text without macro calls, every character that is not markup appears in the HTML output (as text or as "
  "link/image attribute) exactly in source order, nothing appears that was not in the source, and words that were separated by "
  "whitespace or a line break stay separated.",
  ["inputs"],
  "all token sequences over words and every Creole delimiter up to the bound, both line-break modes",
  "A lost or joined word depends on which construct precedes which; tests only cover the author's expected sequences.",
  [CP, CR, HE],
  [("document tree append order", "creole/shared/document_tree.py"), ("current-node bookkeeping (cur/text)", CP)],
  state=[("cur", "node new content is appended to", CP), ("text", "open text node", CP)],
  observe=["creole.creole2html"])

p("C04", "Creole block constructs render to exactly the documented HTML structure",
  "A document made of headings of level 1-6 (with or without closing marks), paragraphs, horizontal rules, bullet/number "
  "lists of any nesting and mix, tables with header and data cells, and nowiki blocks, in any order and separated by single or "
  "blank lines wherever Creole allows it, renders to exactly the corresponding sequence and nesting of HTML blocks with the "
  "right content in each, regardless of optional whitespace and optional closing delimiters.",
  ["inputs"],
  "all abstract documents up to the bound (block sequences, list marker sequences, table grids, heading spellings)",
  "Tests pin some sequences; block interactions (what closes what, which level a list item returns to) are combinatorial.",
  [CP, CR, HE], [("block rules", CR), ("_upto/_upto_block, list level search, table row grouping", CP)],
  state=[("list level", "depth of an open list", CP)], observe=["creole.creole2html"])

p("C05", "Creole inline constructs render to exactly the documented HTML structure",
  "Bold, italic, monospace, superscript, subscript, underline, small, strike-out, inline nowiki, links, images (with title and "
  "size), free-standing URLs of known protocols and forced line breaks, arbitrarily nested and placed next to each other, "
  "render to exactly the corresponding HTML elements, attributes and nesting in every context that allows inline markup "
  "(paragraph, list item, table cell).",
  ["inputs", "configurations"],
  "all inline trees up to the bound in all containing contexts, strict and non-strict image syntax",
  "Nestings and adjacencies of 13 inline constructs in 3 contexts; tests cover a few pairs.",
  [CP, CR, HE], [("inline rules and their order", CR), ("_inline_mark/_link_repl/_image_repl/_url_repl", CP)],
  observe=["creole.creole2html"])

p("C06", "Nowiki content is reproduced verbatim",
  "Whatever text stands between {{{ and }}} - as a block on its own lines, or inline in running text, list items and table cells (not enclosed by other "
  "open markup) - appears in the HTML output character for character inside pre or code: no markup, macro, URL, escape or table of contents is interpreted in "
  "it, and only a tilde before a closing }}} line is removed.",
  ["inputs"],
  "all nowiki contents over the token alphabet (delimiters, macros, tildes, newlines, HTML) up to the bound, block and inline",
  "Tests use four fixed contents; whether some content is interpreted depends on every other rule of the grammar.",
  [CR, CP, HE], [("pre_block/pre_inline rules before the other rules", CR), ("pre_escape", CP)],
  observe=["creole.creole2html"])

p("C07", "Every text can be written literally with the tilde escape",
  "Putting a tilde before each punctuation character (the tilde itself excepted) of any one-line text makes Creole render exactly that text, with no markup "
  "interpreted and no tilde left, in paragraphs, list items and table data cells; a tilde before whitespace or at the end of a line is a "
  "literal tilde, and a tilde before a free-standing URL prints the URL as plain text.",
  ["inputs"],
  "all one-line texts over all punctuation and words up to the bound, in every inline context",
  "Tests escape '#', a URL and '[['; the claim is about every construct in every position.",
  [CR, CP], [("escape rule", CR), ("_escape_repl, escaped_url", CP)], observe=["creole.creole2html"])

p("C08", "Line endings and line-break modes only change line breaks",
  "LF, CR and CRLF (also mixed) give identical HTML for every text; blog mode turns each line break inside running text into <br />, "
  "wiki mode into one space, and apart from that both modes produce the same document.",
  ["inputs", "configurations"],
  "all token sequences with line breaks, all assignments of line-ending style to line breaks, both modes",
  "Tests convert three two-line strings; regexes with ^, $ and \\s behave differently per context.",
  [CP, CR], [("newline normalisation in parse()", CP), ("text/break/space rules", CR + ":BlockRules.__init__")],
  observe=["creole.creole2html"])

p("C09", "Each macro call is executed exactly once with exactly the written arguments",
  "Every macro call in a document - self-closing tag, with a body on one line where inline markup is allowed, or block - invokes the macro of that name from the "
  "dict, object or module the caller supplied exactly once and in document order, passing the parsed keyword arguments and the stripped "
  "body as text (no text without body), and its result is inserted unescaped at that place; macros inside nowiki or "
  "escaped by a tilde are not executed.",
  ["inputs", "configurations"],
  "all documents with up to the bound many calls over macro forms, argument lists, bodies, positions and namespace kinds",
  "Tests use one or two macros; ordering, duplication and argument mix-ups need several calls in several contexts.",
  [CP, CR, HE, "creole/shared/utils.py"], [("macro_block/macro_inline/macro_tag rules", CR), ("macro_emit", HE)],
  observe=["macro callables", "creole.creole2html"])

p("C10", "A failing macro never breaks the rest of the document",
  "If any subset of a document's macro calls fails - unknown name, malformed arguments, wrong parameters, an exception in "
  "the macro, a non-string result - conversion still succeeds and everything else, including the other macros' output, is "
  "rendered exactly as without the failure; the failed call shows one escaped [Error: ...] note (nothing at verbosity 0), and a traceback is "
  "written to the given stderr only at verbosity 2.",
  ["fault_sequences", "configurations"],
  "all assignments of outcome (ok or each failure kind) to the calls of a document, all call forms and contexts, verbosity 0/1/2, dict and object namespaces",
  "Tests make one macro fail at a time in one context.",
  [HE], [("macro_emit exception handling, error()", HE)], observe=["creole.creole2html", "stderr"])

p("C11", "The table of contents lists exactly the document's headings",
  "The first <<toc>> on a line of its own in a document is replaced by a nested list with one entry per heading up to the requested depth, in document "
  "order, nested according to heading level, each entry linking to the anchor placed at its heading; further <<toc>> calls show "
  "as literal text, nowiki mentions stay untouched, and a document without <<toc>> is rendered without anchors.",
  ["inputs"],
  "all heading-level sequences up to the bound x depth argument x position and number of toc calls x heading text with special characters",
  "Tests cover three regular outlines; irregular outlines (level jumps, headings before the toc, repeated titles) are unbounded.",
  [HE], [("TableOfContent", HE)],
  state=[("headlines", "collected (level, text)", HE), ("_created", "first toc seen", HE)], observe=["creole.creole2html"])

p("C12", "HTML conversion never fails on any HTML",
  "Converting any HTML - well formed or not: unbalanced or misnested tags, cells outside tables, list items outside lists, void "
  "elements with or without slash, missing attributes, any entity or character reference, comments, truncated tags - to Creole, "
  "ReStructuredText, Textile or Markdown returns a string and never raises or hangs; the only exceptions are the documented ones "
  "(the raising unknown-tag handler, and ReST's duplicate link/image text error).",
  ["inputs"],
  "all sequences of HTML tokens (tags, attributes, references, comments, text, whitespace) up to the bound, all four targets",
  "Tests feed well-formed documents; a crash needs an unusual tag sequence.",
  [HP, BE, E_C, E_R, E_T, E_M, "creole/html_tools/strip_html.py", "creole/html_tools/deentity.py"],
  [("parser current-node stack", HP + ":handle_starttag/handle_endtag/_go_up"), ("per-node emit methods with a fallback", BE + ":emit_node")],
  observe=["creole.html2creole", "creole.html2rest", "creole.html2textile", "creole.html2markdown"])

p("C13", "HTML conversion loses, invents or reorders no text",
  "For every HTML document of complete tags, every word of its visible text, every link target and every image source and description - the longer one of alt "
  "and title - (data: URIs excepted, tables and lists included) occurs in the Creole, ReStructuredText, Textile and Markdown output exactly as often as in the "
  "document (ReST may repeat the text of a link in its target definition) and in document order, and words separated by whitespace, a line break or a block "
  "boundary are not joined.",
  ["inputs"],
  "all sequences of HTML tokens up to the bound including malformed nesting, all four targets",
  "Each emitter has its own node handlers and buffers (tables, substitutions); text is lost only in particular nestings.",
  [HP, BE, E_C, E_R, E_T, E_M, "creole/html_tools/strip_html.py"],
  [("document tree append order", HP), ("emit_children_list", BE)],
  state=[("_table", "open table buffer", BE), ("_substitution_data", "pending ReST targets", E_R)],
  observe=["creole.html2creole", "creole.html2rest", "creole.html2textile", "creole.html2markdown"])

p("C14", "HTML to Creole keeps the document structure",
  "Every HTML document built from the elements Creole can express (headings, paragraphs, line breaks, rules, nested and mixed lists, "
  "tables, links, images, all typefaces and their alias tags, inline code, preformatted text) with plain words as text converts to Creole text "
  "that renders back to the same document. (Headings hold plain text; line breaks stand between words outside of typefaces.)",
  ["inputs"],
  "all abstract documents up to the bound, with alias tags and HTML spelling variants",
  "The cross-compare tests fix about thirty documents; inter-block and inter-inline interactions are combinatorial.",
  [E_C, BE, HP, "creole/shared/markup_table.py"], [("CreoleEmitter node handlers", E_C), ("list/table helpers", BE)],
  state=[("_inner_list", "current list prefix", BE)], observe=["creole.html2creole", "creole.creole2html"])

p("C15", "HTML to ReStructuredText keeps the document structure",
  "Every HTML document built from headings, paragraphs, emphasis, strong, literals, links, images, rules, nested lists, tables and preformatted blocks "
  "with plain words as text converts to ReStructuredText that docutils accepts without any warning and that renders back to the same document, as far as ReST can "
  "express it (inline markup not nested or glued to words, no line breaks, rules only between body elements, no skipped heading level). Two links or two images "
  "with the same text (links: in any case) but different targets raise the documented Html2restException instead, and nothing else does.",
  ["inputs"],
  "all abstract documents in the ReST-expressible subset up to the bound, rendered by docutils",
  "ReST is whitespace and adornment sensitive; tests check a few texts.",
  [E_R, BE, "creole/shared/markup_table.py"], [("ReStructuredTextEmitter node handlers, substitutions", E_R)],
  state=[("_substitution_data", "pending targets", E_R), ("_list_markup", "bullet of the open list", E_R)],
  observe=["creole.html2rest", "docutils"])

p("C16", "HTML to Markdown keeps the document structure",
  "Every HTML document built from headings, paragraphs, emphasis, strong, code, code blocks with their language, links, images, rules, nested lists and tables converts to "
  "Markdown that a Markdown processor renders back to the same document (plain words as text, no line breaks, tables with a header row).",
  ["inputs"],
  "all abstract documents in the Markdown-expressible subset up to the bound, rendered by the markdown package",
  "Tests check a dozen texts.",
  [E_M, BE, "creole/shared/markup_table.py"], [("MarkdownEmitter node handlers", E_M)], observe=["creole.html2markdown"])

p("C17", "HTML to Textile keeps the document structure",
  "Every HTML document built from headings, paragraphs, the phrase elements Textile has (strong, b, em, i, sup, sub, del, ins, cite, code, span), "
  "links, images, nested lists and tables, with plain words as text, converts to Textile that a Textile processor renders back to the same document; in mixed "
  "nested lists every item gets the markers of the lists around it.",
  ["inputs"],
  "all abstract documents in the Textile-expressible subset up to the bound, rendered by the textile package",
  "Tests check about ten texts.",
  [E_T, BE, "creole/shared/markup_table.py"], [("TextileEmitter node handlers", E_T)], observe=["creole.html2textile"])

p("C18", "Tables keep every cell in its row and column",
  "An HTML table of any shape - rows of one or more cells, ragged rows, header cells anywhere, empty cells, cells with links, images or line breaks, several tables in a row - "
  "appears in the Creole, Textile, Markdown and ReStructuredText output with every cell's content in its own row and column and header cells marked where "
  "the target can mark them (ReStructuredText and Markdown: only a first row of header cells), as a well-formed table grid of that markup; a line break in a "
  "cell is written in the target's form or as a space.",
  ["inputs"],
  "all table grids up to the bound (rows x columns x cell menu), all four targets",
  "Tests use rectangular tables with a header row.",
  ["creole/shared/markup_table.py", BE, E_C, E_R, E_T, E_M], [("MarkupTable column widths", "creole/shared/markup_table.py")],
  state=[("rows", "collected cells", "creole/shared/markup_table.py")],
  observe=["creole.html2creole", "creole.html2rest", "creole.html2textile", "creole.html2markdown"])

p("C19", "Unknown HTML tags are handled exactly as the chosen policy says",
  "For every document with tags the target markup does not know: the transparent policy keeps all inner content and drops just the tags, "
  "the escape policy shows the tags as escaped text, the html-macro (or pre) policy wraps each tag in the macro so that rendering with the html macro "
  "reproduces the same tags, attributes and content, and the raising policy raises exactly when such a tag is present; known tags are never affected.",
  ["inputs", "configurations"],
  "all documents mixing known and unknown tags (nested, empty, with any attribute values) up to the bound x policies x targets",
  "Tests use two unknown tags with plain attributes.",
  ["creole/shared/unknown_tags.py", BE, "creole/shared/document_tree.py", "creole/shared/utils.py"],
  [("unknown_emit callbacks", "creole/shared/unknown_tags.py"), ("emit_node fallback", BE)],
  observe=["creole.html2creole", "creole.html2rest", "creole.html2textile", "creole.html2markdown"])

p("C20", "Character references decode to the right character everywhere",
  "Every named HTML 5 entity and every decimal or hexadecimal character reference (either case of x, any number of leading zeros) is converted to its "
  "character in running text and inside preformatted text, for all four targets (white space characters may become other white space); unknown names and impossible code "
  "points never abort the conversion or disturb the surrounding text.",
  ["inputs"],
  "all named entities of HTML 5, all code points, both radixes, contexts text/list/table/pre/code, unknown and out-of-range references",
  "Tests decode about ten references.",
  ["creole/html_tools/deentity.py", BE, HP], [("Deentity", "creole/html_tools/deentity.py"), ("charref_emit/entityref_emit", BE)],
  observe=["creole.html2creole", "creole.html2rest", "creole.html2textile", "creole.html2markdown"])

p("C21", "Source formatting of the HTML does not change the result",
  "Indentation, line breaks and runs of spaces between block tags or inside running text (outside preformatted text), upper or lower "
  "case tag names, self-closing or plain void tags, optional tbody, omitted optional end tags (of a list item, cell, row or "
  "paragraph before the next one or the end of the element around it), and LF or CRLF line ends do not change the Creole, ReStructuredText, "
  "Textile or Markdown output.",
  ["inputs"],
  "all documents up to the bound x all placements of whitespace variants at block boundaries and word gaps",
  "Tests use one indentation style.",
  ["creole/html_tools/strip_html.py", HP, HC], [("strip_html", "creole/html_tools/strip_html.py"), ("IGNORE_TAGS, br/img work-around", HP)],
  observe=["creole.html2creole", "creole.html2rest", "creole.html2textile", "creole.html2markdown"])

p("C22", "ReST to HTML conversion neither reads files nor passes raw HTML",
  "With default settings the ReST-to-HTML converter never inserts the content of a file or URL and never emits raw HTML given in the "
  "source, whatever directive, role, option or nesting is used; markup characters in the source come out escaped.",
  ["inputs"],
  "all combinations of file/raw-capable directives and roles, their options, and nesting contexts up to the bound",
  "Tests contain one include and one raw example.",
  ["creole/rest_tools/clean_writer.py"], [("file_insertion_enabled/raw_enabled overrides", "creole/rest_tools/clean_writer.py:rest2html")],
  observe=["creole.rest_tools.clean_writer.rest2html", "files opened during conversion"])

p("C23", "ReST to HTML output is clean and complete",
  "For every ReST document the generated HTML is well nested, contains no div, no class and no id attribute, and carries the same text, in the "
  "same order and with the same emphasis, list, table, heading, link and image structure as the document.",
  ["inputs"],
  "all ReST documents composed of up to the bound many constructs and nestings",
  "Tests cover single constructs; the cleaning overrides visitor pairs whose contexts nest.",
  ["creole/rest_tools/clean_writer.py"], [("CleanHTMLTranslator visit/depart overrides", "creole/rest_tools/clean_writer.py")],
  observe=["creole.rest_tools.clean_writer.rest2html"])

p("C24", "The PyPI-strict ReST renderer rejects what PyPI rejects",
  "The strict renderer returns HTML only for documents without docutils warnings in which every link and image target "
  "uses an allowed URL scheme; any other document - a disallowed or missing scheme in any kind of link in any place, a warning or error, raw "
  "HTML, file insertion - makes it raise, and valid documents are never rejected.",
  ["inputs"],
  "all documents built from link kinds x schemes x positions, and warning-provoking constructs, up to the bound",
  "Tests call it once with plain text.",
  ["creole/rest_tools/pypi_rest2html.py"], [("traverse + ALLOWED_SCHEMES, halt_level", "creole/rest_tools/pypi_rest2html.py")],
  observe=["creole.rest_tools.pypi_rest2html.pypi_rest2html"])

p("C25", "README generation converges and never leaves a stale file",
  "After updating, the generated ReST/Markdown README corresponds to the current Creole source (the up-to-date assertion "
  "passes) whatever the previous content of the generated file was, a second update reports no change and leaves the file "
  "untouched, and the assertion fails whenever the file does not correspond; a source that cannot be converted leaves the existing file as it was.",
  ["histories", "fault_sequences"],
  "all histories of source edits, updates, foreign edits of the generated file and failing sources up to the bound, both formats",
  "Tests run the update on the repository's own, already up-to-date README.",
  ["creole/setup_utils.py"], [("changed detection, note trailer", "creole/setup_utils.py:update_rst_readme/update_markdown_readme/assert_*")],
  state=[("README.rst / README.md", "generated file plus trailer", "creole/setup_utils.py")],
  observe=["creole.setup_utils.update_rst_readme", "creole.setup_utils.assert_rst_readme", "file content and mtime"])

p("C26", "The command line converts files faithfully and never destroys data on failure",
  "Each command line tool writes to the destination exactly the conversion of the source file's text, both in the given encoding, also when source and "
  "destination are the same file; if anything fails before the result is complete - missing or undecodable source, unknown codec, failing "
  "conversion, unencodable result - an existing destination and the source keep their content and the program reports failure.",
  ["fault_sequences", "inputs", "configurations"],
  "all combinations of tool, encoding, content, destination state (missing, existing, same file) and failure point",
  "Tests run one successful ASCII conversion per tool.",
  ["creole/cmdline.py"], [("CreoleCLI.convert", "creole/cmdline.py")], observe=["creole.cmdline.cli_*", "files"])

p("C27", "Conversions are independent of earlier conversions",
  "The result of every conversion depends only on its own arguments: any history of conversions before it, in any order, succeeded or failed, with "
  "shared or separate macro namespaces, leaves no trace, and the objects the caller passes in are not modified.",
  ["histories"],
  "all sequences of calls over the public converters and options up to the bound",
  "Each test makes one call and the leak shows only in the second.",
  [INIT, CP, HE, HP, BE, "creole/shared/document_tree.py"], [("fresh parser/emitter objects per call", INIT)],
  state=[("module and class attributes", "shared between calls", INIT), ("macros argument", "caller-owned", HE)],
  observe=["all public converters"])

p("C28", "Concurrent conversions do not interfere",
  "Conversions running at the same time in several threads, also when they share the same macro namespace, return the same results as when run one "
  "after the other, under every thread interleaving.",
  ["schedules"],
  "all interleavings of two (thorough: also three) conversions at function/line granularity up to the preemption bound",
  "No test uses threads.",
  [INIT, CP, HE, HP, BE, E_R], [("all state in per-call objects", INIT)],
  state=[("class-level regexes, macro namespace", "shared between threads", CP)],
  observe=["all public converters"])

p("C29", "Macro argument strings parse and print losslessly",
  "Parsing a macro argument string yields exactly the written keys with strings, integers, True, False or None as values, "
  "in any quoting style, spacing and order, with the last duplicate winning; malformed strings are rejected with ValueError and nothing else; "
  "and printing a dictionary of integers, True, False, None and strings (not spelled like one of those) gives a string that parses back to an equal dictionary, "
  "also as the arguments of a macro call.",
  ["inputs"],
  "all argument strings over the token alphabet up to the bound; all small dictionaries over the value menu",
  "Tests parse five strings.",
  ["creole/shared/utils.py"], [("shlex split, KEYWORD_MAP, int conversion", "creole/shared/utils.py:string2dict"), ("dict2string", "creole/shared/utils.py")],
  observe=["creole.shared.utils.string2dict", "creole.shared.utils.dict2string"])

p("C30", "The out-of-date report is a correct unified diff",
  "For any two texts, with or without final line end, the diff text produced applies to the old text to give the new text, is empty exactly when they "
  "are equal, and names the given file; the failing README assertions report exactly this diff from the file's text to the newly generated text.",
  ["inputs"],
  "all pairs of texts of up to the bound many lines over a small line alphabet, with and without final newline",
  "No test exists for the diff helper.",
  ["creole/shared/diff_utils.py"], [("difflib wrapper", "creole/shared/diff_utils.py:unified_diff")],
  observe=["creole.shared.diff_utils.unified_diff"])

p("C31", "Diagnostic switches never change the result",
  "Turning on debug output, or raising verbosity where no macro fails, never changes what a converter returns; without debug no converter "
  "writes anything to standard output or emits warnings.",
  ["inputs", "configurations"],
  "all documents over the Creole and HTML token alphabets up to the bound x debug flag x verbosity",
  "The tests always run with one fixed debug setting per helper.",
  [INIT, CP, HP, BE, E_M, "creole/shared/document_tree.py"], [("debug branches", HP), ("DebugList", "creole/shared/document_tree.py")],
  observe=["return values", "stdout", "warnings"])

p("C32", "Creole survives the round trip through HTML",
  "For every Creole document made of the documented constructs (headings, paragraphs, rules, lists without skipped levels, tables, nowiki, typefaces, links, images, "
  "line breaks between words) with plain words as text, converting to HTML, back to Creole and to HTML again gives the same HTML, and from then on the Creole text "
  "is stable (white space at line ends and the number of blank lines between two blocks aside).",
  ["inputs"],
  "all abstract Creole documents up to the bound, in all spelling variants",
  "Cross-compare tests fix about twenty documents.",
  [CP, HE, HP, E_C, BE], [("creole2html and html2creole are inverse on the common subset", INIT)],
  observe=["creole.creole2html", "creole.html2creole"])

p("C33", "Preformatted text survives every HTML conversion line by line",
  "A preformatted HTML block that stands on its own lines or has more than one line comes out of every HTML converter as one preformatted block with the same lines, the same indentation and "
  "the same characters (character references decoded exactly once, markup characters of the target language left alone), and the blocks before and after it stay what they are. "
  "Blank lines at its ends, and for ReStructuredText the indentation common to all lines, white space at line ends and tabs, have no meaning.",
  ["inputs"],
  "all sequences of lines (several indentations, blank lines, lines that look like markup of each target) up to the bound in several neighbourhoods",
  "Tests convert three preformatted blocks without indentation of the first line.",
  [HP, BE, E_C, E_R, E_M, E_T], [("block_re cut-out", HP), ("blockdata_pre_emit of the four emitters", E_R)],
  observe=["html2creole", "html2rest", "html2markdown", "html2textile", "their reference renderers"])

p("C34", "The bundled macros show exactly the given text",
  "For every text the html macro passes it on unchanged, and the pre and code macros produce well-formed HTML whose visible text is exactly the given text "
  "(for highlighted code: blank lines at its ends and line break tags aside), whatever string is given as extension, with and without Pygments.",
  ["inputs"],
  "all texts over a token alphabet of markup, quotes, comment starters and white space up to the bound x known and unknown extensions",
  "Tests highlight one Python snippet with one known extension.",
  ["creole/shared/example_macros.py", "creole/shared/utils.py"], [("html, pre, code", "creole/shared/example_macros.py"), ("get_pygments_lexer", "creole/shared/utils.py")],
  observe=["creole.shared.example_macros", "creole2html(macros=example_macros)"])

p("C35", "Creole reaches ReStructuredText, Markdown and Textile with its structure",
  "For every Creole document made of the constructs that the target can express (headings without skipped levels, paragraphs with several lines, rules, lists, tables with a header row, nowiki blocks, "
  "typefaces, links, images, macros) with plain words as text, creole2html followed by html2rest, html2markdown or html2textile gives text that the target's own reader accepts and shows with the same "
  "headings, paragraphs, lists, tables, preformatted blocks, typefaces, link targets and images, in the same order, as creole2html's HTML. This is how README.creole becomes README.rst and README.md.",
  ["inputs"],
  "all sequences of blocks, inline trees in all places, list outlines, heading outlines and tables up to the bound x three targets",
  "Tests convert each target from hand-written HTML; the chain is only run on the project's own README.",
  [CP, HE, HP, E_R, E_M, E_T], [("creole2html, html2rest, html2markdown, html2textile", INIT), ("README generators use the chain", "creole/setup_utils.py")],
  observe=["creole2html then html2rest read by docutils", "creole2html then html2markdown read by Python-Markdown", "creole2html then html2textile read by python-textile"])
