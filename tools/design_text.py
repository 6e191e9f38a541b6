"""The hand-written part of DESIGN.md (see design.py)."""

HEAD = r"""
# Model checking python-creole

(Generated by `tools/design.py` from `tools/design_text.py`, the check modules and the evidence of the last quick runs.)

## Approach

python-creole is a sequential library: text in, text out, plus a small file layer (README generation, command line) and the possibility of calling it from several threads.
The family of technique is model checking of the *implementation*: for each property a finite space of behaviours is fixed (an alphabet of input tokens or constructs with a length or size bound, all
histories of calls up to a depth, all fault points of a history, all schedules up to a preemption bound), **every** element of it is executed on the real code in /repo, and the observed behaviour is
judged by an independent reference model or invariant written for the check. Nothing is sampled, nothing depends on time or `VERIF_SEED`; no element is skipped for time, a space is always finished.
Elements are generated shortest first, so a counterexample is the smallest one of its space.

How the models are bound to the code: there is no separate abstract model that could drift from the code and would have to be re-validated. Reference models (expected HTML tree of an abstract document,
argument parser, table of contents, file states) are executed side by side with the implementation on every explored element; `traces_validated_against_impl` in the evidence is the number of
implementation runs whose complete observed result was compared with the model's (or, for pure invariants, decided by it). For threads (C28) the exploration runs the real code under a controlled scheduler.

Why no TLA+/Spin/CBMC model: the state of this code is text and trees of text, its transition relation is about 60 regular expressions and the handlers bound to them. A model of it in those languages
would be a second implementation whose conformance would have to be checked by exactly the enumeration done here, against the code, directly.

## Machinery

* `check` `Cxx [--replay FILE]`: one property; imports /repo's working tree through a private, empty byte code cache, so it always sees the current source. Exit 0 / 1 (+ `VIOLATION` line and replay file) /
  3 (the check itself could not run: no verdict).
* `mc/engine.py` explorer: numbered spaces split over the processes by item number, minimal counterexamples, replay files, evidence, known findings, a per-item horizon (an unanswered
  call is a violation, not a hang of the check). An exception which passed through /repo code is a violation, so is an answer the judge can not read; any other exception is an error of the check.
* `mc/htm.py` readers of HTML for the oracles: a strict one (nesting, content model, escaping) and a tolerant one (canonical tree).
* `mc/ast.py`, `mc/doc.py`: abstract Creole documents - exhaustive generators by size, independent printers to all Creole spellings, expected HTML trees. `mc/hdoc.py`: the same for HTML documents.
* `mc/scale.py`: every construct repeated, nested, widened or lengthened n times for every n up to a bound and around powers of two and ten (thresholds, buffers, widths).
* `mc/links.py`: links and images with every relation between text and target (same, prefix, file name, case, slash, ...), all pairs of alt text and title.
* `mc/conv.py`, `mc/rst.py`, `mc/rstdoc.py`: the four HTML converters; docutils trees and warnings; ReST constructs.
* `mc/sched.py`: controlled scheduler for threads: every call, line, return or byte code instruction of /repo code is a scheduling point, preemption-bounded exhaustive exploration.
* `props/cNN.py`: one module per property with `spaces(tier)`.
* `tools/mutate.py`: mechanical mutants of /repo (operators, conditions, constants, regular expressions, dropped statements); which survive the tests, and which of those no check reports (used to find gaps, not registered).
* `tools/mkseeds.py`: planted bugs, see the table below.

No hooks in /repo: the checks drive public interfaces (`creole`, `creole.cmdline`, `creole.setup_utils`, `creole.rest_tools`, the emitters and parsers as the package documents them).
Destructive effects: only C25 and C26 write files, below a temporary directory which each check creates and removes; full disks are simulated with RLIMIT_FSIZE in a child process; C22's documents which ask for
files point at a secret file in such a directory and at existing world readable files, opened files are recorded by an audit hook.
"""

TEXT = {
    "C01": {
        "oracle": "The call returns a `str` within the horizon and raises nothing. Options (both line-break modes, strict, verbosity 0-2, macro namespaces None/dict/object/module) are part of the space.",
        "why": "All combinations of up to three (four, five for structural tokens) delimiters include every unclosed, overlapping and mis-nested pair and triple; the handlers only misbehave on such combinations. Pumped words show runaway backtracking as a horizon overrun.",
        "limits": "Nesting stays below Python's recursion limit."},
    "C02": {
        "oracle": "A strict HTML reader of the check (no parser of the code): tags properly nested, only documented elements/attributes, content model (no block in inline, li only in lists ...), every source `<`, `>`, `&` escaped exactly once, attribute values and text decode to what was written.",
        "why": "Injection needs one character in one unusual context; the space is the full product of dangerous tokens and contexts (35 contexts x all words), and of characters and contexts."},
    "C03": {
        "oracle": "Every word carries a serial number; the words read from the output (text, href, src, alt) must be those of the input once each and in order, separated wherever white space separated them; characters which are no markup must appear.",
        "why": "Loss, joins and exchanges depend on the construct before and after; all sequences of tokens/lines are run, in both line-break modes."},
    "C04": {
        "oracle": "Abstract documents print to Creole in all optional spellings (closing marks, white space, blank lines) and to an expected HTML tree; the tree read from the output must be equal.",
        "why": "What closes what, and to which level a list returns, is combinatorial: all pairs, triples and quadruples of block variants, all list outlines to 5 items, all table grids."},
    "C05": {
        "oracle": "Expected tree of the abstract inline tree, in each containing context.",
        "why": "All nestings of 8 typefaces and 10 leaves to 3-4 nodes in 8 contexts, every punctuation character at every position next to and inside of every inline element, every relation between link text and target.",
        "limits": "Neighbours excluded because Creole gives them a meaning: the markup's own character, `~` before, `:` before `//`, `://`, `~|` in cells."},
    "C06": {
        "oracle": "The text of the `pre`/`code` element must equal the written content character for character (minus the documented tilde), the surroundings must be rendered as without it.",
        "why": "Contents are all token sequences, including every delimiter of every other rule, macros and unbalanced braces."},
    "C07": {
        "oracle": "The output's text must equal the text without the inserted tildes, and hold no element other than the context's.",
        "why": "Full product of characters/fragments x contexts; every escaped construct in every place."},
    "C08": {
        "oracle": "Metamorphic: all assignments of LF/CR/CRLF to the line ends of a text give the HTML of the LF text; blog and wiki mode differ in `<br />` vs. a space only; exact positions of line breaks in running text by a model.",
        "why": "Regexes with ^, $, \\s behave differently per context; every assignment of line ends to every text is run."},
    "C09": {
        "oracle": "Recording macros; the model predicts the list of calls (name, arguments, body), their order, and where their result stands in the output.",
        "why": "Duplications and mix-ups need several calls, forms and contexts: all pairs and triples of calls, every form x argument list x body x place."},
    "C10": {
        "oracle": "The output with failing calls equals the output in which each failing call is replaced by its error note (escaped) and everything else unchanged; stderr holds a traceback exactly at verbosity 2.",
        "why": "All assignments of outcomes (28 kinds of failure and success) to the calls of documents with up to three calls: a fault enumeration over call positions.",
        "limits": "F24 (known finding). Macro output that contains `<<toc>>` unclaimed; BaseException (KeyboardInterrupt) passes through by design."},
    "C11": {
        "oracle": "A model of the table of contents (stack of levels) written from the README and the tests; entries, nesting, links and anchors are compared, second calls must be literal.",
        "why": "Irregular outlines: all sequences of heading levels x every toc position x every depth spelling."},
    "C12": {
        "oracle": "A string within the horizon; only the two documented exceptions where they are documented.",
        "why": "All sequences of HTML tokens to 2-4 tokens with all kinds of malformed nesting, every element name, every code point, all frames of broken syntax, all unknown-tag policies.",
        "limits": "Nesting stays below Python's recursion limit."},
    "C13": {
        "oracle": "Every word, link target and image carries a serial number; each must occur in the output exactly once (ReST definitions aside) and in order; words separated in the document stay separated.",
        "why": "All words of tokens including every mis-nesting, with and without text and white space (and references to white space) in every gap, for all four targets.",
        "limits": "Text in a table outside of its cells and data: URIs are out of scope; ReST's documented duplicate name exception is accepted."},
    "C14": {
        "oracle": "html2creole, then creole2html (C04/C05 decide that one independently), then the canonical tree must equal that of the document. Alias tags and HTML spellings map to one canonical tree.",
        "why": "Interactions between blocks, nested lists and inline elements: all trees/outlines/sequences to the bound.",
        "limits": "F23 (pinned by two tests) is a known finding. Text that contains Creole markup characters is not escaped by html2creole, so words only. Headings hold plain text, `<br>` inside of a typeface has no Creole form; literal `\\\\` at a cell's edge counts as a line break."},
    "C15": {
        "oracle": "docutils parses the result without any warning; the doctree mapped to HTML-like trees equals the document's tree.",
        "why": "Indentation, blank lines, adornment lengths and substitution definitions depend on neighbours and sizes; all sequences/outlines/tables, names equal up to case or white space, all sizes.",
        "limits": "ReST expresses no nested or glued inline markup, no line breaks in headings, no targets with spaces; text with ReST markup characters is not escaped by html2rest: words only."},
    "C16": {
        "oracle": "The `markdown` package (installed, independent of /repo) renders the result; canonical trees are compared (paragraphs in loose list items ignored).",
        "why": "As C14/C15: all trees, outlines, tables, sequences, sizes.",
        "limits": "html2markdown indents nested lists by 2 columns (pinned): rendered with tab_length=2. No `_` emphasis inside of words, adjacent lists of one kind merge, targets are percent-encoded (documented quote_link)."},
    "C17": {
        "oracle": "The `textile` package renders the result; canonical trees are compared; for mixed nested lists, which python-textile cannot read, a reader of the check compares the written markers.",
        "why": "As C14/C15.",
        "limits": "Textile has no rule element; python-textile knows no blank lines in `<pre>`, no news: links, wraps upper case words in span caps."},
    "C18": {
        "oracle": "Small readers of the check for the four table syntaxes (no renderer involved): each cell's content in its row and column, header marks, ReST grid lines aligned by column width (wide characters count two).",
        "why": "All ragged shapes to 3x3 with every choice of header cells, all cell contents in all positions, several tables in a row, all sizes.",
        "limits": "Nested tables, rows without cells and combining characters in ReST tables are excluded."},
    "C19": {
        "oracle": "An independent printer gives, for each document with unknown tags and each policy, the document the result must be equivalent to (tags dropped; tags as escaped text; html macro calls that render back to the same tags and attributes; exception exactly if an unknown tag exists).",
        "why": "All trees of known and unknown tags x attribute lists (every special character) x policies x targets.",
        "limits": "The macro policy needs text around the tag; block content in unknown tags is not claimed for the macro policy. Transparent output is compared with `\\\\` and newline taken as equal in Creole."},
    "C20": {
        "oracle": "Every code point and every named reference must come out as its character (white space as some white space); surrounding words unchanged.",
        "why": "Exhaustive over all 1,114,112 code points, both radixes, all 2,125 names, all contexts."},
    "C21": {
        "oracle": "Metamorphic: the result for the reformatted document equals that of the plain one (text compared with white space normalised only where the target has it free).",
        "why": "Every single site x every spelling, every pair of sites in small documents, all sites at once, every set of optional end tags.",
        "limits": "An omitted </p> before a block element which is no paragraph is not claimed."},
    "C22": {
        "oracle": "A secret file's content never occurs in the output, no file below the check's directory and no URL is opened (audit hook), no tag or attribute from the source passes; markup characters come out escaped.",
        "why": "The full product of all docutils directives and roles x options x path spellings x containers; tests contain one include and one raw.",
        "limits": "docutils may look for its own configuration files (docutils.conf)."},
    "C23": {
        "oracle": "docutils' own html4css1 writer gives the reference tree; without class/id/div and with wrappers that carry no structure removed it must equal the cleaned output. Nesting by the strict reader.",
        "why": "The translator overrides visitor pairs whose contexts nest: all pairs of 115 block constructs, all nestings two deep, all pairs of inline constructs in 26 contexts.",
        "limits": "Paragraph, quote, span, thead and col wrappers are not compared; docutils hangs on target-notes + image :target: name."},
    "C24": {
        "oracle": "A classifier of the check: each document is built from links with known schemes in known places; accepted exactly when all are allowed and docutils itself emits no warning.",
        "why": "28 kinds of links x 44 positions x 52 targets; nested two deep; pairs.",
        "limits": "Warnings about unknown Pygments lexers are ignored; raw HTML of math excluded."},
    "C25": {
        "oracle": "A model of the file's state: after an update the body must be the conversion of the current source, a second update must not write, the assertion passes exactly when the body corresponds; a failing conversion leaves the bytes.",
        "why": "All histories of source edits, foreign edits, updates, checks and time stamps to depth 2-3; every third prefix of a torn file, every failing write position (RLIMIT_FSIZE) - crash points of the write.",
        "limits": "An empty source is invalid for the ReST format; undecided when foreign text after the README's body is not the note."},
    "C26": {
        "oracle": "The destination holds exactly encode(convert(decode(source))); on failure destination and source keep their bytes and the exit status is not 0.",
        "why": "All tools x codecs x contents x kinds of destination (same file, symlink, hard link, dangling, relative, directory) x failure points, including every byte at which the source may be cut and writes that fail after n bytes.",
        "limits": "A failing write (disk full) need only be reported."},
    "C27": {
        "oracle": "Each call's result, alone in a new process, is the reference; the same call at the end of any history must give it; arguments are deep-compared before and after.",
        "why": "All ordered pairs of 166 calls (converters, options, succeeding and failing), all triples of 12, short texts of one markup one after the other."},
    "C28": {
        "oracle": "Each thread's result equals the sequential one, for every explored schedule; no exception, no deadlock.",
        "why": "Scheduling points at every call, line, return and (one space) every byte code instruction of /repo code; one preemption everywhere, two preemptions at calls and returns, three threads in the thorough tier; also in processes where nothing was converted before (lazy initialisation).",
        "limits": "Threads are preempted in creole's files only; rest2html is serialised by a lock of its own."},
    "C29": {
        "oracle": "An independent parser of shell words and key=value lists; dictionaries must survive print and parse.",
        "why": "All strings over the syntax characters to length 5-7, all lists of argument spellings.",
        "limits": "Strings that look like integers when printed are unspecified; arguments that end in `/` belong to self-closing tags."},
    "C30": {
        "oracle": "A reader of unified diffs applies the hunks (checking every context line and line number) to the old text and must give the new one; names in the header; the README assertion's report must be this diff.",
        "why": "All pairs of texts of up to 6 lines over 2 lines with and without final newline, odd line ends, far apart edits (several hunks)."},
    "C31": {
        "oracle": "Metamorphic: the same call with debug on/off and every verbosity returns the same; without debug nothing is written to stdout and no warning emitted.",
        "why": "Debug branches run in the middle of parsing; all token words and documents are converted both ways.",
        "limits": "Verbosity 2 adds details to error messages of failing macros (documented)."},
    "C32": {
        "oracle": "HTML of the document = HTML after Creole -> HTML -> Creole; the second Creole text is a fixed point.",
        "why": "The inverse property over all abstract documents in all spellings; each direction alone may hide an error.",
        "limits": "No skipped list levels, no `|` in nowiki in cells, wiki mode excluded, number of blank lines between blocks ignored; F23b known."},
    "C33": {
        "oracle": "The target's reference renderer (creole2html, docutils, markdown, textile) must give one `pre` block with the same lines, and the neighbours unchanged.",
        "why": "All sequences of lines that look like each target's markup, all indentations, blank lines and neighbourhoods.",
        "limits": "ReST has no trailing white space, tabs and common indentation; python-textile no blank lines in pre. A single-line `<pre>` inside a line stays inline (pinned by a test); tags inside `<pre>` are text, except `<pre><code>` in Markdown."},
    "C34": {
        "oracle": "The HTML read strictly; its text equals the given text; html macro output equals it.",
        "why": "All texts over markup, quotes, comment starters, white space x extensions, with and without Pygments.",
        "limits": "Highlighted code ends each line with `<br />` (pinned by a test); extensions are strings; inline macros do not span lines."},
    "C35": {
        "oracle": "creole2html's HTML and the target's reader (docutils, Python-Markdown, python-textile) must give the same canonical tree (the comparisons of C15-C17).",
        "why": "Each converter alone is tested with HTML as a person writes it; the chain sees the HTML that creole2html writes (its indentation, `<tt>`, escaped texts), for every sequence of blocks.",
        "limits": "As C15-C17; no rule in Textile, no rule at the edges of a ReST document, two lists of one kind in a row are one, links without text excluded for ReST (documented duplicate names)."},
}

TAIL = r"""
## False alarms that were corrected

* C03/C05: neighbours of inline markup that Creole itself defines (a third `*`, `:` before `//`, `~`) were taken for text; excluded by rule, not by input.
* C19: the transparent policy was compared byte for byte although `\\` and a newline are the same line break in Creole cells and items.
* C31: verbosity 2 documents more detail in macro error notes; compared without failing macros.
* C32: the number of blank lines between two blocks is not part of the document; ignored.
* C15: two links with one text and different targets is a documented exception of html2rest; the check now demands it there and only there.
* C22: docutils looks for docutils.conf; such reads are no insertion of content.
* C24: an unknown Pygments lexer gives a docutils warning that PyPI ignores as well.
* C18: the reader of Textile tables took `7.5` in a cell for a cell attribute; python-textile needs a space after the dot and a slash or backslash before the number. The reader follows it now.

## Not applicable

None: every property is decided by exhaustive exploration within its bounds. What the bounds leave out is listed under *Limits*.
"""
