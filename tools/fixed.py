"""Writes the "fixed" list of known_findings.json: property, commit, what failed."""
import json
import os
F = """
C02 42d4fc1 a double quote in a link or image target was written as "&quot" without the semicolon
C02 ab7b79e the target of a sized image without title was written unescaped into its title attribute
C27 769c31d creole2html stored its table of contents in the dict or object the caller passed as macros, the next document with <<toc>> showed the headlines of the first
C02 bd9db3b headline text was written unescaped into the table of contents and its anchors
C11 33b9419 <<toc depth=1>> listed deeper headlines that stand before it; a bad depth raised out of creole2html
C10 d967ad2 the message of a failed macro was written unescaped
C02 3f6f0e9 seven or more = made an <h7> element
C03 d741315 the line break before the continuation line of a list item was lost and the words were joined
C08 74658cb in wiki line break mode a block directly after a text line was treated as text
C05 2814765 a forced line break at the end of a typeface was lost
C13 83f5e0e a HTML end tag closed whatever element was open, the rest was lost or put in the wrong place
C13 b7861ac <hr> and other void elements without slash swallowed the following content
C13 b907975 the end of incomplete HTML code was lost
C13 2a989ba a '&' that starts no reference made the rest of the document vanish
C20 0b82689 impossible, unknown and upper case character references raised or were wrong
C12 681df9b a tag named like the internal <pre> placeholders raised
C12 ab834ce <data> and other tags named like an internal node kind raised
C12 45041be table cells outside of a table raised, text in tables outside of the cells was lost
C13 f024ce0 omitted end tags of p, li, td, th and tr joined or nested the following elements
C12 add23e4 <a> without href, <img> without src and attributes without value raised
C19 26d6a74 attributes of unknown tags were written with a JSON or Python spelling instead of as HTML attributes
C16 ee0d699 html2markdown quoted links that are already quoted a second time
C15 bf37ea7 html2rest: items after a nested list got the list markup of the nested list
C12 d22e2af html2markdown: <li> outside of a list raised
C13 020fedd html2markdown: content of <pre><code> was lost
C18 f988f66 cells of rows with more cells than the first row were lost
C26 78884bd the command line tools emptied the destination before the source was read and converted
C30 3f3290b unified_diff joined the last lines of texts without newline at the end
C25 7a55899 get_long_description called html2rest with an argument it does not have
C25 cdb1c9b README update did not notice a changed end of the file and failed if the file does not exist
C04 ab68c61 a list of the other kind on the same level was merged; items after a skipped level went to the wrong level
C04 2be874d a blank line with spaces did not separate tables
C04 6448b21 the closing = of a table header followed by white space was shown as text
C06 de2daa4 blank lines at the start of a nowiki block were lost
C06 231c3c1 a pipe in inline nowiki of a table cell ended the cell
C07 3448337 an escaped pipe ended the table cell
C08 58b03e2 a line break after a backslash was lost
C12 b0bbf7b <li/> raised
C12 0c024e3 a lone surrogate in a link of html2markdown raised
C12 ee8c2f1 html2rest output grew exponentially with nested headlines or tables
C13 6e4e4a2 text was joined with the text of a block next to it
C13 747b6c8 white space around stray end tags was lost and the words joined
C17 c272558 <ins> was treated as a block element
C13 3df6f47 html2markdown lost the title of an image without alt
C13 6161e7e html2markdown lost the space between inline elements
C15 cc628ed html2rest wrote link definitions in the middle of a line
C05 ebf7f60 links, images and macros with a pipe in table header cells were cut at the pipe
C14 c754b74 two tables in a row became one
C15 13f8e4a html2rest: headlines with less than four characters were no headlines
C17 d02009c html2textile joined a table with the block after it
C17 6c01038 html2textile: emphasis or image at the edge of a cell was not recognised
C18 92013fd header rows below the first row, empty header cells and wide characters broke the table grid
C18 782a3e0 line breaks in cells and lists ended the cell or item
C13 6998faa text of HTML 5 sections was joined with the text before and after
C14 549abd8 tables and blocks in containers were joined with the block before
C19 5c5dd21 <pre> with attributes or in upper case was not preformatted
C20 a7c70bc &apos; and other HTML 5 entities were not decoded
C20 86d6719 references after an unclosed <script> were kept apart from the text
C21 df20b78 white space around tags, tag case, CRLF and void tags without slash changed the result
C21 f206f49 white space around HTML 5 section tags, thead and tbody changed the result
C12 04df133 strip_html needed quadratic time for incomplete tags
C23 3a88a48 rest2html left single </div> tags, class and ids attributes and joined the text of quotes
C22 dd2f8fd rest2html passed HTML tags and attributes through in formulas
C25 b755232 get_long_description silently dropped an incomplete character at the end of the README
C26 97fa12a the command line tools silently dropped an incomplete character at the end of the source
C25 395bb75 README update left an empty file which the up-to-date assertion rejects
C27 c60dc5a roles defined in a ReST document were known in later documents
C29 cf0d7e1 dict2string wrote non-ASCII and control characters as JSON escapes and True, False, None as true, false, null, which string2dict does not read
C32 8bc3e5f inline code was lost by html2creole: {{{**x**}}} came back as bold text
C13 ba9c988 HTML converters lost backslashes at the edges of table cells and containers
C33 d83e254 html2rest lost the indentation of the first line of preformatted text
C33 a7bd539 html2textile joined preformatted text with the following block
C34 d4ecff4 the code macro failed with unknown extensions
C13 5e2a5cb an image whose file is called "data" was left out
C15 de348f7 two link texts which differ only in upper/lower case gave a document with a duplicate target name
C13 ade8a91 white space references at the edges of links, code, spans and unknown tags were lost, the words joined
C15 6a960ed an image was lost if its alt text starts or ends with white space
C19 6a7075c html2markdown took a <list> tag for a known one
C09 cb1edef a tag followed by a call with body of a macro whose name is the beginning of the first tag's
C33 7cf4315 two <pre> blocks whose end and start tag are in one line were joined with everything between them
C33 2a4cf3d <pre> with more than one line which does not stand on its own lines was no preformatted block (Creole, ReST, Markdown) and its line breaks could become backslashes
C16 3e980ce the language of a code block with more than one class was wrong or lost
C15 cb5261f a relative URL which ends with an underscore was taken for the name of another target
C13 221cafa an image without source was replaced by the shorter one of its descriptions (Markdown)
C13 92c78eb text before and after dialog, dir, hgroup and menu was joined with the text in these
"""
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
d["fixed"] = ["fixed: property=%s %s %s" % tuple(x.split(" ", 2)) for x in F.strip().splitlines()]
with open(p, "w") as f:
    json.dump(d, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(d["fixed"]))
