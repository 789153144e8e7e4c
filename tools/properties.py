#!/usr/bin/env python3
"""Source of properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "vimwiki-core/src/"
PB = C + "lang/parsers/vimwiki/blocks/"
EB = C + "lang/elements/blocks/"
OUT = []


def P(id, title, statement, over, text, why, files, mech, observe=None):
    OUT.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe or [], "hook_needed": None},
    })


P("P01", "Every text parses into a page",
  "Parsing any text as a vimwiki page terminates and yields a page. It never reports an error, never panics and never loops, whatever characters the text consists of.",
  ["inputs"], "every UTF-8 text",
  "The tests parse some hundred fixed texts; a text that trips an index, an arithmetic check, a unicode boundary or an unproductive loop is found only by considering all texts.",
  [PB + "mod.rs", C + "lang/parsers/mod.rs", C + "lang/parsers/utils", C + "lang/parsers/vimwiki/mod.rs"],
  [("page parser: blank lines or block elements until nothing is left", C + "lang/parsers/vimwiki/mod.rs"),
   ("paragraph as the fallback of every block", PB + "mod.rs, " + PB + "paragraphs.rs"),
   ("span arithmetic", C + "lang/parsers/span.rs")],
  ["Language::from_vimwiki_str(..).parse::<Page>()"])

P("P02", "Every parsed page renders, as vimwiki, as HTML and as an HTML page",
  "A page obtained by parsing can be written back as vimwiki text and as HTML (a fragment or a whole page) without an error and without a panic. The one exception is a link into another wiki that the configuration does not contain, which HTML output reports as such.",
  ["inputs", "configurations"], "every UTF-8 text, parsed, and each output format",
  "Tests render hand-made elements; which combination of parsed elements makes a formatter fail or panic (ragged tables, unusual links, empty parts) depends on the whole input space.",
  [C + "lang/output/vimwiki/mod.rs", C + "lang/output/html/mod.rs", C + "lang/output/html/utils.rs", C + "lang/output/html/convert.rs"],
  [("per-element output implementations", C + "lang/output/vimwiki/mod.rs, " + C + "lang/output/html/mod.rs"),
   ("link resolution", C + "lang/output/html/utils.rs")],
  ["to_vimwiki_string", "to_html_string", "to_html_page"])

P("P03", "Element regions are nested, ordered and cover the text",
  "Every element of a parsed page carries a region of the source text that lies inside the region of its parent and begins and ends between characters; the regions of siblings do not overlap and follow the order of the elements. Only white space lies outside the regions of the top-level elements.",
  ["inputs"], "every UTF-8 text; all elements of the resulting page at every depth",
  "Editors use the regions to find what is under the cursor; tests compare the regions of a few elements of fixed texts, whereas each combination of element, nesting, line ending and multi-byte character computes its own offsets.",
  [C + "lang/parsers/span.rs", C + "lang/parsers/utils/mod.rs", C + "lang/elements/utils", PB],
  [("capture of the consumed span around each parser", C + "lang/parsers/utils"),
   ("offset and length of spans", C + "lang/parsers/span.rs")],
  ["Located::region of every element"])

P("P04", "Inline content is exactly what the text says",
  "Reading the inline elements of any part of a page in order reproduces its source: neighbouring elements leave no gap and no overlap, a text element holds precisely the characters at its place, code, math, tags, keywords, comments, links and decorated text consist of their markers and the characters between them, and between the lines of a paragraph there is nothing but blanks and one line end. No character of the text is lost, duplicated or altered.",
  ["inputs"], "every UTF-8 text; all inline elements of the resulting page at every depth",
  "Each parser skips, trims and back-tracks on its own; losing one character needs a particular neighbourhood of markers, white space and line ends that a handful of fixed lines does not contain.",
  [PB + "inline", PB + "paragraphs.rs", C + "lang/parsers/utils"],
  [("text as whatever the other inline parsers do not take", PB + "inline/typefaces.rs"),
   ("order of the inline parsers", PB + "inline/mod.rs"), ("line splitting", C + "lang/parsers/utils/bytes.rs")],
  ["InlineElementContainer of every block"])

P("P05", "Formatting keeps the page and is idempotent",
  "Writing a parsed page as vimwiki text and parsing that text gives a page with the same elements, nesting and contents up to white space, and writing that page again gives the very same text.",
  ["inputs"], "every UTF-8 text within the stated exclusions (white space whose removal turns text into markup, constructs the format cannot express)",
  "Tests write hand-made elements and compare strings; they never read the result back, and whether a particular element survives depends on its contents and its neighbours.",
  [C + "lang/output/vimwiki/mod.rs", C + "lang/output/vimwiki/formatter.rs", PB],
  [("per-element vimwiki output", C + "lang/output/vimwiki/mod.rs"), ("indentation and trimming", C + "lang/output/vimwiki/formatter.rs"),
   ("block and inline parsers", PB)],
  ["to_vimwiki_string", "Page"])

P("P07", "HTML shows every element as documented, with its contents escaped",
  "The HTML of a page is the sequence of its elements, each rendered as documented: headers at their level, paragraphs with their lines joined by a blank or a line break, ordered and unordered lists with the classes of their todo items, tables with header, body and row and column spans, definition lists, block quotes in groups, preformatted code with its language and attributes, math, typefaces, tags, keywords, links and images. All characters of their contents appear in order and with HTML's special characters escaped; comments appear only if the configuration says so; placeholders do not appear.",
  ["inputs", "configurations"], "every UTF-8 text, parsed; comments and line ends per configuration",
  "Tests compare the HTML of single hand-made elements; what nested and unusual combinations and special characters turn into is left open.",
  [C + "lang/output/html/mod.rs", C + "lang/output/html/formatter.rs"],
  [("per-element HTML output", C + "lang/output/html/mod.rs"), ("table rows, spans and dividers", EB + "tables.rs")],
  ["to_html_string"])

P("P08", "HTML is well formed and its ids are unique",
  "Whatever text a page consists of, its HTML contains only the elements the renderer produces, all of them properly nested and closed, with all attribute values quoted: no character of the text can open or close a tag or end an attribute. No two elements of the page carry the same id as long as no heading, tag or bold text ends in a dash and a number.",
  ["inputs"], "every UTF-8 text, parsed (comments are not included in the output)",
  "Escaping has to happen at each of some thirty places where text reaches the output; a test needs the special character at exactly the place where it is forgotten.",
  [C + "lang/output/html/mod.rs", C + "lang/output/html/formatter.rs", C + "lang/output/html/utils.rs"],
  [("escaping at each place text is written", C + "lang/output/html/mod.rs"), ("unique ids", C + "lang/output/html/formatter.rs")],
  ["to_html_string"])

P("P06", "Line ends of both kinds mean the same",
  "A text whose line ends are CRLF, all or some of them, means what the text with LF means: the elements of the page, their nesting and their contents are the same.",
  ["inputs"], "every UTF-8 text without other carriage returns; any choice of line ends turned into CRLF",
  "Line ends are recognized in dozens of parsers; forgetting CRLF in one of them shows only for a line end at a particular place of a particular element.",
  [C + "lang/parsers/utils/line.rs", C + "lang/parsers/utils/bytes.rs", PB],
  [("end of line parser", C + "lang/parsers/utils/line.rs"), ("taking a line", C + "lang/parsers/utils/bytes.rs")],
  ["Page"])

P("P09", "Copies of elements are the elements",
  "Cloning a page or an element, borrowing from it, or turning it into one that owns its data changes nothing: elements, contents and regions stay the same at every depth, and the copy equals the original, strictly as well.",
  ["inputs"], "every UTF-8 text, parsed; clone, to_borrowed, into_owned in any combination",
  "There are some forty hand-written conversions; dropping a field or a region in one of them shows only for an element that has it.",
  [C + "lang/elements", EB],
  [("to_borrowed and into_owned of each element", C + "lang/elements"), ("Located conversions", C + "lang/elements/utils")],
  ["to_borrowed", "into_owned", "Clone"])

P("P10", "Equality, strict equality and hashing agree",
  "Two pages are equal exactly if they have the same elements, nesting and contents, wherever they stand in their texts, and strictly equal exactly if they stand at the same places as well. Equality is reflexive and symmetric, and equal elements hash alike.",
  ["inputs"], "every pair of UTF-8 texts, parsed",
  "A field left out of one of the hand-written comparisons shows only for two elements that differ in just that field.",
  [C + "lang/elements", C + "lang/elements/utils"],
  [("equality and hash of located elements", C + "lang/elements"), ("strict equality per element", C + "lang/elements")],
  ["PartialEq", "Hash", "StrictEq"])

P("P11", "Pages survive serialization",
  "A page written as JSON, pretty or compact, can be read back from memory and from a stream, and is the same page, regions included.",
  ["inputs"], "every UTF-8 text, parsed",
  "The command line tool keeps parsed pages as JSON; whether each kind of element with each kind of content survives escapes, map keys and borrowed strings is not sampled by tests at all.",
  [C + "lang/elements", "vimwiki-cli/src/ast.rs"],
  [("derived and hand-written serialization of elements", C + "lang/elements")],
  ["serde_json::to_string_pretty", "serde_json::from_reader"])

P("P12", "Lists are what their lines say",
  "Each line that begins with a marker and a blank is an item of a list, its marker read as written: hyphens, asterisks, numbers, letters and roman numerals with their suffix, and todo boxes. Items of equal indentation form one list, deeper ones a list within the item above. The prefix an item would be written with is one that is read back as that type at that position, and the progress of a todo item is that of its sub-items.",
  ["inputs", "positions"], "every UTF-8 text; every position of an item below the stated limits; every tree of todo items",
  "Which marker a text such as `ci.` is, and what happens to lists that change their indentation, are questions for each of many combinations; numbering has to hold for every position.",
  [PB + "lists.rs", EB + "lists"],
  [("list parser", PB + "lists.rs"), ("item types, prefixes and normalization", EB + "lists/item.rs"), ("todo progress", EB + "lists/item.rs")],
  ["List", "ListItem"])

P("P13", "Tables are the grids their lines say",
  "A row of a table consists of the texts between its pipes, a cell being a span, a column alignment or content; rows need not have the same length. Header, body, dividers, column alignments and row and column spans follow from the rows as documented, and every iterator over a table (rows, columns, cells; forwards, backwards, with its size) yields the same cells, at their positions, in order and exactly once.",
  ["inputs"], "every UTF-8 text; every grid of spans, contents and alignments within the stated sizes",
  "Ragged rows, spans at the edge, dividers at unusual places and tables that are empty in one direction multiply; tests contain a few regular ones.",
  [PB + "tables.rs", EB + "tables.rs"],
  [("table parser", PB + "tables.rs"), ("table queries and iterators", EB + "tables.rs")],
  ["Table"])

P("P16", "Links of HTML lead to the pages they name",
  "The address a link has in the HTML of a page, followed by a browser from where that page is written to, is the place where the page the link names is written to: relative links start at the directory of the page, absolute ones at the root of the wiki, links to directories lead to their index page, links into other wikis to the output of that wiki, diary links to the page of that date, and the anchors follow as one fragment. Addresses of the web, mail and images are kept.",
  ["inputs", "configurations"], "every link text; pages at any depth, inside and outside of the configured wikis",
  "Path normalization, extension replacement, wiki roots and anchors meet in one function; tests follow a few plain links.",
  [C + "lang/output/html/utils.rs", C + "lang/output/html/config.rs", EB + "inline/links"],
  [("link resolution", C + "lang/output/html/utils.rs"), ("output path of pages", C + "lang/output/html/config.rs")],
  ["href and src attributes of to_html_string"])

P("P14", "Regions are half-open intervals of bytes",
  "A region built from any range, or from an offset and a length, contains exactly the positions of that range; its length, emptiness, offsets, depth and display text say the same, nothing panics even at the ends of the address space; located values equal, order, hash, dereference, map and convert as their inner value does, keeping region and depth, while strict equality also compares the region.",
  ["inputs"], "all offsets, lengths, depths and positions; all kinds of ranges",
  "Unit tests use small numbers; conversions of inclusive ranges overflow only at the end of the address space.",
  [C + "lang/elements/utils/region.rs", C + "lang/elements/utils/mod.rs"],
  [("interval arithmetic", C + "lang/elements/utils/region.rs")],
  ["Region, Located"])

P("P17", "Blocks are what their lines say",
  "Which block elements a page has, where they begin and end and what they hold follow from its lines alone: headers (level, centring, content), definition lists, lists and their items, tables, code and math blocks (language, environment, lines), blockquotes, dividers, placeholders and dates, and paragraphs of what is left, with LF and CRLF line ends alike.",
  ["inputs"], "every text; line ends LF and CRLF",
  "Blocks are tried in a fixed order, each parser guessing where it ends; every change of one parser moves text between kinds. Tests show each kind alone.",
  ["vimwiki-core/src/lang/parsers/vimwiki/blocks", "vimwiki-core/src/lang/parsers/utils"],
  [("block parsers", "vimwiki-core/src/lang/parsers/vimwiki/blocks/mod.rs"), ("line utilities", "vimwiki-core/src/lang/parsers/utils/line.rs")],
  ["Page.elements of a parsed text against an independent line-based reading"])

P("P23", "Inline markup is where the format puts it",
  "Within each run of inline content the elements follow each other without gap, and each is the one the format's markup puts there: comments to the end of the line, math and code between their delimiters, tags as whole words of colons, links by their brackets or by scheme, decorations between matching marks, keywords, and text for everything else; nothing is markup without its closing mark, and markup does not cross a comment.",
  ["inputs"], "every text",
  "Inline elements are tried at every character in a fixed order; the interplay of two kinds of delimiters is not sampled by tests of one kind.",
  ["vimwiki-core/src/lang/parsers/vimwiki/blocks/inline"],
  [("inline parsers", "vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/mod.rs")],
  ["inline elements and their regions against an independent tokenizer"])

P("P15", "A link holds what is written between its brackets",
  "The address of a link is the text up to the first bar (after the interwiki prefix or the diary date), percent-encoded only where a URI cannot hold it; its description is the text between the first and the second bar, or the image embedded when the whole of it is one; properties are the pairs that follow, the last of a key winning; anchors are the parts after each #; and kind, index, name, date, scheme, path, directory and fallback description all say the same. No text within the brackets is taken for another part.",
  ["inputs"], "every link text, with characters of one to three bytes",
  "Encoding applies only to addresses no URI can hold, anchors stack, parts may be empty: tests show one example of each.",
  [EB + "inline/links/data.rs", EB + "inline/links/anchor.rs", "vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links"],
  [("link parsers", "vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/mod.rs"), ("link data", EB + "inline/links/data.rs")],
  ["Link, LinkData, Description, Anchor accessors"])

P("P19", "The configuration says which wiki a page is in and where it goes",
  "A page belongs to the first configured wiki whose directory contains it, component by component; its output path is that wiki's HTML directory followed by its path below the wiki with the extension html, and the path to the root is as many parent steps as it lies deep; wikis are found by index, name and path as listed; reading a configuration from JSON gives each option its written value and every other its default, and writing and reading it back changes nothing.",
  ["inputs"], "every path, name and configuration",
  "Paths that share a prefix of characters but not of components, dots and trailing separators are not in the samples.",
  ["vimwiki-core/src/lang/output/html/config.rs", "vimwiki-core/src/lang/output/vimwiki/config.rs"],
  [("wiki lookup and paths", "vimwiki-core/src/lang/output/html/config.rs"), ("options", "vimwiki-core/src/lang/output/vimwiki/config.rs")],
  ["HtmlConfig::find_wiki_by_*, HtmlWikiConfig and HtmlFormatter paths, serde"])

P("P20", "A whole HTML page is its template with the variables filled in",
  "to_html_page writes the template with each variable (title, date, content, root path, wiki path, style sheet, encoding) replaced by its value and every other character as it is: what is filled in is never searched for variables again, the title is the page's last %title or its file name, escaped, and the default template is used when none is named.",
  ["inputs"], "every template, title, content and location of the page",
  "Values that look like variables and templates with overlapping percent signs are not sampled.",
  ["vimwiki-core/src/lang/output/html/mod.rs", "vimwiki-core/src/lang/output/html/formatter.rs"],
  [("page template", "vimwiki-core/src/lang/output/html/mod.rs")],
  ["ToHtmlPage output against independent substitution"])

P("P24", "Every way of formatting keeps the page",
  "Whatever formatting options are chosen (indentation, style of blockquotes, padding of headers, comments and tables, trimming, terms on lines by themselves, marks of todo items), the vimwiki text written is read back as the same page and formatting it again with the same options changes nothing; own todo marks stand exactly where the usual ones would.",
  ["inputs"], "every page the format can express and every option",
  "Options are sampled one element at a time, never where an option's form cannot hold the element.",
  ["vimwiki-core/src/lang/output/vimwiki/mod.rs", "vimwiki-core/src/lang/output/vimwiki/config.rs"],
  [("vimwiki output", "vimwiki-core/src/lang/output/vimwiki/mod.rs")],
  ["ToVimwikiString under each configuration, parsed again"])

# --- more below ---
open(os.path.join(H, "properties.jsonl"), "w").write("".join(json.dumps(p) + "\n" for p in OUT))
