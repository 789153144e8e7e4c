#!/usr/bin/env python3
"""Writes known_findings.json from tools/findings.json and the list below
(commit hashes looked up in /repo by subject)."""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("P01", "percent-encode diary link anchors", "parsing panicked on diary links whose anchor is no valid URI fragment"),
 ("P03", "definition list regions cover", "regions of definition lists left out all but the first definition"),
 ("P13", "iterate over all cells of tables whose", "cell iterators skipped cells of ragged tables"),
 ("P02", "render tables whose rows differ", "ragged tables and tables without content failed to render as vimwiki"),
 ("P16", "resolve interwiki links to directories", "interwiki links to directories did not lead to the index page"),
 ("P02", "keep relative links whose first segment", "HTML of relative links whose first segment contains a colon failed"),
 ("P04", "keep text that follows the last colon", "text after the last colon of a tag within a word was lost"),
 ("P12", "give list items a suffix that fits", "normalized list items had a suffix their type cannot have"),
 ("P05", "read back blank lines of blockquotes", "blank lines of blockquotes were not read back"),
 ("P12", "recognize upper-case roman numerals", "C. and the like were no roman numerals in upper case"),
 ("P13", "allow trailing white space after the last pipe", "a row with trailing white space was no table row"),
 ("P13", "read table cells that merely begin like", "cells that begin like a span or an alignment lost their content"),
 ("P17", "tell a single character apart from white space", "`%title a` was no title"),
 ("P08", "escape code block and link attributes", "code and link attributes and math environments reached HTML unescaped"),
 ("P02", "write HTML attributes of code blocks and links in a fixed order", "attribute order changed from run to run"),
 ("P07", "keep the content of table rows whose first cell", "rows whose first cell looks like a divider lost their content"),
 ("P05", "write the properties of all kinds of links", "properties of links other than transclusions were dropped"),
 ("P05", "keep link targets encoded", "link targets were decoded where that changes the link"),
 ("P11", "serialize definition lists", "pages with definition lists could not be serialized"),
 ("P12", "recognize alphabetic list items that begin", "`ca.` and the like were no list items"),
 ("P13", "size hints of short table rows", "size hints of row and body iterators were wrong or overflowed"),
 ("P04", "keep code, math and tags within decorated", "text after code, math or tags within decorated text was dropped"),
 ("P01", "strip only blanks as the indentation", "parsing panicked on code blocks with no-break spaces"),
 ("P16", "links to an anchor of the wiki's root", "[[/#x]] led to /#x instead of the index page of the wiki"),
 ("P16", "join the parts of stacked anchors", "[[#a#b]] led to #a%23b instead of #a-b"),
 ("P14", "regions that reach the end of the address space", "Region::contains and conversions of inclusive ranges overflowed"),
 ("P15", "keep text that follows a transclusion within", "[[a|{{b}} c]] lost the c of its description"),
 ("P15", "keep text that follows closing brackets within", "[[a}}b]] was a link to a"),
 ("P15", "tell encoded # of link targets apart", "[[a%23b c]] was a link to the anchor `b c` of a"),
 ("P15", "names of interwiki links end before", "[[wn.a|b:c]] was a link to page c of the wiki `a|b`"),
 ("P20", "fill in template variables in a single pass", "a title or content naming a variable was substituted again"),
 ("P20", "escape the title of HTML pages", "titles reached HTML pages unescaped"),
 ("P24", "write blockquotes with arrows where they cannot", "with prefer_indented_blockquote, blank lines of quotes were lost and quotes within lists became text"),
 ("P24", "keep an empty last line of comments", "with comment.no_padding, an empty last line of a comment was lost"),
 ("P10", "tell absolute link paths apart", "[[a]] and [[/a]] compared equal"),
]
def h(s):
    o = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.split("\n")
    m = [l.split()[0] for l in o if s in l]
    assert len(m) == 1, s
    return m[0]
F = os.path.join(H, "tools", "findings.json")
json.dump({"findings": json.load(open(F)) if os.path.exists(F) else [],
           "fixed": ["fixed: property=%s %s %s" % (p, h(s), w) for p, s, w in FIXED]},
          open(os.path.join(H, "known_findings.json"), "w"), indent=1)
