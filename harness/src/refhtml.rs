//! What the HTML of a page has to be: a rendering written from the
//! documentation, independent of the code under test. `W` stands for any text
//! without quotes and angle brackets (link targets, ids).
use std::collections::HashMap;
use vimwiki_core::*;

/// Any run of characters other than `"`, `<` and `>`.
pub const W: u8 = 0xff;

pub struct Html {
    pub o: Vec<u8>,
    seen: [bool; 10],
    /// Line ends of paragraphs become `<br />`.
    pub br: bool,
    pub comments: bool,
    pub toc: &'static str,
    /// Something a pattern cannot express was seen.
    pub unclear: bool,
}

impl Html {
    pub fn new() -> Html {
        Html { o: Vec::with_capacity(512), seen: [false; 10], br: false, comments: false, toc: "Contents", unclear: false }
    }
    fn w(&mut self, s: &str) {
        self.o.extend_from_slice(s.as_bytes());
    }
    fn n(&mut self, n: usize) {
        let mut b = [0u8; 20];
        let mut i = 20;
        let mut n = n;
        loop {
            i -= 1;
            b[i] = b'0' + (n % 10) as u8;
            n /= 10;
            if n == 0 {
                break;
            }
        }
        self.o.extend_from_slice(&b[i..]);
    }
    fn any(&mut self) {
        self.o.push(W);
    }
    fn esc(&mut self, s: &str) {
        for &c in s.as_bytes() {
            match c {
                b'&' => self.w("&amp;"),
                b'<' => self.w("&lt;"),
                b'>' => self.w("&gt;"),
                b'"' => self.w("&quot;"),
                b'\'' => self.w("&#x27;"),
                b'`' => self.w("&#x60;"),
                c => self.o.push(c),
            }
        }
    }
    pub fn page(&mut self, p: &Page) {
        for e in &p.elements {
            self.block(e.as_inner());
            self.w("\n");
        }
    }
    pub fn block(&mut self, b: &BlockElement) {
        match b {
            BlockElement::Blockquote(q) => {
                self.w("<blockquote>\n");
                let mut groups = 0;
                let mut blank = true;
                for l in &q.lines {
                    if !l.is_empty() && blank {
                        groups += 1;
                    }
                    blank = l.is_empty();
                }
                if groups > 1 {
                    blank = true;
                    for l in &q.lines {
                        if l.is_empty() {
                            if !blank {
                                self.w("</p>\n");
                            }
                        } else {
                            self.w(if blank { "<p>" } else { " " });
                            self.esc(l.trim());
                        }
                        blank = l.is_empty();
                    }
                    if !blank {
                        self.w("</p>\n");
                    }
                } else {
                    for l in &q.lines {
                        self.esc(l);
                        self.w("\n");
                    }
                }
                self.w("</blockquote>");
            }
            BlockElement::CodeBlock(c) => {
                self.w("<pre><code");
                if let Some(l) = &c.language {
                    self.w(" class=\"");
                    self.esc(l);
                    self.w("\"");
                }
                self.attrs(&c.metadata);
                self.w(">");
                for (i, l) in c.lines.iter().enumerate() {
                    if i > 0 {
                        self.w("\n");
                    }
                    self.esc(l);
                }
                self.w("</code></pre>");
            }
            BlockElement::MathBlock(m) => {
                match &m.environment {
                    Some(e) => {
                        self.w("\\begin{");
                        self.esc(e);
                        self.w("}\n");
                    }
                    None => self.w("\\[\n"),
                }
                for l in &m.lines {
                    self.esc(l);
                    self.w("\n");
                }
                match &m.environment {
                    Some(e) => {
                        self.w("\\end{");
                        self.esc(e);
                        self.w("}");
                    }
                    None => self.w("\\]"),
                }
            }
            BlockElement::Divider(_) => self.w("<hr />"),
            BlockElement::Placeholder(_) => {}
            BlockElement::Header(h) => self.header(h),
            BlockElement::Paragraph(p) => {
                let blank = p.lines.iter().all(|l| l.iter().all(|e| matches!(e.as_inner(), InlineElement::Comment(_))));
                if !blank {
                    self.w("<p>");
                }
                for (i, l) in p.lines.iter().enumerate() {
                    if i > 0 {
                        self.w(if self.br { "<br />" } else { " " });
                    }
                    self.container(l);
                }
                if !blank {
                    self.w("</p>");
                }
            }
            BlockElement::DefinitionList(d) => {
                self.w("<dl>\n");
                for i in &d.items {
                    self.w("<dt>");
                    self.container(i.term.as_inner().as_inner());
                    self.w("</dt>\n");
                    for x in i.definitions.iter() {
                        self.w("<dd>");
                        self.container(x.as_inner().as_inner());
                        self.w("</dd>\n");
                    }
                }
                self.w("</dl>");
            }
            BlockElement::List(l) => {
                let ordered = matches!(l.items.first().map(|i| &i.ty), Some(ListItemType::Ordered(_)));
                self.w(if ordered { "<ol>\n" } else { "<ul>\n" });
                for i in &l.items {
                    self.w("<li");
                    if let Some(t) = &i.attributes.todo_status {
                        self.w(match t {
                            ListItemTodoStatus::Incomplete => " class=\"done0\"",
                            ListItemTodoStatus::PartiallyComplete1 => " class=\"done1\"",
                            ListItemTodoStatus::PartiallyComplete2 => " class=\"done2\"",
                            ListItemTodoStatus::PartiallyComplete3 => " class=\"done3\"",
                            ListItemTodoStatus::Complete => " class=\"done4\"",
                            ListItemTodoStatus::Rejected => " class=\"rejected\"",
                        });
                    }
                    self.w(">");
                    for c in i.contents.iter() {
                        self.block(c.as_inner());
                    }
                    self.w("</li>\n");
                }
                self.w(if ordered { "</ol>" } else { "</ul>" });
            }
            BlockElement::Table(t) => self.table(t),
        }
    }
    fn header(&mut self, h: &Header) {
        // the text of a header decides about its id; only plain text is modelled
        let toc = h.level == 1 && {
            let mut v = String::new();
            for e in h.content.iter() {
                match e.as_inner() {
                    InlineElement::Text(t) => v.push_str(t.as_str()),
                    _ => v.push('\u{0}'),
                }
            }
            v.trim().as_bytes() == self.toc.as_bytes()
        };
        self.seen[h.level] = true;
        if toc {
            self.w("<div class=\"toc\"><h1 id=\"");
            self.any();
            self.w("\">");
            self.container(&h.content);
            self.w("</h1></div>");
            return;
        }
        let nested = (1..h.level).any(|i| self.seen[i]);
        if nested {
            self.w("<div id=\"");
            self.any();
            self.w("\">");
        }
        self.w("<h");
        self.n(h.level);
        self.w(" id=\"");
        self.any();
        self.w("\" class=\"header\"><a href=\"#");
        self.any();
        self.w("\">");
        self.container(&h.content);
        self.w("</a></h");
        self.n(h.level);
        self.w(">");
        if nested {
            self.w("</div>");
        }
    }
    fn table(&mut self, t: &Table) {
        self.w(if t.centered { "<table class=\"center\">\n" } else { "<table>\n" });
        let divider = |r: usize| matches!(t.get_cell(r, 0).map(|c| c.as_inner()), Some(Cell::Align(_)));
        let rows = t.row_cnt();
        let first = (0..rows).find(|r| divider(*r));
        if let Some(d) = first {
            if d > 0 {
                self.w("<thead>\n");
                self.rows(t, 0, d, "th");
                self.w("</thead>\n");
            }
        }
        let from = first.map_or(0, |d| d + 1);
        if (from..rows).any(|r| !divider(r)) {
            self.w("<tbody>\n");
            self.rows(t, from, rows, "td");
            self.w("</tbody>\n");
        }
        self.w("</table>");
    }
    fn rows(&mut self, t: &Table, a: usize, b: usize, tag: &str) {
        let cell = |r: usize, c: usize| t.get_cell(r, c).map(|c| c.as_inner());
        for r in a..b {
            if !(0..t.col_cnt()).any(|c| matches!(cell(r, c), Some(Cell::Content(_)))) {
                continue;
            }
            self.w("<tr>\n");
            for c in 0..t.col_cnt() {
                if let Some(Cell::Content(x)) = cell(r, c) {
                    self.w("<");
                    self.w(tag);
                    let mut k = 1;
                    while matches!(cell(r + k, c), Some(Cell::Span(CellSpan::FromAbove))) {
                        k += 1;
                    }
                    if k > 1 {
                        self.w(" rowspan=\"");
                        self.n(k);
                        self.w("\"");
                    }
                    k = 1;
                    while matches!(cell(r, c + k), Some(Cell::Span(CellSpan::FromLeft))) {
                        k += 1;
                    }
                    if k > 1 {
                        self.w(" colspan=\"");
                        self.n(k);
                        self.w("\"");
                    }
                    self.w(">");
                    self.container(x);
                    self.w("</");
                    self.w(tag);
                    self.w(">\n");
                }
            }
            self.w("</tr>\n");
        }
    }
    pub fn container(&mut self, c: &InlineElementContainer) {
        for e in c.iter() {
            self.inline(e.as_inner());
        }
    }
    pub fn inline(&mut self, e: &InlineElement) {
        match e {
            InlineElement::Text(t) => self.esc(t.as_str()),
            InlineElement::Code(c) => {
                self.w("<code>");
                self.esc(c.as_str());
                self.w("</code>");
            }
            InlineElement::Math(c) => {
                self.w("\\(");
                self.esc(c.as_str());
                self.w("\\)");
            }
            InlineElement::Keyword(k) => self.keyword(k),
            InlineElement::Tags(t) => {
                for t in t.iter() {
                    self.anchor();
                    self.w("<span class=\"tag\" id=\"");
                    self.any();
                    self.w("\">");
                    if t.as_str().bytes().any(|c| c < 32) {
                        self.any();
                    } else {
                        self.esc(&t.as_str().to_lowercase());
                    }
                    self.w("</span>");
                }
            }
            InlineElement::Comment(_) if !self.comments => {}
            InlineElement::Comment(Comment::Line(c)) => {
                self.w("<!-- ");
                self.w(c.as_str());
                self.w(" -->");
            }
            InlineElement::Comment(Comment::MultiLine(c)) => {
                self.w("<!--\n");
                for l in c.iter() {
                    self.w(l);
                    self.w("\n");
                }
                self.w("-->");
            }
            InlineElement::Link(l) => self.link(l),
            InlineElement::DecoratedText(d) => self.decorated(d),
        }
    }
    /// Below a header, what can be linked to has an id that includes it.
    fn anchor(&mut self) {
        if self.seen.iter().any(|s| *s) {
            self.w("<span id=\"");
            self.any();
            self.w("\"></span>");
        }
    }
    fn keyword(&mut self, k: &Keyword) {
        self.w(match k {
            Keyword::Todo => "<span class=\"todo\">TODO</span>",
            Keyword::Done => "DONE",
            Keyword::Started => "STARTED",
            Keyword::Fixme => "FIXME",
            Keyword::Fixed => "FIXED",
            Keyword::Xxx => "XXX",
        });
    }
    fn decorated(&mut self, d: &DecoratedText) {
        match d {
            DecoratedText::Bold(_) => {
                self.anchor();
                self.w("<strong id=\"");
                self.any();
                self.w("\">");
            }
            DecoratedText::Italic(_) => self.w("<em>"),
            DecoratedText::Strikeout(_) => self.w("<del>"),
            DecoratedText::Superscript(_) => self.w("<sup><small>"),
            DecoratedText::Subscript(_) => self.w("<sub><small>"),
        }
        for c in d.as_contents_slice() {
            match c.as_inner() {
                DecoratedTextContent::Text(t) => self.esc(t.as_str()),
                DecoratedTextContent::DecoratedText(d) => self.decorated(d),
                DecoratedTextContent::Keyword(k) => self.keyword(k),
                DecoratedTextContent::Link(l) => self.link(l),
            }
        }
        self.w(match d {
            DecoratedText::Bold(_) => "</strong>",
            DecoratedText::Italic(_) => "</em>",
            DecoratedText::Strikeout(_) => "</del>",
            DecoratedText::Superscript(_) => "</small></sup>",
            DecoratedText::Subscript(_) => "</small></sub>",
        });
    }
    fn link(&mut self, l: &Link) {
        let d = l.data();
        if let Link::Transclusion { .. } = l {
            self.image(d);
            return;
        }
        self.w("<a href=\"");
        self.any();
        self.w("\"");
        if let Some(p) = &d.properties {
            self.attrs(p);
        }
        self.w(">");
        match &d.description {
            Some(Description::Text(t)) => self.esc(t),
            Some(Description::TransclusionLink(d)) => self.image(d),
            None => self.any(),
        }
        self.w("</a>");
    }
    fn image(&mut self, d: &LinkData) {
        self.w("<img src=\"");
        self.any();
        self.w("\"");
        match &d.description {
            Some(Description::Text(t)) => {
                self.w(" alt=\"");
                self.esc(t);
                self.w("\"");
            }
            Some(_) => {
                self.w(" alt=\"");
                self.any();
                self.w("\"");
            }
            None => {}
        }
        if let Some(p) = &d.properties {
            self.attrs(p);
        }
        self.w(" />");
    }
    fn attrs<K: AsRef<str> + Ord, V: AsRef<str>, S>(&mut self, m: &HashMap<K, V, S>) {
        let mut v: Vec<(&str, &str)> = m.iter().map(|(k, v)| (k.as_ref(), v.as_ref())).collect();
        v.sort_unstable();
        for (k, x) in v {
            self.w(" ");
            self.esc(k);
            self.w("=\"");
            self.esc(x);
            self.w("\"");
        }
    }
}

/// Is `s` what the pattern describes?
pub fn matches(pat: &[u8], s: &[u8]) -> bool {
    let (mut i, mut j) = (0, 0);
    while i < pat.len() {
        if pat[i] == W {
            i += 1;
            while j < s.len() && !matches!(s[j], b'"' | b'<' | b'>') {
                j += 1;
            }
            continue;
        }
        // a run of plain characters in one comparison
        let mut k = i;
        while k < pat.len() && pat[k] != W {
            k += 1;
        }
        let n = k - i;
        if j + n > s.len() || pat[i..k] != s[j..j + n] {
            return false;
        }
        i = k;
        j += n;
    }
    j == s.len()
}
