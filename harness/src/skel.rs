//! A page written out as plain bytes: the checks' own notion of "the same
//! page", independent of the comparison traits of the code under test.
use crate::walk::{blocks, containers, range};
use std::collections::HashMap;
use vimwiki_core::*;

#[derive(Clone, Copy)]
pub struct Skel {
    /// Leave out all white space of the contents.
    pub strip: bool,
    /// Write the regions too.
    pub loc: bool,
}

pub struct Out {
    pub k: Skel,
    pub o: Vec<u8>,
    /// For equality: the contents of definitions are mere text, hosts have no
    /// case.
    pub deftext: bool,
}

impl Out {
    pub fn new(strip: bool, loc: bool) -> Out {
        Out { k: Skel { strip, loc }, o: Vec::with_capacity(256), deftext: false }
    }
    fn t(&mut self, c: u8) {
        self.o.push(c);
    }
    fn n(&mut self, n: usize) {
        self.o.push(0xf0);
        self.o.extend_from_slice(&(n as u32).to_le_bytes());
    }
    /// Contents end with a byte that no UTF-8 text contains.
    fn s(&mut self, s: &str) {
        if self.k.strip {
            for &c in s.as_bytes() {
                if !matches!(c, b' ' | 9..=13) {
                    self.o.push(c);
                }
            }
        } else {
            self.o.extend_from_slice(s.as_bytes());
        }
        self.o.push(0xff);
    }
    fn r<T: ElementLike>(&mut self, l: &Located<T>) {
        if self.k.loc {
            let r = range(l);
            self.n(r.a);
            self.n(r.b);
            if self.deftext {
                self.n(l.depth() as usize);
            }
        }
    }
    pub fn page(&mut self, p: &Page) {
        for e in &p.elements {
            self.block(e);
        }
    }
    pub fn block(&mut self, l: &Located<BlockElement>) {
        self.r(l);
        match l.as_inner() {
            BlockElement::Blockquote(b) => {
                self.t(b'q');
                for l in &b.lines {
                    self.s(l);
                }
            }
            BlockElement::CodeBlock(b) => {
                self.t(b'c');
                match &b.language {
                    Some(l) => self.s(l),
                    None => self.t(0xfe),
                }
                self.map(&b.metadata);
                for l in &b.lines {
                    self.s(l);
                }
            }
            BlockElement::MathBlock(b) => {
                self.t(b'm');
                match &b.environment {
                    Some(l) => self.s(l),
                    None => self.t(0xfe),
                }
                for l in &b.lines {
                    self.s(l);
                }
            }
            BlockElement::Divider(_) => self.t(b'v'),
            BlockElement::Placeholder(p) => {
                self.t(b'x');
                match p {
                    Placeholder::Title(x) => {
                        self.t(b't');
                        self.s(x);
                    }
                    Placeholder::NoHtml => self.t(b'n'),
                    Placeholder::Template(x) => {
                        self.t(b'p');
                        self.s(x);
                    }
                    Placeholder::Date(d) => {
                        self.t(b'd');
                        self.date(d);
                    }
                    Placeholder::Other { name, value } => {
                        self.t(b'o');
                        self.s(name);
                        self.s(value);
                    }
                }
            }
            BlockElement::Header(h) => {
                self.t(b'h');
                self.n(h.level);
                self.t(h.centered as u8);
                self.container(&h.content);
            }
            BlockElement::Paragraph(p) => {
                self.t(b'p');
                for l in &p.lines {
                    self.container(l);
                }
            }
            BlockElement::DefinitionList(d) => {
                self.t(b'd');
                for i in &d.items {
                    self.r(i);
                    self.t(b't');
                    self.r(&i.term);
                    self.def(i.term.as_inner().as_inner());
                    self.r(&i.definitions);
                    for d in i.definitions.iter() {
                        self.t(b':');
                        self.r(d);
                        self.def(d.as_inner().as_inner());
                    }
                }
                self.t(0xfd);
            }
            BlockElement::List(li) => {
                self.t(b'l');
                self.list(li);
            }
            BlockElement::Table(t) => {
                self.t(b'g');
                self.t(t.centered as u8);
                self.n(t.row_cnt());
                self.n(t.col_cnt());
                for row in 0..t.row_cnt() {
                    for col in 0..t.col_cnt() {
                        if let Some(c) = t.get_cell(row, col) {
                            self.n(row);
                            self.n(col);
                            self.r(c);
                            match c.as_inner() {
                                Cell::Content(x) => {
                                    self.t(b'c');
                                    self.container(x);
                                }
                                Cell::Span(CellSpan::FromLeft) => self.t(b'>'),
                                Cell::Span(CellSpan::FromAbove) => self.t(b'^'),
                                Cell::Align(a) => {
                                    self.t(b'a');
                                    self.t(match a {
                                        ColumnAlign::None => 0,
                                        ColumnAlign::Left => 1,
                                        ColumnAlign::Center => 2,
                                        ColumnAlign::Right => 3,
                                    });
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    fn def(&mut self, c: &InlineElementContainer) {
        if self.deftext && !self.k.loc {
            self.s(&c.to_string());
        } else {
            self.container(c);
        }
    }
    fn date<D: chrono_like::Date>(&mut self, d: &D) {
        self.n(d.num() as usize);
    }
    pub fn list(&mut self, li: &List) {
        for i in li.into_iter() {
            self.t(b'i');
            self.r(i);
            match &i.ty {
                ListItemType::Ordered(o) => self.t(match o {
                    OrderedListItemType::Number => 1,
                    OrderedListItemType::Pound => 2,
                    OrderedListItemType::LowercaseAlphabet => 3,
                    OrderedListItemType::UppercaseAlphabet => 4,
                    OrderedListItemType::LowercaseRoman => 5,
                    OrderedListItemType::UppercaseRoman => 6,
                }),
                ListItemType::Unordered(UnorderedListItemType::Hyphen) => self.t(7),
                ListItemType::Unordered(UnorderedListItemType::Asterisk) => self.t(8),
                ListItemType::Unordered(UnorderedListItemType::Other(x)) => {
                    self.t(9);
                    self.s(x);
                }
            }
            // unordered markers have no suffix
            if i.ty.is_ordered() || self.deftext {
                self.t(match i.suffix {
                    ListItemSuffix::None => 0,
                    ListItemSuffix::Period => 1,
                    ListItemSuffix::Paren => 2,
                });
            }
            self.n(i.pos);
            self.t(match i.attributes.todo_status {
                None => 0,
                Some(ListItemTodoStatus::Incomplete) => 1,
                Some(ListItemTodoStatus::PartiallyComplete1) => 2,
                Some(ListItemTodoStatus::PartiallyComplete2) => 3,
                Some(ListItemTodoStatus::PartiallyComplete3) => 4,
                Some(ListItemTodoStatus::Complete) => 5,
                Some(ListItemTodoStatus::Rejected) => 6,
            });
            for c in i.contents.iter() {
                self.block(c);
            }
        }
        self.t(0xfc);
    }
    pub fn container(&mut self, c: &InlineElementContainer) {
        // neighbouring texts read as one when white space does not count
        let mut last_text = false;
        for e in c.iter() {
            self.r(e);
            if let (InlineElement::Text(t), true, true) = (e.as_inner(), self.k.strip, last_text) {
                self.o.pop();
                self.s(t.as_str());
                continue;
            }
            last_text = matches!(e.as_inner(), InlineElement::Text(_));
            if self.k.strip && last_text {
                if let InlineElement::Text(t) = e.as_inner() {
                    if t.as_str().bytes().all(|c| matches!(c, b' ' | 9..=13)) {
                        last_text = false;
                        continue;
                    }
                }
            }
            self.inline(e.as_inner());
        }
        self.t(0xfb);
    }
    pub fn inline(&mut self, e: &InlineElement) {
        match e {
            InlineElement::Text(t) => {
                self.t(b'T');
                self.s(t.as_str());
            }
            InlineElement::Code(t) => {
                self.t(b'C');
                self.s(t.as_str());
            }
            InlineElement::Math(t) => {
                self.t(b'M');
                self.s(t.as_str());
            }
            InlineElement::Keyword(k) => {
                self.t(b'K');
                self.keyword(k);
            }
            InlineElement::Tags(t) => {
                self.t(b'G');
                for t in t.iter() {
                    self.s(t.as_str());
                }
                self.t(0xfa);
            }
            InlineElement::Comment(Comment::Line(c)) => {
                self.t(b'%');
                self.s(c.as_str());
            }
            InlineElement::Comment(Comment::MultiLine(c)) => {
                self.t(b'+');
                for l in c.into_iter() {
                    self.s(l);
                }
                self.t(0xfa);
            }
            InlineElement::Link(l) => self.link(l),
            InlineElement::DecoratedText(d) => self.decorated(d),
        }
    }
    fn keyword(&mut self, k: &Keyword) {
        self.t(match k {
            Keyword::Done => 1,
            Keyword::Fixed => 2,
            Keyword::Fixme => 3,
            Keyword::Started => 4,
            Keyword::Todo => 5,
            Keyword::Xxx => 6,
        });
    }
    fn decorated(&mut self, d: &DecoratedText) {
        self.t(b'D');
        self.t(match d {
            DecoratedText::Bold(_) => 1,
            DecoratedText::Italic(_) => 2,
            DecoratedText::Strikeout(_) => 3,
            DecoratedText::Superscript(_) => 4,
            DecoratedText::Subscript(_) => 5,
        });
        for c in d.as_contents_slice() {
            self.r(c);
            match c.as_inner() {
                DecoratedTextContent::Text(t) => {
                    self.t(b'T');
                    self.s(t.as_str());
                }
                DecoratedTextContent::Keyword(k) => {
                    self.t(b'K');
                    self.keyword(k);
                }
                DecoratedTextContent::Link(l) => self.link(l),
                DecoratedTextContent::DecoratedText(d) => self.decorated(d),
            }
        }
        self.t(0xfa);
    }
    fn link(&mut self, l: &Link) {
        self.t(b'L');
        match l {
            Link::Wiki { .. } => self.t(1),
            Link::IndexedInterWiki { index, .. } => {
                self.t(2);
                self.n(*index as usize);
            }
            Link::NamedInterWiki { name, .. } => {
                self.t(3);
                self.s(name);
            }
            Link::Diary { date, .. } => {
                self.t(4);
                self.date(date);
            }
            Link::Raw { .. } => self.t(5),
            Link::Transclusion { .. } => self.t(6),
        }
        self.data(l.data());
    }
    pub fn data(&mut self, d: &LinkData) {
        if self.deftext {
            // hosts compare without regard to case
            let u = d.uri_ref.to_string();
            let b = u.as_bytes();
            let mut host = false;
            for i in 0..b.len() {
                if b[i] == b'/' && i > 0 && b[i - 1] == b'/' && (i == 1 || b[i - 2] == b':') {
                    host = true;
                } else if b[i] == b'/' || b[i] == b'?' || b[i] == b'#' {
                    host = false;
                }
                self.o.push(if host { b[i].to_ascii_lowercase() } else { b[i] });
            }
            self.o.push(0xff);
        } else if self.k.strip {
            self.s(&d.to_decoded_uri_string());
        } else {
            self.s(&d.uri_ref.to_string());
        }
        match &d.description {
            None => self.t(0xf9),
            // the format has no empty description
            Some(Description::Text(t)) if self.k.strip && t.is_empty() => self.t(0xf9),
            Some(Description::Text(t)) => {
                self.t(b't');
                self.s(t);
            }
            Some(Description::TransclusionLink(d)) => {
                self.t(b'l');
                self.data(d);
            }
        }
        match &d.properties {
            None => self.t(0xf8),
            Some(m) => self.map(m),
        }
    }
    fn map<K: AsRef<str> + Ord, V: AsRef<str>, S>(&mut self, m: &HashMap<K, V, S>) {
        let mut v: Vec<(&str, &str)> = m.iter().map(|(k, v)| (k.as_ref(), v.as_ref())).collect();
        v.sort_unstable();
        for (k, x) in v {
            self.s(k);
            self.s(x);
        }
        self.t(0xf7);
    }
}

pub mod chrono_like {
    pub trait Date {
        fn num(&self) -> i32;
    }
    impl Date for vimwiki_core::vendor::chrono::NaiveDate {
        fn num(&self) -> i32 {
            use vimwiki_core::vendor::chrono::Datelike;
            self.num_days_from_ce()
        }
    }
}

pub fn skel(p: &Page, strip: bool, loc: bool) -> Vec<u8> {
    let mut o = Out::new(strip, loc);
    o.page(p);
    o.o
}

/// White space is blanks, tabs and line ends, and no line ends in a way that
/// lets the removal of blanks at its ends turn text into markup.
pub fn plain(s: &str) -> bool {
    let b = s.as_bytes();
    let mut ok = true;
    for i in 0..b.len() {
        let next = if i + 1 < b.len() { b[i + 1] } else { b'\n' };
        match b[i] {
            11 | 12 => ok = false,
            b'\r' => ok &= i + 1 < b.len() && next == b'\n',
            0xC2 => ok &= next != 0x85 && next != 0xA0,
            0xE1 => ok &= next != 0x9A,
            0xE2 => ok &= next != 0x80 && next != 0x81,
            0xE3 => ok &= next != 0x80,
            b']' | b'|' | b'>' | b'0'..=b'9' => {
                let mut j = i + 1;
                while j < b.len() && (b[j] == b' ' || b[j] == b'\t') {
                    j += 1;
                }
                ok &= j == i + 1 || (j < b.len() && b[j] != b'\n' && b[j] != b'\r');
            }
            b' ' | b'\t' => {
                let first = i == 0 || b[i - 1] == b'\n';
                ok &= next != b'%' || b.get(i + 2) == Some(&b'%');
                // blanks within a line: no two, none before ::
                let mut j = i;
                while j > 0 && (b[j - 1] == b' ' || b[j - 1] == b'\t') {
                    j -= 1;
                }
                let lead = j == 0 || b[j - 1] == b'\n';
                ok &= lead || (next != b' ' && next != b'\t' && next != b':');
                // a lone blank before a marker
                ok &= !first || !matches!(next, b'-' | b'*' | b'#' | b'0'..=b'9' | b'a'..=b'z' | b'A'..=b'Z');
                ok &= !lead || next != b':';
            }
            b':' => ok &= next != b':' || !b.contains(&b'|'),
            _ => {}
        }
        if !ok {
            return false;
        }
    }
    ok
}

/// What the format cannot express or what depends on neighbouring blanks.
pub fn expressible(pg: &Page) -> bool {
    let mut ok = true;
    blocks(pg, &mut |b, _| match b {
        BlockElement::List(l) => {
            for i in l.into_iter() {
                ok &= !matches!(
                    i.contents.iter().next().map(|c| c.as_inner()),
                    Some(BlockElement::CodeBlock(_)) | Some(BlockElement::MathBlock(_))
                );
                // lists of decreasing indentation become one
                for w in i.contents.windows(2) {
                    ok &= !matches!((w[0].as_inner(), w[1].as_inner()), (BlockElement::List(_), BlockElement::List(_)));
                }
            }
        }
        BlockElement::CodeBlock(c) => {
            for k in c.metadata.keys() {
                ok &= !k.contains(' ') && !k.contains('\t');
            }
        }
        BlockElement::Table(t) => {
            for row in 0..t.row_cnt() {
                for col in 0..t.col_cnt() {
                    if let Some(Cell::Content(x)) = t.get_cell(row, col).map(|c| c.as_inner()) {
                        if let Some(InlineElement::Text(t)) = x.iter().next().map(|e| e.as_inner()) {
                            ok &= !t.as_str().starts_with(':') || !t.as_str().ends_with(':');
                        }
                    }
                }
            }
        }
        _ => {}
    });
    // blockquotes that follow each other become one
    for w in pg.elements.windows(2) {
        ok &= !matches!((w[0].as_inner(), w[1].as_inner()), (BlockElement::Blockquote(_), BlockElement::Blockquote(_)));
    }
    containers(pg, &mut |c| {
        for e in c.iter() {
            if let InlineElement::Link(l) = e.as_inner() {
                ok &= !matches!(&l.data().description, Some(Description::Text(t)) if t.is_empty());
                ok &= !matches!(&l.data().properties, Some(m) if m.is_empty());
            }
        }
    });
    ok
}
