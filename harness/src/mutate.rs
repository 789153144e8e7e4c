//! Changes one part of a page to an arbitrary value: the part is the `k`-th
//! of all fields, regions, list entries and options of all its elements.
use crate::sym::*;
use std::borrow::Cow;
use std::collections::HashMap;
use std::convert::TryFrom;
use vimwiki_core::vendor::{chrono::NaiveDate, uriparse::URIReference};
use vimwiki_core::*;

type C = Cow<'static, str>;
pub struct Mu {
    /// Sites still to pass; below zero: done.
    pub k: i64,
}

impl Mu {
    fn hit(&mut self) -> bool {
        self.k -= 1;
        self.k == -1
    }
    /// Any of the values.
    fn one<T: Clone>(&mut self, x: &mut T, v: &[T]) {
        if self.hit() {
            *x = v[choice(v.len() as u32) as usize].clone();
        }
    }
    fn s(&mut self, x: &mut C) {
        if self.hit() {
            *x = Cow::Borrowed(text("\u{1}"));
        }
        if self.hit() {
            *x = Cow::Borrowed([&**x, text("\u{1}")].concat().leak());
        }
    }
    fn opt(&mut self, x: &mut Option<C>) {
        match x {
            Some(y) => {
                self.s(y);
                if self.hit() {
                    *x = None;
                }
            }
            None => {
                if self.hit() {
                    *x = Some(Cow::Borrowed(text("\u{1}")));
                }
            }
        }
    }
    /// One entry less, or the first twice.
    fn v<T: Clone>(&mut self, v: &mut Vec<T>) {
        if !v.is_empty() {
            if self.hit() {
                v.pop();
            }
            if self.hit() {
                let x = v[0].clone();
                v.insert(0, x);
            }
        }
    }
    fn strs(&mut self, v: &mut Vec<C>) {
        self.v(v);
        for x in v.iter_mut() {
            self.s(x);
        }
    }
    fn map(&mut self, m: &mut HashMap<C, C>) {
        let mut ks: Vec<C> = m.keys().cloned().collect();
        ks.sort_unstable();
        if self.hit() {
            m.insert(Cow::Borrowed(text("\u{5}")), Cow::Borrowed(text("\u{5}")));
        }
        for k in ks {
            self.s(m.get_mut(&k).unwrap());
            if self.hit() {
                m.remove(&k);
            }
        }
    }
    fn at<T: Clone + ElementLike>(&mut self, l: &mut Located<T>) {
        if self.hit() {
            let r = l.region();
            let n = match choice(3) {
                0 => Region::new_at_depth(r.offset() + byte() as usize, r.len(), r.depth()),
                1 => Region::new_at_depth(r.offset(), r.len() + byte() as usize, r.depth()),
                _ => Region::new_at_depth(r.offset(), r.len(), u16_()),
            };
            *l = l.clone().take_with_region(n);
        }
    }
    pub fn page(&mut self, p: &mut Page<'static>) {
        self.v(&mut p.elements);
        for e in p.elements.iter_mut() {
            self.block(e);
        }
    }
    pub fn block(&mut self, l: &mut Located<BlockElement<'static>>) {
        if self.k < 0 {
            return;
        }
        self.at(l);
        match l.as_mut_inner() {
            BlockElement::Blockquote(b) => self.strs(&mut b.lines),
            BlockElement::CodeBlock(b) => {
                self.opt(&mut b.language);
                self.map(&mut b.metadata);
                self.strs(&mut b.lines);
            }
            BlockElement::MathBlock(b) => {
                self.opt(&mut b.environment);
                self.strs(&mut b.lines);
            }
            BlockElement::Divider(_) => {}
            BlockElement::Placeholder(p) => {
                if self.hit() {
                    let s = || Cow::Borrowed(text("\u{1}"));
                    *p = match choice(5) {
                        0 => Placeholder::Title(s()),
                        1 => Placeholder::NoHtml,
                        2 => Placeholder::Template(s()),
                        3 => Placeholder::Date(NaiveDate::from_ymd(2020, 2, 1 + choice(29))),
                        _ => Placeholder::Other { name: s(), value: Cow::Borrowed("v") },
                    };
                } else {
                    match p {
                        Placeholder::Title(x) | Placeholder::Template(x) => self.s(x),
                        Placeholder::Other { name, value } => {
                            self.s(name);
                            self.s(value);
                        }
                        _ => {}
                    }
                }
            }
            BlockElement::Header(h) => {
                self.one(&mut h.level, &[1, 2, 3, 4, 5, 6, 7]);
                self.one(&mut h.centered, &[false, true]);
                self.container(&mut h.content);
            }
            BlockElement::Paragraph(p) => {
                self.v(&mut p.lines);
                for l in p.lines.iter_mut() {
                    self.container(l);
                }
            }
            BlockElement::DefinitionList(d) => {
                self.v(&mut d.items);
                for i in d.items.iter_mut() {
                    self.at(i);
                    let i = i.as_mut_inner();
                    self.at(&mut i.term);
                    self.container(i.term.as_mut_inner());
                    self.at(&mut i.definitions);
                    for d in i.definitions.as_mut_inner().iter_mut() {
                        self.at(d);
                        self.container(d.as_mut_inner());
                    }
                }
            }
            BlockElement::List(li) => {
                self.v(&mut li.items);
                for i in li.items.iter_mut() {
                    self.at(i);
                    let i = i.as_mut_inner();
                    use OrderedListItemType::*;
                    let o = |x| ListItemType::Ordered(x);
                    let u = |x| ListItemType::Unordered(x);
                    self.one(
                        &mut i.ty,
                        &[
                            o(Number), o(Pound), o(LowercaseAlphabet), o(UppercaseAlphabet), o(LowercaseRoman), o(UppercaseRoman),
                            u(UnorderedListItemType::Hyphen), u(UnorderedListItemType::Asterisk),
                            u(UnorderedListItemType::Other(Cow::Borrowed("a"))), u(UnorderedListItemType::Other(Cow::Borrowed("b"))),
                        ],
                    );
                    self.one(&mut i.suffix, &[ListItemSuffix::None, ListItemSuffix::Period, ListItemSuffix::Paren]);
                    self.one(&mut i.pos, &[0, 1, 2, 3]);
                    use ListItemTodoStatus::*;
                    self.one(
                        &mut i.attributes.todo_status,
                        &[None, Some(Incomplete), Some(PartiallyComplete1), Some(PartiallyComplete2), Some(PartiallyComplete3), Some(Complete), Some(Rejected)],
                    );
                    self.v(&mut i.contents);
                    for c in i.contents.iter_mut() {
                        self.block(c);
                    }
                }
            }
            BlockElement::Table(t) => {
                self.one(&mut t.centered, &[false, true]);
                for row in 0..t.row_cnt() {
                    for col in 0..t.col_cnt() {
                        if let Some(c) = t.get_mut_cell(row, col) {
                            self.at(c);
                            self.one(
                                c.as_mut_inner(),
                                &[
                                    Cell::Span(CellSpan::FromLeft), Cell::Span(CellSpan::FromAbove), Cell::Align(ColumnAlign::None),
                                    Cell::Align(ColumnAlign::Left), Cell::Align(ColumnAlign::Center), Cell::Align(ColumnAlign::Right),
                                    Cell::Content(InlineElementContainer::new(vec![])),
                                ],
                            );
                            if let Cell::Content(x) = c.as_mut_inner() {
                                self.container(x);
                            }
                        }
                    }
                }
            }
        }
    }
    fn container(&mut self, c: &mut InlineElementContainer<'static>) {
        if self.k < 0 {
            return;
        }
        if self.hit() {
            let mut v: Vec<_> = c.iter().cloned().collect();
            v.pop();
            *c = InlineElementContainer::new(v);
        }
        if self.hit() {
            let mut v: Vec<_> = c.iter().cloned().collect();
            v.push(Located::from(InlineElement::Text(Text::from(text("\u{1}")))));
            *c = InlineElementContainer::new(v);
        }
        for e in c.iter_mut() {
            self.at(e);
            self.inline(e.as_mut_inner());
        }
    }
    fn inline(&mut self, e: &mut InlineElement<'static>) {
        let t = |s: &str| -> &'static str { s.to_string().leak() };
        match e {
            InlineElement::Text(x) => {
                let mut s = Cow::Borrowed(t(x.as_str()));
                self.s(&mut s);
                let as_code = self.hit();
                if as_code {
                    *e = InlineElement::Code(CodeInline::new(s));
                } else {
                    *x = Text::new(s);
                }
            }
            InlineElement::Code(x) => {
                let mut s = Cow::Borrowed(t(x.as_str()));
                self.s(&mut s);
                let as_math = self.hit();
                if as_math {
                    *e = InlineElement::Math(MathInline::new(s));
                } else {
                    *x = CodeInline::new(s);
                }
            }
            InlineElement::Math(x) => {
                let mut s = Cow::Borrowed(t(x.as_str()));
                self.s(&mut s);
                *x = MathInline::new(s);
            }
            InlineElement::Keyword(k) => self.keyword(k),
            InlineElement::Tags(x) => {
                let mut v: Vec<Tag<'static>> = x.iter().cloned().collect();
                self.v(&mut v);
                for g in v.iter_mut() {
                    let mut s = Cow::Borrowed(t(g.as_str()));
                    self.s(&mut s);
                    *g = Tag::new(s);
                }
                *x = Tags::new(v);
            }
            InlineElement::Comment(Comment::Line(c)) => {
                let mut s = Cow::Borrowed(t(c.as_str()));
                self.s(&mut s);
                let multi = self.hit();
                if multi {
                    *e = InlineElement::Comment(Comment::MultiLine(MultiLineComment::new(vec![s])));
                } else {
                    *c = LineComment::new(s);
                }
            }
            InlineElement::Comment(Comment::MultiLine(c)) => {
                self.strs(c);
            }
            InlineElement::Link(l) => self.link(l),
            InlineElement::DecoratedText(d) => self.decorated(d),
        }
    }
    fn keyword(&mut self, k: &mut Keyword) {
        use Keyword::*;
        self.one(k, &[Done, Fixed, Fixme, Started, Todo, Xxx]);
    }
    fn decorated(&mut self, d: &mut DecoratedText<'static>) {
        if self.k < 0 {
            return;
        }
        if self.hit() {
            let mut v = d.as_contents_slice().to_vec();
            if choice(2) == 1 {
                v.pop();
            }
            *d = match choice(5) {
                0 => DecoratedText::Bold(v),
                1 => DecoratedText::Italic(v),
                2 => DecoratedText::Strikeout(v),
                3 => DecoratedText::Superscript(v),
                _ => DecoratedText::Subscript(v),
            };
            return;
        }
        for c in d.iter_mut() {
            self.at(c);
            match c.as_mut_inner() {
                DecoratedTextContent::Text(x) => {
                    let s: &'static str = x.as_str().to_string().leak();
                    let mut s = Cow::Borrowed(s);
                    self.s(&mut s);
                    *x = Text::new(s);
                }
                DecoratedTextContent::Keyword(k) => self.keyword(k),
                DecoratedTextContent::Link(l) => self.link(l),
                DecoratedTextContent::DecoratedText(d) => self.decorated(d),
            }
        }
    }
    fn link(&mut self, l: &mut Link<'static>) {
        if self.hit() {
            let data = l.data().clone();
            *l = match choice(6) {
                0 => Link::Wiki { data },
                1 => Link::IndexedInterWiki { index: byte() as u32, data },
                2 => Link::NamedInterWiki { name: Cow::Borrowed(text("\u{1}")), data },
                3 => Link::Diary { date: NaiveDate::from_ymd(2021, 3, 1 + choice(31)), data },
                4 => Link::Raw { data },
                _ => Link::Transclusion { data },
            };
            return;
        }
        match l {
            Link::IndexedInterWiki { index, data } => {
                if self.hit() {
                    *index = u32_();
                }
                self.data(data);
            }
            Link::NamedInterWiki { name, data } => {
                self.s(name);
                self.data(data);
            }
            Link::Diary { date, data } => {
                if self.hit() {
                    *date = NaiveDate::from_ymd(2021, 1 + choice(12), 1 + choice(28));
                }
                self.data(data);
            }
            Link::Wiki { data } | Link::Raw { data } | Link::Transclusion { data } => self.data(data),
        }
    }
    fn data(&mut self, d: &mut LinkData<'static>) {
        if self.hit() {
            d.uri_ref = URIReference::try_from(["", "a", "#a", "/a", "a#a", "a#", "a?b", "a?", "x:a", "//a"][choice(10) as usize]).unwrap();
        }
        let t = || Description::Text(Cow::Borrowed(text("\u{1}")));
        if self.hit() {
            d.description = match choice(3) {
                0 => None,
                1 => Some(t()),
                _ => Some(Description::TransclusionLink(Box::new(LinkData::new(
                    URIReference::try_from("a").unwrap(),
                    if choice(2) == 1 { Some(t()) } else { None },
                    None,
                )))),
            };
        }
        match &mut d.description {
            Some(Description::Text(s)) => self.s(s),
            Some(Description::TransclusionLink(d)) => self.data(d),
            None => {}
        }
        match &mut d.properties {
            Some(m) => {
                self.map(m);
                if self.hit() {
                    d.properties = None;
                }
            }
            None => {
                if self.hit() {
                    let mut m = HashMap::new();
                    m.insert(Cow::Borrowed("k"), Cow::Borrowed(text("\u{5}")));
                    d.properties = Some(m);
                }
            }
        }
    }
}

/// How many sites a page has.
pub fn sites(p: &Page<'static>) -> usize {
    let mut m = Mu { k: i64::MAX / 2 };
    let mut q = p.clone();
    m.page(&mut q);
    (i64::MAX / 2 - m.k) as usize
}
