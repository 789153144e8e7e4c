//! Walks over a parsed page with its source text at hand.
use crate::sym::{check, reach};
use std::borrow::Cow;
use vimwiki_core::*;

const M: u32 = 900000;

pub struct Src<'s> {
    pub s: &'s str,
}

/// A half-open byte range.
#[derive(Clone, Copy)]
pub struct R {
    pub a: usize,
    pub b: usize,
}

pub fn range<T: ElementLike>(l: &Located<T>) -> R {
    let r = l.region();
    R { a: r.offset(), b: r.offset().wrapping_add(r.len()) }
}

impl<'s> Src<'s> {
    /// The region is inside `outer`, does not start before `from` and begins
    /// and ends between characters; returns its end.
    #[inline(never)]
    pub fn within(&self, r: R, outer: R, from: usize) -> usize {
        check(r.b >= r.a, M + line!());
        check(r.b <= self.s.len(), M + line!());
        check(r.a >= outer.a && r.b <= outer.b, M + line!());
        check(r.a >= from, M + line!());
        check(self.s.is_char_boundary(r.a) && self.s.is_char_boundary(r.b), M + line!());
        r.b
    }

    pub fn inline(&self, l: &Located<InlineElement>, outer: R, from: usize) -> usize {
        let r = range(l);
        let e = self.within(r, outer, from);
        check(r.b > r.a, M + line!());
        if let InlineElement::DecoratedText(d) = l.as_inner() {
            self.decorated(d, r);
        }
        e
    }
    fn decorated(&self, d: &DecoratedText, outer: R) {
        let mut at = outer.a;
        for c in d.as_contents_slice() {
            let r = range(c);
            at = self.within(r, outer, at);
            check(r.b > r.a, M + line!());
            if let DecoratedTextContent::DecoratedText(d) = c.as_inner() {
                self.decorated(d, r);
            }
        }
    }
    pub fn container(&self, c: &InlineElementContainer, outer: R, from: usize) -> usize {
        let mut at = from;
        for e in c.iter() {
            at = self.inline(e, outer, at);
        }
        at
    }
    pub fn block(&self, l: &Located<BlockElement>, outer: R, from: usize) -> usize {
        let r = range(l);
        let end = self.within(r, outer, from);
        check(r.b > r.a, M + line!());
        match l.as_inner() {
            BlockElement::Header(h) => {
                self.container(&h.content, r, r.a);
            }
            BlockElement::Paragraph(p) => {
                let mut at = r.a;
                for l in &p.lines {
                    at = self.container(l, r, at);
                }
            }
            BlockElement::DefinitionList(d) => {
                let mut at = r.a;
                for i in &d.items {
                    let ir = range(i);
                    let e = self.within(ir, r, at);
                    let t = self.within(range(&i.term), ir, ir.a);
                    self.container(i.term.as_inner().as_inner(), range(&i.term), ir.a);
                    let br = range(&i.definitions);
                    let mut x = br.a;
                    self.within(br, ir, t);
                    for d in i.definitions.iter() {
                        x = self.within(range(d), br, x);
                        self.container(d.as_inner().as_inner(), range(d), range(d).a);
                    }
                    at = e;
                }
            }
            BlockElement::List(li) => self.list(li, r),
            BlockElement::Table(t) => {
                let mut at = r.a;
                for row in 0..t.row_cnt() {
                    for col in 0..t.col_cnt() {
                        if let Some(c) = t.get_cell(row, col) {
                            at = self.within(range(c), r, at);
                            if let Cell::Content(x) = c.as_inner() {
                                self.container(x, range(c), range(c).a);
                            }
                        }
                    }
                }
            }
            _ => {}
        }
        end
    }
    fn list(&self, li: &List, r: R) {
        let mut at = r.a;
        for i in li.into_iter() {
            let ir = range(i);
            at = self.within(ir, r, at);
            let mut x = ir.a;
            for c in i.contents.iter() {
                x = self.block(c, ir, x);
            }
        }
    }
    /// Every region of the page is well placed and only white space lies
    /// outside the top-level elements.
    pub fn page(&self, p: &Page) {
        let whole = R { a: 0, b: self.s.len() };
        let mut at = 0;
        for e in &p.elements {
            let r = range(e);
            let n = self.block(e, whole, at);
            self.blank(at, r.a);
            at = n;
            reach(1);
        }
        self.blank(at, self.s.len());
    }
    fn blank(&self, a: usize, b: usize) {
        let ok = self.s.as_bytes()[a..b].iter().all(|c| matches!(c, b' ' | b'\t' | b'\r' | b'\n'));
        check(ok, M + line!());
    }
}

/// The plain string behind a `Cow` of any lifetime.
#[allow(dead_code)]
pub fn st<'x>(c: &'x Cow<'_, str>) -> &'x str {
    c.as_ref()
}

/// Every block of the page, at any depth, with its region.
pub fn blocks(p: &Page, f: &mut dyn FnMut(&BlockElement, R)) {
    for e in &p.elements {
        block(e, f);
    }
}
fn block(l: &Located<BlockElement>, f: &mut dyn FnMut(&BlockElement, R)) {
    f(l.as_inner(), range(l));
    if let BlockElement::List(li) = l.as_inner() {
        for i in li.into_iter() {
            for c in i.contents.iter() {
                block(c, f);
            }
        }
    }
}
/// Every run of inline content of the page.
pub fn containers(p: &Page, f: &mut dyn FnMut(&InlineElementContainer)) {
    blocks(p, &mut |b, _| match b {
        BlockElement::Header(h) => f(&h.content),
        BlockElement::Paragraph(p) => {
            for l in &p.lines {
                f(l)
            }
        }
        BlockElement::DefinitionList(d) => {
            for i in &d.items {
                f(i.term.as_inner().as_inner());
                for d in i.definitions.iter() {
                    f(d.as_inner().as_inner());
                }
            }
        }
        BlockElement::Table(t) => {
            for row in 0..t.row_cnt() {
                for col in 0..t.col_cnt() {
                    if let Some(Cell::Content(x)) = t.get_cell(row, col).map(|c| c.as_inner()) {
                        f(x);
                    }
                }
            }
        }
        _ => {}
    });
}
