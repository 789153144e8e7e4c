//! Inline content is exactly what the text says.
use crate::walk::*;
use crate::{corpus::*, sym::*, util::*, H};
#[allow(unused_imports)]
use vimwiki_core::*;

const M: u32 = 40000;

pub static HS: &[H] = &[H { name: "h_inline", f: h_inline, jobs: j_inline, bounds: "every document of the corpus as written and with any one character replaced by any ASCII character; inline documents also with one letter U+00C0..U+00FF inserted anywhere; thorough: also insertions (ASCII, U+0080..U+00FF, U+2000..U+203F), cuts, and pairs of ASCII characters" }];

struct Src {
    s: &'static str,
}

/// `t` = open + middle + close; the middle.
fn inner<'x>(t: &'x str, open: &str, close: &str) -> Option<&'x str> {
    let b = t.as_bytes();
    let (o, c) = (open.as_bytes(), close.as_bytes());
    if b.len() < o.len() + c.len() {
        return None;
    }
    if &b[..o.len()] != o || &b[b.len() - c.len()..] != c {
        return None;
    }
    t.get(o.len()..b.len() - c.len())
}

/// The URI type stores the scheme and host in lower case, an empty path as
/// "/" and no colon for an empty port.
fn same_uri(a: &[u8], b: &[u8]) -> bool {
    let (mut i, mut j, mut slash, mut colon) = (0, 0, false, false);
    while i < a.len() || j < b.len() {
        if i < a.len() && j < b.len() && a[i].eq_ignore_ascii_case(&b[j]) {
            i += 1;
            j += 1;
        } else if j < b.len() && b[j] == b':' && !colon {
            colon = true;
            j += 1;
        } else if i < a.len() && a[i] == b'/' && !slash {
            slash = true;
            i += 1;
        } else {
            return false;
        }
    }
    true
}

impl Src {
    fn at(&self, r: R) -> &'static str {
        match self.s.get(r.a..r.b) {
            Some(x) => x,
            None => {
                check(false, M + line!());
                ""
            }
        }
    }
    /// Is the text at `r` exactly open + content + close?
    fn is(&self, r: R, open: &str, content: &str, close: &str, id: u32) {
        let ok = match inner(self.at(r), open, close) {
            Some(m) => m.as_bytes() == content.as_bytes(),
            None => false,
        };
        check(ok, id);
    }
    fn container(&self, c: &InlineElementContainer) {
        let mut last: Option<usize> = None;
        check(c.iter().next().is_some(), M + line!());
        for e in c.iter() {
            let r = range(e);
            if let Some(l) = last {
                check(l == r.a, M + line!());
            }
            last = Some(r.b);
            reach(1);
            self.inline(e.as_inner(), r);
        }
    }
    fn inline(&self, e: &InlineElement, r: R) {
        match e {
            InlineElement::Text(t) => self.text(t, r),
            InlineElement::Code(c) => self.is(r, "`", c.as_str(), "`", M + line!()),
            InlineElement::Math(c) => self.is(r, "$", c.as_str(), "$", M + line!()),
            InlineElement::Tags(t) => {
                let mut s = String::new();
                for t in t.iter() {
                    s.push(':');
                    s.push_str(t.as_str());
                }
                s.push(':');
                self.is(r, "", &s, "", M + line!());
            }
            InlineElement::Keyword(k) => self.keyword(k, r),
            InlineElement::Link(l) => self.link(l, r),
            InlineElement::DecoratedText(d) => self.decorated(d, r),
            InlineElement::Comment(Comment::Line(c)) => {
                check(!c.as_str().contains('\n'), M + line!());
                self.is(r, "%%", c.as_str(), "", M + line!())
            }
            InlineElement::Comment(Comment::MultiLine(c)) => {
                let ok = match inner(self.at(r), "%%+", "+%%") {
                    Some(m) => {
                        let mut n = 0;
                        let mut ok = true;
                        let mut parts = m.split('\n').peekable();
                        while let Some(x) = parts.next() {
                            let last = parts.peek().is_none();
                            if last && x.is_empty() {
                                break;
                            }
                            let x = if last { x } else { x.strip_suffix('\r').unwrap_or(x) };
                            ok &= n < c.len() && c[n].as_bytes() == x.as_bytes();
                            n += 1;
                        }
                        ok && n == c.len()
                    }
                    None => false,
                };
                check(ok, M + line!());
            }
        }
    }
    fn text(&self, t: &Text, r: R) {
        check(!t.as_str().is_empty() && !t.as_str().contains('\n'), M + line!());
        self.is(r, "", t.as_str(), "", M + line!());
    }
    fn keyword(&self, k: &Keyword, r: R) {
        let w = match k {
            Keyword::Done => "DONE",
            Keyword::Fixed => "FIXED",
            Keyword::Fixme => "FIXME",
            Keyword::Started => "STARTED",
            Keyword::Todo => "TODO",
            Keyword::Xxx => "XXX",
        };
        self.is(r, "", w, "", M + line!());
    }
    fn link(&self, l: &Link, r: R) {
        let t = self.at(r);
        check(!t.contains('\n'), M + line!());
        match l {
            Link::Raw { data } => check(same_uri(data.uri_ref.to_string().as_bytes(), t.as_bytes()), M + line!()),
            Link::Transclusion { .. } => check(inner(t, "{{", "}}").is_some(), M + line!()),
            _ => check(inner(t, "[[", "]]").is_some(), M + line!()),
        }
    }
    fn decorated(&self, d: &DecoratedText, r: R) {
        let m = match d {
            DecoratedText::Bold(_) => "*",
            DecoratedText::Italic(_) => "_",
            DecoratedText::Strikeout(_) => "~~",
            DecoratedText::Superscript(_) => "^",
            DecoratedText::Subscript(_) => ",,",
        };
        check(inner(self.at(r), m, m).is_some(), M + line!());
        let mut at = r.a + m.len();
        for c in d.as_contents_slice() {
            let r = range(c);
            check(r.a == at, M + line!());
            at = r.b;
            match c.as_inner() {
                DecoratedTextContent::Text(t) => self.text(t, r),
                DecoratedTextContent::Keyword(k) => self.keyword(k, r),
                DecoratedTextContent::Link(l) => self.link(l, r),
                DecoratedTextContent::DecoratedText(d) => self.decorated(d, r),
            }
        }
        check(at + m.len() == r.b, M + line!());
    }
    /// Between the lines of a paragraph: blanks and exactly one line end.
    fn gap(&self, a: usize, b: usize, ends: usize) {
        let t = self.at(R { a, b }).as_bytes();
        let nl = t.iter().filter(|c| **c == b'\n').count();
        check(t.iter().all(|c| matches!(c, b' ' | b'\t' | b'\r' | b'\n')), M + line!());
        check(nl <= ends, M + line!());
    }
    fn paragraph(&self, p: &Paragraph, r: R) {
        let mut at = r.a;
        let mut first = true;
        check(!p.lines.is_empty(), M + line!());
        for l in &p.lines {
            if let (Some(f), Some(z)) = (l.iter().next(), l.iter().last()) {
                self.gap(at, range(f).a, if first { 0 } else { 1 });
                at = range(z).b;
                first = false;
            }
        }
        self.gap(at, r.b, 1);
    }
}

#[no_mangle]
pub extern "C" fn h_inline(p: u64) {
    let s = any(p);
    if let Some(pg) = parse(s) {
        let x = Src { s };
        containers(&pg, &mut |c| x.container(c));
        blocks(&pg, &mut |b, r| {
            if let BlockElement::Paragraph(p) = b {
                x.paragraph(p, r);
            }
        });
        obs(pg.elements.len() as u64);
        core::mem::forget(pg);
    }
}
fn j_inline(th: bool) -> Vec<u64> {
    let mut v = anytexts();
    v.extend(on("*", &[LIT]));
    v.extend(every(if th { 1 } else { 2 }, on("puwyigkoz", &[OVER])));
    v.extend(every(if th { 1 } else { 2 }, on("yigk", &[INSL2])));
    v.extend(on("R", &[LIT]));
    v.extend(every(if th { 1 } else { 6 }, on("R", &[OVER])));
    v.extend(every(if th { 1 } else { 10 }, on("R", &[INSC2])));
    if th {
        v.extend(on("*", &[OVER, INS, INSL2, CUT, INSC2, INSP3, OVER2]));
    }
    v
}
