//! Inline markup is found where the format puts it, and nowhere else.
use crate::walk::*;
use crate::{blk::*, corpus::*, sym::*, util::*, H};
#[allow(unused_imports)]
use vimwiki_core::*;

const M: u32 = 230000;

pub static HS: &[H] = &[H { name: "h_markup", f: h_markup, jobs: j_markup, bounds: "documents of a corpus of 60 lines of inline markup and of the common corpus, as written and with any one character replaced by any ASCII character, texts of up to three arbitrary characters; thorough: also insertions, cuts and pairs of characters; outside: comments over several lines, bare carriage returns; whether unusual addresses (characters other than letters, digits, blank, slash, dot, dash, underscore) make links is taken from the page" }];

static TEXTS: &[(&str, &str)] = &[
    ("k", "a*b*c\n"),
    ("k", "*a b* _c_ ~~d~~\n"),
    ("k", "^a^b,,c,,d\n"),
    ("k", "*_a_* _~~b~~_\n"),
    ("k", "*a _b* c_\n"),
    ("k", "**a** __b__\n"),
    ("k", "~~~a~~ ,,,b,,\n"),
    ("k", "*a\nb* c*\n"),
    ("k", "*TODO* a_XXX_\n"),
    ("k", "*a `b* c` d*\n"),
    ("k", "_a $b_ c$ d_\n"),
    ("k", "*[[a*b]]c*\n"),
    ("k", "*a [[b]] {{c}}*\n"),
    ("k", "*:a: b* :c:\n"),
    ("k", "*a%%b*\n"),
    ("k", "*http://a b*\n"),
    ("g", "`a` b`c`\n"),
    ("g", "``a`` `b\n"),
    ("g", "`a*b`c*\n"),
    ("g", "$a$ $b c$d\n"),
    ("g", "$$a$$ b$\n"),
    ("g", "$a%%b$ `c%%d`\n"),
    ("g", "a `b $c` d$\n"),
    ("w", "a %%b *c*\n"),
    ("w", "%%a\nb %c\n"),
    ("w", "a%%%b\n"),
    ("y", ":a: b :c:d:\n"),
    ("y", "a:b: :c\n"),
    ("y", ":a:b :c: d\n"),
    ("y", "::a: :b::\n"),
    ("y", "*:a:*\n"),
    ("y", ":a:\t:b:\n:c:\n"),
    ("y", "- :a:\n|:b:| :c: |\n"),
    ("z", "TODO a DONE\n"),
    ("z", "aFIXEDb FIXME\n"),
    ("z", "STARTEDXXX XX\n"),
    ("z", "TODOTODO *DONE*\n"),
    ("i", "[[a]] b [[c|d]]\n"),
    ("i", "[[a]b]] [c] [[d\n"),
    ("i", "[[]] [[]]] {{}}\n"),
    ("i", "[[a%%b]] c\n"),
    ("i", "a{{b.png}} {{c|d}}\n"),
    ("i", "{{a}b}} {{{c}}}\n"),
    ("i", "[[a|{{b}}]] c\n"),
    ("i", "[[a b]]*c*[[d]]\n"),
    ("i", "[[diary:2021-03-05]] [[wiki1:a]]\n"),
    ("i", "a [[b\n]] c\n"),
    ("i", "http://a.b c\n"),
    ("i", "a https://b/c?d#e f\n"),
    ("i", "mailto:a@b ftp:c\n"),
    ("i", "ahttp://b (http://c\n"),
    ("i", "`a`http://b *c*ftp:d\n"),
    ("i", "a:b http:c:d :e:\n"),
    ("i", "local:a file:/b x:c\n"),
    ("h", "= *a* `b` =\n"),
    ("h", "*a*:: _b_ :: c\n"),
    ("h", "- *a* b\n  _c_\n"),
    ("h", "|*a*|`b|c`|\n"),
    ("u", "*\u{2}* \u{2}`a`\n"),
    ("u", "\u{2}:a: TODO\u{2}\n"),
];

#[derive(Clone, Copy, PartialEq)]
enum K {
    Text,
    Comment,
    Math,
    Code,
    Tags,
    Link,
    Raw,
    Keyword,
    Deco(&'static str),
}
/// What starts at `i`, and where it ends.
type Tok = (K, usize);

struct X<'a> {
    b: &'a [u8],
    /// Where the page has links: start and end.
    links: Vec<Sp>,
}

impl X<'_> {
    fn starts(&self, i: usize, e: usize, p: &str) -> bool {
        starts(self.b, i, e, p)
    }
    /// What is between `l` at `i` and the next `r`, not empty, no comment.
    fn surround(&self, i: usize, e: usize, l: &str, r: &str) -> Option<Sp> {
        if !self.starts(i, e, l) {
            return None;
        }
        let a = i + l.len();
        if a >= e {
            return None;
        }
        let z = find(self.b, a + 1, e, r)?;
        if find(self.b, a, z, "%%").is_some() {
            return None;
        }
        Some((a, z))
    }
    fn page_has(&self, a: usize, e: usize) -> bool {
        self.links.iter().any(|l| *l == (a, e))
    }
    fn link(&self, i: usize, e: usize) -> Option<Tok> {
        for (l, r) in [("[[", "]]"), ("{{", "}}")] {
            if let Some((a, z)) = self.surround(i, e, l, r) {
                let bar = find(self.b, a, z, "|").unwrap_or(z);
                let plain = |c: u8| c.is_ascii_alphanumeric() || matches!(c, b' ' | b'/' | b'.' | b'-' | b'_');
                let sure = bar > a && self.b[a] != b'/' && self.b[a..bar].iter().all(|c| plain(*c));
                if sure || self.page_has(i, z + 2) {
                    return Some((K::Link, z + 2));
                }
            }
        }
        self.raw(i, e)
    }
    /// A word that begins with a scheme.
    fn raw(&self, i: usize, e: usize) -> Option<Tok> {
        let b = self.b;
        let mut z = i;
        while z < e && !matches!(b[z], b' ' | b'\t' | b'\n' | b'\r') {
            z += 1;
        }
        let c = find(b, i, z, ":")?;
        let low: Vec<u8> = b[i..c].iter().map(|c| c.to_ascii_lowercase()).collect();
        let known = [&b"http"[..], b"https", b"ftp", b"file", b"local", b"mailto"].iter().any(|s| low == *s);
        if !known {
            return None;
        }
        let plain = |c: u8| c.is_ascii_alphanumeric() || matches!(c, b'.' | b'-' | b'_');
        let sure = low == b[i..c] && z > c + 1 && b[c + 1..z].iter().all(|c| plain(*c));
        if sure || self.page_has(i, z) {
            Some((K::Raw, z))
        } else {
            None
        }
    }
    fn tags(&self, i: usize, e: usize) -> Option<Tok> {
        let b = self.b;
        if !self.starts(i, e, ":") || (i > 0 && !b[i - 1].is_ascii_whitespace()) {
            return None;
        }
        let mut z = i;
        let mut last = i;
        let mut n = 0;
        z += 1;
        while z < e && !b[z].is_ascii_whitespace() {
            if b[z] == b':' {
                if z == last + 1 {
                    return None;
                }
                last = z;
                n += 1;
            }
            z += 1;
        }
        if n > 0 && last + 1 == z {
            Some((K::Tags, z))
        } else {
            None
        }
    }
    fn keyword(&self, i: usize, e: usize) -> Option<Tok> {
        ["DONE", "FIXED", "FIXME", "STARTED", "TODO", "XXX"].iter().find(|k| self.starts(i, e, k)).map(|k| (K::Keyword, i + k.len()))
    }
    fn deco(&self, i: usize, e: usize) -> Option<Tok> {
        for m in ["*", "_", "~~", "^", ",,"] {
            if let Some((_, z)) = self.surround(i, e, m, m) {
                return Some((K::Deco(m), z + m.len()));
            }
        }
        None
    }
    fn math(&self, i: usize, e: usize) -> Option<Tok> {
        if !self.starts(i, e, "$") {
            return None;
        }
        let z = find(self.b, i + 1, e, "$")?;
        if z == i + 1 || find(self.b, i + 1, z, "%%").is_some() {
            return None;
        }
        Some((K::Math, z + 1))
    }
    /// Anything but text; raw links only where text does not precede them.
    fn special(&self, i: usize, e: usize, raw: bool) -> Option<Tok> {
        match self.b[i] {
            b'%' if self.starts(i, e, "%%") => return Some((K::Comment, e)),
            b'$' => {
                if let Some(t) = self.math(i, e) {
                    return Some(t);
                }
            }
            b'`' => {
                if let Some((_, z)) = self.surround(i, e, "`", "`") {
                    return Some((K::Code, z + 1));
                }
            }
            b':' => {
                if let Some(t) = self.tags(i, e) {
                    return Some(t);
                }
            }
            b'[' | b'{' => {
                if let Some(t) = self.link(i, e) {
                    return Some(t);
                }
            }
            b'*' | b'_' | b'~' | b'^' | b',' => {
                if let Some(t) = self.deco(i, e) {
                    return Some(t);
                }
            }
            _ => {}
        }
        if raw {
            if let Some(t) = self.raw(i, e) {
                return Some(t);
            }
        }
        self.keyword(i, e)
    }
    fn next(&self, i: usize, e: usize) -> Tok {
        if let Some(t) = self.special(i, e, true) {
            return t;
        }
        let mut j = i + 1;
        while j < e {
            if self.special(j, e, false).is_some() {
                break;
            }
            if self.b[j] == b':' {
                // the word up to here may be the start of a raw link
                let mut w = j;
                while w > 0 && !self.b[w - 1].is_ascii_whitespace() {
                    w -= 1;
                }
                if w > i && self.raw(w, e).is_some() {
                    return (K::Text, w);
                }
            }
            j += 1;
        }
        (K::Text, j)
    }

    fn container(&self, c: &InlineElementContainer) {
        let (mut i, e) = span(c);
        for x in c.iter() {
            let r = range(x);
            check(i < e, M + line!());
            if i >= e {
                return;
            }
            let (k, z) = self.next(i, e);
            reach(1);
            check(r.a == i && r.b == z, M + line!());
            let ok = match (x.as_inner(), k) {
                (InlineElement::Text(_), K::Text) => true,
                (InlineElement::Comment(Comment::Line(_)), K::Comment) => true,
                (InlineElement::Math(_), K::Math) => true,
                (InlineElement::Code(_), K::Code) => true,
                (InlineElement::Tags(_), K::Tags) => true,
                (InlineElement::Link(Link::Raw { .. }), K::Raw) => true,
                (InlineElement::Link(Link::Raw { .. }), _) => false,
                (InlineElement::Link(l), K::Link) => self.kind(l, i, z),
                (InlineElement::Keyword(_), K::Keyword) => true,
                (InlineElement::DecoratedText(d), K::Deco(m)) => self.decorated(d, m, i, z),
                _ => false,
            };
            check(ok, M + line!());
            i = z;
        }
        check(i == e, M + line!());
    }
    /// Which kind of link.
    fn kind(&self, l: &Link, i: usize, z: usize) -> bool {
        let (a, e) = (i + 2, z - 2);
        if self.starts(i, z, "{{") {
            return matches!(l, Link::Transclusion { .. });
        }
        match l {
            Link::Diary { .. } => self.starts(a, e, "diary:"),
            Link::IndexedInterWiki { index, .. } => {
                let c = find(self.b, a, e, ":").unwrap_or(a);
                self.starts(a, e, "wiki") && self.b[a + 4..c].iter().fold(0, |x, c| if *c == b'+' { x } else { x * 10 + (*c as u32).wrapping_sub(48) }) == *index
            }
            Link::NamedInterWiki { name, .. } => {
                let c = find(self.b, a, e, ":").unwrap_or(a);
                self.starts(a, e, "wn.") && &self.b[a + 3..c] == name.as_bytes()
            }
            Link::Wiki { .. } => {
                // none of the other kinds
                let c = find(self.b, a, e, ":");
                let num = match c {
                    Some(c) => self.starts(a, e, "wiki") && c > a + 4 && c < a + 12 && c + 1 < e && self.b[c + 1] != b'|' && self.b[a + 4..c].iter().all(u8::is_ascii_digit),
                    None => false,
                };
                let bar = find(self.b, a, e, "|").unwrap_or(e);
                let bar = find(self.b, a, bar, "#").unwrap_or(bar);
                let plain = |a: usize| self.b[a..e].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'/');
                let day = self.starts(a, e, "diary:") && bar == a + 16 && date(self.b, (a + 6, a + 16)).is_some();
                let named = self.starts(a, e, "wn.") && c.map_or(false, |c| c > a + 3 && c + 1 < e && plain(c + 1) && find(self.b, a, c, "|").is_none());
                !(num && plain(c.unwrap_or(a) + 1)) && !day && !named
            }
            _ => false,
        }
    }
    fn decorated(&self, d: &DecoratedText, m: &'static str, i: usize, z: usize) -> bool {
        let n = m.len();
        let kind = match d {
            DecoratedText::Bold(_) => m == "*",
            DecoratedText::Italic(_) => m == "_",
            DecoratedText::Strikeout(_) => m == "~~",
            DecoratedText::Superscript(_) => m == "^",
            DecoratedText::Subscript(_) => m == ",,",
        };
        if !kind {
            return false;
        }
        let (mut i, e) = (i + n, z - n);
        for c in d.as_contents_slice() {
            let r = range(c);
            if i >= e {
                return false;
            }
            let (k, z) = self.next(i, e);
            if r.a != i || r.b != z {
                return false;
            }
            let ok = match (c.as_inner(), k) {
                // code, math and tags are text within decorated text
                (DecoratedTextContent::Text(_), K::Text | K::Code | K::Math | K::Tags) => true,
                (DecoratedTextContent::Keyword(_), K::Keyword) => true,
                (DecoratedTextContent::Link(Link::Raw { .. }), K::Raw) => true,
                (DecoratedTextContent::Link(l), K::Link) => self.kind(l, i, z),
                (DecoratedTextContent::DecoratedText(d), K::Deco(m)) => self.decorated(d, m, i, z),
                _ => false,
            };
            if !ok {
                return false;
            }
            i = z;
        }
        i == e
    }
}
fn deco_links(d: &DecoratedText, v: &mut Vec<Sp>) {
    for c in d.as_contents_slice() {
        let r = range(c);
        match c.as_inner() {
            DecoratedTextContent::Link(_) => v.push((r.a, r.b)),
            DecoratedTextContent::DecoratedText(d) => deco_links(d, v),
            _ => {}
        }
    }
}

#[no_mangle]
pub extern "C" fn h_markup(p: u64) {
    let s = if p >> 48 & 1 == 1 { text(&template(TEXTS, p & !(1 << 48))) } else { any(p) };
    let b = s.as_bytes();
    for i in 0..b.len() {
        if b[i] == b'\r' {
            assume(i + 1 < b.len() && b[i + 1] == b'\n');
        }
        assume(!(i + 2 < b.len() && b[i] == b'%' && b[i + 1] == b'%' && b[i + 2] == b'+'));
    }
    if let Some(pg) = parse(s) {
        let mut links = vec![];
        containers(&pg, &mut |c| {
            for e in c.iter() {
                let r = range(e);
                match e.as_inner() {
                    InlineElement::Link(_) => links.push((r.a, r.b)),
                    InlineElement::DecoratedText(d) => deco_links(d, &mut links),
                    _ => {}
                }
            }
        });
        let x = X { b, links };
        let mut n = 0;
        containers(&pg, &mut |c| {
            x.container(c);
            n += 1;
        });
        obs(n);
        core::mem::forget(pg);
    }
}
fn j_markup(th: bool) -> Vec<u64> {
    let mut v = anytexts();
    v.extend(on("*", &[LIT]));
    v.extend(on("R", &[LIT]));
    v.extend(every(if th { 1 } else { 12 }, on("R", &[OVER])));
    let mut modes = vec![LIT, OVER];
    if th {
        modes.extend([INS, CUT, OVER2]);
        v.extend(on("*", &[OVER, INS]));
    }
    v.extend(sweep(TEXTS, "*", &modes).iter().map(|p| p | 1 << 48));
    v
}
