//! Equality, strict equality and hashing agree with each other and with what
//! the elements are.
use crate::{corpus::*, mutate::*, skel::*, sym::*, util::*, H};
use std::hash::{Hash, Hasher};
#[allow(unused_imports)]
use vimwiki_core::*;

const M: u32 = 100000;

pub static HS: &[H] = &[
    H { name: "h_eq", f: h_eq, jobs: j_eq, bounds: "a document of the corpus against itself with one character replaced by any ASCII character, an ASCII character inserted, or a prefix of it followed by any ASCII character" },
    H { name: "h_mutate", f: h_mutate, jobs: j_mutate, bounds: "a document of the corpus against itself with any one field of any of its elements (texts, numbers, flags, variants, options, entries of lists and maps, places) set to another value: texts of one or one more arbitrary ASCII character, offsets and lengths up to 255 more, any depth, all variants" },
    H { name: "h_shift", f: h_shift, jobs: j_shift, bounds: "a document of the corpus against itself after an empty line" },
];

/// A hasher that only records what it is given.
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}
fn hash<T: Hash>(e: &T) -> Vec<u8> {
    let mut r = Rec(Vec::with_capacity(128));
    e.hash(&mut r);
    r.0
}
/// Equal blocks have equal hashes (those kinds that have hashes).
fn hashes(a: &BlockElement, b: &BlockElement) {
    use BlockElement::*;
    let same = match (a, b) {
        (Header(x), Header(y)) => hash(x) == hash(y),
        (Placeholder(x), Placeholder(y)) => hash(x) == hash(y),
        (Blockquote(x), Blockquote(y)) => hash(x) == hash(y),
        (MathBlock(x), MathBlock(y)) => hash(x) == hash(y),
        (Divider(x), Divider(y)) => hash(x) == hash(y),
        (Paragraph(x), Paragraph(y)) => hash(&x.lines) == hash(&y.lines),
        (DefinitionList(x), DefinitionList(y)) => {
            let mut r = true;
            for (i, j) in x.items.iter().zip(y.items.iter()) {
                r &= hash(&i.term) == hash(&j.term) && hash(&i.definitions) == hash(&j.definitions);
            }
            r
        }
        (Table(x), Table(y)) => {
            let mut r = true;
            for row in 0..x.row_cnt() {
                for col in 0..x.col_cnt() {
                    r &= hash(&x.get_cell(row, col)) == hash(&y.get_cell(row, col));
                }
            }
            r
        }
        _ => true,
    };
    check(same, M + line!());
}
/// Definitions compare by their text.
fn sk(p: &Page, loc: bool) -> Vec<u8> {
    let mut o = Out::new(false, loc);
    o.deftext = true;
    o.page(p);
    o.o
}
fn one(e: &Located<BlockElement>, loc: bool) -> Vec<u8> {
    let mut w = Out::new(false, loc);
    w.deftext = true;
    w.block(e);
    w.o
}

fn compare(a: &Page, b: &Page) {
    let same = sk(a, false) == sk(b, false);
    let strict = sk(a, true) == sk(b, true);
    reach(1);
    check((a == b) == same, M + line!());
    check((b == a) == same, M + line!());
    check(a.strict_eq(b) == strict, M + line!());
    check(b.strict_eq(a) == strict, M + line!());
    obs(same as u64);
    obs(strict as u64);
    let n = if a.elements.len() < b.elements.len() { a.elements.len() } else { b.elements.len() };
    for i in 0..n {
        let (x, y) = (&a.elements[i], &b.elements[i]);
        let eq = one(x, false) == one(y, false);
        check((x == y) == eq, M + line!());
        if eq {
            hashes(x.as_inner(), y.as_inner());
        }
    }
}
#[no_mangle]
pub extern "C" fn h_eq(p: u64) {
    let t = DOCS[(p & 0xffff) as usize].1;
    if let (Some(a), Some(b)) = (parse(t), parse(doc(p))) {
        check(a == a && a.strict_eq(&a), M + line!());
        compare(&a, &b);
        core::mem::forget((a, b));
    }
}
fn j_eq(th: bool) -> Vec<u64> {
    let mut v = on("*", &[LIT, OVER]);
    v.extend(on("R", &[LIT]));
    v.extend(every(if th { 1 } else { 8 }, on("R", &[OVER])));
    if th {
        v.extend(on("*", &[INS, CUT]));
    }
    v
}
/// Bits 0..16: document, 16..32: the part that changes.
#[no_mangle]
pub extern "C" fn h_mutate(p: u64) {
    if let Some(a) = parse(DOCS[(p & 0xffff) as usize].1) {
        let mut b = a.clone();
        Mu { k: (p >> 16 & 0xffff) as i64 }.page(&mut b);
        compare(&a, &b);
        core::mem::forget((a, b));
    }
}
fn j_mutate(th: bool) -> Vec<u64> {
    let mut v = vec![];
    let mut d = on("R", &[LIT]);
    if th {
        d.extend(on("*", &[LIT]));
    } else {
        d.extend(every(3, on("*", &[OVER])).into_iter().map(|p| p & 0xffff).filter(|p| p % 3 == 0));
    }
    d.sort_unstable();
    d.dedup();
    for d in d {
        if let Some(p) = parse(DOCS[d as usize].1) {
            let n = sites(&p) as u64;
            v.extend((0..n).map(|k| d | k << 16));
        }
    }
    v
}
#[no_mangle]
pub extern "C" fn h_shift(p: u64) {
    let t = template(DOCS, p);
    let s = text(&t);
    let u: &'static str = ["\n", s].concat().leak();
    if let (Some(a), Some(b)) = (parse(s), parse(u)) {
        check(a == b, M + line!());
        compare(&a, &b);
        core::mem::forget((a, b));
    }
}
fn j_shift(th: bool) -> Vec<u64> {
    let mut v = on("*", &[LIT]);
    if th {
        v.extend(on("*", &[OVER]));
    }
    v
}
