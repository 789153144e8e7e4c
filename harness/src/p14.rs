//! Regions are intervals, and elements keep theirs.
use crate::{sym::*, H};
use std::hash::{Hash, Hasher};
use vimwiki_core::*;

const M: u32 = 140000;

pub static HS: &[H] = &[
    H { name: "h_region", f: h_region, jobs: |_| (0..7).collect(), bounds: "all offsets, lengths, depths and positions of 64 (depth: 16) bits; outside: the ranges 0..=MAX and ..=MAX, whose length is no 64-bit number" },
    H { name: "h_located", f: h_located, jobs: |_| (0..3).collect(), bounds: "texts of up to one character at all regions" },
];

fn is(r: Region, offset: usize, len: usize, depth: u16, l: u32) {
    check(r.offset() == offset, M + l);
    check(r.len() == len, M + l);
    check(r.depth() == depth, M + l);
    check(r.is_empty() == (len == 0), M + l);
}
#[no_mangle]
pub extern "C" fn h_region(k: u64) {
    let (a, b) = (u64_() as usize, u64_() as usize);
    let d = u16_();
    reach(1);
    match k {
        0 => {
            is(Region::new(a, b), a, b, 0, line!());
            let r = Region::new_at_depth(a, b, d);
            is(r, a, b, d, line!());
            let e = u16_();
            is(r.with_depth(e), a, b, e, line!());
            is(r, a, b, d, line!());
        }
        1 => {
            let r = Region::new_at_depth(a, b, d);
            let x = u64_() as usize;
            check(r.contains(x) == (x >= a && x.wrapping_sub(a) < b), M + line!());
        }
        2 => {
            let r: Region = (a..b).into();
            is(r, a, if b < a { 0 } else { b - a }, 0, line!());
            // as the range
            let x = u64_() as usize;
            check(r.contains(x) == (a..b).contains(&x), M + line!());
        }
        3 => {
            assume(a != 0 || b != usize::MAX);
            let r: Region = (a..=b).into();
            is(r, a, if b < a { 0 } else { (b - a).wrapping_add(1) }, 0, line!());
            let x = u64_() as usize;
            check(r.contains(x) == (a..=b).contains(&x), M + line!());
        }
        4 => {
            let r: Region = (..b).into();
            is(r, 0, b, 0, line!());
            let x = u64_() as usize;
            check(r.contains(x) == (..b).contains(&x), M + line!());
        }
        5 => {
            assume(b != usize::MAX);
            let r: Region = (..=b).into();
            is(r, 0, b + 1, 0, line!());
            let x = u64_() as usize;
            check(r.contains(x) == (..=b).contains(&x), M + line!());
        }
        _ => {
            let r: Region = (a, b).into();
            is(r, a, b, 0, line!());
        }
    }
}

/// What is written into the hash.
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
    fn finish(&self) -> u64 {
        0
    }
}
fn h<T: Hash>(t: &T) -> Vec<u8> {
    let mut s = Rec(vec![]);
    t.hash(&mut s);
    s.0
}
#[no_mangle]
pub extern "C" fn h_located(k: u64) {
    let s = text(["", "\u{1}", "\u{2}"][k as usize]);
    let t = text(["", "\u{1}", "\u{2}"][k as usize]);
    let r = Region::new_at_depth(u64_() as usize, u64_() as usize, u16_());
    let q = Region::new_at_depth(u64_() as usize, u64_() as usize, u16_());
    let x = Located::new(Text::from(s), r);
    let y = Located::new(Text::from(t), q);
    reach(1);
    check(x.region() == r && x.depth() == r.depth() && x.as_inner().as_ref() == s, M + line!());
    check((r == q) == (r.offset() == q.offset() && r.len() == q.len() && r.depth() == q.depth()), M + line!());
    // where they stand matters for strict equality only
    let same = s == t;
    check((x == y) == same, M + line!());
    check(x.strict_eq(&y) == (same && r == q), M + line!());
    check((x == *y.as_inner()) == same && x.strict_eq(y.as_inner()) == same, M + line!());
    if same {
        check(h(&x) == h(&y), M + line!());
    }
    // conversions keep both
    let z = x.clone().map(InlineElement::from);
    check(z.region() == r && matches!(z.as_inner(), InlineElement::Text(v) if v.as_ref() == s), M + line!());
    check(x.as_ref().region() == r && x.as_ref().into_inner().as_ref() == s, M + line!());
    let mut w = x.clone();
    check(w.as_mut().region() == r && w.as_mut_inner().as_ref() == s, M + line!());
    let w = w.take_with_region(q);
    check(w.region() == q && w.as_inner().as_ref() == s, M + line!());
    check(w.strict_eq(&y) == same, M + line!());
    match x.clone().map(Some).transpose() {
        Some(v) => check(v.strict_eq(&x), M + line!()),
        None => check(false, M + line!()),
    }
    check(y.map(|_| None::<Text>).transpose().is_none(), M + line!());
    check(Located::from(Text::from(s)).region() == Region::new(0, 0), M + line!());
    check(x.into_inner().as_ref() == s, M + line!());
}
