//! Regions are nested, ordered, on character boundaries and cover the text.
use crate::walk::Src;
use crate::{corpus::*, sym::*, util::*, H};
#[allow(unused_imports)]
use vimwiki_core::*;

const M: u32 = 30000;

pub static HS: &[H] = &[H { name: "h_regions", f: h_regions, jobs: j_regions, bounds: "as P01, and any letter of U+00C0..U+00FF inserted into paragraphs, definition lists, lists, tables and blockquotes; thorough: everywhere, also cuts, white space of other kinds, pairs of characters" }];

#[no_mangle]
pub extern "C" fn h_regions(p: u64) {
    let s = any(p);
    if let Some(pg) = parse(s) {
        Src { s }.page(&pg);
        for e in &pg.elements {
            obs(e.region().offset() as u64);
            obs(e.region().len() as u64);
        }
        core::mem::forget(pg);
    }
}
fn j_regions(th: bool) -> Vec<u64> {
    let mut v = anytexts();
    v.extend(on("*", &[LIT, OVER]));
    v.extend(on("R", &[LIT]));
    v.extend(every(if th { 1 } else { 3 }, on("R", &[OVER])));
    v.extend(on("pdltq", &[INSL2]));
    if th {
        v.extend(on("*", &[INS, INSL2, CUT, INSC2, INSP3, OVER2]));
    }
    v
}
