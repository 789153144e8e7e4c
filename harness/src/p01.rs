//! Parsing always yields a page.
use crate::{corpus::*, sym::*, util::*, H};
#[allow(unused_imports)]
use vimwiki_core::*;

const M: u32 = 10000;

pub static HS: &[H] = &[H { name: "h_parse", f: h_parse, jobs: j_parse, bounds: "the documents of the corpus as written and with any one character replaced by any ASCII character, texts of up to three arbitrary characters; thorough: also insertions (ASCII, U+0080..U+00BF, U+2000..U+203F), cuts, pairs of characters" }];

#[no_mangle]
pub extern "C" fn h_parse(p: u64) {
    let r = parse(any(p));
    check(r.is_some(), M + line!());
    reach(1);
    if let Some(p) = &r {
        obs(p.elements.len() as u64);
    }
    core::mem::forget(r);
}
fn j_parse(th: bool) -> Vec<u64> {
    let mut v = anytexts();
    v.extend(on("*", &[LIT, OVER]));
    v.extend(on("R", &[LIT]));
    v.extend(every(if th { 1 } else { 4 }, on("R", &[OVER])));
    if th {
        v.extend(on("R", &[INS, CUT, INSC2, INSP3]));
        v.extend(on("*", &[INS, CUT, INSC2, INSP3, OVER2]));
    }
    v
}
