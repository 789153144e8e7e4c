//! Writing a page back as vimwiki and parsing it again gives the same page,
//! and formatting formatted text changes nothing.
use crate::walk::*;
use crate::{corpus::*, skel::*, sym::*, util::*, H};
#[allow(unused_imports)]
use vimwiki_core::*;

const M: u32 = 50000;

pub static HS: &[H] = &[H { name: "h_roundtrip", f: h_roundtrip, jobs: j_round, bounds: "the documents of the corpus as written and with any one character replaced by any ASCII character, texts of up to three arbitrary characters; thorough: also insertions, cuts and pairs of characters; outside: white space other than blank, tab, LF and CRLF, U+2000..U+207F, lines where trimming turns text into markup (blanks between a line end and ] | > or a digit, a blank before % or ::, two blanks within a line, one blank before a marker at the start of a line, :: in tables), code and math blocks on the marker line of a list item, blockquotes or sub-lists that follow each other, links with an empty description or attribute list, code block attributes with white space in a key, texts in cells that look like tags" }];

#[no_mangle]
pub extern "C" fn h_roundtrip(p: u64) {
    let s = any(p);
    if !plain(s) {
        return;
    }
    if let Some(pg) = parse(s) {
        if !expressible(&pg) {
            core::mem::forget(pg);
            return;
        }
        if let Ok(t) = pg.to_vimwiki_string(VimwikiConfig::default()) {
            let t: &'static str = t.leak();
            note(t.as_bytes());
            if let Some(q) = parse(t) {
                reach(1);
                check(skel(&pg, true, false) == skel(&q, true, false), M + line!());
                if let Ok(u) = q.to_vimwiki_string(VimwikiConfig::default()) {
                    note(u.as_bytes());
                    obs_bytes(u.as_bytes());
                    check(t.as_bytes() == u.as_bytes(), M + line!());
                }
                core::mem::forget(q);
            }
        }
        core::mem::forget(pg);
    }
}
fn j_round(th: bool) -> Vec<u64> {
    let mut v = anytexts();
    v.extend(on("*", &[LIT]));
    v.extend(on("R", &[LIT]));
    v.extend(every(if th { 1 } else { 8 }, on("R", &[OVER])));
    v.extend(every(if th { 1 } else { 2 }, on("dltqxk", &[OVER])));
    if th {
        v.extend(on("*", &[OVER, INS, CUT]));
    }
    v
}
