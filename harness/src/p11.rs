//! A page written as JSON (pretty or compact) and read back, from memory or
//! from a stream, is the page, regions included.
use crate::{corpus::*, skel::*, sym::*, util::*, H};
#[allow(unused_imports)]
use vimwiki_core::*;

const M: u32 = 110000;

pub static HS: &[H] = &[H { name: "h_json", f: h_json, jobs: j_json, bounds: "" }];

#[no_mangle]
pub extern "C" fn h_json(p: u64) {
    if let Some(a) = parse(any(p)) {
        reach(1);
        let x = skel(&a, false, true);
        let j = serde_json::to_string_pretty(&a);
        check(j.is_ok(), M + line!());
        if let Ok(j) = j {
            let j: &'static str = j.leak();
            note(j.as_bytes());
            let b: Result<Page<'static>, _> = serde_json::from_reader(j.as_bytes());
            check(b.is_ok(), M + line!());
            if let Ok(b) = b {
                check(x == skel(&b, false, true), M + line!());
                check(b.strict_eq(&a), M + line!());
                core::mem::forget(b);
            }
            let b: Result<Page<'static>, _> = serde_json::from_str(j);
            check(b.is_ok(), M + line!());
            if let Ok(b) = b {
                check(x == skel(&b, false, true), M + line!());
                core::mem::forget(b);
            }
        }
        core::mem::forget(a);
    }
}
fn j_json(th: bool) -> Vec<u64> {
    let mut v = anytexts();
    v.extend(on("*", &[LIT]));
    v.extend(on("R", &[LIT]));
    v.extend(every(if th { 1 } else { 8 }, on("R", &[OVER])));
    v.extend(on("ltcxk", &[OVERM]));
    if th {
        v.extend(on("*", &[OVER, INS, CUT]));
    }
    v
}
