//! Copies of a page (clone, borrowed, owned) are the page, regions included.
use crate::{corpus::*, skel::*, sym::*, util::*, H};
#[allow(unused_imports)]
use vimwiki_core::*;

const M: u32 = 90000;

pub static HS: &[H] = &[H { name: "h_copies", f: h_copies, jobs: j_copies, bounds: "the documents of the corpus as written and with any one character replaced by any ASCII character, texts of up to three arbitrary characters; thorough: also insertions and cuts" }];

#[no_mangle]
pub extern "C" fn h_copies(p: u64) {
    if let Some(a) = parse(any(p)) {
        reach(1);
        let x = skel(&a, false, true);
        obs_bytes(&x);
        let c = a.clone();
        check(x == skel(&c, false, true), M + line!());
        {
            let b = a.to_borrowed();
            check(x == skel(&b, false, true), M + line!());
            check(b.strict_eq(&a) && b == a, M + line!());
            let o = b.into_owned();
            check(x == skel(&o, false, true), M + line!());
            check(o.strict_eq(&a) && o == a, M + line!());
            core::mem::forget(o);
        }
        let o = c.into_owned();
        check(x == skel(&o, false, true), M + line!());
        // element by element
        for e in &a.elements {
            let y = {
                let mut w = Out::new(false, true);
                w.block(e);
                w.o
            };
            let b = Located::new(e.as_inner().to_borrowed(), e.region());
            let mut w = Out::new(false, true);
            w.block(&b);
            check(w.o == y, M + line!());
            let o = Located::new(e.as_inner().clone().into_owned(), e.region());
            let mut w = Out::new(false, true);
            w.block(&o);
            check(w.o == y, M + line!());
            core::mem::forget((b, o));
        }
        core::mem::forget((a, o));
    }
}
fn j_copies(th: bool) -> Vec<u64> {
    let mut v = anytexts();
    v.extend(on("*", &[LIT]));
    v.extend(on("R", &[LIT]));
    v.extend(every(if th { 1 } else { 6 }, on("R", &[OVER])));
    v.extend(on("dltcxykg", &[OVERM]));
    if th {
        v.extend(on("*", &[OVER, INS, CUT]));
    }
    v
}
