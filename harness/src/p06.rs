//! CRLF and LF mean the same.
use crate::{corpus::*, skel::*, sym::*, util::*, H};
#[allow(unused_imports)]
use vimwiki_core::*;

const M: u32 = 60000;

pub static HS: &[H] = &[H { name: "h_crlf", f: h_crlf, jobs: j_crlf, bounds: "the documents of the corpus as written and with any one character replaced by any ASCII character other than CR, texts of up to three arbitrary characters; all line ends turned into CRLF, or only the first, second or last one; thorough: also insertions and cuts" }];

/// Turn the line ends that `which` selects into CRLF: 0 all, 1 the first,
/// 2 the second, 3 the last.
fn crlf(s: &str, which: u32) -> &'static str {
    let b = s.as_bytes();
    let mut total = 0;
    for &c in b {
        if c == b'\n' {
            total += 1;
        }
    }
    let mut v = Vec::with_capacity(b.len() * 2);
    let mut n = 0;
    for &c in b {
        if c == b'\n' {
            n += 1;
            if which == 0 || n == which && which < 3 || which == 3 && n == total {
                v.push(b'\r');
            }
        }
        v.push(c);
    }
    note(&v);
    unsafe { std::str::from_utf8_unchecked(v.leak()) }
}

#[no_mangle]
pub extern "C" fn h_crlf(p: u64) {
    let which = (p >> 48) as u32 & 7;
    let p = p & !(7 << 48);
    let s = any(p);
    for &c in s.as_bytes() {
        if c == b'\r' {
            return;
        }
    }
    let t = crlf(s, which);
    if let (Some(a), Some(b)) = (parse(s), parse(t)) {
        reach(1);
        let x = skel(&a, false, false);
        check(x == skel(&b, false, false), M + line!());
        obs_bytes(&x);
        core::mem::forget((a, b));
    }
}
fn j_crlf(th: bool) -> Vec<u64> {
    let mut v = anytexts();
    v.extend(on("*", &[LIT]));
    v.extend(on("R", &[LIT]));
    v.extend(every(if th { 1 } else { 6 }, on("R", &[OVER])));
    v.extend(every(if th { 1 } else { 2 }, on("pdltcmqo", &[OVER])));
    if th {
        v.extend(on("*", &[OVER, INS, CUT]));
    }
    // some line ends only
    for w in 1..4u64 {
        v.extend(on("*", &[LIT]).iter().map(|p| p | w << 48));
        if th {
            v.extend(on("*", &[OVER]).iter().map(|p| p | w << 48));
        }
    }
    v
}
