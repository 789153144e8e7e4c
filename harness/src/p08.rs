//! HTML is well formed whatever the text is, and ids are unique.
use crate::{corpus::*, sym::*, util::*, H};
#[allow(unused_imports)]
use vimwiki_core::*;

const M: u32 = 80000;

pub static HS: &[H] = &[H { name: "h_wellformed", f: h_wellformed, jobs: j_wf, bounds: "the documents of the corpus as written and with any one character replaced by any ASCII character, texts of up to three arbitrary characters; thorough: also insertions, cuts and pairs of characters; unique ids: texts without a dash before a digit" }];

/// The elements the renderer may produce.
const TAGS: &[&str] = &[
    "a", "blockquote", "code", "dd", "del", "div", "dl", "dt", "em", "h1", "h2", "h3", "h4", "h5", "h6", "li", "ol", "p",
    "pre", "small", "span", "strong", "sub", "sup", "table", "tbody", "td", "th", "thead", "tr", "ul",
];
const EMPTY: &[&str] = &["hr", "img", "br"];

fn word(c: u8) -> bool {
    c.is_ascii_lowercase() || c.is_ascii_digit()
}

/// Tags balanced and known, attributes quoted; fills in the ids.
fn scan<'h>(h: &'h [u8], ids: &mut Vec<&'h [u8]>) -> u32 {
    let mut open: Vec<&[u8]> = vec![];
    let mut i = 0;
    while i < h.len() {
        match h[i] {
            b'>' | b'"' | b'`' => return line!(),
            b'<' => {}
            _ => {
                i += 1;
                continue;
            }
        }
        i += 1;
        let close = i < h.len() && h[i] == b'/';
        if close {
            i += 1;
        }
        let a = i;
        while i < h.len() && word(h[i]) {
            i += 1;
        }
        let name = &h[a..i];
        let empty = EMPTY.iter().any(|t| t.as_bytes() == name);
        if !empty && !TAGS.iter().any(|t| t.as_bytes() == name) {
            return line!();
        }
        if close {
            if i >= h.len() || h[i] != b'>' || open.pop() != Some(name) {
                return line!();
            }
            i += 1;
            continue;
        }
        loop {
            if i >= h.len() {
                return line!();
            }
            if h[i] == b'>' {
                if empty {
                    return line!();
                }
                open.push(name);
                i += 1;
                break;
            }
            if h[i] != b' ' {
                return line!();
            }
            i += 1;
            if empty && i + 1 < h.len() && h[i] == b'/' && h[i + 1] == b'>' {
                i += 2;
                break;
            }
            let a = i;
            while i < h.len() && h[i] != b'=' {
                if matches!(h[i], b'"' | b'<' | b'>' | b'\'' | b'`') {
                    return line!();
                }
                i += 1;
            }
            let attr = &h[a..i];
            if i + 1 >= h.len() || h[i + 1] != b'"' || i == a {
                return line!();
            }
            i += 2;
            let a = i;
            while i < h.len() && h[i] != b'"' {
                if matches!(h[i], b'<' | b'>') {
                    return line!();
                }
                i += 1;
            }
            if i >= h.len() {
                return line!();
            }
            if attr == b"id" {
                ids.push(&h[a..i]);
            }
            i += 1;
        }
    }
    if open.is_empty() {
        0
    } else {
        line!()
    }
}

#[no_mangle]
pub extern "C" fn h_wellformed(p: u64) {
    let s = any(p);
    let mut numbered = false;
    for w in s.as_bytes().windows(2) {
        numbered |= (w[0] == b'-') & w[1].is_ascii_digit();
    }
    if let Some(pg) = parse(s) {
        if let Ok(h) = pg.to_html_string(config()) {
            reach(1);
            obs_bytes(h.as_bytes());
            let mut ids = vec![];
            let e = scan(h.as_bytes(), &mut ids);
            check(e == 0, M + line!());
            let mut unique = true;
            for i in 0..ids.len() {
                for j in 0..i {
                    unique &= ids[i] != ids[j];
                }
            }
            check(unique | numbered, M + line!());
            core::mem::forget(h);
        }
        core::mem::forget(pg);
    }
}
fn j_wf(th: bool) -> Vec<u64> {
    let mut v = anytexts();
    v.extend(on("*", &[LIT]));
    v.extend(on("R", &[LIT]));
    v.extend(every(if th { 1 } else { 6 }, on("R", &[OVER])));
    v.extend(on("hcmgkxyz", &[OVER]));
    if th {
        v.extend(on("*", &[OVER, INS, CUT, OVER2]));
    }
    v
}
