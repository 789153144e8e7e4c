//! The HTML of a page is its elements, each as documented, with every
//! character of its contents, escaped.
use crate::{corpus::*, refhtml::*, sym::*, util::*, H};
#[allow(unused_imports)]
use vimwiki_core::*;

const M: u32 = 70000;

pub static HS: &[H] = &[
    H { name: "h_html", f: h_html, jobs: j_html, bounds: "the documents of the corpus as written and with any one character replaced by any ASCII character, texts of up to three arbitrary characters; thorough: also insertions, cuts, pairs of characters, non-ASCII letters; ids and link targets are left to other checks" },
    H { name: "h_html_opt", f: h_html_opt, jobs: j_opt, bounds: "comments included, line ends kept, another text for the table of contents" },
];

fn go(pg: &Page, c: HtmlConfig, mut r: Html) {
    if let Ok(h) = pg.to_html_string(c) {
        reach(1);
        obs_bytes(h.as_bytes());
        r.page(pg);
        check(matches(&r.o, h.as_bytes()), M + line!());
    }
}

#[no_mangle]
pub extern "C" fn h_html(p: u64) {
    if let Some(pg) = parse(any(p)) {
        go(&pg, config(), Html::new());
        core::mem::forget(pg);
    }
}
fn j_html(th: bool) -> Vec<u64> {
    let mut v = anytexts();
    v.extend(on("*", &[LIT]));
    v.extend(on("R", &[LIT]));
    v.extend(every(if th { 1 } else { 6 }, on("R", &[OVER])));
    v.extend(every(if th { 1 } else { 2 }, on("htcmqvyiwk", &[OVER])));
    if th {
        v.extend(on("*", &[OVER, INS, CUT, OVER2, INSL2]));
    }
    v
}

#[no_mangle]
pub extern "C" fn h_html_opt(p: u64) {
    if let Some(pg) = parse(doc(p)) {
        let mut c = config();
        c.comment.include = true;
        c.paragraph.ignore_newline = false;
        c.header.table_of_contents = "a b".to_string();
        let mut r = Html::new();
        r.comments = true;
        r.br = true;
        r.toc = "a b";
        go(&pg, c, r);
        core::mem::forget(pg);
    }
}
fn j_opt(th: bool) -> Vec<u64> {
    let mut v = on("*", &[LIT]);
    v.extend(on("po", &[OVER]));
    if th {
        v.extend(on("*", &[OVER]));
    }
    v
}
