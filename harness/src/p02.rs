//! Rendering a parsed page succeeds in both formats.
use crate::{corpus::*, sym::*, util::*, H};
#[allow(unused_imports)]
use vimwiki_core::*;

const M: u32 = 20000;

pub static HS: &[H] = &[
    H { name: "h_render", f: h_render, jobs: j_render, bounds: "the documents of the corpus as written and (those about lists, tables, code blocks, definition lists, placeholders, links) with any one character replaced by any ASCII character, texts of up to three arbitrary characters; thorough: all documents, also insertions, cuts, pairs of characters, other letters" },
    H { name: "h_render_page", f: h_render_page, jobs: j_page, bounds: "as above with a date placeholder in front and no template file" },
];

#[no_mangle]
pub extern "C" fn h_render(p: u64) {
    if let Some(pg) = parse(any(p)) {
        reach(1);
        let v = pg.to_vimwiki_string(VimwikiConfig::default());
        check(v.is_ok(), M + line!());
        if let Ok(v) = &v {
            obs_bytes(v.as_bytes());
        }
        let h = pg.to_html_string(config());
        match &h {
            Ok(h) => obs_bytes(h.as_bytes()),
            Err(e) => check(missing_wiki(e), M + line!()),
        }
        core::mem::forget((pg, v, h));
    }
}
/// A whole page: the date is in the document (no clock), no template files.
#[no_mangle]
pub extern "C" fn h_render_page(p: u64) {
    let s = text(&["%date 2021-03-05\n", &template(DOCS, p)].concat());
    if let Some(pg) = parse(s) {
        let h = pg.to_html_page(config());
        match &h {
            Ok(h) => {
                reach(1);
                obs_bytes(h.as_bytes())
            }
            Err(HtmlOutputError::TemplateNotLoaded { .. }) => {}
            Err(e) => check(missing_wiki(e), M + line!()),
        }
        core::mem::forget((pg, h));
    }
}
fn j_page(th: bool) -> Vec<u64> {
    let mut v = on("*", &[LIT]);
    v.extend(on(if th { "*" } else { "x" }, &[OVER]));
    v.retain(|p| !DOCS[(*p & 0xffff) as usize].1.contains("%template"));
    v
}
fn j_render(th: bool) -> Vec<u64> {
    let mut v = anytexts();
    v.extend(on("*", &[LIT]));
    v.extend(on("R", &[LIT]));
    v.extend(every(if th { 1 } else { 8 }, on("R", &[OVER])));
    v.extend(every(if th { 1 } else { 2 }, on("dltcxk", &[OVER])));
    if th {
        v.extend(on("*", &[OVER, INS, CUT, INSL2, INSC2, INSP3, OVER2]));
    }
    v
}
