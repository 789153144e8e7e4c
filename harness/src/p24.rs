//! Every choice of how to format keeps the page.
use crate::{corpus::*, skel::*, sym::*, util::*, H};
#[allow(unused_imports)]
use vimwiki_core::*;

const M: u32 = 240000;

pub static HS: &[H] = &[
    H { name: "h_choice", f: h_choice, jobs: j_choice, bounds: "each formatting option by itself and all together, on the documents of the corpus as written and with any one character of those the option is about replaced by any ASCII character; outside: as for P05, indentations other than blanks and tabs, blocks joined together, own todo marks, titles beginning or ending with an equals sign for unpadded headers" },
    H { name: "h_todo", f: h_todo, jobs: j_todo, bounds: "todo marks of arbitrary ASCII characters for lists with all of them" },
];

const N: u64 = 13;
fn choice_of(k: u64) -> VimwikiConfig {
    let mut c = VimwikiConfig::default();
    match k {
        0 => c.page.indent_str = "\t".into(),
        1 => c.page.indent_str = "  ".into(),
        2 => c.blockquote.prefer_indented_blockquote = true,
        3 => c.blockquote.trim_lines = false,
        4 => c.comment.no_padding = true,
        5 => c.comment.trim_content = false,
        6 => c.definition_list.term_on_line_by_itself = true,
        7 => {
            c.definition_list.trim_terms = false;
            c.definition_list.trim_definitions = false
        }
        8 => c.header.no_padding = true,
        9 => c.header.trim_content = false,
        10 => c.table.no_padding = true,
        11 => c.paragraph.trim_lines = false,
        _ => {
            c.page.indent_str = "  ".into();
            c.comment.no_padding = true;
            c.comment.trim_content = false;
            c.definition_list.term_on_line_by_itself = true;
            c.header.no_padding = true;
            c.table.no_padding = true;
            c.paragraph.no_line_wrap = true;
            c.paragraph.line_wrap_column = 3;
        }
    }
    c
}

#[no_mangle]
pub extern "C" fn h_choice(p: u64) {
    let k = p >> 56;
    let s = doc(p & 0xff_ffff_ffff);
    if !plain(s) {
        return;
    }
    if let Some(pg) = parse(s) {
        if expressible(&pg) {
            // without padding, a title cannot begin or end with an equals sign
            if matches!(k, 8 | 12) {
                if let Ok(d) = pg.to_vimwiki_string(VimwikiConfig::default()) {
                    if d.as_bytes().windows(3).any(|w| w == b"= =") {
                        core::mem::forget(pg);
                        return;
                    }
                }
            }
            if let Ok(t) = pg.to_vimwiki_string(choice_of(k)) {
                let t: &'static str = t.leak();
                note(t.as_bytes());
                if let Some(q) = parse(t) {
                    reach(1);
                    check(skel(&pg, true, false) == skel(&q, true, false), M + line!());
                    if let Ok(u) = q.to_vimwiki_string(choice_of(k)) {
                        note(u.as_bytes());
                        obs_bytes(u.as_bytes());
                        // untrimmed comments are padded each time
                        check(k == 5 || t.as_bytes() == u.as_bytes(), M + line!());
                    }
                    core::mem::forget(q);
                }
            }
        }
        core::mem::forget(pg);
    }
}
fn j_choice(th: bool) -> Vec<u64> {
    let mut v = vec![];
    for k in 0..N {
        let about = ["lm", "l", "q", "q", "o", "o", "d", "d", "h", "h", "t", "p", "lhdto"][k as usize];
        let mut w = on("*", &[LIT]);
        w.extend(on("R", &[LIT]));
        w.extend(every(if th { 1 } else { 3 }, on(about, &[OVER])));
        if th {
            w.extend(on(about, &[INS]));
            w.extend(on(&["R", about].concat(), &[OVER]));
        }
        v.extend(w.iter().map(|p| p | k << 56));
    }
    v
}

/// Own marks stand where the usual ones would.
#[no_mangle]
pub extern "C" fn h_todo(p: u64) {
    let s = ["- [ ] a\n- [.] b\n- [o] c\n- [O] d\n- [X] e\n- [-] f\n", "1. [X] a\n   - [-] b\n2. [ ] c\n"][p as usize];
    let m = text("\u{1}\u{1}\u{1}\u{1}\u{1}\u{1}");
    let m = m.as_bytes();
    let mut c = VimwikiConfig::default();
    let t = &mut c.list.todo;
    t.incomplete_char = m[0] as char;
    t.partially_complete_1_char = m[1] as char;
    t.partially_complete_2_char = m[2] as char;
    t.partially_complete_3_char = m[3] as char;
    t.complete_char = m[4] as char;
    t.rejected_char = m[5] as char;
    if let Some(pg) = parse(s) {
        let a = pg.to_vimwiki_string(VimwikiConfig::default());
        let b = pg.to_vimwiki_string(c);
        if let (Ok(a), Ok(b)) = (a, b) {
            reach(1);
            let (a, b) = (a.as_bytes(), b.as_bytes());
            check(a.len() == b.len(), M + line!());
            for i in 0..a.len().min(b.len()) {
                let mark = i > 0 && i + 1 < a.len() && a[i - 1] == b'[' && a[i + 1] == b']';
                let want = if mark { m[" .oOX-".bytes().position(|c| c == a[i]).unwrap_or(0)] } else { a[i] };
                check(b[i] == want, M + line!());
            }
            obs_bytes(b);
        }
        core::mem::forget(pg);
    }
}
fn j_todo(_: bool) -> Vec<u64> {
    vec![0, 1]
}
