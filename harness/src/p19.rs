//! The configuration says which wiki a page is in and where it is written to.
use crate::{sym::*, H};
use std::path::Path;
#[allow(unused_imports)]
use vimwiki_core::*;

const M: u32 = 190000;

pub static HS: &[H] = &[
    H { name: "h_paths", f: h_paths, jobs: j_paths, bounds: "wikis and pages with paths of up to five segments, four arbitrary ASCII characters among them; outside: the root of a wiki as a page, the output of names that begin with two dots" },
    H { name: "h_find", f: h_find, jobs: j_find, bounds: "up to three wikis with paths and names of which four characters are arbitrary, pages of up to three segments with two arbitrary characters" },
    H { name: "h_json", f: h_json, jobs: j_json, bounds: "configurations as JSON with up to two arbitrary ASCII characters in paths, numbers and names, whole or in part" },
    H { name: "h_vimwiki_json", f: h_vimwiki_json, jobs: j_vjson, bounds: "formatting configurations with any single option set, characters arbitrary" },
];

fn segs(p: &str) -> Vec<&str> {
    p.split('/').filter(|s| !s.is_empty() && *s != ".").collect()
}
fn wiki(path: &str, html: &str, name: Option<&str>) -> HtmlWikiConfig {
    HtmlWikiConfig { path: path.into(), path_html: html.into(), name: name.map(str::to_string), ..Default::default() }
}
/// The segments of `p` below `w`, both absolute.
fn below<'a>(w: &str, p: &'a str) -> Option<Vec<&'a str>> {
    let (w, p) = (segs(w), segs(p));
    if p.len() >= w.len() && p[..w.len()] == w[..] {
        Some(p[w.len()..].to_vec())
    } else {
        None
    }
}
fn same(p: &Path, want: &[&str], abs: bool) -> bool {
    let got = p.to_str().unwrap_or("\0");
    got.starts_with('/') == abs && segs(got) == want
}

/// `\u{1}`: any ASCII character; wiki, output of the wiki, page, extension.
static PATHS: &[[&str; 4]] = &[
    ["/w", "/h", "/w/a/\u{1}.wiki", "html"],
    ["/w", "/h", "/w/\u{1}\u{1}", "html"],
    ["/w\u{1}a", "/h/i", "/w/\u{1}/b.c", "html"],
    ["/\u{1}/w", "/h\u{1}", "/a/w/b", "x"],
    ["/w/", "/h/", "/w/a/b/c.d.e", "\u{1}"],
    ["/w/v", "/h", "/w/v\u{1}u/a", "html"],
    ["/w", "/h", "a/\u{1}\u{1}b", "html"],
    ["/w", "/h", "../\u{1}/b", "html"],
    ["/w", "/h", "/\u{1}/\u{1}", "html"],
    ["/w/./v", "/h/..", "/w//v/./a.b", "html"],
    ["/", "/h", "/a/\u{1}.b", "html"],
    ["/w", "/h", "/w/..\u{1}/a\u{1}", ""],
    ["/w", "/w/html", "/w/a.\u{1}\u{1}", "html"],
    ["/w", "/h", "w/\u{1}", "wiki"],
];

#[no_mangle]
pub extern "C" fn h_paths(p: u64) {
    let t = PATHS[(p & 0xff) as usize];
    let (w, h, page, ext) = (text(t[0]), text(t[1]), text(t[2]), text(t[3]));
    assume(!ext.contains('/'));
    let c = wiki(w, h, None);
    check(c.get_root_path() == Path::new(w), M + line!());
    // the page within the wiki
    let abs = page.starts_with('/');
    let rel = if abs { below(w, page) } else { None };
    let within = c.path_within(Path::new(page));
    check(within.is_some() == rel.is_some(), M + line!());
    if let (Some(a), Some(b)) = (within, &rel) {
        reach(1);
        check(same(a, b, false), M + line!());
    }
    // the way back to the root
    let back = c.path_to_root(page);
    check(back.is_some() == rel.as_ref().map_or(false, |r| !r.is_empty()), M + line!());
    if let (Some(a), Some(b)) = (&back, &rel) {
        let s = segs(a.to_str().unwrap_or("\0"));
        check(s.len() + 1 == b.len() && s.iter().all(|s| *s == "..") && !a.is_absolute(), M + line!());
        // and the page again
        let mut v = vec![];
        for x in &b[..b.len() - 1] {
            v.push(*x);
        }
        for x in &s {
            check(*x == ".." && v.pop().is_some(), M + line!());
        }
        check(v.is_empty(), M + line!());
    }
    // where it is written to
    let rest = rel.unwrap_or_else(|| segs(page));
    if let Some((last, dir)) = rest.split_last() {
        reach(2);
        let out = c.make_output_path(Path::new(page), ext);
        let mut want = segs(h);
        want.extend(dir);
        // dots do not name a file
        let name = if *last == ".." {
            last.to_string()
        } else {
            let cut = match last.rfind('.') {
                Some(i) if i > 0 => i,
                _ => last.len(),
            };
            if ext.is_empty() {
                last[..cut].to_string()
            } else {
                [&last[..cut], ".", ext].concat()
            }
        };
        if name != "." {
            want.push(&name);
        }
        // the extension itself may be a dot or empty
        // and the standard library takes names that begin with two dots for
        // dots with an extension
        if !(last.len() > 2 && last.starts_with("..") || ext.contains('.') || (ext.is_empty() && matches!(name.as_str(), "" | "." | ".."))) {
            check(same(&out, &want, true), M + line!());
        }
        obs_bytes(out.to_str().unwrap_or("").as_bytes());
    }
    // what the configuration says of the active page
    let mut cfg = HtmlConfig::default();
    cfg.wikis = vec![wiki("/x", "/y", None), c.clone()];
    cfg.runtime.page = page.into();
    cfg.runtime.wiki_index = Some(1);
    check(cfg.active_page() == Path::new(page), M + line!());
    check(cfg.find_active_wiki().map(|x| x.path == c.path && x.path_html == c.path_html) == Some(true), M + line!());
    check(cfg.to_current_wiki().path == c.path, M + line!());
    check(cfg.to_active_page_path_to_wiki_root() == c.path_to_root(page).unwrap_or_default(), M + line!());
    if let Some(x) = c.path_within(Path::new(page)) {
        check(cfg.as_active_page_path_within_wiki() == x, M + line!());
    }
    // no wiki: one of the page alone
    let mut n = cfg.clone();
    n.map_runtime(|mut r| {
        r.wiki_index = None;
        r
    });
    check(n.find_active_wiki().is_none() && n.active_page() == Path::new(page), M + line!());
    if let Some(last) = segs(page).last() {
        if *last != ".." && !page.ends_with('/') && !page.ends_with("/.") {
            reach(3);
            check(same(n.as_active_page_path_within_wiki(), &[*last], false), M + line!());
            check(n.to_active_page_path_to_wiki_root() == Path::new(""), M + line!());
            let s = segs(page);
            check(same(&n.to_current_wiki().path, &s[..s.len() - 1], abs), M + line!());
        }
    }
    core::mem::forget((cfg, n, c));
}
fn j_paths(_: bool) -> Vec<u64> {
    (0..PATHS.len() as u64).collect()
}

/// Wikis with their names, the path of a page, a name.
static FINDS: &[(&[(&str, &str)], &str, &str)] = &[
    (&[("/w", "a"), ("/w/v", "b"), ("/u", "-")], "/w/\u{1}\u{1}a", "\u{1}"),
    (&[("/w/v", "a"), ("/w", "a"), ("/", "b")], "/w/\u{1}/a", "\u{1}"),
    (&[("/\u{1}", "\u{1}"), ("/w", "a")], "/w/a", "\u{1}"),
    (&[("/a/\u{1}", "a\u{1}"), ("/a/b", "-"), ("/a", "a")], "/a/b/c", "a\u{1}"),
    (&[("/w", "-")], "\u{1}w/a", "-"),
    (&[], "/w/a", "\u{1}"),
    (&[("/w", "a"), ("/w", "b")], "/w\u{1}a", "\u{1}\u{1}"),
];

#[no_mangle]
pub extern "C" fn h_find(p: u64) {
    let (ws, page, name) = FINDS[(p & 0xff) as usize];
    let ws: Vec<(&'static str, Option<&'static str>)> = ws.iter().map(|(a, b)| (text(a), if *b == "-" { None } else { Some(text(b)) })).collect();
    let page = text(page);
    let name = text(name);
    for (w, _) in &ws {
        assume(w.bytes().filter(|c| *c == b'.').count() == 0);
    }
    let mut c = HtmlConfig::default();
    c.wikis = ws.iter().enumerate().map(|(i, (w, n))| wiki(w, ["/h0", "/h1", "/h2"][i], *n)).collect();
    let is = |x: Option<&HtmlWikiConfig>, i: Option<usize>| match (x, i) {
        (None, None) => true,
        (Some(x), Some(i)) => x.path_html == Path::new(["/h0", "/h1", "/h2"][i]),
        _ => false,
    };
    for i in 0..4 {
        check(is(c.find_wiki_by_index(i), if i < ws.len() { Some(i) } else { None }), M + line!());
    }
    // the first of that name
    let want = ws.iter().position(|(_, n)| *n == Some(name));
    check(c.find_wiki_index_by_name(name) == want, M + line!());
    check(is(c.find_wiki_by_name(name), want), M + line!());
    // a deepest one of those above
    let got = c.find_wiki_index_by_path(page);
    let abs = page.starts_with('/');
    let depth = |i: usize| if abs && below(ws[i].0, page).is_some() { Some(segs(ws[i].0).len()) } else { None };
    let best = (0..ws.len()).filter_map(depth).max();
    reach(1);
    check(got.is_some() == best.is_some(), M + line!());
    if let Some(i) = got {
        check(i < ws.len() && depth(i) == best, M + line!());
    }
    check(is(c.find_wiki_by_path(page), got), M + line!());
    for i in 0..3 {
        c.runtime.wiki_index = Some(i);
        check(is(c.find_active_wiki(), if i < ws.len() { Some(i) } else { None }), M + line!());
    }
    obs(got.map_or(9, |i| i as u64));
    core::mem::forget(c);
}
fn j_find(_: bool) -> Vec<u64> {
    (0..FINDS.len() as u64).collect()
}

/// Resolve dots.
fn norm(p: &str) -> Vec<&str> {
    let mut v = vec![];
    for s in p.split('/') {
        match s {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            s => v.push(s),
        }
    }
    v
}
static JSON: &[&str] = &["/w/\u{1}/../b", "\u{1}w/a", "/a/..\u{1}/b", "/\u{1}b", "/a/../../\u{1}", "\u{1}", "/w/./\u{1}", "a\u{1}/b"];

#[no_mangle]
pub extern "C" fn h_json(p: u64) {
    let k = p as usize;
    if k < JSON.len() {
        // paths are normalized and have to be absolute
        let path = text(JSON[k]);
        assume(path.bytes().all(|c| c >= 0x20 && c != b'"' && c != b'\\' && c != b'$' && c != b'~' && c != 0x7f));
        let j = ["{\"wikis\":[{\"path\":\"", path, "\",\"name\":\"n\"},{\"path_html\":\"", path, "\"}],\"comment\":{\"include\":true}}"].concat();
        let r = serde_json::from_str::<HtmlConfig>(&j);
        let want = norm(path);
        reach(1);
        match &r {
            Ok(c) => {
                check(path.starts_with('/'), M + line!());
                check(c.wikis.len() == 2, M + line!());
                check(same(&c.wikis[0].path, &want, true) && same(&c.wikis[1].path_html, &want, true), M + line!());
                check(c.wikis[0].name.as_deref() == Some("n") && c.wikis[1].name.is_none(), M + line!());
                let d = HtmlWikiConfig::default();
                check(c.wikis[0].path_html == d.path_html && c.wikis[1].path == d.path, M + line!());
                check(c.wikis[0].ext == d.ext && c.wikis[0].css_name == d.css_name && c.wikis[0].diary_rel_path == d.diary_rel_path, M + line!());
                check(c.comment.include && !c.code.server_side && c.list.ignore_newline && c.paragraph.ignore_newline, M + line!());
                back(c);
            }
            // a relative path
            Err(_) => check(!path.starts_with('/'), M + line!()),
        }
        core::mem::forget((r, j));
    } else {
        let mut c = HtmlConfig::default();
        let s = text("a\u{1}");
        match k - JSON.len() {
            0 => c.wikis = vec![wiki("/w/a", "/h/b", Some(s)), wiki("/v", "/g", None)],
            1 => c.wikis = vec![HtmlWikiConfig { css_name: s.to_string(), ext: "e".into(), diary_rel_path: "d/e".into(), ..wiki("/w", "/h", Some("")) }],
            2 => {
                c.list.ignore_newline = false;
                c.header.table_of_contents = s.to_string();
            }
            3 => {
                c.paragraph.ignore_newline = false;
                c.code.theme = s.to_string();
                c.code.theme_dir = Some("/x".into());
            }
            4 => {
                c.code.server_side = true;
                c.code.syntax_dir = Some(s.into());
            }
            5 => {
                c.link.canonicalize = true;
                c.template.text = s.to_string();
            }
            6 => {
                c.link.use_ugly_urls = true;
                c.template.name = s.to_string();
                c.template.ext = "x".into();
            }
            _ => {
                c.comment.include = true;
                c.template.dir = s.into();
            }
        }
        // not kept
        c.runtime.wiki_index = Some(3);
        reach(1);
        back(&c);
        core::mem::forget(c);
    }
}
/// Written and read, a configuration is the same but for the runtime.
fn back(c: &HtmlConfig) {
    let j = serde_json::to_string(c);
    check(j.is_ok(), M + line!());
    if let Ok(j) = j {
        let r = serde_json::from_str::<HtmlConfig>(&j);
        check(r.is_ok(), M + line!());
        if let Ok(d) = &r {
            check(d.runtime.wiki_index.is_none(), M + line!());
            let mut ok = d.wikis.len() == c.wikis.len();
            for (a, b) in d.wikis.iter().zip(&c.wikis) {
                ok &= a.path == b.path && a.path_html == b.path_html && a.name == b.name && a.css_name == b.css_name && a.ext == b.ext && a.diary_rel_path == b.diary_rel_path;
            }
            check(ok, M + line!());
            check(d.list.ignore_newline == c.list.ignore_newline && d.paragraph.ignore_newline == c.paragraph.ignore_newline, M + line!());
            check(d.link.canonicalize == c.link.canonicalize && d.link.use_ugly_urls == c.link.use_ugly_urls && d.link.base_url == c.link.base_url, M + line!());
            check(d.header.table_of_contents == c.header.table_of_contents && d.comment.include == c.comment.include, M + line!());
            check(d.code.theme == c.code.theme && d.code.theme_dir == c.code.theme_dir && d.code.server_side == c.code.server_side && d.code.syntax_dir == c.code.syntax_dir, M + line!());
            check(d.template.name == c.template.name && d.template.ext == c.template.ext && d.template.dir == c.template.dir && d.template.text == c.template.text, M + line!());
        }
        obs_bytes(j.as_bytes());
        core::mem::forget((r, j));
    }
}
fn j_json(_: bool) -> Vec<u64> {
    (0..JSON.len() as u64 + 8).collect()
}

fn toggles() -> u64 {
    14
}
fn toggled(k: u64) -> VimwikiConfig {
    let mut c = VimwikiConfig::default();
    match k {
        0 => c.page.indent_str = text("\u{1}\u{1}").to_string(),
        1 => c.page.separate_block_elements ^= true,
        2 => c.blockquote.prefer_indented_blockquote ^= true,
        3 => c.blockquote.trim_lines ^= true,
        4 => c.comment.no_padding ^= true,
        5 => c.comment.trim_content ^= true,
        6 => c.definition_list.term_on_line_by_itself ^= true,
        7 => c.definition_list.trim_terms ^= true,
        8 => c.definition_list.trim_definitions ^= true,
        9 => c.header.no_padding ^= true,
        10 => c.header.trim_content ^= true,
        11 => {
            let t = text("\u{1}\u{1}");
            c.list.todo.incomplete_char = t.as_bytes()[0] as char;
            c.list.todo.rejected_char = t.as_bytes()[1] as char;
        }
        12 => {
            c.paragraph.line_wrap_column = byte() as usize;
            c.paragraph.no_line_wrap ^= true;
        }
        _ => {
            c.paragraph.trim_lines ^= true;
            c.table.no_padding ^= true;
        }
    }
    c
}
#[no_mangle]
pub extern "C" fn h_vimwiki_json(p: u64) {
    let c = toggled(p);
    let j = serde_json::to_string(&c);
    check(j.is_ok(), M + line!());
    if let Ok(j) = j {
        let r = serde_json::from_str::<VimwikiConfig>(&j);
        check(r.is_ok(), M + line!());
        if let Ok(d) = &r {
            reach(1);
            check(d.page.indent_str == c.page.indent_str && d.page.separate_block_elements == c.page.separate_block_elements, M + line!());
            check(d.blockquote.prefer_indented_blockquote == c.blockquote.prefer_indented_blockquote && d.blockquote.trim_lines == c.blockquote.trim_lines, M + line!());
            check(d.comment.no_padding == c.comment.no_padding && d.comment.trim_content == c.comment.trim_content, M + line!());
            let (a, b) = (&d.definition_list, &c.definition_list);
            check(a.term_on_line_by_itself == b.term_on_line_by_itself && a.trim_terms == b.trim_terms && a.trim_definitions == b.trim_definitions, M + line!());
            check(d.header.no_padding == c.header.no_padding && d.header.trim_content == c.header.trim_content, M + line!());
            let (a, b) = (&d.list.todo, &c.list.todo);
            check(a.incomplete_char == b.incomplete_char && a.partially_complete_1_char == b.partially_complete_1_char && a.partially_complete_2_char == b.partially_complete_2_char, M + line!());
            check(a.partially_complete_3_char == b.partially_complete_3_char && a.complete_char == b.complete_char && a.rejected_char == b.rejected_char, M + line!());
            check(d.paragraph.line_wrap_column == c.paragraph.line_wrap_column && d.paragraph.no_line_wrap == c.paragraph.no_line_wrap && d.paragraph.trim_lines == c.paragraph.trim_lines, M + line!());
            check(d.table.no_padding == c.table.no_padding, M + line!());
        }
        obs_bytes(j.as_bytes());
        core::mem::forget((r, j));
    }
}
fn j_vjson(_: bool) -> Vec<u64> {
    (0..toggles()).collect()
}
