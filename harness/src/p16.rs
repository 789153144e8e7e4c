//! Links of HTML lead to the pages they name.
use crate::{sym::*, util::*, walk::*, H};
#[allow(unused_imports)]
use vimwiki_core::*;

const M: u32 = 160000;

pub static HS: &[H] = &[H { name: "h_href", f: h_href, jobs: j_href, bounds: "links of every kind with up to three arbitrary ASCII characters in path, wiki name, anchor or date, from pages at depth 0 to 2 of a wiki and from a page outside of all wikis; outside: links with a query, an authority or the schemes file: and local:, transclusions of names that are empty or end in a dot or slash or name the page's own directory, names that begin with two dots, links below a directory named like the page's own output" }];

/// `\u{1}`: any ASCII character.
static LINKS: &[&str] = &[
    "[[\u{1}\u{1}]]",
    "[[a\u{1}\u{1}c]]",
    "[[/\u{1}]]",
    "[[d/\u{1}]]",
    "[[../\u{1}]]",
    "[[../../\u{1}/a]]",
    "[[\u{1}./a]]",
    "[[\u{1}/b/e.f]]",
    "[[/w/\u{1}]]",
    "[[/w\u{1}]]",
    "[[a#\u{1}#b]]",
    "[[#\u{1}\u{1}]]",
    "[[#a#\u{1}]]",
    "[[b/#\u{1}]]",
    "[[wiki0:\u{1}]]",
    "[[wiki1:\u{1}]]",
    "[[wiki1:/v/\u{1}]]",
    "[[wiki1:a\u{1}b#cd]]",
    "[[wiki1:ab#c\u{1}d]]",
    "[[wiki1:../\u{1}]]",
    "[[wn.W:\u{1}]]",
    "[[wn.\u{1}:a]]",
    "[[wn.W:/a/\u{1}#b]]",
    "[[diary:2021-03-0\u{1}]]",
    "[[diary:2021-0\u{1}-05#a]]",
    "[[diary:2021-03-05#a#\u{1}|b]]",
    "{{\u{1}\u{1}}}",
    "{{/a\u{1}b.png}}",
    "{{../a.\u{1}}}",
    "{{http://a.b/\u{1}}}",
    "[[a|{{b\u{1}c}}]]",
    "http://a.b/\u{1}#c",
    "[[http://a.b/\u{1}#c]]",
    "[[mailto:a@\u{1}]]",
    "[[p\u{1}]]",
    "[[\u{1}:a]]",
    "[[a\u{1}b|c]]",
    "[[\u{1}/|c]]",
    "[[e\u{1}../a]]",
    "[[p]] [[../d/p]] [[/d/p]]",
    "[[../../../../a]]",
    "[[d/e/f/]] [[./g]] [[h/./i]] [[j/../k]]",
    "[[b.c]] [[d/e.wiki#f]] [[.g]] [[h.]] [[wiki1:b.c]]",
    // thorough only
    "[[wiki1:\u{1}\u{1}]]",
    "[[\u{1}\u{1}\u{1}]]",
    "[[a\u{1}b\u{1}c]]",
    "[[/\u{1}\u{1}]]",
    "[[d/\u{1}\u{1}]]",
    "[[../\u{1}\u{1}]]",
    "[[\u{1}/\u{1}/e.f]]",
    "[[/w/\u{1}\u{1}]]",
    "[[/w\u{1}\u{1}]]",
    "[[a#\u{1}#\u{1}]]",
    "[[wiki0:\u{1}\u{1}]]",
    "[[wn.W:\u{1}\u{1}]]",
    "[[wiki1:a\u{1}b#c\u{1}d]]",
    "[[wn.W:/a/\u{1}#\u{1}]]",
    "[[diary:2021-0\u{1}-05#\u{1}]]",
    "{{../\u{1}.\u{1}}}",
    "http://a.b/\u{1}\u{1}#c",
    "[[mailto:a@\u{1}\u{1}]]",
];
const QUICK: usize = 43;
const PAGES: &[&str] = &["p.wiki", "d/p.wiki", "d/e/p.wiki"];

/// Bits 0..16: link, 16..24: page (3: outside of all wikis).
fn conf(k: usize) -> (HtmlConfig, Vec<&'static str>, &'static str) {
    let mut c = config();
    c.wikis[0].path_html = "/h/x".into();
    if k < 3 {
        c.runtime.page = ["/w/", PAGES[k]].concat().into();
        (c, vec!["h", "x"], PAGES[k])
    } else {
        c.wikis.clear();
        c.runtime.wiki_index = None;
        c.runtime.page = "/t/u/p.wiki".into();
        let h: &'static str = c.to_current_wiki().path_html.to_str().unwrap_or("").to_string().leak();
        (c, segs(h), "p.wiki")
    }
}
fn segs(p: &'static str) -> Vec<&'static str> {
    p.split('/').filter(|s| !s.is_empty() && *s != ".").collect()
}
/// Resolve the dots.
fn norm(v: Vec<&'static str>) -> Vec<&'static str> {
    let mut o = vec![];
    for s in v {
        if s == ".." {
            o.pop();
        } else if !s.is_empty() && s != "." {
            o.push(s);
        }
    }
    o
}
/// The extension replaced by html.
fn html(mut v: Vec<&'static str>) -> Vec<&'static str> {
    if let Some(l) = v.pop() {
        if l == ".." {
            v.push(l);
        } else {
            let cut = match l.rfind('.') {
                Some(i) if i > 0 => i,
                _ => l.len(),
            };
            v.push([&l[..cut], ".html"].concat().leak());
        }
    }
    v
}

struct Want {
    path: Vec<&'static str>,
    fragment: Option<String>,
}
fn fragment(d: &LinkData) -> Option<String> {
    d.uri_ref.fragment().map(|f| f.as_str().split("%23").collect::<Vec<&str>>().join("-"))
}
/// Where a link to a page leads: `root` is the output root of the wiki it is
/// in, `dir` the directory relative links start from.
fn page(d: &LinkData, root: &[&'static str], wiki: &'static str, dir: &[&'static str], keep: bool) -> Want {
    let abs = d.uri_ref.path().is_absolute();
    let all: Vec<&'static str> = d.uri_ref.path().segments().iter().map(|s| -> &'static str { s.as_str().to_string().leak() }).collect();
    let is_dir = all.last().map_or(false, |s| s.is_empty());
    let mut t: Vec<&'static str> = all.into_iter().filter(|s| !s.is_empty() && *s != ".").collect();
    if is_dir && !keep {
        t.push("index");
    }
    // absolute paths into the wiki itself
    let w = segs(wiki);
    if abs && t.len() >= w.len() && t[..w.len()] == w[..] {
        t.drain(..w.len());
    }
    let mut v = root.to_vec();
    if !abs {
        v.extend_from_slice(dir);
    }
    v.extend(t);
    Want { path: norm(if keep { v } else { html(v) }), fragment: if keep { None } else { fragment(d) } }
}

/// The values of the first attribute of that name after each other.
fn attrs(h: &str) -> Vec<String> {
    let b = h.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i + 6 < b.len() {
        let n = if &b[i..i + 7] == b" href=\"" {
            7
        } else if &b[i..i + 6] == b" src=\"" {
            6
        } else {
            i += 1;
            continue;
        };
        let a = i + n;
        i = a;
        while i < b.len() && b[i] != b'"' {
            i += 1;
        }
        v.push(h[a..i].to_string());
    }
    v
}

fn one(l: &Link, k: usize, href: &str, at: &[&'static str], root: &[&'static str], pagedir: &[&'static str]) {
    let d = l.data();
    if d.uri_ref.query().is_some() || (d.is_local() && (d.uri_ref.scheme().is_some() || d.uri_ref.authority().is_some())) {
        return;
    }
    // the standard library takes such names for .. with an extension
    let last = d.uri_ref.path().segments().iter().map(|s| s.as_str()).filter(|s| *s != ".").last();
    if last.map_or(false, |s| s.starts_with("..")) {
        return;
    }
    let wiki0: &'static str = if k < 3 { "/w" } else { "/t/u" };
    let w = match l {
        Link::Wiki { data } if data.is_remote() => None,
        Link::Raw { .. } => None,
        Link::Transclusion { data } if data.is_remote() => None,
        Link::Wiki { data } if data.is_local_anchor() => Some(Want { path: at.to_vec(), fragment: fragment(data) }),
        Link::Wiki { data } => Some(page(data, root, wiki0, pagedir, false)),
        Link::Transclusion { data } => {
            let u = data.uri_ref.path().to_string();
            if u.is_empty() || u.ends_with('.') || u.ends_with('/') {
                return;
            }
            let w = page(data, root, wiki0, pagedir, true);
            // a directory the page is in
            if at.len() > w.path.len() && at[..w.path.len()] == w.path[..] {
                return;
            }
            Some(w)
        }
        Link::IndexedInterWiki { index, data } => match (index, k) {
            (0, 0..=2) => Some(page(data, root, "/w", &[], false)),
            (1, 0..=2) => Some(page(data, &["g"], "/v", &[], false)),
            _ => return,
        },
        Link::NamedInterWiki { data, .. } => Some(page(data, &["g"], "/v", &[], false)),
        Link::Diary { date, data } => {
            let mut v = root.to_vec();
            v.push("diary");
            v.push([&date.format("%Y-%m-%d").to_string(), ".html"].concat().leak());
            Some(Want { path: v, fragment: fragment(data) })
        }
    };
    reach(1);
    match w {
        None => check(href == d.uri_ref.to_string(), M + line!()),
        Some(w) => {
            let href: &'static str = href.to_string().leak();
            let (p, f) = match href.find('#') {
                Some(i) => (&href[..i], Some(&href[i + 1..])),
                None => (href, None),
            };
            // what a browser makes of it
            check(!p.starts_with('/') && !p.split('/').next().unwrap_or("").contains(':'), M + line!());
            let to = if p.is_empty() {
                at.to_vec()
            } else {
                let mut v = at.to_vec();
                v.pop();
                v.extend(p.split('/'));
                norm(v)
            };
            check(to == w.path, M + line!());
            check(f.map(str::to_string) == w.fragment, M + line!());
        }
    }
}

#[no_mangle]
pub extern "C" fn h_href(p: u64) {
    let k = (p >> 16 & 0xff) as usize;
    let (c, root, rel) = conf(k);
    let mut at = root.clone();
    at.extend(segs(rel));
    at = html(at);
    let mut dir = segs(rel);
    dir.pop();
    let s = text(LINKS[(p & 0xffff) as usize]);
    if let Some(pg) = parse(s) {
        let mut links: Vec<Link<'static>> = vec![];
        let mut others = 0;
        containers(&pg, &mut |c| {
            for e in c.iter() {
                match e.as_inner() {
                    InlineElement::Link(l) => links.push(l.clone().into_owned()),
                    InlineElement::DecoratedText(_) => others += 1,
                    _ => {}
                }
            }
        });
        match pg.to_html_string(c) {
            Ok(h) => {
                let h = h.leak();
                note(h.as_bytes());
                obs_bytes(h.as_bytes());
                let a = attrs(h);
                if others == 0 {
                    let mut i = 0;
                    for l in &links {
                        check(i < a.len(), M + line!());
                        if i >= a.len() {
                            return;
                        }
                        one(l, k, &a[i], &at, &root, &dir);
                        i += 1;
                        // the image within the link
                        if let Some(Description::TransclusionLink(d)) = l.description() {
                            if !matches!(l, Link::Transclusion { .. }) {
                                one(&Link::Transclusion { data: (**d).clone() }, k, &a[i], &at, &root, &dir);
                                i += 1;
                            }
                        }
                    }
                    check(i == a.len(), M + line!());
                }
            }
            Err(e) => {
                // only for a wiki that is not there
                let absent = |l: &Link| match l {
                    Link::IndexedInterWiki { index, .. } => k == 3 || *index > 1,
                    Link::NamedInterWiki { name, .. } => k == 3 || name != "W",
                    _ => false,
                };
                check(missing_wiki(&e) && links.iter().any(absent), M + line!());
            }
        }
        core::mem::forget(pg);
    }
}
fn j_href(th: bool) -> Vec<u64> {
    let mut v = vec![];
    for i in 0..LINKS.len() as u64 {
        for k in 0..4 {
            if th || i < QUICK as u64 && (k == 1 || (i > 1 && (i + k) % 3 == 0)) {
                v.push(i | k << 16);
            }
        }
    }
    v
}
