//! A whole HTML page is its template with the variables filled in.
use crate::{sym::*, util::*, H};
use vimwiki_core::vendor::chrono::NaiveDate;
#[allow(unused_imports)]
use vimwiki_core::*;

const M: u32 = 200000;

pub static HS: &[H] = &[H { name: "h_page", f: h_page, jobs: j_page, bounds: "pages with and without title at depth 0 to 2 of a wiki and outside of all wikis, templates of 2 to 40 characters with up to three arbitrary ASCII characters, the default template, titles, file names and names of style sheets with up to two arbitrary characters; outside: pages without a date (they show the clock), templates read from files" }];

static TEMPLATES: &[&str] = &[
    "a%title%b%content%c",
    "%date%%css%%encoding%",
    "%root_path%%css% %wiki_path%",
    "%css%title%content%%",
    "%title%\u{1}%css%",
    "%con\u{1}ent%\u{1}%date%",
    "\u{1}%title\u{1}a%%css%\u{1}",
    "%\u{1}%title%",
    "%%\u{1}%%content%%",
    "%content%%title%%content%",
    "%\u{1}oot_path% %wiki\u{1}path%",
    "%encoding\u{1}%date\u{1}",
    "%Title% %content %css% %dat\u{2}%",
];
/// `\u{1}`: any ASCII character.
static DOCS: &[&str] = &[
    "a\n",
    "%title a b\n= c =\n",
    "%title %content%\n*c* d\n",
    "%title %css%x\nb %title% %date%\n",
    "%title \u{1}\u{1}\nb\n",
    "%title a<\u{1}>\"b\"\n- c\n",
    "%title a\nb\n%title c\u{1}\n",
    "c%titl\u{1} d\n%content%\n",
    "%titl\u{1} d\n",
    "%nohtml\n%title \u{2}\n%x %title%\n",
];
static PAGES: &[&str] = &["/w/p.wiki", "/w/d/p.q.wiki", "/w/d/e/p", "/w/d/\u{1}p.wiki", "/w/%title%.wiki", "/t/u/p.wiki", "/w/d&e/<\u{1}.wiki"];
static CSS: &[&str] = &["style.css", "%title%", "a\u{1}b"];

fn esc(s: &str, o: &mut Vec<u8>) {
    for &c in s.as_bytes() {
        let e: &str = match c {
            b'&' => "&amp;",
            b'<' => "&lt;",
            b'>' => "&gt;",
            b'"' => "&quot;",
            b'\'' => "&#x27;",
            b'`' => "&#x60;",
            c => {
                o.push(c);
                continue;
            }
        };
        o.extend_from_slice(e.as_bytes());
    }
}
/// The last segment without its extension.
fn stem(p: &str) -> &str {
    let n = p.rfind('/').map_or(p, |i| &p[i + 1..]);
    match n.rfind('.') {
        Some(i) if i > 0 => &n[..i],
        _ => n,
    }
}

#[no_mangle]
pub extern "C" fn h_page(p: u64) {
    let (t, d, g, s) = (p & 0xff, p >> 8 & 0xff, p >> 16 & 0xff, p >> 24 & 0xff);
    let tpl: Option<&'static str> = if t == 255 { None } else { Some(text(TEMPLATES[t as usize])) };
    let doc = text(&[DOCS[d as usize], "\n%date 2021-03-05\n"].concat());
    let page = text(PAGES[g as usize]);
    let css = text(CSS[s as usize]);
    assume(!page.bytes().any(|c| c == 0) && !page.ends_with("/..wiki"));
    // a slash makes another directory of the name
    assume(page.bytes().filter(|c| *c == b'/').count() == PAGES[g as usize].bytes().filter(|c| *c == b'/').count());
    let inside = page.starts_with("/w/");
    let mut c = config();
    c.runtime.page = page.into();
    if !inside {
        c.runtime.wiki_index = None;
    }
    c.wikis[0].css_name = css.to_string();
    if let Some(t) = tpl {
        c.template.text = t.to_string();
    }
    let tpl = c.template.text.clone();
    if let Some(pg) = parse(doc) {
        // the last title given, and the date
        let mut title: Option<String> = None;
        let mut date: Option<NaiveDate> = None;
        for e in &pg.elements {
            match e.as_inner() {
                BlockElement::Placeholder(Placeholder::Title(x)) => title = Some(x.to_string()),
                BlockElement::Placeholder(Placeholder::Date(x)) => date = Some(*x),
                BlockElement::Placeholder(Placeholder::Template(_)) => assume(false),
                _ => {}
            }
        }
        assume(date.is_some());
        if tpl.contains("%title%") && tpl.len() > 60 {
            reach(2);
        }
        let content = pg.to_html_string(c.clone());
        let html = pg.to_html_page(c.clone());
        if let (Ok(content), Ok(html)) = (&content, &html) {
            reach(1);
            let title = title.unwrap_or_else(|| stem(page).to_string());
            let date = date.unwrap().to_string();
            check(date == "2021-03-05", M + line!());
            let rel: &str = if inside { &page[3..] } else { &page[page.rfind('/').unwrap() + 1..] };
            let root = "../".repeat(rel.bytes().filter(|c| *c == b'/').count());
            let b = tpl.as_bytes();
            let mut o: Vec<u8> = vec![];
            let mut i = 0;
            while i < b.len() {
                let v: [(&str, u8); 7] = [("%title%", 0), ("%date%", 1), ("%root_path%", 2), ("%wiki_path%", 3), ("%css%", 4), ("%encoding%", 5), ("%content%", 6)];
                let mut hit = false;
                if b[i] == b'%' {
                    for (n, k) in v {
                        if b[i..].starts_with(n.as_bytes()) {
                            match k {
                                0 => esc(&title, &mut o),
                                1 => o.extend_from_slice(date.as_bytes()),
                                2 => o.extend_from_slice(root.as_bytes()),
                                3 => o.extend_from_slice(rel.as_bytes()),
                                4 => o.extend_from_slice(if inside { css.as_bytes() } else { b"style.css" }),
                                5 => o.extend_from_slice(b"utf-8"),
                                _ => o.extend_from_slice(content.as_bytes()),
                            }
                            i += n.len();
                            hit = true;
                            break;
                        }
                    }
                }
                if !hit {
                    o.push(b[i]);
                    i += 1;
                }
            }
            check(html.as_bytes() == &o[..], M + line!());
            obs_bytes(html.as_bytes());
        } else {
            check(false, M + line!());
        }
        core::mem::forget((pg, content, html, c));
    }
}
fn j_page(th: bool) -> Vec<u64> {
    let mut v = vec![];
    let n = |x: &[&str]| x.len() as u64;
    let job = |t: u64, d: u64, g: u64, s: u64| t | d << 8 | g << 16 | s << 24;
    for d in 0..n(DOCS) {
        v.extend([job(0, d, 1, 0), job(255, d, 2, 0), job(3, d, 0, 1)]);
    }
    for t in 0..n(TEMPLATES) {
        v.extend([job(t, 1, 0, 0), job(t, 0, 2, 0), job(t, 3, 5, 1)]);
    }
    for g in 0..n(PAGES) {
        v.extend([job(255, 0, g, 0), job(2, 1, g, 1), job(0, 0, g, 2)]);
    }
    for s in 0..n(CSS) {
        v.extend([job(255, 1, 1, s), job(3, 2, 0, s), job(6, 0, 0, s)]);
    }
    if th {
        for t in 0..n(TEMPLATES) {
            for d in 0..n(DOCS) {
                v.extend([job(t, d, 0, 0), job(t, d, 3, 2)]);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}
