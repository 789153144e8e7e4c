//! A link holds what is written between its brackets.
use crate::walk::*;
use crate::{blk::*, corpus::*, sym::*, util::*, H};
#[allow(unused_imports)]
use vimwiki_core::*;

const M: u32 = 150000;

pub static HS: &[H] = &[H { name: "h_link", f: h_link, jobs: j_link, bounds: "a corpus of 45 links of all kinds and the links of the common corpus, as written, with any one character replaced by any ASCII character, with one to three arbitrary characters (ASCII or of two or three bytes) at chosen places; thorough: also insertions and pairs of characters; outside: properties whose list is malformed from the second on may be cut there" }];

/// `\u{1}`: any ASCII character.
static TEXTS: &[(&str, &str)] = &[
    ("a", "[[\u{1}\u{1}]]\n"),
    ("a", "[[a\u{1}\u{1}b]]\n"),
    ("a", "[[a|\u{1}\u{1}]]\n"),
    ("a", "[[a|b\u{1}c\u{1}d]]\n"),
    ("a", "{{\u{1}\u{1}}}\n"),
    ("a", "{{a|\u{1}\u{1}}}\n"),
    ("a", "[[a#\u{1}\u{1}]]\n"),
    ("b", "[[a b#c#d|e f]]\n"),
    ("b", "[[a%20b]] [[a%2]] [[c%23d e]]\n"),
    ("b", "[[a%23b#c d#e]]\n"),
    ("b", "[[a}}b]] {{c]]d}}\n"),
    ("b", "[[a|{{b}}]]\n"),
    ("b", "[[a|{{b}} c]]\n"),
    ("b", "[[a|{{b#c}}|d=\"e\"]]\n"),
    ("b", "{{a.png|b|c=\"d\" e=\"f g\"}}\n"),
    ("b", "{{a||c=\"\"}}\n"),
    ("b", "{{a|b|c=\"d\" c=\"e\"}}\n"),
    ("b", "{{a|b|c=\"d\"\te=\"f\"}}\n"),
    ("b", "{{a|b|c=d e}}\n"),
    ("b", "{{a|b|c d=\"e|f\"}}\n"),
    ("b", "[[a|b|c=\"d\"]]\n"),
    ("b", "[[a||]] [[b|]]\n"),
    ("b", "[[wiki1:a b|c d]]\n"),
    ("b", "[[wiki23:a/b#c|d|e=\"f\"]]\n"),
    ("b", "[[wiki1:a|{{b}}]]\n"),
    ("b", "[[wn.W X:a b|c d]]\n"),
    ("b", "[[wn.W:a#b#c d]]\n"),
    ("b", "[[wn.wn.W:a:b]]\n"),
    ("b", "[[diary:2021-03-05#a b#c|x y]]\n"),
    ("b", "[[diary:2021-12-31|{{a}}]]\n"),
    ("b", "[[diary:2021-03-05]]\n"),
    ("b", "[[/a/b/]] [[../c]] [[./d/]]\n"),
    ("b", "[[file:/a b|c]] [[local:d/e]]\n"),
    ("b", "[[http://a.b/c?d=e#f|g]]\n"),
    ("b", "[[mailto:a@b]]\n"),
    ("b", "http://a.b/c?d=e#f\n"),
    ("b", "local:a/b/ file:///c\n"),
    ("b", "[[//a/b]] [[a//b]]\n"),
    ("b", "[[a?b#c]] [[?d]] [[#e]]\n"),
    ("u", "[[\u{2}|\u{2}]]\n"),
    ("u", "[[a#\u{2}]]\n"),
    ("u", "[[wn.\u{2}:b]]\n"),
    ("u", "{{a|\u{3}|b=\"\u{2}\"}}\n"),
    ("c", "*[[a b|c]]* - [[d]]\n"),
    ("c", "- [[a b|c d]]\n  {{e|f}}\n"),
    ("c", "= [[a|b]] =\n[[c d|e]]:: [[f]]\n"),
    ("c", "|a [[b]]|{{c d}}|\n"),
];

fn hex(c: u8) -> Option<u8> {
    match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        b'A'..=b'F' => Some(c - b'A' + 10),
        _ => None,
    }
}
/// With `%xx` decoded.
fn decode(s: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'%' && i + 2 < s.len() {
            if let (Some(a), Some(b)) = (hex(s[i + 1]), hex(s[i + 2])) {
                v.push(a * 16 + b);
                i += 3;
                continue;
            }
        }
        v.push(s[i]);
        i += 1;
    }
    v
}
fn plain(s: &[u8]) -> bool {
    // only the first # is left as it is
    s.iter().filter(|c| **c == b'#').count() < 2 && s.iter().all(|c| c.is_ascii_alphanumeric() || matches!(*c, b'/' | b'.' | b'-' | b'_' | b'#' | b'?' | b'='))
}
/// The address `u` is the text `t`, or that with what a URI cannot hold
/// encoded, letters of either case being the same where `fold`.
fn spells(u: &[u8], t: &[u8], fold: bool) -> bool {
    let mut j = 0;
    for c in t {
        if j < u.len() && (u[j] == *c || fold && u[j].eq_ignore_ascii_case(c)) {
            j += 1;
        } else if j + 2 < u.len() && u[j] == b'%' && hex(u[j + 1]).zip(hex(u[j + 2])).map_or(false, |(a, b)| a * 16 + b == *c) {
            j += 3;
        } else {
            return false;
        }
    }
    j == u.len()
}
fn says(u: &[u8], t: &[u8]) -> bool {
    u == t || !plain(t) && (spells(u, t, false) || decode(u) == t)
}
fn pos(s: &[u8], c: u8) -> Option<usize> {
    let mut i = 0;
    while i < s.len() {
        if s[i] == c {
            return Some(i);
        }
        i += 1;
    }
    None
}
/// The parts between bars: target, description, rest.
fn parts(s: &[u8]) -> (&[u8], Option<&[u8]>, Option<&[u8]>) {
    match pos(s, b'|') {
        None => (s, None, None),
        Some(i) => {
            let d = &s[i + 1..];
            match pos(d, b'|') {
                None => (&s[..i], Some(d), None),
                Some(j) => (&s[..i], Some(&d[..j]), Some(&d[j + 1..])),
            }
        }
    }
}

/// The address of a link is its target, and the accessors say the same.
fn address(d: &LinkData, t: &[u8]) {
    let u = d.uri_ref.to_string();
    let u = u.as_bytes();
    // schemes and hosts are case-insensitive; the path below a host begins
    // with a slash, written or not
    let ok = match find(t, 0, t.len(), "//") {
        Some(i) if i == 0 || t[i - 1] == b':' => {
            let mut z = i + 2;
            while z < t.len() && !matches!(t[z], b'/' | b'?' | b'#') {
                z += 1;
            }
            let mut v = t[..z].to_vec();
            v.push(b'/');
            v.extend_from_slice(&t[z..]);
            // nothing before the port is left
            spells(u, t, true) || spells(u, &v, true) || matches!(t[..z].last(), Some(b':' | b'@' | b'/'))
        }
        _ => says(u, t) || pos(t, b':').is_some() && spells(u, t, true),
    };
    check(ok, M + line!());
    let dec = decode(u);
    check(d.to_decoded_uri_string().as_bytes() == &dec[..] || !utf8(&dec), M + line!());
    let frag = pos(t, b'#');
    check(d.has_anchor() == frag.is_some(), M + line!());
    check(d.fragment_str().is_some() == frag.is_some(), M + line!());
    if let Some(i) = frag {
        anchor(d, &t[i + 1..]);
    } else {
        check(d.to_anchor().is_none(), M + line!());
    }
    let path = &t[..frag.unwrap_or(t.len())];
    let path = &path[..pos(path, b'?').unwrap_or(path.len())];
    if plain(path) && !path.is_empty() && !path.starts_with(b"//") {
        check(d.scheme().is_none() && d.is_local() && !d.is_remote(), M + line!());
        check(d.is_path_dir() == (path[path.len() - 1] == b'/'), M + line!());
        check(!d.is_local_anchor(), M + line!());
        let p = d.to_path_buf();
        check(p.is_absolute() == (path[0] == b'/'), M + line!());
        let mut n = path.split(|c| *c == b'/').filter(|s| !s.is_empty());
        let mut ok = true;
        for c in p.components() {
            use std::path::Component::*;
            match c {
                RootDir => {}
                // dots are left out but for the first
                CurDir => ok &= n.next() == Some(b"."),
                c => {
                    let mut s = n.next();
                    while s == Some(b".") {
                        s = n.next();
                    }
                    ok &= s == Some(c.as_os_str().to_str().unwrap().as_bytes());
                }
            }
        }
        ok &= n.all(|s| s == b".");
        check(ok, M + line!());
    }
    if path.is_empty() && frag.is_some() {
        check(d.is_local_anchor() == (pos(t, b'?').map_or(true, |i| i > frag.unwrap())), M + line!());
    }
}
/// An anchor is the parts between `#`.
fn anchor(d: &LinkData, t: &[u8]) {
    match d.to_anchor() {
        None => check(false, M + line!()),
        Some(a) => {
            let mut n = 0;
            let mut ok = true;
            let want: Vec<&[u8]> = t.split(|c| *c == b'#').collect();
            for x in &a {
                ok &= n < want.len() && says(x.as_bytes(), want[n]);
                n += 1;
            }
            // an encoded # separates as well
            let esc = t.windows(3).any(|w| w == b"%23");
            check(esc || (ok && n == want.len()), M + line!());
        }
    }
}
fn description(d: &Option<Description>, t: Option<&[u8]>) {
    check(d.is_some() == t.is_some(), M + line!());
    if let (Some(d), Some(t)) = (d, t) {
        let whole = t.len() > 4 && t.starts_with(b"{{") && find(t, 3, t.len(), "}}") == Some(t.len() - 2);
        match d {
            Description::Text(x) => {
                check(x.as_bytes() == t, M + line!());
                // embedded images are no text
                check(!(whole && plain(&t[2..t.len() - 2]) && !t.starts_with(b"{{//")), M + line!());
                check(d.to_string().as_bytes() == t, M + line!());
            }
            Description::TransclusionLink(l) => {
                check(whole, M + line!());
                if whole {
                    address(l, &t[2..t.len() - 2]);
                    check(l.description.is_none() && l.properties.is_none(), M + line!());
                }
            }
        }
    }
}
fn properties(d: &LinkData, t: Option<&[u8]>) {
    let p = &d.properties;
    let mut want: Vec<(&[u8], &[u8])> = vec![];
    if let Some(t) = t {
        let mut i = 0;
        loop {
            let k = i;
            while i < t.len() && t[i] != b'=' {
                i += 1;
            }
            if i == k || i + 1 >= t.len() || t[i + 1] != b'"' {
                break;
            }
            let v = i + 2;
            let mut z = v;
            while z < t.len() && t[z] != b'"' {
                z += 1;
            }
            if z >= t.len() {
                break;
            }
            // the last of several with the same key holds
            match want.iter_mut().find(|w| w.0 == &t[k..i]) {
                Some(w) => w.1 = &t[v..z],
                None => want.push((&t[k..i], &t[v..z])),
            }
            i = z + 1;
            let s = i;
            while i < t.len() && (t[i] == b' ' || t[i] == b'\t') {
                i += 1;
            }
            if i == s {
                break;
            }
        }
    }
    check(p.is_some() == !want.is_empty(), M + line!());
    if let Some(p) = p {
        check(p.len() == want.len(), M + line!());
        for (k, v) in &want {
            let k = core::str::from_utf8(k).unwrap();
            check(p.get(k).map(|x| x.as_bytes()) == Some(*v), M + line!());
            check(d.get_property_str(k).map(|x| x.as_bytes()) == Some(*v), M + line!());
        }
    }
}
fn fallback(l: &Link, t: Option<&[u8]>) {
    let f = l.to_description_or_fallback();
    match (l.description(), t) {
        (Some(d), _) => check(f.as_ref() == Some(d), M + line!()),
        (None, None) => check(f.is_none(), M + line!()),
        (None, Some(_)) => check(matches!(&f, Some(Description::Text(x)) if x.as_bytes() == &decode(l.data().uri_ref.to_string().as_bytes())[..]), M + line!()),
    }
}
fn utf8(v: &[u8]) -> bool {
    core::str::from_utf8(v).is_ok()
}

fn link(l: &Link, s: &[u8]) {
    reach(1);
    let kinds = [l.is_wiki(), l.is_indexed_inter_wiki(), l.is_named_inter_wiki(), l.is_diary(), l.is_raw(), l.is_transclusion()];
    check(kinds.iter().filter(|k| **k).count() == 1, M + line!());
    check(l.date().is_some() == l.is_diary() && l.index().is_some() == l.is_indexed_inter_wiki() && l.name().is_some() == l.is_named_inter_wiki(), M + line!());
    let d = l.data();
    if let Link::Raw { .. } = l {
        address(d, s);
        check(d.description.is_none() && d.properties.is_none(), M + line!());
        fallback(l, None);
        return;
    }
    let (o, c) = if l.is_transclusion() { ("{{", "}}") } else { ("[[", "]]") };
    let ok = s.len() > 4 && starts(s, 0, s.len(), o) && starts(s, s.len() - 2, s.len(), c);
    check(ok, M + line!());
    if !ok {
        return;
    }
    let s = &s[2..s.len() - 2];
    let (t, desc, props) = parts(s);
    // what a URI holds decodes to text
    let fine = utf8(&decode(t));
    match l {
        Link::Wiki { .. } => {
            address(d, t);
            properties(d, props);
            if fine {
                fallback(l, Some(t));
            }
        }
        Link::Transclusion { .. } => {
            address(d, t);
            properties(d, props);
            fallback(l, None);
        }
        Link::IndexedInterWiki { index, .. } => {
            let i = pos(t, b':').unwrap_or(0);
            check(t.starts_with(b"wiki") && i > 4, M + line!());
            let n = t[4.min(t.len())..i.max(4)].iter().fold(0u64, |n, c| if *c == b'+' { n } else { n * 10 + (*c as u64).wrapping_sub(48) });
            check(n == *index as u64 && l.index() == Some(*index), M + line!());
            address(d, &t[i + 1..]);
            check(d.properties.is_none(), M + line!());
            if fine {
                fallback(l, Some(&t[i + 1..]));
            }
        }
        Link::NamedInterWiki { name, .. } => {
            let i = pos(t, b':').unwrap_or(0);
            check(t.starts_with(b"wn.") && i > 3 && name.as_bytes() == &t[3..i.max(3)], M + line!());
            check(l.name() == Some(st(name)), M + line!());
            address(d, &t[i + 1..]);
            check(d.properties.is_none(), M + line!());
            if fine {
                fallback(l, Some(&t[i + 1..]));
            }
        }
        Link::Diary { date: x, .. } => {
            use vimwiki_core::vendor::chrono::Datelike;
            check(t.starts_with(b"diary:"), M + line!());
            let z = pos(t, b'#').unwrap_or(t.len());
            if let Some((y, m, n)) = date(t, (6, z)) {
                check(x.year() == y && x.month() == m && x.day() == n, M + line!());
            }
            check(l.date() == Some(*x), M + line!());
            let u = d.uri_ref.to_string();
            if z < t.len() {
                let parts: Vec<&[u8]> = t[z + 1..].split(|c| *c == b'#').collect();
                let any = !(parts.len() == 1 && parts[0].is_empty());
                if any {
                    anchor(d, &t[z + 1..]);
                }
                check(says(u.as_bytes(), &t[z..]), M + line!());
            } else {
                check(u.is_empty() && !l.has_anchor(), M + line!());
            }
            check(d.properties.is_none(), M + line!());
            if desc.is_none() && z - 6 == 10 && date(t, (6, z)).is_some() {
                check(matches!(l.to_description_or_fallback(), Some(Description::Text(x)) if x.as_bytes() == &t[..z]), M + line!());
            }
        }
        _ => {}
    }
    description(&d.description, desc);
}
fn deco(s: &[u8], d: &DecoratedText) {
    for c in d.as_contents_slice() {
        let r = range(c);
        match c.as_inner() {
            DecoratedTextContent::Link(l) => link(l, &s[r.a..r.b]),
            DecoratedTextContent::DecoratedText(d) => deco(s, d),
            _ => {}
        }
    }
}

#[no_mangle]
pub extern "C" fn h_link(p: u64) {
    let s = if p >> 48 & 1 == 1 { text(&template(TEXTS, p & !(1 << 48))) } else { any(p) };
    let b = s.as_bytes();
    if let Some(pg) = parse(s) {
        let mut n = 0;
        containers(&pg, &mut |c| {
            for e in c.iter() {
                let r = range(e);
                match e.as_inner() {
                    InlineElement::Link(l) => {
                        n += 1;
                        link(l, &b[r.a..r.b])
                    }
                    InlineElement::DecoratedText(d) => deco(b, d),
                    _ => {}
                }
            }
        });
        obs(n);
        core::mem::forget(pg);
    }
}
fn j_link(th: bool) -> Vec<u64> {
    let mut v = on("k", &[LIT, OVER]);
    v.extend(on("R", &[LIT]));
    v.extend(every(3, on("Rk", &[OVER])));
    let mut t = sweep(TEXTS, "a", &[LIT]);
    t.extend(sweep(TEXTS, "u", &[LIT]));
    t.extend(sweep(TEXTS, "bc", &[LIT, OVER]));
    if th {
        t.extend(sweep(TEXTS, "bc", &[INS, OVER2, CUT]));
        v.extend(on("k", &[INS]));
    }
    v.extend(t.iter().map(|p| p | 1 << 48));
    v
}
