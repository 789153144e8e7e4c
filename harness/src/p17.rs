//! Blocks are what their lines say.
use crate::walk::range;
use crate::{blk, blk::*, corpus::*, sym::*, util::*, H};
#[allow(unused_imports)]
use vimwiki_core::*;

const M: u32 = 170000;

pub static HS: &[H] = &[H { name: "h_blocks", f: h_blocks, jobs: j_blocks, bounds: "documents of a corpus of 60 sequences of blocks and of the common corpus, as written and with any one character replaced by any ASCII character, texts of up to three arbitrary characters; thorough: also insertions, cuts and pairs of characters; outside: comments over several lines, bare carriage returns, dates other than YYYY-M-D with at most 4, 2 and 2 digits, where a list ends" }];

static TEXTS: &[(&str, &str)] = &[
    ("h", "= a =\nb\n"),
    ("h", "== a b ==\n"),
    ("h", " === a ===\t\n"),
    ("h", "====== a ======\n=a=\n"),
    ("h", "=a= b=\n== = ==\n"),
    ("h", "a\n= b =\nc\n"),
    ("h", "= a ==\n== b =\n=c\n"),
    ("d", "a:: b\n:: c\n"),
    ("d", "a::\n:: b\n:: c\nd:: e\n"),
    ("d", "a::\nb:: c\n::d\n"),
    ("d", " a b:: c:: d\n :: e\nf\n"),
    ("d", "a\nb:: c\n\n:: d\n"),
    ("d", "%%a:: b\nc::d:: e\n"),
    ("c", "{{{\na\n}}}\n"),
    ("c", "{{{rust\n a\n\n}}}\nb\n"),
    ("c", "{{{c++ a=\"b\" c=\"d e\"\n}}}\n"),
    ("c", "{{{a=\"b\"\nc\n}}} \n"),
    ("c", "  {{{\n   a\n b\n  }}}\n"),
    ("c", "   {{{\n\ta\n    b\n }}}\nc"),
    ("c", "{{{\na\n}}}b\n}}}"),
    ("c", "{{{a\nb\n"),
    ("c", "a\n{{{\n= b =\n- c\n}}}\n"),
    ("c", "{{{\n}}\n}}}}\n }}}\n"),
    ("c", "{{{a b=\"c\" d\ne\n}}}\n"),
    ("m", "{{$\na\n}}$\n"),
    ("m", "{{$%a%\nb\n\n}}$\n"),
    ("m", " {{$%a b% \n  c\nd\n }}$ \n"),
    ("m", "{{$%a\nb\n}}$\n"),
    ("m", "a\n{{$\n}}}\n}}$\nb\n"),
    ("q", "> a\n> b\nc\n"),
    ("q", "> a\n\n\n>\n> b\n\nc\n"),
    ("q", " > a\n>b\n"),
    ("q", "    a\n\tb\n"),
    ("q", "    a\n     b\n\n    c\n"),
    ("q", "\t\t\t\ta\n   b\n"),
    ("q", "    > a\n> b\n"),
    ("q", "a\n    b\n> c\n"),
    ("q", "> - a\n>  b\n- c\n"),
    ("x", "----\na\n-----\n"),
    ("x", "a\n----\n---\n"),
    ("x", "----a\n ----\n"),
    ("y", "%title a b\nc\n"),
    ("y", "%nohtml\n%template a\n"),
    ("y", "%date 2021-03-05\n"),
    ("y", "%date 2020-02-29\na\n"),
    ("y", "%a b\n%c\td e\n"),
    ("y", "a\n%title b\n"),
    ("y", "%title\n%a\n% b\n%%c d\n"),
    ("y", "%nohtml a\n%titlea b\n"),
    ("y", "%a%b c\n %d e\n"),
    ("p", "a\nb\n\nc\n \nd\n"),
    ("p", " a\n  b\n   c\n"),
    ("p", "a\n- b\n"),
    ("p", "a\n|b|\n"),
    ("p", "|a|\n- b\n= c =\n> d\n"),
    ("p", "|a\nb|\n|-|\n"),
    ("p", "a\r\n\r\n= b =\r\nc:: d\r\n> e\r\n"),
    ("p", "{{{\r\na\r\n}}}\r\n{{$\r\nb\r\n}}$\r\n%title c\r\n----\r\n"),
    ("p", "\u{2}\n= \u{2} =\n\u{2}:: \u{2}\n"),
    ("p", "> \u{2}\n\n    \u{2}\n%title \u{2}\n"),
    ("p", "{{{\u{2}\n\u{2}\n}}}\n"),
];

fn same(b: &[u8], s: Sp, t: &str) -> bool {
    &b[s.0..s.1] == t.as_bytes()
}
fn texts<'a>(b: &[u8], want: &[Sp], got: &[std::borrow::Cow<'a, str>], l: u32) {
    check(want.len() == got.len(), M + l);
    if want.len() == got.len() {
        for i in 0..want.len() {
            check(same(b, want[i], &got[i]), M + l);
        }
    }
}

fn compare(b: &[u8], w: &B, e: &BlockElement) {
    match (w, e) {
        (B::Header(h), BlockElement::Header(g)) => {
            check(g.level == h.level, M + line!());
            check(g.centered == h.centered, M + line!());
            check(span(&g.content) == h.text, M + line!());
        }
        (B::Defs(d), BlockElement::DefinitionList(g)) => {
            let items: Vec<_> = g.iter().collect();
            check(items.len() == d.len(), M + line!());
            if items.len() != d.len() {
                return;
            }
            for (i, (t, ds)) in d.iter().enumerate() {
                let td = items[i].as_inner();
                check(span(td.term.as_inner().as_inner()) == *t, M + line!());
                let gs: Vec<_> = td.definitions.iter().collect();
                check(gs.len() == ds.len(), M + line!());
                if gs.len() == ds.len() {
                    for k in 0..gs.len() {
                        check(span(gs[k].as_inner().as_inner()) == ds[k], M + line!());
                    }
                }
            }
        }
        (B::List, BlockElement::List(_)) => {}
        (B::Table, BlockElement::Table(_)) => {}
        (B::Code(c), BlockElement::CodeBlock(g)) => {
            match (&c.lang, &g.language) {
                (Some(l), Some(t)) => check(same(b, *l, t), M + line!()),
                (x, y) => check(x.is_none() && y.is_none(), M + line!()),
            }
            let mut n = 0;
            for (i, (k, v)) in c.meta.iter().enumerate() {
                // the last value of a key counts
                if c.meta[i + 1..].iter().any(|(q, _)| b[q.0..q.1] == b[k.0..k.1]) {
                    continue;
                }
                n += 1;
                let mut found = false;
                for (q, x) in &g.metadata {
                    if same(b, *k, q) {
                        found = true;
                        check(same(b, *v, x), M + line!());
                    }
                }
                check(found, M + line!());
            }
            check(n == g.metadata.len(), M + line!());
            texts(b, &c.lines, &g.lines, line!());
        }
        (B::Math(m), BlockElement::MathBlock(g)) => {
            match (&m.env, &g.environment) {
                (Some(l), Some(t)) => check(same(b, *l, t), M + line!()),
                (x, y) => check(x.is_none() && y.is_none(), M + line!()),
            }
            texts(b, &m.lines, &g.lines, line!());
        }
        (B::Quote(q), BlockElement::Blockquote(g)) => texts(b, q, &g.lines, line!()),
        (B::Divider, BlockElement::Divider(_)) => {}
        (B::Place(p), BlockElement::Placeholder(g)) => match (p, g) {
            (Place::Title(s), Placeholder::Title(t)) => check(same(b, *s, t), M + line!()),
            (Place::NoHtml, Placeholder::NoHtml) => {}
            (Place::Template(s), Placeholder::Template(t)) => check(same(b, *s, t), M + line!()),
            (Place::Date(s), Placeholder::Date(d)) => {
                let (y, m, dd) = blk::date(b, *s).unwrap_or((0, 0, 0));
                let t = d.to_string();
                let t = t.as_bytes();
                let n = |a: usize, e: usize| t[a..e].iter().fold(0u32, |x, c| x * 10 + (*c - b'0') as u32);
                check(t.len() == 10 && n(0, 4) == y as u32 && n(5, 7) == m && n(8, 10) == dd, M + line!());
            }
            (Place::Other(s, v), Placeholder::Other { name, value }) => {
                check(same(b, *s, name) && same(b, *v, value), M + line!())
            }
            _ => check(false, M + line!()),
        },
        (B::Para(p), BlockElement::Paragraph(g)) => {
            check(g.lines.len() == p.len(), M + line!());
            if g.lines.len() == p.len() {
                for i in 0..p.len() {
                    check(span(&g.lines[i]) == p[i], M + line!());
                }
            }
        }
        _ => check(false, M + line!()),
    }
}

#[no_mangle]
pub extern "C" fn h_blocks(p: u64) {
    let s = if p >> 48 & 1 == 1 { text(&template(TEXTS, p & !(1 << 48))) } else { any(p) };
    let b = s.as_bytes();
    // bare carriage returns and comments over several lines are not covered
    for i in 0..b.len() {
        if b[i] == b'\r' {
            assume(i + 1 < b.len() && b[i + 1] == b'\n');
        }
        assume(!(i + 2 < b.len() && b[i] == b'%' && b[i + 1] == b'%' && b[i + 2] == b'+'));
    }
    let ls = lines(b);
    for l in &ls {
        if starts(b, l.a, l.e, "%date") {
            let v = skip(b, l.a + 5, l.e);
            let odd = b[v..l.e].iter().all(|c| c.is_ascii_digit() || c.is_ascii_whitespace() || matches!(c, 11 | b'-' | b'+'));
            assume(!odd || date(b, (v, l.e)).is_some());
        }
    }
    if let Some(pg) = parse(s) {
        let mut i = 0;
        let mut n = 0;
        reach(1);
        while i < ls.len() {
            if blank(b, ls[i]) {
                i += 1;
                continue;
            }
            let (w, mut next) = block(b, &ls, i);
            check(n < pg.elements.len(), M + line!());
            if n >= pg.elements.len() {
                break;
            }
            let e = &pg.elements[n];
            let r = range(e);
            if let B::List = w {
                next = i + 1;
                while next < ls.len() && ls[next].a < r.b {
                    next += 1;
                }
            }
            let (l, z) = (ls[i], ls[next - 1]);
            check(r.a >= l.a && r.a <= skip(b, l.a, l.e), M + line!());
            check(r.b >= back(b, z.a, z.e) && r.b <= z.n, M + line!());
            compare(b, &w, e.as_inner());
            n += 1;
            i = next;
        }
        check(n == pg.elements.len(), M + line!());
        obs(n as u64);
        core::mem::forget(pg);
    }
}
fn j_blocks(th: bool) -> Vec<u64> {
    let mut v = anytexts();
    v.extend(on("*", &[LIT]));
    v.extend(on("R", &[LIT]));
    v.extend(every(if th { 1 } else { 12 }, on("R", &[OVER])));
    let mut modes = vec![LIT, OVER];
    if th {
        modes.extend([INS, CUT, OVER2, INSW]);
        v.extend(on("*", &[OVER, INS]));
    }
    v.extend(sweep(TEXTS, "*", &modes).iter().map(|p| p | 1 << 48));
    v
}
