//! Lists are what the lines of the text say: markers, nesting, order, todo
//! items.
use crate::walk::*;
use crate::{corpus::*, sym::*, util::*, H};
#[allow(unused_imports)]
use vimwiki_core::*;

const M: u32 = 120000;

pub static HS: &[H] = &[
    H { name: "h_lists", f: h_lists, jobs: j_lists, bounds: "documents of the corpus and of a list corpus (30 lists with all markers, nesting, todo items and contents) as written and with any one character replaced by any ASCII character; thorough: also insertions, cuts and pairs of characters" },
    H { name: "h_prefix", f: h_prefix, jobs: j_prefix, bounds: "every kind of marker, every suffix, every position below 1000 (roman numerals: below 400; alphabet: below 65536)" },
    H { name: "h_todo", f: h_todo, jobs: j_todo, bounds: "all trees of up to three levels: an item, up to three sub-items, of which the first has up to two; any todo status or none for each" },
];

static LISTS: &[(&str, &str)] = &[
    ("l", "- a\n- b\n- c\n"),
    ("l", "* a\n- b\n# c\n"),
    ("l", "1. a\n2) b\n9. c\n"),
    ("l", "a. a\nb) b\nA. c\n"),
    ("l", "i. a\niv) b\nz) c\n"),
    ("l", "XC. a\nD) b\n"),
    ("l", "ca. a\nmb) b\n"),
    ("l", "# a\n# b\n\n# c\n"),
    ("l", "- a\n  b\n  - c\n    d\n    * e\n  f\n- g\n"),
    ("l", "- [ ] a\n- [.] b\n- [o] c\n- [O] d\n- [X] e\n- [-] f\n"),
    ("l", "1) [X] a\n  - [ ] b\n"),
    ("l", "- a\n * b\n  # c\n- d\n"),
    ("l", "  - a\n  - b\n- c\n"),
    ("l", "- a\n\t- b\n\t\tc\n"),
    ("l", "a\n- b\n"),
    ("l", "- a\n= b =\n- c\n"),
    ("l", "- |a|\n  |b|\n- {{{\n  a\n  }}}\n"),
    ("l", "- %%c\n- a %%+b\n c+%% d\n"),
];

fn sp(c: u8) -> bool {
    c == b' ' || c == b'\t'
}

#[derive(Clone, Copy, PartialEq)]
struct Mark {
    /// As in `kind`.
    ty: u8,
    /// 0 none, 1 period, 2 paren.
    suffix: u8,
    len: usize,
}

/// The marker at the start of `b`, with the blank after it.
fn marker(b: &[u8]) -> Option<Mark> {
    let at = |i: usize| if i < b.len() { b[i] } else { 0 };
    let one = |ty| if at(1) == b' ' { Some(Mark { ty, suffix: 0, len: 2 }) } else { None };
    match at(0) {
        b'-' => return one(7),
        b'*' => return one(8),
        b'#' => return one(2),
        _ => {}
    }
    let mut n = 0;
    let (mut dig, mut low, mut up, mut rl, mut ru) = (true, true, true, true, true);
    while at(n).is_ascii_alphanumeric() {
        let c = at(n);
        dig &= c.is_ascii_digit();
        low &= c.is_ascii_lowercase();
        up &= c.is_ascii_uppercase();
        rl &= matches!(c, b'i' | b'v' | b'x' | b'l' | b'c' | b'd' | b'm');
        ru &= matches!(c, b'I' | b'V' | b'X' | b'L' | b'C' | b'D' | b'M');
        n += 1;
    }
    if n == 0 {
        return None;
    }
    let suffix = match at(n) {
        b'.' => 1,
        b')' => 2,
        _ => return None,
    };
    if at(n + 1) != b' ' {
        return None;
    }
    let ty = if dig {
        1
    } else if rl {
        5
    } else if ru {
        6
    } else if low {
        3
    } else if up {
        4
    } else {
        return None;
    };
    Some(Mark { ty, suffix, len: n + 2 })
}

fn kind(t: &ListItemType) -> u8 {
    match t {
        ListItemType::Ordered(o) => match o {
            OrderedListItemType::Number => 1,
            OrderedListItemType::Pound => 2,
            OrderedListItemType::LowercaseAlphabet => 3,
            OrderedListItemType::UppercaseAlphabet => 4,
            OrderedListItemType::LowercaseRoman => 5,
            OrderedListItemType::UppercaseRoman => 6,
        },
        ListItemType::Unordered(UnorderedListItemType::Hyphen) => 7,
        ListItemType::Unordered(UnorderedListItemType::Asterisk) => 8,
        _ => 9,
    }
}
fn suffix(s: ListItemSuffix) -> u8 {
    match s {
        ListItemSuffix::None => 0,
        ListItemSuffix::Period => 1,
        ListItemSuffix::Paren => 2,
    }
}
fn todo(b: &[u8]) -> Option<ListItemTodoStatus> {
    if b.len() < 4 || b[0] != b'[' || b[2] != b']' || b[3] != b' ' {
        return None;
    }
    Some(match b[1] {
        b' ' => ListItemTodoStatus::Incomplete,
        b'.' => ListItemTodoStatus::PartiallyComplete1,
        b'o' => ListItemTodoStatus::PartiallyComplete2,
        b'O' => ListItemTodoStatus::PartiallyComplete3,
        b'X' => ListItemTodoStatus::Complete,
        b'-' => ListItemTodoStatus::Rejected,
        _ => return None,
    })
}

/// Where the line of `i` starts and how deep it is indented.
fn indent(b: &[u8], i: usize) -> (usize, usize) {
    let mut a = i;
    while a > 0 && b[a - 1] != b'\n' {
        a -= 1;
    }
    let mut n = 0;
    while a + n < b.len() && sp(b[a + n]) {
        n += 1;
    }
    (a, n)
}

fn list(b: &[u8], li: &List, r: R, parent: Option<usize>) {
    reach(1);
    check(li.len() > 0, M + line!());
    let mut head: Option<(Mark, usize)> = None;
    let mut n = 0;
    for i in li.into_iter() {
        let ir = range(i);
        let (a, ind) = indent(b, ir.a);
        // an item starts with its marker, at the indentation of the list
        check(a + ind == ir.a, M + line!());
        let m = marker(&b[ir.a..]);
        check(m.is_some(), M + line!());
        let m = match m {
            Some(m) => m,
            None => return,
        };
        let (h, hi) = *head.get_or_insert((m, ind));
        check(ind == hi, M + line!());
        if let Some(p) = parent {
            check(ind > p, M + line!());
        }
        check(kind(&i.ty) == h.ty, M + line!());
        let want = if (m.suffix == 0) == (h.suffix == 0) { m.suffix } else { h.suffix };
        check(suffix(i.suffix) == want, M + line!());
        check(i.pos == n, M + line!());
        n += 1;
        let t = todo(&b[ir.a + m.len..]);
        check(i.attributes.todo_status == t, M + line!());
        check(i.is_todo() == t.is_some(), M + line!());
        check(i.is_ordered() == (h.ty < 7) && i.is_unordered() == (h.ty >= 7), M + line!());
        // contents: the rest of the line, then lines that are indented more
        let mut first = true;
        for c in i.contents.iter() {
            let cr = range(c);
            if first {
                let start = ir.a + m.len + if t.is_some() { 4 } else { 0 };
                let mut k = start;
                while k < cr.a {
                    check(sp(b[k]), M + line!());
                    k += 1;
                }
                check(cr.a >= start, M + line!());
                check(!matches!(c.as_inner(), BlockElement::List(_)), M + line!());
            } else {
                let (_, ci) = indent(b, cr.a);
                check(ci > ind, M + line!());
            }
            if let BlockElement::List(l) = c.as_inner() {
                list(b, l, cr, Some(ind));
            }
            first = false;
        }
        check(!first, M + line!());
    }
    check(li.is_ordered() == (head.map_or(9, |h| h.0.ty) < 7), M + line!());
    check(li.is_unordered() == !li.is_ordered(), M + line!());
    // what follows is not another item of this list
    if let Some((_, hi)) = head {
        let e = r.b;
        if e > 0 && b[e - 1] == b'\n' {
            let (a, ni) = indent(b, e);
            if a == e && ni == hi {
                check(!item_line(b, e + ni), M + line!());
            }
        }
    }
}

/// An item needs something after its marker.
fn item_line(b: &[u8], i: usize) -> bool {
    match marker(&b[i..]) {
        None => false,
        Some(m) => {
            let mut j = i + m.len;
            if todo(&b[j..]).is_some() {
                j += 4;
            }
            while j < b.len() && b[j] != b'\n' && b[j] != b'\r' {
                if !sp(b[j]) && b[j] != 11 && b[j] != 12 {
                    return true;
                }
                j += 1;
            }
            false
        }
    }
}

#[no_mangle]
pub extern "C" fn h_lists(p: u64) {
    let s = if p >> 48 & 1 == 1 { text(&template(LISTS, p & !(1 << 48))) } else { any(p) };
    let b = s.as_bytes();
    if let Some(pg) = parse(s) {
        let mut nested = 0;
        for e in &pg.elements {
            let r = range(e);
            match e.as_inner() {
                BlockElement::List(l) => {
                    list(b, l, r, None);
                    obs(l.len() as u64);
                    nested += 1;
                }
                // a paragraph neither starts with an item nor contains one
                BlockElement::Paragraph(_) => {
                    let mut k = r.a;
                    while k < r.b {
                        let (a, n) = indent(b, k);
                        if a == k || k == r.a {
                            let j = if a == k { k + n } else { k };
                            check(b.len() <= j || j >= r.b || !item_line(b, j) || !only_blank_before(b, k), M + line!());
                        }
                        // next line
                        while k < r.b && b[k] != b'\n' {
                            k += 1;
                        }
                        k += 1;
                    }
                }
                _ => {}
            }
        }
        obs(nested);
        core::mem::forget(pg);
    }
}
fn only_blank_before(b: &[u8], k: usize) -> bool {
    let mut a = k;
    while a > 0 && b[a - 1] != b'\n' {
        if !sp(b[a - 1]) {
            return false;
        }
        a -= 1;
    }
    true
}
fn j_lists(th: bool) -> Vec<u64> {
    let mut v = anytexts();
    v.extend(on("*", &[LIT]));
    v.extend(on("Rlz", &[LIT]));
    v.extend(every(if th { 1 } else { 4 }, on("Rlz", &[OVER])));
    v.extend(on("l", &[OVER]));
    let mut modes = vec![LIT, OVER];
    if th {
        modes.extend([INS, CUT, OVER2]);
        v.extend(on("*", &[OVER]));
    }
    v.extend(sweep(LISTS, "*", &modes).iter().map(|p| p | 1 << 48));
    v
}

/// The marker written for a position.
#[no_mangle]
pub extern "C" fn h_prefix(p: u64) {
    let ty = p as u8 & 15;
    let sfx = [ListItemSuffix::None, ListItemSuffix::Period, ListItemSuffix::Paren][(p >> 4) as usize & 3];
    let pos = u16_() as usize;
    assume(match ty {
        1 => pos < 1000,
        5 | 6 => pos < 400,
        3 | 4 => pos < if p >> 8 == 1 { 65536 } else { 800 },
        _ => true,
    });
    let t: ListItemType = match ty {
        1 => OrderedListItemType::Number.into(),
        2 => OrderedListItemType::Pound.into(),
        3 => OrderedListItemType::LowercaseAlphabet.into(),
        4 => OrderedListItemType::UppercaseAlphabet.into(),
        5 => OrderedListItemType::LowercaseRoman.into(),
        6 => OrderedListItemType::UppercaseRoman.into(),
        7 => UnorderedListItemType::Hyphen.into(),
        8 => UnorderedListItemType::Asterisk.into(),
        _ => UnorderedListItemType::Other("@".into()).into(),
    };
    let item = ListItem::new(t, sfx, pos, ListItemContents::default(), ListItemAttributes::default());
    let got = item.to_prefix();
    reach(1);
    let g = got.as_bytes();
    let mut n = g.len();
    // the suffix (the plain markers have none)
    if ty != 7 && ty != 8 {
        if let Some(c) = sfx.as_char() {
            check(n > 0 && g[n - 1] == c as u8, M + line!());
            n -= 1;
        }
    }
    let g = &g[..n];
    match ty {
        1 => check(number(g) == Some(pos as u64 + 1), M + line!()),
        2 => check(g == b"#", M + line!()),
        3 => check(alphabet(g, b'a') == Some(pos as u64 + 1), M + line!()),
        4 => check(alphabet(g, b'A') == Some(pos as u64 + 1), M + line!()),
        5 => check(roman(g, true) == pos as u64 + 1, M + line!()),
        6 => check(roman(g, false) == pos as u64 + 1, M + line!()),
        7 => check(g == b"-", M + line!()),
        8 => check(g == b"*", M + line!()),
        _ => check(g == b"@", M + line!()),
    }
    obs(g.len() as u64);
    core::mem::forget((item, got));
}
fn number(b: &[u8]) -> Option<u64> {
    let mut v = 0;
    for &c in b {
        if !c.is_ascii_digit() {
            return None;
        }
        v = v * 10 + (c - b'0') as u64;
    }
    if b.is_empty() || b[0] == b'0' {
        return None;
    }
    Some(v)
}
/// a = 1, z = 26, aa = 27 and so on.
fn alphabet(b: &[u8], base: u8) -> Option<u64> {
    let mut v = 0;
    for &c in b {
        if c < base || c >= base + 26 {
            return None;
        }
        v = v * 26 + (c - base) as u64 + 1;
    }
    Some(v)
}
/// The value of a roman numeral in its usual form, 0 if it is none.
fn roman(b: &[u8], lower: bool) -> u64 {
    let d = |c: u8| -> i64 {
        match if lower { c } else { c.to_ascii_lowercase() } {
            b'i' => 1,
            b'v' => 5,
            b'x' => 10,
            b'l' => 50,
            b'c' => 100,
            b'd' => 500,
            b'm' => 1000,
            _ => 0,
        }
    };
    let mut v = 0i64;
    for i in 0..b.len() {
        if d(b[i]) == 0 || lower != b[i].is_ascii_lowercase() {
            return 0;
        }
        let next = if i + 1 < b.len() { d(b[i + 1]) } else { 0 };
        if next > d(b[i]) {
            v -= d(b[i]);
        } else {
            v += d(b[i]);
        }
    }
    v as u64
}
fn j_prefix(th: bool) -> Vec<u64> {
    let mut v = vec![];
    for ty in 1..10 {
        for s in 0..3 {
            v.push(ty | s << 4);
        }
    }
    if th {
        v.push(3 | 1 << 4 | 1 << 8);
        v.push(4 | 2 << 4 | 1 << 8);
    }
    v
}

fn status(i: u32) -> Option<ListItemTodoStatus> {
    match i {
        0 => None,
        1 => Some(ListItemTodoStatus::Incomplete),
        2 => Some(ListItemTodoStatus::PartiallyComplete1),
        3 => Some(ListItemTodoStatus::PartiallyComplete2),
        4 => Some(ListItemTodoStatus::PartiallyComplete3),
        5 => Some(ListItemTodoStatus::Complete),
        _ => Some(ListItemTodoStatus::Rejected),
    }
}
/// Progress in percent times `k` of an item of its own, `None`: does not count.
fn own(i: u32) -> Option<f64> {
    match i {
        0 | 6 => None,
        i => Some((i - 1) as f64 * 0.25),
    }
}
fn node(st: u32, lists: Vec<Vec<ListItem<'static>>>) -> ListItem<'static> {
    let mut c: Vec<Located<BlockElement<'static>>> = vec![Located::from(BlockElement::Divider(Divider))];
    for subs in lists {
        c.push(Located::from(BlockElement::List(List::new(subs.into_iter().map(Located::from).collect()))));
    }
    ListItem::new(ListItemType::default(), ListItemSuffix::None, 0, ListItemContents::new(c), ListItemAttributes { todo_status: status(st) })
}
fn mean(v: &[Option<f64>], or: Option<f64>) -> Option<f64> {
    let (mut s, mut n) = (0.0, 0);
    for x in v {
        if let Some(x) = x {
            s += *x;
            n += 1;
        }
    }
    if n > 0 {
        Some(s / n as f64)
    } else {
        or
    }
}
/// The mean of the sub-items that count, the item itself if there are none.
#[no_mangle]
pub extern "C" fn h_todo(p: u64) {
    let nsub = (p & 3) as usize;
    let nsubsub = (p >> 2 & 3) as usize;
    let split = p >> 4 & 1 == 1;
    let me = choice(7);
    let mut subs = vec![];
    let mut want = vec![];
    for i in 0..nsub {
        let st = choice(7);
        if i == 0 && nsubsub > 0 {
            let mut l = vec![];
            let mut w = vec![];
            for _ in 0..nsubsub {
                let s = choice(7);
                l.push(node(s, vec![]));
                w.push(own(s));
            }
            subs.push(node(st, vec![l]));
            want.push(mean(&w, own(st)));
        } else {
            subs.push(node(st, vec![]));
            want.push(own(st));
        }
    }
    // the sub-items in one list or in two
    let lists = if nsub == 0 {
        vec![]
    } else if split && nsub > 1 {
        let b = subs.split_off(1);
        vec![subs, b]
    } else {
        vec![subs]
    };
    let it = node(me, lists);
    reach(1);
    let got = it.compute_todo_progress();
    let w = mean(&want, own(me));
    check(got.is_some() == w.is_some(), M + line!());
    if let (Some(g), Some(w)) = (got, w) {
        let d = g as f64 - w;
        check(d < 1e-5 && d > -1e-5, M + line!());
        obs((g * 1000.0) as u64);
    }
    check(it.is_todo() == (me != 0), M + line!());
    check(it.is_todo_partially_complete() == (me >= 2 && me <= 4), M + line!());
    check(it.is_todo_complete() == (me == 5) && it.is_todo_rejected() == (me == 6) && it.is_todo_incomplete() == (me == 1), M + line!());
    core::mem::forget(it);
}
fn j_todo(_: bool) -> Vec<u64> {
    vec![0, 1, 1 | 1 << 2, 1 | 2 << 2, 2, 2 | 1 << 2, 2 | 1 << 4, 3, 3 | 1 << 4]
}
