//! The blocks of a text, found line by line from the description of the
//! format; an independent reading to compare pages with.
use crate::walk::range;
use vimwiki_core::*;

pub type Sp = (usize, usize);

/// A line: start, end of its content, start of the next one.
#[derive(Clone, Copy)]
pub struct Line {
    pub a: usize,
    pub e: usize,
    pub n: usize,
}
pub fn lines(b: &[u8]) -> Vec<Line> {
    let mut v = vec![];
    let mut a = 0;
    while a < b.len() {
        let mut j = a;
        while j < b.len() && b[j] != b'\n' {
            j += 1;
        }
        let n = if j < b.len() { j + 1 } else { j };
        let e = if j < b.len() && j > a && b[j - 1] == b'\r' { j - 1 } else { j };
        v.push(Line { a, e, n });
        a = n;
    }
    v
}

pub fn sp(c: u8) -> bool {
    c == b' ' || c == b'\t'
}
/// The first character in a..e that is no blank.
pub fn skip(b: &[u8], mut a: usize, e: usize) -> usize {
    while a < e && sp(b[a]) {
        a += 1;
    }
    a
}
pub fn back(b: &[u8], a: usize, mut e: usize) -> usize {
    while e > a && sp(b[e - 1]) {
        e -= 1;
    }
    e
}
pub fn starts(b: &[u8], a: usize, e: usize, p: &str) -> bool {
    let p = p.as_bytes();
    if a + p.len() > e {
        return false;
    }
    let mut i = 0;
    while i < p.len() {
        if b[a + i] != p[i] {
            return false;
        }
        i += 1;
    }
    true
}
/// Where `p` first starts in a..e.
pub fn find(b: &[u8], a: usize, e: usize, p: &str) -> Option<usize> {
    let mut i = a;
    while i + p.len() <= e {
        if starts(b, i, e, p) {
            return Some(i);
        }
        i += 1;
    }
    None
}

pub struct Header {
    pub level: usize,
    pub centered: bool,
    pub text: Sp,
}
/// `== text ==`: as many equals signs on both sides, indented if centered.
pub fn header(b: &[u8], l: Line) -> Option<Header> {
    let a = skip(b, l.a, l.e);
    let mut t = a;
    while t < l.e && b[t] == b'=' {
        t += 1;
    }
    let n = t - a;
    if n == 0 || n > 6 {
        return None;
    }
    let e = back(b, t, l.e);
    if e < t + n {
        return None;
    }
    let mut i = e - n;
    while i < e {
        if b[i] != b'=' {
            return None;
        }
        i += 1;
    }
    let e = e - n;
    if e == t || b[e - 1] == b'=' {
        return None;
    }
    let t = skip(b, t, e);
    let e = back(b, t, e);
    if t == e {
        return None;
    }
    Some(Header { level: n, centered: a > l.a, text: (t, e) })
}

/// `term::` or `term:: definition`.
fn term(b: &[u8], l: Line) -> Option<(Sp, Option<Sp>)> {
    let a = skip(b, l.a, l.e);
    let c = find(b, a, l.e, "::")?;
    if c == a {
        return None;
    }
    // a comment is no term
    let mut t = a;
    while t < c && b[t].is_ascii_whitespace() {
        t += 1;
    }
    if starts(b, t, c, "%%") {
        return None;
    }
    let d = skip(b, c + 2, l.e);
    if d == l.e {
        Some(((a, c), None))
    } else if d > c + 2 {
        Some(((a, c), Some((d, l.e))))
    } else {
        None
    }
}
/// `:: definition`
fn definition(b: &[u8], l: Line) -> Option<Sp> {
    let a = skip(b, l.a, l.e);
    if !starts(b, a, l.e, "::") {
        return None;
    }
    let d = skip(b, a + 2, l.e);
    if d == a + 2 || d == l.e {
        return None;
    }
    Some((d, l.e))
}
pub type Def = (Sp, Vec<Sp>);
/// Terms, each with at least one definition.
pub fn definitions(b: &[u8], ls: &[Line], mut i: usize) -> Option<(Vec<Def>, usize)> {
    let mut v = vec![];
    while i < ls.len() {
        let (t, d) = match term(b, ls[i]) {
            Some(x) => x,
            None => break,
        };
        let mut ds: Vec<Sp> = d.into_iter().collect();
        let mut j = i + 1;
        while j < ls.len() {
            match definition(b, ls[j]) {
                Some(d) => ds.push(d),
                None => break,
            }
            j += 1;
        }
        if ds.is_empty() {
            break;
        }
        v.push((t, ds));
        i = j;
    }
    if v.is_empty() {
        None
    } else {
        Some((v, i))
    }
}

/// Whether the line is an item of a list: a marker, a blank, something.
pub fn item(b: &[u8], l: Line) -> bool {
    let a = skip(b, l.a, l.e);
    let c = |i: usize| if i < l.e { b[i] } else { 0 };
    let mut i = a;
    if matches!(c(a), b'-' | b'*' | b'#') {
        i += 1;
    } else {
        let (mut dig, mut low, mut up) = (true, true, true);
        while c(i).is_ascii_alphanumeric() {
            dig &= c(i).is_ascii_digit();
            low &= c(i).is_ascii_lowercase();
            up &= c(i).is_ascii_uppercase();
            i += 1;
        }
        if i == a || !(dig || low || up) || !matches!(c(i), b'.' | b')') {
            return false;
        }
        i += 1;
    }
    if c(i) != b' ' {
        return false;
    }
    i += 1;
    if c(i) == b'[' && matches!(c(i + 1), b' ' | b'.' | b'o' | b'O' | b'X' | b'-') && c(i + 2) == b']' && c(i + 3) == b' ' {
        i += 4;
    }
    skip(b, i, l.e) < l.e
}

/// Whether the line is a table row; if so, whether it is a divider row.
fn row(b: &[u8], l: Line) -> Option<bool> {
    let a = skip(b, l.a, l.e);
    let e = back(b, a, l.e);
    if e < a + 3 || b[a] != b'|' || b[e - 1] != b'|' {
        return None;
    }
    let mut divider = true;
    let mut s = a + 1;
    let mut i = s;
    while i < e {
        if b[i] == b'|' {
            if i == s {
                return None;
            }
            // :?-+:?
            let x = s + (b[s] == b':') as usize;
            let mut j = x;
            while j < i && b[j] == b'-' {
                j += 1;
            }
            divider &= j > x && (j == i || (j + 1 == i && b[j] == b':'));
            s = i + 1;
        }
        i += 1;
    }
    Some(divider)
}
/// Rows, not all of them dividers.
pub fn table(b: &[u8], ls: &[Line], mut i: usize) -> Option<usize> {
    let mut some = false;
    while i < ls.len() {
        match row(b, ls[i]) {
            Some(d) => some |= !d,
            None => break,
        }
        i += 1;
    }
    if some {
        Some(i)
    } else {
        None
    }
}

pub struct Code {
    pub lang: Option<Sp>,
    pub meta: Vec<(Sp, Sp)>,
    pub lines: Vec<Sp>,
}
fn close(b: &[u8], l: Line, m: &str) -> Option<usize> {
    let a = skip(b, l.a, l.e);
    if starts(b, a, l.e, m) && skip(b, a + 3, l.e) == l.e {
        Some(a - l.a)
    } else {
        None
    }
}
/// The lines up to the closing one, without the common indentation.
fn body(b: &[u8], ls: &[Line], i: usize, ind: usize, m: &str) -> Option<(Vec<Sp>, usize)> {
    let mut j = i + 1;
    while j < ls.len() {
        if let Some(n) = close(b, ls[j], m) {
            let ind = if n < ind { n } else { ind };
            let mut v = vec![];
            let mut k = i + 1;
            while k < j {
                let l = ls[k];
                let own = skip(b, l.a, l.e) - l.a;
                v.push((l.a + if own < ind { own } else { ind }, l.e));
                k += 1;
            }
            return Some((v, j + 1));
        }
        j += 1;
    }
    None
}
/// `{{{lang key="value"` to `}}}`
pub fn code(b: &[u8], ls: &[Line], i: usize) -> Option<(Code, usize)> {
    let l = ls[i];
    let a = skip(b, l.a, l.e);
    if !starts(b, a, l.e, "{{{") {
        return None;
    }
    let mut x = a + 3;
    let w = find(b, x, l.e, " ").unwrap_or(l.e);
    let mut lang = None;
    if w > x && find(b, x, w, "=").is_none() {
        lang = Some((x, w));
        x = w;
    }
    let mut meta = vec![];
    let mut y = skip(b, x, l.e);
    while y < l.e {
        let q = match find(b, y, l.e, "=") {
            Some(q) if q > y && starts(b, q, l.e, "=\"") => q,
            _ => break,
        };
        let z = match find(b, q + 2, l.e, "\"") {
            Some(z) => z,
            None => break,
        };
        meta.push(((y, q), (q + 2, z)));
        y = skip(b, z + 1, l.e);
        if y == z + 1 {
            break;
        }
    }
    if y < l.e {
        return None;
    }
    let (lines, n) = body(b, ls, i, a - l.a, "}}}")?;
    Some((Code { lang, meta, lines }, n))
}
pub struct Math {
    pub env: Option<Sp>,
    pub lines: Vec<Sp>,
}
/// `{{$%env%` to `}}$`
pub fn math(b: &[u8], ls: &[Line], i: usize) -> Option<(Math, usize)> {
    let l = ls[i];
    let a = skip(b, l.a, l.e);
    if !starts(b, a, l.e, "{{$") {
        return None;
    }
    let mut x = a + 3;
    let mut env = None;
    if starts(b, x, l.e, "%") {
        let q = find(b, x + 1, l.e, "%")?;
        if q == x + 1 {
            return None;
        }
        env = Some((x + 1, q));
        x = q + 1;
    }
    if skip(b, x, l.e) < l.e {
        return None;
    }
    let (lines, n) = body(b, ls, i, a - l.a, "}}$")?;
    Some((Math { env, lines }, n))
}

pub fn blank(b: &[u8], l: Line) -> bool {
    skip(b, l.a, l.e) == l.e
}
/// `> text` or a lone `>`
fn arrow(b: &[u8], l: Line) -> Option<Sp> {
    let a = skip(b, l.a, l.e);
    if starts(b, a, l.e, "> ") {
        Some((a + 2, l.e))
    } else if starts(b, a, l.e, ">") && a + 1 == l.e {
        Some((l.e, l.e))
    } else {
        None
    }
}
/// Lines with arrows; blank lines in between belong to the quote.
pub fn quote(b: &[u8], ls: &[Line], i: usize) -> Option<(Vec<Sp>, usize)> {
    let mut v = vec![arrow(b, ls[i])?];
    let mut end = i + 1;
    let mut j = end;
    let mut pending = vec![];
    while j < ls.len() {
        if let Some(x) = arrow(b, ls[j]) {
            v.append(&mut pending);
            v.push(x);
            end = j + 1;
        } else if blank(b, ls[j]) {
            pending.push((ls[j].a, ls[j].a));
        } else {
            break;
        }
        j += 1;
    }
    Some((v, end))
}
/// Lines indented by four or more.
pub fn indented(b: &[u8], ls: &[Line], i: usize) -> Option<(Vec<Sp>, usize)> {
    let mut v = vec![];
    let mut j = i;
    while j < ls.len() {
        let l = ls[j];
        let a = skip(b, l.a, l.e);
        if a < l.a + 4 || a == l.e {
            break;
        }
        v.push((a, l.e));
        j += 1;
    }
    if v.is_empty() {
        None
    } else {
        Some((v, j))
    }
}
pub fn divider(b: &[u8], l: Line) -> bool {
    let mut i = l.a;
    while i < l.e && b[i] == b'-' {
        i += 1;
    }
    i == l.e && i >= l.a + 4
}

pub enum Place {
    Title(Sp),
    NoHtml,
    Template(Sp),
    Date(Sp),
    Other(Sp, Sp),
}
pub fn placeholder(b: &[u8], l: Line) -> Option<Place> {
    let val = |from: usize| {
        let v = skip(b, from, l.e);
        if v > from && v < l.e {
            Some((v, l.e))
        } else {
            None
        }
    };
    if starts(b, l.a, l.e, "%title") {
        return val(l.a + 6).map(Place::Title);
    }
    if starts(b, l.a, l.e, "%nohtml") {
        return if skip(b, l.a + 7, l.e) == l.e { Some(Place::NoHtml) } else { None };
    }
    if starts(b, l.a, l.e, "%template") {
        return val(l.a + 9).map(Place::Template);
    }
    if starts(b, l.a, l.e, "%date") {
        return val(l.a + 5).filter(|v| date(b, *v).is_some()).map(Place::Date);
    }
    if !starts(b, l.a, l.e, "%") {
        return None;
    }
    let mut n = l.a + 1;
    while n < l.e && !sp(b[n]) && b[n] != b'%' {
        n += 1;
    }
    if n == l.a + 1 {
        return None;
    }
    val(n).map(|v| Place::Other((l.a + 1, n), v))
}
/// `YYYY-M-D`
pub fn date(b: &[u8], s: Sp) -> Option<(i32, u32, u32)> {
    let mut p = [0u32; 3];
    let mut i = s.0;
    let mut k = 0;
    while k < 3 {
        let a = i;
        while i < s.1 && b[i].is_ascii_digit() {
            p[k] = p[k] * 10 + (b[i] - b'0') as u32;
            i += 1;
        }
        if i == a || i - a > if k == 0 { 4 } else { 2 } {
            return None;
        }
        if k < 2 {
            if i >= s.1 || b[i] != b'-' {
                return None;
            }
            i += 1;
        }
        k += 1;
    }
    if i != s.1 {
        return None;
    }
    let leap = p[0] % 4 == 0 && (p[0] % 100 != 0 || p[0] % 400 == 0);
    let n = match p[1] {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 => 28 + leap as u32,
        _ => return None,
    };
    if p[2] == 0 || p[2] > n {
        return None;
    }
    Some((p[0] as i32, p[1], p[2]))
}

pub enum B {
    Header(Header),
    Defs(Vec<Def>),
    List,
    Table,
    Code(Code),
    Math(Math),
    Quote(Vec<Sp>),
    Divider,
    Place(Place),
    Para(Vec<Sp>),
}
/// Whether something other than the next line of a paragraph starts here.
fn other(b: &[u8], ls: &[Line], i: usize) -> bool {
    let l = ls[i];
    blank(b, l)
        || header(b, l).is_some()
        || definitions(b, ls, i).is_some()
        || item(b, l)
        || table(b, ls, i).is_some()
        || code(b, ls, i).is_some()
        || math(b, ls, i).is_some()
        || arrow(b, l).is_some()
        || divider(b, l)
        || placeholder(b, l).is_some()
}
/// The block that starts at line `i`, which is not blank, and the line after
/// it (0 for a list: its extent is another matter).
pub fn block(b: &[u8], ls: &[Line], i: usize) -> (B, usize) {
    let l = ls[i];
    if let Some(h) = header(b, l) {
        return (B::Header(h), i + 1);
    }
    if let Some((d, n)) = definitions(b, ls, i) {
        return (B::Defs(d), n);
    }
    if item(b, l) {
        return (B::List, 0);
    }
    if let Some(n) = table(b, ls, i) {
        return (B::Table, n);
    }
    if let Some((c, n)) = code(b, ls, i) {
        return (B::Code(c), n);
    }
    if let Some((m, n)) = math(b, ls, i) {
        return (B::Math(m), n);
    }
    if let Some((q, n)) = indented(b, ls, i) {
        return (B::Quote(q), n);
    }
    if let Some((q, n)) = quote(b, ls, i) {
        return (B::Quote(q), n);
    }
    if divider(b, l) {
        return (B::Divider, i + 1);
    }
    if let Some(p) = placeholder(b, l) {
        return (B::Place(p), i + 1);
    }
    let mut v = vec![];
    let mut j = i;
    while j < ls.len() && !other(b, ls, j) {
        v.push((skip(b, ls[j].a, ls[j].e), ls[j].e));
        j += 1;
    }
    (B::Para(v), j)
}

/// Where inline content begins and ends.
pub fn span(c: &InlineElementContainer) -> Sp {
    let (mut a, mut e) = (0, 0);
    let mut first = true;
    for i in c.iter() {
        let r = range(i);
        if first {
            a = r.a;
        }
        first = false;
        e = r.b;
    }
    (a, e)
}
