//! Tables: the grid the text describes, spans, alignments, header and body,
//! and every way to walk over it.
use crate::walk::*;
use crate::{corpus::*, sym::*, util::*, H};
#[allow(unused_imports)]
use vimwiki_core::*;

const M: u32 = 130000;

pub static HS: &[H] = &[
    H { name: "h_table", f: h_table, jobs: j_table, bounds: "documents of the corpus and of a corpus of 20 tables (spans, alignments, ragged rows, several divider rows, indentation, tables in lists) as written and with any one character replaced by any ASCII character; thorough: also insertions, cuts, pairs of characters" },
    H { name: "h_grid", f: h_grid, jobs: j_grid, bounds: "all tables of at most 2 x 3 and 3 x 2 cells, each cell missing, content, spanned from the left, spanned from above or an alignment" },
    H { name: "h_pos", f: h_pos, jobs: j_pos, bounds: "all cell positions below 100 with any blanks around, and all texts of up to four ASCII characters" },
];

static TABLES: &[(&str, &str)] = &[
    ("t", "|a|b|c|\n|-|-|-|\n|d|e|f|\n"),
    ("t", "|a|b|\n|c|\n|d|e|f|\n"),
    ("t", "| a | b |\n| > | \\/ |\n"),
    ("t", "|a|>|>|\n|\\/|b|\\/|\n|\\/|c|\\/|\n"),
    ("t", "|a|b|c|d|\n|:-|-:|:-:|--|\n|e|f|g|h|\n"),
    ("t", "|a|\n|-|\n|b|\n|-|\n|c|\n"),
    ("t", "|-|\n|a|\n"),
    ("t", "|-|-|\n|:-|-|\n"),
    ("t", "|-|a|\n|>|:-|\n"),
    ("t", "  |a|\n|b|\n"),
    ("t", "|a|\n  |b|\t\n|c|"),
    ("t", "|a|\nb\n|c|\n"),
    ("t", "|a|\n\n|b|\n"),
    ("t", "b\n|a|\n"),
    ("t", "- a\n  |b|c|\n  |>|-|\n"),
    ("t", "|a|:b:|\n|[[c|d]]|`e`|\n"),
    ("t", "|a %%b|\n|*c*| |\n"),
    ("t", "||\n|a||\n"),
    ("t", "|:--:|\n|a|\n|:|\n|::|\n"),
    ("t", "|a|b|\n|---|\n|c|d|e|\n"),
];

fn sp(c: u8) -> bool {
    c == b' ' || c == b'\t'
}

#[derive(Clone, Copy, PartialEq)]
enum K {
    Missing,
    Content,
    Left,
    Above,
    Align(ColumnAlign),
}

fn trim(b: &[u8]) -> &[u8] {
    let (mut i, mut j) = (0, b.len());
    while i < j && sp(b[i]) {
        i += 1;
    }
    while j > i && sp(b[j - 1]) {
        j -= 1;
    }
    &b[i..j]
}
/// `:?-+:?`
fn align(b: &[u8]) -> Option<ColumnAlign> {
    let l = !b.is_empty() && b[0] == b':';
    let mut i = l as usize;
    let a = i;
    while i < b.len() && b[i] == b'-' {
        i += 1;
    }
    if i == a {
        return None;
    }
    let r = i < b.len() && b[i] == b':';
    if i + r as usize != b.len() {
        return None;
    }
    Some(match (l, r) {
        (true, true) => ColumnAlign::Center,
        (true, false) => ColumnAlign::Left,
        (false, true) => ColumnAlign::Right,
        _ => ColumnAlign::None,
    })
}
/// The cells of a line that is a row.
fn row(line: &[u8]) -> Option<Vec<K>> {
    let b = trim(line);
    if b.len() < 3 || b[0] != b'|' || b[b.len() - 1] != b'|' {
        return None;
    }
    let mut v = vec![];
    let mut parts: Vec<&[u8]> = vec![];
    let mut a = 1;
    for i in 1..b.len() {
        if b[i] == b'|' {
            if i == a {
                return None;
            }
            parts.push(&b[a..i]);
            a = i + 1;
        }
    }
    let mut divider = true;
    for p in &parts {
        divider &= align(p).is_some();
    }
    for p in &parts {
        let t = trim(p);
        v.push(if divider {
            K::Align(align(p).unwrap())
        } else if t.len() == 1 && t[0] == b'>' {
            K::Left
        } else if t.len() == 2 && t[0] == b'\\' && t[1] == b'/' {
            K::Above
        } else {
            K::Content
        });
    }
    Some(v)
}
fn kind(c: Option<&Located<Cell>>) -> K {
    match c.map(|c| c.as_inner()) {
        None => K::Missing,
        Some(Cell::Content(_)) => K::Content,
        Some(Cell::Span(CellSpan::FromLeft)) => K::Left,
        Some(Cell::Span(CellSpan::FromAbove)) => K::Above,
        Some(Cell::Align(a)) => K::Align(*a),
    }
}
/// The line that starts at `i` without its line end, and the start of the
/// next one.
fn line(b: &[u8], i: usize) -> (&[u8], usize) {
    let mut j = i;
    while j < b.len() && b[j] != b'\n' {
        j += 1;
    }
    let n = if j < b.len() { j + 1 } else { j };
    let e = if j > i && j < b.len() && b[j - 1] == b'\r' { j - 1 } else { j };
    (&b[i..e], n)
}
fn line_start(b: &[u8], i: usize) -> usize {
    let mut a = i;
    while a > 0 && b[a - 1] != b'\n' {
        a -= 1;
    }
    a
}

fn table(b: &[u8], t: &Table, r: R, top: bool) {
    reach(1);
    let mut at = line_start(b, r.a);
    check(!top || at == r.a, M + line!());
    // on the marker line of a list item the table starts within the line
    if !top {
        at = r.a;
    }
    let first = at;
    let mut n = 0;
    let mut dividers = 0;
    let mut cols = 0;
    let mut cells = 0;
    loop {
        let (l, next) = line(b, at);
        let want = if at < r.b { row(l) } else { None };
        let want = match want {
            Some(w) => w,
            None => break,
        };
        if want.len() > cols {
            cols = want.len();
        }
        cells += want.len();
        for i in 0..=want.len() {
            let c = t.get_cell(n, i);
            let w = if i < want.len() { want[i] } else { K::Missing };
            check(kind(c) == w, M + line!());
        }
        dividers += matches!(want[0], K::Align(_)) as usize;
        n += 1;
        at = next;
    }
    check(at == r.b, M + line!());
    check(n > 0 && dividers < n, M + line!());
    check(t.row_cnt() == n && t.col_cnt() == cols && t.len() == cells, M + line!());
    check(t.centered == (top && sp(b[first])), M + line!());
    // what follows is no further row
    if top {
        let (l, _) = line(b, r.b);
        check(row(l).is_none(), M + line!());
    }
    walks(t);
}

/// All ways to go over a table agree with its cells.
fn walks(t: &Table) {
    let (rows, cols) = (t.row_cnt(), t.col_cnt());
    let at = |r: usize, c: usize| kind(t.get_cell(r, c));
    let width = |r: usize| {
        let mut n = 0;
        while n < cols && at(r, n) != K::Missing {
            n += 1;
        }
        n
    };
    let divider = |r: usize| matches!(at(r, 0), K::Align(_));
    let mut total = 0;
    let mut nth = 0;
    let mut div = None;
    check(t.rows().size_hint() == (rows, Some(rows)), M + line!());
    check(t.columns().size_hint() == (cols, Some(cols)), M + line!());
    let mut it = t.rows();
    for r in 0..rows {
        let x = match it.next() {
            Some(x) => x,
            None => {
                check(false, M + line!());
                return;
            }
        };
        check(x.is_divider_row() == divider(r), M + line!());
        if divider(r) && div.is_none() {
            div = Some(r);
        }
        let w = width(r);
        check(x.size_hint() == (w, Some(w)), M + line!());
        let mut n = 0;
        let mut content = false;
        for y in t.rows().nth(r).unwrap() {
            content |= kind(Some(y)) == K::Content;
            check(n < w && kind(Some(y)) == at(r, n), M + line!());
            n += 1;
        }
        check(n == w, M + line!());
        check(x.has_content() == content, M + line!());
        let mut n = 0;
        for (p, y) in x.zip_with_position() {
            check(p.row == r && p.col == n && core::ptr::eq(y, t.get_cell(r, n).unwrap()), M + line!());
            n += 1;
        }
        total += w;
        nth += 1;
    }
    check(it.next().is_none() && nth == rows, M + line!());
    check(t.get_divider_row_index() == div && t.has_divider_row() == div.is_some(), M + line!());
    // header: rows before the first divider row; body: all other rows
    let mut hn = 0;
    if let Some(d) = div {
        for x in t.header_rows() {
            check(!x.is_divider_row() && CellIter::row(&x) == hn, M + line!());
            hn += 1;
        }
        check(hn == d, M + line!());
    }
    check(t.has_header_rows() == (hn > 0) && t.header_rows().count() == hn, M + line!());
    check(t.header_rows().size_hint() == (hn, Some(hn)), M + line!());
    let mut r = div.map_or(0, |d| d + 1);
    let mut bn = 0;
    for x in t.body_rows() {
        while r < rows && divider(r) {
            r += 1;
        }
        check(r < rows && CellIter::row(&x) == r, M + line!());
        r += 1;
        bn += 1;
    }
    while r < rows && divider(r) {
        r += 1;
    }
    check(r == rows, M + line!());
    check(t.has_body_rows() == (bn > 0), M + line!());
    check(t.body_rows().size_hint() == (bn, Some(bn)), M + line!());
    // columns
    let mut ci = t.columns();
    for c in 0..cols {
        let x = match ci.next() {
            Some(x) => x,
            None => {
                check(false, M + line!());
                return;
            }
        };
        let mut r = 0;
        let mut n = 0;
        let mut content = false;
        let mut al = None;
        let hint = x.size_hint();
        let has = x.has_content();
        for (p, y) in x.zip_with_position() {
            while r < rows && at(r, c) == K::Missing {
                r += 1;
            }
            check(r < rows && p.row == r && p.col == c && core::ptr::eq(y, t.get_cell(r, c).unwrap()), M + line!());
            content |= at(r, c) == K::Content;
            if let (K::Align(a), None) = (at(r, c), al) {
                al = Some(a);
            }
            r += 1;
            n += 1;
        }
        while r < rows {
            check(at(r, c) == K::Missing, M + line!());
            r += 1;
        }
        check(hint == (n, Some(n)), M + line!());
        check(has == content, M + line!());
        check(t.get_column_alignment(c) == al.unwrap_or(ColumnAlign::None), M + line!());
    }
    check(ci.next().is_none(), M + line!());
    check(t.get_column_alignment(cols) == ColumnAlign::None, M + line!());
    // all cells, row by row
    let mut n = 0;
    let (mut r, mut c) = (0, 0);
    check(t.cells().size_hint() == (t.len(), Some(t.len())), M + line!());
    for (p, y) in t.cells().zip_with_position() {
        while r < rows && at(r, c) == K::Missing {
            c += 1;
            if c >= cols {
                c = 0;
                r += 1;
            }
        }
        check(r < rows && p.row == r && p.col == c && core::ptr::eq(y, t.get_cell(r, c).unwrap()), M + line!());
        c += 1;
        if c >= cols {
            c = 0;
            r += 1;
        }
        n += 1;
    }
    check(n == t.len() && n >= total && t.as_data().len() == n && t.is_empty() == (n == 0), M + line!());
    // spans
    for r in 0..rows {
        for c in 0..cols {
            let (mut h, mut w) = (0, 0);
            if at(r, c) == K::Content {
                h = 1;
                while r + h < rows && at(r + h, c) == K::Above {
                    h += 1;
                }
                w = 1;
                while c + w < cols && at(r, c + w) == K::Left {
                    w += 1;
                }
            }
            check(t.get_cell_rowspan(r, c) == h, M + line!());
            // the columns of a row end where a cell is missing
            check(t.get_cell_colspan(r, c) == if c < width(r) { w } else { 0 }, M + line!());
        }
    }
    check(t.get_cell(rows, 0).is_none() && t.get_cell(0, cols).is_none(), M + line!());
    check(t.get_cell_rowspan(rows, 0) == 0 && t.get_cell_colspan(rows, 0) == 0, M + line!());
}

#[no_mangle]
pub extern "C" fn h_table(p: u64) {
    let s = if p >> 48 & 1 == 1 { text(&template(TABLES, p & !(1 << 48))) } else { any(p) };
    let b = s.as_bytes();
    if let Some(pg) = parse(s) {
        let top: Vec<usize> = pg.elements.iter().map(|e| range(e).a).collect();
        blocks(&pg, &mut |e, r| {
            if let BlockElement::Table(t) = e {
                obs(t.len() as u64);
                table(b, t, r, top.contains(&r.a));
            }
        });
        for e in &pg.elements {
            if let BlockElement::Paragraph(_) = e.as_inner() {
                // a paragraph contains no row unless there are only dividers
                let r = range(e);
                let mut at = line_start(b, r.a);
                while at < r.b {
                    let (l, n) = line(b, at);
                    if let Some(w) = row(l) {
                        check(matches!(w[0], K::Align(_)), M + line!());
                    }
                    at = n;
                }
            }
        }
        core::mem::forget(pg);
    }
}
fn j_table(th: bool) -> Vec<u64> {
    let mut v = anytexts();
    v.extend(on("*", &[LIT]));
    v.extend(on("Rtz", &[LIT]));
    v.extend(every(if th { 1 } else { 4 }, on("Rtz", &[OVER])));
    v.extend(on("t", &[OVER]));
    let mut modes = vec![LIT, OVER];
    if th {
        modes.extend([INS, CUT, OVER2]);
    }
    v.extend(sweep(TABLES, "*", &modes).iter().map(|p| p | 1 << 48));
    v
}

/// Tables that are built rather than parsed.
#[no_mangle]
pub extern "C" fn h_grid(p: u64) {
    let rows = (p & 7) as usize;
    let cols = (p >> 3 & 7) as usize;
    // the kind of the first cell, one job each
    let fixed = (p >> 6 & 7) as u8;
    let mut v: Vec<(CellPos, Located<Cell<'static>>)> = vec![];
    let mut some = false;
    for r in 0..rows {
        for c in 0..cols {
            let k = if r == 0 && c == 0 {
                fixed
            } else {
                let k = byte();
                assume(k < 5);
                k
            };
            let cell = match k {
                0 => continue,
                1 => Cell::Content(InlineElementContainer::new(vec![])),
                2 => Cell::Span(CellSpan::FromLeft),
                3 => Cell::Span(CellSpan::FromAbove),
                _ => Cell::Align(ColumnAlign::Right),
            };
            some = true;
            v.push((CellPos::new(r, c), Located::new(cell, Region::new(r * 10 + c, 1))));
        }
    }
    reach(1);
    let n = v.len();
    let t = Table::new(v, false);
    check(t.len() == n && t.is_empty() != some, M + line!());
    walks(&t);
    obs(t.row_cnt() as u64 * 16 + t.col_cnt() as u64);
    // consuming walks
    let mut w = t.cells().zip_with_position();
    let mut o = t.clone().into_cells().zip_with_position();
    loop {
        match (w.next(), o.next()) {
            (None, None) => break,
            (Some((p, x)), Some((q, y))) => check(p == q && x.region() == y.region(), M + line!()),
            _ => check(false, M + line!()),
        }
    }
    for r in 0..t.row_cnt() {
        let mut o = t.clone().into_row(r);
        check(o.size_hint() == t.row(r).size_hint() && o.has_content() == t.row(r).has_content() && o.is_divider_row() == t.row(r).is_divider_row(), M + line!());
        for x in t.row(r) {
            check(o.next().map_or(false, |y| y.region() == x.region()), M + line!());
        }
        check(o.next().is_none(), M + line!());
    }
    for c in 0..t.col_cnt() {
        let mut o = t.clone().into_column(c);
        check(o.size_hint() == t.column(c).size_hint() && o.has_content() == t.column(c).has_content(), M + line!());
        for x in t.column(c) {
            check(o.next().map_or(false, |y| y.region() == x.region()), M + line!());
        }
        check(o.next().is_none(), M + line!());
    }
    core::mem::forget(t);
}
fn j_grid(th: bool) -> Vec<u64> {
    let mut v = vec![];
    for k in 0..5 {
        for (r, c) in [(0, 0), (1, 1), (1, 3), (3, 1), (2, 2)] {
            v.push(r | c << 3 | k << 6);
        }
        if th {
            v.push(2 | 3 << 3 | k << 6);
            v.push(3 | 2 << 3 | k << 6);
        }
    }
    v
}

/// `CellPos` as text.
#[no_mangle]
pub extern "C" fn h_pos(p: u64) {
    if p < 4 {
        let (r, c) = (u16_(), u16_());
        let lim = |x: u16, big: bool| if big { x >= 10 && x < 100 } else { x < 10 };
        assume(lim(r, p & 1 == 1) && lim(c, p & 2 == 2));
        let x = CellPos::new(r as usize, c as usize);
        let t = x.to_string();
        reach(1);
        check(t.parse::<CellPos>() == Ok(x), M + line!());
        let t = [" ", &t.replace(',', " ,\t"), "\n"].concat();
        check(t.parse::<CellPos>() == Ok(x), M + line!());
    } else {
        let s = text(&"\u{1}\u{1}\u{1}\u{1}"[..p as usize - 4]);
        let b = s.as_bytes();
        let got = s.parse::<CellPos>();
        reach(1);
        let commas = b.iter().filter(|c| **c == b',').count();
        match &got {
            Ok(x) => {
                check(commas == 1, M + line!());
                obs(x.row as u64 * 1000 + x.col as u64);
            }
            Err(ParseCellPosError::TooFewItems) => check(commas == 0, M + line!()),
            Err(ParseCellPosError::TooManyItems) => check(commas > 1, M + line!()),
            Err(_) => check(commas == 1, M + line!()),
        }
        if commas == 1 {
            let i = b.iter().position(|c| *c == b',').unwrap();
            let (l, r) = (num(&b[..i]), num(&b[i + 1..]));
            match got {
                Ok(x) => check(l == Some(x.row) && r == Some(x.col), M + line!()),
                Err(ParseCellPosError::BadRow(_)) => check(l.is_none(), M + line!()),
                Err(ParseCellPosError::BadCol(_)) => check(l.is_some() && r.is_none(), M + line!()),
                _ => {}
            }
        }
    }
}
fn num(b: &[u8]) -> Option<usize> {
    let ws = |c: u8| matches!(c, b' ' | 9..=13);
    let (mut i, mut j) = (0, b.len());
    while i < j && ws(b[i]) {
        i += 1;
    }
    while j > i && ws(b[j - 1]) {
        j -= 1;
    }
    // the standard library allows a sign
    if i < j && b[i] == b'+' {
        i += 1;
    }
    let mut v = 0;
    if i == j {
        return None;
    }
    for &c in &b[i..j] {
        if !c.is_ascii_digit() {
            return None;
        }
        v = v * 10 + (c - b'0') as usize;
    }
    Some(v)
}
fn j_pos(th: bool) -> Vec<u64> {
    let mut v: Vec<u64> = (0..4).collect();
    v.extend(4..if th { 9 } else { 8 });
    v
}
