//! The documents the checks start from and the ways they are made symbolic.
//!
//! A job parameter encodes: document (bits 0..16), position (16..32), mode
//! (32..40). A group letter says which constructs a document is about.
use crate::sym;

pub static DOCS: &[(&str, &str)] = &[
    // paragraphs and text
    ("p", "ab c\nd e\n"),
    ("p", "a\n\n\nb\n"),
    ("pu", "a\u{e9} \u{4e2d}\n*\u{fc}*\n"),
    ("pw", "a\r\nb \r\n\r\nc"),
    // headers
    ("h", "= a b =\n"),
    ("h", " === a ===\nb\n"),
    ("h", "====== a ======\n= b=\n"),
    ("h", "== a *b* [[c]] ==\n"),
    // definition lists
    ("d", "a:: b\n:: c\n"),
    ("d", "a::\n:: b c\nd::\n:: e\n"),
    ("d", "*a*:: b `c`\nd:: e\n"),
    // lists
    ("l", "- a\n- b\n  c\n"),
    ("l", "1. a\n  * [o] b\n2. c"),
    ("l", "* [X] a\n* [ ] b\n"),
    ("l", "i) a\nii) b\n"),
    ("l", "A. x\nB. y\n# z\n"),
    ("l", "- a\n  - b\n  d\n"),
    ("l", "- [.] a\n  - [O] b\n"),
    // tables
    ("t", "|a|b|\n|-|:-:|\n|c|>|\n"),
    ("t", "|a|\n|\\/|\n"),
    ("t", " | *a* | [[b|c]] |\n"),
    ("t", "|a|b|c|\n|d|>|\\/|\n"),
    ("t", "|a|b|\n|:-|-:|\n"),
    // code blocks
    ("c", "{{{\na\n}}}\n"),
    ("c", "{{{rs k=\"v\"\n a\n\nb\n}}}\n"),
    ("c", "{{{k=\"v\" l=\"w\"\n}}}\n"),
    // math blocks
    ("m", "{{$\na\n}}$\n"),
    ("m", "{{$%al%\na\nb\n}}$\n"),
    // blockquotes
    ("q", "    a\n    b\n"),
    ("q", "> a\n> b\n\n> c\n"),
    // dividers
    ("v", "a\n----\nb\n"),
    // placeholders
    ("x", "%title a b\n%nohtml\n"),
    ("x", "%template ab\n%date 2021-03-05\n"),
    ("x", "%x yz\na\n"),
    // typefaces
    ("y", "a *b* _c d_ e\n"),
    ("y", "~~a~~ ^b^ ,,c,,\n"),
    ("y", "*_a b_*\n"),
    ("y", "*a [[b]] TODO*\n"),
    // code and math inline
    ("i", "a `b c` $d$ e\n"),
    ("i", "`a``b` $c$$d$\n"),
    // tags
    ("g", ":a:b-c: d\n"),
    // links
    ("k", "[[a b#c#d|e f]]\n"),
    ("k", "[[wiki1:a]]\n"),
    ("k", "[[wn.W:b|c]]\n"),
    ("k", "[[diary:2021-03-05#a|x]]\n"),
    ("k", "{{a.png|b|c=\"d\"}}\n"),
    ("k", "http://a.b/c d\n"),
    ("k", "[[a|{{b.png}}]]\n"),
    ("k", "[[file:/a|b]]\n"),
    ("k", "[[c/]] [[#d]]\n"),
    ("k", "[[//a/b]]\n"),
    // keywords
    ("w", "TODO a DONE\nFIXME: XXX\n"),
    ("w", "STARTED FIXED b\n"),
    // comments
    ("o", "%%+a\nb+%% c\n"),
    ("o", "%% a b\nc\n"),
    ("o", "a %% b\n%%+c+%%d\n"),
    // mixtures
    ("z", "= a =\n- b\n\n|c|\n"),
    ("z", "- a\n  {{{\n  b\n  }}}\n"),
    ("z", "a\n= b =\nc:: d\n"),
    ("z", "- |a|\n  > b\n"),
    // further constructs
    ("k", "[[a|b|c=\"d\"]]\n"),
    ("k", "[[a%7cb%20c]] [[d#e#f]]\n"),
    ("k", "{{a|b|c=\"d\" e=\"f\"}}\n"),
    ("t", "|a|b|\n|c|\n|-|d|\n"),
    ("q", "> a\n>\n> b\n"),
    ("h", "== a ==\n= b =\n:c:\n"),
    ("hz", "= a =\n== b ==\n*b*\n= a =\n"),
    ("l", "1) a\n   b\n2) [-] c\n"),
    // richer documents, used only where asked for (group R)
    ("Rc", " {{{\n\u{a0}a\n  b\n }}}\n"),
    ("Rm", "  {{$\n \u{3000}a\n   b\n  }}$\n"),
    ("Rc", "  {{{py\n    x = 1\n  \n\ty\n }}}\na\n"),
    ("Ry", "*a `b` c $d$ :e:f: g* h\n"),
    ("Ry", "_a *b ~~c~~ d* e^f^,,g,,_ (*x*)\n"),
    ("Rk", "a http://b.c/d?e=f#g, *ftp://h/i* (mailto:j@k.l)\n"),
    ("Rk", "[[a|{{b.png|c|d=\"e\"}}]] {{http://f/g.png|h}}\n"),
    ("Rk", "[[../a/b.c#d|e]] [[/f/g]] [[wiki0:h/]] [[wn.A B:c#d]]\n"),
    ("Rk", "[[local:a/b.txt|c]] [[http://a.b/c%20d|e]] [[a&b<c|\"d\"]]\n"),
    ("Rk", "[[diary:2020-02-29]] [[diary:2021-13-01|x]] [[#a b#c]]\n"),
    ("Rl", "- a\n  - b\n    - c\n    - d\n  - e\n- f\n"),
    ("Rl", "* [ ] a\n  * [X] b\n  * [.] c\n    * [-] d\n* [O] e\n"),
    ("Rl", "1. a\n\n   b\n2. c\n# d\n"),
    ("Rl", "- *a* [[b]] `c`\n  d %% e\n  | f | g |\n  {{{\n  h\n  }}}\n"),
    ("Rl", "x) a\nxi) b\nxii) c\n\nC. d\nD. e\nE. f\n"),
    ("Rl", "- a:: b\n- = c =\n- > d\n- ----\n"),
    ("Rt", "| *a* | `b` | [[c]] |\n|:--|--:|:-:|\n| > | \\/ | d |\n| e |\n"),
    ("Rt", "  |a|b|\n  |-|-|\n  |c|\\/|\n  |\\/|>|\n  |d|e|\n"),
    ("Rt", "|a\r\n|b|\r\n|\u{e9}|>|\r\n"),
    ("Rt", "|a|>|\n|\\/|\\/|\n|b|\\/|\n"),
    ("Rt", "|a|b|c|\n|>|>|d|\n|\\/|\\/|\\/|\nx\n"),
    ("Rd", "a b:: c *d*\n:: e\n:: f [[g]]\nh::\n:: i\n\nj:: k\n"),
    ("Rd", "  *x*:: `a::b`\ny:: %%+c+%% d\n"),
    ("Rd", "a:: b\r\n:: c\r\nd::\r\n:: e\r\n"),
    ("Rq", "> a\n> *b* < c & d\n\n> e\n\n\n>f\n"),
    ("Rq", "    a \"b\"\n     c\n\n    d\n"),
    ("Rh", "=== a [[b|c]] `d` ===\n  == e ==  \n======= f =======\n= g = h =\n"),
    ("Rh", "= a =\n= a =\n== a b ==\n*a* :a:\n=== a ===\n"),
    ("Rh", "= <a> & \"b\" =\r\nc\r\n"),
    ("Rc", "{{{c++ k=\"<v>\" l=\"\"\n<a> & \"b\"\n}}\n }}}\n}}}\n"),
    ("Rc", "{{{\n\n\n}}}\n{{{a\n}}}"),
    ("Rm", "{{$%a<b%\nx < y & z\n\n}}$\n{{$\n}}$"),
    ("Rx", "%title  a <b> \n%date 2024-02-29\n%template x.y\n%k v w\n%nohtml \n"),
    ("Ro", "a %%+ b\n* c\n+%% d\n%% e\n%%+f+%%\n"),
    ("Ro", "*a %%+b+%% c* [[d %%+e+%%]] `%%` f\n"),
    ("Rg", "a :b: :c:d: e:f :g:h\n:i:\tj\n"),
    ("Rw", "TODOs aDONE *FIXME* [[XXX]] `TODO` :STARTED:\n"),
    ("Ri", "`a $b$` $c `d`$ `` $$ `e\nf` $g$ h\n"),
    ("Rp", "  a\n b  \n\tc\nd\u{a0}\n\n e\n   \nf"),
    ("Rp", "a\\\nb & c < d > \"e\" 'f' -- g ... h\n"),
    ("Rz", "a\n- b\n= c =\n|d|\n----\n> e\n%f g\n{{{\nh\n}}}\ni:: j\n"),
    ("Rz", "- a\n  1. b\n     | c | d |\n     |---|---|\n  2. e\n     > f\n     {{$\n     g\n     }}$\n"),
    ("Rz", "= a =\r\n\r\n- b\r\n  c\r\n\r\n{{{\r\nd\r\n}}}\r\n> e\r\n"),
    ("Rz", "%title a\n\n= b =\n\n:c:\n\n| d |\n\n%% e\n\n    f\n\n----\n"),
    ("Ru", "\u{e9} *\u{4e2d}\u{6587}* [[\u{fc}#\u{df}|\u{1f600}]]\n- \u{e9}\n|\u{e9}|\n\u{e9}:: \u{fc}\n"),
];

pub const LIT: u64 = 0;
/// One character replaced by any ASCII character.
pub const OVER: u64 = 1;
/// Any ASCII character inserted.
pub const INS: u64 = 2;
/// Two neighbouring characters replaced by any two ASCII characters.
pub const OVER2: u64 = 3;
/// Any of U+00C0..U+00FF inserted.
pub const INSL2: u64 = 4;
/// Any of U+2000..U+203F inserted.
pub const INSP3: u64 = 5;
/// Any of U+0080..U+00BF inserted.
pub const INSC2: u64 = 10;
/// Cut off at the position, then any ASCII character.
pub const CUT: u64 = 6;
/// Any two ASCII characters inserted.
pub const INS2: u64 = 7;
/// Any white space character inserted.
pub const INSW: u64 = 8;
/// One character replaced by any markup character or blank.
pub const OVERM: u64 = 9;

pub fn enc(doc: usize, pos: usize, mode: u64) -> u64 {
    doc as u64 | (pos as u64) << 16 | mode << 32
}

/// The template of a job: a document with holes.
pub fn template(docs: &[(&str, &str)], p: u64) -> String {
    let d = docs[(p & 0xffff) as usize].1;
    let k = ((p >> 16) & 0xffff) as usize;
    let m = (p >> 32) & 0xff;
    let w = |i: usize| d[i..].chars().next().map_or(0, char::len_utf8);
    let mut s = String::with_capacity(d.len() + 8);
    s.push_str(&d[..k]);
    match m {
        LIT => s.push_str(&d[k..]),
        OVER => {
            s.push(sym::ANY);
            s.push_str(&d[k + w(k)..]);
        }
        OVERM => {
            s.push(sym::MARK);
            s.push_str(&d[k + w(k)..]);
        }
        INS => {
            s.push(sym::ANY);
            s.push_str(&d[k..]);
        }
        OVER2 => {
            s.push(sym::ANY);
            s.push(sym::ANY);
            let k1 = k + w(k);
            s.push_str(&d[k1 + w(k1)..]);
        }
        INSL2 => {
            s.push(sym::L2);
            s.push_str(&d[k..]);
        }
        INSC2 => {
            s.push(sym::C2);
            s.push_str(&d[k..]);
        }
        INSP3 => {
            s.push(sym::P3);
            s.push_str(&d[k..]);
        }
        INS2 => {
            s.push(sym::ANY);
            s.push(sym::ANY);
            s.push_str(&d[k..]);
        }
        INSW => {
            s.push(sym::WS);
            s.push_str(&d[k..]);
        }
        _ => s.push(sym::ANY),
    }
    s
}

/// The text of a job on `DOCS`.
pub fn doc(p: u64) -> &'static str {
    sym::text(&template(DOCS, p))
}

/// Jobs: for every document of `docs` whose group letters intersect `groups`
/// ("*": all), every position, every mode of `modes`, every `step`-th job.
pub fn sweep(docs: &[(&str, &str)], groups: &str, modes: &[u64]) -> Vec<u64> {
    let mut v = vec![];
    for (i, (g, d)) in docs.iter().enumerate() {
        // documents of group R only where asked for: "R" all, "Rx" those of x
        let rich = g.starts_with('R');
        if rich != groups.starts_with('R') {
            continue;
        }
        if groups != "*" && groups != "R" && !g.chars().any(|c| c != 'R' && groups.contains(c)) {
            continue;
        }
        for &m in modes {
            match m {
                LIT => v.push(enc(i, 0, LIT)),
                OVER | OVERM | CUT => {
                    for (k, _) in d.char_indices() {
                        v.push(enc(i, k, m));
                    }
                }
                OVER2 => {
                    let n = d.chars().count();
                    for (j, (k, _)) in d.char_indices().enumerate() {
                        if j + 1 < n {
                            v.push(enc(i, k, m));
                        }
                    }
                }
                _ => {
                    for (k, _) in d.char_indices() {
                        v.push(enc(i, k, m));
                    }
                    v.push(enc(i, d.len(), m));
                }
            }
        }
    }
    v
}

pub fn on(groups: &str, modes: &[u64]) -> Vec<u64> {
    sweep(DOCS, groups, modes)
}

/// Every `n`-th job, and all that take a document as it is.
pub fn every(n: usize, v: Vec<u64>) -> Vec<u64> {
    v.into_iter().enumerate().filter(|(i, p)| i % n == 0 || (p >> 32) & 0xff == LIT).map(|(_, p)| p).collect()
}
