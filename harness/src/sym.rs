//! Symbolic primitives and input construction.

extern "C" {
    fn __sym_bytes(p: *mut u8, n: usize);
    fn __sym_assume(c: bool);
    fn __sym_assert(c: bool, id: u32);
    fn __sym_choice(n: u32) -> u32;
    fn __sym_obs(v: u64);
    fn __sym_reach(id: u32);
    fn __sym_concretize(v: u64) -> u64;
    fn __sym_note(p: *const u8, n: usize);
}

#[inline(always)]
pub fn assume(c: bool) {
    unsafe { __sym_assume(c) }
}
#[inline(always)]
pub fn check(c: bool, id: u32) {
    unsafe { __sym_assert(c, id) }
}
/// An observation the native replay has to reproduce (trace validation).
#[inline(always)]
pub fn obs(v: u64) {
    unsafe { __sym_obs(v) }
}
/// Non-vacuity witness.
#[inline(always)]
pub fn reach(id: u32) {
    unsafe { __sym_reach(id) }
}
/// An arbitrary value below `n`, one path per value.
#[inline(always)]
pub fn choice(n: u32) -> u32 {
    unsafe { __sym_choice(n) }
}
#[allow(dead_code)]
pub fn concretize(v: u64) -> u64 {
    unsafe { __sym_concretize(v) }
}
/// An arbitrary byte.
#[inline(always)]
pub fn byte() -> u8 {
    let mut b = [0u8; 1];
    unsafe { __sym_bytes(b.as_mut_ptr(), 1) };
    b[0]
}
pub fn u64_() -> u64 {
    let mut b = [0u8; 8];
    unsafe { __sym_bytes(b.as_mut_ptr(), 8) };
    u64::from_le_bytes(b)
}
pub fn u32_() -> u32 {
    let mut b = [0u8; 4];
    unsafe { __sym_bytes(b.as_mut_ptr(), 4) };
    u32::from_le_bytes(b)
}
pub fn u16_() -> u16 {
    let mut b = [0u8; 2];
    unsafe { __sym_bytes(b.as_mut_ptr(), 2) };
    u16::from_le_bytes(b)
}

/// Any ASCII character.
pub const ANY: char = '\u{1}';
/// Any two-byte UTF-8 character (U+0080..U+07FF).
pub const U2: char = '\u{2}';
/// Any of U+00C0..U+00FF (letters).
pub const L2: char = '\u{b}';
/// Any of U+0080..U+00BF (control characters, NBSP, punctuation).
pub const C2: char = '\u{e}';
/// Any of U+2000..U+203F (spaces, dashes, quotes, line separators).
pub const P3: char = '\u{f}';
/// Any three-byte UTF-8 character whose lead byte is E1..EC.
pub const U3: char = '\u{3}';
/// Any ASCII character except line feed and carriage return.
pub const LINE: char = '\u{4}';
/// Any lower-case ASCII letter.
pub const LOW: char = '\u{5}';
/// Any ASCII digit.
pub const DIG: char = '\u{6}';
/// Space, tab, line feed or carriage return.
pub const WS: char = '\u{7}';
/// An empty line end: LF, CRLF is written as two characters.
pub const MARK: char = '\u{8}';

/// Fill in a template: every hole becomes symbolic bytes, everything else is
/// literal. The result is valid UTF-8 by construction.
pub fn text(t: &str) -> &'static str {
    let b = t.as_bytes();
    let mut v: Vec<u8> = Vec::with_capacity(b.len() * 3 + 8);
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        i += 1;
        match c {
            1 => {
                let x = byte();
                assume(x < 0x80);
                v.push(x);
            }
            2 => {
                let x = byte();
                assume((0xC2..=0xDF).contains(&x));
                let y = byte();
                assume((0x80..=0xBF).contains(&y));
                v.push(x);
                v.push(y);
            }
            3 => {
                let x = byte();
                assume((0xE1..=0xEC).contains(&x));
                let y = byte();
                assume((0x80..=0xBF).contains(&y));
                let z = byte();
                assume((0x80..=0xBF).contains(&z));
                v.push(x);
                v.push(y);
                v.push(z);
            }
            0xb | 0xe | 0xf => {
                match c {
                    0xb => v.push(0xC3),
                    0xe => v.push(0xC2),
                    _ => v.extend_from_slice(&[0xE2, 0x80]),
                }
                let y = byte();
                assume((0x80..=0xBF).contains(&y));
                v.push(y);
            }
            4 => {
                let x = byte();
                assume((x < 0x80) & (x != b'\n') & (x != b'\r'));
                v.push(x);
            }
            5 => {
                let x = byte();
                assume(x.is_ascii_lowercase());
                v.push(x);
            }
            6 => {
                let x = byte();
                assume(x.is_ascii_digit());
                v.push(x);
            }
            7 => {
                let x = byte();
                assume((x == b' ') | (x == b'\t') | (x == b'\n') | (x == b'\r'));
                v.push(x);
            }
            8 => {
                let x = byte();
                assume(
                    (x == b'*') | (x == b'_') | (x == b'`') | (x == b'$') | (x == b'=')
                        | (x == b':') | (x == b'|') | (x == b'[') | (x == b']') | (x == b'{')
                        | (x == b'}') | (x == b'-') | (x == b'#') | (x == b'%') | (x == b'~')
                        | (x == b'^') | (x == b',') | (x == b'>') | (x == b'<') | (x == b' '),
                );
                v.push(x);
            }
            _ => v.push(c),
        }
    }
    note(&v);
    let v = v.leak();
    unsafe { std::str::from_utf8_unchecked(v) }
}

/// Show a text to whoever reads a replay; no meaning for the solver.
#[inline(always)]
pub fn note(b: &[u8]) {
    unsafe { __sym_note(b.as_ptr(), b.len()) }
}

/// Observe a byte string (length and contents).
pub fn obs_bytes(b: &[u8]) {
    obs(b.len() as u64);
    let mut h: u64 = 0xcbf29ce484222325;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100000001b3);
    }
    obs(h);
}
