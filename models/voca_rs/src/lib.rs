//! The part of voca_rs 1.15.2 that vimwiki-core uses (`escape`), verbatim,
//! without the regex machinery the rest of that crate pulls in.
pub mod escape;

pub trait Voca {
    fn _escape_html(&self) -> String;
    fn _unescape_html(&self) -> String;
}
impl Voca for str {
    fn _escape_html(&self) -> String {
        escape::escape_html(self)
    }
    fn _unescape_html(&self) -> String {
        escape::unescape_html(self)
    }
}
