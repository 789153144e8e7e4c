//! Stand-in for the `syntect` syntax highlighter while encoding vimwiki-core.
//! Server-side highlighting (`code.server_side = true`, off by default) is
//! outside every claim; reaching any of these functions ends the run in a
//! panic, so a path that gets here can never be reported as passing.
use std::{collections::BTreeMap, fmt, path::Path};

#[derive(Debug)]
pub struct LoadingError;
impl fmt::Display for LoadingError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("syntect stand-in")
    }
}
impl std::error::Error for LoadingError {}

pub mod parsing {
    use super::*;
    pub struct SyntaxSet(());
    pub struct SyntaxReference(());
    impl SyntaxSet {
        pub fn load_defaults_nonewlines() -> Self {
            SyntaxSet(())
        }
        pub fn load_defaults_newlines() -> Self {
            SyntaxSet(())
        }
        pub fn load_from_folder<P: AsRef<Path>>(_: P) -> Result<Self, LoadingError> {
            Err(LoadingError)
        }
        pub fn find_syntax_by_token<'a>(&'a self, _: &str) -> Option<&'a SyntaxReference> {
            unimplemented!("syntect stand-in")
        }
        pub fn find_syntax_plain_text(&self) -> &SyntaxReference {
            unimplemented!("syntect stand-in")
        }
    }
}
pub mod highlighting {
    use super::*;
    #[derive(Debug)]
    pub struct Theme(());
    #[derive(Clone, Copy, Debug)]
    pub struct Style(());
    #[derive(Debug, Default)]
    pub struct ThemeSet {
        pub themes: BTreeMap<String, Theme>,
    }
    impl ThemeSet {
        pub fn load_defaults() -> Self {
            ThemeSet::default()
        }
        pub fn load_from_folder<P: AsRef<Path>>(_: P) -> Result<Self, LoadingError> {
            Err(LoadingError)
        }
    }
}
pub mod easy {
    use super::{highlighting::*, parsing::*};
    pub struct HighlightLines<'a>(std::marker::PhantomData<&'a ()>);
    impl<'a> HighlightLines<'a> {
        pub fn new(_: &'a SyntaxReference, _: &'a Theme) -> Self {
            unimplemented!("syntect stand-in")
        }
        pub fn highlight<'b>(&mut self, _: &'b str, _: &SyntaxSet) -> Vec<(Style, &'b str)> {
            unimplemented!("syntect stand-in")
        }
    }
}
pub mod html {
    use super::highlighting::*;
    pub enum IncludeBackground {
        No,
        Yes,
    }
    pub fn start_highlighted_html_snippet(_: &Theme) -> (String, ()) {
        unimplemented!("syntect stand-in")
    }
    pub fn styled_line_to_highlighted_html(_: &[(Style, &str)], _: IncludeBackground) -> String {
        unimplemented!("syntect stand-in")
    }
}
