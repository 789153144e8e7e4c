//! What several properties share.
#![allow(dead_code)]
use crate::{corpus::*, sym::*};
use vimwiki_core::*;

pub fn parse(s: &'static str) -> Option<Page<'static>> {
    Language::from_vimwiki_str(s).parse::<Page>().ok()
}

pub static ANYTEXT: &[&str] =
    &["", "\u{1}", "\u{1}\u{1}", "\u{2}", "\u{3}", "\u{1}\u{2}", "\u{2}\u{1}", "\u{1}\n\u{1}", "\n\u{1}\n", "\u{1}\u{1}\n"];

/// Bit 63: a wholly symbolic text instead of a document of the corpus.
pub fn any(p: u64) -> &'static str {
    if p >> 63 == 1 {
        text(ANYTEXT[(p & 0xffff) as usize])
    } else {
        doc(p)
    }
}
pub fn anytexts() -> Vec<u64> {
    (0..ANYTEXT.len() as u64).map(|i| i | 1 << 63).collect()
}

/// Two wikis, the second one named; the page lies in a directory of the first.
pub fn config() -> HtmlConfig {
    HtmlConfig {
        wikis: vec![
            HtmlWikiConfig { path: "/w".into(), path_html: "/h".into(), ..Default::default() },
            HtmlWikiConfig { path: "/v".into(), path_html: "/g".into(), name: Some("W".to_string()), ..Default::default() },
        ],
        runtime: HtmlRuntimeConfig { wiki_index: Some(0), page: "/w/d/p.wiki".into(), ..Default::default() },
        ..Default::default()
    }
}
/// The only reason not to render: a link into a wiki that the configuration
/// does not have.
pub fn missing_wiki(e: &HtmlOutputError) -> bool {
    matches!(
        e,
        HtmlOutputError::FailedToResolveLink { source: LinkResolutionError::MissingWikiWithIndex { .. } }
            | HtmlOutputError::FailedToResolveLink { source: LinkResolutionError::MissingWikiWithName { .. } }
    )
}
