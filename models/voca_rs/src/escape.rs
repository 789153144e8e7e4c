//! Escapes  special characters in `subject`.

// TODO: check for optimizations #10
// https://lise-henry.github.io/articles/optimising_strings.html
pub fn escape_html(subject: &str) -> String {
    match subject.len() {
        0 => "".to_string(),
        _ => subject
            .replace('&', "&amp;")
            .replace('<', "&lt;")
            .replace('>', "&gt;")
            .replace('"', "&quot;")
            .replace('\'', "&#x27;")
            .replace('`', "&#x60;"),
    }
}

pub fn unescape_html(subject: &str) -> String {
    match subject.len() {
        0 => "".to_string(),
        _ => subject
            .replace("&lt;", "<")
            .replace("&gt;", ">")
            .replace("&amp;", "&")
            .replace("&quot;", "\"")
            .replace("&#x27;", "'")
            .replace("&#x60;", "`"),
    }
}
