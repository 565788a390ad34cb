//! Non-generic wrappers around minifier's public API, so that its generic code is
//! instantiated here, where coverage instrumentation is on.
use std::io::{self, Read, Write};

pub use minifier::js;
use minifier::js::{Token, Tokens};

pub fn json_str(s: &str) -> String {
    minifier::json::minify(s).to_string()
}
pub fn json_write(s: &str, w: &mut dyn Write) -> io::Result<()> {
    minifier::json::minify(s).write(w)
}
pub fn json_reader<'a>(r: Box<dyn Read + 'a>) -> Box<dyn Read + 'a> {
    Box::new(minifier::json::minify_from_read(r))
}
pub fn css_str(s: &str) -> Result<String, &'static str> {
    minifier::css::minify(s).map(|m| m.to_string())
}
pub fn css_write(s: &str, w: &mut dyn Write) -> Result<io::Result<()>, &'static str> {
    minifier::css::minify(s).map(|m| m.write(w))
}
pub fn js_str(s: &str) -> Result<String, &'static str> {
    js::minify(s).map(|m| m.to_string())
}
pub fn js_write(s: &str, w: &mut dyn Write) -> Result<io::Result<()>, &'static str> {
    js::minify(s).map(|m| m.write(w))
}
#[cfg(feature = "html")]
pub fn html_str(s: &str) -> String {
    minifier::html::minify(s)
}

/// `sep`: separation token, if any. `filter`: which string positions may be aggregated.
pub fn array<'a>(
    t: Tokens<'a>,
    name: &str,
    sep: Option<Token<'static>>,
    filter: Option<&dyn Fn(&Tokens<'a>, usize) -> bool>,
) -> Tokens<'a> {
    match (sep, filter) {
        (None, None) => js::aggregate_strings_into_array(t, name),
        (Some(s), None) => js::aggregate_strings_into_array_with_separation(t, name, s),
        (None, Some(f)) => js::aggregate_strings_into_array_filter(t, name, f),
        (Some(s), Some(f)) => js::aggregate_strings_into_array_with_separation_filter(t, name, s, f),
    }
}
pub fn vars<'a>(t: Tokens<'a>, sep: Option<Token<'static>>) -> Tokens<'a> {
    match sep {
        None => js::aggregate_strings(t),
        Some(s) => js::aggregate_strings_with_separation(t, s),
    }
}
pub fn clean_except<'a>(t: Tokens<'a>, f: &dyn Fn(&Token<'a>) -> bool) -> Tokens<'a> {
    js::clean_tokens_except(t, f)
}
pub fn clean_token_except<'a>(t: &Token<'a>, next: &Option<&Token<'_>>, f: &dyn Fn(&Token<'a>) -> bool) -> bool {
    js::clean_token_except(t, next, &|x: &Token<'a>| f(x))
}
pub fn replace<'a>(t: Tokens<'a>, f: &dyn Fn(&Token<'a>) -> Option<Token<'a>>) -> Tokens<'a> {
    js::replace_tokens_with(t, f)
}
pub fn replace_one<'a>(t: Token<'a>, f: &dyn Fn(&Token<'a>) -> Option<Token<'a>>) -> Token<'a> {
    js::replace_token_with(t, &|x: &Token<'a>| f(x))
}
