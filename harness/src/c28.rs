//! C28: Debug output of fallback tokens.
use crate::{h, vp};
use proc_macro2::*;
/// `needle` occurs in `s` at or after `from`: the position behind it.
fn after(s: &str, from: usize, needle: &str) -> Option<usize> { match s[from..].find(needle) { Some(i) => Some(from + i + needle.len()), None => None } }
fn has(s: &str, parts: &[&str]) -> bool { let (mut at, mut i) = (0, 0); while i < parts.len() { match after(s, at, parts[i]) { Some(x) => at = x, None => return false } i += 1; } true }
fn token(k: usize) -> (TokenTree, [&'static str; 3]) {
    let cs = Span::call_site();
    match k {
        0 => (TokenTree::Ident(Ident::new("abc", cs)), ["Ident", "abc", ""]),
        1 => (TokenTree::Ident(Ident::new_raw("fn", cs)), ["Ident", "r#fn", ""]),
        2 => (TokenTree::Punct(Punct::new('+', Spacing::Alone)), ["Punct", "'+'", "Alone"]),
        3 => (TokenTree::Punct(Punct::new('\'', Spacing::Joint)), ["Punct", "'\\''", "Joint"]),
        4 => (TokenTree::Literal(Literal::string("x\"y")), ["Literal", "\"x\\\"y\"", ""]),
        5 => (TokenTree::Literal(Literal::u8_suffixed(7)), ["Literal", "7u8", ""]),
        6 => (TokenTree::Group(Group::new(Delimiter::Parenthesis, TokenStream::new())), ["Group", "Parenthesis", ""]),
        7 => (TokenTree::Group(Group::new(Delimiter::Brace, TokenStream::from(TokenTree::Ident(Ident::new("q", cs))))), ["Group", "Brace", "q"]),
        8 => (TokenTree::Group(Group::new(Delimiter::Bracket, TokenStream::new())), ["Group", "Bracket", ""]),
        _ => (TokenTree::Group(Group::new(Delimiter::None, TokenStream::new())), ["Group", "None", ""]),
    }
}
pub fn ob_c28_token() {
    let (t, w) = token(vp::choose(10));
    let s = match vp::choose(2) { 0 => format!("{:?}", t), _ => match &t { TokenTree::Group(x) => format!("{:?}", x), TokenTree::Ident(x) => format!("{:?}", x), TokenTree::Punct(x) => format!("{:?}", x), TokenTree::Literal(x) => format!("{:?}", x) } };
    vp::input_str("debug", &s);
    vp::check(has(&s, &w), "Debug of a token does not name its kind and contents");
    vp::check(!has(&s, &["span"]), "Debug shows a call-site span");
    let p = format!("{:#?}", t);
    vp::check(has(&p, &w) && !has(&p, &["span"]), "pretty Debug of a token");
}
pub fn ob_c28_punct() {
    let c = ['~', '!', '@', '#', '$', '%', '^', '&', '*', '-', '=', '+', '|', ';', ':', ',', '<', '.', '>', '/', '?', '\''][vp::choose(22)];
    let k = vp::choose(2);
    let s = format!("{:?}", Punct::new(c, h::spacing(k)));
    vp::check(has(&s, &["Punct", "'", &c.to_string(), "'", ["Alone", "Joint"][k]]), "Debug of a punct");
}
/// A stream shows the Debug form of each of its tokens in order.
pub fn ob_c28_stream() {
    let n = vp::choose(4);
    let mut st = TokenStream::new();
    let mut parts = vec![String::from("TokenStream")];
    let mut i = 0;
    while i < n { let (t, _) = token([0, 3, 4, 7][vp::choose(4)]); parts.push(format!("{:?}", t)); st.extend(Some(t)); i += 1; }
    let nest = vp::choose(2) == 1;
    let s = if nest { format!("{:?}", Group::new(Delimiter::Brace, st)) } else { format!("{:?}", st) };
    vp::input_str("debug", &s);
    let (mut at, mut i) = (0, 0);
    while i < parts.len() { match after(&s, at, &parts[i]) { Some(x) => at = x, None => vp::fail("Debug of a stream lacks a token") } i += 1; }
    vp::check(s[at..].find("lit:").is_none() && s[at..].find("Ident").is_none() && s[at..].find("Punct").is_none(), "Debug of a stream shows further tokens");
}
/// Parsed tokens carry spans: shown exactly with span locations.
#[cfg(feature = "span-locations")]
pub fn ob_c28_span() {
    let src = ["abc", " +", "\n\"s\"", "()", "r#fn", "{ a }"][vp::choose(6)];
    let direct = vp::choose(2) == 1;
    let set = vp::choose(2) == 1;
    let st: TokenStream = match src.parse() { Ok(s) => s, Err(_) => vp::fail("a valid text is rejected") };
    let mut t = match st.into_iter().next() { Some(t) => t, None => vp::fail("no token") };
    if set { t.set_span(Span::call_site()); }
    let own = format!("{:?}", t.span());
    let s = if direct { match &t { TokenTree::Group(x) => format!("{:?}", x), TokenTree::Ident(x) => format!("{:?}", x), TokenTree::Punct(x) => format!("{:?}", x), TokenTree::Literal(x) => format!("{:?}", x) } } else { format!("{:?}", t) };
    vp::input_str("debug", &s);
    if set { if src != "{ a }" { vp::check(!has(&s, &["span"]), "Debug shows a call-site span"); } }
    else { vp::check(has(&s, &["span: ", &own]), "Debug does not show the span"); }
}
pub fn ob_c28_enums() {
    vp::check(format!("{:?}", Delimiter::Parenthesis) == "Parenthesis" && format!("{:?}", Delimiter::Brace) == "Brace" && format!("{:?}", Delimiter::Bracket) == "Bracket" && format!("{:?}", Delimiter::None) == "None", "Debug of Delimiter");
    vp::check(format!("{:?}", Spacing::Alone) == "Alone" && format!("{:?}", Spacing::Joint) == "Joint", "Debug of Spacing");
}
/// An iterator shows the tokens it has still to yield, without consuming them.
pub fn ob_c28_iter() {
    let n = vp::choose(4);
    let mut st = TokenStream::new();
    let mut all = Vec::new();
    let mut i = 0;
    while i < n { let (t, _) = token([0, 3, 4, 7][vp::choose(4)]); all.push(format!("{:?}", t)); st.extend(Some(t)); i += 1; }
    let mut it = st.into_iter();
    let skip = vp::choose(3);
    i = 0;
    while i < skip && i < n { let _ = it.next(); i += 1; }
    let s = format!("{:?}", it);
    vp::input_str("debug", &s);
    let mut at = match after(&s, 0, "TokenStream") { Some(x) => x, None => vp::fail("Debug of an iterator does not name it") };
    let mut k = i;
    while k < n { match after(&s, at, &all[k]) { Some(x) => at = x, None => vp::fail("Debug of an iterator lacks a token") } k += 1; }
    k = i;
    let mut len = 0;
    while k < n { len += all[k].len() + 2; k += 1; }
    vp::check(s.len() <= len + 16, "Debug of an iterator shows more than the remaining tokens");
    let mut left = 0;
    while it.next().is_some() { left += 1; }
    vp::check(left == n - i, "Debug of an iterator consumes tokens");
}
/// A rejected text gives an error that can be shown.
pub fn ob_c28_error() {
    let e = match ["(", ")", "\"", "'", "0x", "/*", "#\u{0}"][vp::choose(7)].parse::<TokenStream>() { Ok(_) => vp::stop(), Err(e) => e };
    vp::check(has(&format!("{:?}", e), &["LexError"]), "Debug of LexError");
    vp::check(!e.to_string().is_empty(), "Display of LexError");
}

