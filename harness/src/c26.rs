//! C26: printing a parsed stream and parsing the text again gives the same tokens.
use crate::{h, vp};
use proc_macro2::*;
fn same(a: TokenStream, b: TokenStream) -> bool {
    let mut a = a.into_iter();
    let mut b = b.into_iter();
    loop {
        match (a.next(), b.next()) {
            (None, None) => return true,
            (Some(TokenTree::Group(x)), Some(TokenTree::Group(y))) => if x.delimiter() != y.delimiter() || !same(x.stream(), y.stream()) { return false; },
            (Some(TokenTree::Punct(x)), Some(TokenTree::Punct(y))) => if x.as_char() != y.as_char() || x.spacing() != y.spacing() { return false; },
            (Some(TokenTree::Ident(x)), Some(TokenTree::Ident(y))) => if x.to_string() != y.to_string() { return false; },
            (Some(TokenTree::Literal(x)), Some(TokenTree::Literal(y))) => if x.to_string() != y.to_string() { return false; },
            _ => return false,
        }
    }
}
fn again(s: &str) {
    vp::input_str("source", s);
    let t = match s.parse::<TokenStream>() { Ok(t) => t, Err(_) => vp::stop() };
    let p = t.to_string();
    match p.parse::<TokenStream>() {
        Ok(u) => vp::check(same(t, u), "the printed stream parses to other tokens"),
        Err(_) => vp::fail("the printed stream does not parse"),
    }
}
pub fn ob_c26_any2() { let s = h::any_upto(2); again(&s) }
pub fn ob_c26_deep_any3() { let s = h::any_text(3); again(&s) }
const T: [&str; 34] = ["a", "r#a", "_", "r", "b", "c", "br", "'a", "'r#a", "'_", "'x'", "b'x'", "\"s\"", "r\"s\"", "r#\"s\"#", "b\"s\"", "c\"s\"", "cr#\"s\"#", "1", "1.", "1.0", "1e5", "0x1f", "1u8", "1.0e", "+", "-", "/", "#", "'", ".", "(", "{", ")"];
/// Two tokens, with and without white space, and an arbitrary character after.
pub fn ob_c26_pairs() { let mut s = String::from(T[vp::choose(34)]); s.push_str(["", " ", "/**/"][vp::choose(3)]); s.push_str(T[vp::choose(34)]); s.push_str(["", ")", "}", "+", "a"][vp::choose(5)]); again(&s) }
pub fn ob_c26_tail() { let mut s = String::from(T[vp::choose(34)]); s.push(vp::any::<char>()); s.push_str(["", "a", "+", "'", "\"", " ", "1"][vp::choose(7)]); again(&s) }
/// Three tokens of a smaller set.
const U: [&str; 14] = ["a", "'a", "'x'", "1", "1.", ".", "+", "/", "#", "!", "(", ")", "{", "}"];
pub fn ob_c26_triples() { let mut s = String::new(); let mut i = 0; while i < 3 { s.push_str(U[vp::choose(14)]); s.push_str(["", " "][vp::choose(2)]); i += 1; } again(&s) }
pub fn ob_c26_puncts() { puncts(2) }
pub fn ob_c26_deep_puncts3() { puncts(3) }
fn puncts(n: usize) { let mut s = String::from(["", "a", "("][vp::choose(3)]); let mut i = 0; while i < n { let c = vp::any::<char>(); vp::assume(c < '\u{80}' && !h::is_xid_continue(c)); s.push(c); i += 1; } s.push_str(["", ")", "a"][vp::choose(3)]); again(&s) }
const D: [&str; 14] = ["\0", "\n", "\r\n", "\"", "'", "\\", "\t", "\u{7f}", "\u{e9}", "\u{301}", "\u{200e}", "\u{2028}", "\u{10ffff}", "0"];
/// Doc comments.
pub fn ob_c26_doc() { let k = vp::choose(4); let mut s = String::from(["///", "//!", "/**", "/*!"][k]); let mut i = 0; while i < 2 { s.push_str(D[vp::choose(14)]); i += 1; } s.push_str(if k < 2 { "\n+" } else { "*/+" }); again(&s) }
/// Delimiters: every balanced or unbalanced sequence of six.
pub fn ob_c26_nest() { let mut s = String::new(); let mut i = 0; while i < 5 { s.push_str(["(", ")", "[", "]", "{", "}", "a", "+"][vp::choose(8)]); i += 1; } again(&s) }
/// Strings of an arbitrary body.
pub fn ob_c26_body() { let mut s = String::from(["\"", "b\"", "c\"", "r\"", "r#\"", "'", "b'", "\"\\", "'\\"][vp::choose(9)]); s.push_str(&h::any_upto(2)); s.push_str(["\"", "\"#", "'", "\"x", "'x"][vp::choose(5)]); again(&s) }
pub fn ob_c26_number() { let mut s = String::from(["1", "1.", "1.0", "0x", "1e", "1e+", "1_", "0b1"][vp::choose(8)]); s.push_str(&h::any_upto(2)); again(&s) }
pub fn ob_c26_error() { let mut s = String::from(["", "+", "(", "a"][vp::choose(4)]); s.push_str("(/*ERROR*/)"); s.push_str(["", "+", ")", "a"][vp::choose(4)]); again(&s) }
pub fn ob_c26_bom() { let mut s = String::from("\u{feff}"); s.push_str(&h::any_upto(1)); again(&s) }
