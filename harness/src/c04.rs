//! C04: parsing inside a procedural macro.
use crate::{c01::*, c02::fb, h, vp};
use proc_macro2::*;
use std::str::FromStr;
type PStream = proc_macro::TokenStream;
type PTree = proc_macro::TokenTree;
fn stream(src: &str) {
    let ok = fb(|| src.parse::<TokenStream>().is_ok());
    let before = vp::pm_parses();
    let got = src.parse::<TokenStream>();
    let calls = vp::pm_parses() - before;
    if !ok {
        vp::check(got.is_err(), "a stream the fallback lexer rejects is accepted");
        vp::check(calls == 0, "a stream the fallback lexer rejects is handed to the compiler");
        vp::stop();
    }
    vp::check(calls == 1, "the compiler's parser must be asked exactly once");
    let p = h::catch(|| PStream::from_str(src));
    match (got, p) {
        (Ok(g), Some(Ok(p))) => vp::check(vp::same(&PStream::from(g), &p), "the stream is not the one the compiler parsed"),
        (Err(e), Some(Err(p))) => { vp::check(e.to_string() == p.to_string(), "the error is not the compiler's"); vp::check(format!("{:?}", e) == format!("{:?}", p), "the error is not the compiler's"); let _ = e.span(); }
        (Err(e), None) => { let _ = e.span(); let _ = e.to_string(); vp::check(true, "") }
        _ => vp::fail("success and failure of the compiler's stream parser are not reported as they are"),
    }
}
fn literal(src: &str) {
    let ok = fb(|| src.parse::<Literal>().is_ok());
    let before = vp::pm_parses();
    let got = src.parse::<Literal>();
    let calls = vp::pm_parses() - before;
    if !ok {
        vp::check(got.is_err(), "a literal the fallback lexer rejects is accepted");
        vp::check(calls == 0, "a literal the fallback lexer rejects is handed to the compiler");
        vp::stop();
    }
    vp::check(calls == 1, "the compiler's parser must be asked exactly once");
    let p = h::catch(|| proc_macro::Literal::from_str(src));
    match (got, p) {
        (Ok(g), Some(Ok(p))) => vp::check(vp::same(&unwrap(TokenTree::Literal(g)), &PTree::Literal(p)), "the literal is not the one the compiler parsed"),
        (Err(e), Some(Err(p))) => vp::check(e.to_string() == p.to_string(), "the error is not the compiler's"),
        (Err(e), None) => { let _ = e.span(); let _ = e.to_string(); vp::check(true, "") }
        _ => vp::fail("success and failure of the compiler's literal parser are not reported as they are"),
    }
}
pub fn ob_c04_stream_short() { start(); let s = h::any_upto(2); vp::input_str("source", &s); stream(&s) }
pub fn ob_c04_literal_short() { start(); let s = h::any_upto(2); vp::input_str("source", &s); literal(&s) }
const TEXTS: [&str; 40] = ["a b", "fn f() {}", "(", ")", "(]", "{ ( }", "\"abc\"", "\"abc", "\"\\q\"", "'a'", "'ab'", "'a", "1.0e", "1.0e5", "0x", "0xfg", "1u8", "/* a", "/* a */", "/// doc\n", "//! d\r x", "r#\"a\"#", "r#\"a\"", "b\"\\u{1}\"", "c\"\\0\"", "r#self", "r#abc", "\u{feff}a", "\u{feff}\u{feff}a", "a \\ b", "a\u{200e}b", "-1", "- 1", "--1", "-a", "#![x]", "1_000", "b'a'", "b'\u{e9}'", "'\\u{110000}'"];
pub fn ob_c04_stream_texts() { start(); let s = TEXTS[vp::choose(40)]; vp::input_str("source", s); stream(s) }
pub fn ob_c04_literal_texts() { start(); let s = TEXTS[vp::choose(40)]; vp::input_str("source", s); literal(s) }
/// Rejected by the fallback: the error's span is usable and nothing panics.
pub fn ob_c04_error_value() {
    start();
    let s = ["(", "a)", "\"", "/*", "'"][vp::choose(5)];
    match s.parse::<TokenStream>() { Ok(_) => vp::fail("an unfinished text is accepted"), Err(e) => { let _ = e.span(); let _ = format!("{}", e); vp::check(true, "") } }
}
