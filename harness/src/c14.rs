//! C14: punctuation, spacing, lifetimes.
use crate::{h, reflex::*, vp};
use proc_macro2::*;
const PUNCT: &str = "~!@#$%^&*-=+|;:,<.>/?'";
fn is_punct(c: char) -> bool { let mut it = PUNCT.chars(); while let Some(x) = it.next() { if x == c { return true; } } false }
pub fn ob_c14_new() {
    let c = vp::any::<char>();
    vp::input("char", &c);
    let j = vp::choose(2);
    match h::catch(|| Punct::new(c, h::spacing(j))) { Some(p) => { vp::check(is_punct(c), "Punct::new accepts another character"); vp::check(p.as_char() == c && p.spacing() == h::spacing(j), "a punctuation token has another character or spacing"); let s = p.to_string(); vp::check(s == c.to_string(), "a punctuation token has another text"); } None => vp::check(!is_punct(c), "Punct::new rejects a punctuation character") }
}
pub fn ob_c14_one() { let s = h::any_text(1); agree(&s); }
fn any_punct() -> char { let c = vp::any::<char>(); vp::assume(is_punct(c)); c }
pub fn ob_c14_pair() { let mut s = String::new(); s.push(any_punct()); s.push(vp::any::<char>()); agree(&s); }
pub fn ob_c14_triple() { let mut s = String::new(); s.push(any_punct()); s.push(any_punct()); s.push_str(["", " ", "a", "/", "*", "'", "\"", "\u{200e}"][vp::choose(8)]); agree(&s); }
pub fn ob_c14_before() { let mut s = String::new(); s.push(any_punct()); s.push_str(["a", "1", "\"s\"", "(", ")", " +", "//", "/*", "/**/", "///\n", "/+", "'a", "'a'", "r#x", "\n-", "/", "'", "\u{e9}"][vp::choose(18)]); s.push_str([" b", "", ")"][vp::choose(3)]); agree(&s); }
/// Comments between punctuation.
pub fn ob_c14_slash() { let mut s = String::new(); let mut i = 0; while i < 5 { s.push_str(["/", "*", "+", "!", " ", "\n"][vp::choose(6)]); i += 1; } agree(&s); }
/// Lifetimes.
pub fn ob_c14_lifetime() { let mut s = String::from("'"); s.push_str(&h::any_upto(2)); agree(&s); }
pub fn ob_c14_lifetime3() { let mut s = String::from(["'a", "'ab", "'r#", "'r#a", "'_", "''", "'r", "'\u{e9}", "'static", "+'a", "&'"][vp::choose(11)]); s.push_str(&h::any_upto(2)); agree(&s); }
pub fn ob_c14_lifetimes() { let mut s = String::from("'"); let mut i = 0; while i < 4 { s.push_str(["a", "'", "#", "r", " ", "1", "\\", "self"][vp::choose(8)]); i += 1; } agree(&s); }
pub fn ob_c14_deep_lifetime3() { let mut s = String::from("'"); s.push_str(&h::any_text(3)); agree(&s); }
/// Directly before and after other tokens.
pub fn ob_c14_next() { pair(&["+", "-", "/", "#", "'", ".", "'a", "'r#a", "'_", "$", "'\u{e9}"]) }
