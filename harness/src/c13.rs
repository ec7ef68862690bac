//! C13: identifiers.
use crate::{h, reflex::*, vp};
use proc_macro2::*;
fn valid(s: &str) -> bool { let mut it = s.chars(); match it.next() { Some(c) => if c != '_' && !h::is_xid_start(c) { return false; }, None => return false } while let Some(c) = it.next() { if !h::is_xid_continue(c) { return false; } } true }
fn special(s: &str) -> bool { s == "_" || s == "super" || s == "self" || s == "Self" || s == "crate" }
fn names(s: &str) {
    vp::input_str("name", s);
    let ok = valid(s);
    match h::catch(|| Ident::new(s, Span::call_site())) { Some(i) => { vp::check(ok, "Ident::new accepts an invalid name"); vp::check(i.to_string() == s, "an identifier has another text"); } None => vp::check(!ok, "Ident::new rejects a valid name") }
    let ok = ok && !special(s);
    match h::catch(|| Ident::new_raw(s, Span::call_site())) { Some(i) => { vp::check(ok, "Ident::new_raw accepts an invalid name"); vp::check(i.to_string() == String::from("r#") + s, "a raw identifier has another text"); } None => vp::check(!ok, "Ident::new_raw rejects a valid name") }
}
pub fn ob_c13_new() { let s = h::any_upto(2); names(&s) }
pub fn ob_c13_new3() { let mut s = String::from(["a", "_", "r#", "1", "\u{e9}"][vp::choose(5)]); s.push_str(&h::any_text(2)); names(&s) }
const WORDS: [&str; 32] = ["_", "super", "self", "Self", "crate", "fn", "try", "async", "dyn", "union", "'static", "__", "_1", "supe", "superb", "selfs", "SELF", "crates", "Super", "true", "false", "r", "b", "c", "br", "cr", "r#self", "r#a", "", "a b", "a-b", "static"];
pub fn ob_c13_words() { names(WORDS[vp::choose(32)]) }
/// Long names.
pub fn ob_c13_long() { let n = [30, 64][vp::choose(2)]; let u = ["a", "_", "\u{e9}", "\u{1d4d0}"][vp::choose(4)]; let mut s = String::new(); let mut i = 0; while i < n { s.push_str(u); i += 1; } s.push(vp::any::<char>()); s.push('z'); names(&s); agree(&s); }
/// The lexer: maximal names.
pub fn ob_c13_lex2() { let mut s = String::new(); let c = vp::any::<char>(); vp::assume(c == '_' || h::is_xid_start(c)); s.push(c); s.push_str(&h::any_upto(2)); agree(&s); }
pub fn ob_c13_lex_words() { let mut s = String::from(["", "r#", "'", "'r#", "r##", "r#r#"][vp::choose(6)]); s.push_str(WORDS[vp::choose(32)]); s.push_str(["", " ", "'", "#", "\"", "(", "1"][vp::choose(7)]); agree(&s); }
/// Names that begin like a literal.
pub fn ob_c13_prefix() { let mut s = String::from(["r", "b", "c", "br", "cr", "r#", "rb", "bc", "bb", "cc", "cb"][vp::choose(11)]); s.push_str(&h::any_upto(2)); agree(&s); }
pub fn ob_c13_prefixes() { let mut s = String::from(["r", "b", "c", "br", "cr", "rr", "rb", "xr", "_b", "Rr"][vp::choose(10)]); let mut i = 0; while i < 3 { s.push_str(["", "#", "\"", "'", "a", "r"][vp::choose(6)]); i += 1; } agree(&s); }
pub fn ob_c13_deep_lex3() { let mut s = String::from(["a", "r#a", "r#s", "\u{e9}"][vp::choose(4)]); s.push_str(&h::any_text(3)); agree(&s); }
/// Spans do not matter; `Ident::new` keeps its text through clone and set_span.
pub fn ob_c13_keep() { let c = vp::any::<char>(); vp::assume(h::is_xid_start(c)); let s = c.to_string(); let mut i = Ident::new(&s, Span::mixed_site()); i.set_span(Span::call_site()); vp::check(i.clone().to_string() == s, "a clone has another text"); }
/// Directly before and after other tokens.
pub fn ob_c13_next() { pair(&["a", "r#a", "_", "r", "b", "br", "c", "cr", "r#", "\u{e9}"]) }
