//! C23: equality, ordering, hashing of identifiers.
use crate::{h, vp};
use proc_macro2::*;
use std::hash::{Hash, Hasher};
struct Rec(Vec<u8>, usize);
impl Hasher for Rec { fn finish(&self) -> u64 { 0 } fn write(&mut self, b: &[u8]) { let mut i = 0; while i < b.len() { self.0.push(b[i]); i += 1; } self.1 += 1; } fn write_u8(&mut self, b: u8) { self.0.push(b); self.1 += 1; } fn write_u32(&mut self, b: u32) { self.0.push(b as u8); self.1 += 100; } fn write_usize(&mut self, b: usize) { self.0.push(b as u8); self.1 += 100; } }
pub fn hash<T: Hash + ?Sized>(x: &T) -> (Vec<u8>, usize) { let mut r = Rec(vec![], 0); x.hash(&mut r); (r.0, r.1) }
#[cfg(feature = "span-locations")]
fn other_span() -> Span { match "x y".parse::<TokenStream>() { Ok(s) => match s.into_iter().last() { Some(t) => t.span(), None => vp::fail("no token") }, Err(_) => vp::fail("rejected") } }
#[cfg(not(feature = "span-locations"))]
fn other_span() -> Span { Span::call_site() }
const NAMES: [&str; 9] = ["a", "b", "ab", "abc", "_", "r", "r_", "rab", "\u{e9}t"];
/// An ident and its printed form.
fn ident() -> (Ident, String) {
    let n = NAMES[vp::choose(9)];
    let raw = vp::choose(2) == 1;
    let sp = if vp::choose(2) == 1 { other_span() } else { Span::call_site() };
    if raw { vp::assume(n != "_"); (Ident::new_raw(n, sp), String::from("r#") + n) } else { (Ident::new(n, sp), String::from(n)) }
}
pub fn ob_c23_pairs() {
    let ((a, s), (b, t)) = (ident(), ident());
    vp::check(a.to_string() == s, "Display of an ident");
    vp::check((a == b) == (s == t), "equality of idents is not that of their printed forms");
    vp::check((a != b) == (s != t), "inequality of idents");
    vp::check(a.cmp(&b) == s.cmp(&t), "ordering of idents is not that of their printed forms");
    vp::check(a.partial_cmp(&b) == Some(s.cmp(&t)), "partial ordering of idents");
    vp::check((a < b) == (s < t) && (a >= b) == (s >= t), "comparison operators of idents");
}
/// Long names: the last character, the raw prefix and the length all count.
const LONG: [&str; 8] = ["abcdefghijklmnop", "abcdefghijklmnoq", "bbcdefghijklmnop", "abcdefghijklmno", "abcdefghijklmnop_0123456789_0123456789_0123456789_0123456789_\u{e9}", "abcdefghijklmnop_0123456789_0123456789_0123456789_0123456789_\u{ea}", "aBcdefghijklmnop", "r_abcdefghijklmnop"];
fn long() -> (Ident, String) {
    let n = LONG[vp::choose(8)];
    if vp::choose(2) == 1 { (Ident::new_raw(n, Span::call_site()), String::from("r#") + n) } else { (Ident::new(n, Span::call_site()), String::from(n)) }
}
pub fn ob_c23_long() {
    let ((a, s), (b, t)) = (long(), long());
    vp::check(a.to_string() == s, "Display of an ident");
    vp::check((a == b) == (s == t), "equality of idents is not that of their printed forms");
    vp::check(a.cmp(&b) == s.cmp(&t), "ordering of idents is not that of their printed forms");
    vp::check(a.partial_cmp(&b) == Some(s.cmp(&t)), "partial ordering of idents");
    vp::check((a == t) == (s == t), "comparison of an ident with a String");
    vp::check((a == *t.as_str()) == (s == t), "comparison of an ident with a str");
    let (x, y) = (hash(&a), hash(&s));
    vp::check(x.0 == y.0 && x.1 == y.1, "hashing an ident is not hashing its printed form");
}
pub fn ob_c23_hash() { let (a, s) = ident(); let (x, y) = (hash(&a), hash(&s)); vp::check(x.0 == y.0 && x.1 == y.1, "hashing an ident is not hashing its printed form"); }
pub fn ob_c23_strings() {
    let (a, s) = ident();
    let k = vp::choose(14);
    let t = if k < 9 { String::from(NAMES[k]) } else { String::from(["r#a", "r#ab", "r#", "", "r#r#a"][k - 9]) };
    vp::check((a == t) == (s == t), "comparison of an ident with a String");
    vp::check((a == *t.as_str()) == (s == t), "comparison of an ident with a str");
    vp::check((a == t.as_str()) == (s == t), "comparison of an ident with a &str");
    vp::check((a != t) == (s != t), "comparison of an ident with a String");
}
/// Comparison with arbitrary short strings.
pub fn ob_c23_any_string() {
    let raw = vp::choose(2) == 1;
    let a = if raw { Ident::new_raw("ab", Span::call_site()) } else { Ident::new("ab", Span::call_site()) };
    let s = if raw { "r#ab" } else { "ab" };
    let t = h::any_upto(5);
    vp::input_str("string", &t);
    vp::check((a == t) == (s == t), "comparison of an ident with a string");
}
/// Idents of arbitrary characters.
pub fn ob_c23_any_name() {
    let (c, d) = (vp::any::<char>(), vp::any::<char>());
    vp::assume(h::is_xid_start(c) && h::is_xid_start(d));
    let (s, t) = (c.to_string(), d.to_string());
    let (a, b) = (Ident::new(&s, Span::call_site()), Ident::new(&t, Span::call_site()));
    vp::check((a == b) == (c == d), "equality of idents");
    vp::check((a == t) == (c == d), "comparison of an ident with a string");
    vp::check(a.to_string() == s, "Display of an ident");
}
