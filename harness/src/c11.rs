//! C11: quoted literals.
use crate::{h, reflex::*, vp};
use proc_macro2::*;
const OPEN: [&str; 12] = ["\"", "b\"", "c\"", "r\"", "br\"", "cr\"", "r#\"", "br#\"", "cr#\"", "r##\"", "'", "b'"];
fn close(k: usize) -> &'static str { match k { 6 | 7 | 8 => "\"#", 9 => "\"##", 10 | 11 => "'", _ => "\"" } }
fn both(s: &str) { agree(s); agree_literal(s); }
fn one(k: usize, body: &str, after: &str) { let mut s = String::from(OPEN[k]); s.push_str(body); s.push_str(close(k)); s.push_str(after); both(&s) }
pub fn ob_c11_body1() { let k = vp::choose(12); let b = h::any_upto(1); let a = h::any_upto(1); one(k, &b, &a) }
pub fn ob_c11_body2() { let k = vp::choose(12); let b = h::any_text(2); one(k, &b, "") }
pub fn ob_c11_deep_body3() { let k = vp::choose(12); let b = h::any_text(3); one(k, &b, "") }
pub fn ob_c11_deep_body2_after() { let k = vp::choose(12); let b = h::any_text(2); let a = h::any_text(1); one(k, &b, &a) }
/// Escapes.
pub fn ob_c11_escape() { let k = vp::choose(12); let mut b = String::from("\\"); b.push_str(&h::any_upto(2)); one(k, &b, "") }
pub fn ob_c11_hex() { let k = vp::choose(12); let mut b = String::from("\\x"); b.push_str(&h::any_upto(2)); one(k, &b, "") }
pub fn ob_c11_deep_hex3() { let k = vp::choose(12); let mut b = String::from("\\x"); b.push_str(&h::any_text(3)); one(k, &b, "") }
/// After an escape the literal goes on.
pub fn ob_c11_escape_then() { let k = vp::choose(12); let mut b = String::from(["\\n", "\\\\", "\\\"", "\\'", "\\0", "\\x41", "\\u{41}", "\\x7f"][vp::choose(8)]); b.push_str(&h::any_text(1)); one(k, &b, "") }
const U: [usize; 5] = [0, 1, 2, 10, 9];
pub fn ob_c11_unicode_shape() { let k = U[vp::choose(5)]; let mut b = String::from("\\u"); b.push_str(["", "{", "{4", "{4_", "{_"][vp::choose(5)]); b.push_str(&h::any_upto(1)); b.push_str(["", "}"][vp::choose(2)]); one(k, &b, "") }
/// Every hexadecimal digit in each position of a long escape: the value decides.
pub fn ob_c11_unicode_value() {
    let k = U[vp::choose(4)];
    let n = vp::choose(7) + 1;
    let p = vp::choose(7);
    vp::assume(p < n);
    let mut b = String::from("\\u{");
    let f = ["1", "d", "0", "F"][vp::choose(4)];
    let mut i = 0;
    while i < n { if i == p { b.push(vp::any::<char>()); } else { b.push_str(f); } i += 1; }
    b.push('}');
    one(k, &b, "")
}
const VALUES: [&str; 20] = ["10FFFF", "110000", "d7ff", "d800", "dfff", "e000", "00D800", "0", "00", "000000", "0000000", "0_0", "1_0_F_F_F_F", "1__", "_1", "FFFFFF", "010ffff", "10FFF_F_", "80", "7f"];
pub fn ob_c11_unicode_values() { let k = vp::choose(12); let mut b = String::from("\\u{"); b.push_str(VALUES[vp::choose(20)]); b.push('}'); one(k, &b, "") }
/// Two arbitrary digits.
pub fn ob_c11_unicode_two() { let k = U[vp::choose(4)]; let mut b = String::from(["\\u{", "\\u{1", "\\u{10FF"][vp::choose(3)]); b.push_str(&h::any_text(2)); b.push_str("}"); one(k, &b, "") }
/// Line endings and line continuations.
const L: [&str; 8] = ["\r", "\n", " ", "\t", "a", "\\", "\"", "\u{a0}"];
pub fn ob_c11_lines() { let k = vp::choose(10); let n = vp::choose(4); let mut b = String::new(); let mut i = 0; while i < n { b.push_str(L[vp::choose(8)]); i += 1; } one(k, &b, "") }
pub fn ob_c11_continuation() { let k = vp::choose(3); let n = vp::choose(4); let mut b = String::from(["\\\n", "\\\r\n", "\\\r", "x\\\n"][vp::choose(4)]); let mut i = 0; while i < n { b.push_str(L[vp::choose(8)]); i += 1; } one(k, &b, "") }
pub fn ob_c11_continuation_any() { let k = vp::choose(3); let mut b = String::from(["\\\n", "\\\n ", "\\\r\n", "\\\n\n\t"][vp::choose(4)]); b.push_str(&h::any_upto(2)); one(k, &b, "") }
pub fn ob_c11_deep_lines5() { let k = vp::choose(10); let mut b = String::new(); let mut i = 0; while i < 5 { b.push_str(L[vp::choose(8)]); i += 1; } one(k, &b, "") }
/// Raw strings: the number of #'s before and after.
pub fn ob_c11_hashes() {
    let p = ["r", "br", "cr"][vp::choose(3)];
    let n = vp::choose(4);
    let mut s = String::from(p);
    let mut i = 0;
    while i < n { s.push('#'); i += 1; }
    s.push_str("\"");
    i = 0;
    while i < 5 { let c = vp::choose(4); match c { 0 => s.push('#'), 1 => s.push('"'), 2 => s.push('a'), _ => {} } i += 1; }
    both(&s)
}
/// What stands between the prefix and the opening quote stands behind the closing quote as well, but is no raw delimiter.
pub fn ob_c11_no_delimiter() {
    let c = vp::any::<char>();
    let k = vp::choose(5);
    let put = |s: &mut String| { s.push_str(["", "#", "", "#", "a"][k]); s.push(c); s.push_str(["", "", "#", "#", ""][k]); };
    let mut s = String::from(["r", "br", "cr", "b", "c"][vp::choose(5)]);
    put(&mut s);
    s.push_str(["\"x\"", "\"\"", "'x'", "\"x\"\""][vp::choose(4)]);
    put(&mut s);
    s.push_str(["", "\"", "\"#"][vp::choose(3)]);
    both(&s);
}
pub fn ob_c11_many_hashes() {
    let p = ["r", "br", "cr"][vp::choose(3)];
    let n = [16, 253, 254, 255, 256, 257][vp::choose(6)];
    let m = [n - 1, n, n + 1][vp::choose(3)];
    let mut s = String::from(p);
    let mut i = 0;
    while i < n { s.push('#'); i += 1; }
    s.push_str("\"x\"");
    i = 0;
    while i < m { s.push('#'); i += 1; }
    agree(&s);
    agree_literal(&s);
}
/// What follows the closing quote: a suffix or another token.
pub fn ob_c11_suffix() { let k = vp::choose(12); let mut a = String::from(["", "u8", "_", "r#", "e"][vp::choose(5)]); a.push_str(&h::any_upto(1)); one(k, "a", &a) }
/// Long bodies.
pub fn ob_c11_long() {
    let k = vp::choose(10);
    let u = ["a", "\\n", "\\x41", "\r\n", " ", "#", "\u{e9}", "'"][vp::choose(8)];
    let mut b = String::new();
    let mut i = 0;
    while i < 30 { b.push_str(u); i += 1; }
    b.push(vp::any::<char>());
    b.push_str("z");
    one(k, &b, "")
}
/// Texts that are no literal: something before or after.
pub fn ob_c11_not_whole() { let k = vp::choose(12); let mut s = String::from([" ", "-", "", "a", "/**/"][vp::choose(5)]); s.push_str(OPEN[k]); s.push_str("a"); s.push_str(close(k)); s.push_str([" ", "", "\n", "//", "a b"][vp::choose(5)]); both(&s) }
/// Directly before and after other tokens.
pub fn ob_c11_next() { pair(&["'x'", "b'x'", "\"s\"", "r\"s\"", "r#\"s\"#", "b\"s\"", "br\"s\"", "c\"s\"", "cr#\"s\"#", "\"\\\"\"", "'\\''"]) }
