//! C12: numeric literals.
use crate::{h, reflex::*, vp};
use proc_macro2::*;
const A: [&str; 16] = ["0", "1", "9", "_", ".", "e", "E", "+", "-", "x", "b", "o", "a", "F", "u8", ""];
fn both(s: &str) { agree(s); agree_literal(s); }
fn seq(p: &str, n: usize) { let mut s = String::from(p); let mut i = 0; while i < n { s.push_str(A[vp::choose(16)]); i += 1; } both(&s) }
pub fn ob_c12_seq() { seq(["0", "1", "-1", "7_"][vp::choose(4)], 3) }
pub fn ob_c12_exp() { seq(["1e", "1.0e", "0E", "1.e", "1e_", "1._5e-"][vp::choose(6)], 2) }
pub fn ob_c12_base() { seq(["0x", "0o", "0b", "-0x", "0b1", "0o7", "0xf"][vp::choose(7)], 2) }
pub fn ob_c12_dot() { seq(["1.", "1.5", "0.0", "1_.", "1..", "1.2."][vp::choose(6)], 2) }
pub fn ob_c12_deep_seq4() { seq(["0", "1", "-1"][vp::choose(3)], 4) }
/// Arbitrary characters after a digit.
pub fn ob_c12_any2() { let mut s = String::new(); s.push(vp::any_range::<u8>(48, 57) as char); s.push_str(&h::any_upto(2)); both(&s) }
pub fn ob_c12_deep_any3() { let mut s = String::from("1"); s.push_str(&h::any_text(3)); both(&s) }
pub fn ob_c12_after() { let mut s = String::from(["1.", "1.5", "1e", "1e5", "1e+", "1.0e", "0x", "0x1", "0o", "0o7", "0b", "0b1", "1_", "1u8", "1.5f", "0b1.", "1.0e+", "1e+5", "1e5.", "1.e5"][vp::choose(20)]); s.push_str(&h::any_text(1)); both(&s) }
pub fn ob_c12_after2() { let mut s = String::from(["1.", "1e", "0x", "0b", "0o", "1.0e"][vp::choose(6)]); s.push_str(&h::any_text(2)); both(&s) }
/// A single literal: the sign.
pub fn ob_c12_sign() { let mut s = String::from(["-", "--", "- ", "+", "-0x", "-.", "-1"][vp::choose(7)]); s.push_str(&h::any_upto(1)); s.push_str(["", "1", "\"a\""][vp::choose(3)]); both(&s) }
pub fn ob_c12_minus_any() { let mut s = String::from("-"); s.push_str(&h::any_upto(2)); agree_literal(&s); }
/// Long digit strings.
pub fn ob_c12_long() {
    let p = ["", "0x", "0o", "0b", "1.", "1e", "1e-", "1.5e+"][vp::choose(8)];
    let d = ["1", "0", "_1", "1_", "7"][vp::choose(5)];
    let mut s = String::from(p);
    let mut i = 0;
    while i < 45 { s.push_str(d); i += 1; }
    s.push(vp::any::<char>());
    both(&s)
}
/// Directly before and after other tokens.
pub fn ob_c12_next() { pair(&["1", "1.", "1.0", "1e5", "1e", "0x1f", "0x", "1u8", "1_", "0b1", "0o7", "1.0f32"]) }
