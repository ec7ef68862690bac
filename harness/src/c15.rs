//! C15: white space, comments, doc comments.
use crate::{h, reflex::*, vp};
use proc_macro2::*;
/// An arbitrary character between two names, alone, before, after.
pub fn ob_c15_white() { let c = vp::any::<char>(); let mut s = String::from(["", "a", "a", "+"][vp::choose(4)]); s.push(c); s.push_str(["", "b", "", "="][vp::choose(4)]); agree(&s); }
pub fn ob_c15_white_pair() { let mut s = String::from("a"); let mut i = 0; while i < 2 { let c = vp::any::<char>(); vp::assume(h::is_white(c) || c == '\u{feff}' || c == '/'); s.push(c); i += 1; } s.push_str("b"); agree(&s); }
pub fn ob_c15_bom() { let mut s = String::from(["\u{feff}", "\u{feff}\u{feff}", " \u{feff}", "a\u{feff}", "\u{feff} ", "\u{fffe}"][vp::choose(6)]); s.push_str(&h::any_upto(1)); s.push_str(["", "a"][vp::choose(2)]); agree(&s); }
const O: [&str; 14] = ["//", "///", "//!", "////", "/*", "/**", "/*!", "/***", "/**/", "// ", "/// ", "/* ", "/** ", "a//"];
pub fn ob_c15_open() { let mut s = String::from(O[vp::choose(14)]); s.push_str(&h::any_upto(2)); agree(&s); }
pub fn ob_c15_closed() { let mut s = String::from(["/*", "/**", "/*!", "/***", "/* /*"][vp::choose(5)]); s.push_str(&h::any_upto(2)); s.push_str(["*/", "*/ b", "*/*/"][vp::choose(3)]); agree(&s); }
pub fn ob_c15_line() { let mut s = String::from(["//", "///", "//!", "////"][vp::choose(4)]); s.push_str(&h::any_upto(2)); s.push_str(["\n", "\nb", "\r\nb", "\rb"][vp::choose(4)]); agree(&s); }
pub fn ob_c15_deep_open3() { let mut s = String::from(["/*", "/**", "/*!", "///", "//!", "//"][vp::choose(6)]); s.push_str(&h::any_text(3)); s.push_str(["*/", "\n"][vp::choose(2)]); agree(&s); }
/// Nesting of block comments.
pub fn ob_c15_nest() { let mut s = String::from("/*"); let mut i = 0; while i < 6 { s.push_str(["/", "*", "a", "*/", ""][vp::choose(5)]); i += 1; } agree(&s); }
pub fn ob_c15_nest_deep() { let n = [3, 20][vp::choose(2)]; let m = [n - 1, n, n + 1][vp::choose(3)]; let mut s = String::from(["", "/**", "/*!"][vp::choose(3)]); let m = if s.is_empty() { m } else { m + 1 }; let mut i = 0; while i < n { s.push_str("/*"); i += 1; } s.push(vp::any::<char>()); i = 0; while i < m { s.push_str("*/"); i += 1; } s.push_str(" x"); agree(&s); }
/// Carriage returns.
pub fn ob_c15_cr() { let k = vp::choose(7); let mut s = String::from(["//", "///", "//!", "/*", "/**", "/*!", "////"][k]); let mut i = 0; while i < 4 { s.push_str(["\r", "\n", "a", "\u{e9}", ""][vp::choose(5)]); i += 1; } if k >= 3 && k <= 5 { s.push_str("*/"); } s.push_str(["", " x"][vp::choose(2)]); agree(&s); }
/// Comments at any place between tokens.
pub fn ob_c15_between() { between(2) }
pub fn ob_c15_deep_between3() { between(3) }
fn between(n: usize) { let mut s = String::new(); let mut i = 0; while i < n { s.push_str(["a", "+", "(", ")", "1", "\"s\""][vp::choose(6)]); s.push_str(["/* c */", "// c\n", " ", "/**/", "/** d */", "//! d\n", ""][vp::choose(7)]); i += 1; } agree(&s); }
pub fn ob_c15_long() { let p = ["// ", "/// ", "/* ", "/** ", "//!", "/*!"][vp::choose(6)]; let u = ["a", "*", "/ ", "\u{e9}", "\"", "\\", "\r\n", "* /"][vp::choose(8)]; let mut s = String::from(p); let mut i = 0; while i < 30 { s.push_str(u); i += 1; } s.push(vp::any::<char>()); s.push_str("*/\nx"); agree(&s); }
/// Directly before and after other tokens.
pub fn ob_c15_next() { pair(&[" ", "\n", "\r\n", "//c\n", "///d\n", "//!d\r\n", "/*c*/", "/**d*/", "/*!d*/", "/**/", "/***/", "//", "///"]) }
