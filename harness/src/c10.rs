//! C10: delimiters.
use crate::{h, reflex::*, vp};
use proc_macro2::*;
const D: [&str; 8] = ["(", ")", "[", "]", "{", "}", "a ", ", "];
fn seq(n: usize) { let mut s = String::new(); let mut i = 0; while i < n { s.push_str(D[vp::choose(8)]); i += 1; } agree(&s); }
pub fn ob_c10_upto4() { seq(vp::choose(5)) }
pub fn ob_c10_deep_upto6() { seq(6) }
/// One, two or three pairs around arbitrary closers.
pub fn ob_c10_six() { let mut s = String::new(); let mut i = 0; while i < 6 { s.push_str(D[vp::choose(6)]); if i == 2 { s.push_str("a"); } i += 1; if i == 3 { vp::assume(true); } } agree(&s); }
/// Delimiters inside literals and comments do not count.
const IN: [&str; 10] = ["\"(\"", "'('", "/* ) */", "// }\n", "r#\"]\"#", "b\"{\"", "c\")\"", "b')'", "/// [\n", "1"];
pub fn ob_c10_hidden() {
    let mut s = String::from(["(", "[", "{", ""][vp::choose(4)]);
    s.push_str(IN[vp::choose(10)]);
    s.push_str([")", "]", "}", ""][vp::choose(4)]);
    s.push_str(IN[vp::choose(10)]);
    s.push_str([")", "]", "}", ""][vp::choose(4)]);
    agree(&s);
}
/// The position of the first error does not matter: anything after an error is irrelevant.
pub fn ob_c10_any() {
    let mut s = String::from(["(", "[", "{"][vp::choose(3)]);
    s.push(vp::any::<char>());
    s.push_str([")", "]", "}"][vp::choose(3)]);
    s.push(vp::any::<char>());
    agree(&s);
}
/// A pair of any two delimiters inside up to nine matching pairs: matched iff the two are of a kind.
pub fn ob_c10_inner() {
    let n = [0, 1, 2, 3, 4, 6, 9][vp::choose(7)];
    let k = vp::choose(4);
    let kinds = |i: usize| if k < 3 { k } else { (i + k) % 3 };
    let mut s = String::new();
    let mut i = 0;
    while i < n { s.push_str(["(", "[", "{"][kinds(i)]); if i % 3 == 1 { s.push_str("x,"); } i += 1; }
    s.push_str(["(", "[", "{", ""][vp::choose(4)]);
    s.push_str(["", "a b"][vp::choose(2)]);
    s.push_str([")", "]", "}", ""][vp::choose(4)]);
    while i > 0 { i -= 1; s.push_str([")", "]", "}"][kinds(i)]); if i % 4 == 2 { s.push_str("+y"); } }
    agree(&s);
}
/// The closers of a deep nest, with one of them left out, doubled or of another kind, at any level.
pub fn ob_c10_outer() {
    let n = 1 + vp::choose(12);
    let at = vp::choose(n);
    let form = vp::choose(4);
    let mut s = String::new();
    let mut i = 0;
    while i < n { s.push_str(["(", "[", "{"][i % 3]); i += 1; }
    s.push('z');
    while i > 0 {
        i -= 1;
        if i == at {
            match form { 0 => {} 1 => { s.push_str([")", "]", "}"][i % 3]); s.push_str([")", "]", "}"][i % 3]); } 2 => s.push_str([")", "]", "}"][(i + 1) % 3]), _ => s.push_str([")", "]", "}"][(i + 2) % 3]) }
        } else { s.push_str([")", "]", "}"][i % 3]); }
    }
    agree(&s);
}
/// Deep nesting and long contents.
pub fn ob_c10_long() {
    let n = [20, 60][vp::choose(2)];
    let k = vp::choose(3);
    let mut s = String::new();
    let mut i = 0;
    while i < n { s.push_str(["(", "[", "{"][(i + k) % 3]); if i % 4 == 0 { s.push_str("x "); } i += 1; }
    while i > 0 { i -= 1; s.push_str([")", "]", "}"][(i + k) % 3]); if i % 5 == 0 { s.push_str(" y"); } }
    s.push(vp::any::<char>());
    agree(&s);
}
/// The compiler's error placeholder is one literal.
pub fn ob_c10_error() { let mut s = String::from(["", "a ", "(", "["][vp::choose(4)]); s.push_str(["(/*ERROR*/)", "(/*ERROR*/", "(/*ERRO*/)", "(/*ERROR*/ )", "[/*ERROR*/]"][vp::choose(5)]); s.push_str(["", ")", "]", " b"][vp::choose(4)]); agree(&s); }
