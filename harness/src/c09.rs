//! C09: lexing is total.
use crate::{h, vp};
use proc_macro2::*;
/// Ten times the steps the clean tree needs on any of these texts.
const END: usize = 3_000_000;
fn stream(s: &str) { vp::input_str("source", s); vp::must_end(END); let r = s.parse::<TokenStream>(); vp::must_end(0); match r { Ok(t) => { vp::check(true, ""); drop(t); } Err(e) => { let _ = e.span(); vp::check(true, "") } } }
fn literal(s: &str) { vp::input_str("source", s); vp::must_end(END); let r = s.parse::<Literal>(); vp::must_end(0); match r { Ok(t) => { vp::check(true, ""); drop(t); } Err(e) => { let _ = e.span(); vp::check(true, "") } } }
pub fn ob_c09_short() { let s = h::any_upto(2); stream(&s) }
pub fn ob_c09_literal_short() { let s = h::any_upto(3); literal(&s) }
pub fn ob_c09_deep_any3() { let s = h::any_text(3); stream(&s) }
/// Openings of every form, followed by arbitrary characters: the text ends anywhere.
pub const OPEN: [&str; 41] = ["\"", "\"\\", "\"\\x", "\"\\x7", "\"\\u", "\"\\u{", "\"\\u{10FFF", "\"\\\n", "\"\\\r\n ", "\"\r", "r\"", "r#\"", "r##", "r#", "b\"", "b\"\\", "b\"\\x", "b\"\\\r", "br", "br#\"", "c\"", "c\"\\", "c\"\\x0", "cr#\"", "'", "'\\", "'\\u{", "'a", "b'", "b'\\x", "1.", "1e", "1.0e+", "0x", "0b", "//", "///", "//!", "/*", "/**", "/*!"];
pub fn ob_c09_open2() { let mut s = String::from(OPEN[vp::choose(41)]); s.push_str(&h::any_upto(2)); stream(&s) }
pub fn ob_c09_open_literal() { let mut s = String::from(OPEN[vp::choose(35)]); s.push_str(&h::any_upto(2)); literal(&s) }
pub fn ob_c09_deep_open3() { let mut s = String::from(OPEN[vp::choose(41)]); s.push_str(&h::any_text(3)); stream(&s) }
/// Long runs of one construct, then an arbitrary character.
const RUN: [&str; 22] = ["#", "\"", "'", "/", "*", "/*", "*/", "\\", "\r", "\n", "r#", "b", "0", "_", ".", "e+", "\u{e9}", "\u{1f600}", "\u{feff}", "(", "'a", "1.e"];
pub fn ob_c09_runs() {
    let (r, n) = (RUN[vp::choose(22)], [3, 17][vp::choose(2)]);
    let p = ["", "r", "\"", "/*", "1"][vp::choose(5)];
    let mut s = String::from(p);
    let mut i = 0;
    while i < n { s.push_str(r); i += 1; }
    s.push(vp::any::<char>());
    stream(&s)
}
/// Raw strings with as many #'s as the counter may hold, and more.
pub fn ob_c09_hashes() {
    let n = [254, 255, 256, 257, 300][vp::choose(5)];
    let mut s = String::from(["r", "br", "cr"][vp::choose(3)]);
    let mut i = 0;
    while i < n { s.push('#'); i += 1; }
    s.push('"');
    s.push(vp::any::<char>());
    s.push('"');
    i = 0;
    while i < n { s.push('#'); i += 1; }
    stream(&s)
}
/// Unicode escapes with arbitrary digits do not overflow.
pub fn ob_c09_unicode() {
    let mut s = String::from(["\"\\u{", "'\\u{", "c\"\\u{"][vp::choose(3)]);
    let n = vp::choose(9);
    let mut i = 0;
    while i < n { s.push(['f', '_', '0', 'F'][if i < 2 { vp::choose(4) } else { 0 }]); i += 1; }
    s.push(vp::any::<char>());
    s.push('}');
    s.push(vp::any::<char>());
    stream(&s)
}
