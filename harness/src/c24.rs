//! C24: value accessors (semver-exempt API).
use crate::{h, vp};
use proc_macro2::*;
const RAW: u32 = 1 << 24;
fn hex(c: char) -> Option<u32> { let c = c as u32; if c >= 48 && c <= 57 { Some(c - 48) } else if c >= 97 && c <= 102 { Some(c - 87) } else if c >= 65 && c <= 70 { Some(c - 55) } else { None } }
/// What the body of a cooked literal denotes (kind: 0 string, 3 byte string, 4 C string; single bytes of a C string plus 2^24).
fn denoted(b: &[char], kind: u8) -> Option<Vec<u32>> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        i += 1;
        if c == '"' || c == '\r' || (kind == 3 && c > '\x7f') || (kind == 4 && c == '\0') { return None; }
        if c != '\\' { v.push(c as u32); continue; }
        if i >= b.len() { return None; }
        let e = b[i];
        i += 1;
        match e {
            '\n' => while i < b.len() && (b[i] == ' ' || b[i] == '\t' || b[i] == '\n' || b[i] == '\r') { i += 1; },
            'n' => v.push(10), 'r' => v.push(13), 't' => v.push(9), '\\' => v.push(92), '\'' => v.push(39), '"' => v.push(34),
            '0' => if kind == 4 { return None; } else { v.push(0) },
            'x' => {
                if i + 1 >= b.len() { return None; }
                let x = hex(b[i])? * 16 + hex(b[i + 1])?;
                i += 2;
                if kind == 0 { if x > 127 { return None; } v.push(x); } else if kind == 3 { v.push(x); } else { if x == 0 { return None; } v.push(if x > 127 { x + RAW } else { x }); }
            }
            'u' => {
                if kind == 3 || i >= b.len() || b[i] != '{' { return None; }
                i += 1;
                let (mut x, mut n) = (0, 0);
                loop {
                    if i >= b.len() { return None; }
                    let c = b[i];
                    i += 1;
                    if c == '}' { break; }
                    if c == '_' { if n == 0 { return None; } continue; }
                    x = x * 16 + hex(c)?;
                    n += 1;
                    if n > 6 { return None; }
                }
                if n == 0 || x > 0x10ffff || (x >= 0xd800 && x <= 0xdfff) || (kind == 4 && x == 0) { return None; }
                v.push(x);
            }
            _ => return None,
        }
    }
    Some(v)
}
fn bytes(v: &[u32], nul: bool) -> Vec<u8> {
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        let x = v[i];
        if x >= RAW { out.push((x - RAW) as u8); }
        else if x < 0x80 { out.push(x as u8); }
        else if x < 0x800 { out.push(0xc0 | (x >> 6) as u8); out.push(0x80 | (x & 0x3f) as u8); }
        else if x < 0x10000 { out.push(0xe0 | (x >> 12) as u8); out.push(0x80 | (x >> 6 & 0x3f) as u8); out.push(0x80 | (x & 0x3f) as u8); }
        else { out.push(0xf0 | (x >> 18) as u8); out.push(0x80 | (x >> 12 & 0x3f) as u8); out.push(0x80 | (x >> 6 & 0x3f) as u8); out.push(0x80 | (x & 0x3f) as u8); }
        i += 1;
    }
    if nul { out.push(0); }
    out
}
fn text(v: &[u32]) -> String { let mut s = String::new(); let mut i = 0; while i < v.len() { match char::from_u32(v[i]) { Some(c) => s.push(c), None => vp::fail("reference") } i += 1; } s }
fn same(a: &[u8], b: &[u8]) -> bool { if a.len() != b.len() { return false; } let mut i = 0; while i < a.len() { if a[i] != b[i] { return false; } i += 1; } true }
fn other<T>(r: Result<T, ConversionErrorKind>) { match r { Err(ConversionErrorKind::InvalidLiteralKind) => vp::check(true, ""), _ => vp::fail("an accessor of another kind must return InvalidLiteralKind") } }
/// kind: 0 string, 3 byte string, 4 C string; the others must refuse.
fn values(l: &Literal, kind: u8, want: Option<&[u32]>) {
    if kind == 0 { match (l.str_value(), want) { (Ok(s), Some(v)) => vp::check(s == text(v), "str_value is not what the literal denotes"), (Err(ConversionErrorKind::FailedToUnescape(_)), None) => vp::check(true, ""), (Ok(_), None) => vp::fail("str_value of an invalid literal"), _ => vp::fail("str_value refuses a string literal") } } else { other(l.str_value()); }
    if kind == 3 { match (l.byte_str_value(), want) { (Ok(s), Some(v)) => { let w = bytes_raw(v); vp::check(same(&s, &w), "byte_str_value is not what the literal denotes") } (Err(ConversionErrorKind::FailedToUnescape(_)), None) => vp::check(true, ""), (Ok(_), None) => vp::fail("byte_str_value of an invalid literal"), _ => vp::fail("byte_str_value refuses a byte string literal") } } else { other(l.byte_str_value()); }
    if kind == 4 { match (l.cstr_value(), want) { (Ok(s), Some(v)) => { let w = bytes(v, true); vp::check(same(&s, &w), "cstr_value is not what the literal denotes") } (Err(ConversionErrorKind::FailedToUnescape(_)), None) => vp::check(true, ""), (Ok(_), None) => vp::fail("cstr_value of an invalid literal"), _ => vp::fail("cstr_value refuses a C string literal") } } else { other(l.cstr_value()); }
}
fn bytes_raw(v: &[u32]) -> Vec<u8> { let mut out = vec![]; let mut i = 0; while i < v.len() { out.push(v[i] as u8); i += 1; } out }
fn kind(k: usize) -> (u8, &'static str) { match k { 0 => (0, "\""), 1 => (3, "b\""), _ => (4, "c\"") } }
fn chars(s: &str) -> Vec<char> { let mut v = vec![]; let mut it = s.chars(); while let Some(c) = it.next() { v.push(c); } v }
/// Wide characters of a C string: only the sample in `wide` (the bytes of an arbitrary one are not tracked).
fn ascii(b: &[char]) { let mut i = 0; while i < b.len() { if (b[i] as u32) > 127 { vp::assume(wide(b[i])); } i += 1; } }
fn wide(c: char) -> bool { match c { '\u{80}' | '\u{a0}' | '\u{e9}' | '\u{7ff}' | '\u{800}' | '\u{2028}' | '\u{d7ff}' | '\u{e000}' | '\u{ffff}' | '\u{10000}' | '\u{1f980}' | '\u{10ffff}' => true, _ => false } }
const WIDE: [char; 12] = ['\u{80}', '\u{a0}', '\u{e9}', '\u{7ff}', '\u{800}', '\u{2028}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{1f980}', '\u{10ffff}'];
/// A cooked literal with this body: parsed if the parser takes it, otherwise as it is.
fn cooked(k: usize, body: &str) {
    let (kind, open) = kind(k);
    let mut s = String::from(open);
    s.push_str(body);
    s.push('"');
    vp::input_str("literal", &s);
    let b = chars(body);
    if k == 2 { ascii(&b); }
    let d = denoted(&b, kind);
    let l = match s.parse::<Literal>() { Ok(l) => l, Err(_) => unsafe { Literal::from_str_unchecked(&s) } };
    match &d { Some(v) => values(&l, kind, Some(v)), None => values(&l, kind, None) }
}
pub fn ob_c24_body() { let k = vp::choose(3); let b = h::any_upto(2); cooked(k, &b) }
pub fn ob_c24_escape() { let k = vp::choose(3); let mut b = String::from("\\"); b.push_str(&h::any_upto(2)); cooked(k, &b) }
pub fn ob_c24_hex() { let k = vp::choose(3); let mut b = String::from("\\x"); b.push_str(&h::any_upto(2)); b.push_str(["", "z"][vp::choose(2)]); cooked(k, &b) }
pub fn ob_c24_unicode() { let k = vp::choose(3); let mut b = String::from(["\\u", "\\u{", "\\u{4", "\\u{4_", "\\u{_", "\\u{10FFF", "\\u{d80", "\\u{12345"][vp::choose(8)]); b.push_str(&h::any_upto(1)); b.push_str(["}", "", "}a", "1}"][vp::choose(4)]); cooked(k, &b) }
const VALUES: [&str; 20] = ["10FFFF", "110000", "d7ff", "d800", "dfff", "e000", "00D800", "0", "00", "000000", "0000000", "0_0", "1_0_F_F_F_F", "1__", "_1", "FFFFFF", "7ff", "800", "ffff", "7f"];
pub fn ob_c24_unicode_values() { let k = vp::choose(3); let mut b = String::from("a\\u{"); b.push_str(VALUES[vp::choose(20)]); b.push_str("}b"); cooked(k, &b) }
const L: [&str; 7] = ["\n", " ", "\t", "a", "\\", "\u{a0}", "\\\n"];
pub fn ob_c24_lines() { let k = vp::choose(3); let mut b = String::from(["", "\\\n", "x\\\n"][vp::choose(3)]); let n = vp::choose(4); let mut i = 0; while i < n { b.push_str(L[vp::choose(7)]); i += 1; } cooked(k, &b) }
pub fn ob_c24_mixed() { let k = vp::choose(3); let mut b = String::new(); let mut i = 0; while i < 4 { b.push_str(["a", "\\n", "\\x41", "\\xff", "\\u{e9}", "\u{e9}", "\\0", "\\'", "'", "\\\""][vp::choose(10)]); i += 1; } cooked(k, &b) }
/// Raw literals.
pub fn ob_c24_raw() {
    let k = vp::choose(3);
    let n = vp::choose(3);
    let body = h::any_upto(2);
    let mut s = String::from(["r", "br", "cr"][k]);
    let mut i = 0;
    while i < n { s.push('#'); i += 1; }
    s.push('"');
    s.push_str(&body);
    s.push('"');
    i = 0;
    while i < n { s.push('#'); i += 1; }
    vp::input_str("literal", &s);
    let mut v = vec![];
    let b = chars(&body);
    if k == 2 { ascii(&b); }
    let l = match s.parse::<Literal>() { Ok(l) => l, Err(_) => vp::stop() };
    i = 0;
    while i < b.len() { vp::assume(b[i] != '\r'); v.push(b[i] as u32); i += 1; }
    values(&l, kind(k).0, Some(&v))
}
pub fn ob_c24_raw_hashes() {
    let k = vp::choose(3);
    let n = vp::choose(4);
    let mut body = String::new();
    let mut i = 0;
    while i < 4 { body.push_str(["#", "\"", "a", "\\", ""][vp::choose(5)]); i += 1; }
    let mut s = String::from(["r", "br", "cr"][k]);
    i = 0;
    while i < n { s.push('#'); i += 1; }
    s.push('"');
    s.push_str(&body);
    s.push('"');
    i = 0;
    while i < n { s.push('#'); i += 1; }
    vp::input_str("literal", &s);
    let l = match s.parse::<Literal>() { Ok(l) => l, Err(_) => vp::stop() };
    let mut v = vec![];
    let b = chars(&body);
    i = 0;
    while i < b.len() { v.push(b[i] as u32); i += 1; }
    values(&l, kind(k).0, Some(&v))
}
/// Every other kind of literal.
pub fn ob_c24_other() {
    let k = vp::choose(12);
    let l = match k { 0 => Literal::character(vp::any::<char>()), 1 => Literal::byte_character(vp::any::<u8>()), 2 => Literal::u8_suffixed(vp::any::<u8>()), 3 => Literal::f64_unsuffixed(1.5), 4 => Literal::i32_unsuffixed(-1), _ => { match ["'\"'", "b'\"'", "1.0e5", "0x1f", "'r'", "b'r'", "0b1"][k - 5].parse::<Literal>() { Ok(l) => l, Err(_) => vp::fail("a valid literal is rejected") } } };
    other(l.str_value());
    other(l.byte_str_value());
    other(l.cstr_value());
}
/// Constructed literals give their argument back.
pub fn ob_c24_constructed() {
    let k = vp::choose(140);
    let mut s = String::from(["", "0", "\\"][vp::choose(3)]);
    s.push(if k < 128 { k as u8 as char } else { WIDE[k - 128] });
    s.push_str(["", "7", "\u{301}"][vp::choose(3)]);
    vp::input_str("value", &s);
    match Literal::string(&s).str_value() { Ok(v) => vp::check(v == s, "str_value of Literal::string"), Err(_) => vp::fail("str_value of Literal::string") }
    other(Literal::string(&s).cstr_value());
}
pub fn ob_c24_constructed_bytes() {
    let b = [vp::choose(256) as u8, [97, 48, 0][vp::choose(3)]];
    vp::input("byte", &b[0]);
    match Literal::byte_string(&b).byte_str_value() { Ok(v) => vp::check(same(&v, &b), "byte_str_value of Literal::byte_string"), Err(_) => vp::fail("byte_str_value of Literal::byte_string") }
    other(Literal::byte_string(&b).str_value());
}
pub fn ob_c24_deep_body3() { let k = vp::choose(3); let b = h::any_text(3); cooked(k, &b) }
pub fn ob_c24_deep_escape3() { let k = vp::choose(3); let mut b = String::from("\\"); b.push_str(&h::any_text(3)); cooked(k, &b) }
/// A suffix makes it a literal of another kind; any one-character suffix.
pub fn ob_c24_suffix() {
    let mut s = String::from(["\"a\"", "b\"a\"", "c\"a\"", "r\"a\"", "br##\"a\"##", "cr#\"a\"#"][vp::choose(6)]);
    s.push(vp::any::<char>());
    s.push_str(["", "b"][vp::choose(2)]);
    vp::input_str("literal", &s);
    let l = match s.parse::<Literal>() { Ok(l) => l, Err(_) => vp::stop() };
    other(l.str_value());
    other(l.byte_str_value());
    other(l.cstr_value());
}
/// Long bodies, an arbitrary character at the end.
pub fn ob_c24_size() {
    vp::patience(60_000_000);
    let k = vp::choose(3);
    let mut b = String::new();
    let u = ["a", "\\n", "\\x41", "\n"][vp::choose(4)];
    let mut i = 0;
    while i < 1030 { b.push_str(u); i += 1; }
    b.push_str(["z", "\\q", "\\", "\\u{e9}", "\\xff", "\\\n  y"][vp::choose(6)]);
    cooked(k, &b)
}
