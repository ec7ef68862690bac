//! C16: text literal constructors denote their argument.
use crate::{h, vp};
use proc_macro2::*;
use std::ffi::CStr;
fn denotes(l: &Literal, kind: usize, want: &[u32], m: &str) {
    let t = l.to_string();
    match vp::decode(&t, kind) {
        Some(v) => { vp::check(v.len() == want.len(), m); let mut i = 0; while i < v.len() { vp::check(v[i] == want[i], m); i += 1; } }
        None => vp::fail(m),
    }
}
fn string(n: usize) {
    let mut s = String::new();
    let mut w = vec![];
    let mut i = 0;
    while i < n { let c = vp::any::<char>(); s.push(c); w.push(c as u32); i += 1; }
    vp::input_str("value", &s);
    denotes(&Literal::string(&s), 0, &w, "Literal::string does not denote its argument");
}
pub fn ob_c16_string() { string(vp::choose(4)) }
pub fn ob_c16_character() { let c = vp::any::<char>(); vp::input("value", &c); denotes(&Literal::character(c), 1, &[c as u32], "Literal::character does not denote its argument"); }
pub fn ob_c16_byte_character() { let c = vp::any::<u8>(); vp::input("value", &c); denotes(&Literal::byte_character(c), 2, &[c as u32], "Literal::byte_character does not denote its argument"); }
pub fn ob_c16_byte_string() {
    let n = vp::choose(4);
    let mut b = vec![];
    let mut w = vec![];
    let mut i = 0;
    while i < n { let c = vp::any::<u8>(); vp::input("byte", &c); b.push(c); w.push(c as u32); i += 1; }
    denotes(&Literal::byte_string(&b), 3, &w, "Literal::byte_string does not denote its argument");
}
/// Long arguments: nothing depends on the length.
pub fn ob_c16_long() {
    let n = [40, 70, 130, 260, 520, 1030][vp::choose(6)];
    let mut s = String::new();
    let mut b = vec![];
    let mut w = vec![];
    let mut i = 0;
    while i < n { s.push('a'); b.push(b'a'); w.push(97); i += 1; }
    let c = vp::any_range::<u8>(0, 127);
    s.push(c as char); b.push(c); w.push(c as u32);
    s.push('z'); b.push(b'z'); w.push(122);
    denotes(&Literal::string(&s), 0, &w, "Literal::string does not denote its argument");
    denotes(&Literal::byte_string(&b), 3, &w, "Literal::byte_string does not denote its argument");
}
pub fn ob_c16_c_string() {
    let n = vp::choose(3);
    let mut s = String::new();
    let mut w = vec![];
    let mut i = 0;
    while i < n { let c = vp::any::<char>(); vp::assume(c != '\0'); s.push(c); w.push(c as u32); i += 1; }
    vp::input_str("value", &s);
    let c = vp::cstr(s.as_bytes());
    denotes(&Literal::c_string(c), 4, &w, "Literal::c_string does not denote its argument");
}
/// Bytes that are not UTF-8, alone and between characters.
pub fn ob_c16_c_string_bytes() {
    let form = vp::choose(5);
    let b = vp::any_range::<u8>(0x80, 0xff);
    let a = vp::any_range::<u8>(0x01, 0x7f);
    let raw = |b: u8| b as u32 + (1 << 24);
    let k = 0xc0u8; // never valid in UTF-8
    let (bytes, want): (Vec<u8>, Vec<u32>) = match form {
        0 => (vec![b], vec![raw(b)]),
        1 => (vec![a, b, a], vec![a as u32, raw(b), a as u32]),
        2 => (vec![k, b, a], vec![raw(k), raw(b), a as u32]),
        3 => (vec![b, k, a, k], vec![raw(b), raw(k), a as u32, raw(k)]),
        _ => (vec![a, a, b], vec![a as u32, a as u32, raw(b)]),
    };
    vp::input("bytes", &bytes);
    denotes(&Literal::c_string(vp::cstr(&bytes)), 4, &want, "Literal::c_string does not denote its argument");
}
/// Truncated multi-byte sequences and characters next to them.
pub fn ob_c16_c_string_partial() {
    let raw = |b: u8| b as u32 + (1 << 24);
    let form = vp::choose(6);
    let (bytes, want): (&[u8], Vec<u32>) = match form {
        0 => (b"\xe2\x82a", vec![raw(0xe2), raw(0x82), 97]),
        1 => (b"\xe2\x82\xac", vec![0x20ac]),
        2 => (b"\xc3\xa9\xc3", vec![0xe9, raw(0xc3)]),
        3 => (b"\xf0\x9f\x98", vec![raw(0xf0), raw(0x9f), raw(0x98)]),
        4 => (b"\xf0\x9f\x98\x80\xff\xcc\x81", vec![0x1f600, raw(0xff), 0x301]),
        _ => (b"a\xed\xa0\x80b", vec![97, raw(0xed), raw(0xa0), raw(0x80), 98]),
    };
    denotes(&Literal::c_string(vp::cstr(bytes)), 4, &want, "Literal::c_string does not denote its argument");
}
/// Literals made from doc comments denote the comment's text.
pub fn ob_c16_doc() {
    let block = vp::choose(2) == 1;
    let n = vp::choose(3);
    let mut s = String::from(if block { "/** " } else { "/// " });
    let mut w = vec![32];
    let mut i = 0;
    while i < n { let c = vp::any::<char>(); vp::assume(c != '\n' && c != '\r' && c != '*' && c != '/'); s.push(c); w.push(c as u32); i += 1; }
    s.push_str(if block { " */" } else { "\n" });
    if block { w.push(32); }
    vp::input_str("source", &s);
    match s.parse::<TokenStream>() {
        Ok(t) => match t.into_iter().last() {
            Some(TokenTree::Group(g)) => match g.stream().into_iter().last() { Some(TokenTree::Literal(l)) => denotes(&l, 0, &w, "the literal of a doc comment does not denote its text"), _ => vp::fail("a doc attribute ends with a literal") },
            _ => vp::fail("a doc comment becomes an attribute"),
        },
        Err(_) => vp::fail("a doc comment is rejected"),
    }
}
