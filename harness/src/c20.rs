//! C20: spans of parsed tokens (span locations on).
use crate::{h, reflex::*, vp};
use proc_macro2::*;
fn bytes(src: &Src, n: usize) -> usize { let (mut b, mut i) = (0, 0); while i < n { b += src.c[i].len_utf8(); i += 1; } b }
fn line_col(src: &Src, n: usize) -> (usize, usize) { let (mut l, mut c, mut i) = (1, 0, 0); while i < n { if src.c[i] == '\n' { l += 1; c = 0; } else { c += 1; } i += 1; } (l, c) }
fn located(s: Span, lo: usize, hi: usize, src: &Src) {
    let r = s.byte_range();
    vp::check(r.start == bytes(src, lo) && r.end == bytes(src, hi), "a token's byte range is not that of its characters");
    match s.source_text() { Some(t) => vp::check(t == src.text(lo, hi), "a token's source text is not its characters"), None => vp::fail("a parsed token has no source text") }
    let (a, b) = (s.start(), s.end());
    vp::check((a.line, a.column) == line_col(src, lo), "a token's start is not the line and column of its first character");
    vp::check((b.line, b.column) == line_col(src, hi), "a token's end is not the line and column behind its last character");
}
/// Parse `s` and compare every span; the spans are asked in the order of the text, backwards, or innermost first.
fn spans(s: &str, order: usize) {
    vp::input_str("source", s);
    let src = Src::new(s);
    match (s.parse::<TokenStream>(), src.lex()) {
        (Ok(t), Some(w)) => {
            let mut all: Vec<(Span, usize, usize)> = vec![];
            same(t, &w, &src, &mut |s, lo, hi| all.push((s, lo, hi)));
            let n = all.len();
            let mut i = 0;
            while i < n {
                let k = match order { 0 => i, 1 => n - 1 - i, _ => if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 } };
                let (s, lo, hi) = all[k];
                located(s, lo, hi, &src);
                i += 1;
            }
        }
        (Err(e), None) => {
            let r = e.span().byte_range();
            vp::check(r.start <= r.end && r.end <= s.len(), "the span of an error is outside the text");
            let (a, n) = (e.span().start(), line_col(&src, src.c.len()).0);
            vp::check(a.line >= 1 && a.line <= n, "the span of an error is outside the text");
            match e.span().source_text() { Some(_) => vp::check(true, ""), None => vp::fail("the span of an error is not in the text") }
        }
        _ => vp::stop(),
    }
}
pub fn ob_c20_any2() { let s = h::any_upto(2); spans(&s, 0) }
pub fn ob_c20_deep_any3() { let s = h::any_text(3); spans(&s, 0) }
const P: [&str; 24] = ["a", "\u{e9}", "\u{1d4d0}", "+", "1.5", "\"\u{1f600}\"", "'\u{20ac}'", " ", "\n", "\r\n", "(", ")", "{", "}", "/// \u{e9}\n", "/** d\n */", "/* \u{e9}\n */", "// c\n", "'a", "r#b", "\"\n\"", "\u{3000}", "==", "\u{200e}"];
fn seq(n: usize, order: usize) { let mut s = String::new(); let mut i = 0; while i < n { s.push_str(P[vp::choose(24)]); i += 1; } spans(&s, order) }
pub fn ob_c20_seq2() { seq(2, vp::choose(3)) }
pub fn ob_c20_seq3() { seq(3, 2) }
pub fn ob_c20_deep_seq4() { seq(4, 1) }
/// Nested groups, asked in every order.
pub fn ob_c20_groups() {
    let mut s = String::from(["", "\u{feff}", "\n", "\u{e9} ", "\u{1f600}"][vp::choose(4)]);
    s.push_str(["(", "( ", "[\n", "{\u{a0}"][vp::choose(4)]);
    s.push_str(["", "x", "\u{e9}[\u{1d4d0}]", "(\n)", "/**\u{e9}*/"][vp::choose(5)]);
    s.push_str([")", "]", "\n}"][vp::choose(3)]);
    s.push_str(["", " y", "\u{e9}"][vp::choose(3)]);
    spans(&s, vp::choose(3))
}
/// Deep nests, with tokens before, inside and after every level.
pub fn ob_c20_nest() {
    let n = [4, 7][vp::choose(2)];
    let (pre, post) = (["", "\u{e9} ", "\n"][vp::choose(3)], ["", "x", " \u{1d4d0}\n"][vp::choose(3)]);
    let mut s = String::new();
    let mut i = 0;
    while i < n { s.push_str(pre); s.push_str(["(", "[", "{"][i % 3]); i += 1; }
    while i > 0 { i -= 1; s.push_str(post); s.push_str([")", "]", "}"][i % 3]); }
    s.push_str(post);
    spans(&s, vp::choose(3))
}
/// A long text of many lines: positions by arithmetic.
pub fn ob_c20_long() {
    let n = 60;
    let mut s = String::new();
    let mut i = 0;
    while i < n { s.push_str("\u{e9}b =\n \u{1d4d0};"); i += 1; }
    let mut it = match s.parse::<TokenStream>() { Ok(t) => t.into_iter(), Err(_) => vp::fail("a valid text is rejected") };
    let mut v = vec![];
    while let Some(t) = it.next() { v.push(t.span()); }
    vp::check(v.len() == 4 * n, "a token is lost");
    let mut j = 0;
    while j < 2 {
        let k = [0, 1, 17, 42, n - 1][vp::choose(5)];
        // bytes 12 and characters 8 a unit; tokens at bytes 0..3, 4..5, 7..11, 11..12
        let (a, b, c, d) = (v[4 * k], v[4 * k + 1], v[4 * k + 2], v[4 * k + 3]);
        let at = |s: Span, lo: usize, hi: usize, line: usize, col: usize, end: usize| {
            let r = s.byte_range();
            vp::check(r.start == 12 * k + lo && r.end == 12 * k + hi, "byte range in a long text");
            let (x, y) = (s.start(), s.end());
            vp::check(x.line == line && x.column == col && y.line == line && y.column == end, "line and column in a long text");
        };
        let off = if k == 0 { 0 } else { 3 };
        at(a, 0, 3, k + 1, off, off + 2);
        at(b, 4, 5, k + 1, off + 3, off + 4);
        at(c, 7, 11, k + 2, 1, 2);
        at(d, 11, 12, k + 2, 2, 3);
        j += 1;
    }
}
/// An arbitrary character among tokens: every width in every position.
pub fn ob_c20_between() { let mut s = String::from(["", "a", "\n"][vp::choose(3)]); s.push(vp::any::<char>()); s.push_str(["", "b", "\u{e9} c"][vp::choose(3)]); spans(&s, vp::choose(3)) }
pub fn ob_c20_inside() { let mut s = String::from(["\"", "'", "/* ", "/// ", "/** "][vp::choose(5)]); s.push(vp::any::<char>()); s.push_str(["\" x", "' x", " */ x", "\nx"][vp::choose(4)]); spans(&s, vp::choose(3)) }
/// Many tokens, asked from both ends: the cache of offsets.
pub fn ob_c20_cache() {
    let u = ["a ", "\u{e9} ", "\u{1d4d0}+\n", "\u{3000}x"][vp::choose(4)];
    let mut s = String::new();
    let mut i = 0;
    while i < 9 { s.push_str(u); i += 1; }
    s.push_str("\u{20ac}");
    s.truncate(s.len() - 3);
    spans(&s, vp::choose(3))
}
pub fn ob_c20_cache_order() {
    let s = "a \u{e9} \u{1d4d0} b\n\u{e9}\u{e9} c";
    let src = Src::new(s);
    let w = match src.lex() { Some(w) => w, None => vp::fail("reference") };
    let t = match s.parse::<TokenStream>() { Ok(t) => t, Err(_) => vp::fail("a valid text is rejected") };
    let mut all: Vec<(Span, usize, usize)> = vec![];
    same(t, &w, &src, &mut |s, lo, hi| all.push((s, lo, hi)));
    let mut i = 0;
    while i < 4 { let (s, lo, hi) = all[vp::choose(6)]; located(s, lo, hi, &src); i += 1; }
}
/// A literal parsed on its own.
pub fn ob_c20_literal() {
    let mut s = String::from(["\"", "-1", "1", "'", "b'", "r\""][vp::choose(6)]);
    s.push_str(&h::any_upto(1));
    s.push_str(["", "\"", "'", "u8"][vp::choose(4)]);
    vp::input_str("source", &s);
    let src = Src::new(&s);
    match s.parse::<Literal>() { Ok(l) => located(l.span(), 0, src.c.len(), &src), Err(e) => { let _ = e.span().byte_range(); vp::check(true, "") } }
}
/// Error spans of rejected streams.
pub fn ob_c20_errors() {
    let mut s = String::from(["", "a ", "\u{e9}\n", "(", "\u{1f600}", "[ \u{20ac} "][vp::choose(6)]);
    s.push_str([")", "(", "\"", "'", "/*", "]", "}", "\u{0}", "0b2", "r#self"][vp::choose(10)]);
    s.push_str(["", " b", "\n"][vp::choose(3)]);
    spans(&s, 0)
}
/// Positions order by line, then column, and are equal iff both agree.
pub fn ob_c20_order() {
    let v = |k: usize| [0usize, 1, 2, 255, 256, 65536, 1 << 32, usize::MAX][k];
    let (a, b) = (LineColumn { line: v(vp::choose(8)), column: v(vp::choose(8)) }, LineColumn { line: v(vp::choose(8)), column: v(vp::choose(8)) });
    let lt = a.line < b.line || (a.line == b.line && a.column < b.column);
    let eq = a.line == b.line && a.column == b.column;
    let want = if lt { std::cmp::Ordering::Less } else if eq { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater };
    vp::check(a.cmp(&b) == want && a.partial_cmp(&b) == Some(want), "positions do not order by line, then column");
    vp::check((a == b) == eq && (a != b) != eq, "equality of positions");
    vp::check((a < b) == lt && (a <= b) == (lt || eq), "comparison of positions");
    vp::check(a.max(b) == if lt || eq { b } else { a }, "max of positions");
}
