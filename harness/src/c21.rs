//! C21: span algebra (span locations on).
use crate::{h, reflex::*, vp};
use proc_macro2::*;
use std::ops::Bound;
fn parse(s: &str) -> Vec<TokenTree> { match s.parse::<TokenStream>() { Ok(t) => { let mut v = vec![]; let mut it = t.into_iter(); while let Some(x) = it.next() { v.push(x); } v } Err(_) => vp::fail("a valid text is rejected") } }
fn text(s: Span) -> String { match s.source_text() { Some(t) => t, None => vp::fail("a span lost its source text") } }
fn is(s: Span, lo: usize, hi: usize, of: &str, m: &str) { let r = s.byte_range(); vp::check(r.start == lo && r.end == hi, m); vp::check(text(s) == of[lo..hi], m); }
const TEXTS: [&str; 5] = ["a bc+ d", "\u{e9} \u{1d4d0}b\n(c)", "x", "\"\u{20ac}\"  'l", "\n[\u{e9}{}]b"];
/// The spans of the tokens, of their contents and of their delimiters.
fn all_spans(v: &[TokenTree], out: &mut Vec<Span>) {
    let mut i = 0;
    while i < v.len() {
        out.push(v[i].span());
        if let TokenTree::Group(g) = &v[i] {
            out.push(g.span_open());
            out.push(g.span_close());
            let mut w = vec![];
            for t in g.stream() { w.push(t); }
            all_spans(&w, out);
        }
        i += 1;
    }
}
/// One of the spans of the text.
fn some_span(v: &[TokenTree]) -> (Span, usize, usize) {
    let mut all = vec![];
    all_spans(v, &mut all);
    let s = all[vp::choose(all.len())];
    let r = s.byte_range();
    (s, r.start, r.end)
}
fn min(a: usize, b: usize) -> usize { if a < b { a } else { b } }
fn max(a: usize, b: usize) -> usize { if a > b { a } else { b } }
pub fn ob_c21_join() {
    let of = TEXTS[vp::choose(5)];
    let v = parse(of);
    let ((a, al, ah), (b, bl, bh)) = (some_span(&v), some_span(&v));
    let j = match a.join(b) { Some(j) => j, None => vp::fail("join of two spans of one parse is None") };
    is(j, min(al, bl), max(ah, bh), of, "join does not cover exactly both spans");
    is(a, al, ah, of, "join changes its receiver");
}
/// Joined spans join again.
pub fn ob_c21_join3() {
    let of = TEXTS[4];
    let v = parse(of);
    let ((a, al, ah), (b, bl, bh), (c, cl, ch)) = (some_span(&v), some_span(&v), some_span(&v));
    let j = match a.join(b) { Some(j) => j, None => vp::fail("join of two spans of one parse is None") };
    let (x, y) = match (j.join(c), c.join(j)) { (Some(x), Some(y)) => (x, y), _ => vp::fail("join of two spans of one parse is None") };
    let (lo, hi) = (min(min(al, bl), cl), max(max(ah, bh), ch));
    is(x, lo, hi, of, "join of a joined span does not cover exactly both spans");
    is(y, lo, hi, of, "join with a joined span does not cover exactly both spans");
}
pub fn ob_c21_join_other() {
    let (i, j) = (vp::choose(5), vp::choose(5));
    let (v, w) = (parse(TEXTS[i]), parse(TEXTS[j]));
    let (a, b) = (some_span(&v).0, some_span(&w).0);
    vp::check(a.join(b).is_none() && b.join(a).is_none(), "join of spans of different parses is not None");
    vp::check(a.join(Span::call_site()).is_none() && Span::mixed_site().join(b).is_none(), "join with the call site is not None");
}
fn bound(k: usize, x: usize) -> Bound<usize> { match k { 0 => Bound::Included(x), 1 => Bound::Excluded(x), _ => Bound::Unbounded } }
fn sub(l: &Literal, base: usize, of: &str, n: usize) {
    let (ka, kb) = (vp::choose(3), vp::choose(3));
    let (a, b) = (vp::any::<usize>(), vp::any::<usize>());
    vp::input("start", &a); vp::input("end", &b);
    let lo = match ka { 0 => a as u128, 1 => a as u128 + 1, _ => 0 };
    let hi = match kb { 0 => b as u128 + 1, 1 => b as u128, _ => n as u128 };
    let fits = lo <= hi && hi <= n as u128;
    match l.subspan((bound(ka, a), bound(kb, b))) {
        None => vp::check(!fits, "subspan of an in-bounds range is None"),
        Some(s) => {
            vp::check(fits, "subspan of an out-of-bounds range is not None");
            let (mut x, mut y) = (0, 0);
            while x as u128 != lo { x += 1; vp::assume(x <= n); }
            while y as u128 != hi { y += 1; vp::assume(y <= n); }
            let src = Src::new(of);
            vp::check(text(s) == src.text(base + x, base + y), "subspan covers other characters");
        }
    }
}
/// Every pair of bounds of every kind.
pub fn ob_c21_subspan() {
    let k = vp::choose(3);
    let of = ["\"ab\"", "x = \u{e9} 12", "'\u{20ac}' b"][k];
    let v = parse(of);
    let (i, base, n) = [(0, 0, 4), (3, 6, 2), (0, 0, 3)][k];
    match &v[i] { TokenTree::Literal(l) => sub(l, base, of, n), _ => vp::fail("literal expected") }
}
/// A literal that was not parsed.
pub fn ob_c21_subspan_call_site() {
    let l = Literal::string("abc");
    let (a, b) = (vp::any::<usize>(), vp::any::<usize>());
    match l.subspan(a..b) { Some(s) => { vp::check(a == 0 && b == 0, "subspan of an out-of-bounds range is not None"); vp::check(s.source_text().is_none(), "a call-site span has source text"); } None => vp::check(a != 0 || b != 0, "subspan of an in-bounds range is None") }
}
/// The literal set to another span: subspan is relative to the span it has.
pub fn ob_c21_subspan_moved() {
    let v = parse("abc \"x\" defg");
    let mut l = Literal::string("x");
    l.set_span(v[2].span());
    match l.subspan(1..3) { Some(s) => vp::check(text(s) == "ef", "subspan is not relative to the literal's span"), None => vp::fail("subspan of an in-bounds range is None") }
    vp::check(l.subspan(0..5).is_none() && l.subspan(4..5).is_none(), "subspan of an out-of-bounds range is not None");
    match l.subspan(..) { Some(s) => vp::check(text(s) == "defg", "the full subspan is not the literal's span"), None => vp::fail("subspan of an in-bounds range is None") }
}
fn same_place(a: Span, b: Span) -> bool { let (x, y) = (a.byte_range(), b.byte_range()); x.start == y.start && x.end == y.end && a.source_text() == b.source_text() && format_span(a) == format_span(b) }
fn format_span(a: Span) -> (usize, usize, usize, usize) { let (x, y) = (a.start(), a.end()); (x.line, x.column, y.line, y.column) }
pub fn ob_c21_resolved() {
    let (v, w) = (parse(TEXTS[0]), parse(TEXTS[1]));
    let i = vp::choose(3);
    let j = vp::choose(3);
    let (a, b) = (if i == 2 { Span::call_site() } else { v[i].span() }, if j == 2 { Span::mixed_site() } else { w[j].span() });
    vp::check(same_place(a.resolved_at(b), a), "resolved_at does not keep the receiver's location");
    vp::check(same_place(a.located_at(b), b), "located_at does not take the argument's location");
}
/// The span is the one last set.
pub fn ob_c21_set() {
    let v = parse("ab (c) + \"d\" e [ ]");
    let a = v[4].span();
    let k = vp::choose(9);
    let form = vp::choose(4);
    let b = if form == 0 { v[0].span() } else { v[1].span() };
    let mut t: TokenTree = match k { 0 => TokenTree::Ident(Ident::new("q", a)), 1 => v[1].clone(), 2 => v[2].clone(), 3 => v[3].clone(), 5 => v[5].clone(),
        6 => TokenTree::Punct(Punct::new(['+', '\'', ';'][vp::choose(3)], h::spacing(vp::choose(2)))),
        7 => TokenTree::Literal(match vp::choose(8) { 0 => Literal::string(""), 1 => Literal::character('x'), 2 => Literal::byte_string(b"x"), 3 => Literal::i32_unsuffixed(-7), 4 => Literal::u8_suffixed(7), 5 => Literal::f64_unsuffixed(1.5), 6 => Literal::byte_character(b'x'), _ => Literal::i8_suffixed(-7) }),
        8 => TokenTree::Ident(Ident::new_raw("fn", a)),
        _ => { let d = h::delim(vp::choose(4)); TokenTree::Group(Group::new(d, match vp::choose(3) { 0 => TokenStream::new(), 1 => TokenStream::from(v[1].clone()), _ => match &v[1] { TokenTree::Group(g) => g.stream(), _ => vp::fail("no group") } })) } };
    if k == 0 { vp::check(same_place(t.span(), a), "Ident::new does not take the span"); }
    if k == 4 { vp::check(t.span().source_text().is_none(), "a new group is at the call site"); }
    let before = t.clone();
    let old = t.span();
    match form {
        2 => match &mut t { TokenTree::Ident(x) => x.set_span(b), TokenTree::Group(x) => x.set_span(b), TokenTree::Punct(x) => x.set_span(b), TokenTree::Literal(x) => x.set_span(b) },
        3 => { t.set_span(v[2].span()); t.set_span(b) }
        _ => { t.set_span(Span::call_site()); t.set_span(b) }
    }
    vp::check(same_place(t.span(), b), "the span is not the one last set");
    vp::check(same_place(t.clone().span(), b), "a clone has another span");
    vp::check(same_place(before.span(), old), "set_span changes a clone");
    if let TokenTree::Group(g) = &t {
        if let Some(x) = g.stream().into_iter().next() { vp::check(text(x.span()) == "c" || text(x.span()) == "(c)", "set_span of a group changes its contents"); }
        let r = b.byte_range();
        let (o, c) = (g.span_open().byte_range(), g.span_close().byte_range());
        vp::check(o.start == r.start && o.end == r.start + 1, "the open span is not the first character of the group's span");
        vp::check(c.start == r.end - 1 && c.end == r.end, "the close span is not the last character of the group's span");
        vp::check(same_place(g.delim_span().join(), b), "DelimSpan::join is not the group's span");
        vp::check(same_place(g.delim_span().open(), g.span_open()) && same_place(g.delim_span().close(), g.span_close()), "DelimSpan differs from the group's spans");
    }
    if let TokenTree::Group(g) = &before { let mut it = g.stream().into_iter(); if let Some(t) = it.next() { vp::check(text(t.span()) == "c" || text(t.span()) == "(c)", "set_span of a group changes its contents"); } }
}
