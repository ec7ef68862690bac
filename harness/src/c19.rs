//! C19: printing of fallback streams.
use crate::{h, vp};
use proc_macro2::*;
/// A token and its text; `true` when nothing may separate it from the next token.
fn leaf(k: usize) -> (TokenTree, String, bool) {
    match k {
        0 => (TokenTree::Ident(Ident::new("ab", Span::call_site())), "ab".to_string(), false),
        1 => { let mut p = crate::c19::any_punct(); let c = p.as_char(); (TokenTree::Punct(p), c.to_string(), false) }
        2 => { let c = any_char(); (TokenTree::Punct(Punct::new(c, Spacing::Joint)), c.to_string(), true) }
        3 => (TokenTree::Literal(Literal::string("x y")), "\"x y\"".to_string(), false),
        _ => (TokenTree::Ident(Ident::new_raw("fn", Span::call_site())), "r#fn".to_string(), false),
    }
}
fn any_char() -> char { vp::any_char_in(&[(0x21, 0x21), (0x23, 0x27), (0x2a, 0x2f), (0x3a, 0x40), (0x5e, 0x5e), (0x7c, 0x7c), (0x7e, 0x7e)]) }
fn any_punct() -> Punct { Punct::new(any_char(), Spacing::Alone) }
fn wrap(k: usize, inner: &str) -> String {
    match k { 0 => String::from("(") + inner + ")", 1 => if inner.is_empty() { String::from("{ }") } else { String::from("{ ") + inner + " }" }, 2 => String::from("[") + inner + "]", _ => String::from(inner) }
}
fn token(depth: usize) -> (TokenTree, String, bool) {
    let k = vp::choose(if depth == 0 { 5 } else { 6 });
    if k < 5 { return leaf(k); }
    let d = vp::choose(4);
    let (s, t) = stream(2, depth - 1);
    (TokenTree::Group(Group::new(h::delim(d), s)), wrap(d, &t), false)
}
fn stream(max: usize, depth: usize) -> (TokenStream, String) {
    let n = vp::choose(max + 1);
    let (mut s, mut t, mut joint) = (TokenStream::new(), String::new(), true);
    let mut i = 0;
    while i < n {
        let (x, xt, j) = token(depth);
        if !joint { t.push(' '); }
        t.push_str(&xt);
        joint = j;
        s.extend(Some(x));
        i += 1;
    }
    (s, t)
}
pub fn ob_c19_flat() { let (s, t) = stream(4, 0); vp::check(s.to_string() == t, "Display of a stream"); }
pub fn ob_c19_nested() { let (s, t) = stream(2, 1); vp::check(s.to_string() == t, "Display of a stream with groups"); }
pub fn ob_c19_nested2() {
    let (a, b) = (vp::choose(4), vp::choose(4));
    let (s, t) = stream(1, 0);
    let g = Group::new(h::delim(a), TokenStream::from(TokenTree::Group(Group::new(h::delim(b), s))));
    let w = wrap(a, &wrap(b, &t));
    // a None group is never empty: it holds the inner group
    let w = if a == 1 && wrap(b, &t).is_empty() { String::from("{  }") } else { w };
    vp::check(g.to_string() == w, "Display of nested groups");
}
/// Each token prints the same text alone, in a tree and in a stream.
pub fn ob_c19_single() {
    let (x, t, _) = token(1);
    vp::check(x.to_string() == t, "Display of a token tree");
    match &x { TokenTree::Group(g) => vp::check(g.to_string() == t, "Display of a group"), TokenTree::Ident(g) => vp::check(g.to_string() == t, "Display of an ident"), TokenTree::Punct(g) => vp::check(g.to_string() == t, "Display of a punct"), TokenTree::Literal(g) => vp::check(g.to_string() == t, "Display of a literal") }
    vp::check(TokenStream::from(x).to_string() == t, "Display of a one-token stream");
}
/// Group accessors and independence of how the stream was built.
pub fn ob_c19_built() {
    let form = vp::choose(4);
    let (a, at, aj) = leaf(vp::choose(5));
    let (b, bt, _) = leaf(vp::choose(5));
    let w = at + if aj { "" } else { " " } + &bt;
    let s: TokenStream = match form { 0 => vec![a, b].into_iter().collect(), 1 => vec![TokenStream::from(a), TokenStream::from(b)].into_iter().collect(), 2 => { let mut s = TokenStream::from(a); s.extend(vec![b]); s } _ => { let mut s = TokenStream::new(); s.extend(vec![TokenStream::from(a), TokenStream::from(b)]); s } };
    vp::check(s.to_string() == w, "Display depends on how the stream was built");
}
/// Sequences of five tokens of every kind, groups among them.
fn piece(k: usize) -> (TokenTree, &'static str, bool) {
    let inner = |d: usize, x: Option<TokenTree>| TokenTree::Group(Group::new(h::delim(d), match x { Some(x) => TokenStream::from(x), None => TokenStream::new() }));
    let joint = || TokenTree::Punct(Punct::new('&', Spacing::Joint));
    let a = || TokenTree::Ident(Ident::new("a", Span::call_site()));
    match k {
        0 => (a(), "a", false),
        1 => (TokenTree::Punct(Punct::new('+', Spacing::Alone)), "+", false),
        2 => (joint(), "&", true),
        3 => (TokenTree::Literal(Literal::u8_suffixed(7)), "7u8", false),
        4 => (inner(0, Some(a())), "(a)", false),
        5 => (inner(1, Some(joint())), "{ & }", false),
        6 => (inner(2, None), "[]", false),
        7 => (inner(3, Some(joint())), "&", false),
        8 => (inner(1, None), "{ }", false),
        9 => (inner(3, None), "", false),
        10 => (TokenTree::Punct(Punct::new('\'', Spacing::Joint)), "'", true),
        _ => (TokenTree::Literal(Literal::character('x')), "'x'", false),
    }
}
fn pieces(n: usize, kinds: usize) {
    let (mut s, mut t, mut joint) = (TokenStream::new(), String::new(), true);
    let mut i = 0;
    while i < n {
        let (x, xt, j) = piece(vp::choose(kinds));
        if !joint { t.push(' '); }
        t.push_str(xt);
        joint = j;
        s.extend(Some(x));
        i += 1;
    }
    vp::input_str("expected", &t);
    let k = vp::choose(3);
    let (s, t) = if k == 2 { (s, t) } else { (TokenStream::from(TokenTree::Group(Group::new(h::delim(k), s))), if k == 1 { String::from("{ ") + &t + " }" } else { String::from("(") + &t + ")" }) };
    vp::check(s.to_string() == t, "Display of a stream of mixed tokens");
}
pub fn ob_c19_mixed() { pieces(4, 9) }
pub fn ob_c19_mixed3() { pieces(3, 12) }
pub fn ob_c19_deep_mixed5() { pieces(5, 12) }
/// Long streams with a period of up to two tokens.
pub fn ob_c19_long() {
    let (a, b) = (vp::choose(12), vp::choose(12));
    let (mut s, mut t, mut joint) = (TokenStream::new(), String::new(), true);
    let mut i = 0;
    while i < 24 {
        let (x, xt, j) = piece(if i % 2 == 0 { a } else { b });
        if !joint { t.push(' '); }
        t.push_str(xt);
        joint = j;
        s.extend(Some(x));
        i += 1;
    }
    vp::check(s.to_string() == t, "Display of a long stream");
}
/// Groups nested eight deep.
pub fn ob_c19_tower() {
    let (a, b, c) = (vp::choose(4), vp::choose(4), vp::choose(12));
    let (x, xt, _) = piece(c);
    let (mut s, mut t) = (TokenStream::from(x), String::from(xt));
    let mut i = 0;
    while i < 8 {
        let d = if i % 2 == 0 { a } else { b };
        s = TokenStream::from(TokenTree::Group(Group::new(h::delim(d), s)));
        t = match d { 1 => String::from("{ ") + &t + " }", _ => wrap(d, &t) };
        i += 1;
    }
    vp::check(s.to_string() == t, "Display of deeply nested groups");
}
