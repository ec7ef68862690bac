//! C18: negative literals entering fallback streams.
use crate::{h, vp};
use proc_macro2::*;
/// A literal with its text without the sign, and whether it is negative.
fn lit(k: usize) -> (Literal, &'static str, bool) {
    match k {
        0 => (Literal::i8_suffixed(-5), "5i8", true),
        1 => (Literal::i32_unsuffixed(-7), "7", true),
        2 => (Literal::f64_unsuffixed(-1.5), "1.5", true),
        3 => (match "-0x1F".parse() { Ok(l) => l, Err(_) => vp::fail("a negative literal is rejected") }, "0x1F", true),
        4 => (Literal::i64_suffixed(i64::MIN), "9223372036854775808i64", true),
        5 => (Literal::u8_suffixed(5), "5u8", false),
        6 => (Literal::string("-1"), "\"-1\"", false),
        7 => (Literal::character('-'), "'-'", false),
        8 => (unsafe { Literal::from_str_unchecked("-1.0f32") }, "1.0f32", true),
        9 => (Literal::isize_unsuffixed(0), "0", false),
        10 => (Literal::byte_string(b"-"), "b\"-\"", false),
        _ => (Literal::i128_suffixed(-1), "1i128", true),
    }
}
const LITS: usize = 12;
#[cfg(feature = "span-locations")]
fn some_span() -> Span { match "x".parse::<TokenStream>() { Ok(s) => match s.into_iter().next() { Some(t) => t.span(), None => vp::fail("no token") }, Err(_) => vp::fail("rejected") } }
#[cfg(not(feature = "span-locations"))]
fn some_span() -> Span { Span::call_site() }
fn same_span(a: Span, b: Span, m: &str) { vp::check(vp::same(&a, &b), m) }
fn expect_lit(it: &mut token_stream::IntoIter, text: &str, neg: bool, span: Span) {
    if neg {
        match it.next() {
            Some(TokenTree::Punct(p)) => { vp::check(p.as_char() == '-' && p.spacing() == Spacing::Alone, "a negative literal must start with an Alone minus"); same_span(p.span(), span, "the minus sign does not have the literal's span"); }
            _ => vp::fail("a negative literal enters a stream without a minus sign of its own"),
        }
    }
    match it.next() {
        Some(TokenTree::Literal(l)) => { vp::check(l.to_string() == text, "the literal behind the minus sign has another text"); same_span(l.span(), span, "the literal's span changes"); }
        _ => vp::fail("a literal enters a stream as another token"),
    }
}
fn add(form: usize, ts: Vec<TokenTree>) -> TokenStream {
    match form {
        0 => { let mut s = TokenStream::new(); for t in ts { s.extend(Some(t)); } s }
        1 => { let mut s = TokenStream::new(); s.extend(ts); s }
        2 => ts.into_iter().collect(),
        3 => ts.into_iter().map(TokenStream::from).collect(),
        4 => { let mut s = TokenStream::new(); for t in ts { s.extend(Some(TokenStream::from(t))); } s }
        5 => { let mut s = TokenStream::new(); for t in ts { match t { TokenTree::Group(x) => s.extend(Some(x)), TokenTree::Ident(x) => s.extend(Some(x)), TokenTree::Punct(x) => s.extend(Some(x)), TokenTree::Literal(x) => s.extend(Some(x)) } } s }
        6 => { let s: TokenStream = ts.into_iter().collect(); let c = s.clone(); let mut t = TokenStream::new(); t.extend(vec![s]); drop(c); t }
        _ => { let s: TokenStream = ts.into_iter().collect(); s.into_iter().collect() }
    }
}
pub fn ob_c18_one() {
    let (mut l, text, neg) = lit(vp::choose(LITS));
    let s = some_span();
    l.set_span(s);
    let form = vp::choose(8);
    let mut it = add(form, vec![TokenTree::Literal(l)]).into_iter();
    expect_lit(&mut it, text, neg, s);
    vp::check(it.next().is_none(), "extra tokens");
}
/// Two literals with an ident between: order and identity of all tokens.
pub fn ob_c18_order() {
    let (a, at, an) = lit(vp::choose(LITS));
    let (b, bt, bn) = lit(vp::choose(LITS));
    let form = vp::choose(8);
    let (sa, sb) = (a.span(), b.span());
    let mut it = add(form, vec![TokenTree::Literal(a), TokenTree::Ident(Ident::new("x", Span::call_site())), TokenTree::Punct(Punct::new('-', Spacing::Joint)), TokenTree::Literal(b), TokenTree::Group(Group::new(Delimiter::None, TokenStream::new()))]).into_iter();
    expect_lit(&mut it, at, an, sa);
    match it.next() { Some(TokenTree::Ident(i)) => vp::check(i == "x", "ident changed"), _ => vp::fail("the token after a literal is lost") }
    match it.next() { Some(TokenTree::Punct(p)) => vp::check(p.as_char() == '-' && p.spacing() == Spacing::Joint, "punct changed"), _ => vp::fail("the token after a literal is lost") }
    expect_lit(&mut it, bt, bn, sb);
    match it.next() { Some(TokenTree::Group(g)) => vp::check(g.delimiter() == Delimiter::None && g.stream().is_empty(), "group changed"), _ => vp::fail("the token after a literal is lost") }
    vp::check(it.next().is_none(), "extra tokens");
}
/// Appending to a stream that is shared with a clone.
pub fn ob_c18_shared() {
    let (l, text, neg) = lit(vp::choose(LITS));
    let sp = l.span();
    let mut s = TokenStream::new();
    s.extend(Some(TokenTree::Ident(Ident::new("a", Span::call_site()))));
    let c = s.clone();
    s.extend(vec![TokenTree::Literal(l.clone()), TokenTree::Literal(l)]);
    vp::check(c.to_string() == "a", "a clone changes");
    let mut it = s.into_iter();
    let _ = it.next();
    expect_lit(&mut it, text, neg, sp);
    expect_lit(&mut it, text, neg, sp);
    vp::check(it.next().is_none(), "extra tokens");
}
/// The literal itself keeps its sign until it enters a stream.
pub fn ob_c18_sign_kept() { let (l, text, neg) = lit(vp::choose(LITS)); let w = if neg { String::from("-") + text } else { String::from(text) }; vp::check(l.to_string() == w && TokenTree::Literal(l).to_string() == w, "a literal outside a stream must keep its text"); }
/// Every integer: the sign decides.
pub fn ob_c18_any_int() {
    let n = vp::any::<i32>();
    vp::input("value", &n);
    let mut it = TokenStream::from(TokenTree::Literal(Literal::i32_suffixed(n))).into_iter();
    let first = it.next();
    if n < 0 { match first { Some(TokenTree::Punct(p)) => vp::check(p.as_char() == '-' && p.spacing() == Spacing::Alone, "a negative literal must start with an Alone minus"), _ => vp::fail("a negative literal enters a stream without a minus sign of its own") } vp::check(matches!(it.next(), Some(TokenTree::Literal(_))), "the literal is lost"); }
    else { match first { Some(TokenTree::Literal(l)) => vp::check(l.to_string() == n.to_string() + "i32", "the literal has another text"), _ => vp::fail("a literal enters a stream as another token") } }
    vp::check(it.next().is_none(), "extra tokens");
}
