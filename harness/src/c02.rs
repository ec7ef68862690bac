//! C02: compiler-backed and fallback values are never silently mixed.
use crate::{c01::*, h, vp};
use proc_macro2::*;
use std::str::FromStr;
type PStream = proc_macro::TokenStream;
type PTree = proc_macro::TokenTree;
/// Runs `f` with the fallback backend forced.
pub fn fb<T>(f: impl FnOnce() -> T) -> T { fallback::force(); let x = f(); fallback::unforce(); x }
fn active(compiler: bool) { if compiler { fallback::unforce() } else { fallback::force() } }
pub fn is_c(s: Span) -> bool { h::catch(|| s.unwrap()).is_some() }
fn want(s: Span, c: bool, m: &str) { vp::check(is_c(s) == c, m) }
fn panics<T>(f: impl FnOnce() -> T, m: &str) { if h::catch(f).is_some() { vp::fail(m) } else { vp::check(true, m) } }
/// A fallback token of kind k.
pub fn ftree(k: usize) -> TokenTree {
    fb(|| match k {
        0 => TokenTree::Group(Group::new(Delimiter::Parenthesis, TokenStream::new())),
        1 => TokenTree::Ident(Ident::new("f", Span::call_site())),
        2 => TokenTree::Punct(Punct::new('+', Spacing::Alone)),
        _ => TokenTree::Literal(Literal::string("f")),
    })
}
pub fn fspan() -> Span { fb(|| Span::call_site()) }
fn tree(k: usize, c: bool) -> TokenTree { if c { wrap(ptree(k)) } else { ftree(k) } }
fn span(c: bool) -> Span { if c { sp("s") } else { fspan() } }
fn stream(c: bool) -> TokenStream { if c { TokenStream::from(vp::opaque_stream("stream")) } else { let t = ftree(1); fb(|| TokenStream::from(t)) } }
/// A stream of any kind: arbitrary or of one token, empty, with a token appended, or (fallback) parsed.
fn any_stream(c: bool) -> TokenStream { stream_of(c, vp::choose(4)) }
fn stream_of(c: bool, k: usize) -> TokenStream {
    match (k, c) {
        (0, _) => stream(c),
        (1, true) => TokenStream::from(PStream::new()),
        (1, false) => fb(TokenStream::new),
        (2, true) => { let mut s = TokenStream::from(PStream::new()); s.extend(Some(wrap(ptree(1)))); s }
        (2, false) => { let t = ftree(0); let mut s = fb(TokenStream::new); s.extend(Some(t)); s }
        (_, true) => TokenStream::from(PStream::from(ptree(0))),
        (_, false) => match fb(|| "{a} 'b -1".parse::<TokenStream>()) { Ok(s) => s, Err(_) => vp::fail("the parser rejects a plain text") },
    }
}
/// A span of a parsed token (fallback), or one of the compiler.
fn any_span(c: bool) -> Span {
    if c || vp::choose(2) == 0 { return span(c) }
    match fb(|| "ab c".parse::<TokenStream>()) { Ok(s) => match s.into_iter().next() { Some(t) => t.span(), None => vp::fail("a token is lost") }, Err(_) => vp::fail("the parser rejects a plain text") }
}
fn stream_backend(s: &TokenStream) -> bool { is_c(Group::new(Delimiter::None, s.clone()).span()) }
fn streams_in(s: &TokenStream, c: bool, m: &str) { vp::check(stream_backend(s) == c, m) }

/// Constructors that take no token use the active backend.
pub fn ob_c02_constructors() {
    start();
    let c = vp::choose(2) == 1;
    active(c);
    want(Span::call_site(), c, "Span::call_site");
    want(Span::mixed_site(), c, "Span::mixed_site");
    want(Punct::new('+', Spacing::Alone).span(), c, "Punct::new");
    streams_in(&TokenStream::new(), c, "TokenStream::new");
    streams_in(&TokenStream::default(), c, "TokenStream::default");
    streams_in(&Vec::<TokenTree>::new().into_iter().collect(), c, "collecting no tokens");
    streams_in(&Vec::<TokenStream>::new().into_iter().collect(), c, "collecting no streams");
    match "a".parse::<TokenStream>() { Ok(s) => streams_in(&s, c, "TokenStream::from_str"), Err(_) => vp::check(c, "the fallback parser rejects an identifier") }
    match h::catch(|| unsafe { Literal::from_str_unchecked("1") }) { Some(l) => want(l.span(), c, "Literal::from_str_unchecked"), None => vp::check(c, "the fallback panics on a literal") }
    match "1".parse::<Literal>() { Ok(l) => want(l.span(), c, "Literal::from_str"), Err(_) => vp::check(c, "the fallback parser rejects a literal") }
    vp::set_available(true);
}
macro_rules! lits { ($($n:ident $e:expr;)*) => { [$( Literal::$n($e).span() ),*] } }
pub fn ob_c02_literal_constructors() {
    start();
    let c = vp::choose(2) == 1;
    active(c);
    let l = lits! { u8_suffixed 1; u16_suffixed 1; u32_suffixed 1; u64_suffixed 1; u128_suffixed 1; usize_suffixed 1; i8_suffixed 1; i16_suffixed 1; i32_suffixed 1; i64_suffixed 1; i128_suffixed 1; isize_suffixed 1;
        u8_unsuffixed 1; u16_unsuffixed 1; u32_unsuffixed 1; u64_unsuffixed 1; u128_unsuffixed 1; usize_unsuffixed 1; i8_unsuffixed 1; i16_unsuffixed 1; i32_unsuffixed 1; i64_unsuffixed 1; i128_unsuffixed 1; isize_unsuffixed 1;
        string "s"; character 'c'; byte_character 1; byte_string b"x"; c_string vp::cstr(b"x"); f32_suffixed 1.5; f32_unsuffixed 1.5; f64_suffixed 1.5; f64_unsuffixed 1.5; };
    let mut i = 0;
    while i < l.len() { want(l[i], c, "a literal constructor does not use the active backend"); i += 1; }
}
#[cfg(procmacro2_semver_exempt)]
pub fn ob_c02_def_site() { start(); let c = vp::choose(2) == 1; active(c); want(Span::def_site(), c, "Span::def_site"); }

/// Operations on an existing value stay in its backend, whichever backend is active.
pub fn ob_c02_stays() {
    start();
    let (c, a) = (vp::choose(2) == 1, vp::choose(2) == 1);
    let s = any_span(c);
    let st = any_stream(c);
    let k = vp::choose(4);
    let t = tree(k, c);
    let n = Ident::new("x", s);
    active(a);
    want(s.resolved_at(span(c)), c, "resolved_at leaves its backend");
    want(s.located_at(span(c)), c, "located_at leaves its backend");
    want(Ident::new("n", s).span(), c, "Ident::new does not follow its span");
    want(Ident::new_raw("n", s).span(), c, "Ident::new_raw does not follow its span");
    want(n.clone().span(), c, "Ident clone leaves its backend");
    let g = Group::new(h::delim(vp::choose(4)), st.clone());
    want(g.span(), c, "Group::new does not follow its stream");
    want(g.span_open(), c, "Group::span_open");
    want(g.span_close(), c, "Group::span_close");
    streams_in(&g.stream(), c, "Group::stream leaves its backend");
    let d = g.delim_span();
    want(d.join(), c, "DelimSpan::join"); want(d.open(), c, "DelimSpan::open"); want(d.close(), c, "DelimSpan::close");
    want(t.span(), c, "TokenTree::span leaves its backend");
    streams_in(&vec![st.clone()].into_iter().collect(), c, "collecting streams leaves their backend");
    let mut t = t;
    t.set_span(s);
    want(t.span(), c, "set_span leaves its backend");
}
/// The tokens of a fallback stream stay fallback tokens while the compiler is active.
pub fn ob_c02_iterate_fallback() {
    start();
    let parsed = vp::choose(2) == 1;
    let a = vp::choose(2) == 1;
    let ts = [ftree(0), ftree(1), ftree(2), ftree(3)];
    let s = fb(|| if parsed { match "a {+ 'x} /// d\n 1 (".get(..17) { Some(t) => t.parse::<TokenStream>().ok(), None => None } } else { let mut s = TokenStream::new(); for t in ts { s.extend(Some(t)); } Some(s) });
    active(a);
    let s = match s { Some(s) => s, None => vp::fail("the parser rejects a plain text") };
    let mut n = 0;
    for t in s { want(t.span(), false, "a fallback stream yields a token of the compiler"); if let TokenTree::Group(g) = &t { for t in g.stream() { want(t.span(), false, "a fallback group yields a token of the compiler") } } n += 1; }
    vp::check(n >= 4, "tokens are missing");
}
/// Two values of different backends: panic, or None / false for join and eq.
pub fn ob_c02_spans() {
    start();
    let (c, a) = (vp::choose(2) == 1, vp::choose(2) == 1);
    let (x, y) = (any_span(c), any_span(!c));
    active(a);
    panics(|| x.resolved_at(y), "resolved_at mixes spans");
    panics(|| x.located_at(y), "located_at mixes spans");
    vp::check(x.join(y).is_none(), "join mixes spans");
    #[cfg(procmacro2_semver_exempt)]
    vp::check(!x.eq(&y), "spans of different backends are equal");
}
pub fn ob_c02_set_span() {
    start();
    let (c, a) = (vp::choose(2) == 1, vp::choose(2) == 1);
    let k = vp::choose(4);
    let direct = vp::choose(2) == 1;
    let mut t = tree(k, c);
    let s = any_span(!c);
    active(a);
    if k == 2 { t.set_span(s); want(t.span(), !c, "Punct::set_span ignores the span"); vp::stop(); }
    panics(|| if direct { t.set_span(s) } else { match &mut t { TokenTree::Group(x) => x.set_span(s), TokenTree::Ident(x) => x.set_span(s), TokenTree::Punct(x) => x.set_span(s), TokenTree::Literal(x) => x.set_span(s) } }, "set_span gives a token a span of the other backend or ignores it");
    want(t.span(), c, "a refused set_span changes the token");
}
pub fn ob_c02_idents() {
    start();
    let (c, a) = (vp::choose(2) == 1, vp::choose(2) == 1);
    let (x, y) = (Ident::new("f", span(c)), Ident::new("f", span(!c)));
    active(a);
    panics(|| x == y, "idents of different backends are compared");
    panics(|| x != y, "idents of different backends are compared");
    vp::check(h::catch(|| x.cmp(&y)).map_or(true, |o| o == x.to_string().cmp(&y.to_string())), "ordering of idents of different backends");
}
/// Appending a token of the other backend: a compiler stream panics, a fallback stream stores it unchanged.
pub fn ob_c02_append_token() {
    start();
    let k = vp::choose(4);
    let form = vp::choose(6);
    let t = ftree(k);
    // a punct is backend-neutral apart from its span
    match form {
        0 => panics(|| TokenStream::from(t), "a fallback token enters a compiler stream"),
        1 => { let mut s = any_stream(true); panics(|| s.extend(Some(t)), "a fallback token enters a compiler stream"); }
        2 => panics(|| vec![t].into_iter().collect::<TokenStream>(), "a fallback token enters a compiler stream"),
        3 => panics(|| vec![wrap(ptree(1)), t].into_iter().collect::<TokenStream>(), "a fallback token enters a compiler stream"),
        4 => { let mut s = any_stream(true); panics(|| match t { TokenTree::Group(x) => s.extend(Some(x)), TokenTree::Ident(x) => s.extend(Some(x)), TokenTree::Punct(x) => s.extend(Some(x)), TokenTree::Literal(x) => s.extend(Some(x)) }, "a fallback token enters a compiler stream"); }
        _ => { let mut s = any_stream(true); fallback::force(); panics(|| s.extend(vec![wrap(ptree(1)), t]), "a fallback token enters a compiler stream"); }
    }
}
pub fn ob_c02_append_to_fallback() {
    start();
    let k = vp::choose(4);
    let form = vp::choose(3);
    let p = ptree(k);
    let t = wrap(p.clone());
    let s = fb(|| match form { 0 => TokenStream::from(t), 1 => { let mut s = TokenStream::new(); s.extend(Some(t)); s } _ => vec![t].into_iter().collect() });
    vp::check(!is_c(Group::new(Delimiter::None, s.clone()).span()), "a fallback stream becomes a compiler stream");
    let mut it = s.into_iter();
    match it.next() { Some(t) => vp::check(vp::same(&unwrap(t), &p), "a compiler token stored in a fallback stream is changed"), None => vp::fail("a compiler token put into a fallback stream is dropped") }
    vp::check(it.next().is_none(), "a compiler token put into a fallback stream is duplicated");
}
pub fn ob_c02_append_stream() {
    start();
    let (c, a) = (vp::choose(2) == 1, vp::choose(2) == 1);
    let form = vp::choose(4);
    let (x, y, z) = (any_stream(c), any_stream(!c), stream(c));
    active(a);
    let mut x = x;
    match form {
        0 => panics(|| x.extend(Some(y)), "streams of different backends are joined"),
        1 => panics(|| vec![x, y].into_iter().collect::<TokenStream>(), "streams of different backends are joined"),
        2 => panics(|| vec![x, z, y].into_iter().collect::<TokenStream>(), "streams of different backends are joined"),
        _ => panics(|| x.extend(vec![z, y]), "streams of different backends are joined"),
    }
}
/// A fallback stream turned into a compiler stream is the compiler's parse of its printed text.
pub fn ob_c02_convert() {
    start();
    let k = vp::choose(5);
    let s = if k == 4 { fb(TokenStream::new) } else { let t = ftree(k); fb(|| TokenStream::from(t)) };
    let text = s.to_string();
    let p = match h::catch(|| PStream::from_str(&text)) { Some(Ok(p)) => Some(p), _ => None };
    match (h::catch(|| PStream::from(s)), p) { (Some(x), Some(p)) => vp::check(vp::same(&x, &p), "a fallback stream is converted to other tokens than its text"), (None, None) => vp::check(true, ""), _ => vp::fail("converting a fallback stream does not follow the compiler's parser") }
}
pub fn ob_c02_unwrap() { start(); let a = vp::choose(2) == 1; let s = fspan(); active(a); panics(|| s.unwrap(), "Span::unwrap of a fallback span"); panics(|| s.unstable(), "Span::unstable of a fallback span"); }
#[cfg(feature = "span-locations")]
pub fn ob_c02_invalidate() { start(); panics(proc_macro2::extra::invalidate_current_thread_spans, "invalidate_current_thread_spans inside a procedural macro"); }
/// The span of an error belongs to the backend that found it.
pub fn ob_c02_lexerror() {
    start();
    let c = vp::choose(2) == 1;
    active(c);
    let src = ["(", "a", "\"", "1", "]"][vp::choose(5)];
    let e = if vp::choose(2) == 1 { src.parse::<Literal>().err() } else { src.parse::<TokenStream>().err() };
    let Some(e) = e else { vp::stop() };
    want(e.span(), c, "LexError::span is of the other backend");
    if !c { fallback::unforce(); want(e.span(), false, "the span of a fallback error changes its backend"); }
}
/// Puncts made in one backend and used in the other.
pub fn ob_c02_punct() {
    start();
    let c = vp::choose(2) == 1;
    active(c);
    let p = Punct::new(',', Spacing::Joint);
    active(!c);
    want(p.span(), c, "a punct changes its backend");
    want(p.clone().span(), c, "a punct changes its backend when cloned");
    let t = TokenTree::from(p);
    if c { let s = TokenStream::from(t); streams_in(&s, false, "a stream made in the fallback is the compiler's"); match s.into_iter().next() { Some(t) => want(t.span(), true, "the compiler's span of a punct is lost in a fallback stream"), None => vp::fail("a punct is lost") } }
    else { panics(|| TokenStream::from(t), "a punct with a fallback span enters a compiler stream"); }
}
/// Cloned, moved and regrouped values stay in their backend whichever backend is active.
pub fn ob_c02_carry() {
    start();
    let (c, a) = (vp::choose(2) == 1, vp::choose(2) == 1);
    let k = vp::choose(4);
    let s = stream_of(c, k);
    active(a);
    streams_in(&s.clone(), c, "a cloned stream changes its backend");
    let g = Group::new(h::delim(vp::choose(4)), s);
    let t = TokenTree::from(g.clone());
    want(t.clone().span(), c, "a cloned group changes its backend");
    streams_in(&g.stream(), c, "the stream of a group changes its backend");
    if c { return }
    for x in g.stream() { want(x.span(), c, "a token of a stream is of the other backend"); }
}
