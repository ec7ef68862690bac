//! C01: the compiler backend forwards every operation.
use crate::{h, vp};
use proc_macro2::*;
use std::str::FromStr;
type PStream = proc_macro::TokenStream;
type PTree = proc_macro::TokenTree;
type PSpan = proc_macro::Span;

pub fn start() { vp::set_available(true); }
pub fn pspan(n: &str) -> PSpan { vp::opaque::<PSpan>(n) }
pub fn sp(n: &str) -> Span { Span::from(pspan(n)) }
pub fn psp(n: usize) -> proc_macro::Spacing { if n == 0 { proc_macro::Spacing::Alone } else { proc_macro::Spacing::Joint } }
pub fn pdelim(k: usize) -> proc_macro::Delimiter { match k { 0 => proc_macro::Delimiter::Parenthesis, 1 => proc_macro::Delimiter::Brace, 2 => proc_macro::Delimiter::Bracket, _ => proc_macro::Delimiter::None } }
const PUNCT: [char; 22] = ['!', '#', '$', '%', '&', '\'', '*', '+', ',', '-', '.', '/', ':', ';', '<', '=', '>', '?', '@', '^', '|', '~'];
pub fn any_punct_char() -> char { vp::any_char_in(&[(0x21, 0x21), (0x23, 0x27), (0x2a, 0x2f), (0x3a, 0x40), (0x5e, 0x5e), (0x7c, 0x7c), (0x7e, 0x7e)]) }
/// A compiler token of kind k.
pub fn ptree(k: usize) -> PTree {
    match k {
        0 => PTree::Group(vp::opaque::<proc_macro::Group>("group")),
        1 => PTree::Ident(vp::opaque::<proc_macro::Ident>("ident")),
        2 => { let mut p = proc_macro::Punct::new(any_punct_char(), psp(vp::choose(2))); p.set_span(pspan("punct_span")); PTree::Punct(p) }
        _ => PTree::Literal(vp::opaque::<proc_macro::Literal>("literal")),
    }
}
pub fn wrap(t: PTree) -> TokenTree { match TokenStream::from(PStream::from(t)).into_iter().next() { Some(t) => t, None => vp::fail("iterating a compiler stream loses its token") } }
pub fn unwrap(t: TokenTree) -> PTree { match PStream::from(TokenStream::from(t)).into_iter().next() { Some(t) => t, None => vp::fail("a token put into a compiler stream is lost") } }
pub fn group() -> (proc_macro::Group, Group) { let t = ptree(0); match (t.clone(), wrap(t)) { (PTree::Group(a), TokenTree::Group(b)) => (a, b), _ => vp::fail("a compiler group arrives as another kind of token") } }
pub fn ident() -> (proc_macro::Ident, Ident) { let t = ptree(1); match (t.clone(), wrap(t)) { (PTree::Ident(a), TokenTree::Ident(b)) => (a, b), _ => vp::fail("a compiler ident arrives as another kind of token") } }
pub fn literal() -> (proc_macro::Literal, Literal) { let t = ptree(3); match (t.clone(), wrap(t)) { (PTree::Literal(a), TokenTree::Literal(b)) => (a, b), _ => vp::fail("a compiler literal arrives as another kind of token") } }
fn same_span(a: Span, b: PSpan, m: &str) { vp::check(vp::same(&a.unwrap(), &b), m) }

/// Every kind of token passes through iteration and From unchanged.
pub fn ob_c01_token_roundtrip() {
    start();
    let k = vp::choose(4);
    let t = ptree(k);
    let w = wrap(t.clone());
    let kind = match &w { TokenTree::Group(_) => 0, TokenTree::Ident(_) => 1, TokenTree::Punct(_) => 2, TokenTree::Literal(_) => 3 };
    vp::check(kind == k, "iterating a compiler stream changes the kind of a token");
    let form = vp::choose(6);
    let u: PStream = match form {
        0 => TokenStream::from(w).into(),
        1 => { let mut s = TokenStream::new(); s.extend(Some(w)); s.into() }
        2 => vec![w].into_iter().collect::<TokenStream>().into(),
        3 => { let mut s = TokenStream::new(); s.extend(vec![TokenStream::from(w)]); s.into() }
        4 => vec![TokenStream::from(w)].into_iter().collect::<TokenStream>().into(),
        _ => { let mut s = TokenStream::new(); match w { TokenTree::Group(x) => s.extend(Some(x)), TokenTree::Ident(x) => s.extend(Some(x)), TokenTree::Punct(x) => s.extend(Some(x)), TokenTree::Literal(x) => s.extend(Some(x)) } s.into() }
    };
    vp::check(vp::same(&u, &PStream::from(t)), "a token does not survive the way through a compiler stream");
}
pub fn ob_c01_punct_fields() {
    start();
    let (c, j) = (any_punct_char(), vp::choose(2));
    let mut p = proc_macro::Punct::new(c, psp(j));
    p.set_span(pspan("s"));
    match wrap(PTree::Punct(p)) {
        TokenTree::Punct(p) => { vp::check(p.as_char() == c, "punct character changed"); vp::check(p.spacing() == h::spacing(j), "punct spacing changed"); same_span(p.span(), pspan("s"), "punct span changed") }
        _ => vp::fail("a compiler punct arrives as another kind of token"),
    }
}
pub fn ob_c01_punct_new() {
    start();
    let (c, j) = (any_punct_char(), vp::choose(2));
    let mut p = Punct::new(c, h::spacing(j));
    same_span(p.span(), PSpan::call_site(), "a new punct must have the compiler's call site span");
    p.set_span(sp("s"));
    same_span(p.span(), pspan("s"), "Punct::set_span");
    match unwrap(TokenTree::Punct(p)) {
        PTree::Punct(p) => { vp::check(p.as_char() == c, "punct character changed"); vp::check(p.spacing() == psp(j), "punct spacing changed"); vp::check(vp::same(&p.span(), &pspan("s")), "punct span changed") }
        _ => vp::fail("a punct becomes another kind of compiler token"),
    }
}
pub fn ob_c01_group_new() {
    start();
    let k = vp::choose(4);
    let s = vp::opaque_stream("stream");
    let form = vp::choose(3);
    let t = ptree(1);
    let mut st = TokenStream::from(s.clone());
    let mut e = s.clone();
    if form == 1 { st.extend(Some(wrap(t.clone()))); vp::pm_push(&mut e, t); }
    else if form == 2 { st.extend(Some(TokenStream::from(vp::opaque_stream("other")))); vp::pm_append(&mut e, vp::opaque_stream("other")); }
    let g = Group::new(h::delim(k), st);
    let want = PTree::Group(proc_macro::Group::new(pdelim(k), e));
    vp::check(vp::same(&unwrap(TokenTree::Group(g)), &want), "Group::new does not build the compiler group of the same delimiter and stream");
}
pub fn ob_c01_group() {
    start();
    let (p, g) = group();
    let k = match g.delimiter() { Delimiter::Parenthesis => 0, Delimiter::Brace => 1, Delimiter::Bracket => 2, Delimiter::None => 3 };
    let e = match p.delimiter() { proc_macro::Delimiter::Parenthesis => 0, proc_macro::Delimiter::Brace => 1, proc_macro::Delimiter::Bracket => 2, proc_macro::Delimiter::None => 3 };
    vp::check(k == e, "Group::delimiter");
    vp::check(vp::same(&PStream::from(g.stream()), &p.stream()), "Group::stream");
    same_span(g.span(), p.span(), "Group::span");
    same_span(g.span_open(), p.span_open(), "Group::span_open");
    same_span(g.span_close(), p.span_close(), "Group::span_close");
    let d = g.delim_span();
    same_span(d.join(), p.span(), "DelimSpan::join");
    same_span(d.open(), p.span_open(), "DelimSpan::open");
    same_span(d.close(), p.span_close(), "DelimSpan::close");
    vp::check(g.to_string() == p.to_string(), "Group Display");
    same_span(TokenTree::Group(g.clone()).span(), p.span(), "TokenTree::span");
    vp::check(TokenTree::Group(g).to_string() == p.to_string(), "TokenTree Display");
}
pub fn ob_c01_set_span() {
    start();
    let k = vp::choose(4);
    let t = ptree(k);
    let direct = vp::choose(2) == 1;
    let mut w = wrap(t.clone());
    let mut e = t;
    match &mut e { PTree::Group(x) => x.set_span(pspan("new")), PTree::Ident(x) => x.set_span(pspan("new")), PTree::Punct(x) => x.set_span(pspan("new")), PTree::Literal(x) => x.set_span(pspan("new")) }
    if direct { w.set_span(sp("new")); } else { match &mut w { TokenTree::Group(x) => x.set_span(sp("new")), TokenTree::Ident(x) => x.set_span(sp("new")), TokenTree::Punct(x) => x.set_span(sp("new")), TokenTree::Literal(x) => x.set_span(sp("new")) } }
    vp::check(vp::same(&unwrap(w), &e), "set_span");
}
pub fn ob_c01_ident() {
    start();
    let (p, i) = ident();
    same_span(i.span(), p.span(), "Ident::span");
    same_span(TokenTree::Ident(i.clone()).span(), p.span(), "TokenTree::span");
    vp::check(i.to_string() == p.to_string(), "Ident Display");
    vp::check(TokenTree::Ident(i.clone()).to_string() == p.to_string(), "TokenTree Display");
    let s = vp::opaque_string("text");
    vp::check((i == s) == (p.to_string() == s), "Ident == str");
    let c = i.clone();
    vp::check(vp::same(&unwrap(TokenTree::Ident(c)), &PTree::Ident(p)), "Ident clone");
}
pub fn ob_c01_ident_new() {
    start();
    let s = vp::opaque_string("name");
    let raw = vp::choose(2) == 1;
    let i = if raw { Ident::new_raw(&s, sp("s")) } else { Ident::new(&s, sp("s")) };
    let p = if raw { proc_macro::Ident::new_raw(&s, pspan("s")) } else { proc_macro::Ident::new(&s, pspan("s")) };
    vp::check(vp::same(&unwrap(TokenTree::Ident(i)), &PTree::Ident(p)), "Ident::new does not build the compiler's ident");
}
/// The same for fixed names, which an implementation can look into.
pub fn ob_c01_ident_fixed() {
    start();
    let n = [1, 64, 300][vp::choose(3)];
    let mut l = String::new();
    let mut i = 0;
    while i < n { l.push('x'); i += 1; }
    let s = ["a", "_", "r#a", "fn", "self", "r#self", "crate", "\u{e9}t\u{e9}", "$crate", "", "1", "a b", &l][vp::choose(13)];
    let raw = vp::choose(2) == 1;
    let i = if raw { Ident::new_raw(s, sp("s")) } else { Ident::new(s, sp("s")) };
    let p = if raw { proc_macro::Ident::new_raw(s, pspan("s")) } else { proc_macro::Ident::new(s, pspan("s")) };
    vp::check(vp::same(&unwrap(TokenTree::Ident(i)), &PTree::Ident(p)), "Ident::new does not build the compiler's ident");
}
/// Comparison of compiler idents with fixed texts.
pub fn ob_c01_ident_text() {
    start();
    let (p, i) = ident();
    let s = ["", "a", "r#a", "r#", "\u{e9}"][vp::choose(5)];
    vp::check((i == s) == (p.to_string() == s), "Ident == str");
    vp::check((i == String::from(s)) == (p.to_string() == s), "Ident == String");
}
pub fn ob_c01_literal() {
    start();
    let (p, l) = literal();
    same_span(l.span(), p.span(), "Literal::span");
    same_span(TokenTree::Literal(l.clone()).span(), p.span(), "TokenTree::span");
    vp::check(l.to_string() == p.to_string(), "Literal Display");
    vp::check(TokenTree::Literal(l.clone()).to_string() == p.to_string(), "TokenTree Display");
    vp::check(vp::same(&unwrap(TokenTree::Literal(l.clone())), &PTree::Literal(p)), "Literal clone");
}
fn lit_eq(l: Literal, p: proc_macro::Literal, m: &str) { vp::check(vp::same(&unwrap(TokenTree::Literal(l)), &PTree::Literal(p)), m) }
macro_rules! nums { ($($f:ident $t:ident $($n:ident)*;)*) => { $( pub fn $f() { start(); let n: $t = vp::any::<$t>(); $( lit_eq(Literal::$n(n), proc_macro::Literal::$n(n), stringify!($n)); )* } )* } }
nums! {
    ob_c01_lit_u8 u8 u8_suffixed u8_unsuffixed; ob_c01_lit_u16 u16 u16_suffixed u16_unsuffixed; ob_c01_lit_u32 u32 u32_suffixed u32_unsuffixed;
    ob_c01_lit_u64 u64 u64_suffixed u64_unsuffixed; ob_c01_lit_u128 u128 u128_suffixed u128_unsuffixed; ob_c01_lit_usize usize usize_suffixed usize_unsuffixed;
    ob_c01_lit_i8 i8 i8_suffixed i8_unsuffixed; ob_c01_lit_i16 i16 i16_suffixed i16_unsuffixed; ob_c01_lit_i32 i32 i32_suffixed i32_unsuffixed;
    ob_c01_lit_i64 i64 i64_suffixed i64_unsuffixed; ob_c01_lit_i128 i128 i128_suffixed i128_unsuffixed; ob_c01_lit_isize isize isize_suffixed isize_unsuffixed;
}
pub fn ob_c01_lit_float() {
    start();
    let (a, b) = (vp::opaque::<f32>("f"), vp::opaque::<f64>("d"));
    vp::assume(a.is_finite());
    vp::assume(b.is_finite());
    lit_eq(Literal::f32_suffixed(a), proc_macro::Literal::f32_suffixed(a), "f32_suffixed");
    lit_eq(Literal::f32_unsuffixed(a), proc_macro::Literal::f32_unsuffixed(a), "f32_unsuffixed");
    lit_eq(Literal::f64_suffixed(b), proc_macro::Literal::f64_suffixed(b), "f64_suffixed");
    lit_eq(Literal::f64_unsuffixed(b), proc_macro::Literal::f64_unsuffixed(b), "f64_unsuffixed");
}
pub fn ob_c01_lit_text() {
    start();
    let s = vp::opaque_string("text");
    lit_eq(Literal::string(&s), proc_macro::Literal::string(&s), "Literal::string");
    let c = vp::any::<char>();
    lit_eq(Literal::character(c), proc_macro::Literal::character(c), "Literal::character");
    let b = vp::any::<u8>();
    lit_eq(Literal::byte_character(b), proc_macro::Literal::byte_character(b), "Literal::byte_character");
    let v = [vp::any::<u8>(), vp::any::<u8>()];
    lit_eq(Literal::byte_string(&v), proc_macro::Literal::byte_string(&v), "Literal::byte_string");
    let c = vp::opaque::<&std::ffi::CStr>("cstr");
    lit_eq(Literal::c_string(c), proc_macro::Literal::c_string(c), "Literal::c_string");
}
/// The same for fixed texts, which an implementation can look into.
pub fn ob_c01_lit_fixed() {
    start();
    let s = ["", "a", "\0", "a\"b\\", "\u{e9}\u{1f600}", "\u{7f}\r\n", "r#\"x\"#"][vp::choose(7)];
    lit_eq(Literal::string(s), proc_macro::Literal::string(s), "Literal::string");
    lit_eq(Literal::byte_string(s.as_bytes()), proc_macro::Literal::byte_string(s.as_bytes()), "Literal::byte_string");
    if s != "\0" { let c = vp::cstr(s.as_bytes()); lit_eq(Literal::c_string(c), proc_macro::Literal::c_string(c), "Literal::c_string"); }
    let n = [0, 1, 63, 64, 65, 255, 256, 300][vp::choose(8)];
    let mut l = String::new();
    let mut i = 0;
    while i < n { l.push('x'); i += 1; }
    lit_eq(Literal::string(&l), proc_macro::Literal::string(&l), "Literal::string");
    lit_eq(Literal::byte_string(l.as_bytes()), proc_macro::Literal::byte_string(l.as_bytes()), "Literal::byte_string");
    let c = vp::cstr(l.as_bytes());
    lit_eq(Literal::c_string(c), proc_macro::Literal::c_string(c), "Literal::c_string");
}
pub fn ob_c01_span() {
    start();
    let (a, b) = (sp("a"), sp("b"));
    same_span(a, pspan("a"), "Span::from / unwrap");
    same_span(a.resolved_at(b), pspan("a").resolved_at(pspan("b")), "Span::resolved_at");
    same_span(a.located_at(b), pspan("a").located_at(pspan("b")), "Span::located_at");
    vp::check(vp::same(&a.source_text(), &pspan("a").source_text()), "Span::source_text");
    same_span(Span::call_site(), PSpan::call_site(), "Span::call_site");
    same_span(Span::mixed_site(), PSpan::mixed_site(), "Span::mixed_site");
    #[allow(deprecated)]
    { vp::check(vp::same(&a.unstable(), &pspan("a")), "Span::unstable"); }
}
#[cfg(feature = "span-locations")]
pub fn ob_c01_span_location() {
    start();
    let (a, p) = (sp("a"), pspan("a"));
    let s = a.start();
    vp::check(s.line == p.start().line(), "Span::start line");
    vp::check(s.column == p.start().column().saturating_sub(1), "Span::start column");
    let e = a.end();
    vp::check(e.line == p.end().line(), "Span::end line");
    vp::check(e.column == p.end().column().saturating_sub(1), "Span::end column");
    vp::check(vp::same(&a.file(), &p.file()), "Span::file");
    vp::check(vp::same(&a.local_file(), &p.local_file()), "Span::local_file");
}
#[cfg(all(pm2_nightly, feature = "span-locations"))]
pub fn ob_c01_span_bytes() { start(); vp::check(vp::same(&sp("a").byte_range(), &pspan("a").byte_range()), "Span::byte_range"); }
#[cfg(all(not(pm2_nightly), feature = "span-locations"))]
pub fn ob_c01_span_bytes() { start(); let r = sp("a").byte_range(); vp::check(r.start == 0 && r.end == 0, "Span::byte_range must be 0..0 where the compiler does not offer it"); }
fn opt_span(a: Option<Span>, b: Option<PSpan>, m: &str) { match (a, b) { (Some(a), Some(b)) => same_span(a, b, m), (None, None) => vp::check(true, m), _ => vp::check(false, m) } }
#[cfg(pm2_nightly)]
pub fn ob_c01_join() { start(); opt_span(sp("a").join(sp("b")), pspan("a").join(pspan("b")), "Span::join"); }
#[cfg(not(pm2_nightly))]
pub fn ob_c01_join() { start(); opt_span(sp("a").join(sp("b")), None, "Span::join must be None where the compiler does not offer it"); }
pub fn ob_c01_subspan() {
    start();
    let (p, l) = literal();
    let (a, b) = (vp::any::<usize>(), vp::any::<usize>());
    let form = vp::choose(5);
    let got = match form { 0 => l.subspan(a..b), 1 => l.subspan(a..), 2 => l.subspan(..b), 3 => l.subspan(..), _ => l.subspan(a..=b) };
    #[cfg(pm2_nightly)]
    let want = match form { 0 => p.subspan(a..b), 1 => p.subspan(a..), 2 => p.subspan(..b), 3 => p.subspan(..), _ => p.subspan(a..=b) };
    #[cfg(not(pm2_nightly))]
    let want: Option<PSpan> = { let _ = p; None };
    opt_span(got, want, "Literal::subspan");
}
pub fn ob_c01_stream() {
    start();
    let s = vp::opaque_stream("stream");
    let t = TokenStream::from(s.clone());
    vp::check(t.is_empty() == s.is_empty(), "TokenStream::is_empty");
    vp::check(t.to_string() == s.to_string(), "TokenStream Display");
    vp::check(vp::same(&PStream::from(t.clone()), &s), "TokenStream clone / conversion");
    vp::check(vp::same(&PStream::from(TokenStream::new()), &PStream::new()), "TokenStream::new");
    vp::check(vp::same(&PStream::from(TokenStream::default()), &PStream::new()), "TokenStream::default");
}
/// Iteration yields the tokens in order and reports the size the compiler reports.
pub fn ob_c01_iter() {
    start();
    let n = vp::choose(4);
    let mut s = PStream::new();
    let mut i = 0;
    while i < n { vp::pm_push(&mut s, ptree(i)); i += 1; }
    let mut it = TokenStream::from(s.clone()).into_iter();
    let mut e = s.into_iter();
    loop {
        let (a, b) = (it.size_hint(), e.size_hint());
        vp::check(vp::same(&a, &b), "IntoIter::size_hint");
        let c = it.clone();
        match (it.next(), e.next()) {
            (Some(x), Some(y)) => vp::check(vp::same(&unwrap(x), &y), "IntoIter::next yields another token"),
            (None, None) => break,
            _ => vp::fail("IntoIter ends early or late"),
        }
        drop(c);
    }
}
#[cfg(procmacro2_semver_exempt)]
pub fn ob_c01_exempt() {
    start();
    same_span(Span::def_site(), PSpan::def_site(), "Span::def_site");
    vp::check(sp("a").eq(&sp("b")) == pspan("a").eq(&pspan("b")), "Span::eq");
}
/// quote's unchecked literal constructor hands the text to the compiler.
pub fn ob_c01_literal_unchecked() {
    start();
    let s = vp::opaque_string("text");
    let l = h::catch(|| unsafe { Literal::from_str_unchecked(&s) });
    let p = h::catch(|| proc_macro::Literal::from_str(&s).ok());
    let fixed = ["1", "-1", "'a'", "\"s\"", "1.5", "b\"x\"", "0xffu8"][vp::choose(7)];
    match (h::catch(|| unsafe { Literal::from_str_unchecked(fixed) }), h::catch(|| proc_macro::Literal::from_str(fixed).ok())) { (Some(l), Some(Some(p))) => lit_eq(l, p, "Literal::from_str_unchecked"), (None, _) => {} _ => vp::fail("Literal::from_str_unchecked makes up a literal the compiler does not accept") }
    match (l, p) { (Some(l), Some(Some(p))) => lit_eq(l, p, "Literal::from_str_unchecked"), (None, _) => vp::check(true, ""), _ => vp::fail("Literal::from_str_unchecked makes up a literal the compiler rejected") }
}
/// Debug and Display of the compiler's values are the compiler's own.
pub fn ob_c01_debug() {
    start();
    let (pg, g) = group(); let (pi, i) = ident(); let (pl, l) = literal();
    vp::check(format!("{:?}", g) == format!("{:?}", pg), "Group Debug");
    vp::check(format!("{:?}", i) == format!("{:?}", pi), "Ident Debug");
    vp::check(format!("{:?}", l) == format!("{:?}", pl), "Literal Debug");
    vp::check(format!("{:?}", sp("a")) == format!("{:?}", pspan("a")), "Span Debug");
    let s = vp::opaque_stream("stream");
    vp::check(format!("{:?}", TokenStream::from(s.clone())) == format!("{:?}", s), "TokenStream Debug");
}
/// An error of the compiler's parser shows the compiler's own text.
pub fn ob_c01_lexerror() {
    start();
    let lit = vp::choose(2) == 1;
    let src = ["a", "1"][vp::choose(2)];
    if lit && src == "a" { vp::stop() }
    let want = h::catch(|| if lit { proc_macro::Literal::from_str(src).err() } else { PStream::from_str(src).err() });
    let got = if lit { src.parse::<Literal>().err() } else { src.parse::<TokenStream>().err() };
    match (got, want) {
        (Some(g), Some(Some(w))) => {
            vp::check(format!("{}", g) == format!("{}", w), "LexError Display");
            vp::check(format!("{:?}", g) == format!("{:?}", w), "LexError Debug");
            same_span(g.span(), PSpan::call_site(), "LexError::span");
        }
        (None, Some(None)) => vp::check(true, ""),
        (Some(_), None) => vp::check(true, ""),
        _ => vp::fail("success and failure of the compiler's parser are not reported as they are"),
    }
}
/// Debug of the values that proc_macro2 keeps itself shows the compiler's span.
pub fn ob_c01_debug_own() {
    start();
    let (pg, g) = group();
    vp::check(format!("{:?}", g.delim_span()) == format!("{:?}", pg.span()), "DelimSpan Debug");
    vp::check(format!("{:?}", TokenTree::Group(g)) == format!("{:?}", pg), "TokenTree Debug of a group");
    let (pl, l) = literal();
    vp::check(format!("{:?}", TokenTree::Literal(l)) == format!("{:?}", pl), "TokenTree Debug of a literal");
}
/// Equality, order and hash of compiler idents follow their printed text.
pub fn ob_c01_ident_order() {
    start();
    let (s, t) = (["a", "b", "ab"][vp::choose(3)], ["a", "b", "ab"][vp::choose(3)]);
    let (i, j) = (Ident::new(s, sp("s")), Ident::new(t, sp("t")));
    let (p, q) = (proc_macro::Ident::new(s, pspan("s")), proc_macro::Ident::new(t, pspan("t")));
    vp::check((i == j) == (p.to_string() == q.to_string()), "Ident ==");
}
/// Debug of compiler-backed tokens that proc_macro2 itself formats: kind, text, character, spacing and the compiler's span.
pub fn ob_c28_compiler() {
    start();
    let (pi, i) = ident();
    vp::check(format!("{:?}", TokenTree::Ident(i)) == format!("Ident {{ sym: {}, span: {:?} }}", pi, pi.span()), "Debug of a compiler ident");
    let (pl, l) = literal();
    vp::check(format!("{:?}", TokenTree::Literal(l)) == format!("{:?}", pl), "Debug of a compiler literal");
    let k = vp::choose(2);
    let c = PUNCT[vp::choose(22)];
    let mut p = Punct::new(c, h::spacing(k));
    p.set_span(sp("p"));
    vp::input_str("char", &c.to_string());
    vp::check(format!("{:?}", TokenTree::Punct(p)) == format!("Punct {{ char: {:?}, spacing: {}, span: {:?} }}", c, ["Alone", "Joint"][k], pspan("p")), "Debug of a compiler punct");
}
/// Invalidation is not applicable inside a procedural macro: it panics, as documented.
#[cfg(feature = "span-locations")]
pub fn ob_c22_compiler() {
    start();
    vp::check(h::catch(|| extra::invalidate_current_thread_spans()).is_none(), "invalidate_current_thread_spans does not panic inside a procedural macro");
    fallback::force();
    vp::check(h::catch(|| extra::invalidate_current_thread_spans()).is_some(), "invalidate_current_thread_spans panics in the forced fallback");
}
/// Equality, order and hash of two arbitrary compiler idents are those of their printed forms.
pub fn ob_c23_compiler() {
    start();
    let mk = |n: &str| match (vp::opaque::<proc_macro::Ident>(n), ()) { (p, ()) => (p.clone(), match wrap(PTree::Ident(p)) { TokenTree::Ident(i) => i, _ => vp::fail("a compiler ident is no ident") }) };
    let ((p, a), (q, b)) = (mk("i"), mk("j"));
    let (s, t) = (p.to_string(), q.to_string());
    match vp::choose(5) {
        0 => vp::check((a == b) == (s == t), "equality of idents is not that of their printed forms"),
        1 => vp::check(a.cmp(&b) == s.cmp(&t) && b.cmp(&a) == t.cmp(&s), "ordering of idents is not that of their printed forms"),
        2 => vp::check(a.partial_cmp(&b) == Some(s.cmp(&t)), "partial ordering of idents"),
        3 => vp::check((a == t) == (s == t) && (b == s) == (s == t) && (a == t.as_str()) == (s == t), "comparison of an ident with a text"),
        _ => vp::check(a.to_string() == s, "Display of an ident"),
    }
    vp::check(a == a.clone() && a == s, "an ident is not equal to itself");
}
