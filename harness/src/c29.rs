//! C29: tokens and streams carry exactly what they were built from.
use crate::{h, vp};
use proc_macro2::*;
const PUNCTS: [char; 22] = ['~', '!', '@', '#', '$', '%', '^', '&', '*', '-', '=', '+', '|', ';', ':', ',', '<', '.', '>', '/', '?', '\''];
const KINDS: usize = 13;
fn cs() -> Span { Span::call_site() }
fn inner(k: usize) -> TokenStream { match k { 0 => TokenStream::new(), 1 => TokenStream::from(TokenTree::Ident(Ident::new("q", cs()))), _ => { let mut s = TokenStream::new(); s.extend([TokenTree::Punct(Punct::new('-', Spacing::Joint)), TokenTree::Literal(Literal::u8_suffixed(3))]); s } } }
fn tree(k: usize) -> TokenTree {
    match k {
        0 => TokenTree::Ident(Ident::new("abc", cs())), 1 => TokenTree::Ident(Ident::new_raw("fn", cs())), 2 => TokenTree::Ident(Ident::new("_", cs())),
        3 => TokenTree::Punct(Punct::new('+', Spacing::Alone)), 4 => TokenTree::Punct(Punct::new('\'', Spacing::Joint)),
        5 => TokenTree::Literal(Literal::string("x\"y")), 6 => TokenTree::Literal(Literal::i32_unsuffixed(12)), 7 => TokenTree::Literal(Literal::byte_character(b'\\')),
        8 => TokenTree::Group(Group::new(Delimiter::Parenthesis, inner(0))), 9 => TokenTree::Group(Group::new(Delimiter::Brace, inner(1))),
        10 => TokenTree::Group(Group::new(Delimiter::Bracket, inner(2))), 11 => TokenTree::Group(Group::new(Delimiter::None, inner(1))),
        _ => TokenTree::Group(Group::new(Delimiter::None, inner(0))),
    }
}
fn shape(t: &TokenTree, out: &mut String) {
    match t {
        TokenTree::Ident(x) => { out.push_str("i:"); out.push_str(&x.to_string()); out.push(' '); }
        TokenTree::Punct(x) => { out.push_str(match x.spacing() { Spacing::Alone => "pa:", Spacing::Joint => "pj:" }); out.push(x.as_char()); out.push(' '); }
        TokenTree::Literal(x) => { out.push_str("l:"); out.push_str(&x.to_string()); out.push(' '); }
        TokenTree::Group(x) => {
            out.push_str(match x.delimiter() { Delimiter::Parenthesis => "P(", Delimiter::Brace => "B(", Delimiter::Bracket => "K(", Delimiter::None => "N(" });
            shapes(x.stream(), out); out.push_str(") ");
        }
    }
}
fn shapes(s: TokenStream, out: &mut String) { for t in s { shape(&t, out); } }
const SHAPE: [&str; KINDS] = ["i:abc ", "i:r#fn ", "i:_ ", "pa:+ ", "pj:' ", "l:\"x\\\"y\" ", "l:12 ", "l:b'\\\\' ", "P() ", "B(i:q ) ", "K(pj:- l:3u8 ) ", "N(i:q ) ", "N() "];
const TEXT: [&str; KINDS] = ["abc", "r#fn", "_", "+", "'", "\"x\\\"y\"", "12", "b'\\\\'", "()", "{ q }", "[-3u8]", "q", ""];
fn shape1(t: &TokenTree) -> String { let mut s = String::new(); shape(t, &mut s); s }
/// Every token shows what it was built from, directly, as a tree, cloned, and after its span is set.
pub fn ob_c29_token() {
    let k = vp::choose(KINDS);
    let mut t = tree(k);
    match vp::choose(4) {
        0 => {}
        1 => { let c = t.clone(); drop(t); t = c; }
        2 => t.set_span(Span::mixed_site()),
        _ => { t = match t { TokenTree::Group(mut x) => { x.set_span(Span::mixed_site()); TokenTree::from(x) } TokenTree::Ident(mut x) => { x.set_span(Span::mixed_site()); TokenTree::from(x) } TokenTree::Punct(mut x) => { x.set_span(Span::mixed_site()); TokenTree::from(x) } TokenTree::Literal(mut x) => { x.set_span(Span::mixed_site()); TokenTree::from(x) } }; }
    }
    vp::input("kind", &k);
    let s = shape1(&t);
    vp::input_str("shape", &s);
    vp::check(s == SHAPE[k], "a token does not carry what it was built from");
    let d = t.to_string();
    vp::input_str("printed", &d);
    vp::check(d == TEXT[k], "Display of a tree is not that of its token");
    let own = match &t { TokenTree::Group(x) => x.to_string(), TokenTree::Ident(x) => x.to_string(), TokenTree::Punct(x) => x.to_string(), TokenTree::Literal(x) => x.to_string() };
    vp::check(own == TEXT[k], "Display of a token");
}
pub fn ob_c29_punct() {
    let c = PUNCTS[vp::choose(22)];
    let k = vp::choose(2);
    let mut p = Punct::new(c, h::spacing(k));
    if vp::choose(2) == 1 { p.set_span(cs()); }
    let q = p.clone();
    vp::check(p.as_char() == c && q.as_char() == c, "as_char is not the character given");
    vp::check(p.spacing() == h::spacing(k) && q.spacing() == h::spacing(k), "spacing is not the spacing given");
    let mut want = String::new(); want.push(c);
    vp::check(p.to_string() == want, "Display of a punct");
}
pub fn ob_c29_group() {
    let (d, i) = (vp::choose(4), vp::choose(3));
    let s = inner(i);
    let keep = vp::choose(2) == 1;
    let other = if keep { Some(s.clone()) } else { None };
    let mut g = Group::new(h::delim(d), s);
    if vp::choose(2) == 1 { g.set_span(cs()); }
    let c = g.clone();
    let mut n = 0;
    while n < 2 {
        let x = if n == 0 { &g } else { &c };
        vp::check(x.delimiter() == h::delim(d), "delimiter is not the delimiter given");
        let mut a = String::new(); shapes(x.stream(), &mut a);
        vp::check(a == ["", "i:q ", "pj:- l:3u8 "][i], "stream is not the stream given");
        n += 1;
    }
    if let Some(o) = other { let mut a = String::new(); shapes(o, &mut a); vp::check(a == ["", "i:q ", "pj:- l:3u8 "][i], "the stream given changed"); }
}
/// Streams of up to three tokens built by every route hold exactly those tokens.
pub fn ob_c29_stream() {
    let n = vp::choose(4);
    let mut ks = Vec::new();
    let mut want = String::new();
    let mut i = 0;
    while i < n { let k = [0, 4, 6, 10][vp::choose(4)]; ks.push(k); want.push_str(SHAPE[k]); i += 1; }
    let trees: Vec<TokenTree> = ks.iter().map(|k| tree(*k)).collect();
    let s: TokenStream = match vp::choose(7) {
        0 => trees.into_iter().collect(),
        1 => trees.into_iter().map(TokenStream::from).collect(),
        2 => { let mut s = TokenStream::new(); s.extend(trees); s }
        3 => { let mut s = TokenStream::default(); for t in trees { s.extend(Some(t)); } s }
        4 => { let mut s = TokenStream::default(); s.extend(trees.into_iter().map(TokenStream::from)); s }
        5 => { let mut s = TokenStream::new(); for t in trees { match t { TokenTree::Group(x) => s.extend(Some(TokenTree::from(x))), TokenTree::Ident(x) => s.extend(Some(TokenTree::from(x))), TokenTree::Punct(x) => s.extend(Some(TokenTree::from(x))), TokenTree::Literal(x) => s.extend(Some(TokenTree::from(x))) } } s }
        _ => { let mut s = TokenStream::new(); s.extend(Some(trees.into_iter().collect::<TokenStream>())); s.extend(Some(TokenStream::new())); s.extend(Vec::<TokenTree>::new()); s }
    };
    let s = if vp::choose(2) == 1 { let c = s.clone(); drop(s); c } else { s };
    vp::check(s.is_empty() == (n == 0), "is_empty is wrong");
    let shared = if vp::choose(2) == 1 { Some(s.clone()) } else { None };
    let mut it = s.into_iter();
    let mut got = String::new();
    let mut left = n;
    loop {
        let (lo, hi) = it.size_hint();
        vp::check(lo == left && hi == Some(left), "size_hint of a token iterator is not exact");
        match it.next() { Some(t) => { shape(&t, &mut got); if left == 0 { vp::fail("an extra token") } left -= 1; } None => break }
    }
    vp::check(it.next().is_none(), "a finished iterator yields a token");
    vp::input_str("tokens", &got);
    vp::check(left == 0 && got == want, "a stream does not hold the tokens it was built from");
    if let Some(s) = shared { let mut a = String::new(); shapes(s, &mut a); vp::check(a == want, "a clone changed"); }
}
pub fn ob_c29_empty() {
    let s = match vp::choose(4) { 0 => TokenStream::new(), 1 => TokenStream::default(), 2 => Vec::<TokenTree>::new().into_iter().collect(), _ => Vec::<TokenStream>::new().into_iter().collect() };
    vp::check(s.is_empty() && s.to_string().is_empty(), "an empty stream is not empty");
    vp::check(s.clone().into_iter().next().is_none(), "an empty stream yields a token");
    // A stream that holds one empty group is not empty.
    let s = TokenStream::from(TokenTree::Group(Group::new(h::delim(vp::choose(4)), TokenStream::new())));
    vp::check(!s.is_empty(), "a stream with an empty group is called empty");
}
/// With span locations: the tree's span is the token's, and setting it sets the token's.
#[cfg(feature = "span-locations")]
pub fn ob_c29_span() {
    let src = ["abc", "+", "\"s\"", "(a)", "r#fn", "{ }", "[a]", "7", "()", "[]", "{}", "[ ]", "( )", "{a}", "{a;}", "_", "'c'", "b\"x\"", "c\"x\"", "1.5e3", "1u8", "r##\"x\"##", "b'x'", ";", "#"][vp::choose(25)];
    let st: TokenStream = match src.parse() { Ok(s) => s, Err(_) => vp::fail("a valid text is rejected") };
    let mk: TokenStream = match " zz y".parse() { Ok(s) => s, Err(_) => vp::fail("a valid text is rejected") };
    let mark = match mk.into_iter().next() { Some(t) => t.span(), None => vp::fail("no token") };
    let mut t = match st.into_iter().next() { Some(t) => t, None => vp::fail("no token") };
    let own = |t: &TokenTree| match t { TokenTree::Group(x) => x.span(), TokenTree::Ident(x) => x.span(), TokenTree::Punct(x) => x.span(), TokenTree::Literal(x) => x.span() };
    vp::check(t.span().byte_range() == own(&t).byte_range() && t.span().source_text() == own(&t).source_text(), "a tree's span is not its token's");
    vp::check(own(&t).byte_range() == (0..src.len()), "the span of a parsed token");
    let before = shape1(&t);
    match vp::choose(3) {
        0 => t.set_span(mark),
        1 => match &mut t { TokenTree::Group(x) => x.set_span(mark), TokenTree::Ident(x) => x.set_span(mark), TokenTree::Punct(x) => x.set_span(mark), TokenTree::Literal(x) => x.set_span(mark) },
        _ => { let mut c = t.clone(); c.set_span(mark); vp::check(own(&t).byte_range() == (0..src.len()), "setting a clone's span changes the original's"); t = c; }
    }
    vp::check(own(&t).byte_range() == (1..3) && t.span().byte_range() == (1..3), "set_span did not set the span");
    vp::check(own(&t).source_text() == mark.source_text() && t.span().source_text() == mark.source_text(), "set_span set another span");
    if let TokenTree::Group(g) = &t {
        vp::check(g.span_open().byte_range().start == 1 && g.span_close().byte_range().end == 3, "set_span of a group does not set the spans of its delimiters");
        if let Some(x) = g.stream().into_iter().next() { vp::check(x.span().byte_range().end <= src.len() && x.span().source_text() == Some(String::from("a")), "set_span of a group changes its contents"); }
    }
    vp::check(shape1(&t) == before, "set_span changes more than the span");
}
/// Several tokens of one kind at once, by the typed routes, behind tokens that are there already.
pub fn ob_c29_typed() {
    vp::set_available(false);
    let mut s = TokenStream::new();
    let mut w = String::new();
    if vp::choose(2) == 1 { s.extend([tree(0), tree(3)]); w.push_str(SHAPE[0]); w.push_str(SHAPE[3]); }
    let keep = if vp::choose(2) == 1 { Some(s.clone()) } else { None };
    let mut before = String::new();
    before.push_str(&w);
    let n = vp::choose(4);
    match vp::choose(4) {
        0 => { let mut v = vec![]; for k in 0..n { let k = [8, 11, 10][k]; w.push_str(SHAPE[k]); if let TokenTree::Group(x) = tree(k) { v.push(x); } } s.extend(v); }
        1 => { let mut v = vec![]; for k in 0..n { let k = [1, 0, 2][k]; w.push_str(SHAPE[k]); if let TokenTree::Ident(x) = tree(k) { v.push(x); } } s.extend(v); }
        2 => { let mut v = vec![]; for k in 0..n { let k = [4, 3, 4][k]; w.push_str(SHAPE[k]); if let TokenTree::Punct(x) = tree(k) { v.push(x); } } s.extend(v); }
        _ => { let mut v = vec![]; for k in 0..n { if k == 1 { v.push(Literal::i8_suffixed(-3)); w.push_str("pa:- l:3i8 "); } else { let k = [5, 0, 7][k]; w.push_str(SHAPE[k]); if let TokenTree::Literal(x) = tree(k) { v.push(x); } } } s.extend(v); }
    }
    let mut got = String::new();
    shapes(s, &mut got);
    vp::input_str("shape", &got);
    vp::check(got == w, "tokens appended at once are not those given");
    if let Some(k) = keep { let mut got = String::new(); shapes(k, &mut got); vp::check(got == before, "appending to a stream changes a clone of it"); }
}
