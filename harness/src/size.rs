//! Large sizes: counters, capacities and buffers do not change what the properties say. Each
//! obligation crosses 64, 128 and 256 (texts also 512 and 1024) of something.
use crate::{h, reflex::*, vp};
use proc_macro2::*;
const PATIENCE: usize = 60_000_000;
fn big() -> usize { vp::patience(PATIENCE); 1030 }
fn mid() -> usize { vp::patience(PATIENCE); 260 }
fn rep(s: &mut String, u: &str, n: usize) { let mut i = 0; while i < n { s.push_str(u); i += 1; } }
fn cs() -> Span { Span::call_site() }
/// C10: a deep nest; the closing delimiter deep inside is an arbitrary character.
pub fn ob_c10_size() {
    vp::set_available(false);
    let n = mid();
    let mut s = String::new();
    let mut i = 0;
    while i < n { s.push_str(["(", "[", "{"][i % 3]); i += 1; }
    let at = [n, 1, n - 1][vp::choose(3)];
    while i > 0 { if i == at { s.push([')', ']', '}', 'x'][vp::choose(4)]); } else { s.push_str([")", "]", "}"][(i - 1) % 3]); } i -= 1; }
    agree(&s);
}
/// C10: a long flat stream of groups.
pub fn ob_c10_size_flat() { let mut s = String::new(); let k = mid(); rep(&mut s, ["()", "[a]", "{;}"][vp::choose(3)], k); s.push([')', '(', ' '][vp::choose(3)]); agree(&s); }
/// C11: long literals, an arbitrary character at the end.
pub fn ob_c11_size() {
    let mut s = String::from(["\"", "r\"", "b\"", "br#\"", "c\"", "cr\""][vp::choose(6)]);
    let k = big();
    rep(&mut s, ["a", "\\n", "\n"][vp::choose(3)], k);
    s.push(vp::any::<char>());
    s.push_str(["\"", "\"#"][vp::choose(2)]);
    agree(&s);
}
/// C11, C12: long suffixes.
pub fn ob_c11_size_suffix() { let mut s = String::from(["\"x\"", "'x'", "b'x'", "r\"\""][vp::choose(4)]); let k = big(); rep(&mut s, "u8", k); s.push(vp::any::<char>()); agree(&s); }
pub fn ob_c12_size() {
    let mut s = String::from(["", "0x", "0b", "0o", "1.", "1e", "1.0e-", "1u", "1.0f", "0_"][vp::choose(10)]);
    let k = big();
    rep(&mut s, ["1", "0", "_"][vp::choose(3)], k);
    s.push_str(["", ".", ".5", "e1", "u8", ".f", "..", "z"][vp::choose(8)]);
    agree(&s);
}
/// C13: long names.
pub fn ob_c13_size() {
    let mut s = String::from(["", "r#", "'", "'r#", "_", "b", "r"][vp::choose(7)]);
    let k = big();
    rep(&mut s, ["a", "_", "\u{e9}"][vp::choose(3)], k);
    s.push(vp::any::<char>());
    agree(&s);
}
pub fn ob_c13_size_new() {
    let mut s = String::new();
    let k = big();
    rep(&mut s, ["a", "_", "\u{e9}"][vp::choose(3)], k);
    match h::catch(|| Ident::new(&s, cs())) { Some(i) => vp::check(i.to_string() == s, "a long identifier has another text"), None => vp::fail("Ident::new rejects a long name") }
    match h::catch(|| Ident::new_raw(&s, cs())) { Some(i) => vp::check(i.to_string() == String::from("r#") + &s, "a long raw identifier has another text"), None => vp::fail("Ident::new_raw rejects a long name") }
    s.push('-');
    vp::check(h::catch(|| Ident::new(&s, cs())).is_none(), "Ident::new accepts a long invalid name");
}
/// C14: long runs of punctuation and of lifetimes.
pub fn ob_c14_size() { let mut s = String::new(); let k = mid(); rep(&mut s, ["+", "<-", "'a "][vp::choose(3)], k); s.push_str(["", "/", "//", "a", "(", "'"][vp::choose(6)]); agree(&s); }
/// C15: long, many and deeply nested comments.
pub fn ob_c15_size() {
    let k = mid();
    let mut s = String::from("a");
    match vp::choose(8) {
        0 => { let k = big(); rep(&mut s, "/*", k); rep(&mut s, "*/", k); }
        1 => { rep(&mut s, "/*", k); rep(&mut s, "*/", k - 1); }
        2 => { rep(&mut s, "/*", k); rep(&mut s, "*/", k + 1); }
        3 => rep(&mut s, "//x\n", k),
        4 => { let k = big(); rep(&mut s, " ", k) },
        5 => { let k = big(); s.push_str("///"); rep(&mut s, "x", k); }
        6 => { s.push_str("/*!"); rep(&mut s, "\n *", k); s.push_str("*/"); }
        _ => rep(&mut s, "/**/", k),
    }
    s.push_str(["", " b", "\n+"][vp::choose(3)]);
    agree(&s);
}
pub fn ob_c15_size_docs() { let k = mid(); let mut s = String::new(); rep(&mut s, ["///x\n", "/*!x*/", "//!\n"][vp::choose(3)], k); s.push('a'); agree(&s); }

/// C07: long streams, shared and not.
fn ident(i: usize) -> TokenTree { TokenTree::Ident(Ident::new(["a", "b", "c"][i % 3], cs())) }
fn expect(s: TokenStream, n: usize, tail: Option<&str>) {
    let mut it = s.into_iter();
    let mut i = 0;
    while i < n { match it.next() { Some(t) => vp::check(t.to_string() == ["a", "b", "c"][i % 3], "a token of a long stream is another one"), None => vp::fail("a long stream has lost tokens") } i += 1; }
    if let Some(x) = tail { match it.next() { Some(t) => vp::check(t.to_string() == x, "the token added to a long stream is another one"), None => vp::fail("the token added to a long stream is lost") } }
    vp::check(it.next().is_none(), "a long stream has more tokens than it was given");
}
fn long(n: usize, route: usize) -> TokenStream {
    let mut v = vec![];
    let mut i = 0;
    while i < n { v.push(ident(i)); i += 1; }
    match route {
        0 => v.into_iter().collect(),
        1 => { let mut s = TokenStream::new(); s.extend(v); s }
        2 => { let mut s = TokenStream::new(); let mut it = v.into_iter(); while let Some(t) = it.next() { s.extend([t]); } s }
        3 => v.into_iter().map(TokenStream::from).collect(),
        4 => { let mut s = TokenStream::new(); s.extend(v.into_iter().map(TokenStream::from)); s }
        _ => { let mut w = vec![]; let mut i = 0; let mut it = v.into_iter(); while i < n { let mut s = TokenStream::new(); let mut j = 0; while j < 20 && i < n { if let Some(t) = it.next() { s.extend([t]); } j += 1; i += 1; } w.push(s); } w.into_iter().collect() }
    }
}
pub fn ob_c07_size() {
    vp::set_available(false);
    let n = mid();
    let a = long(n, vp::choose(6));
    match vp::choose(4) {
        0 => { let mut b = a.clone(); b.extend([TokenTree::Ident(Ident::new("z", cs()))]); expect(a, n, None); expect(b, n, Some("z")); }
        1 => { let g = Group::new(Delimiter::Brace, a); let mut b = g.stream(); b.extend([TokenTree::Ident(Ident::new("z", cs()))]); expect(g.stream(), n, None); expect(b, n, Some("z")); }
        2 => { let b = a.clone(); let mut it = a.into_iter(); let _ = it.next(); let rest: TokenStream = it.clone().collect(); drop(it); expect(b, n, None); let mut c = TokenStream::from(ident(0)); c.extend(rest); expect(c, n, None); }
        _ => { let mut b = a.clone(); drop(a); b.extend(TokenStream::from(TokenTree::Ident(Ident::new("z", cs())))); expect(b, n, Some("z")); }
    }
}
/// C29: every route to a long stream; steps of its iterator.
pub fn ob_c29_size() {
    vp::set_available(false);
    let n = [127, 128, 129, 260][vp::choose(4)];
    vp::patience(PATIENCE);
    let s = long(n, vp::choose(6));
    vp::check(!s.is_empty(), "a long stream is empty");
    expect(s, n, None);
}
/// C18: many negative literals.
pub fn ob_c18_size() {
    vp::set_available(false);
    let n = mid();
    let mut v = vec![];
    let mut i = 0;
    while i < n { v.push(TokenTree::Literal(Literal::i32_unsuffixed(-7))); i += 1; }
    let s: TokenStream = match vp::choose(3) { 0 => v.into_iter().collect(), 1 => { let mut s = TokenStream::new(); s.extend(v); s } _ => v.into_iter().map(TokenStream::from).collect() };
    let mut it = s.into_iter();
    i = 0;
    while i < n {
        match it.next() { Some(TokenTree::Punct(p)) => vp::check(p.as_char() == '-' && p.spacing() == Spacing::Alone, "not a minus sign"), _ => vp::fail("a negative literal is not a minus sign and a literal") }
        match it.next() { Some(TokenTree::Literal(l)) => vp::check(l.to_string() == "7", "not the absolute value"), _ => vp::fail("a negative literal is not a minus sign and a literal") }
        i += 1;
    }
    vp::check(it.next().is_none(), "too many tokens");
}
/// C19, C26: printing long and deep streams.
pub fn ob_c19_size() {
    vp::set_available(false);
    let n = mid();
    let mut w = String::new();
    let mut i = 0;
    while i < n { if i > 0 { w.push(' '); } w.push_str(["a", "b", "c"][i % 3]); i += 1; }
    vp::check(long(n, vp::choose(2)).to_string() == w, "Display of a long stream");
}
pub fn ob_c19_size_deep() {
    vp::set_available(false);
    let n = 130;
    vp::patience(PATIENCE);
    let d = vp::choose(4);
    let mut s = TokenStream::from(ident(0));
    let mut i = 0;
    while i < n { s = TokenStream::from(TokenTree::Group(Group::new(h::delim(d), s))); i += 1; }
    let mut w = String::new();
    rep(&mut w, ["(", "{ ", "[", ""][d], n);
    w.push('a');
    rep(&mut w, [")", " }", "]", ""][d], n);
    vp::check(s.to_string() == w, "Display of a deep stream");
}
pub fn ob_c26_size() {
    vp::set_available(false);
    let k = mid();
    let mut s = String::new();
    rep(&mut s, ["a+", "-1 ", "(b)", "'c "][vp::choose(4)], k);
    let t = match s.parse::<TokenStream>() { Ok(t) => t, Err(_) => vp::fail("a valid text is rejected") };
    let u = match t.to_string().parse::<TokenStream>() { Ok(t) => t, Err(_) => vp::fail("the text of a stream is rejected") };
    let (mut a, mut b) = (t.into_iter(), u.into_iter());
    loop { match (a.next(), b.next()) { (None, None) => break, (Some(x), Some(y)) => { vp::check(x.to_string() == y.to_string(), "a token differs after printing and parsing"); if let (TokenTree::Punct(x), TokenTree::Punct(y)) = (&x, &y) { vp::check(x.spacing() == y.spacing(), "a spacing differs after printing and parsing"); } } _ => vp::fail("the number of tokens differs after printing and parsing") } }
}
/// C23: long names that differ in their last character.
pub fn ob_c23_size() {
    vp::set_available(false);
    let n = big();
    let mut s = String::new();
    rep(&mut s, ["a", "\u{e9}"][vp::choose(2)], n);
    let (x, y) = (["b", "c", ""][vp::choose(3)], ["b", "c", ""][vp::choose(3)]);
    let (s, t) = (s.clone() + x, s + y);
    let (a, b) = (Ident::new(&s, cs()), Ident::new(&t, cs()));
    vp::check((a == b) == (x == y), "equality of long idents");
    vp::check(a.cmp(&b) == x.cmp(y), "ordering of long idents");
    vp::check(a == s && (a == t) == (x == y), "equality of a long ident and a string");
}
#[cfg(feature = "span-locations")]
/// C20: many lines, long lines, many tokens on a line.
pub fn ob_c20_size() {
    vp::set_available(false);
    let k = big();
    let f = vp::choose(4);
    let mut s = String::new();
    rep(&mut s, ["\n", " ", "\u{e9}", "\u{3000}\n"][f], k);
    s.push_str([" ", " ", " ", ""][f]);
    s.push_str("\u{1d4d0}x");
    let t = match s.parse::<TokenStream>() { Ok(t) => t, Err(_) => vp::fail("a valid text is rejected") };
    let sp = match t.into_iter().last() { Some(t) => t.span(), None => vp::fail("no token") };
    let (r, a, b) = (sp.byte_range(), sp.start(), sp.end());
    let lo = [k + 1, k + 1, 2 * k + 1, 4 * k][f];
    vp::check(r.start == lo && r.end == lo + 5, "byte range behind a long text");
    let (line, col) = [(k + 1, 1), (1, k + 1), (1, k + 1), (k + 1, 0)][f];
    vp::check(a.line == line && b.line == line, "line behind a long text");
    vp::check(a.column == col && b.column == col + 2, "column behind a long text");
    match sp.source_text() { Some(t) => vp::check(t == "\u{1d4d0}x", "source text behind a long text"), None => vp::fail("no source text") }
}
#[cfg(feature = "span-locations")]
pub fn ob_c20_size_tokens() {
    vp::set_available(false);
    let n = mid();
    let f = vp::choose(3);
    let mut s = String::new();
    rep(&mut s, ["a ", "\u{e9}\n", "\u{1d4d0}\u{e9} "][f], n);
    let mut v = vec![];
    for t in match s.parse::<TokenStream>() { Ok(t) => t, Err(_) => vp::fail("a valid text is rejected") } { v.push(t.span()); }
    vp::check(v.len() == n, "a token is lost");
    let mut j = 0;
    while j < 3 {
        let k = match vp::choose(2) { 0 => [n - 1, 128, 3][j], _ => [0, 255, 256][j] };
        let (w, c) = ([2, 3, 7][f], [2, 0, 3][f]);
        let r = v[k].byte_range();
        vp::check(r.start == w * k && r.end == w * k + w - 1, "byte range in a text of many tokens");
        let (a, b) = (v[k].start(), v[k].end());
        let line = if f == 1 { k + 1 } else { 1 };
        vp::check(a.line == line && a.column == c * k && b.line == line && b.column == c * k + [1, 1, 2][f], "line and column in a text of many tokens");
        j += 1;
    }
}
#[cfg(feature = "span-locations")]
/// C21: subspans and joins far from the start.
pub fn ob_c21_size() {
    vp::set_available(false);
    let n = big();
    let mut s = String::from("a \"");
    rep(&mut s, "x", n);
    s.push_str("\" b");
    let mut v: Vec<TokenTree> = match s.parse::<TokenStream>() { Ok(t) => t.into_iter().collect(), Err(_) => vp::fail("a valid text is rejected") };
    let (a, b) = (v[0].span(), v[2].span());
    match a.join(b) { Some(j) => vp::check(j.byte_range() == (0..n + 6) && j.end().column == n + 6, "join over a long text"), None => vp::fail("spans of one file do not join") }
    let l = match &v[1] { TokenTree::Literal(l) => l.clone(), _ => vp::fail("not a literal") };
    let (i, j) = match vp::choose(3) { 0 => (n, n + 2), 1 => (255, 257), _ => (0, n + 2) };
    match l.subspan(i..j) { Some(s) => vp::check(s.byte_range() == (2 + i..2 + j), "subspan of a long literal"), None => vp::fail("a valid subspan is refused") }
    vp::check(l.subspan(i..n + 3).is_none(), "a subspan beyond a long literal");
}
#[cfg(feature = "span-locations")]
/// C22: many parses, each keeps its own text.
pub fn ob_c22_size() {
    vp::set_available(false);
    let n = mid();
    let mut v: Vec<Span> = vec![];
    let mut i = 0;
    while i < n { let s = ["ab", "\u{e9}", "\"\n\""][i % 3]; match s.parse::<TokenStream>() { Ok(t) => match t.into_iter().next() { Some(t) => v.push(t.span()), None => vp::fail("no token") }, Err(_) => vp::fail("a valid text is rejected") } i += 1; }
    let k = [0, 1, 127, 128, 129, 254, 255, 256, 257, n - 1][vp::choose(10)];
    match v[k].source_text() { Some(t) => vp::check(t == ["ab", "\u{e9}", "\"\n\""][k % 3], "one of many parses reports the text of another"), None => vp::fail("one of many parses has no text") }
    let (a, b) = (v[k].start(), v[k].end());
    vp::check(a.line == 1 && a.column == 0 && v[k].byte_range().start == 0, "one of many parses reports another position");
    vp::check((b.line, b.column) == [(1, 2), (1, 1), (2, 1)][k % 3], "one of many parses reports another end");
    i = 0;
    while i < n { if i != k { vp::check(v[k].join(v[i]).is_none(), "spans of different parses join"); vp::check(v[k].file() != v[i].file(), "spans of different parses name one file"); } i += 50; }
    if k + 1 < n { vp::check(v[k].join(v[k + 1]).is_none() && v[k].file() != v[k + 1].file(), "neighbouring parses share a file"); }
}
#[cfg(feature = "span-locations")]
/// C20: positions beyond 65536.
pub fn ob_c20_size_huge() {
    vp::set_available(false);
    vp::patience(120_000_000);
    let k = 65600;
    let f = vp::choose(2);
    let mut s = String::new();
    rep(&mut s, ["\n", " "][f], k);
    s.push('x');
    let t = match s.parse::<TokenStream>() { Ok(t) => t, Err(_) => vp::fail("a valid text is rejected") };
    let sp = match t.into_iter().next() { Some(t) => t.span(), None => vp::fail("no token") };
    let (r, a, b) = (sp.byte_range(), sp.start(), sp.end());
    vp::check(r.start == k && r.end == k + 1, "byte range behind a huge text");
    let (line, col) = [(k + 1, 0), (1, k)][f];
    vp::check(a.line == line && b.line == line, "line behind a huge text");
    vp::check(a.column == col && b.column == col + 1, "column behind a huge text");
}
/// Texts beyond 65536 characters.
const HUGE: usize = 65600;
fn huge(open: &str, unit: &str, close: &str) -> String { vp::patience(120_000_000); let mut s = String::from(open); rep(&mut s, unit, HUGE); s.push_str(close); s }
pub fn ob_c11_size_huge() { vp::set_available(false); let s = huge(["\"", "r#\""][vp::choose(2)], "a", "\"#"); let t = s.parse::<TokenStream>(); match t { Ok(t) => { let mut it = t.into_iter(); match it.next() { Some(TokenTree::Literal(l)) => vp::check(l.to_string().len() >= HUGE + 2, "a huge literal is cut"), _ => vp::fail("a huge literal is not one literal") } } Err(_) => vp::fail("a huge literal is rejected") } }
pub fn ob_c12_size_huge() { vp::set_available(false); let s = huge(["", "0x", "1."][vp::choose(3)], "1", ""); match s.parse::<TokenStream>() { Ok(t) => { let mut it = t.into_iter(); match it.next() { Some(TokenTree::Literal(l)) => vp::check(l.to_string() == s, "a huge number is cut"), _ => vp::fail("a huge number is not one literal") } vp::check(it.next().is_none(), "a huge number is more than one token") } Err(_) => vp::fail("a huge number is rejected") } }
pub fn ob_c13_size_huge() { vp::set_available(false); let s = huge("", "a", ""); match s.parse::<TokenStream>() { Ok(t) => { let mut it = t.into_iter(); match it.next() { Some(TokenTree::Ident(i)) => vp::check(i == s, "a huge identifier is cut"), _ => vp::fail("a huge identifier is not one token") } vp::check(it.next().is_none(), "a huge identifier is more than one token") } Err(_) => vp::fail("a huge identifier is rejected") } vp::check(Ident::new(&s, cs()) == s, "a huge identifier has another text") }
pub fn ob_c15_size_huge() { vp::set_available(false); let (a, u, b) = [("a//", "x", "\nb"), ("a/*", "*", "/b"), ("a", " ", "b"), ("a/*", "\n", "*/b")][vp::choose(4)]; let s = huge(a, u, b); match s.parse::<TokenStream>() { Ok(t) => { let mut n = 0; for _ in t { n += 1; } vp::check(n == 2, "a huge comment leaves other tokens") } Err(_) => vp::fail("a huge comment is rejected") } }
pub fn ob_c15_size_huge_nest() { vp::set_available(false); let mut s = huge("a", "/*", ""); rep(&mut s, "*/", HUGE); s.push_str("b"); match s.parse::<TokenStream>() { Ok(t) => { let mut n = 0; for _ in t { n += 1; } vp::check(n == 2, "deeply nested comments leave other tokens") } Err(_) => vp::fail("deeply nested comments are rejected") } }
pub fn ob_c16_size_huge() {
    vp::set_available(false);
    let s = huge("", ["a", "\u{e9}"][vp::choose(2)], "");
    vp::check(Literal::string(&s).to_string() == String::from("\"") + &s + "\"", "Literal::string cuts a huge text");
}
pub fn ob_c07_size_huge() {
    vp::set_available(false);
    vp::patience(120_000_000);
    let n = 4100;
    let a = long(n, vp::choose(2));
    let mut b = a.clone();
    b.extend([TokenTree::Ident(Ident::new("z", cs()))]);
    expect(a, n, None);
    expect(b, n, Some("z"));
}
pub fn ob_c29_size_huge() { vp::set_available(false); vp::patience(120_000_000); let n = 4100; expect(long(n, vp::choose(6)), n, None); }
#[cfg(feature = "span-locations")]
pub fn ob_c22_size_huge() {
    vp::set_available(false);
    let s = huge("", "\u{e9}", "");
    let first = |s: &str| match s.parse::<TokenStream>() { Ok(t) => match t.into_iter().next() { Some(t) => t.span(), None => vp::fail("no token") }, Err(_) => vp::fail("a valid text is rejected") };
    let (a, b, c) = (first("a1"), first(&s), first("c\u{e9}"));
    match a.source_text() { Some(t) => vp::check(t == "a1", "the parse before a huge one"), None => vp::fail("no source text") }
    match c.source_text() { Some(t) => vp::check(t == "c\u{e9}", "the parse after a huge one"), None => vp::fail("no source text") }
    vp::check(b.byte_range() == (0..2 * HUGE), "the range of a huge parse");
    vp::check(c.byte_range() == (0..3) && c.start().column == 0 && c.start().line == 1 && c.end().column == 2, "the position in the parse after a huge one");
    vp::check(a.join(b).is_none() && b.join(c).is_none() && b.file() != c.file() && a.file() != b.file(), "a huge parse shares its range with another");
}
#[cfg(feature = "span-locations")]
pub fn ob_c21_size_huge() {
    vp::set_available(false);
    let s = huge("a \"", "x", "\" b");
    let mut v: Vec<TokenTree> = match s.parse::<TokenStream>() { Ok(t) => t.into_iter().collect(), Err(_) => vp::fail("a valid text is rejected") };
    match v[0].span().join(v[2].span()) { Some(j) => vp::check(j.byte_range() == (0..HUGE + 6) && j.end().column == HUGE + 6, "join over a huge text"), None => vp::fail("spans of one file do not join") }
    let l = match &v[1] { TokenTree::Literal(l) => l.clone(), _ => vp::fail("not a literal") };
    match l.subspan(65535..65537) { Some(s) => vp::check(s.byte_range() == (65537..65539), "subspan of a huge literal"), None => vp::fail("a valid subspan is refused") }
    vp::check(l.subspan(1..HUGE + 3).is_none(), "a subspan beyond a huge literal");
}
/// C10: a nest of 2000 levels, walked level by level.
pub fn ob_c10_size_huge() {
    vp::set_available(false);
    vp::patience(120_000_000);
    let n = 2000;
    let k = vp::choose(3);
    let mut s = String::new();
    rep(&mut s, ["(", "[", "{"][k], n);
    rep(&mut s, [")", "]", "}"][k], n);
    let mut t = match s.parse::<TokenStream>() { Ok(t) => t, Err(_) => vp::fail("a deep nest is rejected") };
    let mut i = 0;
    while i < n {
        let mut it = t.into_iter();
        let g = match it.next() { Some(TokenTree::Group(g)) => g, _ => vp::fail("a level of a deep nest is no group") };
        vp::check(it.next().is_none() && g.delimiter() == [Delimiter::Parenthesis, Delimiter::Bracket, Delimiter::Brace][k], "a level of a deep nest is another group");
        t = g.stream();
        i += 1;
    }
    vp::check(t.is_empty(), "the innermost group is not empty");
    s.pop();
    vp::check(s.parse::<TokenStream>().is_err(), "an open deep nest is accepted");
    s.push_str([")]", "])", "}]"][k]);
    vp::check(s.parse::<TokenStream>().is_err(), "a superfluous delimiter behind a deep nest is accepted");
}
/// C09: long texts that end anywhere end within a bound that leaves room for quadratic time.
pub fn ob_c09_size() { c09(1000, 400_000_000, vp::choose(12)); }
/// C09: huge texts do not panic.
pub fn ob_c09_size_huge0() { c09(66_000, 0, 0 + vp::choose(3)); }
pub fn ob_c09_size_huge1() { c09(66_000, 0, 3 + vp::choose(3)); }
pub fn ob_c09_size_huge2() { c09(66_000, 0, 6 + vp::choose(3)); }
pub fn ob_c09_size_huge3() { c09(66_000, 0, 9 + vp::choose(3)); }
fn c09(n: usize, limit: usize, unit: usize) {
    vp::set_available(false);
    vp::patience(120_000_000);
    let (a, u) = [("", "/*"), ("\"", "\\"), ("r", "#"), ("'", "a"), ("", "("), ("1", "_"), ("", "*/"), ("b'", "\\x"), ("\"\\", "\n"), ("/*", "*"), ("\"", "\r"), ("//", "\r")][unit];
    let mut s = String::from(a);
    rep(&mut s, u, if u == "(" && n > 8000 { 8000 } else { n });
    vp::input_str("unit", u);
    vp::must_end(limit);
    let r = s.parse::<TokenStream>();
    vp::must_end(0);
    vp::check(true, "");
    drop(r);
}
/// C28: Debug of a long stream shows every token.
pub fn ob_c28_size() {
    vp::set_available(false);
    let n = mid();
    let d = format!("{:?}", long(n, 0));
    let (mut k, mut i) = (0, 0);
    let b = d.as_bytes();
    while i + 4 < b.len() { if b[i] == b'I' && b[i + 1] == b'd' && b[i + 2] == b'e' && b[i + 3] == b'n' && b[i + 4] == b't' { k += 1; } i += 1; }
    vp::check(k == n, "Debug of a long stream does not show every token");
}
