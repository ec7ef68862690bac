//! C22: parsed texts occupy disjoint span ranges until invalidated (span locations on).
use crate::{h, reflex::*, vp};
use proc_macro2::*;
const TEXTS: [&str; 7] = ["a", "b\u{e9} c", "", "x\ny", " ", "(", "\u{1d4d0}"];
struct P { text: &'static str, spans: Vec<(Span, usize, usize)> }
fn parse(k: usize) -> P {
    let text = TEXTS[k];
    let mut spans = vec![];
    let src = Src::new(text);
    match (text.parse::<TokenStream>(), src.lex()) { (Ok(t), Some(w)) => same(t, &w, &src, &mut |s, lo, hi| spans.push((s, lo, hi))), (Err(e), None) => spans.push((e.span(), 0, 0)), _ => vp::fail("the text is lexed otherwise") }
    P { text, spans }
}
fn parse_literal(k: usize) -> P { let text = ["\"q\"", "-1", "1 ", "'\u{e9}'"][k]; match text.parse::<Literal>() { Ok(l) => { let s = l.span(); P { text, spans: vec![(s, 0, Src::new(text).c.len())] } } Err(_) => P { text, spans: vec![] } } }
fn all_well(ps: &[P]) {
    let mut i = 0;
    while i < ps.len() {
        let src = Src::new(ps[i].text);
        let mut j = 0;
        while j < ps[i].spans.len() {
            let (s, lo, hi) = ps[i].spans[j];
            match s.source_text() { Some(t) => vp::check(t == src.text(lo, hi), "a span reports the text of another parse"), None => vp::fail("a span of a parse has no source text") }
            let (a, b) = (s.byte_range(), s.start());
            let (mut l, mut c, mut n, mut k) = (1, 0, 0, 0);
            while k < lo { if src.c[k] == '\n' { l += 1; c = 0; } else { c += 1; } n += src.c[k].len_utf8(); k += 1; }
            vp::check(a.start == n, "a span reports the position of another parse");
            vp::check(b.line == l && b.column == c, "a span reports the line and column of another parse");
            let file = s.file();
            vp::check(file == ps[i].spans[0].0.file(), "spans of one parse name different files");
            vp::check(file != "<unspecified>" && s.local_file().is_none(), "a parsed span names no file of its own");
            let mut k = 0;
            while k < ps.len() { if k != i { let mut m = 0; while m < ps[k].spans.len() { if m == 0 && j == 0 { vp::check(ps[k].spans[m].0.file() != file, "spans of different parses name the same file"); } vp::check(s.join(ps[k].spans[m].0).is_none(), "spans of different parses can be joined"); m += 1; } } k += 1; }
            j += 1;
        }
        i += 1;
    }
    let c = [Span::call_site(), Span::mixed_site()];
    let mut i = 0;
    while i < 2 { let r = c[i].byte_range(); vp::check(c[i].source_text().is_none(), "a call-site span has source text"); vp::check(r.start == 0 && r.end == 0, "a call-site span has a byte range"); vp::check(c[i].file() == "<unspecified>" && c[i].local_file().is_none(), "a call-site span names a file"); let _ = c[i].start(); let _ = c[i].end(); i += 1; }
    vp::check(Ident::new("a", Span::call_site()).span().source_text().is_none() && Literal::u8_unsuffixed(1).span().source_text().is_none(), "a constructed token has source text");
}
fn history(n: usize) {
    let mut ps: Vec<P> = vec![];
    let mut i = 0;
    while i < n {
        let op = vp::choose(12);
        vp::input("op", &op);
        match op { 0 | 1 | 2 | 3 | 4 | 5 | 6 => ps.push(parse(op)), 7 | 8 | 9 | 10 => ps.push(parse_literal(op - 7)), _ => { extra::invalidate_current_thread_spans(); ps = vec![]; } }
        all_well(&ps);
        i += 1;
    }
}
pub fn ob_c22_history2() { history(vp::choose(3)) }
pub fn ob_c22_history3() { history(3) }
pub fn ob_c22_deep_history4() { history(4) }
/// Many parses; arbitrary characters in between.
pub fn ob_c22_many() {
    let n = [6, 11][vp::choose(2)];
    let mut ps = vec![];
    let mut i = 0;
    while i < n { ps.push(parse(i % 7)); i += 1; }
    let s = h::any_text(1);
    vp::input_str("source", &s);
    let _ = s.parse::<TokenStream>();
    ps.push(parse(1));
    all_well(&ps)
}
/// After invalidation a parse is like the first.
pub fn ob_c22_invalidate() {
    let (i, j) = (vp::choose(7), vp::choose(7));
    let first = parse(i);
    let mut d = vec![];
    let mut k = 0;
    while k < first.spans.len() { d.push(format!("{:?}", first.spans[k].0)); k += 1; }
    let _ = parse(j);
    extra::invalidate_current_thread_spans();
    let again = parse(i);
    k = 0;
    while k < again.spans.len() { vp::check(format!("{:?}", again.spans[k].0) == d[k], "after invalidation a parse gets other positions than the first one did"); k += 1; }
    all_well(&[again])
}
/// Texts of many shapes (lines, length, tokens) between two others.
pub fn ob_c22_shapes() {
    let n = [1usize, 2, 3, 4, 5, 8, 9, 16, 17, 33][vp::choose(10)];
    let piece = ["a\n", "b ", "\u{e9} ", "\n", "(c)", "\"\u{1d4d0}\"\r\n", "/**/"][vp::choose(7)];
    let mut text = String::new();
    let mut i = 0;
    while i < n { text.push_str(piece); i += 1; }
    vp::input_str("text", &text);
    let before = parse(0);
    let st: TokenStream = match text.parse() { Ok(s) => s, Err(_) => vp::fail("a valid text is rejected") };
    let after = parse(1);
    let b = before.spans[0].0; let a = after.spans[0].0;
    let (fa, fb) = (a.file(), b.file());
    let (mut k, mut lo) = (0usize, 0usize);
    let mut first: Option<String> = None;
    for t in st {
        let s = t.span();
        if k < 3 || k + 3 > n {
            let f = s.file();
            vp::check(f != fa && f != fb && f != "<unspecified>", "a span names the file of another parse");
            match &first { Some(x) => vp::check(*x == f, "spans of one parse name different files"), None => first = Some(f) }
            vp::check(s.join(a).is_none() && b.join(s).is_none(), "spans of different parses can be joined");
            let r = s.byte_range();
            vp::check(r.start >= lo && r.end <= text.len() && s.source_text() == Some(String::from(&text[r.start..r.end])) && Some(&text[r.start..r.end]) == Some(piece.trim_end()), "a span reports the text of another parse");
            lo = r.end;
        }
        k += 1;
    }
    vp::check(k == if piece == "\n" || piece == "/**/" { 0 } else { n }, "tokens are missing");
    all_well(&[before, after]);
}
