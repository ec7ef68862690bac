//! C08: call depth of parsing and dropping is independent of nesting and length.
use crate::{h, vp};
use proc_macro2::*;
fn nested(kinds: &[usize], n: usize) -> String {
    let mut s = String::new();
    let mut i = 0;
    while i < n { s.push_str(["(", "{", "["][kinds[i % kinds.len()]]); i += 1; }
    s.push('x');
    while i > 0 { i -= 1; s.push_str([")", "}", "]"][kinds[i % kinds.len()]]); }
    s
}
fn parse_depth(s: &str) -> (usize, usize) {
    vp::depth_reset();
    let d0 = vp::depth_max();
    let t = s.parse::<TokenStream>();
    let d1 = vp::depth_max();
    let t = match t { Ok(t) => t, Err(_) => vp::stop() };
    vp::depth_reset();
    drop(t);
    let d2 = vp::depth_max();
    (d1 - d0, d2 - d0)
}
/// The call graph of the fallback lexer has no cycle: its stack depth is bounded by its number of functions.
fn parse_stream(s: &str) -> Result<TokenStream, LexError> { s.parse() }
fn parse_literal(s: &str) -> Result<Literal, LexError> { s.parse() }
pub fn ob_c08_graph() { vp::no_recursion(parse_stream); vp::no_recursion(parse_literal); }
/// Parse and drop text nested 3 and 7 deep: the deepest call stack is the same.
pub fn ob_c08_text() {
    vp::set_available(false);
    let kinds = [vp::choose(3), vp::choose(3)];
    let (p1, d1) = parse_depth(&nested(&kinds, 3));
    let (p2, d2) = parse_depth(&nested(&kinds, [7, 40, 140, 300][vp::choose(4)]));
    vp::check(p2 <= p1, "parsing uses more stack for deeper nesting");
    vp::check(d2 <= d1, "dropping uses more stack for deeper nesting");
}
/// Levels of several tokens, with the inner group first, in the middle or last.
pub fn ob_c08_wide() {
    vp::set_available(false);
    let k = vp::choose(3);
    let (pre, post) = [("", " x"), ("x ", ""), ("x ", ",y"), ("() ", ""), ("", " []"), ("{a} ", " ()"), ("x x x x ", " y y y y")][vp::choose(7)];
    let mk = |n: usize| { let mut s = String::new(); let mut i = 0; while i < n { s.push_str(["(", "{", "["][(k + i) % 3]); s.push_str(pre); i += 1; } while i > 0 { i -= 1; s.push_str(post); s.push_str([")", "}", "]"][(k + i) % 3]); } s };
    let (p1, d1) = parse_depth(&mk(4));
    let (p2, d2) = parse_depth(&mk([9, 24][vp::choose(2)]));
    vp::check(p2 <= p1, "parsing uses more stack for deeper nesting");
    vp::check(d2 <= d1, "dropping uses more stack for deeper nesting");
}
/// The same for unclosed and mismatched input.
pub fn ob_c08_error() {
    vp::set_available(false);
    let k = vp::choose(3);
    let mk = |n: usize| { let mut s = String::new(); let mut i = 0; while i < n { s.push_str(["(", "{", "["][k]); i += 1; } if vp::choose(2) == 1 { s.push_str([")", "}", "]"][(k + 1) % 3]); } s };
    let run = |s: &str| { vp::depth_reset(); let d0 = vp::depth_max(); let r = s.parse::<TokenStream>(); vp::check(r.is_err(), "unbalanced text accepted"); drop(r); vp::depth_max() - d0 };
    let (a, b) = (mk(3), mk([7, 90][vp::choose(2)]));
    vp::check({ let x = run(&a); run(&b) <= x }, "rejecting uses more stack for deeper nesting");
}
/// Block comments nest without recursion.
pub fn ob_c08_comment() {
    vp::set_available(false);
    let mk = |n: usize| { let mut s = String::new(); let mut i = 0; while i < n { s.push_str("/*"); i += 1; } while i > 0 { s.push_str("*/"); i -= 1; } s };
    let run = |s: &str| { vp::depth_reset(); let d0 = vp::depth_max(); let r = s.parse::<TokenStream>(); vp::check(r.is_ok(), "nested comment rejected"); vp::depth_max() - d0 };
    let (a, b) = (mk(3), mk([7, 90][vp::choose(2)]));
    vp::check({ let x = run(&a); run(&b) <= x }, "skipping a comment uses more stack for deeper nesting");
}
/// Longer input: more tokens, longer literals, comments and whitespace.
pub fn ob_c08_length() {
    vp::set_available(false);
    let unit = ["a ", "+ ", "'a ", "\"x\" ", "1 ", "() ", "/**/ ", "//x\n", "///x\n", "/**x*/ ", "r#a ", "r\"\" ", "b'a' ", "c\"\" ", " ", "'x' "][vp::choose(16)];
    let mk = |n: usize| { let mut s = String::new(); let mut i = 0; while i < n { s.push_str(unit); i += 1; } s };
    let (p1, d1) = parse_depth(&mk(2));
    let (p2, d2) = parse_depth(&mk([6, 70][vp::choose(2)]));
    vp::check(p2 <= p1, "parsing uses more stack for longer input");
    vp::check(d2 <= d1, "dropping uses more stack for longer input");
}
pub fn ob_c08_token_length() {
    vp::set_available(false);
    let (a, b, c) = [("a", "a", "a"), ("1", "1", "1"), ("\"", "x", "\""), ("\"", "\\n", "\""), ("b\"", "x", "\""), ("c\"", "x", "\""), ("r\"", "x", "\""), ("/*", "x", "*/"), ("//", "x", "\n"), ("///", "x", "\n"), ("r##\"", "x", "\"##"), ("1.", "0", "0"), ("\"", "\\\n", "\""), ("1", "_", "0")][vp::choose(14)];
    let mk = |n: usize| { let mut s = String::from(a); let mut i = 0; while i < n { s.push_str(b); i += 1; } s.push_str(c); s };
    let (p1, d1) = parse_depth(&mk(2));
    let (p2, d2) = parse_depth(&mk([6, 70][vp::choose(2)]));
    vp::check(p2 <= p1, "parsing uses more stack for a longer token");
    vp::check(d2 <= d1, "dropping uses more stack for a longer token");
}
/// Streams nested through the API, dropped in every form.
fn build(n: usize, k: usize) -> TokenTree {
    let mut t = TokenTree::from(Ident::new("x", Span::call_site()));
    let mut i = 0;
    while i < n { t = TokenTree::Group(Group::new(h::delim(if i % 2 == 0 { k } else { 0 }), TokenStream::from(t))); i += 1; }
    t
}
pub fn ob_c08_api() {
    vp::set_available(false);
    let k = vp::choose(4);
    let form = vp::choose(6);
    let run = |n: usize| {
        let t = build(n, k);
        match form {
            0 => { vp::depth_reset(); let d0 = vp::depth_max(); drop(t); vp::depth_max() - d0 }
            1 => { let s = TokenStream::from(t); vp::depth_reset(); let d0 = vp::depth_max(); drop(s); vp::depth_max() - d0 }
            2 => { let s = TokenStream::from(t).into_iter(); vp::depth_reset(); let d0 = vp::depth_max(); drop(s); vp::depth_max() - d0 }
            3 => { let g = match t { TokenTree::Group(g) => g, _ => vp::stop() }; vp::depth_reset(); let d0 = vp::depth_max(); drop(g); vp::depth_max() - d0 }
            4 => { let s = TokenStream::from(t); let c = s.clone(); vp::depth_reset(); let d0 = vp::depth_max(); drop(s); drop(c); vp::depth_max() - d0 }
            _ => { let a = build(n, k); let mut s = TokenStream::from(t); s.extend([a]); vp::depth_reset(); let d0 = vp::depth_max(); drop(s); vp::depth_max() - d0 }
        }
    };
    let (a, b) = (run(3), run([7, 30, 130, 300][vp::choose(4)]));
    vp::check(b <= a, "dropping nested groups uses more stack for deeper nesting");
}
/// Fallback streams that also hold compiler groups: whatever comes behind the compiler's group is still dropped without recursion.
#[cfg(feature = "proc-macro")]
pub fn ob_c08_mixed() {
    vp::set_available(true);
    let k = vp::choose(4);
    let form = vp::choose(3);
    let first = match vp::choose(2) { 0 => TokenTree::Group(Group::new(Delimiter::None, TokenStream::new())), _ => crate::c01::wrap(crate::c01::ptree(0)) };
    fallback::force();
    let run = |n: usize| {
        let mut s = TokenStream::new();
        let t = build(n, k);
        match form { 0 => s.extend([first.clone(), t]), 1 => s.extend([t, first.clone()]), _ => s.extend([first.clone(), t.clone(), first.clone(), t]) }
        let s = if form == 0 { TokenStream::from(TokenTree::Group(Group::new(Delimiter::Brace, s))) } else { s };
        vp::depth_reset();
        let d0 = vp::depth_max();
        drop(s);
        vp::depth_max() - d0
    };
    let (a, b) = (run(3), run([9, 60][vp::choose(2)]));
    vp::check(b <= a, "dropping nested groups behind a compiler group uses more stack for deeper nesting");
}
