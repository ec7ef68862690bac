//! C07: clones and shared substreams are independent values (fallback backend).
use crate::{h, vp};
use proc_macro2::*;
#[derive(Clone)]
enum M { Tok(usize), Grp(Vec<M>) }
fn tok(n: usize) -> TokenTree { TokenTree::Literal(Literal::usize_unsuffixed(n)) }
fn want(v: &[M]) -> String {
    let mut s = String::new();
    for m in v { if !s.is_empty() { s.push(' '); } match m { M::Tok(n) => s.push_str(&n.to_string()), M::Grp(v) => { s.push('('); s.push_str(&want(v)); s.push(')'); } } }
    s
}
/// The tokens as iteration shows them.
fn seen(t: TokenStream) -> String {
    let mut s = String::new();
    for t in t {
        if !s.is_empty() { s.push(' '); }
        match t { TokenTree::Group(g) => { s.push('('); s.push_str(&seen(g.stream())); s.push(')'); } t => s.push_str(&t.to_string()) }
    }
    s
}
struct St { a: TokenStream, am: Vec<M>, b: TokenStream, bm: Vec<M>, g: Option<(Group, Vec<M>)>, it: Option<(token_stream::IntoIter, Vec<M>)>, n: usize }
fn init(form: usize) -> St {
    let mut st = St { a: TokenStream::new(), am: vec![], b: TokenStream::new(), bm: vec![], g: None, it: None, n: 3 };
    if form == 1 {
        let mut inner = TokenStream::new();
        inner.extend(vec![tok(1), tok(2)]);
        st.a.extend(vec![tok(0), TokenTree::Group(Group::new(Delimiter::Parenthesis, inner))]);
        st.am = vec![M::Tok(0), M::Grp(vec![M::Tok(1), M::Tok(2)])];
    } else if form == 2 {
        st.a = match "0 (1 2)".parse() { Ok(s) => s, Err(_) => vp::fail("the parser rejects a plain text") };
        st.am = vec![M::Tok(0), M::Grp(vec![M::Tok(1), M::Tok(2)])];
    }
    st
}
const OPS: usize = 17;
fn step(st: &mut St, op: usize) {
    match op {
        0 => { st.a.extend(Some(tok(st.n))); st.am.push(M::Tok(st.n)); st.n += 1; }
        1 => { st.b = st.a.clone(); st.bm = st.am.clone(); }
        2 => { st.a.extend(Some(st.b.clone())); st.am.extend(st.bm.clone()); }
        3 => { let b = std::mem::replace(&mut st.b, TokenStream::new()); let bm = std::mem::replace(&mut st.bm, vec![]); st.a.extend(vec![b]); st.am.extend(bm); }
        4 => { st.g = Some((Group::new(Delimiter::Parenthesis, st.a.clone()), st.am.clone())); }
        5 => { if let Some((g, m)) = &st.g { st.b = g.stream(); st.bm = m.clone(); } }
        6 => { if let Some((g, m)) = &st.g { st.a.extend(Some(TokenTree::Group(g.clone()))); st.am.push(M::Grp(m.clone())); } }
        7 => { st.it = Some((st.a.clone().into_iter(), st.am.clone())); }
        8 => { if let Some((it, m)) = &mut st.it { let t = it.next(); vp::check(t.is_some() == !m.is_empty(), "an iterator ends early or late"); if let Some(t) = t { let w = want(&[m.remove(0)]); vp::check(TokenStream::from(t).to_string() == w, "an iterator yields another token"); } } }
        9 => { if let Some((it, m)) = &st.it { let mut c = it.clone(); let _ = c.next(); let rest: TokenStream = c.collect(); let w = if m.is_empty() { String::new() } else { want(&m[1..]) }; vp::check(rest.to_string() == w, "the clone of an iterator yields other tokens"); } }
        10 => { st.b = TokenStream::new(); st.bm = vec![]; }
        11 => { std::mem::swap(&mut st.a, &mut st.b); std::mem::swap(&mut st.am, &mut st.bm); }
        12 => { st.a = vec![st.a.clone(), st.b.clone()].into_iter().collect(); st.am.extend(st.bm.clone()); }
        13 => { if let Some(TokenTree::Group(g)) = st.a.clone().into_iter().last() { st.b = g.stream(); st.bm = match st.am.last() { Some(M::Grp(m)) => m.clone(), _ => vp::fail("the last token changed its kind") }; } }
        14 => { if let Some((it, m)) = st.it.take() { st.b = it.collect(); st.bm = m; } }
        15 => { if let Some((g, _)) = &mut st.g { let mut c = g.clone(); c.set_span(Span::call_site()); g.set_span(Span::call_site()); drop(c); } }
        _ => { let a = std::mem::replace(&mut st.a, TokenStream::new()); let v: Vec<TokenTree> = a.into_iter().collect(); vp::check(v.len() == st.am.len(), "iteration loses or duplicates tokens"); st.a = v.into_iter().collect(); }
    }
}
fn finish(st: St, form: usize) {
    vp::check(st.a.is_empty() == st.am.is_empty() && st.b.is_empty() == st.bm.is_empty(), "is_empty");
    if form == 0 {
        vp::check(st.a.to_string() == want(&st.am), "a stream shows other tokens than it holds");
        vp::check(st.b.to_string() == want(&st.bm), "a clone changed");
        if let Some((g, m)) = &st.g { vp::check(g.stream().to_string() == want(m), "a group changed"); }
        if let Some((it, m)) = st.it { vp::check(it.size_hint().0 <= m.len(), "size_hint"); vp::check(it.collect::<TokenStream>().to_string() == want(&m), "an iterator changed"); }
    } else {
        let (a, b) = (seen(st.a), seen(st.b));
        vp::check(a == want(&st.am), "iteration yields other tokens than the stream holds");
        vp::check(b == want(&st.bm), "iteration of a clone yields other tokens");
        if let Some((it, m)) = st.it { vp::check(it.collect::<TokenStream>().to_string() == want(&m), "an iterator changed"); }
        if let Some((g, m)) = st.g { vp::check(seen(g.stream()) == want(&m), "a group changed"); }
    }
}
fn history(n: usize) {
    let mut st = init(vp::choose(3));
    let mut i = 0;
    while i < n { let op = vp::choose(OPS); step(&mut st, op); i += 1; }
    finish(st, vp::choose(2));
}
pub fn ob_c07_history3() { history(3) }
pub fn ob_c07_deep_history4() { history(4) }
/// Everything that is built is freed exactly once.
pub fn ob_c07_freed() { freed(2) }
pub fn ob_c07_deep_freed3() { freed(3) }
fn freed(n: usize) {
    let form = vp::choose(3);
    let mut ops = vec![];
    while ops.len() < n { ops.push(vp::choose(OPS)); }
    let mut live = [0; 3];
    let mut k = 0;
    while k < 3 {
        let mut st = init(form);
        let mut i = 0;
        while i < ops.len() { step(&mut st, ops[i]); i += 1; }
        drop(st);
        live[k] = vp::live();
        k += 1;
    }
    vp::check(live[1] == live[2], "tokens are leaked");
}
/// Dropping deeply shared structures.
pub fn ob_c07_drop_shared() {
    let share = vp::choose(4);
    let order = vp::choose(2);
    let s: TokenStream = match "a (b [c {d}] e) f".parse() { Ok(s) => s, Err(_) => vp::fail("the parser rejects a plain text") };
    let text = s.to_string();
    let inner = match s.clone().into_iter().nth(1) { Some(TokenTree::Group(g)) => g, _ => vp::fail("group expected") };
    let kept = inner.stream();
    let kept_text = "b [c { d }] e";
    let other = match share { 0 => s.clone(), 1 => kept.clone(), 2 => TokenStream::from(TokenTree::Group(inner.clone())), _ => vec![s.clone(), kept.clone()].into_iter().collect() };
    let other_text = other.to_string();
    if order == 0 { drop(s); drop(inner); vp::check(kept.to_string() == kept_text, "a substream changed when its owner was dropped"); vp::check(other.to_string() == other_text, "a clone changed when the original was dropped"); }
    else { drop(other); drop(kept); vp::check(s.to_string() == text, "the original changed when a clone was dropped"); vp::check(inner.stream().to_string() == kept_text, "a group changed when its stream was dropped"); }
}
