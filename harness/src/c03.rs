//! C03: appends to a compiler stream are observed exactly once and in order.
use crate::{c01::*, h, vp};
use proc_macro2::*;
type PStream = proc_macro::TokenStream;
type PTree = proc_macro::TokenTree;
fn lit(i: usize) -> PTree { PTree::Literal(proc_macro::Literal::usize_unsuffixed(i)) }
struct St { s: TokenStream, e: PStream, n: usize }
impl St {
    fn fresh(&mut self) -> PTree { self.n += 1; lit(self.n) }
    fn check(&self, m: &str) { vp::check(vp::same(&PStream::from(self.s.clone()), &self.e), m) }
}
/// A stream with its own pending tokens.
fn deferred(st: &mut St) -> (TokenStream, PStream) {
    let (mut t, mut e) = (TokenStream::new(), PStream::new());
    let form = vp::choose(3);
    if form > 0 { let x = st.fresh(); t.extend(Some(wrap(x.clone()))); vp::pm_push(&mut e, x); }
    if form > 1 { t.extend(Some(TokenStream::from(vp::opaque_stream("inner")))); vp::pm_append(&mut e, vp::opaque_stream("inner")); let x = st.fresh(); t.extend(Some(wrap(x.clone()))); vp::pm_push(&mut e, x); }
    (t, e)
}
fn init() -> St {
    start();
    let mut st = St { s: TokenStream::new(), e: PStream::new(), n: 0 };
    match vp::choose(4) {
        0 => {}
        1 => { st.s = TokenStream::from(vp::opaque_stream("start")); st.e = vp::opaque_stream("start"); }
        2 => { let x = st.fresh(); st.s = TokenStream::from(wrap(x.clone())); vp::pm_push(&mut st.e, x); }
        _ => { let (x, y) = (st.fresh(), st.fresh()); st.s = vec![wrap(x.clone()), wrap(y.clone())].into_iter().collect(); vp::pm_push(&mut st.e, x); vp::pm_push(&mut st.e, y); }
    }
    st
}
fn step(st: &mut St, op: usize) {
    match op {
        0 => { let x = st.fresh(); st.s.extend(Some(wrap(x.clone()))); vp::pm_push(&mut st.e, x); }
        1 => { let (x, y) = (st.fresh(), st.fresh()); st.s.extend(vec![wrap(x.clone()), wrap(y.clone())]); vp::pm_push(&mut st.e, x); vp::pm_push(&mut st.e, y); }
        2 => { let (t, e) = deferred(st); st.s.extend(Some(t)); vp::pm_append(&mut st.e, e); }
        3 => { // a clone is independent: change it, go on with the original
            let mut c = st.s.clone(); let x = st.fresh(); let mut ce = st.e.clone(); c.extend(Some(wrap(x.clone()))); vp::pm_push(&mut ce, x);
            st.check("changing a clone changes the original");
            let y = st.fresh(); st.s.extend(Some(wrap(y.clone()))); vp::pm_push(&mut st.e, y);
            vp::check(vp::same(&PStream::from(c), &ce), "changing the original changes a clone");
        }
        4 => { vp::check(st.s.is_empty() == st.e.is_empty(), "TokenStream::is_empty"); st.check("is_empty changes the stream"); }
        5 => { vp::check(st.s.to_string() == st.e.to_string(), "Display does not show the tokens"); st.check("Display changes the stream"); }
        6 => { vp::check(format!("{:?}", st.s) == format!("{:?}", st.e), "Debug does not show the tokens"); st.check("Debug changes the stream"); }
        7 => { // go on with a collection of streams
            let s = std::mem::replace(&mut st.s, TokenStream::new());
            let (t, e) = deferred(st);
            let (u, f) = deferred(st);
            st.s = vec![s, t, u].into_iter().collect(); vp::pm_append(&mut st.e, e); vp::pm_append(&mut st.e, f);
        }
        8 => { // pass through a group
            let s = std::mem::replace(&mut st.s, TokenStream::new());
            let g = Group::new(Delimiter::Bracket, s);
            let e = std::mem::replace(&mut st.e, PStream::new());
            let p = proc_macro::Group::new(proc_macro::Delimiter::Bracket, e);
            vp::check(vp::same(&unwrap(TokenTree::Group(g.clone())), &PTree::Group(p.clone())), "a group does not hold the tokens of its stream");
            st.s = g.stream(); st.e = p.stream();
        }
        9 => { // appended to another stream
            let s = std::mem::replace(&mut st.s, TokenStream::new());
            let e = std::mem::replace(&mut st.e, PStream::new());
            let (t, f) = deferred(st);
            st.s = t; st.e = f; st.s.extend(vec![s]); vp::pm_append(&mut st.e, e);
        }
        10 => { let v: Vec<TokenTree> = Vec::new(); st.s.extend(v); st.check("appending no token"); }
        11 => { let v: Vec<TokenStream> = Vec::new(); st.s.extend(v); st.check("appending no stream"); }
        _ => { let s = std::mem::replace(&mut st.s, TokenStream::new()); let p = PStream::from(s); vp::check(vp::same(&p, &st.e), "conversion to proc_macro::TokenStream"); st.s = TokenStream::from(p); }
    }
}
/// Every history of at most three operations, then every observation.
pub fn ob_c03_history() {
    let mut st = init();
    let n = vp::choose(4);
    let mut i = 0;
    while i < n { let op = vp::choose(13); step(&mut st, op); i += 1; }
    vp::check(st.s.is_empty() == st.e.is_empty(), "TokenStream::is_empty");
    vp::check(st.s.to_string() == st.e.to_string(), "Display does not show the tokens");
    st.check("tokens are lost, duplicated or reordered");
}
/// Iteration after histories without abstract parts.
pub fn ob_c03_iterate() {
    start();
    let mut st = St { s: TokenStream::new(), e: PStream::new(), n: 0 };
    let n = vp::choose(5);
    let mut i = 0;
    while i < n {
        match vp::choose(5) {
            0 => step(&mut st, 0), 1 => step(&mut st, 1), 2 => step(&mut st, 3),
            3 => { let mut t = TokenStream::new(); let x = st.fresh(); t.extend(Some(wrap(x.clone()))); st.s.extend(Some(t)); vp::pm_push(&mut st.e, x); }
            _ => { let c = st.s.clone().into_iter(); drop(c); }
        }
        i += 1;
    }
    let empty = st.s.is_empty();
    let (mut a, mut b) = (st.s.into_iter(), st.e.into_iter());
    let mut k = 0;
    loop {
        vp::check(vp::same(&a.size_hint(), &b.size_hint()), "size_hint");
        match (a.next(), b.next()) { (Some(x), Some(y)) => vp::check(vp::same(&unwrap(x), &y), "iteration yields another token"), (None, None) => break, _ => vp::fail("iteration ends early or late") }
        k += 1;
    }
    vp::check(empty == (k == 0), "is_empty disagrees with iteration");
}
/// Many single appends with an observation in between.
pub fn ob_c03_long() {
    start();
    let mut st = St { s: TokenStream::new(), e: PStream::new(), n: 0 };
    let total = [33, 65, 129, 257][vp::choose(4)];
    let cut = vp::choose(3);
    let mut i = 0;
    while i < total {
        step(&mut st, 0);
        if cut == 1 && i == 20 { vp::check(st.s.to_string() == st.e.to_string(), "Display does not show the tokens"); }
        if cut == 2 && i % 50 == 7 { let mut t = TokenStream::new(); let x = st.fresh(); t.extend(Some(wrap(x.clone()))); st.s.extend(Some(t)); vp::pm_push(&mut st.e, x); }
        i += 1;
    }
    vp::check(!st.s.is_empty(), "a stream of many tokens is empty");
    st.check("tokens are lost, duplicated or reordered");
    let mut v = vec![];
    let mut e = PStream::new();
    let mut i = 0;
    while i < total { v.push(wrap(lit(i))); vp::pm_push(&mut e, lit(i)); i += 1; }
    vp::check(vp::same(&PStream::from(v.into_iter().collect::<TokenStream>()), &e), "collecting many tokens loses or reorders some");
}
/// Several tokens of one kind at once, by the typed routes and by trees.
pub fn ob_c03_typed() {
    let mut st = init();
    let n = vp::choose(4);
    match vp::choose(5) {
        0 => { let mut v = vec![]; for k in 0..n { let x = vp::opaque::<proc_macro::Group>(["g0", "g1", "g2"][k]); vp::pm_push(&mut st.e, PTree::Group(x.clone())); match wrap(PTree::Group(x)) { TokenTree::Group(x) => v.push(x), _ => vp::fail("kind") } } st.s.extend(v); }
        1 => { let mut v = vec![]; for k in 0..n { let x = vp::opaque::<proc_macro::Ident>(["i0", "i1", "i2"][k]); vp::pm_push(&mut st.e, PTree::Ident(x.clone())); match wrap(PTree::Ident(x)) { TokenTree::Ident(x) => v.push(x), _ => vp::fail("kind") } } st.s.extend(v); }
        2 => { let mut v = vec![]; for k in 0..n { let x = vp::opaque::<proc_macro::Literal>(["l0", "l1", "l2"][k]); vp::pm_push(&mut st.e, PTree::Literal(x.clone())); match wrap(PTree::Literal(x)) { TokenTree::Literal(x) => v.push(x), _ => vp::fail("kind") } } st.s.extend(v); }
        3 => { let mut v = vec![]; for k in 0..n { let x = proc_macro::Punct::new(['<', '-', '\''][k], if k == 1 { proc_macro::Spacing::Alone } else { proc_macro::Spacing::Joint }); vp::pm_push(&mut st.e, PTree::Punct(x.clone())); match wrap(PTree::Punct(x)) { TokenTree::Punct(x) => v.push(x), _ => vp::fail("kind") } } st.s.extend(v); }
        _ => { let mut v = vec![]; for k in 0..n { let x = ptree(k); vp::pm_push(&mut st.e, x.clone()); v.push(wrap(x)); } if vp::choose(2) == 0 { st.s.extend(v); } else { st.s.extend(v.into_iter().filter(|_| true)); } }
    }
    st.check("tokens appended at once are lost, duplicated or reordered");
    let x = st.fresh(); st.s.extend(Some(wrap(x.clone()))); vp::pm_push(&mut st.e, x);
    st.check("tokens appended afterwards are lost, duplicated or reordered");
}
