//! C05: backend selection.
use crate::{c02::is_c, h, vp};
use proc_macro2::*;
fn used(op: usize) -> bool {
    match op {
        0 => is_c(Span::call_site()),
        1 => is_c(Group::new(Delimiter::None, TokenStream::new()).span()),
        2 => is_c(Literal::string("x").span()),
        3 => is_c(Punct::new('+', Spacing::Alone).span()),
        4 => is_c(Group::new(Delimiter::None, Vec::<TokenTree>::new().into_iter().collect()).span()),
        5 => is_c(Literal::u8_suffixed(1).span()),
        _ => is_c(Span::mixed_site()),
    }
}
/// Every history of uses, force, unforce and changes of availability.
pub fn ob_c05_history() {
    let mut avail = vp::choose(2) == 1;
    vp::set_available(avail);
    let mut decided: Option<bool> = None;
    let n = 6;
    let mut i = 0;
    while i < n {
        match vp::choose(5) {
            0 => break,
            1 => { fallback::force(); decided = Some(false); }
            2 => { fallback::unforce(); decided = Some(avail); }
            3 => { avail = !avail; vp::set_available(avail); }
            _ => {
                let want = match decided { Some(d) => d, None => { decided = Some(avail); avail } };
                let op = if i == 0 { vp::choose(7) } else { i % 7 };
                vp::check(used(op) == want, "the wrong backend is used");
            }
        }
        i += 1;
    }
    let want = match decided { Some(d) => d, None => avail };
    vp::check(used(0) == want, "the wrong backend is used");
    vp::check(used(2) == want, "the decision is not kept");
    vp::check(used(1) == want, "the decision is not kept");
}
/// Each operation as the very first one.
pub fn ob_c05_first_use() {
    let avail = vp::choose(2) == 1;
    vp::set_available(avail);
    let op = vp::choose(7);
    vp::check(used(op) == avail, "first use picks the wrong backend");
    vp::set_available(!avail);
    let op = vp::choose(7);
    vp::check(used(op) == avail, "the decision is re-evaluated");
}
// ---- another thread
static mut CUR: usize = 0;
static mut AT: usize = 9;
static mut HERE: bool = false;
static mut THERE: bool = false;
static mut SEEN: Option<Span> = None;
fn there<R>(f: impl FnOnce() -> R) -> R { unsafe { AT = CUR; vp::set_available(THERE); let r = f(); vp::set_available(HERE); r } }
fn other_force() { there(fallback::force) }
fn other_unforce() { there(fallback::unforce) }
fn other_use() { let s = there(Span::call_site); unsafe { SEEN = Some(s); } }
/// The decision and the answer of an operation, from the decision before it.
fn spec(op: usize, decided: Option<bool>, avail: bool) -> (Option<bool>, Option<bool>) {
    match op { 0 => (Some(false), None), 1 => (Some(avail), None), _ => { let d = match decided { Some(d) => d, None => avail }; (Some(d), Some(d)) } }
}
/// Two operations on one thread, and one on another thread at any point between the accesses to shared state:
/// the outcome is that of the operations in one of the two possible orders.
pub fn ob_c05_threads() {
    let (a, b) = (vp::choose(2) == 1, vp::choose(2) == 1);
    unsafe { HERE = a; THERE = b; }
    vp::set_available(a);
    let other = vp::choose(3);
    let before = vp::choose(4);
    let mut first = None;
    if before < 3 { first = run(before); }
    let ops = [vp::choose(3), vp::choose(3)];
    match other { 0 => vp::interfere(other_force), 1 => vp::interfere(other_unforce), _ => vp::interfere(other_use) }
    let mut got: [Option<Span>; 2] = [None, None];
    let mut i = 0;
    while i < 2 { unsafe { CUR = i; } got[i] = run(ops[i]); i += 1; }
    vp::no_more_interference();
    let (at, seen) = unsafe { (AT, SEEN) };
    vp::input("first", &before); vp::input("ops", &ops); vp::input("other", &other); vp::input("at", &at);
    let end = is_c(Span::call_site());
    let mut ok = false;
    // the other thread's operation comes before or behind the operation it ran into
    let mut late = 0;
    while late < 2 {
        let mut d = None;
        if before < 3 { d = spec(before, d, a).0; }
        let mut good = true;
        let mut i = 0;
        while i < 2 {
            if at == i && late == 0 { let (n, r) = spec(other, d, b); d = n; good = good && same(seen, r); }
            let (n, r) = spec(ops[i], d, a); d = n; good = good && same(got[i], r);
            if at == i && late == 1 { let (n, r) = spec(other, d, b); d = n; good = good && same(seen, r); }
            i += 1;
        }
        ok = ok || (good && d == Some(end));
        late += 1;
    }
    vp::check(ok, "concurrent operations have an outcome that no order of them has");
    vp::check(is_c(Span::mixed_site()) == end, "the decision is not kept");
    let _ = first;
}
fn run(op: usize) -> Option<Span> { match op { 0 => { fallback::force(); None } 1 => { fallback::unforce(); None } _ => Some(Span::call_site()) } }
fn same(s: Option<Span>, r: Option<bool>) -> bool { match (s, r) { (Some(s), Some(r)) => is_c(s) == r, (None, None) => true, _ => false } }
/// The decision does not wear out: many uses, then a change.
pub fn ob_c05_size() {
    vp::patience(60_000_000);
    let avail = vp::choose(2) == 1;
    vp::set_available(avail);
    let n = 1030;
    let mut i = 0;
    while i < n { vp::check(used([0, 6][i % 2]) == avail, "the backend changes after many uses"); if i == 0 { vp::set_available(!avail); } i += 1; }
    fallback::force();
    i = 0;
    while i < n { vp::check(!used([0, 6][i % 2]), "force wears out"); i += 1; }
    fallback::unforce();
    vp::check(used(0) == !avail, "unforce after many uses");
    i = 0;
    while i < 300 { fallback::force(); vp::check(!used(0), "force after many"); fallback::unforce(); vp::check(used(0) == !avail, "unforce after many"); i += 1; }
}
