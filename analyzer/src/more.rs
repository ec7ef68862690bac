//! Further models of the standard library: mostly redirections to plain loops in harness/src/shims.rs.
use crate::dom::*;
use crate::interp::*;
use crate::native::*;
use crate::state::*;
use rustc_public::mir::mono::Instance;
use std::rc::Rc;

pub fn classify(e: &Eng, _inst: Instance, name: &str) -> Option<Kind> {
    let sh = |n: &str, v: &[usize]| Some(shim(e, n, Sel::Idx(v.to_vec())));
    match name {
        // ---- searching in texts
        "<std::str::pattern::CharSearcher<'a> as std::str::pattern::Searcher<'a>>::next_match" => return sh("char_next_match", &[]),
        "<std::str::pattern::CharSearcher<'a> as std::str::pattern::ReverseSearcher<'a>>::next_match_back" => return sh("char_next_match_back", &[]),
        "<&'b str as std::str::pattern::Pattern>::into_searcher" => return sh("str_searcher", &[]),
        "std::str::pattern::StrSearcher::<'a, 'b>::new" => return sh("str_searcher_rev", &[]),
        "<std::str::pattern::StrSearcher<'a, 'b> as std::str::pattern::Searcher<'a>>::next_match" => return sh("str_next_match", &[]),
        "<std::str::pattern::StrSearcher<'a, 'b> as std::str::pattern::ReverseSearcher<'a>>::next_match_back" => return sh("str_next_match_back", &[]),
        "core::slice::memchr::memchr" => return sh("memchr", &[]),
        "core::slice::memchr::memrchr" => return sh("memrchr", &[]),
        // ---- String
        "std::string::String::split_off" => return sh("string_split_off", &[]),
        "std::string::String::replace_range" => return sh("string_replace_range", &[0]),
        "std::string::String::drain" => return sh("string_drain", &[0]),
        "<std::string::Drain<'_> as std::iter::Iterator>::next" => return sh("string_drain_next", &[]),
        "<std::string::Drain<'_> as std::iter::DoubleEndedIterator>::next_back" => return sh("string_drain_next_back", &[]),
        "<std::string::Drain<'_> as std::ops::Drop>::drop" => return Some(Kind::Native(|_, _, _| unit())),
        "std::string::String::retain" => return sh("string_retain", &[0]),
        "std::str::<impl str>::replace" => return sh("str_replace", &[0]),
        "std::str::<impl str>::replacen" => return sh("str_replacen", &[0]),
        "<std::string::String as std::iter::Extend<std::string::String>>::extend" => return sh("string_extend_string", &[0]),
        "<std::string::String as std::iter::Extend<&'a char>>::extend" => return sh("string_extend_ref_char", &[0]),
        "<std::string::String as std::iter::FromIterator<std::string::String>>::from_iter" => return sh("string_from_iter_string", &[0]),
        "<std::string::String as std::iter::FromIterator<&'a char>>::from_iter" => return sh("string_from_iter_ref_char", &[0]),
        "std::str::<impl std::borrow::Borrow<str> for std::string::String>::borrow" => return Some(Kind::Native(|e, st, cx| { let p = pa(e, st, cx, 0)?; v(Val::ptr(whole(e, st, &thin(&p))?)) })),
        "std::str::<impl str>::to_lowercase" | "std::str::<impl str>::to_uppercase" => return Some(Kind::Native(|e, st, cx| {
            let s = text(e, st, cx, 0)?;
            let mut t = String::new();
            for x in &s { match x { Seg::Ch(l, _) => match l.konst().and_then(|c| char::from_u32(c as u32)) { Some(c) => t.push(c), None => return unk("case of an abstract text") }, _ => return unk("case of an abstract text") } }
            v(new_string(lit(&if cx.name.ends_with("lowercase") { t.to_lowercase() } else { t.to_uppercase() })))
        })),
        "core::unicode::unicode_data::conversions::to_upper" | "core::unicode::unicode_data::conversions::to_lower" => return Some(Kind::Native(|e, st, cx| {
            let l = int(e, st, cx, 0)?;
            let c = st.norm(&l);
            let Some(c) = c.konst().and_then(|c| char::from_u32(c as u32)) else { return unk("case of an abstract character") };
            let mut o: Vec<Val> = if cx.name.ends_with("upper") { c.to_uppercase().map(|c| Val::k(c as i128)).collect() } else { c.to_lowercase().map(|c| Val::k(c as i128)).collect() };
            while o.len() < 3 { o.push(Val::k(0)); }
            v(Val::seq(o))
        })),
        "<bool as std::fmt::Display>::fmt" | "<bool as std::fmt::Debug>::fmt" => return sh("bool_fmt", &[]),
        // ---- slices and vectors
        "<std::vec::Vec<T> as std::convert::From<[T; N]>>::from" => return Some(Kind::Native(|_, _, cx| v(cx.args[0].clone()))),
        "<std::vec::Vec<T> as std::convert::From<&[T]>>::from" => return sh("slice_to_vec", &[0]),
        "<std::vec::Vec<u8> as std::convert::From<&str>>::from" => return sh("vec_from_str", &[]),
        "std::vec::Vec::<T, A>::retain" => return sh("vec_retain", &[0, 2]),
        "std::vec::Vec::<T, A>::retain_mut" => return sh("vec_retain_mut", &[0, 2]),
        "std::vec::Vec::<T, A>::resize" => return sh("vec_resize", &[0]),
        "std::vec::Vec::<T, A>::dedup" => return sh("vec_dedup", &[0]),
        "<std::vec::Vec<T, A1> as std::cmp::PartialOrd<std::vec::Vec<T, A2>>>::partial_cmp" => return sh("vec_partial_cmp", &[0]),
        "<std::vec::Vec<T, A> as std::cmp::Ord>::cmp" => return sh("vec_cmp", &[0]),
        "std::slice::<impl [T]>::sort" | "core::slice::<impl [T]>::sort_unstable" => return sh("slice_sort", &[0]),
        "std::slice::<impl [T]>::sort_by" | "core::slice::<impl [T]>::sort_unstable_by" => return sh("slice_sort_by", &[0, 1]),
        "std::slice::<impl [T]>::sort_by_key" | "core::slice::<impl [T]>::sort_unstable_by_key" | "std::slice::<impl [T]>::sort_by_cached_key" => return sh("slice_sort_by_key", &[0, 1, 2]),
        "core::slice::<impl [T]>::rotate_left" => return sh("slice_rotate_left", &[0]),
        "core::slice::<impl [T]>::rotate_right" => return sh("slice_rotate_right", &[0]),
        "core::slice::<impl [T]>::copy_from_slice" | "core::slice::<impl [T]>::clone_from_slice" => return sh("slice_clone_from_slice", &[0]),
        "core::slice::<impl [T]>::fill" => return sh("slice_fill", &[0]),
        "<[V] as std::slice::Join<&S>>::join" | "<[S] as std::slice::Join<&str>>::join" | "std::str::<impl std::slice::Join<&str> for [S]>::join" => return sh("strs_join", &[0]),
        "<[S] as std::slice::Concat<str>>::concat" | "std::str::<impl std::slice::Concat<str> for [S]>::concat" => return sh("strs_concat", &[0]),
        "std::slice::<impl std::slice::Concat<T> for [V]>::concat" | "<[V] as std::slice::Concat<T>>::concat" => return sh("slices_concat", &[0, 1]),
        "<A as core::slice::cmp::SlicePartialEq<B>>::equal_same_length" => return sh("slice_eq_same_len", &[0, 1]),
        "<std::vec::Vec<T, A> as std::fmt::Debug>::fmt" => return sh("vec_fmt_debug", &[0]),
        "std::slice::<impl [T]>::to_ascii_lowercase" | "std::str::<impl str>::to_ascii_lowercase" => return sh("str_to_ascii_lowercase", &[]),
        "std::str::<impl str>::to_ascii_uppercase" => return sh("str_to_ascii_uppercase", &[]),
        "<std::boxed::Box<T, A> as std::clone::Clone>::clone" | "<std::boxed::Box<T> as std::clone::Clone>::clone" => return sh("box_clone", &[0]),
        // ---- once
        "std::sync::OnceLock::<T>::get_or_init" => return sh("once_lock_get_or_init", &[0, 1]),
        "std::sync::OnceLock::<T>::get" => return sh("once_lock_get", &[0]),
        "std::sync::OnceLock::<T>::set" => return sh("once_lock_set", &[0]),
        // ---- maps
        "std::collections::BTreeMap::<K, V, A>::contains_key" => return sh("btree_contains_key", &[0, 1]),
        "std::collections::BTreeMap::<K, V, A>::remove" => return sh("btree_remove", &[0, 1]),
        "std::collections::BTreeMap::<K, V, A>::get_mut" => return sh("btree_get_mut", &[0, 1]),
        "std::collections::BTreeMap::<K, V, A>::first_key_value" => return sh("btree_first", &[0, 1]),
        "std::collections::BTreeMap::<K, V, A>::last_key_value" => return sh("btree_last", &[0, 1]),
        "std::collections::BTreeMap::<K, V, A>::pop_last" => return sh("btree_pop_last", &[0, 1]),
        "std::collections::BTreeMap::<K, V, A>::pop_first" => return sh("btree_pop_first", &[0, 1]),
        "std::collections::BTreeMap::<K, V, A>::iter" => return sh("btree_range_RangeFull", &[0, 1]),
        "std::collections::BTreeMap::<K, V, A>::keys" => return sh("btree_range_RangeFull", &[0, 1]),
        "std::collections::BTreeMap::<K, V, A>::values" => return sh("btree_range_RangeFull", &[0, 1]),
        "<std::collections::btree_map::Iter<'a, K, V> as std::iter::Iterator>::next" => return sh("entries_next", &[0, 1]),
        "<std::collections::btree_map::Iter<'a, K, V> as std::iter::DoubleEndedIterator>::next_back" => return sh("entries_next_back", &[0, 1]),
        "<std::collections::btree_map::Keys<'a, K, V> as std::iter::Iterator>::next" => return sh("keys_next", &[0, 1]),
        "<std::collections::btree_map::Keys<'a, K, V> as std::iter::DoubleEndedIterator>::next_back" => return sh("keys_next_back", &[0, 1]),
        "<std::collections::btree_map::Values<'a, K, V> as std::iter::Iterator>::next" => return sh("values_next", &[0, 1]),
        "<std::collections::btree_map::Values<'a, K, V> as std::iter::DoubleEndedIterator>::next_back" => return sh("values_next_back", &[0, 1]),
        // ---- formatting
        "std::fmt::Formatter::<'a>::debug_struct_field1_finish" => return sh("dbg_struct1", &[]),
        "std::fmt::Formatter::<'a>::debug_struct_field2_finish" => return sh("dbg_struct2", &[]),
        "std::fmt::Formatter::<'a>::debug_struct_field3_finish" => return sh("dbg_struct3", &[]),
        "std::fmt::Formatter::<'a>::debug_struct_field4_finish" => return sh("dbg_struct4", &[]),
        "std::fmt::Formatter::<'a>::debug_tuple_field2_finish" => return sh("dbg_tuple2", &[]),
        "std::fmt::Formatter::<'a>::pad" => return Some(Kind::Native(|e, st, cx| { let s = text(e, st, cx, 1)?; pad_text(e, st, cx, 0, s) })),
        "<str as std::fmt::Display>::fmt" | "<std::string::String as std::fmt::Display>::fmt" => return Some(Kind::Native(|e, st, cx| { let s = text(e, st, cx, 0)?; pad_text(e, st, cx, 1, s) })),
        _ => {}
    }
    None
}
/// Text padded as the formatter asks (width only, for texts of known length).
fn pad_text(e: &Eng, st: &mut State, cx: &CallCx, f: usize, s: Vec<Seg>) -> R<Ret> {
    let (fl, w) = fmt_opts(e, st, cx, f)?;
    let fm = cx.args[f].clone();
    if fl & (1 << 28) != 0 { return unk("precision of a text"); }
    if fl & (1 << 27) == 0 { return fmt_write_text(e, st, &fm, s); }
    if !s.iter().all(|x| matches!(x, Seg::Ch(..))) { return unk("padding of an abstract text"); }
    let w = (w & 0xffff) as usize;
    let n = w.saturating_sub(s.len());
    let fill = fl & 0x1f_ffff;
    let (a, b) = match (fl >> 29) & 3 { 1 => (n, 0), 2 => (n / 2, n - n / 2), _ => (0, n) };
    let c = Seg::Ch(Lin::k(fill as i128), None);
    let mut o = vec![c.clone(); a];
    o.extend(s);
    o.extend(vec![c; b]);
    fmt_write_text(e, st, &fm, o)
}
/// compare_bytes(a, b, n)
pub fn compare_bytes(e: &Eng, st: &mut State, cx: &CallCx) -> R<Ret> {
    let (p, q) = (pa(e, st, cx, 0)?, pa(e, st, cx, 1)?);
    let n = int(e, st, cx, 2)?;
    let n = st.enumerate(&n, 512)?;
    for i in 0..n {
        let (a, b) = (ptr_offset(e, st, &p, &Lin::k(i))?, ptr_offset(e, st, &q, &Lin::k(i))?);
        let (Val::Ptr(a), Val::Ptr(b)) = (a, b) else { return unk("compare_bytes") };
        let (x, y) = (st.read(&a)?, st.read(&b)?);
        let (x, y) = (e.to_int(st, &x)?, e.to_int(st, &y)?);
        let d = st.norm(&x.sub(&y));
        if st.decide(&d, &ISet::single(0))? { continue; }
        return v(Val::k(if st.decide(&d, &ISet::range(-INF, 0))? { -1 } else { 1 }));
    }
    v(Val::k(0))
}
fn flat(st: &mut State, x: &Val, out: &mut Vec<Lin>) -> R<()> {
    match x {
        Val::Int(l) => { out.push(l.clone()); Ok(()) }
        Val::Seq(s) => { for y in s.iter() { flat(st, y, out)?; } Ok(()) }
        Val::Str(s) => { let n = st.segs_len(s)?; let n = st.enumerate(&n, 512)?; for i in 0..n { let b = st.str_byte(s, &Lin::k(i))?; out.push(b); } Ok(()) }
        _ => unk("raw_eq"),
    }
}
pub fn raw_eq(e: &Eng, st: &mut State, cx: &CallCx) -> R<Ret> {
    let (p, q) = (pa(e, st, cx, 0)?, pa(e, st, cx, 1)?);
    let (mut a, mut b) = (vec![], vec![]);
    let n = match cx.targs[0].kind() { rustc_public::ty::TyKind::RigidTy(rustc_public::ty::RigidTy::Array(_, n)) => n.eval_target_usize().ok(), _ => None };
    for (p, a) in [(&p, &mut a), (&q, &mut b)] {
        // a pointer to the first element of the array, inside a longer sequence or a text
        if let (Some(n), Some(PE::Elem(_) | PE::Byte(_))) = (n, p.path.last()) {
            for i in 0..n as i128 { let Val::Ptr(r) = ptr_offset(e, st, p, &Lin::k(i))? else { return unk("raw_eq") }; let x = st.read(&r)?; flat(st, &x, a)?; }
        } else if let (Some(n), Meta::Slice(f, _)) = (n, p.meta.clone()) {
            for i in 0..n as i128 { let r = elem_lin(st, p, &f.add(&Lin::k(i)))?; let x = st.read(&r)?; flat(st, &x, a)?; }
        } else { let x = st.read(p)?; flat(st, &x, a)?; }
    }
    if a.len() != b.len() { return unk("raw_eq"); }
    for (x, y) in a.iter().zip(&b) { let d = st.norm(&x.sub(y)); if !st.decide(&d, &ISet::single(0))? { return v(Val::bool(false)); } }
    v(Val::bool(true))
}
/// Bit counting of known integers.
pub fn bits(e: &Eng, st: &mut State, cx: &CallCx) -> R<Ret> {
    let l = int(e, st, cx, 0)?;
    let Some(x) = st.norm(&l).konst() else { return unk("bits of an abstract integer") };
    let w = cx.targs[0].layout().map_err(|x| Stop::Unknown(format!("{:?}", x)))?.shape().size.bytes() as u32 * 8;
    if w > 64 { return unk("bits of a wide integer"); }
    let m: u128 = (1 << w) - 1;
    let x = x as u128 & m;
    let n = cx.name.rsplit("::").next().unwrap_or("");
    let sgn = |y: u128| -> i128 { y as i128 };
    v(Val::k(match n {
        "ctpop" => x.count_ones() as i128,
        "ctlz" | "ctlz_nonzero" => (x.leading_zeros() - (128 - w)) as i128,
        "cttz" | "cttz_nonzero" => if x == 0 { w as i128 } else { x.trailing_zeros() as i128 },
        "rotate_left" | "rotate_right" => {
            let k = int(e, st, cx, 1)?;
            let Some(k) = st.norm(&k).konst() else { return unk("rotation") };
            let k = (k as u32) % w;
            let k = if n == "rotate_left" { k } else { (w - k) % w };
            sgn(((x << k) | (x >> ((w - k) % w))) & m)
        }
        _ => return unk("bits"),
    }))
}
#[allow(dead_code)]
fn _unused(_: Rc<u8>) {}
