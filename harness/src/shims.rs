//! Plain-loop definitions the analysis uses in place of standard library operations whose own code
//! works on raw memory.
use crate::vp;
use std::fmt;
use std::ops::{ControlFlow, Try, FromResidual};

pub fn vec_drop<T>(v: &mut Vec<T>) { while let Some(x) = vp::seq_pop_front::<Vec<T>, T>(v) { drop(x); } }
pub fn vec_into_iter_drop<T>(v: &mut std::vec::IntoIter<T>) { while let Some(x) = vp::seq_pop_front::<std::vec::IntoIter<T>, T>(v) { drop(x); } }
pub fn array_into_iter_drop<T>(v: &mut std::array::IntoIter<T, 1>) { while let Some(x) = vp::seq_pop_front::<std::array::IntoIter<T, 1>, T>(v) { drop(x); } }
pub fn box_drop<T>(b: &mut Box<T>) { if vp::box_is_sized(b) { let x: T = vp::box_take::<Box<T>, T>(b); drop(x); } else { vp::box_kill(b); } }
pub fn rc_drop<T>(r: &mut std::rc::Rc<T>) {
    let n = vp::rc_count(r);
    if n > 1 { vp::rc_set_count(r, n - 1); } else { let x: T = vp::rc_take::<std::rc::Rc<T>, T>(r); drop(x); }
}
pub fn btree_drop<K, V>(m: &mut std::collections::BTreeMap<K, V>) { while let Some(x) = vp::seq_pop_front::<_, (K, V)>(m) { drop(x); } }
pub fn slice_drop<T>(v: &mut Vec<T>) { while let Some(x) = vp::seq_pop_front::<Vec<T>, T>(v) { drop(x); } }

pub fn it_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { while let Some(x) = it.next() { if !f(x) { return false; } } true }
pub fn it_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { while let Some(x) = it.next() { if f(x) { return true; } } false }
pub fn it_find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> { while let Some(x) = it.next() { if f(&x) { return Some(x); } } None }
pub fn it_position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> { let mut n = 0; while let Some(x) = it.next() { if f(x) { return Some(n); } n += 1; } None }
pub fn it_rposition<I: ExactSizeIterator + DoubleEndedIterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> { let mut n = it.len(); while let Some(x) = it.next_back() { n -= 1; if f(x) { return Some(n); } } None }
pub fn it_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, b: B, mut f: F) -> B { let mut b = b; while let Some(x) = it.next() { b = f(b, x); } b }
pub fn it_rfold<I: DoubleEndedIterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, b: B, mut f: F) -> B { let mut b = b; while let Some(x) = it.next_back() { b = f(b, x); } b }
pub fn it_try_fold<I: Iterator, B, F: FnMut(B, I::Item) -> R, R: Try<Output = B>>(it: &mut I, b: B, mut f: F) -> R {
    let mut b = b;
    while let Some(x) = it.next() { match f(b, x).branch() { ControlFlow::Continue(c) => b = c, ControlFlow::Break(r) => return <R as FromResidual<R::Residual>>::from_residual(r) } }
    R::from_output(b)
}
pub fn it_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) { while let Some(x) = it.next() { f(x); } }
pub fn it_count<I: Iterator>(mut it: I) -> usize { let mut n = 0; while let Some(_) = it.next() { n += 1; } n }
pub fn it_last<I: Iterator>(mut it: I) -> Option<I::Item> { let mut l = None; while let Some(x) = it.next() { l = Some(x); } l }
pub fn it_nth<I: Iterator>(it: &mut I, mut n: usize) -> Option<I::Item> { while let Some(x) = it.next() { if n == 0 { return Some(x); } n -= 1; } None }
pub fn it_nth_back<I: DoubleEndedIterator>(it: &mut I, mut n: usize) -> Option<I::Item> { while let Some(x) = it.next_back() { if n == 0 { return Some(x); } n -= 1; } None }
pub fn it_rfind<I: DoubleEndedIterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> { while let Some(x) = it.next_back() { if f(&x) { return Some(x); } } None }
pub fn it_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> { while let Some(x) = it.next() { if let Some(b) = f(x) { return Some(b); } } None }
pub fn it_advance_by<I: Iterator>(it: &mut I, n: usize) -> Result<(), std::num::NonZero<usize>> { let mut k = n; while k > 0 { if it.next().is_none() { return Err(std::num::NonZero::new(k).unwrap()); } k -= 1; } Ok(()) }
pub fn it_advance_back_by<I: DoubleEndedIterator>(it: &mut I, n: usize) -> Result<(), std::num::NonZero<usize>> { let mut k = n; while k > 0 { if it.next_back().is_none() { return Err(std::num::NonZero::new(k).unwrap()); } k -= 1; } Ok(()) }
pub fn it_is_empty<I: ExactSizeIterator>(it: &I) -> bool { it.len() == 0 }

macro_rules! pats { ($sw:ident $ew:ident $co:ident $fi:ident $rf:ident $sp:ident $ss:ident $ts:ident $te:ident $tm:ident $so:ident [$($g:tt)*] $p:ident : $t:ty => $m:expr) => {
    pub fn $sw $($g)* (s: &'static str, #[allow(unused_mut)] mut $p: $t) -> bool { match s.chars().next() { Some(c) => { #[allow(unused_mut)] let mut f = $m; f(c) } None => false } }
    pub fn $ew $($g)* (s: &'static str, #[allow(unused_mut)] mut $p: $t) -> bool { match s.chars().next_back() { Some(c) => { #[allow(unused_mut)] let mut f = $m; f(c) } None => false } }
    pub fn $co $($g)* (s: &'static str, #[allow(unused_mut)] mut $p: $t) -> bool { #[allow(unused_mut)] let mut f = $m; let mut it = s.chars(); while let Some(c) = it.next() { if f(c) { return true; } } false }
    pub fn $fi $($g)* (s: &'static str, #[allow(unused_mut)] mut $p: $t) -> Option<usize> { #[allow(unused_mut)] let mut f = $m; let mut it = s.char_indices(); while let Some((i, c)) = it.next() { if f(c) { return Some(i); } } None }
    pub fn $rf $($g)* (s: &'static str, #[allow(unused_mut)] mut $p: $t) -> Option<usize> { #[allow(unused_mut)] let mut f = $m; let mut it = s.char_indices(); while let Some((i, c)) = it.next_back() { if f(c) { return Some(i); } } None }
    pub fn $sp $($g)* (s: &'static str, #[allow(unused_mut)] mut $p: $t) -> Option<&'static str> { let mut it = s.chars(); match it.next() { Some(c) => { #[allow(unused_mut)] let mut f = $m; if f(c) { Some(it.as_str()) } else { None } } None => None } }
    pub fn $ss $($g)* (s: &'static str, #[allow(unused_mut)] mut $p: $t) -> Option<&'static str> { let mut it = s.chars(); match it.next_back() { Some(c) => { #[allow(unused_mut)] let mut f = $m; if f(c) { Some(it.as_str()) } else { None } } None => None } }
    pub fn $ts $($g)* (s: &'static str, #[allow(unused_mut)] mut $p: $t) -> &'static str { #[allow(unused_mut)] let mut f = $m; let mut it = s.chars(); loop { let here = it.as_str(); match it.next() { Some(c) if f(c) => {} _ => return here } } }
    pub fn $te $($g)* (s: &'static str, #[allow(unused_mut)] mut $p: $t) -> &'static str { #[allow(unused_mut)] let mut f = $m; let mut it = s.chars(); loop { let here = it.as_str(); match it.next_back() { Some(c) if f(c) => {} _ => return here } } }
    pub fn $tm $($g)* (s: &'static str, #[allow(unused_mut)] mut $p: $t) -> &'static str { #[allow(unused_mut)] let mut f = $m; let mut it = s.chars(); loop { let here = it.as_str(); match it.next() { Some(c) if f(c) => {} _ => { it = here.chars(); break; } } } loop { let here = it.as_str(); match it.next_back() { Some(c) if f(c) => {} _ => return here } } }
    pub fn $so $($g)* (s: &'static str, #[allow(unused_mut)] mut $p: $t) -> Option<(&'static str, &'static str)> { #[allow(unused_mut)] let mut f = $m; let mut it = s.char_indices(); while let Some((i, c)) = it.next() { if f(c) { return Some((&s[..i], &s[i + c.len_utf8()..])); } } None }
} }
pats!(str_starts_with_c str_ends_with_c str_contains_c str_find_c str_rfind_c str_strip_prefix_c str_strip_suffix_c str_trim_start_matches_c str_trim_end_matches_c str_trim_matches_c str_split_once_c [] p: char => |c: char| c == p);
pats!(str_starts_with_f str_ends_with_f str_contains_f str_find_f str_rfind_f str_strip_prefix_f str_strip_suffix_f str_trim_start_matches_f str_trim_end_matches_f str_trim_matches_f str_split_once_f [<F: FnMut(char) -> bool>] p: F => &mut p);
pats!(str_starts_with_a str_ends_with_a str_contains_a str_find_a str_rfind_a str_strip_prefix_a str_strip_suffix_a str_trim_start_matches_a str_trim_end_matches_a str_trim_matches_a str_split_once_a [] p: &'static [char] => |c: char| { let mut i = 0; while i < p.len() { if p[i] == c { return true; } i += 1; } false });
pats!(str_starts_with_aa str_ends_with_aa str_contains_aa str_find_aa str_rfind_aa str_strip_prefix_aa str_strip_suffix_aa str_trim_start_matches_aa str_trim_end_matches_aa str_trim_matches_aa str_split_once_aa [] p: Vec<char> => |c: char| { let mut i = 0; while i < p.len() { if p[i] == c { return true; } i += 1; } false });
pub fn str_find_s(s: &str, p: &str) -> Option<usize> { let mut i = 0; loop { if s.is_char_boundary(i) && s[i..].starts_with(p) { return Some(i); } if i >= s.len() { return None; } i += 1; } }
pub fn str_rfind_s(s: &str, p: &str) -> Option<usize> { let mut i = s.len(); loop { if s.is_char_boundary(i) && s[i..].starts_with(p) { return Some(i); } if i == 0 { return None; } i -= 1; } }
pub fn str_contains_s(s: &str, p: &str) -> bool { str_find_s(s, p).is_some() }
pub fn str_ends_with_s(s: &str, p: &str) -> bool { p.len() <= s.len() && s.is_char_boundary(s.len() - p.len()) && &s[s.len() - p.len()..] == p }
pub fn str_strip_suffix_s<'a>(s: &'a str, p: &str) -> Option<&'a str> { if str_ends_with_s(s, p) { Some(&s[..s.len() - p.len()]) } else { None } }
pub fn str_trim_start_matches_s<'a>(s: &'a str, p: &str) -> &'a str { let mut s = s; if p.is_empty() { return s; } while s.starts_with(p) { s = &s[p.len()..]; } s }
pub fn str_trim_end_matches_s<'a>(s: &'a str, p: &str) -> &'a str { let mut s = s; if p.is_empty() { return s; } while str_ends_with_s(s, p) { s = &s[..s.len() - p.len()]; } s }
pub fn str_split_once_s<'a>(s: &'a str, p: &str) -> Option<(&'a str, &'a str)> { match str_find_s(s, p) { Some(i) => Some((&s[..i], &s[i + p.len()..])), None => None } }
pub fn str_starts_with_r<P>(s: &str, p: P) -> bool { s.starts_with(vp::as_str::<P>(p)) }
pub fn str_contains_r<P>(s: &str, p: P) -> bool { str_contains_s(s, vp::as_str::<P>(p)) }
pub fn str_ends_with_r<P>(s: &str, p: P) -> bool { str_ends_with_s(s, vp::as_str::<P>(p)) }
pub fn str_find_r<P>(s: &str, p: P) -> Option<usize> { str_find_s(s, vp::as_str::<P>(p)) }
pub fn str_strip_prefix_r<P>(s: &'static str, p: P) -> Option<&'static str> { s.strip_prefix(vp::as_str::<P>(p)) }
pub fn str_strip_suffix_r<P>(s: &'static str, p: P) -> Option<&'static str> { str_strip_suffix_s(s, vp::as_str::<P>(p)) }

pub fn hash_slice_u8<H: std::hash::Hasher>(d: &[u8], h: &mut H) { h.write(d) }
pub fn string_extend_char<I: IntoIterator<Item = char>>(s: &mut String, i: I) { let mut it = i.into_iter(); while let Some(c) = it.next() { s.push(c); } }
pub fn string_extend_str<I: IntoIterator<Item = &'static str>>(s: &mut String, i: I) { let mut it = i.into_iter(); while let Some(c) = it.next() { s.push_str(c); } }
pub fn string_from_iter_char<I: IntoIterator<Item = char>>(i: I) -> String { let mut s = String::new(); string_extend_char(&mut s, i); s }
pub fn string_from_iter_str<I: IntoIterator<Item = &'static str>>(i: I) -> String { let mut s = String::new(); string_extend_str(&mut s, i); s }

pub fn fmt_write_str(f: &mut fmt::Formatter<'_>, s: &str) -> fmt::Result { vp::fmt_buf(f).write_str(s) }
pub fn fmt_write(out: &mut dyn fmt::Write, a: fmt::Arguments<'_>) -> fmt::Result {
    let n = vp::fmt_len(&a);
    let mut i = 0;
    while i < n {
        if vp::fmt_is_lit(&a, i) { out.write_str(vp::fmt_lit(&a, i))?; } else { vp::fmt_arg(out, &a, i)?; }
        i += 1;
    }
    Ok(())
}
pub fn fmt_format(a: fmt::Arguments<'_>) -> String { let mut s = String::new(); let _ = fmt_write(&mut s, a); s }
pub fn to_string<T: fmt::Display>(x: &T) -> String { let mut s = String::new(); if fmt_write(&mut s, format_args!("{}", x)).is_err() { panic!("a Display implementation returned an error unexpectedly"); } s }
pub fn fmt_write_char(f: &mut fmt::Formatter<'_>, c: char) -> fmt::Result { vp::fmt_buf(f).write_char(c) }
pub fn fmt_write_fmt(f: &mut fmt::Formatter<'_>, a: fmt::Arguments<'_>) -> fmt::Result { fmt_write(vp::fmt_buf(f), a) }
pub fn fmt_arguments(a: &fmt::Arguments<'_>, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt_write(vp::fmt_buf(f), *a) }

pub fn tls_get_or_init_fn<T>(s: &T, i: Option<&mut Option<T>>, f: fn() -> T) -> *const T { tls_get_or_init::<T, fn() -> T>(s, i, f) }
pub fn tls_get_or_init<T, F: FnOnce() -> T>(s: &T, i: Option<&mut Option<T>>, f: F) -> *const T {
    match vp::tls_get::<T, T>(s) {
        Some(p) => p,
        None => { let x = match i { Some(o) => match o.take() { Some(x) => x, None => f() }, None => f() }; vp::tls_set::<T, T>(s, x) }
    }
}
pub fn once_call_once<F: FnOnce()>(o: &std::sync::Once, f: F) { if !vp::once_done(o) { vp::once_begin(o); f(); vp::once_set(o); } }
pub fn call0<F: FnOnce() -> R, R>(f: F) -> R { f() }

pub fn rc_make_mut<T: Clone>(r: &mut std::rc::Rc<T>) -> &mut T {
    if vp::rc_count(r) != 1 {
        let n: std::rc::Rc<T> = std::rc::Rc::new(T::clone(&**r));
        *r = n;
    }
    vp::rc_value::<std::rc::Rc<T>, T>(r)
}
pub fn rc_unwrap_or_clone<T: Clone>(r: std::rc::Rc<T>) -> T { match std::rc::Rc::try_unwrap(r) { Ok(x) => x, Err(r) => T::clone(&*r) } }
pub fn vec_clone<T: Clone>(v: &Vec<T>) -> Vec<T> { let mut o = Vec::new(); let mut i = 0; while i < v.len() { o.push(v[i].clone()); i += 1; } o }
pub fn vec_into_iter_clone<T: Clone>(v: &std::vec::IntoIter<T>) -> std::vec::IntoIter<T> { let s = v.as_slice(); let mut o = Vec::new(); let mut i = 0; while i < s.len() { o.push(s[i].clone()); i += 1; } o.into_iter() }
pub fn vec_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, i: I) { let mut it = i.into_iter(); while let Some(x) = it.next() { v.push(x); } }
pub fn vec_extend_ref<T: Copy + 'static, I: IntoIterator<Item = &'static T>>(v: &mut Vec<T>, i: I) { let mut it = i.into_iter(); while let Some(x) = it.next() { v.push(*x); } }
pub fn vec_from_iter<T, I: IntoIterator<Item = T>>(i: I) -> Vec<T> { let mut v = Vec::new(); vec_extend(&mut v, i); v }
pub fn vec_extend_from_slice<T: Clone>(v: &mut Vec<T>, s: &[T]) { let mut i = 0; while i < s.len() { v.push(s[i].clone()); i += 1; } }
pub fn slice_to_vec<T: Clone>(s: &[T]) -> Vec<T> { let mut v = Vec::new(); vec_extend_from_slice(&mut v, s); v }
pub fn vec_truncate<T>(v: &mut Vec<T>, n: usize) { while v.len() > n { drop(v.pop()); } }
pub fn vec_clear<T>(v: &mut Vec<T>) { while let Some(x) = vp::seq_pop_front::<Vec<T>, T>(v) { drop(x); } }
pub fn vec_drain<T, R: std::ops::RangeBounds<usize>>(v: &mut Vec<T>, r: R) -> std::vec::IntoIter<T> {
    let a = match r.start_bound() { std::ops::Bound::Included(a) => *a, std::ops::Bound::Excluded(a) => *a + 1, std::ops::Bound::Unbounded => 0 };
    let b = match r.end_bound() { std::ops::Bound::Included(a) => *a + 1, std::ops::Bound::Excluded(a) => *a, std::ops::Bound::Unbounded => v.len() };
    let mut o = Vec::new();
    let mut n = a;
    while n < b { o.push(v.remove(a)); n += 1; }
    o.into_iter()
}
pub fn vec_from_elem<T: Clone>(x: T, n: usize) -> Vec<T> { let mut v = Vec::new(); let mut i = 0; while i < n { v.push(x.clone()); i += 1; } v }
pub fn slice_contains<T: PartialEq>(s: &[T], x: &T) -> bool { let mut i = 0; while i < s.len() { if s[i] == *x { return true; } i += 1; } false }
pub fn slice_binary_search_by<T, F: FnMut(&T) -> std::cmp::Ordering>(s: &[T], mut f: F) -> Result<usize, usize> {
    let mut i = 0;
    while i < s.len() { match f(&s[i]) { std::cmp::Ordering::Equal => return Ok(i), std::cmp::Ordering::Greater => return Err(i), _ => {} } i += 1; }
    Err(i)
}
pub fn slice_partition_point<T, F: FnMut(&T) -> bool>(s: &[T], mut f: F) -> usize { let mut i = 0; while i < s.len() { if !f(&s[i]) { return i; } i += 1; } i }

// A map is the sequence of its entries in key order.
pub fn btree_insert<K: Ord, V>(m: &mut Vec<(K, V)>, k: K, v: V) -> Option<V> {
    let mut i = 0;
    while i < m.len() { match m[i].0.cmp(&k) { std::cmp::Ordering::Equal => return Some(std::mem::replace(&mut m[i].1, v)), std::cmp::Ordering::Greater => break, _ => {} } i += 1; }
    m.insert(i, (k, v));
    None
}
pub fn btree_get<'a, K: Ord, V>(m: &'a Vec<(K, V)>, k: &K) -> Option<&'a V> { let mut i = 0; while i < m.len() { if m[i].0 == *k { return Some(&m[i].1); } i += 1; } None }
pub fn btree_clear<K, V>(m: &mut Vec<(K, V)>) { vec_clear(m) }
pub fn btree_len<K, V>(m: &Vec<(K, V)>) -> usize { m.len() }
pub fn btree_is_empty<K, V>(m: &Vec<(K, V)>) -> bool { m.len() == 0 }
pub struct Entries<'a, K, V>(pub Vec<(&'a K, &'a V)>);
fn btree_sel<'a, K: Ord, V, F: FnMut(&K) -> bool>(m: &'a Vec<(K, V)>, mut f: F) -> Entries<'a, K, V> { let mut o = Vec::new(); let mut i = 0; while i < m.len() { if f(&m[i].0) { o.push((&m[i].0, &m[i].1)); } i += 1; } Entries(o) }
pub fn btree_range_RangeToInclusive<'a, K: Ord, V>(m: &'a Vec<(K, V)>, r: std::ops::RangeToInclusive<K>) -> Entries<'a, K, V> { btree_sel(m, |k| *k <= r.end) }
pub fn btree_range_RangeTo<'a, K: Ord, V>(m: &'a Vec<(K, V)>, r: std::ops::RangeTo<K>) -> Entries<'a, K, V> { btree_sel(m, |k| *k < r.end) }
pub fn btree_range_RangeFrom<'a, K: Ord, V>(m: &'a Vec<(K, V)>, r: std::ops::RangeFrom<K>) -> Entries<'a, K, V> { btree_sel(m, |k| *k >= r.start) }
pub fn btree_range_Range<'a, K: Ord, V>(m: &'a Vec<(K, V)>, r: std::ops::Range<K>) -> Entries<'a, K, V> { btree_sel(m, |k| *k >= r.start && *k < r.end) }
pub fn btree_range_RangeInclusive<'a, K: Ord, V>(m: &'a Vec<(K, V)>, r: std::ops::RangeInclusive<K>) -> Entries<'a, K, V> { btree_sel(m, |k| *k >= *r.start() && *k <= *r.end()) }
pub fn btree_range_Bounds<'a, K: Ord, V>(m: &'a Vec<(K, V)>, r: (std::ops::Bound<K>, std::ops::Bound<K>)) -> Entries<'a, K, V> {
    use std::ops::Bound::*;
    btree_sel(m, |k| (match &r.0 { Included(a) => *k >= *a, Excluded(a) => *k > *a, Unbounded => true }) && (match &r.1 { Included(b) => *k <= *b, Excluded(b) => *k < *b, Unbounded => true }))
}
pub fn btree_range_RangeFull<'a, K: Ord, V>(m: &'a Vec<(K, V)>, _: std::ops::RangeFull) -> Entries<'a, K, V> { btree_sel(m, |_| true) }

#[cfg(feature = "proc-macro")]
mod pm {
    use crate::vp;
    use proc_macro::{TokenStream, TokenTree};
    pub fn pm_extend_tt<I: IntoIterator<Item = TokenTree>>(s: &mut TokenStream, i: I) { let mut it = i.into_iter(); while let Some(x) = it.next() { vp::pm_push(s, x); } }
    pub fn pm_extend_ts<I: IntoIterator<Item = TokenStream>>(s: &mut TokenStream, i: I) { let mut it = i.into_iter(); while let Some(x) = it.next() { vp::pm_append(s, x); } }
    pub fn pm_from_iter_tt<I: IntoIterator<Item = TokenTree>>(i: I) -> TokenStream { let mut s = TokenStream::new(); pm_extend_tt(&mut s, i); s }
    pub fn pm_from_iter_ts<I: IntoIterator<Item = TokenStream>>(i: I) -> TokenStream { let mut s = TokenStream::new(); pm_extend_ts(&mut s, i); s }
}
pub fn text_hash<H: std::hash::Hasher>(s: &'static str, h: &mut H) { let t = vp::as_str(s); h.write(t.as_bytes()); h.write_u8(0xff); }
// The builders of core::fmt. Their values are only ever touched by these functions.
pub struct DebugS<'a, 'b> { f: &'a mut fmt::Formatter<'b>, result: fmt::Result, n: usize }
struct Pad<'a> { out: &'a mut dyn fmt::Write, line: bool }
impl fmt::Write for Pad<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result { let mut it = s.chars(); while let Some(c) = it.next() { self.write_char(c)?; } Ok(()) }
    fn write_char(&mut self, c: char) -> fmt::Result { if self.line { self.out.write_str("    ")?; } self.line = c == '\n'; self.out.write_char(c) }
}
pub fn dbg_struct<'a, 'b>(f: &'a mut fmt::Formatter<'b>, name: &str) -> DebugS<'a, 'b> { let result = f.write_str(name); DebugS { f, result, n: 0 } }
pub fn dbg_field<'c, 'a, 'b>(s: &'c mut DebugS<'a, 'b>, name: &str, v: &dyn fmt::Debug) -> &'c mut DebugS<'a, 'b> { if s.result.is_ok() { s.result = one(s.f, s.n, " {", Some(name), v); } s.n += 1; s }
fn one(f: &mut fmt::Formatter<'_>, n: usize, open: &str, name: Option<&str>, v: &dyn fmt::Debug) -> fmt::Result {
    if f.alternate() {
        if n == 0 { f.write_str(open)?; f.write_str("\n")?; }
        let mut p = Pad { out: vp::fmt_buf(f), line: true };
        if let Some(name) = name { fmt::Write::write_str(&mut p, name)?; fmt::Write::write_str(&mut p, ": ")?; }
        fmt_write(&mut p, format_args!("{:#?}", v))?;
        fmt::Write::write_str(&mut p, ",\n")
    } else {
        if n == 0 { f.write_str(open)?; if name.is_some() { f.write_str(" ")?; } } else { f.write_str(", ")?; }
        if let Some(name) = name { f.write_str(name)?; f.write_str(": ")?; }
        v.fmt(f)
    }
}
pub fn dbg_finish(s: &mut DebugS<'_, '_>) -> fmt::Result { if s.n > 0 && s.result.is_ok() { s.result = if s.f.alternate() { s.f.write_str("}") } else { s.f.write_str(" }") }; } s.result }
pub fn dbg_tuple_field<'c, 'a, 'b>(s: &'c mut DebugS<'a, 'b>, v: &dyn fmt::Debug) -> &'c mut DebugS<'a, 'b> { if s.result.is_ok() { s.result = one(s.f, s.n, "(", None, v); } s.n += 1; s }
pub fn dbg_tuple_finish(s: &mut DebugS<'_, '_>) -> fmt::Result { if s.n > 0 && s.result.is_ok() { s.result = s.f.write_str(")"); } s.result }
pub fn dbg_list<'a, 'b>(f: &'a mut fmt::Formatter<'b>) -> DebugS<'a, 'b> { let result = f.write_str("["); DebugS { f, result, n: 0 } }
pub fn dbg_entry<'c, 'a, 'b>(s: &'c mut DebugS<'a, 'b>, v: &dyn fmt::Debug) -> &'c mut DebugS<'a, 'b> { if s.result.is_ok() { s.result = one(s.f, s.n, "", None, v); } s.n += 1; s }
pub fn dbg_entries<'c, D: fmt::Debug, I: IntoIterator<Item = D>>(s: &'c mut DebugS<'static, 'static>, i: I) -> &'c mut DebugS<'static, 'static> { let mut it = i.into_iter(); while let Some(x) = it.next() { dbg_entry(s, &x); } s }
pub fn dbg_list_finish(s: &mut DebugS<'_, '_>) -> fmt::Result { if s.result.is_ok() { s.result = s.f.write_str("]"); } s.result }
fn names(s: &str) -> Vec<&str> { let mut v = Vec::new(); for x in s.split(' ') { v.push(x); } v }
pub fn dbg_struct1(f: &mut fmt::Formatter<'_>, n: &str, v1: &dyn fmt::Debug) -> fmt::Result { let n = names(n); let mut s = dbg_struct(f, n[0]); dbg_field(&mut s, n[1], v1); dbg_finish(&mut s) }
pub fn dbg_struct2(f: &mut fmt::Formatter<'_>, n: &str, v1: &dyn fmt::Debug, v2: &dyn fmt::Debug) -> fmt::Result { let n = names(n); let mut s = dbg_struct(f, n[0]); dbg_field(&mut s, n[1], v1); dbg_field(&mut s, n[2], v2); dbg_finish(&mut s) }
pub fn dbg_struct3(f: &mut fmt::Formatter<'_>, n: &str, v1: &dyn fmt::Debug, v2: &dyn fmt::Debug, v3: &dyn fmt::Debug) -> fmt::Result { let n = names(n); let mut s = dbg_struct(f, n[0]); dbg_field(&mut s, n[1], v1); dbg_field(&mut s, n[2], v2); dbg_field(&mut s, n[3], v3); dbg_finish(&mut s) }
pub fn dbg_struct4(f: &mut fmt::Formatter<'_>, n: &str, v1: &dyn fmt::Debug, v2: &dyn fmt::Debug, v3: &dyn fmt::Debug, v4: &dyn fmt::Debug) -> fmt::Result { let n = names(n); let mut s = dbg_struct(f, n[0]); dbg_field(&mut s, n[1], v1); dbg_field(&mut s, n[2], v2); dbg_field(&mut s, n[3], v3); dbg_field(&mut s, n[4], v4); dbg_finish(&mut s) }
pub fn dbg_tuple2(f: &mut fmt::Formatter<'_>, name: &str, v1: &dyn fmt::Debug, v2: &dyn fmt::Debug) -> fmt::Result { let mut s = dbg_struct(f, name); dbg_tuple_field(&mut s, v1); dbg_tuple_field(&mut s, v2); dbg_tuple_finish(&mut s) }
pub fn dbg_tuple1(f: &mut fmt::Formatter<'_>, name: &str, v1: &dyn fmt::Debug) -> fmt::Result { let mut s = dbg_struct(f, name); dbg_tuple_field(&mut s, v1); dbg_tuple_finish(&mut s) }

// ---- searchers: these structures stand for the library's own, field by field (or are opaque to it)
pub struct CharS<'a> { hay: &'a str, finger: usize, back: usize, needle: char }
pub fn char_next_match(s: &mut CharS<'static>) -> Option<(usize, usize)> {
    while s.finger < s.back { match s.hay[s.finger..s.back].chars().next() { Some(c) => { let a = s.finger; s.finger += c.len_utf8(); if c == s.needle { return Some((a, s.finger)); } } None => return None } }
    None
}
pub fn char_next_match_back(s: &mut CharS<'static>) -> Option<(usize, usize)> {
    while s.finger < s.back { match s.hay[s.finger..s.back].chars().next_back() { Some(c) => { let b = s.back; s.back -= c.len_utf8(); if c == s.needle { return Some((s.back, b)); } } None => return None } }
    None
}
pub struct StrS<'a> { hay: &'a str, needle: &'a str, pos: usize, end: usize, done: bool }
pub fn str_searcher<'a>(p: &'a str, h: &'a str) -> StrS<'a> { StrS { hay: h, needle: p, pos: 0, end: h.len(), done: false } }
pub fn str_searcher_rev<'a>(h: &'a str, p: &'a str) -> StrS<'a> { str_searcher(p, h) }
pub fn str_next_match(s: &mut StrS<'static>) -> Option<(usize, usize)> {
    while !s.done {
        let a = s.pos;
        let n = match s.hay[a..s.end].chars().next() { Some(c) => c.len_utf8(), None => { s.done = true; 0 } };
        if s.needle.len() <= s.end - a && s.hay[a..s.end].starts_with(s.needle) { let l = s.needle.len(); s.pos = if l == 0 { a + n } else { a + l }; return Some((a, a + l)); }
        s.pos = a + n;
    }
    None
}
pub fn str_next_match_back(s: &mut StrS<'static>) -> Option<(usize, usize)> {
    while !s.done {
        let b = s.end;
        let n = match s.hay[s.pos..b].chars().next_back() { Some(c) => c.len_utf8(), None => { s.done = true; 0 } };
        let l = s.needle.len();
        if l <= b - s.pos && str_ends_with_s(&s.hay[s.pos..b], s.needle) { s.end = if l == 0 { b - n } else { b - l }; return Some((b - l, b)); }
        s.end = b - n;
    }
    None
}
pub fn memchr(x: u8, t: &[u8]) -> Option<usize> { let mut i = 0; while i < t.len() { if t[i] == x { return Some(i); } i += 1; } None }
pub fn memrchr(x: u8, t: &[u8]) -> Option<usize> { let mut i = t.len(); while i > 0 { i -= 1; if t[i] == x { return Some(i); } } None }
fn span_of<R: std::ops::RangeBounds<usize>>(r: R, n: usize) -> (usize, usize) {
    (match r.start_bound() { std::ops::Bound::Included(a) => *a, std::ops::Bound::Excluded(a) => *a + 1, std::ops::Bound::Unbounded => 0 }, match r.end_bound() { std::ops::Bound::Included(a) => *a + 1, std::ops::Bound::Excluded(a) => *a, std::ops::Bound::Unbounded => n })
}
pub fn string_split_off(s: &mut String, at: usize) -> String { let t = String::from(&s[at..]); s.truncate(at); t }
pub fn string_replace_range<R: std::ops::RangeBounds<usize>>(s: &mut String, r: R, with: &str) { let (a, b) = span_of(r, s.len()); let mut t = String::from(&s[..a]); t.push_str(with); t.push_str(&s[b..]); *s = t; }
pub struct StrDrain { text: String }
pub fn string_drain<R: std::ops::RangeBounds<usize>>(s: &mut String, r: R) -> StrDrain { let (a, b) = span_of(r, s.len()); let text = String::from(&s[a..b]); let mut t = String::from(&s[..a]); t.push_str(&s[b..]); *s = t; StrDrain { text } }
pub fn string_drain_next(s: &mut StrDrain) -> Option<char> { if s.text.is_empty() { None } else { Some(s.text.remove(0)) } }
pub fn string_drain_next_back(s: &mut StrDrain) -> Option<char> { s.text.pop() }
pub fn string_retain<F: FnMut(char) -> bool>(s: &mut String, mut f: F) { let mut t = String::new(); let mut it = s.chars(); while let Some(c) = it.next() { if f(c) { t.push(c); } } *s = t; }
pub fn str_replace<P: std::str::pattern::Pattern>(s: &'static str, p: P, with: &str) -> String { let mut o = String::new(); let mut at = 0; let mut it = s.match_indices(p); while let Some((i, m)) = it.next() { o.push_str(&s[at..i]); o.push_str(with); at = i + m.len(); } o.push_str(&s[at..]); o }
pub fn str_replacen<P: std::str::pattern::Pattern>(s: &'static str, p: P, with: &str, n: usize) -> String { let mut o = String::new(); let (mut at, mut k) = (0, 0); let mut it = s.match_indices(p); while k < n { match it.next() { Some((i, m)) => { o.push_str(&s[at..i]); o.push_str(with); at = i + m.len(); } None => break } k += 1; } o.push_str(&s[at..]); o }
pub fn string_extend_string<I: IntoIterator<Item = String>>(s: &mut String, i: I) { let mut it = i.into_iter(); while let Some(c) = it.next() { s.push_str(&c); } }
pub fn string_extend_ref_char<I: IntoIterator<Item = &'static char>>(s: &mut String, i: I) { let mut it = i.into_iter(); while let Some(c) = it.next() { s.push(*c); } }
pub fn string_from_iter_string<I: IntoIterator<Item = String>>(i: I) -> String { let mut s = String::new(); string_extend_string(&mut s, i); s }
pub fn string_from_iter_ref_char<I: IntoIterator<Item = &'static char>>(i: I) -> String { let mut s = String::new(); string_extend_ref_char(&mut s, i); s }
pub fn bool_fmt(b: &bool, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.pad(if *b { "true" } else { "false" }) }
pub fn vec_from_str(s: &str) -> Vec<u8> { let b = s.as_bytes(); let mut v = Vec::new(); let mut i = 0; while i < b.len() { v.push(b[i]); i += 1; } v }
pub fn vec_retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) { let mut i = 0; while i < v.len() { if f(&v[i]) { i += 1; } else { drop(v.remove(i)); } } }
pub fn vec_retain_mut<T, F: FnMut(&mut T) -> bool>(v: &mut Vec<T>, mut f: F) { let mut i = 0; while i < v.len() { if f(&mut v[i]) { i += 1; } else { drop(v.remove(i)); } } }
pub fn vec_resize<T: Clone>(v: &mut Vec<T>, n: usize, x: T) { while v.len() > n { drop(v.pop()); } while v.len() < n { v.push(x.clone()); } }
pub fn vec_dedup<T: PartialEq>(v: &mut Vec<T>) { let mut i = 1; while i < v.len() { if v[i] == v[i - 1] { drop(v.remove(i)); } else { i += 1; } } }
pub fn vec_partial_cmp<T: PartialOrd>(a: &Vec<T>, b: &Vec<T>) -> Option<std::cmp::Ordering> { let mut i = 0; while i < a.len() && i < b.len() { match a[i].partial_cmp(&b[i]) { Some(std::cmp::Ordering::Equal) => {} o => return o } i += 1; } a.len().partial_cmp(&b.len()) }
pub fn vec_cmp<T: Ord>(a: &Vec<T>, b: &Vec<T>) -> std::cmp::Ordering { let mut i = 0; while i < a.len() && i < b.len() { match a[i].cmp(&b[i]) { std::cmp::Ordering::Equal => {} o => return o } i += 1; } a.len().cmp(&b.len()) }
pub fn slice_sort_by<T, F: FnMut(&T, &T) -> std::cmp::Ordering>(s: &mut [T], mut f: F) { let mut i = 1; while i < s.len() { let mut j = i; while j > 0 && f(&s[j - 1], &s[j]) == std::cmp::Ordering::Greater { s.swap(j - 1, j); j -= 1; } i += 1; } }
pub fn slice_sort<T: Ord>(s: &mut [T]) { slice_sort_by(s, |a, b| a.cmp(b)) }
pub fn slice_sort_by_key<T, K: Ord, F: FnMut(&T) -> K>(s: &mut [T], mut f: F) { slice_sort_by(s, |a, b| f(a).cmp(&f(b))) }
pub fn slice_rotate_left<T>(s: &mut [T], n: usize) { if n > s.len() { panic!("rotate") } let mut k = 0; while k < n { let mut i = 1; while i < s.len() { s.swap(i - 1, i); i += 1; } k += 1; } }
pub fn slice_rotate_right<T>(s: &mut [T], n: usize) { if n > s.len() { panic!("rotate") } slice_rotate_left(s, s.len() - n) }
pub fn slice_clone_from_slice<T: Clone>(s: &mut [T], o: &[T]) { if s.len() != o.len() { panic!("lengths differ") } let mut i = 0; while i < s.len() { s[i] = o[i].clone(); i += 1; } }
pub fn slice_fill<T: Clone>(s: &mut [T], x: T) { let mut i = 0; while i < s.len() { s[i] = x.clone(); i += 1; } }
pub fn strs_join<S: std::borrow::Borrow<str>>(v: &[S], sep: &str) -> String { let mut o = String::new(); let mut i = 0; while i < v.len() { if i > 0 { o.push_str(sep); } o.push_str(v[i].borrow()); i += 1; } o }
pub fn strs_concat<S: std::borrow::Borrow<str>>(v: &[S]) -> String { strs_join(v, "") }
pub fn slices_concat<T: Clone, V: std::borrow::Borrow<[T]>>(v: &[V]) -> Vec<T> { let mut o = Vec::new(); let mut i = 0; while i < v.len() { vec_extend_from_slice(&mut o, v[i].borrow()); i += 1; } o }
pub fn once_lock_get<T>(o: &'static std::sync::OnceLock<T>) -> Option<&'static T> { match vp::tls_get::<std::sync::OnceLock<T>, T>(o) { Some(p) => Some(unsafe { &*p }), None => None } }
pub fn once_lock_get_or_init<T, F: FnOnce() -> T>(o: &'static std::sync::OnceLock<T>, f: F) -> &'static T { match vp::tls_get::<std::sync::OnceLock<T>, T>(o) { Some(p) => unsafe { &*p }, None => { let x = f(); unsafe { &*vp::tls_set::<std::sync::OnceLock<T>, T>(o, x) } } } }
pub fn once_lock_set<T>(o: &'static std::sync::OnceLock<T>, x: T) -> Result<(), T> { match vp::tls_get::<std::sync::OnceLock<T>, T>(o) { Some(_) => Err(x), None => { vp::tls_set::<std::sync::OnceLock<T>, T>(o, x); Ok(()) } } }
pub fn btree_contains_key<K: Ord, V>(m: &Vec<(K, V)>, k: &K) -> bool { btree_get(m, k).is_some() }
pub fn btree_remove<K: Ord, V>(m: &mut Vec<(K, V)>, k: &K) -> Option<V> { let mut i = 0; while i < m.len() { if m[i].0 == *k { return Some(m.remove(i).1); } i += 1; } None }
pub fn btree_get_mut<'a, K: Ord, V>(m: &'a mut Vec<(K, V)>, k: &K) -> Option<&'a mut V> { let mut i = 0; while i < m.len() { if m[i].0 == *k { return Some(&mut m[i].1); } i += 1; } None }
pub fn btree_first<'a, K: Ord, V>(m: &'a Vec<(K, V)>) -> Option<(&'a K, &'a V)> { if m.len() == 0 { None } else { Some((&m[0].0, &m[0].1)) } }
pub fn btree_last<'a, K: Ord, V>(m: &'a Vec<(K, V)>) -> Option<(&'a K, &'a V)> { let n = m.len(); if n == 0 { None } else { Some((&m[n - 1].0, &m[n - 1].1)) } }
pub fn btree_pop_last<K: Ord, V>(m: &mut Vec<(K, V)>) -> Option<(K, V)> { m.pop() }
pub fn btree_pop_first<K: Ord, V>(m: &mut Vec<(K, V)>) -> Option<(K, V)> { if m.len() == 0 { None } else { Some(m.remove(0)) } }
pub fn entries_next<K, V>(e: &mut Entries<'static, K, V>) -> Option<(&'static K, &'static V)> { if e.0.len() == 0 { None } else { Some(e.0.remove(0)) } }
pub fn entries_next_back<K, V>(e: &mut Entries<'static, K, V>) -> Option<(&'static K, &'static V)> { e.0.pop() }
pub fn keys_next<K, V>(e: &mut Entries<'static, K, V>) -> Option<&'static K> { match entries_next(e) { Some(x) => Some(x.0), None => None } }
pub fn keys_next_back<K, V>(e: &mut Entries<'static, K, V>) -> Option<&'static K> { match entries_next_back(e) { Some(x) => Some(x.0), None => None } }
pub fn values_next<K, V>(e: &mut Entries<'static, K, V>) -> Option<&'static V> { match entries_next(e) { Some(x) => Some(x.1), None => None } }
pub fn values_next_back<K, V>(e: &mut Entries<'static, K, V>) -> Option<&'static V> { match entries_next_back(e) { Some(x) => Some(x.1), None => None } }
pub fn slice_eq_same_len<A: PartialEq<B>, B>(a: *const A, b: *const B, n: usize) -> bool { let mut i = 0; while i < n { unsafe { if *a.add(i) != *b.add(i) { return false; } } i += 1; } true }
pub fn vec_fmt_debug<T: fmt::Debug>(v: &Vec<T>, f: &mut fmt::Formatter<'_>) -> fmt::Result { let mut s = dbg_list(f); let mut i = 0; while i < v.len() { dbg_entry(&mut s, &v[i]); i += 1; } dbg_list_finish(&mut s) }
pub fn str_to_ascii_lowercase(s: &str) -> String { let mut o = String::new(); let mut it = s.chars(); while let Some(c) = it.next() { o.push(c.to_ascii_lowercase()); } o }
pub fn str_to_ascii_uppercase(s: &str) -> String { let mut o = String::new(); let mut it = s.chars(); while let Some(c) = it.next() { o.push(c.to_ascii_uppercase()); } o }
pub fn box_clone<T: Clone>(b: &Box<T>) -> Box<T> { Box::new(T::clone(&**b)) }
pub fn seq_eq_vec_vec<T: PartialEq<U>, U>(a: &Vec<T>, b: &Vec<U>) -> bool { if a.len() != b.len() { return false; } let mut i = 0; while i < a.len() { if a[i] != b[i] { return false; } i += 1; } true }
pub fn seq_ne_vec_vec<T: PartialEq<U>, U>(a: &Vec<T>, b: &Vec<U>) -> bool { !seq_eq_vec_vec(a, b) }
pub fn seq_eq_vec_sl<T: PartialEq<U>, U>(a: &Vec<T>, b: &[U]) -> bool { if a.len() != b.len() { return false; } let mut i = 0; while i < a.len() { if a[i] != b[i] { return false; } i += 1; } true }
pub fn seq_ne_vec_sl<T: PartialEq<U>, U>(a: &Vec<T>, b: &[U]) -> bool { !seq_eq_vec_sl(a, b) }
pub fn seq_eq_vec_rsl<T: PartialEq<U>, U>(a: &Vec<T>, b: &&[U]) -> bool { if a.len() != b.len() { return false; } let mut i = 0; while i < a.len() { if a[i] != b[i] { return false; } i += 1; } true }
pub fn seq_ne_vec_rsl<T: PartialEq<U>, U>(a: &Vec<T>, b: &&[U]) -> bool { !seq_eq_vec_rsl(a, b) }
pub fn seq_eq_vec_ref<T: PartialEq<U>, U>(a: &Vec<T>, b: &&Vec<U>) -> bool { if a.len() != b.len() { return false; } let mut i = 0; while i < a.len() { if a[i] != b[i] { return false; } i += 1; } true }
pub fn seq_ne_vec_ref<T: PartialEq<U>, U>(a: &Vec<T>, b: &&Vec<U>) -> bool { !seq_eq_vec_ref(a, b) }
pub fn seq_eq_sl_vec<T: PartialEq<U>, U>(a: &[T], b: &Vec<U>) -> bool { if a.len() != b.len() { return false; } let mut i = 0; while i < a.len() { if a[i] != b[i] { return false; } i += 1; } true }
pub fn seq_ne_sl_vec<T: PartialEq<U>, U>(a: &[T], b: &Vec<U>) -> bool { !seq_eq_sl_vec(a, b) }
pub fn seq_eq_rsl_vec<T: PartialEq<U>, U>(a: &&[T], b: &Vec<U>) -> bool { if a.len() != b.len() { return false; } let mut i = 0; while i < a.len() { if a[i] != b[i] { return false; } i += 1; } true }
pub fn seq_ne_rsl_vec<T: PartialEq<U>, U>(a: &&[T], b: &Vec<U>) -> bool { !seq_eq_rsl_vec(a, b) }
pub fn seq_eq_ref_vec<T: PartialEq<U>, U>(a: &&Vec<T>, b: &Vec<U>) -> bool { if a.len() != b.len() { return false; } let mut i = 0; while i < a.len() { if a[i] != b[i] { return false; } i += 1; } true }
pub fn seq_ne_ref_vec<T: PartialEq<U>, U>(a: &&Vec<T>, b: &Vec<U>) -> bool { !seq_eq_ref_vec(a, b) }
