//! Operations understood by the analysis (the bodies are never executed).
use std::fmt;
macro_rules! op { ($($(#[$m:meta])* fn $n:ident $(<$($g:ident),*>)? ($($a:ident : $t:ty),*) $(-> $r:ty)?;)*) => { $( #[inline(never)] pub fn $n $(<$($g),*>)? ($(_: $t),*) $(-> $r)? { loop {} } )* } }
op! {
    fn fail(m: &str) -> !;
    fn check(c: bool, m: &str);
    fn assume(c: bool);
    fn stop() -> !;
    fn dbg_str(s: &str);
    fn dbg<T>(x: &T);
    fn any_char_in(r: &[(u32, u32)]) -> char;
    fn any_char_table(k: u32) -> char;
    fn any<T>() -> T;
    fn in_table(c: char, k: u32) -> bool;
    fn no_recursion<F>(f: F);
    fn any_range<T>(lo: T, hi: T) -> T;
    fn choose(n: usize) -> usize;
    fn opaque<T>(name: &str) -> T;
    fn opaque_string(name: &str) -> String;
    fn input<T>(name: &str, x: &T);
    fn input_str(name: &str, x: &str);
    fn same<T>(a: &T, b: &T) -> bool;
    fn set_available(b: bool);
    fn pm_calls() -> usize;
    fn decode(s: &str, kind: usize) -> Option<Vec<u32>>;
    fn live() -> usize;
    fn pm_parses() -> usize;
    fn panic_at_caller() -> bool;
    fn depth() -> usize;
    fn depth_reset();
    /// From here on, more than n steps count as not ending; 0 lifts the bound.
    /// This obligation needs so many more steps than others (a long but finite text).
    fn patience(n: usize);
    fn must_end(n: usize);
    fn depth_max() -> usize;
    fn seq_len<T>(x: &T) -> usize;
    fn seq_pop_front<C, T>(c: &mut C) -> Option<T>;
    fn seq_pop_back<C, T>(c: &mut C) -> Option<T>;
    fn box_take<B, T>(b: &mut B) -> T;
    fn box_is_sized<B>(b: &mut B) -> bool;
    fn box_kill<B>(b: &mut B);
    fn rc_count<B>(b: &B) -> usize;
    fn rc_set_count<B>(b: &B, n: usize);
    fn rc_kill<B>(b: &B);
    fn rc_take<B, T>(b: &B) -> T;
    /// Another thread runs f once, before some later access to shared state, or not at all.
    fn interfere<F>(f: F);
    fn no_more_interference();
    fn once_begin<T>(o: &T);
    fn once_done<T>(o: &T) -> bool;
    fn once_set<T>(o: &T);
    fn fmt_len(a: &fmt::Arguments) -> usize;
    fn fmt_is_lit(a: &fmt::Arguments, i: usize) -> bool;
    fn fmt_arg(out: &mut dyn fmt::Write, a: &fmt::Arguments, i: usize) -> fmt::Result;
}
#[inline(never)]
pub fn cstr<'a>(_: &'a [u8]) -> &'a std::ffi::CStr { loop {} }
#[inline(never)]
pub fn rc_value<'a, B, T>(_: &B) -> &'a mut T { loop {} }
#[inline(never)]
pub fn fmt_lit<'a>(_: &'a fmt::Arguments, _: usize) -> &'a str { loop {} }
#[inline(never)]
pub fn fmt_buf<'a>(_: &mut fmt::Formatter<'a>) -> &'a mut dyn fmt::Write { loop {} }
#[inline(never)]
pub fn tls_get<S, T>(_: &S) -> Option<*const T> { loop {} }
#[inline(never)]
pub fn tls_set<S, T>(_: &S, _: T) -> *const T { loop {} }
#[inline(never)]
pub fn as_str<'a, P>(_: P) -> &'a str { loop {} }
#[cfg(feature = "proc-macro")]
op! {
    fn pm_push(s: &mut proc_macro::TokenStream, t: proc_macro::TokenTree);
    fn pm_append(s: &mut proc_macro::TokenStream, t: proc_macro::TokenStream);
    fn opaque_stream(name: &str) -> proc_macro::TokenStream;
    fn opaque_tree(name: &str) -> proc_macro::TokenTree;
}
