//! C06: auto traits of the public types.
use crate::vp;
use proc_macro2::*;
use std::panic::{RefUnwindSafe, UnwindSafe};
trait No { const YES: bool = false; }
impl<T: ?Sized> No for T {}
macro_rules! impls { ($t:ty : $b:path) => {{ struct W<T: ?Sized>(core::marker::PhantomData<T>); #[allow(dead_code)] impl<T: ?Sized + $b> W<T> { const YES: bool = true; } <W<$t>>::YES }} }
macro_rules! token { ($($t:ty),* $(,)?) => { $(
    vp::check(!impls!($t: Send), concat!(stringify!($t), " must not be Send"));
    vp::check(!impls!($t: Sync), concat!(stringify!($t), " must not be Sync"));
    vp::check(impls!($t: UnwindSafe), concat!(stringify!($t), " must be UnwindSafe"));
    vp::check(impls!($t: RefUnwindSafe), concat!(stringify!($t), " must be RefUnwindSafe"));
)* } }
macro_rules! plain { ($($t:ty),* $(,)?) => { $(
    vp::check(impls!($t: Send), concat!(stringify!($t), " must be Send"));
    vp::check(impls!($t: Sync), concat!(stringify!($t), " must be Sync"));
    vp::check(impls!($t: UnwindSafe), concat!(stringify!($t), " must be UnwindSafe"));
    vp::check(impls!($t: RefUnwindSafe), concat!(stringify!($t), " must be RefUnwindSafe"));
)* } }
pub fn ob_c06_tokens() { token!(TokenStream, TokenTree, Group, Ident, Punct, Literal, Span, LexError, token_stream::IntoIter, extra::DelimSpan); }
pub fn ob_c06_plain() { plain!(Delimiter, Spacing); }
#[cfg(feature = "span-locations")]
pub fn ob_c06_linecolumn() { plain!(LineColumn); }
/// The query itself distinguishes: a positive and a negative witness.
pub fn ob_c06_witness() {
    vp::check(impls!(Vec<u8>: Send), "witness");
    vp::check(!impls!(std::rc::Rc<u8>: Send), "witness");
    vp::check(!impls!(&'static mut u8: UnwindSafe), "witness");
    vp::check(!impls!(std::cell::Cell<u8>: RefUnwindSafe), "witness");
}
