//! C17: numeric literal constructors.
use crate::{h, vp};
use proc_macro2::*;
macro_rules! ints { ($($f:ident $t:ident $s:ident $u:ident;)*) => { $( pub fn $f() {
    let n: $t = vp::any::<$t>();
    vp::input("value", &n);
    let d = n.to_string();
    vp::check(Literal::$u(n).to_string() == d, concat!(stringify!($u), " does not print the value"));
    vp::check(Literal::$s(n).to_string() == d + stringify!($t), concat!(stringify!($s), " does not print the value with its suffix"));
} )* } }
ints! {
    ob_c17_u8 u8 u8_suffixed u8_unsuffixed; ob_c17_u16 u16 u16_suffixed u16_unsuffixed; ob_c17_u32 u32 u32_suffixed u32_unsuffixed; ob_c17_u64 u64 u64_suffixed u64_unsuffixed; ob_c17_u128 u128 u128_suffixed u128_unsuffixed; ob_c17_usize usize usize_suffixed usize_unsuffixed;
    ob_c17_i8 i8 i8_suffixed i8_unsuffixed; ob_c17_i16 i16 i16_suffixed i16_unsuffixed; ob_c17_i32 i32 i32_suffixed i32_unsuffixed; ob_c17_i64 i64 i64_suffixed i64_unsuffixed; ob_c17_i128 i128 i128_suffixed i128_unsuffixed; ob_c17_isize isize isize_suffixed isize_unsuffixed;
}
macro_rules! floats { ($($f:ident $t:ident $s:ident $u:ident;)*) => { $( pub fn $f() {
    let n: $t = vp::opaque::<$t>("value");
    let finite = n.is_finite();
    let d = n.to_string();
    match h::catch(|| Literal::$s(n)) { Some(l) => { vp::check(finite, concat!(stringify!($s), " accepts NaN or infinity")); vp::check(l.to_string() == d.clone() + stringify!($t), concat!(stringify!($s), " does not print the value with its suffix")); } None => vp::check(!finite, concat!(stringify!($s), " rejects a finite value")) }
    let dot = d.contains('.');
    match h::catch(|| Literal::$u(n)) { Some(l) => { vp::check(finite, concat!(stringify!($u), " accepts NaN or infinity")); let w = if dot { d } else { d + ".0" }; vp::check(l.to_string() == w, concat!(stringify!($u), " does not print the value with a decimal point")); } None => vp::check(!finite, concat!(stringify!($u), " rejects a finite value")) }
} )* } }
floats! { ob_c17_f32 f32 f32_suffixed f32_unsuffixed; ob_c17_f64 f64 f64_suffixed f64_unsuffixed; }
