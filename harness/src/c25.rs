//! C25: panics of the ident constructors are attributed to the caller.
use crate::{h, vp};
use proc_macro2::*;
fn attempt(s: &str) {
    vp::input_str("name", s);
    let sp = Span::call_site();
    let raw = vp::choose(2) == 1;
    let r = if raw { h::catch(|| Ident::new_raw(s, sp)) } else { h::catch(|| Ident::new(s, sp)) };
    if r.is_none() { vp::check(vp::panic_at_caller(), "a panic of Ident::new / Ident::new_raw is not attributed to the caller"); }
}
pub fn ob_c25_any() { vp::set_available(false); let s = h::any_upto(3); attempt(&s); }
pub fn ob_c25_keywords() { vp::set_available(false); let s = ["_", "super", "self", "Self", "crate", "r#a", "a b", "'a", "1a"][vp::choose(9)]; attempt(s); }
