//! Helpers shared by the obligations.
use crate::vp;
use proc_macro2::*;
pub fn catch<R, F: FnOnce() -> R>(f: F) -> Option<R> { match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) { Ok(x) => Some(x), Err(_) => None } }
/// A text of exactly `n` arbitrary characters.
pub fn any_text(n: usize) -> String { let mut s = String::new(); let mut i = 0; while i < n { s.push(vp::any::<char>()); i += 1; } s }
/// A text of at most `n` arbitrary characters.
pub fn any_upto(n: usize) -> String { let k = vp::choose(n + 1); any_text(k) }
pub fn delim(k: usize) -> Delimiter { match k { 0 => Delimiter::Parenthesis, 1 => Delimiter::Brace, 2 => Delimiter::Bracket, _ => Delimiter::None } }
pub fn spacing(k: usize) -> Spacing { if k == 0 { Spacing::Alone } else { Spacing::Joint } }
pub fn is_xid_start(c: char) -> bool { vp::in_table(c, 0) }
pub fn is_xid_continue(c: char) -> bool { vp::in_table(c, 1) }
pub fn is_white(c: char) -> bool { vp::in_table(c, 2) || c == '\u{200e}' || c == '\u{200f}' }
