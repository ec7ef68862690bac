use crate::vp;
use proc_macro2::*;
pub fn ob_smoke1() { let s = String::from("a"); vp::check(s.len() == 1, "len"); }
pub fn ob_smoke2() { let t: TokenStream = "a + (b c)".parse().unwrap(); let s = t.to_string(); vp::dbg_str(&s); vp::check(s == "a + (b c)", "print"); }
pub fn ob_smoke3() { let c = vp::any::<char>(); let mut s = String::new(); s.push(c); vp::input_str("src", &s); let t = s.parse::<TokenStream>(); if let Ok(t) = t { let s = t.to_string(); vp::input_str("out", &s); } }
pub fn ob_smoke4() { let c = vp::any::<char>(); let l = Literal::character(c); let s = l.to_string(); vp::input_str("out", &s); }
pub fn ob_smoke5() { let i = Ident::new("abc", Span::call_site()); let j = Ident::new_raw("abc", Span::call_site()); vp::check(i != j, "raw"); vp::check(i == "abc", "s"); vp::check(format!("{}{}", i, j) == "abcr#abc", "fmt"); }
fn anystr(n: usize) -> String { let mut s = String::new(); let mut i = 0; while i < n { s.push(vp::any::<char>()); i += 1; } s }
pub fn ob_smoke62() { let s = anystr(2); vp::input_str("src", &s); let t = s.parse::<TokenStream>(); if let Ok(t) = t { let s = t.to_string(); vp::input_str("out", &s); } }
pub fn ob_smoke7() { let t = "'".parse::<TokenStream>(); vp::check(t.is_err(), "x"); }
pub fn ob_smoke8() { let mut s = String::from("'"); s.push(vp::any()); vp::input_str("src", &s); let t = s.parse::<TokenStream>(); vp::check(t.is_err(), "x"); }
pub fn ob_smoke_payload() {
    let r = std::panic::catch_unwind(|| { if vp::choose(2) == 0 { panic!("x") } 1 });
    match r { Ok(n) => vp::check(n == 1, "value"), Err(p) => { let a = p.is::<String>(); let b = p.downcast_ref::<&str>(); let c = p.downcast_ref::<String>(); vp::check(a == c.is_some(), "consistent"); if b.is_some() { let _ = b.map(|s| s.len()); std::panic::resume_unwind(p) } match p.downcast::<String>() { Ok(s) => vp::check(a && s.len() < 100000000000000, "d"), Err(p) => drop(p) } } }
}
