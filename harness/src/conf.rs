//! Conformance of the models of the standard library: each function evaluates to true when it is
//! run, and must in the abstract as well (tools/conform.sh does both). Not part of any check.
use crate::vp;
use std::cell::{Cell, OnceCell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;
macro_rules! conf { ($($n:ident $b:block)*) => { $(pub fn $n() { let r: bool = (move || $b)(); vp::check(r, stringify!($n)); })* } }
fn s(x: &str) -> String { String::from(x) }
fn opt(b: bool) -> Option<u32> { if b { Some(7) } else { None } }
fn res(b: bool) -> Result<u32, String> { if b { Ok(7) } else { Err(s("e")) } }
#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord, Hash, Default)]
struct P { a: u32, b: String }
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
enum E { X, Y(u8), Z { q: char } }
thread_local! { static T1: Cell<u32> = const { Cell::new(3) }; static T2: RefCell<Vec<u32>> = RefCell::new(vec![1, 2]); }
static AT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(5);
static AB: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static OL: std::sync::OnceLock<u32> = std::sync::OnceLock::new();
conf! {
    ob_conf_chars_rev { "aé𝓐".chars().rev().collect::<String>() == "𝓐éa" }
    ob_conf_chars_nth { "aébc".chars().nth(2) == Some('b') && "aé".chars().nth(2).is_none() }
    ob_conf_chars_back { let mut c = "aéb".chars(); c.next_back() == Some('b') && c.as_str() == "aé" && c.next() == Some('a') && c.as_str() == "é" }
    ob_conf_chars_last { "aéb".chars().last() == Some('b') && "aéb".chars().count() == 3 }
    ob_conf_chars_peekable { let mut p = "abc".chars().peekable(); p.peek() == Some(&'a') && p.next() == Some('a') && p.next_if_eq(&'b') == Some('b') && p.next_if(|c| *c == 'x').is_none() && p.next() == Some('c') && p.peek().is_none() }
    ob_conf_chars_take_while { "112a3".chars().take_while(|c| c.is_ascii_digit()).count() == 3 && "112a3".chars().skip_while(char::is_ascii_digit).collect::<String>() == "a3" }
    ob_conf_chars_filter { "a1b2".chars().filter(|c| c.is_numeric()).collect::<Vec<char>>() == ['1', '2'] }
    ob_conf_chars_map { "ab".chars().map(|c| c.to_ascii_uppercase()).collect::<String>() == "AB" }
    ob_conf_chars_zip { "ab".chars().zip("xyz".chars()).all(|(a, b)| a != b) && "ab".chars().zip(0..).last() == Some(('b', 1)) }
    ob_conf_chars_enumerate { "aéb".chars().enumerate().find(|(_, c)| *c == 'b') == Some((2, 'b')) }
    ob_conf_chars_step { "abcde".chars().step_by(2).collect::<String>() == "ace" }
    ob_conf_chars_skip { "abcde".chars().skip(2).take(2).collect::<String>() == "cd" }
    ob_conf_chars_chain { "ab".chars().chain("cd".chars()).rev().collect::<String>() == "dcba" }
    ob_conf_chars_fold { "abc".chars().fold(0u32, |n, c| n * 10 + (c as u32 - 96)) == 123 }
    ob_conf_chars_try_fold { "12x".chars().try_fold(0u32, |n, c| c.to_digit(10).map(|d| n * 10 + d)).is_none() && "12".chars().try_fold(0u32, |n, c| c.to_digit(10).map(|d| n * 10 + d)) == Some(12) }
    ob_conf_chars_cmp { "abc".chars().eq("abc".chars()) && "abc".chars().lt("abd".chars()) && "ab".chars().ne("b".chars()) && "a".chars().cmp("b".chars()) == std::cmp::Ordering::Less }
    ob_conf_chars_max { "abc".chars().max() == Some('c') && "bac".chars().min() == Some('a') && "ab".chars().max_by_key(|c| *c as u32) == Some('b') }
    ob_conf_chars_by_ref { let mut c = "aab".chars(); let n = c.by_ref().take_while(|c| *c == 'a').count(); n == 2 && c.next().is_none() }
    ob_conf_chars_map_while { "12a".chars().map_while(|c| c.to_digit(10)).sum::<u32>() == 3 }
    ob_conf_chars_clone { let mut c = "ab".chars(); let d = c.clone(); c.next(); d.as_str() == "ab" && c.as_str() == "b" }
    ob_conf_char_indices { "aéb".char_indices().map(|(i, _)| i).collect::<Vec<_>>() == [0, 1, 3] && "aéb".char_indices().rev().next() == Some((3, 'b')) }
    ob_conf_char_indices_find { "aéb".char_indices().find(|(_, c)| !c.is_ascii()).map(|x| x.0) == Some(1) && "aéb".char_indices().nth(1) == Some((1, 'é')) }
    ob_conf_char_indices_peek { let mut it = "aéb".char_indices().peekable(); it.next(); it.peek().map(|x| x.0) == Some(1) }
    ob_conf_char_indices_offset { let mut it = "éb".char_indices(); it.next(); it.offset() == 2 && it.as_str() == "b" }
    ob_conf_bytes { "aé".bytes().len() == 3 && "ab".bytes().rev().next() == Some(b'b') && "ab".bytes().position(|b| b == b'b') == Some(1) && "ab".bytes().all(|b| b.is_ascii()) }
    ob_conf_bytes_enum { "a\nb\nc".bytes().enumerate().filter(|(_, b)| *b == b'\n').map(|(i, _)| i).collect::<Vec<_>>() == [1, 3] }
    ob_conf_as_bytes { let b = "abc".as_bytes(); b[1] == b'b' && b.get(3).is_none() && b.first() == Some(&b'a') && b.last() == Some(&b'c') && b.len() == 3 && &b[1..] == b"bc" }
    ob_conf_bytes_slice { let b = "abc".as_bytes(); b.starts_with(b"ab") && b.ends_with(b"c") && b.contains(&b'b') && b.iter().any(|x| *x == b'c') && b.iter().copied().rposition(|x| x == b'a') == Some(0) }
    ob_conf_bytes_match { match "a\\x".as_bytes() { [b'a', b'\\', rest @ ..] => rest == b"x", _ => false } }
    ob_conf_bytes_split { let b = "abc".as_bytes(); b.split_first() == Some((&b'a', &b"bc"[..])) && b.split_last().map(|x| *x.0) == Some(b'c') && b.split_at(1).1 == b"bc" }
    ob_conf_bytes_windows { "aabb".as_bytes().windows(2).filter(|w| w[0] == w[1]).count() == 2 && "abcde".as_bytes().chunks(2).count() == 3 }
    ob_conf_str_get { "aéb".get(1..3) == Some("é") && "aéb".get(2..).is_none() && "ab".get(..5).is_none() && "ab".get(..) == Some("ab") && "ab".get(0..=1) == Some("ab") }
    ob_conf_str_index { let t = "aéb"; &t[1..] == "éb" && &t[..1] == "a" && &t[1..3] == "é" && &t[..=0] == "a" }
    ob_conf_str_split_at { "abc".split_at(1) == ("a", "bc") && "abc".split_at_checked(4).is_none() && "aéb".is_char_boundary(1) && !"aéb".is_char_boundary(2) }
    ob_conf_str_starts { "r#a".starts_with("r#") && "xab".starts_with('x') && "1".starts_with(|c: char| c.is_ascii_digit()) && "ab".starts_with(['b', 'a']) && "ab".starts_with(char::is_alphabetic) && "ab".starts_with(&['a'][..]) }
    ob_conf_str_ends { "abc".ends_with("bc") && "abc".ends_with('c') && "ab1".ends_with(|c: char| c.is_numeric()) && !"abc".ends_with(&['x', 'b'][..]) }
    ob_conf_str_strip { "r#a".strip_prefix("r#") == Some("a") && "a".strip_prefix('b').is_none() && "a.b".strip_suffix(".b") == Some("a") && "ab".strip_suffix(char::is_alphabetic) == Some("a") }
    ob_conf_str_find { "abcb".find('b') == Some(1) && "abcb".rfind('b') == Some(3) && "abc".find("bc") == Some(1) && "ab1".find(|c: char| c.is_ascii_digit()) == Some(2) && "abc".find(['c', 'b']) == Some(1) && "x".find("y").is_none() && "aéb".find('b') == Some(3) }
    ob_conf_str_contains { "abc".contains("bc") && "abc".contains('c') && "a c".contains(char::is_whitespace) && !"abc".contains(&['x', 'y'][..]) }
    ob_conf_str_matches { "a.b.c".matches('.').count() == 2 && "a.b".match_indices('.').next() == Some((1, ".")) && "aXbX".matches("X").count() == 2 && "a.b.c".rmatches('.').count() == 2 }
    ob_conf_str_trim { "  a ".trim() == "a" && " a ".trim_start() == "a " && " a ".trim_end() == " a" && "##a#".trim_matches('#') == "a" && "##a".trim_start_matches('#') == "a" && "a__".trim_end_matches('_') == "a" && "xya".trim_start_matches("xy") == "a" && "12a".trim_start_matches(char::is_numeric) == "a" }
    ob_conf_str_split { "a,b,c".split(',').collect::<Vec<_>>() == ["a", "b", "c"] && "a,b".split(',').count() == 2 && "".split(',').count() == 1 && "a,".split(',').last() == Some("") && "a--b".split("--").nth(1) == Some("b") }
    ob_conf_str_splitn { "a,b,c".splitn(2, ',').last() == Some("b,c") && "a,b,c".rsplitn(2, ',').next() == Some("c") && "a,b".split_once(',') == Some(("a", "b")) && "a,b,c".rsplit_once(',') == Some(("a,b", "c")) && "ab".split_once(',').is_none() }
    ob_conf_str_split_ws { " a  b ".split_whitespace().collect::<Vec<_>>() == ["a", "b"] && " a b".split_ascii_whitespace().count() == 2 }
    ob_conf_str_split_term { "a\nb\n".split_terminator('\n').count() == 2 && "a\nb".split_inclusive('\n').next() == Some("a\n") && "a.b".rsplit('.').next() == Some("b") }
    ob_conf_str_lines { "a\r\nb\n\nc".lines().collect::<Vec<_>>() == ["a", "b", "", "c"] && "a\n".lines().count() == 1 }
    ob_conf_str_parse { "12".parse::<u32>() == Ok(12) && "x".parse::<u32>().is_err() && "-3".parse::<i8>() == Ok(-3) && "300".parse::<u8>().is_err() && u32::from_str_radix("1F", 16) == Ok(31) }
    ob_conf_str_case { "aB".to_lowercase() == "ab" && "aB".to_uppercase() == "AB" && "aB".to_ascii_lowercase() == "ab" && "Ab".eq_ignore_ascii_case("aB") && "abc".is_ascii() }
    ob_conf_str_repeat { "ab".repeat(3) == "ababab" && "#".repeat(0).is_empty() }
    ob_conf_str_replace { "a-b-c".replace('-', "+") == "a+b+c" && "aXb".replace("X", "") == "ab" && "aa".replacen('a', "b", 1) == "ba" }
    ob_conf_str_cmp { "a" < "b" && "ab" > "a" && "a".cmp("a") == std::cmp::Ordering::Equal && "b".max("a") == "b" && s("a") == *"a" && "a" == s("a") }
    ob_conf_str_owned { let a: String = "x".into(); let b = "x".to_owned(); let c: Box<str> = "x".into(); let d: Rc<str> = Rc::from("x"); a == b && &*c == "x" && &*d == "x" && c.len() == 1 && String::from(c) == "x" }
    ob_conf_str_cow { use std::borrow::Cow; let a: Cow<str> = Cow::Borrowed("ab"); let b: Cow<str> = Cow::Owned(s("ab")); a == b && a.len() == 2 && a.into_owned() == "ab" && b.starts_with('a') }
    ob_conf_str_escape { "a\"\n".escape_debug().to_string() == "a\\\"\\n" && "é".escape_unicode().to_string() == "\\u{e9}" && "\t'".escape_default().collect::<String>() == "\\t\\'" }
    ob_conf_string_ops { let mut x = String::with_capacity(4); x.push('a'); x.push_str("bc"); x.insert(0, 'z'); x.insert_str(1, "yy"); x += "!"; x.pop() == Some('!') && x.remove(0) == 'z' && x == "yyabc" && x.len() == 5 && x.capacity() >= 5 }
    ob_conf_string_trunc { let mut x = s("abcdef"); x.truncate(4); x.drain(..1); x.retain(|c| c != 'c'); let y = x.clone() + "q"; x.clear(); y == "bdq" && x.is_empty() }
    ob_conf_string_split_off { let mut x = s("abcd"); let y = x.split_off(2); x == "ab" && y == "cd" && x.into_bytes() == b"ab" && y.into_boxed_str().len() == 2 }
    ob_conf_string_extend { let mut x = s("a"); x.extend(['b', 'c']); x.extend(["d", "e"]); x.extend("fg".chars().rev()); x.extend(vec![s("h")]); x == "abcdegfh" }
    ob_conf_string_replace_range { let mut x = s("abcd"); x.replace_range(1..3, "XYZ"); x == "aXYZd" }
    ob_conf_string_from { String::from_utf8(vec![97, 98]).as_deref() == Ok("ab") && std::str::from_utf8(b"ab") == Ok("ab") && String::from_utf8_lossy(b"ab") == "ab" && std::str::from_utf8(&[0xff]).is_err() && String::from('c') == "c" && 'c'.to_string() == "c" }
    ob_conf_string_collect { ["a", "b"].concat() == "ab" && ["a", "b"].join("-") == "a-b" && vec![s("a"), s("b")].join(", ") == "a, b" && ["x", "y"].iter().map(|x| x.to_string()).collect::<String>() == "xy" && ["x", "y"].into_iter().collect::<String>() == "xy" && vec!['a'].iter().collect::<String>() == "a" }
    ob_conf_format { format!("{}-{}", 1, "a") == "1-a" && format!("{0}{1}{0}", 'x', 2u8) == "x2x" && format!("{a}", a = true) == "true" && { let q = 5; format!("{q}{q}") == "55" } }
    ob_conf_format_spec { format!("{:02X}", 10u8) == "0A" && format!("{:x}", 255u32) == "ff" && format!("{:?}", "a\"") == "\"a\\\"\"" && format!("{:?}", 'c') == "'c'" && format!("{:>3}", "a") == "  a" && format!("{:03}", 7) == "007" && format!("{:#x}", 255) == "0xff" && format!("{:o}", 8) == "10" && format!("{:b}", 5) == "101" }
    ob_conf_format_debug { format!("{:?}", Some(1)) == "Some(1)" && format!("{:?}", P { a: 1, b: s("x") }) == "P { a: 1, b: \"x\" }" && format!("{:?}", E::Y(3)) == "Y(3)" && format!("{:?}", E::Z { q: 'a' }) == "Z { q: 'a' }" && format!("{:?}", vec![1, 2]) == "[1, 2]" && format!("{:?}", ()) == "()" && format!("{:?}", E::X) == "X" }
    ob_conf_write { use std::fmt::Write; let mut x = String::new(); let _ = write!(x, "a{}", 1); let _ = writeln!(x); x.write_str("b").is_ok() && x.write_char('c').is_ok() && x == "a1\nbc" }
    ob_conf_char { 'a'.is_alphabetic() && '1'.is_alphanumeric() && ' '.is_whitespace() && 'a'.is_ascii_lowercase() && 'F'.is_ascii_hexdigit() && '~'.is_ascii_punctuation() && '\n'.is_control() && 'a'.is_lowercase() && 'Ⅷ'.is_numeric() && '5'.is_digit(8) && !'9'.is_digit(8) }
    ob_conf_char_conv { 'f'.to_digit(16) == Some(15) && char::from_digit(11, 16) == Some('b') && char::from_u32(0x41) == Some('A') && char::from_u32(0xd800).is_none() && 'a' as u32 == 97 && 97u8 as char == 'a' && u32::from('b') == 98 && char::from(98) == 'b' && char::try_from(0x110000u32).is_err() && u8::try_from('é').is_ok() && u8::try_from('𝓐').is_err() }
    ob_conf_char_len { 'é'.len_utf8() == 2 && '𝓐'.len_utf16() == 2 && { let mut b = [0; 4]; 'é'.encode_utf8(&mut b).len() == 2 } && 'é'.to_string().into_bytes() == [0xc3, 0xa9] }
    ob_conf_char_case { 'a'.to_uppercase().next() == Some('A') && 'A'.to_lowercase().to_string() == "a" && 'a'.eq_ignore_ascii_case(&'A') && ('a'..='e').contains(&'c') && ('a'..='c').count() == 3 && ('a'..='c').rev().collect::<String>() == "cba" }
    ob_conf_char_escape { '\''.escape_debug().to_string() == "\\'" && 'a'.escape_default().count() == 1 && '\u{7f}'.escape_unicode().to_string() == "\\u{7f}" && '\n'.escape_debug().collect::<String>() == "\\n" }
    ob_conf_u8 { b'a'.is_ascii_alphabetic() && b'0'.is_ascii_digit() && (b'a'..=b'f').contains(&b'c') && b'a'.to_ascii_uppercase() == b'A' && !b' '.is_ascii_graphic() && b'_'.is_ascii_punctuation() && b' '.is_ascii_whitespace() && 200u8 as i8 == -56 && b'z'.eq_ignore_ascii_case(&b'Z') }
    ob_conf_int { 5u32.checked_sub(6).is_none() && 5u32.saturating_sub(6) == 0 && 255u8.wrapping_add(2) == 1 && 255u8.overflowing_add(1) == (0, true) && 200u8.checked_add(100).is_none() && 7u32.pow(2) == 49 && 10u32.min(3) == 3 && 5.clamp(1, 3) == 3 && 7 % 3 == 1 && (-7i32).rem_euclid(3) == 2 && 6usize.abs_diff(9) == 3 && 8u32.is_power_of_two() && 6u32.next_power_of_two() == 8 }
    ob_conf_int_conv { u8::try_from(300).is_err() && usize::try_from(5u32) == Ok(5) && u32::from(5u8) == 5 && 5u8 as usize == 5 && -1i32 as u32 == u32::MAX && u64::MAX as u8 == 255 && i8::try_from(127).is_ok() && usize::MAX.checked_add(1).is_none() && { let z: u32 = 3u8.into(); z == 3 } && NonZero::new(0u32).is_none() }
    ob_conf_int_bits { 6 & 3 == 2 && 6 | 1 == 7 && 6 ^ 2 == 4 && 1 << 4 == 16 && 16 >> 2 == 4 && !0u8 == 255 && 12u32.trailing_zeros() == 2 && 1u8.leading_zeros() == 7 && 7u32.count_ones() == 3 && 0x12u8.rotate_left(4) == 0x21 }
    ob_conf_int_str { 12.to_string() == "12" && (-3i8).to_string() == "-3" && i64::MIN.to_string() == "-9223372036854775808" }
    ob_conf_opt { opt(true).map(|x| x + 1) == Some(8) && opt(false).or(Some(1)) == Some(1) && opt(true).filter(|x| *x > 9).is_none() && opt(true).and_then(|x| x.checked_sub(8)).is_none() && opt(false).unwrap_or(3) == 3 && opt(false).unwrap_or_else(|| 4) == 4 && opt(false).unwrap_or_default() == 0 && opt(true).map_or(0, |x| x * 2) == 14 && opt(false).map_or_else(|| 1, |x| x) == 1 }
    ob_conf_opt2 { opt(true).is_some_and(|x| x == 7) && opt(false).is_none_or(|x| x == 1) && opt(true).ok_or("e") == Ok(7) && opt(false).ok_or_else(|| s("e")) == Err(s("e")) && opt(true).xor(opt(false)) == Some(7) && opt(true).zip(Some('a')) == Some((7, 'a')) && opt(false).or_else(|| Some(2)) == Some(2) && opt(true).and(Some(1)) == Some(1) }
    ob_conf_opt3 { let mut o = opt(true); let t = o.take(); let r = o.replace(5); let g = *o.get_or_insert(6); let i = *o.insert(9); if let Some(x) = o.as_mut() { *x += 1; } t == Some(7) && r.is_none() && g == 5 && i == 9 && o == Some(10) && o.take_if(|x| *x == 10) == Some(10) && *o.get_or_insert_with(|| 1) == 1 }
    ob_conf_opt4 { let o = Some(s("ab")); o.as_deref() == Some("ab") && o.as_ref().map(String::len) == Some(2) && o.iter().count() == 1 && o.clone().into_iter().next().is_some() && Some(&5).copied() == Some(5) && Some(&s("x")).cloned() == Some(s("x")) && Some(Some(1)).flatten() == Some(1) && opt(true) > opt(false) && Some(1) < Some(2) && o.expect("x") == "ab" }
    ob_conf_opt_q { fn f(a: Option<u32>) -> Option<u32> { Some(a? + 1) } f(Some(1)) == Some(2) && f(None).is_none() }
    ob_conf_opt_let { let Some(x) = opt(true) else { return false }; let y = if let Some(z) = opt(false) { z } else { 1 }; x == 7 && y == 1 }
    ob_conf_res { res(true).is_ok() && res(false).is_err() && res(true).map(|x| x + 1) == Ok(8) && res(false).map_err(|e| e.len()) == Err(1) && res(true).ok() == Some(7) && res(false).err() == Some(s("e")) && res(false).unwrap_or(1) == 1 && res(false).unwrap_or_else(|e| e.len() as u32) == 1 && res(true).and_then(|x| if x > 8 { Ok(x) } else { Err(s("small")) }) == Err(s("small")) && res(false).or_else(|_| Ok::<u32, ()>(3)) == Ok(3) && res(false).unwrap_or_default() == 0 && res(true).map_or(0, |x| x) == 7 }
    ob_conf_res2 { res(true).is_ok_and(|x| x == 7) && res(false).is_err_and(|e| e == "e") && res(true).iter().count() == 1 && res(true).as_ref().ok() == Some(&7) && Some(res(true)).transpose() == Ok(Some(7)) && Ok::<Option<u32>, ()>(None).transpose().is_none() && res(true).unwrap() == 7 && res(false).unwrap_err() == "e" && res(true).as_mut().map(|x| { *x += 1; *x }) == Ok(8) }
    ob_conf_res_q { fn f(b: bool) -> Result<u32, String> { let x = res(b)?; Ok(x + 1) } f(true) == Ok(8) && f(false) == Err(s("e")) }
    ob_conf_res_q_from { struct W(usize); impl From<String> for W { fn from(s: String) -> W { W(s.len()) } } fn f() -> Result<u32, W> { Ok(res(false)?) } matches!(f(), Err(W(1))) }
    ob_conf_collect_opt { ["1", "2"].iter().map(|x| x.parse::<u32>().ok()).collect::<Option<Vec<_>>>() == Some(vec![1, 2]) && ["1", "x"].iter().map(|x| x.parse::<u32>()).collect::<Result<Vec<_>, _>>().is_err() && [Some(1), None].into_iter().flatten().count() == 1 && [Some(1), Some(2)].into_iter().sum::<Option<i32>>() == Some(3) }
    ob_conf_vec { let mut x = vec![1, 2, 3]; x.push(4); x.insert(1, 9); x.swap(0, 2); x.remove(1) == 9 && x.pop() == Some(4) && x == [2, 1, 3] && x.first() == Some(&2) && x.last().copied() == Some(3) && x.contains(&1) && x.iter().position(|y| *y == 3) == Some(2) && x.swap_remove(0) == 2 && x == [3, 1] }
    ob_conf_vec2 { let mut x: Vec<u32> = Vec::with_capacity(8); x.extend([1, 2, 3]); x.extend_from_slice(&[4, 5]); x.extend(&[6]); x.retain(|y| y % 2 == 0); let mut y = vec![7]; x.append(&mut y); y.is_empty() && x == [2, 4, 6, 7] && x.split_off(2) == [6, 7] && x.len() == 2 && { x.truncate(1); x == [2] } && { x.clear(); x.is_empty() } }
    ob_conf_vec3 { let mut x = vec![3, 1, 2]; x.sort(); x.reverse(); x.dedup(); x.resize(4, 0); x == [3, 2, 1, 0] && { x.sort_by(|a, b| a.cmp(b)); x == [0, 1, 2, 3] } && { x.sort_by_key(|a| 10 - a); x[0] == 3 } && { x.sort_unstable(); x.binary_search(&2) == Ok(2) } && x.partition_point(|a| *a < 2) == 2 }
    ob_conf_vec_drain { let mut x = vec![1, 2, 3, 4]; let y: Vec<u32> = x.drain(1..3).collect(); y == [2, 3] && x == [1, 4] && x.drain(..).rev().next() == Some(4) && x.is_empty() }
    ob_conf_vec_splice { let mut x = vec![1, 2, 3]; let _ = x.splice(1..2, [8, 9]); x == [1, 8, 9, 3] }
    ob_conf_vec_mut { let mut x = vec![1, 2]; for y in x.iter_mut() { *y *= 2; } for y in &mut x { *y += 1; } if let Some(l) = x.last_mut() { *l = 0; } if let Some(l) = x.get_mut(0) { *l += 1; } x[1] += 5; x.first_mut().map(|a| *a += 1); x == [5, 5] }
    ob_conf_vec_iter { let x = vec![1, 2, 3]; x.iter().rev().copied().collect::<Vec<_>>() == [3, 2, 1] && x.iter().sum::<i32>() == 6 && x.iter().product::<i32>() == 6 && x.iter().max() == Some(&3) && x.iter().min_by_key(|a| (**a - 2).abs()) == Some(&2) && x.iter().cloned().filter_map(|a| if a > 1 { Some(a * 10) } else { None }).collect::<Vec<_>>() == [20, 30] && x.iter().skip(1).take(1).next() == Some(&2) && x.into_iter().rev().next() == Some(3) }
    ob_conf_vec_clone { let x = vec![s("a"), s("b")]; let y = x.clone(); let z = x.to_vec(); x == y && y == z && x < vec![s("b")] && x.concat() == "ab" && x[0..1].to_vec() == [s("a")] }
    ob_conf_vec_box { let x = vec![1, 2].into_boxed_slice(); x.len() == 2 && x[1] == 2 && x.into_vec() == [1, 2] && Vec::from([1, 2]) == [1, 2] && Vec::from("ab") == b"ab" && vec![0u8; 3].len() == 3 }
    ob_conf_vec_match { let x = vec![1, 2, 3]; (match x.as_slice() { [] => false, [a, .., c] => *a == 1 && *c == 3, _ => false }) && matches!(x[..], [1, ..]) && if let [a, b, c] = x[..] { a + b + c == 6 } else { false } }
    ob_conf_slice { let x = [1, 2, 3, 4]; x.split_at(1).0 == [1] && x[1..].iter().len() == 3 && x.get(1..3) == Some(&[2, 3][..]) && x.chunks(3).last() == Some(&[4][..]) && x.windows(2).all(|w| w[0] < w[1]) && x.iter().rev().skip_while(|a| **a > 2).count() == 2 && x.split(|a| *a == 2).count() == 2 && x.first_chunk::<2>() == Some(&[1, 2]) && x.concat_check() }
    ob_conf_slice_mut { let mut x = [1, 2, 3, 4]; x.swap(0, 3); x[..2].reverse(); x.fill(7); x[1] = 1; x.rotate_left(1); x == [1, 7, 7, 7] && { x[2..].copy_from_slice(&[5, 6]); x == [1, 7, 5, 6] } && { let (a, b) = x.split_at_mut(2); a[0] = b[0]; x[0] == 5 } }
    ob_conf_array { let x = [1, 2, 3].map(|a| a * 2); x == [2, 4, 6] && x.len() == 3 && x.iter().any(|a| *a == 4) && x.into_iter().sum::<i32>() == 12 && [0; 4].len() == 4 && [[1, 2], [3, 4]].concat() == [1, 2, 3, 4] && std::array::from_fn::<usize, 3, _>(|i| i) == [0, 1, 2] }
    ob_conf_iter { (0..5).rev().collect::<Vec<_>>() == [4, 3, 2, 1, 0] && (0..=3).sum::<i32>() == 6 && (0..10).step_by(3).count() == 4 && (0..3).contains(&2) && (0..3).len() == 3 && (0..3).flat_map(|x| 0..x).count() == 3 && (1..4).map(|x| x * x).fold(0, |a, b| a + b) == 14 && (0..5).partition::<Vec<i32>, _>(|x| x % 2 == 0).0 == [0, 2, 4] && (5..3).is_empty() }
    ob_conf_iter2 { std::iter::once(1).chain(std::iter::repeat(2).take(2)).collect::<Vec<_>>() == [1, 2, 2] && std::iter::empty::<u8>().next().is_none() && std::iter::repeat_n('a', 3).collect::<String>() == "aaa" && { let mut n = 0; std::iter::from_fn(|| { n += 1; if n < 4 { Some(n) } else { None } }).sum::<i32>() == 6 } && std::iter::successors(Some(1), |x| if *x < 20 { Some(x * 2) } else { None }).last() == Some(32) && std::iter::repeat_with(|| 1).take(3).count() == 3 }
    ob_conf_iter3 { (0..3).zip("abc".chars()).unzip::<i32, char, Vec<_>, String>().1 == "abc" && (0..4).scan(0, |a, x| { *a += x; Some(*a) }).collect::<Vec<_>>() == [0, 1, 3, 6] && [1, 2, 3].iter().cycle().take(5).count() == 5 && (0..5).skip(1).step_by(2).last() == Some(3) && (0..3).inspect(|_| ()).count() == 3 && [3, 1, 2].iter().is_sorted() == false && (0..5).reduce(|a, b| a + b) == Some(10) && (0..5).find_map(|x| if x > 2 { Some(x * 10) } else { None }) == Some(30) }
    ob_conf_iter4 { let mut it = (0..5).into_iter().peekable(); let mut v = vec![]; while let Some(x) = it.next() { if it.peek().is_some() { v.push(x); } } v.len() == 4 && [1, 2].iter().eq([1, 2].iter()) && (0..3).max_by(|a, b| a.cmp(b)) == Some(2) && vec![1, 2, 3].iter().try_for_each(|x| if *x < 5 { Ok(()) } else { Err(()) }).is_ok() && (0..3).size_hint() == (3, Some(3)) && (0..6).nth(2) == Some(2) && (0..6).rfind(|x| x % 2 == 0) == Some(4) && (0..6).rposition(|x| x == 1) == Some(1) }
    ob_conf_iter_flatten { vec![vec![1], vec![2, 3]].into_iter().flatten().collect::<Vec<_>>() == [1, 2, 3] && [[1, 2], [3, 4]].iter().flatten().count() == 4 && vec!["ab", "c"].iter().flat_map(|x| x.chars()).collect::<String>() == "abc" && [Some(1), None].iter().flatten().count() == 1 && vec![vec![1, 2], vec![3]].into_iter().flatten().rev().next() == Some(3) }
    ob_conf_iter_dyn { let it: Box<dyn Iterator<Item = u32>> = Box::new([1, 2].into_iter()); it.sum::<u32>() == 3 && { let f: &dyn Fn(u32) -> u32 = &|x| x + 1; f(1) == 2 } && { let f: fn(u32) -> u32 = |x| x * 2; f(4) == 8 } && { let mut g: Box<dyn FnMut() -> u32> = Box::new(|| 5); g() == 5 } }
    ob_conf_iter_impl { struct C(u32); impl Iterator for C { type Item = u32; fn next(&mut self) -> Option<u32> { if self.0 < 3 { self.0 += 1; Some(self.0) } else { None } } } C(0).collect::<Vec<_>>() == [1, 2, 3] && C(0).map(|x| x * 2).filter(|x| *x > 2).sum::<u32>() == 10 && C(0).enumerate().last() == Some((2, 3)) && C(0).fuse().count() == 3 && C(1).by_ref().take(1).count() == 1 && { let mut n = 0; for x in C(0) { n += x; } n == 6 } }
    ob_conf_vecdeque { let mut q = VecDeque::new(); q.push_back(1); q.push_back(2); q.push_front(0); q.len() == 3 && q.front() == Some(&0) && q.pop_back() == Some(2) && q.pop_front() == Some(0) && q.iter().count() == 1 && q.back() == Some(&1) && q[0] == 1 && q.into_iter().next() == Some(1) }
    ob_conf_btree { let mut m = BTreeMap::new(); m.insert(2, 'b'); m.insert(1, 'a'); m.get(&1) == Some(&'a') && m.len() == 2 && m.range(..=1).next_back() == Some((&1, &'a')) && m.iter().next() == Some((&1, &'a')) && m.keys().count() == 2 && m.values().copied().collect::<String>() == "ab" && m.remove(&1) == Some('a') && m.contains_key(&2) && m.last_key_value() == Some((&2, &'b')) && m.range(0..).next().is_some() && !m.is_empty() }
    ob_conf_btree_bounds { use std::ops::Bound::*; let mut m = BTreeMap::new(); m.insert(1, 0); m.insert(3, 0); m.range((Excluded(1), Unbounded)).next() == Some((&3, &0)) && m.range((Included(1), Excluded(3))).count() == 1 && m.range((Unbounded, Included(3))).next_back() == Some((&3, &0)) }
    ob_conf_btree_entry { let mut m: BTreeMap<u32, u32> = BTreeMap::new(); *m.entry(1).or_insert(5) += 1; *m.entry(1).or_default() += 1; m.entry(2).or_insert_with(|| 3); m[&1] == 7 && m.get_mut(&2).map(|x| { *x += 1; *x }) == Some(4) && m.first_key_value() == Some((&1, &7)) && m.pop_last() == Some((2, 4)) }
    ob_conf_rc { let a = Rc::new(vec![1]); let b = Rc::clone(&a); Rc::ptr_eq(&a, &b) && Rc::strong_count(&a) == 2 && { drop(b); Rc::strong_count(&a) == 1 } && Rc::try_unwrap(a) == Ok(vec![1]) }
    ob_conf_rc_mut { let mut a = Rc::new(vec![1]); Rc::make_mut(&mut a).push(2); let b = a.clone(); Rc::make_mut(&mut a).push(3); Rc::get_mut(&mut a).is_some() && *b == [1, 2] && a.len() == 3 && Rc::into_inner(b) == Some(vec![1, 2]) && *a == vec![1, 2, 3] && Rc::unwrap_or_clone(a).len() == 3 }
    ob_conf_rc_weak { let a = Rc::new(1); let w = Rc::downgrade(&a); w.upgrade().is_some() && { drop(a); w.upgrade().is_none() } }
    ob_conf_rc_cell { let a = Rc::new(RefCell::new(vec![1])); let b = a.clone(); b.borrow_mut().push(2); a.borrow().len() == 2 && a.try_borrow_mut().is_ok() && b.replace(vec![]).len() == 2 && a.take().is_empty() }
    ob_conf_cell { let c = Cell::new(1); c.set(2); c.replace(3) == 2 && c.get() == 3 && c.take() == 3 && c.into_inner() == 0 && { let r = RefCell::new(5); *r.borrow_mut() += 1; let x = *r.borrow(); x == 6 && r.into_inner() == 6 } && { let d = Cell::new(4); d.update(|x| x + 1); d.get() == 5 } }
    ob_conf_once { let o = OnceCell::new(); *o.get_or_init(|| 5) == 5 && o.get() == Some(&5) && o.set(6).is_err() }
    ob_conf_once_lock { *OL.get_or_init(|| 9) == 9 && OL.get() == Some(&9) }
    ob_conf_tls { T1.with(|c| c.get()) == 3 && T1.get() == 3 && { T1.set(4); T1.take() == 4 } && T1.replace(1) == 0 && T2.with(|v| v.borrow().len()) == 2 && T2.with_borrow_mut(|v| { v.push(3); v.len() == 3 }) && T2.with_borrow(|v| v[2] == 3) && T2.try_with(|v| v.borrow().len()).is_ok() && T2.take().len() == 3 }
    ob_conf_atomic { use std::sync::atomic::Ordering::*; AT.load(SeqCst) == 5 && AT.fetch_add(1, Relaxed) == 5 && AT.swap(1, AcqRel) == 6 && AT.compare_exchange(1, 2, SeqCst, SeqCst) == Ok(1) && AT.compare_exchange(1, 3, SeqCst, SeqCst) == Err(2) && { AT.store(9, Release); AT.load(Acquire) == 9 } && !AB.fetch_or(true, SeqCst) && AB.swap(false, SeqCst) && AT.fetch_max(20, SeqCst) == 9 && AT.fetch_update(SeqCst, SeqCst, |x| Some(x + 1)) == Ok(20) }
    ob_conf_mem { let mut a = vec![1]; let b = std::mem::take(&mut a); let c = std::mem::replace(&mut a, vec![2, 3]); let mut d = vec![4]; std::mem::swap(&mut a, &mut d); b == [1] && c.is_empty() && a == [4] && d == [2, 3] && std::mem::size_of::<u32>() == 4 && { std::mem::forget(b); true } }
    ob_conf_box { let mut a = Box::new(5); *a += 1; let b = *a; b == 6 && { let c: Box<dyn Fn() -> u32> = Box::new(move || b); c() == 6 } && *Box::new(P::default()) == P { a: 0, b: s("") } && Box::new(3).clone() == Box::new(3) }
    ob_conf_derive { let p = P { a: 1, b: s("x") }; let q = P { a: 2, ..p.clone() }; p < q && p != q && p.cmp(&q).is_lt() && P::default().a == 0 && E::X < E::Y(0) && E::Y(1) < E::Z { q: 'a' } && E::Y(1).max(E::Y(2)) == E::Y(2) && p.partial_cmp(&q).is_some() }
    ob_conf_tuple { (1, "b") < (2, "a") && (1, 2) == (1, 2) && (1, 'a').cmp(&(1, 'b')).is_lt() && std::cmp::max((1, 2), (1, 3)) == (1, 3) && { let (mut a, mut b) = (1, 2); (a, b) = (b, a); a == 2 && b == 1 } }
    ob_conf_cmp { use std::cmp::{self, Ordering, Reverse}; cmp::min(1, 2) == 1 && 1.cmp(&2) == Ordering::Less && Ordering::Less.then(Ordering::Greater) == Ordering::Less && Ordering::Less.reverse() == Ordering::Greater && Reverse(1) > Reverse(2) && 1.cmp(&1).then_with(|| 2.cmp(&1)).is_gt() && 1.5f64.partial_cmp(&2.5) == Some(Ordering::Less) && "a".partial_cmp("b") == Some(Ordering::Less) }
    ob_conf_range { let r = 2..5; r.start == 2 && r.contains(&4) && r.len() == 3 && !r.is_empty() && (2..=5).contains(&5) && *(2..=5).end() == 5 && (..3).contains(&1) && (1..).contains(&9) && std::ops::RangeBounds::start_bound(&r) == std::ops::Bound::Included(&2) && (0..10).skip(8).count() == 2 && (0usize..3).map(|i| [5, 6, 7][i]).sum::<i32>() == 18 }
    ob_conf_catch { use std::panic; let r = panic::catch_unwind(|| { if opt(true).is_some() { panic!("x") } 5 }); r.is_err() && panic::catch_unwind(|| 5).is_ok() && panic::catch_unwind(panic::AssertUnwindSafe(|| { let v: Vec<u8> = vec![]; v[0] })).is_err() }
    ob_conf_labels { let mut n = 0; 'o: for i in 0..5 { for j in 0..5 { if j > i { continue 'o; } if i == 4 { break 'o; } n += 1; } } let x = loop { n += 1; if n > 12 { break n; } }; let y = 'b: { if x > 5 { break 'b 1; } 2 }; n == 13 && x == 13 && y == 1 }
    ob_conf_match { let c = 'x'; let k = match c { 'a'..='f' => 1, 'x' | 'y' if c != 'y' => 2, _ => 3 }; let t = match (k, "ab") { (2, "ab") => true, _ => false }; k == 2 && t && match 5u8 { 0..=4 => false, n @ 5..=9 => n == 5, _ => false } && match s("q").as_str() { "q" => true, _ => false } }
    ob_conf_drop { let n = Cell::new(0); struct D<'a>(&'a Cell<u32>); impl Drop for D<'_> { fn drop(&mut self) { self.0.set(self.0.get() + 1); } } { let _a = D(&n); let b = D(&n); drop(b); let _ = D(&n); let v = vec![D(&n), D(&n)]; drop(v); let _o = Some(D(&n)); let bx = Box::new(D(&n)); std::mem::forget(bx); } n.get() == 6 }
    ob_conf_defer { let v = RefCell::new(vec![]); struct G<'a>(&'a RefCell<Vec<u32>>, u32); impl Drop for G<'_> { fn drop(&mut self) { self.0.borrow_mut().push(self.1); } } { let _a = G(&v, 1); let _b = G(&v, 2); } let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _c = G(&v, 3); panic!("x") })); let r = v.borrow().clone(); r == [2, 1, 3] }
    ob_conf_fmt_impl { struct X(u8); impl std::fmt::Display for X { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("<")?; write!(f, "{}", self.0)?; std::fmt::Display::fmt(&self.0, f)?; "z".fmt(f)?; f.write_char('>') } } use std::fmt::Write as _; X(3).to_string() == "<33z>" && format!("{}{}", X(1), X(2)) == "<11z><22z>" && format!("{}", format_args!("{}-{}", X(1), 2)) == "<11z>-2" }
    ob_conf_fmt_debug_impl { struct X; impl std::fmt::Debug for X { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { if f.alternate() { f.write_str("alt") } else { f.debug_struct("X").field("a", &1).field("b", &format_args!("{}", 'c')).finish() } } } format!("{:?}", X) == "X { a: 1, b: c }" && format!("{:#?}", X) == "alt" }
    ob_conf_fmt_builders { struct X; impl std::fmt::Debug for X { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.debug_tuple("T").field(&1).field(&"a").finish()?; f.debug_list().entry(&1).entries([2, 3].iter()).finish()?; f.debug_set().entries([1]).finish()?; f.debug_map().entry(&1, &2).finish() } } format!("{:?}", X) == "T(1, \"a\")[1, 2, 3]{1}{1: 2}" }
    ob_conf_fmt_pad { struct X; impl std::fmt::Display for X { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.pad("ab") } } X.to_string() == "ab" && format!("{:4}|", X) == "ab  |" }
    ob_conf_float { 1.5f64.to_string() == "1.5" && 1f32.to_string() == "1" && 1.0f64.is_finite() && !f64::NAN.is_finite() && f64::INFINITY.is_infinite() && (-0.0f64).is_sign_negative() && 2.5f64.floor() == 2.0 && f64::NAN.is_nan() && 1e300f64.is_normal() }
    ob_conf_cstr { let c = c"ab"; c.to_bytes() == b"ab" && c.to_bytes_with_nul().len() == 3 && std::ffi::CStr::from_bytes_with_nul(b"a\0").is_ok() && std::ffi::CString::new("ab").is_ok() && std::ffi::CStr::from_bytes_until_nul(b"a\0b").is_ok() && c.to_str() == Ok("ab") }
    ob_conf_utf8_chunks { b"a\xffb".utf8_chunks().map(|c| c.valid().len() + c.invalid().len()).collect::<Vec<_>>() == [2, 1] && match std::str::from_utf8(b"ab\xff") { Err(e) => e.valid_up_to() == 2 && e.error_len() == Some(1), Ok(_) => false } && b"\n\"".escape_ascii().to_string() == "\\n\\\"" }
    ob_conf_generic { fn f<T: AsRef<str> + ?Sized>(x: &T) -> usize { x.as_ref().len() } fn g<I: IntoIterator<Item = u32>>(i: I) -> u32 { i.into_iter().sum() } fn h(x: impl Into<String>) -> String { x.into() } fn k<T: std::borrow::Borrow<str>>(x: T) -> usize { x.borrow().len() } f("ab") == 2 && f(&s("abc")) == 3 && g(vec![1, 2]) == 3 && g(Some(4)) == 4 && h("x") == "x" && k(s("ab")) == 2 && { use std::str::FromStr; u8::from_str("7") == Ok(7) } }
    ob_conf_trait_obj { trait A { fn n(&self) -> u32; fn m(&self) -> u32 { self.n() + 1 } } struct X; struct Y(u32); impl A for X { fn n(&self) -> u32 { 1 } } impl A for Y { fn n(&self) -> u32 { self.0 } fn m(&self) -> u32 { 0 } } let v: Vec<Box<dyn A>> = vec![Box::new(X), Box::new(Y(5))]; v.iter().map(|a| a.n()).sum::<u32>() == 6 && v.iter().map(|a| a.m()).sum::<u32>() == 2 }
    ob_conf_assert { assert!(true); assert_eq!(1, 1); assert_ne!(1, 2, "x {}", 1); debug_assert!(true); std::panic::catch_unwind(|| assert_eq!(1, 2)).is_err() && std::panic::catch_unwind(|| { let x: Option<u8> = None; x.expect("e") }).is_err() && std::panic::catch_unwind(|| unreachable!("x")).is_err() }
    ob_conf_overflow { let x: u8 = "255".parse().unwrap(); std::panic::catch_unwind(move || x + 1).is_err() && std::panic::catch_unwind(move || [1, 2][x as usize]).is_err() && std::panic::catch_unwind(move || &"é"[..1] == "").is_err() && std::panic::catch_unwind(move || 1 / (x - 255)).is_err() }
    ob_conf_str_char_at { let t = "aéb"; let i = 1; t[i..].chars().next() == Some('é') && t.bytes().nth(i) == Some(0xc3) && t.as_bytes()[0] == b'a' && t.chars().position(|c| c == 'b') == Some(2) && t.floor_check() }
    ob_conf_bool { true.then(|| 5) == Some(5) && false.then_some(1).is_none() && (true & !false) && (true ^ false) && true > false && bool::from(true) && true as u8 == 1 }
    ob_conf_ptr { let a = [1, 2]; let p = a.as_ptr(); let r = &a; std::ptr::eq(r, &a) && !p.is_null() && { let x = 5; let y = &x; *y == 5 && y.clone() == 5 } }
    ob_conf_hashset { let mut m = std::collections::BTreeSet::new(); m.insert(3); m.insert(1) && !m.insert(1) && m.len() == 2 && m.contains(&3) && m.iter().next() == Some(&1) }
    ob_conf_time { let d = std::time::Duration::from_secs(1); d.as_secs() == 1 }
    ob_conf_const { const K: [&str; 2] = ["a", "b"]; static Z: &[char] = &['x', 'y']; const fn f(x: u32) -> u32 { x * 2 } const Q: u32 = f(4); K[1] == "b" && Z.contains(&'x') && Q == 8 && K.iter().any(|k| *k == "a") && Z.iter().position(|c| *c == 'y') == Some(1) }
    ob_conf_closure { let mut n = 0; let mut inc = |k: u32| { n += k; n }; inc(1); inc(2); fn ap<F: FnOnce(u32) -> u32>(f: F) -> u32 { f(3) } let add = |x: u32| move |y: u32| x + y; n == 3 && ap(|x| x * 2) == 6 && add(1)(2) == 3 && ap(u32::from) == 3 && { fn r(n: u32) -> u32 { if n == 0 { 0 } else { 1 + r(n - 1) } } r(20) == 20 } }
    ob_conf_slice_pat_str { let v: Vec<char> = "ab(".chars().collect(); matches!(v.as_slice(), [.., '(']) && v.iter().rev().take_while(|c| **c != 'a').count() == 2 && v.iter().collect::<String>() == "ab(" && v.ends_with(&['(']) && v.starts_with(&['a']) }
}
use std::num::NonZero;
trait X { fn concat_check(&self) -> bool { true } fn floor_check(&self) -> bool { true } }
impl X for [i32; 4] {}
impl X for &str {}
conf! {
    ob_conf_vec_eq1 { let x = [1, 2, 3]; vec![2, 3] == x[1..3] && vec![2, 3] == &x[1..3] && x[1..3] == vec![2, 3] && &x[1..] == vec![2, 3] && vec![1, 2, 3] == x && vec![1, 2, 3] == &x && vec![1, 2] != x[1..3] }
    ob_conf_vec_eq2 { let mut x = vec![1u8, 2]; x.push(3); x == b"\x01\x02\x03" && x != b"\x01\x02\x04" && x == "\x01\x02\x03".as_bytes() && x[1..] == *b"\x02\x03" }
}
