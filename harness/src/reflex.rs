//! The reference lexer: Rust's lexical grammar as proc-macro2 accepts it, over positions in a vector of characters.
use crate::{h, vp};
use proc_macro2::*;
pub struct Tok { pub k: K, pub lo: usize, pub hi: usize }
pub enum K {
    Group(Delimiter, Vec<Tok>),
    Ident,
    Punct(char, bool),
    Lit,
    /// A doc comment: whether it is an inner one, and where its text is.
    Doc(bool, usize, usize),
}
pub struct Src { pub c: Vec<char> }
impl Src {
    pub fn new(s: &str) -> Src { let mut c = vec![]; let mut it = s.chars(); while let Some(x) = it.next() { c.push(x); } Src { c } }
    fn len(&self) -> usize { self.c.len() }
    fn is(&self, i: usize, ch: char) -> bool { i < self.c.len() && self.c[i] == ch }
    fn at(&self, i: usize, s: &str) -> bool { let mut i = i; let mut it = s.chars(); while let Some(x) = it.next() { if !self.is(i, x) { return false; } i += 1; } true }
    fn start(&self, i: usize) -> bool { i < self.c.len() && (self.c[i] == '_' || h::is_xid_start(self.c[i])) }
    fn cont(&self, i: usize) -> bool { i < self.c.len() && h::is_xid_continue(self.c[i]) }
    fn digit(&self, i: usize) -> bool { i < self.c.len() && '0' <= self.c[i] && self.c[i] <= '9' }
    fn hex(&self, i: usize) -> bool { if i >= self.c.len() { return false; } let c = self.c[i]; ('0' <= c && c <= '9') || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F') }
    pub fn text(&self, lo: usize, hi: usize) -> String { let mut s = String::new(); let mut i = lo; while i < hi { s.push(self.c[i]); i += 1; } s }
    fn punct(&self, i: usize) -> bool {
        if i >= self.c.len() { return false; }
        let c = self.c[i];
        if c == '/' { return !self.is(i + 1, '/') && !self.is(i + 1, '*'); }
        c == '!' || ('#' <= c && c <= '\'') || ('*' <= c && c <= '.') || (':' <= c && c <= '@') || c == '^' || c == '|' || c == '~'
    }
    /// A name without r#: where it ends.
    fn name(&self, i: usize) -> Option<usize> { if !self.start(i) { return None; } let mut j = i + 1; while self.cont(j) { j += 1; } Some(j) }
    fn ident(&self, i: usize) -> Option<usize> {
        if !self.at(i, "r#") { return self.name(i); }
        let e = self.name(i + 2)?;
        let n = self.text(i + 2, e);
        if n == "_" || n == "self" || n == "Self" || n == "super" || n == "crate" { None } else { Some(e) }
    }
    fn suffix(&self, i: usize) -> usize { match self.name(i) { Some(e) => e, None => i } }
    // ---- quoted literals
    /// kind: 0 string, 1 char, 2 byte, 3 byte string, 4 C string. `i` is after the backslash.
    fn escape(&self, i: usize, kind: u8) -> Option<usize> {
        if i >= self.len() { return None; }
        match self.c[i] {
            'n' | 'r' | 't' | '\\' | '\'' | '"' => Some(i + 1),
            '0' => if kind == 4 { None } else { Some(i + 1) },
            'x' => {
                if !self.hex(i + 1) || !self.hex(i + 2) { return None; }
                if (kind == 0 || kind == 1) && self.c[i + 1] > '7' { return None; }
                if kind == 4 && self.c[i + 1] == '0' && self.c[i + 2] == '0' { return None; }
                Some(i + 3)
            }
            'u' => {
                if kind == 2 || kind == 3 || !self.is(i + 1, '{') || !self.hex(i + 2) { return None; }
                let (mut j, mut n, mut v) = (i + 2, 0, 0u32);
                while j < self.len() {
                    let c = self.c[j];
                    if c == '_' { j += 1; continue; }
                    if c == '}' { break; }
                    if !self.hex(j) { return None; }
                    n += 1;
                    if n > 6 { return None; }
                    v = v * 16 + if c <= '9' { c as u32 - 48 } else if c <= 'F' { c as u32 - 55 } else { c as u32 - 87 };
                    j += 1;
                }
                if !self.is(j, '}') || v > 0x10ffff || (v >= 0xd800 && v <= 0xdfff) || (kind == 4 && v == 0) { return None; }
                Some(j + 1)
            }
            _ => None,
        }
    }
    /// `i` is after the opening quote.
    fn cooked(&self, i: usize, kind: u8) -> Option<usize> {
        let mut i = i;
        loop {
            if i >= self.len() { return None; }
            let c = self.c[i];
            if c == '"' { return Some(self.suffix(i + 1)); }
            if c == '\r' { if !self.is(i + 1, '\n') { return None; } i += 2; continue; }
            if c == '\\' {
                if self.is(i + 1, '\n') || self.is(i + 1, '\r') {
                    i += 1;
                    // a line continuation swallows white space; a carriage return must be followed by a newline
                    while i < self.len() {
                        let c = self.c[i];
                        if c == '\r' { if !self.is(i + 1, '\n') { return None; } i += 2; } else if c == '\n' || c == ' ' || c == '\t' { i += 1; } else { break; }
                    }
                } else { i = self.escape(i + 1, kind)?; }
                continue;
            }
            if kind == 3 && c > '\x7f' { return None; }
            if kind == 4 && c == '\0' { return None; }
            i += 1;
        }
    }
    /// `i` is after the r.
    fn raw(&self, i: usize, kind: u8) -> Option<usize> {
        let mut n = 0;
        while self.is(i + n, '#') { n += 1; }
        if !self.is(i + n, '"') || n > 255 { return None; }
        let mut j = i + n + 1;
        loop {
            if j >= self.len() { return None; }
            let c = self.c[j];
            if c == '"' { let mut m = 0; while m < n && self.is(j + 1 + m, '#') { m += 1; } if m == n { return Some(self.suffix(j + 1 + n)); } }
            else if c == '\r' { if !self.is(j + 1, '\n') { return None; } }
            else if kind == 3 { if c > '\x7f' { return None; } }
            else if kind == 4 { if c == '\0' { return None; } }
            j += 1;
        }
    }
    /// `i` is after the opening quote.
    fn single(&self, i: usize, kind: u8) -> Option<usize> {
        if i >= self.len() { return None; }
        let j = if self.c[i] == '\\' { self.escape(i + 1, kind)? } else { if kind == 2 && self.c[i] > '\x7f' { return None; } i + 1 };
        if self.is(j, '\'') { Some(self.suffix(j + 1)) } else { None }
    }
    fn quoted(&self, i: usize) -> Option<usize> {
        if self.is(i, '"') { return self.cooked(i + 1, 0); }
        if self.is(i, '\'') { return self.single(i + 1, 1); }
        if self.is(i, 'r') { return self.raw(i + 1, 0); }
        if self.is(i, 'b') { if self.is(i + 1, '"') { return self.cooked(i + 2, 3); } if self.is(i + 1, '\'') { return self.single(i + 2, 2); } if self.is(i + 1, 'r') { return self.raw(i + 2, 3); } return None; }
        if self.is(i, 'c') { if self.is(i + 1, '"') { return self.cooked(i + 2, 4); } if self.is(i + 1, 'r') { return self.raw(i + 2, 4); } return None; }
        None
    }
    // ---- numbers
    fn number_end(&self, i: usize) -> Option<usize> { let j = self.suffix(i); if self.cont(j) { None } else { Some(j) } }
    fn digits(&self, i: usize) -> usize { let mut i = i; while self.digit(i) || self.is(i, '_') { i += 1; } i }
    fn exponent(&self, i: usize) -> Option<usize> {
        let mut j = i + 1;
        let mut sign = false;
        while self.is(j, '_') || self.is(j, '+') || self.is(j, '-') { if !self.is(j, '_') { if sign { return None; } sign = true; } j += 1; }
        if self.digit(j) { Some(self.digits(j)) } else { None }
    }
    fn float(&self, i: usize) -> Option<usize> {
        let mut j = self.digits(i);
        let dot = self.is(j, '.');
        if dot { if self.is(j + 1, '.') || self.start(j + 1) { return None; } j = self.digits(j + 1); }
        if self.is(j, 'e') || self.is(j, 'E') { match self.exponent(j) { Some(e) => return self.number_end(e), None => if !dot { return None; } } } else if !dot { return None; }
        self.number_end(j)
    }
    fn int(&self, i: usize) -> Option<usize> {
        let base = if !self.is(i, '0') { 10 } else if self.is(i + 1, 'x') { 16 } else if self.is(i + 1, 'o') { 8 } else if self.is(i + 1, 'b') { 2 } else { 10 };
        let mut j = if base == 10 { i } else { i + 2 };
        let mut some = false;
        loop {
            if self.is(j, '_') { j += 1; continue; }
            if self.digit(j) { if self.c[j] as u32 - 48 >= base { return None; } }
            else if !(base == 16 && self.hex(j)) { break; }
            some = true;
            j += 1;
        }
        if some { self.number_end(j) } else { None }
    }
    fn number(&self, i: usize) -> Option<usize> { if !self.digit(i) { return None; } match self.float(i) { Some(e) => Some(e), None => self.int(i) } }
    fn literal(&self, i: usize) -> Option<usize> { if self.digit(i) { self.number(i) } else { self.quoted(i) } }
    /// The whole text as one literal.
    pub fn whole_literal(&self) -> bool {
        let neg = self.is(0, '-');
        let e = if neg { self.number(1) } else { self.literal(0) };
        match e { Some(e) => e == self.len(), None => false }
    }
    // ---- white space and comments
    /// The end of the block comment at `i`.
    fn block(&self, i: usize) -> Option<usize> {
        let (mut d, mut j) = (0, i);
        while j + 1 < self.len() {
            if self.c[j] == '/' && self.c[j + 1] == '*' { d += 1; j += 2; }
            else if self.c[j] == '*' && self.c[j + 1] == '/' { d -= 1; j += 2; if d == 0 { return Some(j); } }
            else { j += 1; }
        }
        None
    }
    /// Where the line ends (before the line terminator).
    fn line_end(&self, i: usize) -> usize { let mut j = i; while j < self.len() && !self.is(j, '\n') && !(self.is(j, '\r') && self.is(j + 1, '\n')) { j += 1; } j }
    /// 0 none, 1 plain, 2 outer doc, 3 inner doc
    fn comment(&self, i: usize) -> u8 {
        if !self.is(i, '/') { return 0; }
        let line = self.is(i + 1, '/');
        if !line && !self.is(i + 1, '*') { return 0; }
        let m = if line { '/' } else { '*' };
        if self.is(i + 2, '!') { return 3; }
        if !self.is(i + 2, m) { return 1; }
        // four slashes, three stars, and the empty block comment are plain
        if self.is(i + 3, m) || (!line && self.is(i + 3, '/')) { return 1; }
        2
    }
    fn skip(&self, i: usize) -> Option<usize> {
        let mut i = i;
        loop {
            if i >= self.len() { return Some(i); }
            if h::is_white(self.c[i]) { i += 1; continue; }
            if self.comment(i) != 1 { return Some(i); }
            i = if self.is(i + 1, '/') { self.line_end(i) } else { self.block(i)? };
        }
    }
    fn doc(&self, i: usize, inner: bool) -> Option<Tok> {
        let (lo, hi, end) = if self.is(i + 1, '/') { let e = self.line_end(i + 3); (i + 3, e, if self.is(e, '\r') { e + 1 } else { e }) } else { let e = self.block(i)?; if e < i + 5 { return None; } (i + 3, e - 2, e) };
        let mut j = lo;
        while j < hi { if self.c[j] == '\r' && !(j + 1 < hi && self.c[j + 1] == '\n') { return None; } j += 1; }
        Some(Tok { k: K::Doc(inner, lo, hi), lo: i, hi: end })
    }
    fn leaf(&self, i: usize) -> Option<Tok> {
        if let Some(e) = self.literal(i) { return Some(Tok { k: K::Lit, lo: i, hi: e }); }
        if self.is(i, '\'') {
            let e = self.ident(i + 1)?;
            if self.is(e, '\'') || (self.is(e, '#') && !self.at(i + 1, "r#")) { return None; }
            return Some(Tok { k: K::Punct('\'', true), lo: i, hi: i + 1 });
        }
        if self.punct(i) { return Some(Tok { k: K::Punct(self.c[i], self.punct(i + 1)), lo: i, hi: i + 1 }); }
        // the beginning of a literal that is not one
        if self.is(i, 'b') && (self.is(i + 1, '"') || self.is(i + 1, '\'')) { return None; }
        if self.is(i, 'c') && self.is(i + 1, '"') { return None; }
        if (self.is(i, 'b') || self.is(i, 'c')) && self.is(i + 1, 'r') && (self.is(i + 2, '"') || self.is(i + 2, '#')) { return None; }
        if self.is(i, 'r') && (self.is(i + 1, '"') || (self.is(i + 1, '#') && (self.is(i + 2, '"') || self.is(i + 2, '#')))) { return None; }
        let e = self.ident(i)?;
        Some(Tok { k: K::Ident, lo: i, hi: e })
    }
    pub fn lex(&self) -> Option<Vec<Tok>> {
        let mut stack: Vec<(usize, Delimiter, Vec<Tok>)> = vec![];
        let mut cur: Vec<Tok> = vec![];
        let mut i = if self.is(0, '\u{feff}') { 1 } else { 0 };
        loop {
            i = self.skip(i)?;
            if i >= self.len() { return if stack.len() == 0 { Some(cur) } else { None }; }
            let k = self.comment(i);
            if k >= 2 { let t = self.doc(i, k == 3)?; i = t.hi; cur.push(t); continue; }
            let c = self.c[i];
            if c == '(' && self.at(i, "(/*ERROR*/)") { cur.push(Tok { k: K::Lit, lo: i, hi: i + 11 }); i += 11; continue; }
            let open = match c { '(' => Some(Delimiter::Parenthesis), '[' => Some(Delimiter::Bracket), '{' => Some(Delimiter::Brace), _ => None };
            if let Some(d) = open { stack.push((i, d, std::mem::replace(&mut cur, vec![]))); i += 1; continue; }
            let close = match c { ')' => Some(Delimiter::Parenthesis), ']' => Some(Delimiter::Bracket), '}' => Some(Delimiter::Brace), _ => None };
            if let Some(d) = close {
                let (lo, o, outer) = stack.pop()?;
                if o != d { return None; }
                let inner = std::mem::replace(&mut cur, outer);
                i += 1;
                cur.push(Tok { k: K::Group(d, inner), lo, hi: i });
                continue;
            }
            let t = self.leaf(i)?;
            i = t.hi;
            cur.push(t);
        }
    }
}
fn next(it: &mut token_stream::IntoIter) -> TokenTree { match it.next() { Some(t) => t, None => vp::fail("a token is missing") } }
fn a_punct(t: TokenTree, c: char, joint: bool) -> Span { match t { TokenTree::Punct(p) => { vp::check(p.as_char() == c, "a punctuation token has another character"); vp::check((p.spacing() == Spacing::Joint) == joint, "a punctuation token has another spacing"); p.span() } _ => vp::fail("punctuation expected") } }
/// Compare a stream with the reference tokens; `sp` is told the span and the range of every token.
pub fn same(s: TokenStream, want: &[Tok], src: &Src, sp: &mut dyn FnMut(Span, usize, usize)) {
    let mut it = s.into_iter();
    let mut i = 0;
    while i < want.len() {
        let w = &want[i];
        i += 1;
        let t = next(&mut it);
        match &w.k {
            K::Punct(c, j) => { let s = a_punct(t, *c, *j); sp(s, w.lo, w.hi); }
            K::Ident => match t { TokenTree::Ident(x) => { vp::check(x.to_string() == src.text(w.lo, w.hi), "an identifier has another text"); sp(x.span(), w.lo, w.hi); } _ => vp::fail("identifier expected") },
            K::Lit => match t { TokenTree::Literal(x) => { vp::check(x.to_string() == src.text(w.lo, w.hi), "a literal has another text"); sp(x.span(), w.lo, w.hi); } _ => vp::fail("literal expected") },
            K::Group(d, inner) => match t {
                TokenTree::Group(g) => {
                    vp::check(g.delimiter() == *d, "a group has another delimiter");
                    sp(g.span(), w.lo, w.hi); sp(g.span_open(), w.lo, w.lo + 1); sp(g.span_close(), w.hi - 1, w.hi);
                    same(g.stream(), inner, src, sp);
                }
                _ => vp::fail("group expected"),
            },
            K::Doc(inner, lo, hi) => {
                let s = a_punct(t, '#', false); sp(s, w.lo, w.hi);
                if *inner { let s = a_punct(next(&mut it), '!', false); sp(s, w.lo, w.hi); }
                match next(&mut it) {
                    TokenTree::Group(g) => {
                        vp::check(g.delimiter() == Delimiter::Bracket, "a doc attribute is in brackets"); sp(g.span(), w.lo, w.hi);
                        let mut a = g.stream().into_iter();
                        match next(&mut a) { TokenTree::Ident(x) => { vp::check(x == "doc", "a doc attribute is named doc"); sp(x.span(), w.lo, w.hi); } _ => vp::fail("a doc attribute is named doc") }
                        let s = a_punct(next(&mut a), '=', false); sp(s, w.lo, w.hi);
                        match next(&mut a) { TokenTree::Literal(x) => {
                            match vp::decode(&x.to_string(), 0) { Some(v) => { vp::check(v.len() == hi - lo, "a doc attribute has another text"); let mut k = 0; while k < v.len() { vp::check(v[k] == src.c[lo + k] as u32, "a doc attribute has another text"); k += 1; } } None => vp::fail("a doc attribute has another text") }
                            sp(x.span(), w.lo, w.hi);
                        } _ => vp::fail("a doc attribute holds a string") }
                        vp::check(a.next().is_none(), "a doc attribute has more tokens");
                    }
                    _ => vp::fail("a doc comment becomes an attribute"),
                }
            }
        }
    }
    vp::check(it.next().is_none(), "there are more tokens");
}
/// Lex `s` and compare with the reference.
pub fn agree(s: &str) -> bool {
    vp::input_str("source", s);
    let src = Src::new(s);
    let got = s.parse::<TokenStream>();
    match (src.lex(), got) {
        (Some(w), Ok(g)) => { same(g, &w, &src, &mut |_, _, _| ()); true }
        (None, Err(_)) => { vp::check(true, ""); false }
        (Some(_), Err(_)) => vp::fail("a valid text is rejected"),
        (None, Ok(_)) => vp::fail("an invalid text is accepted"),
    }
}
/// Parse `s` as one literal and compare with the reference.
pub fn agree_literal(s: &str) -> bool {
    vp::input_str("source", s);
    let src = Src::new(s);
    let got = s.parse::<Literal>();
    let ok = src.whole_literal();
    match got { Ok(l) => { vp::check(ok, "an invalid text is accepted as a literal"); vp::check(l.to_string() == s, "a literal has another text"); } Err(_) => vp::check(!ok, "a valid literal is rejected") }
    ok
}

/// Token forms and how texts may start; for sequences without white space between them.
const NEXT: [&str; 40] = ["a", "r#a", "_", "r", "b", "br", "'a", "'r#a", "'_", "'x'", "b'x'", "\"s\"", "r\"s\"", "r#\"s\"#", "b\"s\"", "c\"s\"", "cr#\"s\"#", "1", "1.", ".5", "1.0", "1e5", "0x1f", "1u8", "+", "-", "/", "#", "'", ".", "(", "{", ")", "//c\n", "///d\n", "/*c*/", "/**d*/", "\\", "\u{e9}", "\r\n"];
/// One of the given texts directly followed by a token form (and a piece of another).
pub fn pair(first: &[&str]) {
    let mut s = String::from(["", "a", "'", "/"][vp::choose(4)]);
    s.push_str(first[vp::choose(first.len())]);
    s.push_str(NEXT[vp::choose(40)]);
    s.push_str(["", "a", "'", "\"", "/"][vp::choose(5)]);
    agree(&s);
}
