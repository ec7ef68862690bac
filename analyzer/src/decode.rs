//! What a quoted literal denotes: the reference for the literal constructors, over abstract text.
use crate::dom::*;
use crate::state::*;

fn is(st: &mut State, c: &Lin, s: &str) -> R<bool> { let set = ISet::new(s.chars().map(|c| (c as i128, c as i128)).collect()); st.decide(c, &set) }
struct Rd<'a> { s: &'a [Seg], i: usize }
impl<'a> Rd<'a> {
    fn ch(&mut self) -> R<Option<Lin>> {
        match self.s.get(self.i) { None => Ok(None), Some(Seg::Ch(l, _)) => { self.i += 1; Ok(Some(l.clone())) } _ => Err(Stop::Unknown("literal text is not a sequence of characters".into())) }
    }
    fn eat(&mut self, st: &mut State, s: &str) -> R<bool> {
        for c in s.chars() { match self.ch()? { Some(l) => if !st.decide(&l, &ISet::single(c as i128))? { return Ok(false); }, None => return Ok(false) } }
        Ok(true)
    }
    /// Hexadecimal digits: either a formatted number or concrete digits (at most `max`).
    fn hex(&mut self, st: &mut State, min: usize, max: usize) -> R<Option<Lin>> {
        if let Some(Seg::Opq(t, len)) = self.s.get(self.i) {
            if !(t.op.starts_with("num:LowerHex") || t.op.starts_with("num:UpperHex")) { return Err(Stop::Unknown("literal text is not a sequence of characters".into())); }
            // an alternate form would print 0x
            let flags: u32 = t.op.split(':').nth(2).and_then(|x| x.parse().ok()).unwrap_or(0);
            if flags & (1 << 23) != 0 { return Ok(None); }
            self.i += 1;
            let Val::Int(l) = &t.args[0] else { return Err(Stop::Unknown("number".into())) };
            let (lo, hi) = st.bounds(l);
            let width: usize = t.op.split(':').nth(3).and_then(|x| x.parse().ok()).unwrap_or(0);
            let zero = flags & (1 << 24) != 0;
            if lo < 0 { return Err(Stop::Unknown("sign of a number".into())); }
            if min == 2 { // exactly two digits
                if hi > 255 { return Err(Stop::Unknown("size of a number".into())); }
                let padded = zero && width == 2;
                if !padded && !st.decide(l, &ISet::range(16, 255))? { return Ok(None); }
            }
            let _ = len;
            return Ok(Some(l.clone()));
        }
        let mut v: i128 = 0; let mut n = 0;
        while n < max {
            let Some(Seg::Ch(l, _)) = self.s.get(self.i) else { break };
            let Some(c) = st.norm(l).konst() else { return Err(Stop::Unknown("abstract digit in an escape".into())) };
            let Some(d) = char::from_u32(c as u32).and_then(|c| c.to_digit(16)) else { break };
            v = v * 16 + d as i128; n += 1; self.i += 1;
        }
        Ok(if n < min { None } else { Some(Lin::k(v)) })
    }
}
/// kind: 0 string, 1 character, 2 byte, 3 byte string, 4 C string. Raw bytes of a C string are returned plus 2^24.
pub fn decode(st: &mut State, s: &[Seg], kind: i128) -> R<Option<Vec<Lin>>> {
    let (open, close) = match kind { 0 => ("\"", '"'), 1 => ("'", '\''), 2 => ("b'", '\''), 3 => ("b\"", '"'), _ => ("c\"", '"') };
    let mut r = Rd { s, i: 0 };
    if !r.eat(st, open)? { return Ok(None); }
    let mut out = vec![];
    let (bytes, quoted) = (kind == 2 || kind == 3, kind == 1 || kind == 2);
    loop {
        let Some(c) = r.ch()? else { return Ok(None) };
        if st.decide(&c, &ISet::single(close as i128))? { break; }
        if is(st, &c, "\\")? {
            let Some(x) = r.ch()? else { return Ok(None) };
            let Some(x) = st.norm(&x).konst() else { return Err(Stop::Unknown("abstract character after a backslash".into())) };
            match char::from_u32(x as u32).unwrap_or(' ') {
                'n' => out.push(Lin::k(10)), 'r' => out.push(Lin::k(13)), 't' => out.push(Lin::k(9)), '\\' => out.push(Lin::k(92)), '\'' => out.push(Lin::k(39)), '"' => out.push(Lin::k(34)),
                '0' => { if kind == 4 { return Ok(None); } out.push(Lin::k(0)) }
                'x' => {
                    let Some(v) = r.hex(st, 2, 2)? else { return Ok(None) };
                    if !bytes && kind != 4 && !st.decide(&v, &ISet::range(0, 0x7f))? { return Ok(None); }
                    if kind == 4 { if st.decide(&v, &ISet::single(0))? { return Ok(None); } if !st.decide(&v, &ISet::range(0, 0x7f))? { out.push(v.add(&Lin::k(1 << 24))); continue; } }
                    out.push(v);
                }
                'u' => {
                    if bytes || !r.eat(st, "{")? { return Ok(None); }
                    let Some(v) = r.hex(st, 1, 6)? else { return Ok(None) };
                    if !r.eat(st, "}")? { return Ok(None); }
                    if !st.decide(&v, &ISet::new(vec![(0, 0xd7ff), (0xe000, 0x10ffff)]))? { return Ok(None); }
                    if kind == 4 && st.decide(&v, &ISet::single(0))? { return Ok(None); }
                    out.push(v);
                }
                _ => return Ok(None),
            }
            continue;
        }
        if bytes && !st.decide(&c, &ISet::range(0, 0x7f))? { return Ok(None); }
        if is(st, &c, "\r")? { return Ok(None); }
        if quoted && is(st, &c, "\n\t")? { return Ok(None); }
        if kind == 4 && st.decide(&c, &ISet::single(0))? { return Ok(None); }
        out.push(c);
    }
    if r.i != s.len() || (quoted && out.len() != 1) { return Ok(None); }
    Ok(Some(out))
}
