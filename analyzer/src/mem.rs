//! Memory access: reading and writing values through pointers, text content.
use crate::dom::*;
use crate::state::*;
use std::rc::Rc;

pub fn utf8_class(w: i128) -> ISet {
    match w {
        1 => ISet::range(0, 0x7f),
        2 => ISet::range(0x80, 0x7ff),
        3 => ISet::new(vec![(0x800, 0xd7ff), (0xe000, 0xffff)]),
        _ => ISet::range(0x10000, 0x10ffff),
    }
}

pub fn term_field(t: &Rc<TermNode>, var: u32, i: u32) -> Val {
    Val::Term(Rc::new(TermNode { op: format!("#{}.{}", var, i).into(), args: vec![Val::Term(t.clone())], ty: t.ty }))
}

impl State {
    pub fn slot(&self, s: SlotId) -> R<&Val> {
        match self.slots.get(s as usize).and_then(|x| x.as_ref()) {
            Some(v) => Ok(v),
            None => Err(Stop::Fail("use of memory after it was freed".into())),
        }
    }
    pub fn read(&mut self, p: &Ptr) -> R<Val> {
        let mut v = self.slot(p.slot)?.clone();
        let mut down = 0;
        for e in &p.path {
            v = match (e, v) {
                (PE::Down(d), x) => { down = *d; x }
                (PE::Field(i), Val::Agg(a)) => { down = 0; match a.f.get(*i as usize) { Some(x) => x.clone(), None => Val::Undef } }
                (PE::Field(i), Val::Term(t)) => { let r = term_field(&t, down, *i); down = 0; r }
                (PE::Field(0), x @ (Val::Ptr(_) | Val::Int(_) | Val::Fn(_))) => x,
                (PE::Field(_), Val::Ptr(_)) => Val::unit(),
                (PE::Field(_), Val::Undef) => Val::Undef,
                (PE::Field(_), Val::Top) => Val::Top,
                (PE::Elem(i), Val::Seq(s)) => match s.get(*i as usize) { Some(x) => x.clone(), None => return unk(format!("element {} of a sequence of {}", i, s.len())) },
                (PE::Elem(i), Val::Str(s)) => Val::Int(self.str_byte(&s, &Lin::k(*i as i128))?),
                (PE::Byte(l), Val::Str(s)) => Val::Int(self.str_byte(&s, l)?),
                (PE::Byte(l), Val::Seq(s)) => { let i = self.enumerate(l, 4096)?; match s.get(i as usize) { Some(x) => x.clone(), None => return unk("byte out of range") } }
                (PE::Elem(_), Val::Undef) => Val::Undef,
                (PE::Elem(0), x) => x,
                (e, v) => return unk(format!("projection {:?} of {}", e, self.show(&v))),
            };
        }
        Ok(v)
    }
    pub fn write(&mut self, p: &Ptr, v: Val) -> R<()> {
        if self.slot(p.slot).is_err() { return Err(Stop::Fail("write to memory after it was freed".into())); }
        if let Some(j) = &mut self.journal { j.push(Undo::Set(p.slot, self.slots[p.slot as usize].clone())); }
        let rc = self.slots[p.slot as usize].as_mut().unwrap();
        let mut cur = Rc::make_mut(rc);
        let mut var = None;
        for (n, e) in p.path.iter().enumerate() {
            let _ = n;
            match e {
                PE::Down(d) => { var = Some(*d); }
                PE::Field(i) => {
                    match cur {
                        Val::Undef => *cur = Val::agg(var.unwrap_or(0), vec![]),
                        Val::Ptr(_) | Val::Int(_) | Val::Fn(_) if *i == 0 => { var = None; continue; }
                        Val::Ptr(_) => return Ok(()),
                        _ => {}
                    }
                    match cur {
                        Val::Agg(a) => {
                            let a = Rc::make_mut(a);
                            if let Some(d) = var.take() { a.var = d; }
                            while a.f.len() <= *i as usize { a.f.push(Val::Undef); }
                            cur = &mut a.f[*i as usize];
                        }
                        _ => return unk("write to a field of a non-aggregate"),
                    }
                }
                PE::Elem(i) => match cur {
                    Val::Seq(s) => {
                        let s = Rc::make_mut(s);
                        if *i as usize >= s.len() { return unk("write past the end of a sequence"); }
                        cur = &mut s[*i as usize];
                    }
                    _ if *i == 0 => {}
                    _ => return unk("write to an element of a non-sequence"),
                },
                PE::Byte(_) => return unk("write to a byte of text"),
            }
        }
        *cur = v;
        Ok(())
    }
    /// The value behind a plain pointer, for changes that are undone on their own.
    pub fn place(&mut self, p: &Ptr) -> Option<&mut Val> {
        let mut cur = Rc::make_mut(self.slots.get_mut(p.slot as usize)?.as_mut()?);
        for e in p.path.iter() {
            match (e, &*cur) {
                (PE::Field(i), Val::Agg(_)) => { let Val::Agg(a) = cur else { return None }; cur = Rc::make_mut(a).f.get_mut(*i as usize)?; }
                (PE::Elem(i), Val::Seq(_)) => { let Val::Seq(s) = cur else { return None }; cur = Rc::make_mut(s).get_mut(*i as usize)?; }
                (PE::Down(_), Val::Agg(_)) => {}
                _ => return None,
            }
        }
        Some(cur)
    }
    /// Append to the sequence behind a pointer; gives the element back where that is not simple.
    pub fn append_val(&mut self, p: &Ptr, x: Val) -> Option<Val> {
        let n = match self.place(p) { Some(Val::Seq(s)) => { let s = Rc::make_mut(s); s.push(x); s.len() - 1 } _ => return Some(x) };
        if let Some(j) = &mut self.journal { j.push(Undo::Short(p.clone(), n)); }
        None
    }
    pub fn append_segs(&mut self, p: &Ptr, mut x: Vec<Seg>) -> Option<Vec<Seg>> {
        let n = match self.place(p) { Some(Val::Str(s)) => { let s = Rc::make_mut(s); let n = s.len(); s.append(&mut x); n } _ => return Some(x) };
        if let Some(j) = &mut self.journal { j.push(Undo::Short(p.clone(), n)); }
        None
    }
    /// In-place update of the value behind a pointer.
    pub fn update<T>(&mut self, p: &Ptr, f: impl FnOnce(&mut Val) -> R<T>) -> R<T> {
        let mut v = self.read(p)?;
        let r = f(&mut v)?;
        self.write(p, v)?;
        Ok(r)
    }

    // ---- text --------------------------------------------------------------------------
    /// Width in bytes of a character, splitting by UTF-8 length if necessary.
    pub fn ch_width(&mut self, c: &Lin) -> R<i128> {
        let c = self.norm(c);
        if let Some(c) = c.konst() { return match u32::try_from(c).ok().and_then(char::from_u32) { Some(c) => Ok(c.len_utf8() as i128), None => unk("character out of range") }; }
        let i = self.decide_multi(&c, &[utf8_class(1), utf8_class(2), utf8_class(3), utf8_class(4)])?;
        if i < 4 { Ok(i as i128 + 1) } else { unk("character out of range") }
    }
    /// Which of the disjoint sets contains `l`; splits over all that may.
    pub fn decide_multi(&mut self, l: &Lin, sets: &[ISet]) -> R<usize> {
        let l = self.norm(l);
        if let Some(c) = l.konst() { return match sets.iter().position(|s| s.contains(c)) { Some(i) => Ok(i), None => Ok(sets.len()) }; }
        if l.t.len() == 1 {
            let (a, k) = l.t[0];
            let dom = self.atoms[a as usize].dom.clone();
            let mut alts = vec![];
            let mut last = 0;
            let mut rest = dom.clone();
            for (i, s) in sets.iter().enumerate() {
                let w = s.unaffine(k, l.c);
                let d = rest.intersect(&w);
                if !d.is_empty() { alts.push(vec![Refine::Dom(a, d)]); last = i; }
                rest = rest.minus(&w);
            }
            if !rest.is_empty() { alts.push(vec![Refine::Dom(a, rest)]); last = sets.len(); }
            if alts.len() == 1 { return Ok(last); }
            return Err(Stop::Split(alts));
        }
        for (i, s) in sets.iter().enumerate() { if self.decide(&l, s)? { return Ok(i); } }
        Ok(sets.len())
    }
    pub fn seg_len(&mut self, s: &Seg) -> R<Lin> {
        Ok(match s {
            Seg::Ch(c, _) => Lin::k(self.ch_width(c)?),
            Seg::Rep(b, _, n) => n.scale(self.bricks[*b as usize].w),
            Seg::Opq(_, l) => l.clone(),
        })
    }
    pub fn segs_len(&mut self, s: &[Seg]) -> R<Lin> {
        let mut t = Lin::k(0);
        for x in s { let l = self.seg_len(x)?; t = t.add(&l); }
        Ok(self.norm(&t))
    }
    /// Index of the segment starting at byte `off` (or s.len() at the end); Err(true) if inside a character.
    pub fn seg_at(&mut self, s: &[Seg], off: &Lin) -> R<Result<usize, (usize, Lin)>> { self.seg_from(s, off, (0, 0)) }
    /// The same, in a long text that is asked again and again, with a table of the known offsets. The
    /// table owns its text, so that text cannot change while it is in use.
    pub fn seg_in(&mut self, s: &Rc<Vec<Seg>>, off: &Lin) -> R<Result<usize, (usize, Lin)>> {
        if s.len() < 200 { return self.seg_at(s, off); }
        let Some(o) = self.norm(off).konst() else { return self.seg_at(s, off) };
        thread_local! { static STARTS: std::cell::RefCell<Vec<(Rc<Vec<Seg>>, Vec<u32>)>> = Default::default(); }
        let h = STARTS.with(|t| {
            let mut t = t.borrow_mut();
            let k = match t.iter().position(|x| Rc::ptr_eq(&x.0, s)) {
                Some(k) => k,
                None => {
                    let (mut v, mut at) = (vec![], 0u32);
                    for c in s.iter() { let Seg::Ch(c, _) = c else { break }; let Some(c) = c.konst().and_then(|c| u32::try_from(c).ok()).and_then(char::from_u32) else { break }; v.push(at); at += c.len_utf8() as u32; }
                    if t.len() >= 4 { t.remove(0); }
                    t.push((s.clone(), v));
                    t.len() - 1
                }
            };
            let v = &t[k].1;
            match v.partition_point(|x| (*x as i128) <= o) { 0 => (0, 0), i => (i - 1, v[i - 1] as i128) }
        });
        self.seg_from(s, off, h)
    }
    /// `hint`: an index and its offset, with only known characters before it.
    fn seg_from(&mut self, s: &[Seg], off: &Lin, hint: (usize, i128)) -> R<Result<usize, (usize, Lin)>> {
        let off = self.norm(off);
        let mut pos = Lin::k(0);
        let mut first = 0;
        if let Some(o) = off.konst() {
            // known characters before a known offset
            let mut at = hint.1;
            first = hint.0;
            while let Some(Seg::Ch(c, _)) = s.get(first) {
                let Some(c) = c.konst().and_then(|c| u32::try_from(c).ok()).and_then(char::from_u32) else { break };
                let w = c.len_utf8() as i128;
                if at == o { return Ok(Ok(first)); }
                if at + w > o { return Ok(Err((first, Lin::k(o - at)))); }
                at += w;
                first += 1;
            }
            pos = Lin::k(at);
        }
        for (i, x) in s.iter().enumerate().skip(first) {
            if pos == off { return Ok(Ok(i)); }
            let l = self.seg_len(x)?;
            let next = self.norm(&pos.add(&l));
            let d = next.sub(&off);
            if self.decide(&d, &ISet::range(1, INF))? {
                // off < next
                let inside = self.norm(&off.sub(&pos));
                if inside.konst() == Some(0) { return Ok(Ok(i)); }
                if self.decide(&inside, &ISet::single(0))? { return Ok(Ok(i)); }
                return Ok(Err((i, inside)));
            }
            pos = next;
        }
        let d = self.norm(&off.sub(&pos));
        if self.decide(&d, &ISet::single(0))? { return Ok(Ok(s.len())); }
        Ok(Err((s.len(), d)))
    }
    /// Content of the byte range [start, start+len) of a text. None = not on character boundaries.
    pub fn segs_slice(&mut self, s: &Rc<Vec<Seg>>, start: &Lin, len: &Lin) -> R<Option<Vec<Seg>>> {
        let (start, len) = (self.norm(start), self.norm(len));
        if len.konst() == Some(0) { return Ok(Some(vec![])); }
        let a = match self.seg_in(s, &start)? { Ok(i) => i, Err(_) => return Ok(None) };
        let end = start.add(&len);
        let b = match self.seg_in(s, &end)? { Ok(i) => i, Err(_) => return Ok(None) };
        Ok(Some(s[a..b].to_vec()))
    }
    /// The first `n` characters of a text value, if they are plain characters inside a longer text.
    pub fn str_head(&mut self, v: &Val, n: usize) -> R<Option<Vec<Seg>>> {
        let Val::Ptr(p) = v else { return Ok(None) };
        let (Meta::Slice(a, l), Val::Str(s)) = (&p.meta, self.read(&Ptr::thin(p.slot, p.path.clone()))?) else { return Ok(None) };
        if s.len() < 200 { return Ok(None); }
        let Some(l) = self.norm(l).konst() else { return Ok(None) };
        if l < 4 * n as i128 { return Ok(None); }
        let Ok(i) = self.seg_in(&s, a)? else { return Ok(None) };
        match s.get(i..i + n) { Some(x) if x.iter().all(|c| matches!(c, Seg::Ch(..))) => Ok(Some(x.to_vec())), _ => Ok(None) }
    }
    /// Byte `off` of a text.
    pub fn str_byte(&mut self, s: &Rc<Vec<Seg>>, off: &Lin) -> R<Lin> {
        let (i, k) = match self.seg_in(s, off)? { Ok(i) => (i, 0), Err((i, l)) => (i, self.enumerate(&l, 8)?) };
        if i >= s.len() { return unk("byte past the end of a text"); }
        match &s[i] {
            Seg::Ch(c, _) => {
                let w = self.ch_width(c)?;
                let c = self.norm(c);
                if w == 1 { return Ok(c); }
                if let Some(v) = c.konst() {
                    let mut b = [0u8; 4];
                    char::from_u32(v as u32).unwrap().encode_utf8(&mut b);
                    return Ok(Lin::k(b[k as usize] as i128));
                }
                if c.t.len() == 1 && self.atoms[c.t[0].0 as usize].dom.count() <= 16 { self.enumerate(&c, 16)?; }
                let d = if k > 0 { ISet::range(0x80, 0xbf) } else { match w { 2 => ISet::range(0xc2, 0xdf), 3 => ISet::range(0xe0, 0xef), _ => ISet::range(0xf0, 0xf4) } };
                Ok(self.fresh_weak(d, "byte of a wide character"))
            }
            _ => unk("byte of a summarised text"),
        }
    }
    /// Segments of a &str value (pointer with slice metadata).
    pub fn str_of(&mut self, v: &Val) -> R<Vec<Seg>> {
        match v {
            Val::Str(s) => Ok((**s).clone()),
            Val::Ptr(p) => {
                let base = self.read(&Ptr::thin(p.slot, p.path.clone()))?;
                match (&base, &p.meta) {
                    (Val::Str(s), Meta::Slice(a, l)) => {
                        let s = s.clone();
                        match self.segs_slice(&s, a, l)? { Some(x) => Ok(x), None => unk("text slice off a character boundary") }
                    }
                    (Val::Str(s), _) => Ok((**s).clone()),
                    (Val::Seq(s), Meta::Slice(a, l)) => {
                        let s = s.clone();
                        let a = self.enumerate(a, 4096)? as usize;
                        let l = self.enumerate(l, 4096)? as usize;
                        self.bytes_to_segs(&s[a..a + l])
                    }
                    (Val::Seq(s), _) => { let s = s.clone(); self.bytes_to_segs(&s) }
                    (Val::Agg(a), _) if a.f.len() >= 1 => { let v = a.f[0].clone(); self.str_of(&v) }
                    (Val::Ptr(q), _) => { let v = Val::Ptr(q.clone()); self.str_of(&v) }
                    (b, _) => unk(format!("text expected, found {}", self.show(b))),
                }
            }
            Val::Agg(a) if a.f.len() >= 1 => { let v = a.f[0].clone(); self.str_of(&v) }
            _ => unk(format!("text expected, found {}", self.show(v))),
        }
    }
    pub fn bytes_to_segs(&mut self, s: &[Val]) -> R<Vec<Seg>> {
        let mut out = vec![];
        let mut i = 0;
        while i < s.len() {
            let Val::Int(l) = &s[i] else { return unk("bytes expected") };
            let l = self.norm(l);
            if self.decide(&l, &ISet::range(0, 0x7f))? { out.push(Seg::Ch(l, None)); i += 1; continue; }
            let b = |j: usize| match s.get(i + j) { Some(Val::Int(l)) => Some(l.clone()), _ => None };
            let k = self.decide_multi(&l, &[ISet::range(0xc2, 0xdf), ISet::range(0xe0, 0xef), ISet::range(0xf0, 0xf4)])?;
            let w = k + 2;
            if l.konst().is_none() && w <= 4 {
                let mut c = l.addk(-[0xc0, 0xe0, 0xf0][k]);
                for j in 1..w { let Some(x) = b(j) else { return unk("truncated text") }; c = c.scale(64).add(&x.addk(-0x80)); }
                out.push(Seg::Ch(c, None)); i += w; continue;
            }
            let mut buf = vec![];
            for j in 0..4 { if let Some(Val::Int(l)) = s.get(i + j) { if let Some(c) = self.norm(l).konst() { buf.push(c as u8); } } }
            let mut ok = false;
            for w in 2..=buf.len() {
                if let Ok(t) = std::str::from_utf8(&buf[..w]) { out.push(Seg::Ch(Lin::k(t.chars().next().unwrap() as u32 as i128), None)); i += w; ok = true; break; }
            }
            if !ok { return unk("abstract non-ASCII bytes as text"); }
        }
        Ok(out)
    }
    pub fn new_str(&mut self, s: Vec<Seg>) -> R<Val> {
        let l = self.segs_len(&s)?;
        let slot = self.alloc(Val::Str(Rc::new(s)));
        Ok(Val::ptr(Ptr { slot, path: vec![], meta: Meta::Slice(Lin::k(0), l) }))
    }
    pub fn char_val(&self, s: &Seg) -> R<Lin> { match s { Seg::Ch(c, _) => Ok(self.norm(c)), _ => unk("character of a summarised text") } }
    /// Equality of two texts of which nothing but their lengths is known: one question, whichever is asked first.
    fn opq_eq(&mut self, a: &[Seg], b: &[Seg]) -> R<bool> {
        if let (Ok(x), Ok(y)) = (self.segs_len(a), self.segs_len(b)) { if !self.decide(&x.sub(&y), &ISet::single(0))? { return Ok(false); } }
        let q = |st: &State, a: &[Seg], b: &[Seg]| TermNode { op: "text_eq".into(), args: vec![Val::Str(Rc::new(a.to_vec())), Val::Str(Rc::new(b.to_vec()))], ty: st.unit_ty() };
        if let Some(v) = self.fact(&q(self, b, a)) { return Ok(v == 1); }
        let t = q(self, a, b);
        Ok(self.ask(t, 2)? == 1)
    }
    /// The text without its parts of length zero.
    fn dense<'a>(&self, s: &'a [Seg]) -> std::borrow::Cow<'a, [Seg]> {
        let gone = |x: &Seg| matches!(x, Seg::Opq(_, l) | Seg::Rep(_, _, l) if self.norm(l).konst() == Some(0));
        if s.iter().any(|x| gone(x)) { s.iter().filter(|x| !gone(x)).cloned().collect() } else { s.into() }
    }
    /// Equality of two texts.
    pub fn text_eq(&mut self, a: &[Seg], b: &[Seg]) -> R<bool> {
        let (a, b) = (&*self.dense(a), &*self.dense(b));
        if self.segs_same(a, b) { return Ok(true); }
        let mut i = 0;
        loop {
            match (a.get(i), b.get(i)) {
                (None, None) => return Ok(true),
                (Some(Seg::Ch(..)), None) | (None, Some(Seg::Ch(..))) => return Ok(false),
                (Some(Seg::Ch(x, _)), Some(Seg::Ch(y, _))) => {
                    let d = x.sub(y);
                    if !self.decide(&d, &ISet::single(0))? { return Ok(false); }
                }
                (Some(Seg::Opq(x, l)), Some(Seg::Opq(y, m))) if self.term_eq(x, y) && self.norm(l) == self.norm(m) => {}
                _ => {
                    return self.opq_eq(&a[i..], &b[i..]);
                }
            }
            i += 1;
        }
    }
    pub fn unit_ty(&self) -> rustc_public::ty::Ty { rustc_public::ty::Ty::new_tuple(&[]) }
    /// Truth of an uninterpreted question; splits over the answers once and remembers.
    pub fn ask(&mut self, t: TermNode, n: u32) -> R<u32> {
        if let Some(v) = self.fact(&t) { return Ok(v); }
        let t = Rc::new(t);
        Err(Stop::Split((0..n).map(|v| vec![Refine::Fact(t.clone(), v)]).collect()))
    }
    pub fn text_cmp(&mut self, a: &[Seg], b: &[Seg]) -> R<i128> {
        let (a, b) = (&*self.dense(a), &*self.dense(b));
        if self.segs_same(a, b) { return Ok(0); }
        let mut i = 0;
        loop {
            match (a.get(i), b.get(i)) {
                (None, None) => return Ok(0),
                (Some(Seg::Ch(..)), None) => return Ok(1),
                (None, Some(Seg::Ch(..))) => return Ok(-1),
                (Some(Seg::Ch(x, _)), Some(Seg::Ch(y, _))) => {
                    let d = x.sub(y);
                    if !self.decide(&d, &ISet::single(0))? { return Ok(if self.decide(&d, &ISet::range(1, INF))? { 1 } else { -1 }); }
                }
                _ => {
                    let (a, b) = (&a[i..], &b[i..]);
                    if self.opq_eq(a, b)? { return Ok(0); }
                    let q = |st: &State, a: &[Seg], b: &[Seg]| TermNode { op: "text_lt".into(), args: vec![Val::Str(Rc::new(a.to_vec())), Val::Str(Rc::new(b.to_vec()))], ty: st.unit_ty() };
                    if let Some(v) = self.fact(&q(self, b, a)) { return Ok(if v == 1 { 1 } else { -1 }); }
                    let t = q(self, a, b);
                    return Ok(if self.ask(t, 2)? == 1 { -1 } else { 1 });
                }
            }
            i += 1;
        }
    }

    // ---- display -----------------------------------------------------------------------
    pub fn show_lin(&self, l: &Lin, ch: bool) -> String {
        let l = self.norm(l);
        if let Some(c) = l.konst() { return if ch { match u32::try_from(c).ok().and_then(char::from_u32) { Some(c) => format!("{:?}", c), None => c.to_string() } } else { c.to_string() }; }
        let mut s = String::new();
        for &(a, k) in &l.t {
            let i = &self.atoms[a as usize];
            if !s.is_empty() { s.push('+'); }
            if k != 1 { s += &format!("{}*", k); }
            s += &format!("{}{}", i.name, i.dom.show_chars());
        }
        if l.c != 0 { s += &format!("+{}", l.c); }
        s
    }
    pub fn show_segs(&self, s: &[Seg]) -> String {
        let mut o = String::new();
        let mut lit = String::new();
        let flush = |o: &mut String, lit: &mut String| { if !lit.is_empty() { if !o.is_empty() { o.push_str(" ++ "); } o.push_str(&format!("{:?}", lit)); lit.clear(); } };
        for x in s {
            match x {
                Seg::Ch(c, _) => match self.norm(c).konst().and_then(|v| char::from_u32(v as u32)) {
                    Some(c) => lit.push(c),
                    None => { flush(&mut o, &mut lit); if !o.is_empty() { o.push_str(" ++ "); } o += &self.show_lin(c, true); }
                },
                Seg::Rep(b, _, n) => { flush(&mut o, &mut lit); o += &format!(" ++ {}^({})", self.bricks[*b as usize].dom.show_chars(), self.show_lin(n, false)); }
                Seg::Opq(t, _) => { flush(&mut o, &mut lit); if !o.is_empty() { o.push_str(" ++ "); } o += &self.show(&Val::Term(t.clone())); }
            }
        }
        flush(&mut o, &mut lit);
        if o.is_empty() { o.push_str("\"\""); }
        o
    }
    pub fn show(&self, v: &Val) -> String { self.show_d(v, 4) }
    fn show_d(&self, v: &Val, d: u32) -> String {
        if d == 0 { return "..".into(); }
        match v {
            Val::Undef => "undef".into(),
            Val::Top => "top".into(),
            Val::Int(l) => self.show_lin(l, false),
            Val::Agg(a) => format!("#{}({})", a.var, a.f.iter().take(8).map(|x| self.show_d(x, d - 1)).collect::<Vec<_>>().join(", ")),
            Val::Seq(s) => format!("[{}{}]", s.iter().take(8).map(|x| self.show_d(x, d - 1)).collect::<Vec<_>>().join(", "), if s.len() > 8 { ", .." } else { "" }),
            Val::Str(s) => self.show_segs(s),
            Val::Term(t) => { let n: &str = &t.op; format!("{}({})", n, t.args.iter().map(|x| self.show_d(x, d - 1)).collect::<Vec<_>>().join(", ")) }
            Val::Fn(i) => format!("fn {}", i.name()),
            Val::Fmt(_) => "format_args".into(),
            Val::Ptr(p) => {
                let t = self.slots.get(p.slot as usize).and_then(|x| x.as_ref());
                match (&p.meta, t) {
                    (Meta::Slice(..), Some(x)) if p.path.is_empty() && matches!(**x, Val::Str(_)) => {
                        let mut c = self.clone();
                        match c.str_of(v) { Ok(s) => format!("&{}", self.show_segs(&s)), _ => "&str".into() }
                    }
                    (Meta::Slice(a, l), _) => format!("&[{}+{}..]", self.show_lin(a, false), self.show_lin(l, false)),
                    (_, Some(_)) => { let mut c = self.clone(); match c.read(p) { Ok(x) => format!("&{}", self.show_d(&x, d - 1)), _ => "&?".into() } }
                    _ => "&dangling".into(),
                }
            }
        }
    }
}
