//! Models of the standard library operations (and of the compiler's API) that the analysed code
//! uses. Everything not listed here is analysed from its own MIR.
use crate::dom::*;
use crate::interp::*;
use crate::state::*;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::BinOp;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::rc::Rc;

pub type NF = fn(&Eng, &mut State, &CallCx) -> R<Ret>;
#[derive(Clone)]
pub enum Kind { Body, Native(NF), Shim(FnDef, Sel) }
#[derive(Clone)]
pub enum Sel {
    /// Type arguments of the callee at these positions.
    Idx(Vec<usize>),
    /// Self type (first parameter, dereferenced) followed by the type arguments from position n on.
    SelfPlus(usize),
    /// Parameter type i (dereferenced once) ...
    Params(Vec<usize>),
}
impl Sel {
    pub fn args(&self, _e: &Eng, inst: Instance) -> GenericArgs {
        let ts = ty_args(&inst.args());
        let v: Vec<Ty> = match self {
            Sel::Idx(v) => v.iter().filter_map(|i| ts.get(*i).copied()).collect(),
            Sel::SelfPlus(n) => { let mut v = vec![param_ty(inst, 0)]; v.extend(ts.iter().skip(*n)); v }
            Sel::Params(v) => v.iter().map(|i| param_ty(inst, *i)).collect(),
        };
        GenericArgs(v.into_iter().map(GenericArgKind::Type).collect())
    }
}
pub fn param_ty(inst: Instance, i: usize) -> Ty {
    let sig = inst.ty().kind().fn_sig().unwrap().skip_binder();
    let t = sig.inputs()[i];
    match t.kind() { TyKind::RigidTy(RigidTy::Ref(_, x, _) | RigidTy::RawPtr(x, _)) => x, _ => t }
}

pub struct Tables { pub xid_start: ISet, pub xid_continue: ISet, pub white: ISet, pub alpha: ISet, pub numeric: ISet, pub control: ISet, pub esc_plain: ISet, pub upper: ISet, pub lower: ISet }
impl Tables {
    pub fn new() -> Tables {
        let mk = |f: &dyn Fn(char) -> bool| { let mut v = vec![]; for c in 0..=0x10ffffu32 { if let Some(ch) = char::from_u32(c) { if f(ch) { match v.last_mut() { Some((_, b)) if *b == c as i128 - 1 => *b = c as i128, _ => v.push((c as i128, c as i128)) } } } } ISet::new(v) };
        Tables {
            xid_start: mk(&|c| unicode_ident::is_xid_start(c)), xid_continue: mk(&|c| unicode_ident::is_xid_continue(c)),
            white: mk(&|c| c.is_whitespace()), alpha: mk(&|c| c.is_alphabetic()), numeric: mk(&|c| c.is_numeric()), control: mk(&|c| c.is_control()),
            esc_plain: mk(&|c| c.escape_debug().count() == 1), upper: mk(&|c| c.is_uppercase()), lower: mk(&|c| c.is_lowercase()),
        }
    }
}

pub fn is_seq_adt(d: &AdtDef) -> bool { matches!(d.name().to_string().as_str(), "std::vec::Vec" | "std::string::String") }
pub fn drop_shim(d: &AdtDef) -> Option<&'static str> {
    Some(match d.name().to_string().as_str() {
        "std::vec::Vec" => "vec_drop",
        "std::vec::IntoIter" | "std::vec::Drain" => "vec_into_iter_drop",
        "std::array::IntoIter" => "array_into_iter_drop",
        "std::boxed::Box" => "box_drop",
        "std::rc::Rc" => "rc_drop",
        "std::collections::BTreeMap" => "btree_drop",
        _ => return None,
    })
}
pub fn drop_shim_arity(s: &str) -> usize { match s { "btree_drop" => 2, _ => 1 } }
pub fn drop_noop(d: &AdtDef) -> bool { matches!(d.name().to_string().as_str(), "std::string::String" | "std::ffi::CString" | "std::path::PathBuf") }

// ---- helpers -----------------------------------------------------------------------------
pub fn v(x: Val) -> R<Ret> { Ok(Ret::Val(x)) }
pub fn unit() -> R<Ret> { Ok(Ret::Val(Val::unit())) }
pub fn pa(e: &Eng, st: &mut State, cx: &CallCx, i: usize) -> R<Ptr> { e.deref(st, cx.args[i].clone()) }
pub fn thin(p: &Ptr) -> Ptr { Ptr::thin(p.slot, p.path.clone()) }
pub fn int(e: &Eng, st: &State, cx: &CallCx, i: usize) -> R<Lin> { e.to_int(st, &cx.args[i]) }
pub fn seq_at(st: &mut State, p: &Ptr) -> R<Rc<Vec<Val>>> {
    match st.read(&thin(p))? {
        Val::Seq(s) => Ok(s),
        Val::Str(s) => {
            // bytes of a text
            let n = st.segs_len(&s)?;
            let n = st.enumerate(&n, 4096)?;
            let mut o = vec![];
            for i in 0..n { o.push(Val::Int(st.str_byte(&s, &Lin::k(i))?)); }
            Ok(Rc::new(o))
        }
        Val::Undef => Ok(Rc::new(vec![])),
        x => { let s = st.show(&x); unk(format!("sequence expected, found {}", s)) }
    }
}
fn slice_bounds(e: &Eng, st: &mut State, p: &Ptr) -> R<(i128, i128)> {
    match &p.meta {
        Meta::Slice(a, l) => { let (a, l) = (a.clone(), l.clone()); Ok((st.enumerate(&a, 512)?, st.enumerate(&l, 512)?)) }
        _ => { let l = e.len(st, p)?; Ok((0, st.enumerate(&l, 512)?)) }
    }
}
pub fn whole(e: &Eng, st: &mut State, p: &Ptr) -> R<Ptr> {
    let l = e.len(st, p)?;
    let mut q = p.clone();
    if !matches!(q.meta, Meta::Slice(..)) { q.meta = Meta::Slice(Lin::k(0), l); }
    Ok(q)
}
pub fn bounds_of(p: &Ptr) -> R<(Lin, Lin)> { match &p.meta { Meta::Slice(a, l) => Ok((a.clone(), l.clone())), _ => unk("a slice pointer without bounds") } }
fn elem(st: &mut State, p: &Ptr, i: i128) -> R<Ptr> {
    let is_str = matches!(st.read(&thin(p))?, Val::Str(_));
    Ok(thin(p).push(if is_str { PE::Byte(Lin::k(i)) } else { PE::Elem(i as i64) }))
}
pub fn elem_lin(st: &mut State, p: &Ptr, i: &Lin) -> R<Ptr> {
    let is_str = matches!(st.read(&thin(p))?, Val::Str(_));
    Ok(thin(p).push(if is_str { PE::Byte(st.norm(i)) } else { PE::Elem(st.enumerate(i, 512)? as i64) }))
}
pub fn ptr_offset(_e: &Eng, st: &mut State, p: &Ptr, o: &Lin) -> R<Val> {
    let mut q = p.clone();
    match q.path.last().cloned() {
        Some(PE::Elem(i)) => { let o = st.enumerate(o, 512)?; q.path.pop(); q.path.push(PE::Elem(i + o as i64)); }
        Some(PE::Byte(l)) => { q.path.pop(); let l = st.norm(&l.add(o)); q.path.push(PE::Byte(l)); }
        _ => { let o = st.norm(o); if o.konst() == Some(0) { return Ok(Val::ptr(q)); } return unk("pointer offset"); }
    }
    Ok(Val::ptr(q))
}
pub fn term(op: &str, args: Vec<Val>, ty: Ty) -> Val { Val::Term(Rc::new(TermNode { op: op.into(), args, ty })) }
pub fn float_binop(_e: &Eng, st: &mut State, op: &BinOp, a: Val, c: Val, t: Ty) -> R<Val> {
    match op {
        BinOp::Eq | BinOp::Ne | BinOp::Lt | BinOp::Le | BinOp::Gt | BinOp::Ge => {
            let _ = st;
            let (Some(x), Some(y)) = (fconst(&a), fconst(&c)) else { return unk("comparison of abstract floating point values") };
            Ok(Val::bool(match op { BinOp::Eq => x == y, BinOp::Ne => x != y, BinOp::Lt => x < y, BinOp::Le => x <= y, BinOp::Gt => x > y, _ => x >= y }))
        }
        _ => Ok(term(&format!("f{:?}", op), vec![a, c], t)),
    }
}
/// str, String or references to them.
fn is_text(t: Ty) -> bool {
    match t.kind() { TyKind::RigidTy(RigidTy::Ref(_, x, _)) => is_text(x), TyKind::RigidTy(RigidTy::Str) => true, TyKind::RigidTy(RigidTy::Adt(d, _)) => d.name().to_string() == "std::string::String", _ => false }
}
/// The value of a floating point constant.
pub fn fconst(x: &Val) -> Option<f64> {
    let Val::Term(t) = x else { return None };
    match t.op.as_ref() {
        "float" => { let Val::Int(l) = &t.args[0] else { return None }; let b = l.konst()? as u128; match t.ty.kind() { TyKind::RigidTy(RigidTy::Float(FloatTy::F32)) => Some(f32::from_bits(b as u32) as f64), TyKind::RigidTy(RigidTy::Float(FloatTy::F64)) => Some(f64::from_bits(b as u64)), _ => None } }
        "fneg" => fconst(&t.args[0]).map(|x| -x),
        _ => None,
    }
}
fn is_f32(t: Ty) -> bool { matches!(t.kind(), TyKind::RigidTy(RigidTy::Float(FloatTy::F32))) }
fn in_table(f: fn(&Tables) -> &ISet, e: &Eng, st: &mut State, cx: &CallCx) -> R<Ret> {
    let c = match &cx.args[0] { Val::Ptr(p) => { let x = st.read(p)?; e.to_int(st, &x)? } x => e.to_int(st, x)? };
    v(Val::bool(st.decide(&c, f(&e.tables))?))
}

// ---- text --------------------------------------------------------------------------------
fn str_ptr(e: &Eng, st: &mut State, cx: &CallCx, i: usize) -> R<Ptr> { let p = pa(e, st, cx, i)?; str_ptr_of(e, st, p) }
/// Normalise a pointer to String / Box<str> / str into a str pointer with slice bounds.
fn str_ptr_of(e: &Eng, st: &mut State, p: Ptr) -> R<Ptr> {
    if let Meta::Slice(..) = p.meta { return Ok(p); }
    match st.read(&p)? {
        Val::Ptr(q) => str_ptr_of(e, st, (*q).clone()),
        Val::Agg(a) if a.f.len() >= 1 && !matches!(a.f[0], Val::Int(_)) => { let q = p.push(PE::Field(0)); let _ = a; str_ptr_of(e, st, q) }
        _ => whole(e, st, &p),
    }
}
/// The text, or as much of it as a comparison with `n` characters at its start can see.
pub fn head(e: &Eng, st: &mut State, cx: &CallCx, i: usize, n: usize) -> R<Vec<Seg>> { let p = str_ptr(e, st, cx, i)?; match st.str_head(&Val::ptr(p.clone()), n)? { Some(s) => Ok(s), None => st.str_of(&Val::ptr(p)) } }
pub fn text(e: &Eng, st: &mut State, cx: &CallCx, i: usize) -> R<Vec<Seg>> { let p = str_ptr(e, st, cx, i)?; st.str_of(&Val::ptr(p)) }
fn sub(p: &Ptr, start: Lin, len: Lin) -> Val { let mut q = p.clone(); q.meta = Meta::Slice(start, len); Val::ptr(q) }
fn boundary(e: &Eng, st: &mut State, p: &Ptr, off: &Lin) -> R<bool> {
    // off is relative to the slice; true iff 0 <= off <= len and on a character boundary
    let (a, l) = bounds_of(p)?;
    let off = st.norm(off);
    if off.konst() == Some(0) { return Ok(true); }
    let d = l.sub(&off);
    if !st.decide(&d, &ISet::range(0, INF))? { return Ok(false); }
    if st.decide(&d, &ISet::single(0))? { return Ok(true); }
    let _ = e;
    match st.read(&thin(p))? {
        Val::Str(s) => Ok(st.seg_in(&s, &a.add(&off))?.is_ok()),
        Val::Seq(_) => {
            // text stored as bytes
            let i = st.enumerate(&a.add(&off), 4096)?;
            let b = st.read(&thin(p).push(PE::Elem(i as i64)))?;
            let b = e.to_int(st, &b)?;
            Ok(!st.decide(&b, &ISet::range(0x80, 0xbf))?)
        }
        _ => unk("text expected"),
    }
}
/// Resolve a range value of type `t` against a length: (start, end).
fn range_of(e: &Eng, st: &mut State, r: &Val, t: Ty, len: &Lin) -> R<Option<(Lin, Lin)>> {
    let k = e.kind(t);
    let TyKind::RigidTy(RigidTy::Adt(d, _)) = &*k else { return Ok(None) };
    let n = d.name().to_string();
    let f: Vec<Val> = match r { Val::Agg(a) => a.f.clone(), _ => vec![] };
    let g = |st: &State, i: usize| -> R<Lin> { e.to_int(st, &f[i]) };
    Ok(Some(match n.rsplit("::").next().unwrap() {
        "Range" => (g(st, 0)?, g(st, 1)?),
        "RangeTo" => (Lin::k(0), g(st, 0)?),
        "RangeFrom" => (g(st, 0)?, len.clone()),
        "RangeFull" => (Lin::k(0), len.clone()),
        "RangeInclusive" => (g(st, 0)?, g(st, 1)?.addk(1)),
        "RangeToInclusive" => (Lin::k(0), g(st, 0)?.addk(1)),
        _ => return Ok(None),
    }))
}
fn range_ty(cx: &CallCx) -> R<Ty> {
    for t in cx.targs.iter().rev() { if let TyKind::RigidTy(RigidTy::Adt(d, _)) = t.kind() { if d.name().to_string().contains("Range") { return Ok(*t); } } }
    match cx.targs.iter().find(|t| **t == Ty::usize_ty()) { Some(t) => Ok(*t), None => unk("index type") }
}
fn str_range(e: &Eng, st: &mut State, cx: &CallCx) -> R<Option<Val>> {
    let p = str_ptr(e, st, cx, 0)?;
    let (a, l) = bounds_of(&p)?;
    let t = range_ty(cx)?;
    let Some((x, y)) = range_of(e, st, &cx.args[1], t, &l)? else { return unk("index type") };
    let d = y.sub(&x);
    if !st.decide(&d, &ISet::range(0, INF))? { return Ok(None); }
    if !boundary(e, st, &p, &x)? || !boundary(e, st, &p, &y)? { return Ok(None); }
    Ok(Some(sub(&p, st.norm(&a.add(&x)), st.norm(&d))))
}
fn str_index(e: &Eng, st: &mut State, cx: &CallCx) -> R<Ret> {
    match str_range(e, st, cx)? { Some(x) => v(x), None => Err(Stop::Panic("string slice out of range or off a character boundary".into())) }
}
fn str_get(e: &Eng, st: &mut State, cx: &CallCx) -> R<Ret> { match str_range(e, st, cx)? { Some(x) => v(Val::some(x)), None => v(Val::none()) } }
fn slice_range(e: &Eng, st: &mut State, cx: &CallCx) -> R<Option<Val>> {
    let p = pa(e, st, cx, 0)?;
    let p = whole(e, st, &p)?;
    let (a, l) = bounds_of(&p)?;
    let t = range_ty(cx)?;
    match range_of(e, st, &cx.args[1], t, &l)? {
        Some((x, y)) => {
            let d = y.sub(&x);
            if !st.decide(&d, &ISet::range(0, INF))? { return Ok(None); }
            let d2 = l.sub(&y);
            if !st.decide(&d2, &ISet::range(0, INF))? { return Ok(None); }
            Ok(Some(sub(&p, st.norm(&a.add(&x)), st.norm(&d))))
        }
        None => {
            let i = int(e, st, cx, 1)?;
            let d = l.sub(&i);
            if !st.decide(&d, &ISet::range(1, INF))? { return Ok(None); }
            Ok(Some(Val::ptr(elem_lin(st, &p, &a.add(&i))?)))
        }
    }
}
fn slice_index(e: &Eng, st: &mut State, cx: &CallCx) -> R<Ret> { match slice_range(e, st, cx)? { Some(x) => v(x), None => Err(Stop::Panic("slice index out of range".into())) } }
fn slice_get(e: &Eng, st: &mut State, cx: &CallCx) -> R<Ret> { match slice_range(e, st, cx)? { Some(x) => v(Val::some(x)), None => v(Val::none()) } }

/// First character of a str pointer and the rest.
fn next_char(st: &mut State, p: &Ptr) -> R<Option<(Lin, Lin, Ptr)>> {
    let (a, l) = bounds_of(p)?;
    if st.decide(&l, &ISet::single(0))? { return Ok(None); }
    let Val::Str(s) = str_base(st, p)? else { return unk("text expected") };
    let i = match st.seg_in(&s, &a)? { Ok(i) => i, Err(_) => return unk("iterator off a character boundary") };
    if i >= s.len() { return unk("iterator past the end"); }
    let c = st.char_val(&s[i])?;
    let w = Lin::k(st.ch_width(&c)?);
    let q = Ptr { slot: p.slot, path: p.path.clone(), meta: Meta::Slice(st.norm(&a.add(&w)), st.norm(&l.sub(&w))) };
    Ok(Some((st.norm(&c), w, q)))
}
/// Text behind a pointer; byte vectors holding text are converted.
fn str_base(st: &mut State, p: &Ptr) -> R<Val> {
    match st.read(&thin(p))? {
        Val::Seq(s) => { let t = st.bytes_to_segs(&s)?; Ok(Val::Str(Rc::new(t))) }
        x => Ok(x),
    }
}
fn next_char_back(st: &mut State, p: &Ptr) -> R<Option<(Lin, Lin, Ptr)>> {
    let (a, l) = bounds_of(p)?;
    if st.decide(&l, &ISet::single(0))? { return Ok(None); }
    let Val::Str(s) = str_base(st, p)? else { return unk("text expected") };
    let i = match st.seg_in(&s, &a.add(&l))? { Ok(i) => i, Err(_) => return unk("iterator off a character boundary") };
    if i == 0 { return unk("iterator before the start"); }
    let c = st.char_val(&s[i - 1])?;
    let w = Lin::k(st.ch_width(&c)?);
    let q = Ptr { slot: p.slot, path: p.path.clone(), meta: Meta::Slice(a, st.norm(&l.sub(&w))) };
    Ok(Some((st.norm(&c), w, q)))
}
fn it_ptr(e: &Eng, st: &mut State, p: &Ptr, path: &[u32]) -> R<(Ptr, Ptr)> {
    // p points to the iterator struct; the slice pointer is at `path` inside
    let mut q = thin(p);
    for i in path { q = q.push(PE::Field(*i)); }
    let x = st.read(&q)?;
    let d = e.deref(st, x)?;
    if let Meta::Slice(..) = d.meta { return Ok((q, d)); }
    // an iterator built by inlined code of the library: a start and an end pointer
    let mut w = q.clone();
    w.path.pop();
    let Val::Agg(a) = st.read(&w)? else { return unk("iterator") };
    if a.f.len() < 2 { return unk("iterator without an end"); }
    let end = e.deref(st, a.f[1].clone())?;
    let (Some(b), Some(c)) = (d.path.last().cloned(), end.path.last().cloned()) else { return unk("iterator over no slice") };
    if d.slot != end.slot || d.path[..d.path.len() - 1] != end.path[..end.path.len() - 1] { return unk("iterator over two allocations"); }
    let mut r = d.clone();
    r.path.pop();
    r.meta = match (b, c) {
        (PE::Elem(i), PE::Elem(j)) => Meta::Slice(Lin::k(i as i128), Lin::k((j - i) as i128)),
        (PE::Byte(i), PE::Byte(j)) => { let l = st.norm(&j.sub(&i)); Meta::Slice(i, l) }
        _ => return unk("iterator ends"),
    };
    st.write(&w, Val::agg(a.var, vec![Val::ptr(r.clone())]))?;
    Ok((q, r))
}
fn chars_next(e: &Eng, st: &mut State, cx: &CallCx) -> R<Ret> {
    let p = pa(e, st, cx, 0)?;
    let (q, s) = it_ptr(e, st, &p, &[0])?;
    match next_char(st, &s)? { None => v(Val::none()), Some((c, _, r)) => { st.write(&q, Val::ptr(r))?; v(Val::some(Val::Int(c))) } }
}
fn chars_next_back(e: &Eng, st: &mut State, cx: &CallCx) -> R<Ret> {
    let p = pa(e, st, cx, 0)?;
    let (q, s) = it_ptr(e, st, &p, &[0])?;
    match next_char_back(st, &s)? { None => v(Val::none()), Some((c, _, r)) => { st.write(&q, Val::ptr(r))?; v(Val::some(Val::Int(c))) } }
}
fn char_indices_next(e: &Eng, st: &mut State, cx: &CallCx) -> R<Ret> {
    let p = pa(e, st, cx, 0)?;
    let (q, s) = it_ptr(e, st, &p, &[1, 0])?;
    let off = thin(&p).push(PE::Field(0));
    match next_char(st, &s)? {
        None => v(Val::none()),
        Some((c, w, r)) => {
            let o = st.read(&off)?;
            let ol = e.to_int(st, &o)?;
            st.write(&q, Val::ptr(r))?;
            st.write(&off, Val::Int(st.norm(&ol.add(&w))))?;
            v(Val::some(Val::agg(0, vec![o, Val::Int(c)])))
        }
    }
}
fn char_indices_next_back(e: &Eng, st: &mut State, cx: &CallCx) -> R<Ret> {
    let p = pa(e, st, cx, 0)?;
    let (q, s) = it_ptr(e, st, &p, &[1, 0])?;
    let off = thin(&p).push(PE::Field(0));
    match next_char_back(st, &s)? {
        None => v(Val::none()),
        Some((c, _, r)) => {
            let o = st.read(&off)?;
            let ol = e.to_int(st, &o)?;
            let (_, l) = bounds_of(&r)?;
            st.write(&q, Val::ptr(r))?;
            v(Val::some(Val::agg(0, vec![Val::Int(st.norm(&ol.add(&l))), Val::Int(c)])))
        }
    }
}
fn slice_it_next(e: &Eng, st: &mut State, cx: &CallCx, by_val: bool, back: bool) -> R<Ret> {
    let p = pa(e, st, cx, 0)?;
    let (q, s) = it_ptr(e, st, &p, &[0])?;
    let (a, l) = bounds_of(&s)?;
    if st.decide(&l, &ISet::single(0))? { return v(Val::none()); }
    let at = if back { a.add(&l).addk(-1) } else { a.clone() };
    let ep = elem_lin(st, &s, &at)?;
    let r = if by_val { st.read(&ep)? } else { Val::ptr(ep) };
    let mut n = s.clone();
    n.meta = Meta::Slice(if back { a } else { st.norm(&a.addk(1)) }, st.norm(&l.addk(-1)));
    st.write(&q, Val::ptr(n))?;
    v(Val::some(r))
}
fn it_len(e: &Eng, st: &mut State, cx: &CallCx) -> R<Lin> { let p = pa(e, st, cx, 0)?; let (_, s) = it_ptr(e, st, &p, &[0])?; Ok(st.norm(&bounds_of(&s)?.1)) }

fn push_segs(st: &mut State, p: &Ptr, add: Vec<Seg>) -> R<()> {
    let mut add = match st.append_segs(p, add) { None => return Ok(()), Some(x) => x };
    st.update(p, |x| match x {
        Val::Str(s) => { Rc::make_mut(s).append(&mut add); Ok(()) }
        Val::Undef => { *x = Val::Str(Rc::new(add)); Ok(()) }
        _ => unk("String expected"),
    })
}
fn string_ptr(e: &Eng, st: &mut State, cx: &CallCx, i: usize) -> R<Ptr> { let p = pa(e, st, cx, i)?; Ok(thin(&p)) }
pub fn new_string(s: Vec<Seg>) -> Val { Val::Str(Rc::new(s)) }
pub fn lit(s: &str) -> Vec<Seg> { s.chars().map(|c| Seg::Ch(Lin::k(c as u32 as i128), None)).collect() }

/// Decimal / hexadecimal text of an integer.
fn num_text(st: &mut State, kind: &str, l: &Lin, flags: u32, width: u32, t: Ty) -> R<Vec<Seg>> {
    let l = st.norm(l);
    let zero = flags & (1 << 24) != 0;
    let alt = flags & (1 << 23) != 0;
    if let Some(c) = l.konst() {
        let bits = match rigid(t) { RigidTy::Int(i) => i.num_bytes() * 8, RigidTy::Uint(i) => i.num_bytes() * 8, _ => 128 };
        let u = if c < 0 && bits < 128 { (c + (1i128 << bits)) as u128 } else { c as u128 };
        let (w, z) = (if flags & (1 << 27) != 0 { width as usize } else { 0 }, zero);
        let s = match (kind, z, alt) {
            ("Display" | "Debug", true, _) => format!("{:0w$}", c), ("Display" | "Debug", _, _) => format!("{:w$}", c),
            ("UpperHex", true, false) => format!("{:0w$X}", u), ("UpperHex", false, false) => format!("{:w$X}", u),
            ("LowerHex", true, false) => format!("{:0w$x}", u), ("LowerHex", false, false) => format!("{:w$x}", u),
            ("LowerHex", true, true) => format!("{:#0w$x}", u), ("LowerHex", false, true) => format!("{:#w$x}", u),
            _ => return unk(format!("number format {}", kind)),
        };
        return Ok(lit(&s));
    }
    let (lo, hi) = st.bounds(&l);
    let lenset = if kind.ends_with("Hex") && zero && width == 2 && lo >= 0 && hi <= 255 { ISet::single(2) } else { ISet::range(1, 64) };
    // the sign is a character of its own
    if matches!(kind, "Display" | "Debug") && flags & (1 << 27) == 0 && lo < 0 {
        if st.decide(&l, &ISet::range(-INF, -1))? {
            let mut s = lit("-");
            s.extend(num_text(st, kind, &Lin::k(0).sub(&l), flags, width, t)?);
            return Ok(s);
        }
    }
    let op = format!("num:{}:{}:{}", kind, flags, width);
    // the length atom is shared by equal terms
    let args = vec![Val::Int(l)];
    let tn = TermNode { op: op.as_str().into(), args, ty: st.unit_ty() };
    let len = opq_len(st, &tn, lenset);
    Ok(vec![Seg::Opq(Rc::new(tn), len)])
}
/// Length of an uninterpreted text: the same atom for the same text.
fn payload_is(st: &mut State, p: &Ptr, t: Ty) -> R<bool> {
    let (key, want) = (format!("payload{}", p.slot), format!("{:?}", t.kind()));
    let id = want.bytes().fold(7i128, |a, b| (a * 131 + b as i128) % ((1 << 61) - 1));
    if let Some(x) = st.flags.get(&key) { return Ok(matches!(x, Val::Int(l) if l.konst() == Some(id))); }
    let q = TermNode { op: format!("payload-is {}", want).as_str().into(), args: vec![Val::k(p.slot as i128)], ty: st.unit_ty() };
    let b = st.ask(q, 2)? == 1;
    if b { Rc::make_mut(&mut st.flags).insert(key, Val::k(id)); }
    Ok(b)
}
fn payload_as(st: &mut State, t: Ty) -> Val {
    let text = |st: &mut State| { let tn = TermNode { op: "payload-text".into(), args: vec![], ty: st.unit_ty() }; let l = opq_len(st, &tn, ISet::range(0, 1 << 40)); vec![Seg::Opq(Rc::new(tn), l)] };
    match t.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, _)) if d.name().ends_with("string::String") => { let x = text(st); new_string(x) }
        TyKind::RigidTy(RigidTy::Ref(_, x, _)) if matches!(x.kind(), TyKind::RigidTy(RigidTy::Str)) => { let x = text(st); st.new_str(x).unwrap_or(Val::Undef) }
        _ => term("payload", vec![], t),
    }
}
pub fn opq_len(st: &mut State, t: &TermNode, d: ISet) -> Lin {
    if let Some(c) = d.as_single() { return Lin::k(c); }
    let inputs = st.oplens.clone();
    for (n, l) in inputs.iter() { if st.term_eq(n, t) { return l.clone(); } }
    let l = st.fresh(d, "len");
    Rc::make_mut(&mut st.oplens).push((Rc::new(t.clone()), l.clone()));
    l
}

// ---- formatting --------------------------------------------------------------------------
// Formatter = { options: { flags, width, precision }, buf: &mut dyn Write }
pub fn fmt_opts(e: &Eng, st: &mut State, cx: &CallCx, i: usize) -> R<(u32, u32)> {
    let p = pa(e, st, cx, i)?;
    let fl = st.read(&thin(&p).push(PE::Field(0)).push(PE::Field(0)))?;
    let w = st.read(&thin(&p).push(PE::Field(0)).push(PE::Field(1)))?;
    let (fl, w) = (e.to_int(st, &fl)?, e.to_int(st, &w)?);
    match (fl.konst(), w.konst()) { (Some(a), Some(b)) => Ok((a as u32, b as u32)), _ => unk("format flags") }
}
/// Write text to the formatter argument: calls the formatter's sink.
pub fn fmt_write_text(e: &Eng, st: &mut State, fmtr: &Val, s: Vec<Seg>) -> R<Ret> {
    let Some(fd) = e.shims.get("fmt_write_str") else { return unk("shim fmt_write_str") };
    let i = Instance::resolve(*fd, &GenericArgs(vec![])).map_err(|x| Stop::Unknown(format!("{:?}", x)))?;
    let t = st.new_str(s)?;
    Ok(Ret::Call(i, vec![fmtr.clone(), t], After::Nothing, false))
}
fn num_fmt(kind: &'static str, e: &Eng, st: &mut State, cx: &CallCx) -> R<Ret> {
    let p = pa(e, st, cx, 0)?;
    let x = st.read(&p)?;
    let t = param_ty(cx.inst, 0);
    let (fl, w) = fmt_opts(e, st, cx, 1)?;
    if let TyKind::RigidTy(RigidTy::Float(_)) = t.kind() {
        if let Some(f) = fconst(&x) {
            if fl & (1 << 27 | 1 << 28 | 1 << 21) != 0 { return unk("float format"); }
            let s = match (kind, is_f32(t)) { ("Display", true) => format!("{}", f as f32), ("Display", false) => format!("{}", f), ("Debug", true) => format!("{:?}", f as f32), ("Debug", false) => format!("{:?}", f), _ => return unk("float format") };
            return fmt_write_text(e, st, &cx.args[1], lit(&s));
        }
        let tn = TermNode { op: format!("fmt:{}:{}:{}", kind, fl & (1 << 27 | 1 << 28), w).as_str().into(), args: vec![x], ty: t };
        let len = opq_len(st, &tn, ISet::range(1, 2000));
        return fmt_write_text(e, st, &cx.args[1], vec![Seg::Opq(Rc::new(tn), len)]);
    }
    let l = e.to_int(st, &x)?;
    let s = num_text(st, kind, &l, fl, w, t)?;
    fmt_write_text(e, st, &cx.args[1], s)
}
fn decode_template(e: &Eng, st: &mut State, tpl: &[Val], args: &[Val]) -> R<Vec<FmtPiece>> {
    let mut b = vec![];
    for x in tpl { let l = e.to_int(st, x)?; match l.konst() { Some(c) => b.push(c as u8), None => return unk("format template") } }
    let mut out = vec![];
    let mut i = 0;
    let mut ai = 0usize;
    let mk = |st: &State, k: usize, flags: u32, w: Option<u16>, p: Option<u16>| -> R<FmtPiece> {
        let Some(Val::Agg(a)) = args.get(k) else { return unk("format argument") };
        let inner = match &a.f[0] { Val::Agg(x) => x.clone(), _ => a.clone() };
        let _ = st;
        match (&inner.f[0], &inner.f[1]) {
            (ptr, Val::Fn(f)) => Ok(FmtPiece::Arg { ptr: ptr.clone(), f: *f, flags, width: w, prec: p, fill: ' ' }),
            _ => unk("format argument function"),
        }
    };
    loop {
        let n = *b.get(i).unwrap_or(&0);
        i += 1;
        if n == 0 { break; }
        if n < 0x80 { let s = String::from_utf8_lossy(&b[i..i + n as usize]).to_string(); i += n as usize; out.push(FmtPiece::Lit(Rc::new(lit(&s)))); }
        else if n == 0x80 { let len = b[i] as usize | (b[i + 1] as usize) << 8; i += 2; let s = String::from_utf8_lossy(&b[i..i + len]).to_string(); i += len; out.push(FmtPiece::Lit(Rc::new(lit(&s)))); }
        else {
            let mut flags = 0xE000_0020u32; // default: fill ' ', no alignment
            let (mut w, mut p) = (None, None);
            if n & 1 != 0 { flags = u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]); i += 4; }
            if n & 2 != 0 { w = Some(u16::from_le_bytes([b[i], b[i + 1]])); i += 2; }
            if n & 4 != 0 { p = Some(u16::from_le_bytes([b[i], b[i + 1]])); i += 2; }
            if n & 8 != 0 { ai = u16::from_le_bytes([b[i], b[i + 1]]) as usize; i += 2; }
            if n & 48 != 0 { return unk("dynamic width or precision"); }
            out.push(mk(st, ai, flags, w, p)?);
            ai += 1;
        }
    }
    Ok(out)
}
fn msg_of(st: &mut State, x: &Val) -> String {
    let x = match x { Val::Ptr(p) => st.read(p).unwrap_or(Val::Undef), x => x.clone() };
    match &x {
        Val::Fmt(p) => { let mut o = String::new(); for q in p.iter() { match q { FmtPiece::Lit(s) => { for c in s.iter() { if let Seg::Ch(l, _) = c { if let Some(c) = l.konst().and_then(|c| char::from_u32(c as u32)) { o.push(c) } } } } FmtPiece::Arg { .. } => o.push_str("{}") } } o }
        _ => "panic".into(),
    }
}

// ---- collections as sequences --------------------------------------------------------------
pub fn seq_update<T>(st: &mut State, p: &Ptr, f: impl FnOnce(&mut Vec<Val>) -> R<T>) -> R<T> {
    st.update(&thin(p), |x| match x {
        Val::Seq(s) => f(Rc::make_mut(s)),
        Val::Undef => { let mut s = vec![]; let r = f(&mut s)?; *x = Val::seq(s); Ok(r) }
        Val::Str(s) => { // a byte vector made from text
            let mut o = vec![];
            for c in s.iter() { match c { Seg::Ch(l, _) if l.konst().map_or(false, |c| c < 128) => o.push(Val::Int(l.clone())), _ => return unk("byte vector from text") } }
            let r = f(&mut o)?; *x = Val::seq(o); Ok(r)
        }
        _ => unk("sequence expected"),
    })
}

// ---- classification ------------------------------------------------------------------------
pub fn shim(e: &Eng, n: &str, s: Sel) -> Kind { match e.shims.get(n) { Some(f) => Kind::Shim(*f, s), None => Kind::Native(|_, _, cx| unk(format!("missing shim for {}", cx.name))) } }

/// How a pattern type is handled: 's' text, 'c' char, 'f' function, 'a' array/slice of chars.
fn pat_kind(t: Ty) -> char {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Char) => 'c',
        TyKind::RigidTy(RigidTy::Ref(_, x, _)) => match x.kind() { TyKind::RigidTy(RigidTy::Str) => 's', TyKind::RigidTy(RigidTy::Slice(_) | RigidTy::Array(..)) => 'a', TyKind::RigidTy(RigidTy::Ref(..)) => 'r', TyKind::RigidTy(RigidTy::Adt(..)) => 'r', _ => '?' },
        TyKind::RigidTy(RigidTy::Array(..)) => 'A',
        TyKind::RigidTy(RigidTy::Closure(..) | RigidTy::FnDef(..) | RigidTy::FnPtr(..)) => 'f',
        _ => '?',
    }
}

/// The variant built by the constructor function of a tuple struct or variant.
fn ctor(inst: Instance, name: &str) -> Option<u32> {
    if inst.has_body() || !matches!(inst.kind, InstanceKind::Item) { return None; }
    let out = inst.ty().kind().fn_sig()?.skip_binder().output();
    let TyKind::RigidTy(RigidTy::Adt(d, _)) = out.kind() else { return None };
    let n = d.name().to_string().replace("pm2_harness::proc_macro::", "proc_macro::");
    // generic parameters may be spelled in the path of the constructor
    let mut flat = String::new();
    let mut depth = 0;
    for part in name.split_inclusive(|c| c == '<' || c == '>') { for c in part.chars() { match c { '<' => depth += 1, '>' => depth -= 1, c if depth == 0 => flat.push(c), _ => {} } } }
    let flat = flat.replace("::::", "::");
    if d.kind() != AdtKind::Enum { return if flat == n { Some(0) } else { None }; }
    d.variants().iter().position(|x| flat == format!("{}::{}", n, x.name())).map(|i| i as u32)
}

pub fn classify(e: &Eng, inst: Instance, name: &str) -> Kind {
    if std::env::var_os("PM2_TRACE").is_some() { eprintln!("CALL {}", name); }
    use Kind::*;
    let krate = inst.def.krate().name.to_string();
    let owned = name.replace("std::vec::Drain<'_, T, A>", "std::vec::IntoIter<T, A>");
    let owned = if owned.starts_with("std::array::<impl") { owned.replacen("std::", "core::", 1) } else { owned };
    let name: &str = &owned;
    if ctor(inst, name).is_some() { return Native(|_, _, cx| v(Val::agg(ctor(cx.inst, cx.name).unwrap_or(0), cx.args.clone()))); }
    if krate == "proc_macro2" { return Body; }
    if krate == "proc_macro" { return crate::pm::classify(e, inst, name); }
    if let InstanceKind::Intrinsic = inst.kind { return intrinsic(e, inst, name); }
    if let Some(n) = inst.intrinsic_name() { let _ = n; return intrinsic(e, inst, name); }
    if krate == "pm2_harness" {
        if let Some(x) = name.strip_prefix("vp::") { return crate::vp::classify(inst, x); }
        if let Some(i) = name.find("::vp::") { return crate::vp::classify(inst, &name[i + 6..]); }
        return Body;
    }
    if let Some(k) = crate::more::classify(e, inst, name) { return k; }
    if krate == "unicode_ident" {
        return match name { "unicode_ident::is_xid_start" => Native(|e, st, cx| in_table(|t| &t.xid_start, e, st, cx)), "unicode_ident::is_xid_continue" => Native(|e, st, cx| in_table(|t| &t.xid_continue, e, st, cx)), _ => Body };
    }
    // the payload of a caught panic: of any type, the same one each time it is asked
    if name.starts_with("<(dyn std::any::Any") || name.starts_with("<dyn std::any::Any") || (name.contains("dyn std::any::Any") && name.ends_with("::downcast")) {
        if name.ends_with(">::is") { return Native(|e, st, cx| { let p = pa(e, st, cx, 0)?; let t = cx.targs[cx.targs.len() - 1]; v(Val::bool(payload_is(st, &p, t)?)) }); }
        if name.ends_with(">::downcast_ref") || name.ends_with(">::downcast_mut") { return Native(|e, st, cx| { let p = pa(e, st, cx, 0)?; let t = cx.targs[cx.targs.len() - 1]; if !payload_is(st, &p, t)? { return v(Val::none()); } let x = payload_as(st, t); let s = st.alloc(x); v(Val::some(Val::ptr(Ptr::thin(s, vec![])))) }); }
        if name.ends_with("::downcast") { return Native(|e, st, cx| { let p = pa(e, st, cx, 0)?; let t = cx.targs[cx.targs.len() - 1]; let t = if cx.targs.len() > 1 && format!("{:?}", t).contains("alloc::Global") { cx.targs[0] } else { t }; if !payload_is(st, &p, t)? { return v(Val::err(cx.args[0].clone())); } let x = payload_as(st, t); let s = st.alloc(x); v(Val::ok(Val::ptr(Ptr::thin(s, vec![])))) }); }
    }
    if name == "std::panic::resume_unwind" || name == "std::panic::panic_any" { return Native(|_, _, _| Err(Stop::Panic("a panic is resumed".into()))); }
    if name.starts_with("core::panicking::") || name == "std::rt::panic_fmt" || name.starts_with("std::rt::panic") || name.contains("begin_panic") || name == "core::str::slice_error_fail" || name.ends_with("unwrap_failed") || name.ends_with("expect_failed") || name.contains("slice_index_fail") || name.starts_with("core::slice::index::slice_") {
        return Native(|_, st, cx| {
            let m = cx.args.first().cloned().unwrap_or(Val::Undef);
            let m = match st.str_of(&m) { Ok(s) => st.show_segs(&s), Err(_) => msg_of(st, &m) };
            let n = cx.name.rsplit("::").next().unwrap_or("").to_string();
            Err(Stop::Panic(if m == "panic" { n } else { m }))
        });
    }
    // methods that standard iterators override for speed: analysed through plain loops over next()
    for (pre, skip) in [("<std::str::Bytes<'_> as std::iter::", 0), ("<std::str::Chars<'a> as std::iter::", 0), ("<std::str::CharIndices<'a> as std::iter::", 0), ("<std::slice::Iter<'a, T> as std::iter::", 1), ("<std::slice::IterMut<'a, T> as std::iter::", 1), ("<std::vec::IntoIter<T, A> as std::iter::", 2), ("<std::array::IntoIter<T, N> as std::iter::", 1)] {
        if let Some(r) = name.strip_prefix(pre) {
            if let Some(m) = r.split(">::").nth(1) {
                match m {
                    "next" | "next_back" | "size_hint" | "len" | "clone" => {}
                    "all" | "any" | "find" | "position" | "fold" | "for_each" | "count" | "nth" | "last" | "find_map" | "rposition" | "nth_back" | "rfind" | "advance_by" | "advance_back_by" | "rfold" | "try_fold" | "is_empty" => return shim(e, &format!("it_{}", m), Sel::SelfPlus(skip)),
                    _ => {}
                }
            }
        }
    }
    if let Some(m) = name.strip_prefix("std::iter::Iterator::") {
        if matches!(m, "nth" | "advance_by" | "count" | "last") { return shim(e, &format!("it_{}", m), Sel::Idx(vec![0])); }
    }
    if let Some(m) = name.strip_prefix("std::iter::DoubleEndedIterator::") {
        if matches!(m, "nth_back" | "advance_back_by") { return shim(e, &format!("it_{}", m), Sel::Idx(vec![0])); }
    }
    if let Some(m) = name.strip_prefix("core::str::<impl str>::") {
        let p = ty_args(&inst.args()).first().copied();
        if matches!(m, "starts_with" | "ends_with" | "contains" | "find" | "rfind" | "strip_prefix" | "strip_suffix" | "trim_start_matches" | "trim_end_matches" | "trim_matches" | "split_once") {
            let k = pat_kind(p.unwrap());
            if m == "starts_with" && k == 'c' {
                return Native(|e, st, cx| {
                    let s = head(e, st, cx, 0, 1)?;
                    let c = int(e, st, cx, 1)?;
                    let f = match s.first() { None => return v(Val::bool(false)), Some(Seg::Ch(l, _)) => l.clone(), Some(Seg::Opq(t, _)) => first_of_opq(st, t, 1)?, _ => return unk("prefix of a summarised text") };
                    v(Val::bool(st.decide(&f.sub(&c), &ISet::single(0))?))
                });
            }
            if m == "contains" && (k == 'c' || k == 's') {
                return Native(|e, st, cx| {
                    let s = text(e, st, cx, 0)?;
                    let c = matches!(pat_kind(ty_args(&cx.inst.args())[0]), 'c');
                    if s.iter().any(|x| matches!(x, Seg::Opq(t, _) if t.op.starts_with("fmt:"))) {
                        let want = if c { int(e, st, cx, 1)?.konst() } else { match text(e, st, cx, 1)?.as_slice() { [Seg::Ch(l, _)] => l.konst(), _ => None } };
                        let Some(w) = want else { return unk("search in the text of a number") };
                        for x in &s { match x { Seg::Ch(l, _) => if st.decide(l, &ISet::single(w))? { return v(Val::bool(true)); }, Seg::Opq(t, _) => { let q = TermNode { op: format!("contains {}", w).as_str().into(), args: vec![Val::Term(t.clone())], ty: t.ty }; if st.ask(q, 2)? == 1 { return v(Val::bool(true)); } } _ => return unk("search in a summarised text") } }
                        return v(Val::bool(false));
                    }
                    let Some(fd) = e.shims.get(if c { "str_contains_c" } else { "str_contains_s" }) else { return unk("shim") };
                    let i = Instance::resolve(*fd, &GenericArgs(vec![])).map_err(|x| Stop::Unknown(format!("{:?}", x)))?;
                    Ok(Ret::Call(i, cx.args.clone(), After::Nothing, false))
                });
            }
            return match k {
                's' => match m {
                    "starts_with" => Native(|e, st, cx| { let q = text(e, st, cx, 1)?; let s = if q.iter().all(|c| matches!(c, Seg::Ch(..))) { head(e, st, cx, 0, q.len())? } else { text(e, st, cx, 0)? }; v(Val::bool(starts(st, &s, &q)?)) }),
                    "strip_prefix" => Native(|e, st, cx| {
                        let (s, q) = (text(e, st, cx, 0)?, text(e, st, cx, 1)?);
                        if !starts(st, &s, &q)? { return v(Val::none()); }
                        let p = str_ptr(e, st, cx, 0)?;
                        let n = st.segs_len(&q)?;
                        let (a, l) = bounds_of(&p)?;
                        v(Val::some(sub(&p, st.norm(&a.add(&n)), st.norm(&l.sub(&n)))))
                    }),
                    _ => shim(e, &format!("str_{}_s", m), Sel::Idx(vec![])),
                },
                'c' => shim(e, &format!("str_{}_c", m), Sel::Idx(vec![])),
                'f' => shim(e, &format!("str_{}_f", m), Sel::Idx(vec![0])),
                'a' => shim(e, &format!("str_{}_a", m), Sel::Idx(vec![])),
                'A' => shim(e, &format!("str_{}_aa", m), Sel::Idx(vec![])),
                'r' => shim(e, &format!("str_{}_r", m), Sel::Idx(vec![0])),
                _ => Body,
            };
        }
    }
    let n: NF = match name {
        // ---- str
        "core::str::<impl str>::len" | "std::string::String::len" => |e, st, cx| { let p = str_ptr(e, st, cx, 0)?; v(Val::Int(st.norm(&bounds_of(&p)?.1))) },
        "core::str::<impl str>::is_empty" | "std::string::String::is_empty" => |e, st, cx| { let p = str_ptr(e, st, cx, 0)?; let l = bounds_of(&p)?.1; v(Val::bool(st.decide(&l, &ISet::single(0))?)) },
        "core::str::<impl str>::as_bytes" | "std::string::String::as_bytes" | "std::string::String::as_str" | "<std::string::String as std::ops::Deref>::deref" | "<std::string::String as std::convert::AsRef<str>>::as_ref"
        | "<std::string::String as std::borrow::Borrow<str>>::borrow" | "std::str::converts::from_utf8_unchecked" | "std::str::from_utf8_unchecked" | "core::str::converts::from_utf8_unchecked" | "std::ffi::CStr::to_bytes" | "<std::string::String as std::ops::DerefMut>::deref_mut" | "std::string::String::as_mut_str"
        | "std::boxed::Box::<str>::as_ref" | "std::str::<impl std::convert::AsRef<str> for str>::as_ref" => |e, st, cx| { let p = str_ptr(e, st, cx, 0)?; v(Val::ptr(p)) },
        "core::str::<impl str>::chars" | "core::str::<impl str>::bytes" => |e, st, cx| { let p = str_ptr(e, st, cx, 0)?; v(Val::agg(0, vec![Val::ptr(p)])) },
        "core::str::<impl str>::char_indices" => |e, st, cx| { let p = str_ptr(e, st, cx, 0)?; v(Val::agg(0, vec![Val::k(0), Val::agg(0, vec![Val::ptr(p)])])) },
        "core::str::<impl str>::split_at" | "core::str::<impl str>::split_at_checked" => |e, st, cx| {
            let p = str_ptr(e, st, cx, 0)?;
            let m = int(e, st, cx, 1)?;
            let checked = cx.name.ends_with("checked");
            if !boundary(e, st, &p, &m)? { return if checked { v(Val::none()) } else { Err(Stop::Panic("failed to slice string".into())) }; }
            let (a, l) = bounds_of(&p)?;
            let r = Val::agg(0, vec![sub(&p, a.clone(), m.clone()), sub(&p, st.norm(&a.add(&m)), st.norm(&l.sub(&m)))]);
            v(if checked { Val::some(r) } else { r })
        },
        "core::str::<impl str>::is_char_boundary" => |e, st, cx| { let p = str_ptr(e, st, cx, 0)?; let m = int(e, st, cx, 1)?; v(Val::bool(boundary(e, st, &p, &m)?)) },
        "core::str::traits::<impl std::ops::Index<I> for str>::index" | "<std::string::String as std::ops::Index<I>>::index" | "core::str::traits::<impl std::ops::IndexMut<I> for str>::index_mut" => str_index,
        "core::str::<impl str>::get" => str_get,
        "core::str::<impl str>::get_unchecked" => str_index,
        "core::str::traits::<impl std::cmp::PartialEq for str>::eq" | "<std::string::String as std::cmp::PartialEq>::eq" => |e, st, cx| { let (a, b) = (text(e, st, cx, 0)?, text(e, st, cx, 1)?); v(Val::bool(st.text_eq(&a, &b)?)) },
        "core::str::traits::<impl std::cmp::Ord for str>::cmp" | "<std::string::String as std::cmp::Ord>::cmp" => |e, st, cx| { let (a, b) = (text(e, st, cx, 0)?, text(e, st, cx, 1)?); v(Val::agg((st.text_cmp(&a, &b)? + 1) as u32, vec![])) },
        "core::str::traits::<impl std::cmp::PartialOrd for str>::partial_cmp" | "<std::string::String as std::cmp::PartialOrd>::partial_cmp" => |e, st, cx| { let (a, b) = (text(e, st, cx, 0)?, text(e, st, cx, 1)?); v(Val::some(Val::agg((st.text_cmp(&a, &b)? + 1) as u32, vec![]))) },
        "std::str::from_utf8" | "core::str::converts::from_utf8" | "std::str::converts::from_utf8" => |e, st, cx| from_utf8(e, st, cx),
        "<std::str::Chars<'a> as std::iter::Iterator>::next" => chars_next,
        "<std::str::Chars<'a> as std::iter::DoubleEndedIterator>::next_back" => chars_next_back,
        "std::str::Chars::<'a>::as_str" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let (_, s) = it_ptr(e, st, &p, &[0])?; v(Val::ptr(s)) },
        "<std::str::CharIndices<'a> as std::iter::Iterator>::next" => char_indices_next,
        "<std::str::CharIndices<'a> as std::iter::DoubleEndedIterator>::next_back" => char_indices_next_back,
        "std::str::CharIndices::<'a>::as_str" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let (_, s) = it_ptr(e, st, &p, &[1, 0])?; v(Val::ptr(s)) },
        "std::str::CharIndices::<'a>::offset" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let x = st.read(&thin(&p).push(PE::Field(0)))?; let _ = e; v(x) },
        "<std::str::Bytes<'_> as std::iter::Iterator>::next" => |e, st, cx| slice_it_next(e, st, cx, true, false),
        "<std::str::Bytes<'_> as std::iter::DoubleEndedIterator>::next_back" => |e, st, cx| slice_it_next(e, st, cx, true, true),
        "<std::slice::Iter<'a, T> as std::iter::Iterator>::next" | "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next" => |e, st, cx| slice_it_next(e, st, cx, false, false),
        "<std::slice::Iter<'a, T> as std::iter::DoubleEndedIterator>::next_back" | "<std::slice::IterMut<'a, T> as std::iter::DoubleEndedIterator>::next_back" => |e, st, cx| slice_it_next(e, st, cx, false, true),
        "std::slice::Iter::<'a, T>::as_slice" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let (_, s) = it_ptr(e, st, &p, &[0])?; v(Val::ptr(s)) },
        "<std::slice::Iter<'a, T> as std::iter::Iterator>::size_hint" | "<std::slice::IterMut<'a, T> as std::iter::Iterator>::size_hint" | "<std::str::Bytes<'_> as std::iter::Iterator>::size_hint" => |e, st, cx| { let l = it_len(e, st, cx)?; v(Val::agg(0, vec![Val::Int(l.clone()), Val::some(Val::Int(l))])) },
        "<std::str::Chars<'a> as std::iter::Iterator>::size_hint" | "<std::str::CharIndices<'a> as std::iter::Iterator>::size_hint" => |_, _, _| v(Val::agg(0, vec![Val::k(0), Val::none()])),
        "<std::slice::Iter<'_, T> as std::iter::ExactSizeIterator>::len" | "<std::str::Bytes<'_> as std::iter::ExactSizeIterator>::len" => |e, st, cx| { let l = it_len(e, st, cx)?; v(Val::Int(l)) },
        "<std::slice::Iter<'_, T> as std::clone::Clone>::clone" | "<std::str::Chars<'a> as std::clone::Clone>::clone" | "<std::str::Bytes<'a> as std::clone::Clone>::clone" | "<std::str::CharIndices<'a> as std::clone::Clone>::clone" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let _ = e; v(st.read(&p)?) },
        // ---- String
        "std::string::String::new" | "std::string::String::with_capacity" | "<std::string::String as std::default::Default>::default" => |_, _, _| v(new_string(vec![])),
        "std::string::String::push" => |e, st, cx| { let p = string_ptr(e, st, cx, 0)?; let c = int(e, st, cx, 1)?; push_segs(st, &p, vec![Seg::Ch(c, None)])?; unit() },
        "std::string::String::push_str" => |e, st, cx| { let p = string_ptr(e, st, cx, 0)?; let s = text(e, st, cx, 1)?; push_segs(st, &p, s)?; unit() },
        "<std::string::String as std::fmt::Write>::write_str" => |e, st, cx| { let p = string_ptr(e, st, cx, 0)?; let s = text(e, st, cx, 1)?; push_segs(st, &p, s)?; v(Val::ok(Val::unit())) },
        "<std::string::String as std::fmt::Write>::write_char" => |e, st, cx| { let p = string_ptr(e, st, cx, 0)?; let c = int(e, st, cx, 1)?; push_segs(st, &p, vec![Seg::Ch(c, None)])?; v(Val::ok(Val::unit())) },
        "std::string::String::insert" | "std::string::String::insert_str" => |e, st, cx| {
            let p = string_ptr(e, st, cx, 0)?;
            let at = int(e, st, cx, 1)?;
            let add = if cx.name.ends_with("insert") { vec![Seg::Ch(int(e, st, cx, 2)?, None)] } else { text(e, st, cx, 2)? };
            let mut s = st.str_of(&Val::ptr(p.clone()))?;
            match st.seg_at(&s, &at)? { Ok(i) => { s.splice(i..i, add); st.write(&p, new_string(s))?; unit() } Err(_) => Err(Stop::Panic("insert off a character boundary".into())) }
        },
        "std::string::String::remove" => |e, st, cx| {
            let p = string_ptr(e, st, cx, 0)?;
            let at = int(e, st, cx, 1)?;
            let mut s = st.str_of(&Val::ptr(p.clone()))?;
            match st.seg_at(&s, &at)? { Ok(i) if i < s.len() => { let c = st.char_val(&s[i])?; s.remove(i); st.write(&p, new_string(s))?; v(Val::Int(c)) } _ => Err(Stop::Panic("cannot remove a char from the end of a string".into())) }
        },
        "std::string::String::pop" => |e, st, cx| {
            let p = string_ptr(e, st, cx, 0)?;
            let mut s = st.str_of(&Val::ptr(p.clone()))?;
            match s.pop() { None => v(Val::none()), Some(c) => { let c = st.char_val(&c)?; st.write(&p, new_string(s))?; v(Val::some(Val::Int(c))) } }
        },
        "std::string::String::truncate" => |e, st, cx| {
            let p = string_ptr(e, st, cx, 0)?;
            let at = int(e, st, cx, 1)?;
            let mut s = st.str_of(&Val::ptr(p.clone()))?;
            let l = st.segs_len(&s)?;
            let d = l.sub(&at);
            if st.decide(&d, &ISet::range(-INF, 0))? { return unit(); }
            match st.seg_at(&s, &at)? { Ok(i) => { s.truncate(i); st.write(&p, new_string(s))?; unit() } Err(_) => Err(Stop::Panic("truncate off a character boundary".into())) }
        },
        "std::string::String::clear" => |e, st, cx| { let p = string_ptr(e, st, cx, 0)?; st.write(&p, new_string(vec![]))?; unit() },
        "std::string::String::reserve" | "std::string::String::shrink_to_fit" | "std::vec::Vec::<T, A>::reserve" | "std::vec::Vec::<T, A>::shrink_to_fit" | "std::vec::Vec::<T, A>::reserve_exact" => |_, _, _| unit(),
        "std::string::String::capacity" => |e, st, cx| { let p = str_ptr(e, st, cx, 0)?; v(Val::Int(bounds_of(&p)?.1)) },
        "std::str::<impl std::borrow::ToOwned for str>::to_owned" | "<std::string::String as std::clone::Clone>::clone" | "<std::string::String as std::convert::From<&str>>::from" | "<str as std::string::ToString>::to_string" | "<str as std::string::SpecToString>::spec_to_string" | "<std::string::String as std::string::SpecToString>::spec_to_string"
        | "std::string::<impl std::convert::From<&str> for std::string::String>::from" | "<std::string::String as std::convert::From<&std::string::String>>::from" | "std::str::<impl str>::to_string" | "<std::string::String as std::str::FromStr>::from_str_" => |e, st, cx| { let s = text(e, st, cx, 0)?; v(new_string(s)) },
        "<std::string::String as std::convert::From<char>>::from" | "<char as std::string::SpecToString>::spec_to_string" => |e, st, cx| { let c = match &cx.args[0] { Val::Ptr(p) => { let x = st.read(p)?; e.to_int(st, &x)? } x => e.to_int(st, x)? }; v(new_string(vec![Seg::Ch(c, None)])) },
        "std::string::String::into_boxed_str" | "<std::boxed::Box<str> as std::convert::From<std::string::String>>::from" | "std::boxed::convert::<impl std::convert::From<std::string::String> for std::boxed::Box<str>>::from" | "std::string::<impl std::convert::From<std::string::String> for std::boxed::Box<str>>::from" => |_, st, cx| { let s = st.str_of(&cx.args[0])?; v(st.new_str(s)?) },
        "std::string::String::into_bytes" | "std::string::String::into_string" => |_, _, cx| v(cx.args[0].clone()),
        "std::boxed::convert::<impl std::convert::From<&str> for std::boxed::Box<str>>::from" | "<std::boxed::Box<str, A> as std::clone::Clone>::clone" | "<std::boxed::Box<str> as std::clone::Clone>::clone" => |e, st, cx| { let s = text(e, st, cx, 0)?; v(st.new_str(s)?) },
        "std::str::<impl str>::into_string" | "<std::string::String as std::convert::From<std::boxed::Box<str>>>::from" | "std::str::<impl str>::into_boxed_bytes_" => |_, st, cx| { let s = st.str_of(&cx.args[0])?; v(new_string(s)) },
        "<std::string::String as std::ops::Add<&str>>::add" => |e, st, cx| { let Val::Str(a) = &cx.args[0] else { return unk("String expected") }; let mut a = (**a).clone(); let b = text(e, st, cx, 1)?; a.extend(b); v(new_string(a)) },
        "<std::string::String as std::ops::AddAssign<&str>>::add_assign" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let (mut a, b) = (text(e, st, cx, 0)?, text(e, st, cx, 1)?); a.extend(b); st.write(&thin(&p), new_string(a))?; unit() },
        "std::string::String::from_utf8" => |e, st, cx| { let _ = e; match st.str_of(&cx.args[0]) { Ok(s) => v(Val::ok(new_string(s))), Err(Stop::Split(a)) => Err(Stop::Split(a)), Err(_) => match &cx.args[0] { Val::Seq(s) => { let s = s.clone(); let t = st.bytes_to_segs(&s)?; v(Val::ok(new_string(t))) } _ => unk("String::from_utf8") } } },
        "std::string::String::from_utf8_unchecked" => |_, st, cx| match &cx.args[0] { Val::Seq(s) => { let s = s.clone(); let t = st.bytes_to_segs(&s)?; v(new_string(t)) } x => v(x.clone()) },
        "std::str::<impl str>::to_owned" => |e, st, cx| { let s = text(e, st, cx, 0)?; v(new_string(s)) },
        "std::str::<impl str>::repeat" => |e, st, cx| { let s = text(e, st, cx, 0)?; let n = int(e, st, cx, 1)?; let n = st.enumerate(&n, 64)?; let mut o = vec![]; for _ in 0..n { o.extend(s.iter().cloned()); } v(new_string(o)) },
        // ---- Vec
        "std::vec::Vec::<T>::new" | "std::vec::Vec::<T>::with_capacity" | "<std::vec::Vec<T> as std::default::Default>::default" | "std::vec::Vec::<T, A>::new_in" => |_, _, _| v(Val::seq(vec![])),
        "std::vec::Vec::<T, A>::push" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let x = cx.args[1].clone(); if let Some(x) = st.append_val(&thin(&p), x) { seq_update(st, &p, |s| { s.push(x); Ok(()) })?; } unit() },
        "std::vec::Vec::<T, A>::push_mut" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let x = cx.args[1].clone(); let n = seq_update(st, &p, |s| { s.push(x); Ok(s.len() - 1) })?; v(Val::ptr(thin(&p).push(PE::Elem(n as i64)))) },
        "std::vec::Vec::<T, A>::pop" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let r = seq_update(st, &p, |s| Ok(s.pop()))?; v(match r { Some(x) => Val::some(x), None => Val::none() }) },
        "std::vec::Vec::<T, A>::len" | "core::slice::<impl [T]>::len" => |e, st, cx| { let p = pa(e, st, cx, 0)?; v(Val::Int(e.len(st, &p)?)) },
        "std::vec::Vec::<T, A>::capacity" => |e, st, cx| { let p = pa(e, st, cx, 0)?; v(Val::Int(e.len(st, &p)?)) },
        "std::vec::Vec::<T, A>::is_empty" | "core::slice::<impl [T]>::is_empty" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let l = e.len(st, &p)?; v(Val::bool(st.decide(&l, &ISet::single(0))?)) },
        "<std::vec::Vec<T, A> as std::ops::Deref>::deref" | "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut" | "std::vec::Vec::<T, A>::as_slice" | "std::vec::Vec::<T, A>::as_mut_slice" | "<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref" | "core::array::<impl [T; N]>::as_slice" | "<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow" => |e, st, cx| { let p = pa(e, st, cx, 0)?; v(Val::ptr(whole(e, st, &p)?)) },
        "std::vec::Vec::<T, A>::insert" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let i = int(e, st, cx, 1)?; let i = st.enumerate(&i, 512)? as usize; let x = cx.args[2].clone(); if i > seq_at(st, &p)?.len() { return Err(Stop::Panic("insertion index out of range".into())); } seq_update(st, &p, |s| { s.insert(i, x); Ok(()) })?; unit() },
        "std::vec::Vec::<T, A>::remove" | "std::vec::Vec::<T, A>::swap_remove" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let i = int(e, st, cx, 1)?; let i = st.enumerate(&i, 512)? as usize; if i >= seq_at(st, &p)?.len() { return Err(Stop::Panic("removal index out of range".into())); } let sw = cx.name.ends_with("swap_remove"); let r = seq_update(st, &p, |s| Ok(if sw { s.swap_remove(i) } else { s.remove(i) }))?; v(r) },
        "std::vec::Vec::<T, A>::append" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let q = pa(e, st, cx, 1)?; let o = seq_at(st, &q)?; seq_update(st, &q, |s| { s.clear(); Ok(()) })?; seq_update(st, &p, |s| { s.extend(o.iter().cloned()); Ok(()) })?; unit() },
        "std::vec::Vec::<T, A>::split_off" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let i = int(e, st, cx, 1)?; let i = st.enumerate(&i, 512)? as usize; if i > seq_at(st, &p)?.len() { return Err(Stop::Panic("split index out of range".into())); } let r = seq_update(st, &p, |s| Ok(s.split_off(i)))?; v(Val::seq(r)) },
        "<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter" | "std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter" => |_, _, cx| v(Val::agg(0, vec![cx.args[0].clone()])),
        "<std::vec::IntoIter<T, A> as std::iter::Iterator>::next" | "<std::array::IntoIter<T, N> as std::iter::Iterator>::next" | "<std::vec::IntoIter<T, A> as std::iter::DoubleEndedIterator>::next_back" | "<std::array::IntoIter<T, N> as std::iter::DoubleEndedIterator>::next_back" => |e, st, cx| {
            let p = pa(e, st, cx, 0)?;
            let q = thin(&p).push(PE::Field(0));
            let back = cx.name.ends_with("next_back");
            let r = seq_update(st, &q, |s| Ok(if s.is_empty() { None } else if back { s.pop() } else { Some(s.remove(0)) }))?;
            v(match r { Some(x) => Val::some(x), None => Val::none() })
        },
        "<std::vec::IntoIter<T, A> as std::iter::Iterator>::size_hint" | "<std::array::IntoIter<T, N> as std::iter::Iterator>::size_hint" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let n = seq_at(st, &thin(&p).push(PE::Field(0)))?.len() as i128; v(Val::agg(0, vec![Val::k(n), Val::some(Val::k(n))])) },
        "<std::vec::IntoIter<T, A> as std::iter::ExactSizeIterator>::len" | "<std::array::IntoIter<T, N> as std::iter::ExactSizeIterator>::len" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let n = seq_at(st, &thin(&p).push(PE::Field(0)))?.len() as i128; v(Val::k(n)) },
        "std::vec::IntoIter::<T, A>::as_slice" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let q = thin(&p).push(PE::Field(0)); v(Val::ptr(whole(e, st, &q)?)) },
        // ---- slices
        "core::slice::<impl [T]>::iter" | "core::slice::<impl [T]>::iter_mut" | "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter" | "core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter" | "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter" | "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter" | "core::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter" | "std::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter" | "std::array::<impl std::iter::IntoIterator for &'a mut [T; N]>::into_iter" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let q = whole(e, st, &p)?; v(Val::agg(0, vec![Val::ptr(q)])) },
        "core::slice::index::<impl std::ops::Index<I> for [T]>::index" | "core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut" | "<std::vec::Vec<T, A> as std::ops::Index<I>>::index" | "<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut" | "core::array::<impl std::ops::Index<I> for [T; N]>::index" => slice_index,
        "core::slice::<impl [T]>::get" | "core::slice::<impl [T]>::get_mut" => slice_get,
        "core::slice::<impl [T]>::get_unchecked" | "core::slice::<impl [T]>::get_unchecked_mut" => slice_index,
        "core::slice::<impl [T]>::first" | "core::slice::<impl [T]>::last" | "core::slice::<impl [T]>::last_mut" | "core::slice::<impl [T]>::first_mut" => |e, st, cx| {
            let p = pa(e, st, cx, 0)?;
            let p = whole(e, st, &p)?;
            let (a, l) = bounds_of(&p)?;
            if st.decide(&l, &ISet::single(0))? { return v(Val::none()); }
            let at = if cx.name.contains("last") { a.add(&l).addk(-1) } else { a };
            v(Val::some(Val::ptr(elem_lin(st, &p, &at)?)))
        },
        "core::slice::<impl [T]>::split_at" | "core::slice::<impl [T]>::split_at_mut" => |e, st, cx| {
            let p = pa(e, st, cx, 0)?;
            let p = whole(e, st, &p)?;
            let (a, l) = bounds_of(&p)?;
            let m = int(e, st, cx, 1)?;
            let d = l.sub(&m);
            if !st.decide(&d, &ISet::range(0, INF))? { return Err(Stop::Panic("mid > len".into())); }
            v(Val::agg(0, vec![sub(&p, a.clone(), m.clone()), sub(&p, st.norm(&a.add(&m)), st.norm(&d))]))
        },
        "core::slice::<impl [T]>::split_first" | "core::slice::<impl [T]>::split_last" => |e, st, cx| {
            let p = pa(e, st, cx, 0)?;
            let p = whole(e, st, &p)?;
            let (a, l) = bounds_of(&p)?;
            if st.decide(&l, &ISet::single(0))? { return v(Val::none()); }
            let last = cx.name.ends_with("last");
            let at = if last { a.add(&l).addk(-1) } else { a.clone() };
            let x = Val::ptr(elem_lin(st, &p, &at)?);
            v(Val::some(Val::agg(0, vec![x, sub(&p, if last { a } else { st.norm(&a.addk(1)) }, st.norm(&l.addk(-1)))])))
        },
        "core::slice::<impl [T]>::as_ptr" | "core::slice::<impl [T]>::as_mut_ptr" | "core::str::<impl str>::as_ptr" | "std::vec::Vec::<T, A>::as_ptr" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let p = whole(e, st, &p)?; let (a, _) = bounds_of(&p)?; let is_str = matches!(st.read(&thin(&p))?, Val::Str(_)); let pe = if is_str { PE::Byte(a) } else { PE::Elem(st.enumerate(&a, 512)? as i64) }; v(Val::ptr(thin(&p).push(pe))) },
        "core::slice::<impl [T]>::reverse" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let (a, l) = slice_bounds(e, st, &p)?; seq_update(st, &p, |s| { s[a as usize..(a + l) as usize].reverse(); Ok(()) })?; unit() },
        "core::slice::<impl [T]>::swap" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let (a, l) = slice_bounds(e, st, &p)?; let (i, j) = (int(e, st, cx, 1)?, int(e, st, cx, 2)?); let (i, j) = (st.enumerate(&i, 512)?, st.enumerate(&j, 512)?); if i >= l || j >= l { return Err(Stop::Panic("index out of bounds".into())); } seq_update(st, &p, |s| { s.swap((a + i) as usize, (a + j) as usize); Ok(()) })?; unit() },
        "std::slice::from_raw_parts" | "core::slice::raw::from_raw_parts" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let l = int(e, st, cx, 1)?; v(e.ptr_with_len(st, &p, &l)?) },
        "std::slice::<impl [T]>::into_vec" | "std::boxed::box_assume_init_into_vec_unsafe" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let s = seq_through(st, &p)?; st.kill(p.slot); v(Val::Seq(s)) },
        "std::vec::Vec::<T, A>::into_boxed_slice" => |_, st, cx| { let Val::Seq(s) = cx.args[0].clone() else { return unk("Vec expected") }; let n = s.len(); let slot = st.alloc_heap(Val::Seq(s)); v(Val::ptr(Ptr { slot, path: vec![], meta: Meta::Slice(Lin::k(0), Lin::k(n as i128)) })) },
        "core::slice::<impl [T]>::as_array" | "core::array::<impl std::convert::TryFrom<&'a [T]> for &'a [T; N]>::try_from" => |_, _, cx| unk(cx.name.to_string()),
        // ---- Box
        "std::boxed::Box::<T>::new" | "std::boxed::box_new" => |_, st, cx| { let s = st.alloc_heap(cx.args[0].clone()); v(Val::ptr(Ptr::thin(s, vec![]))) },
        "std::boxed::Box::<T>::new_uninit" | "std::boxed::Box::<[T; N]>::new_uninit" => |_, st, _| { let s = st.alloc_heap(Val::Undef); v(Val::ptr(Ptr::thin(s, vec![]))) },
        "std::boxed::Box::<T, A>::into_inner" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let x = st.read(&p)?; st.kill(p.slot); v(x) },
        "std::boxed::Box::<T, A>::into_raw" | "std::boxed::Box::<T>::from_raw" | "std::boxed::Box::<T, A>::leak" => |_, _, cx| v(cx.args[0].clone()),
        // ---- Rc
        "std::rc::Rc::<T>::new" => |_, st, cx| { let s = st.alloc_heap(Val::agg(0, vec![Val::k(1), Val::k(1), cx.args[0].clone()])); v(Val::ptr(Ptr::thin(s, vec![]))) },
        "<std::rc::Rc<T, A> as std::clone::Clone>::clone" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let x = st.read(&p)?; let q = e.deref(st, x.clone())?; let c = rc_count(e, st, &q)?; st.write(&thin(&q).push(PE::Field(0)), Val::k(c + 1))?; v(x) },
        "<std::rc::Rc<T, A> as std::ops::Deref>::deref" | "<std::rc::Rc<T, A> as std::convert::AsRef<T>>::as_ref" | "<std::rc::Rc<T, A> as std::borrow::Borrow<T>>::borrow" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let x = st.read(&p)?; let q = e.deref(st, x)?; v(Val::ptr(thin(&q).push(PE::Field(2)))) },
        "std::rc::Rc::<T, A>::get_mut" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let x = st.read(&p)?; let q = e.deref(st, x)?; if rc_count(e, st, &q)? == 1 { v(Val::some(Val::ptr(thin(&q).push(PE::Field(2))))) } else { v(Val::none()) } },
        "std::rc::Rc::<T, A>::get_mut_unchecked" | "std::rc::Rc::<T, A>::as_ptr" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let x = st.read(&p)?; let q = e.deref(st, x)?; v(Val::ptr(thin(&q).push(PE::Field(2)))) },
        "std::rc::Rc::<T, A>::strong_count" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let x = st.read(&p)?; let q = e.deref(st, x)?; let c = rc_count(e, st, &q)?; v(Val::k(c)) },
        "std::rc::Rc::<T, A>::weak_count" => |_, _, _| v(Val::k(0)),
        "std::rc::Rc::<T, A>::is_unique" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let x = st.read(&p)?; let q = e.deref(st, x)?; v(Val::bool(rc_count(e, st, &q)? == 1)) },
        "std::rc::Rc::<T, A>::ptr_eq" => |e, st, cx| { let (p, q) = (pa(e, st, cx, 0)?, pa(e, st, cx, 1)?); let (x, y) = (st.read(&p)?, st.read(&q)?); let (x, y) = (e.deref(st, x)?, e.deref(st, y)?); v(Val::bool(x.slot == y.slot)) },
        "std::rc::Rc::<T, A>::try_unwrap" | "std::rc::Rc::<T, A>::into_inner" => |e, st, cx| {
            let q = pa(e, st, cx, 0)?;
            let inner = cx.name.ends_with("into_inner");
            if rc_count(e, st, &q)? == 1 { let x = st.read(&thin(&q).push(PE::Field(2)))?; st.kill(q.slot); v(if inner { Val::some(x) } else { Val::ok(x) }) }
            else if inner { let c = rc_count(e, st, &q)?; st.write(&thin(&q).push(PE::Field(0)), Val::k(c - 1))?; v(Val::none()) }
            else { v(Val::err(cx.args[0].clone())) }
        },
        // ---- cells
        "std::cell::UnsafeCell::<T>::get" | "std::cell::UnsafeCell::<T>::raw_get" | "std::cell::UnsafeCell::<T>::get_mut" | "std::cell::UnsafeCell::<T>::as_mut_unchecked" | "std::cell::UnsafeCell::<T>::as_ref_unchecked" => |e, st, cx| { let p = pa(e, st, cx, 0)?; v(Val::ptr(thin(&p).push(PE::Field(0)))) },
        "std::cell::Cell::<T>::as_ptr" => |e, st, cx| { let p = pa(e, st, cx, 0)?; v(Val::ptr(thin(&p).push(PE::Field(0)).push(PE::Field(0)))) },
        // ---- mem / ptr
        "std::mem::replace" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let o = st.read(&p)?; st.write(&p, cx.args[1].clone())?; v(o) },
        "std::mem::swap" => |e, st, cx| { let (p, q) = (pa(e, st, cx, 0)?, pa(e, st, cx, 1)?); let (a, b) = (st.read(&p)?, st.read(&q)?); st.write(&p, b)?; st.write(&q, a)?; unit() },
        "std::mem::forget" | "core::mem::forget" => |_, _, _| unit(),
        "std::ptr::read" | "std::ptr::read_unaligned" | "core::ptr::const_ptr::<impl *const T>::read" | "core::ptr::mut_ptr::<impl *mut T>::read" | "std::ptr::NonNull::<T>::read" => |e, st, cx| { let p = pa(e, st, cx, 0)?; v(st.read(&p)?) },
        "std::ptr::write" | "core::ptr::mut_ptr::<impl *mut T>::write" | "std::ptr::NonNull::<T>::write" => |e, st, cx| { let p = pa(e, st, cx, 0)?; st.write(&p, cx.args[1].clone())?; unit() },
        "std::mem::MaybeUninit::<T>::uninit" => |_, _, _| v(Val::Undef),
        "std::mem::MaybeUninit::<T>::new" | "std::mem::MaybeUninit::<T>::assume_init" => |_, _, cx| v(cx.args[0].clone()),
        "std::mem::MaybeUninit::<T>::write" => |e, st, cx| { let p = pa(e, st, cx, 0)?; st.write(&p, cx.args[1].clone())?; v(Val::ptr(p)) },
        "std::mem::MaybeUninit::<T>::as_ptr" | "std::mem::MaybeUninit::<T>::as_mut_ptr" | "std::mem::MaybeUninit::<T>::assume_init_ref" | "std::mem::MaybeUninit::<T>::assume_init_mut" => |_, _, cx| v(cx.args[0].clone()),
        // ---- char
        "std::char::methods::<impl char>::is_whitespace" => |e, st, cx| in_table(|t| &t.white, e, st, cx),
        "std::char::methods::<impl char>::is_alphabetic" => |e, st, cx| in_table(|t| &t.alpha, e, st, cx),
        "std::char::methods::<impl char>::is_numeric" => |e, st, cx| in_table(|t| &t.numeric, e, st, cx),
        "std::char::methods::<impl char>::is_control" => |e, st, cx| in_table(|t| &t.control, e, st, cx),
        "std::char::methods::<impl char>::is_uppercase" => |e, st, cx| in_table(|t| &t.upper, e, st, cx),
        "std::char::methods::<impl char>::is_lowercase" => |e, st, cx| in_table(|t| &t.lower, e, st, cx),
        "std::char::methods::<impl char>::to_digit" => |e, st, cx| {
            let (c, r) = (int(e, st, cx, 0)?, int(e, st, cx, 1)?);
            let r = st.enumerate(&r, 64)?;
            if !(2..=36).contains(&r) { return unk("radix"); }
            if st.decide(&c, &ISet::range(48, 47 + r.min(10)))? { return v(Val::some(Val::Int(st.norm(&c).addk(-48)))); }
            if r > 10 && st.decide(&c, &ISet::range(97, 86 + r))? { return v(Val::some(Val::Int(st.norm(&c).addk(-87)))); }
            if r > 10 && st.decide(&c, &ISet::range(65, 54 + r))? { return v(Val::some(Val::Int(st.norm(&c).addk(-55)))); }
            v(Val::none())
        },
        "std::num::NonZero::<T>::new" => |e, st, cx| { let c = int(e, st, cx, 0)?; v(if st.decide(&c, &ISet::single(0))? { Val::none() } else { Val::some(Val::agg(0, vec![Val::Int(st.norm(&c))])) }) },
        "std::num::NonZero::<T>::new_unchecked" => |e, st, cx| { let c = int(e, st, cx, 0)?; v(Val::agg(0, vec![Val::Int(c)])) },
        "std::num::NonZero::<T>::get" => |_, _, cx| { let mut x = cx.args[0].clone(); while let Val::Agg(a) = &x { let y = a.f[0].clone(); x = y; } v(x) },
        "std::char::methods::<impl char>::len_utf8" => |e, st, cx| { let c = int(e, st, cx, 0)?; v(Val::k(st.ch_width(&c)?)) },
        "std::char::from_u32" | "core::char::convert::from_u32" | "std::char::convert::from_u32" | "std::char::methods::<impl char>::from_u32" => |e, st, cx| { let c = int(e, st, cx, 0)?; v(if st.decide(&c, &ISet::new(vec![(0, 0xd7ff), (0xe000, 0x10ffff)]))? { Val::some(Val::Int(st.norm(&c))) } else { Val::none() }) },
        "std::char::methods::<impl char>::escape_debug" | "std::char::methods::<impl char>::escape_debug_ext" | "std::char::methods::<impl char>::escape_default" | "std::char::methods::<impl char>::escape_unicode" => |e, st, cx| { let c = int(e, st, cx, 0)?; let s = escape(e, st, &c, cx.name)?; v(Val::agg(0, vec![new_string(s)])) },
        "<std::char::EscapeDebug as std::iter::Iterator>::next" | "<std::char::EscapeDefault as std::iter::Iterator>::next" | "<std::char::EscapeUnicode as std::iter::Iterator>::next" => |e, st, cx| {
            let p = pa(e, st, cx, 0)?;
            let q = thin(&p).push(PE::Field(0));
            let Val::Str(s) = st.read(&q)? else { return unk("escape iterator") };
            if s.is_empty() { return v(Val::none()); }
            let c = st.char_val(&s[0])?;
            st.write(&q, new_string(s[1..].to_vec()))?;
            v(Val::some(Val::Int(c)))
        },
        "<std::char::EscapeDebug as std::fmt::Display>::fmt" | "<std::char::EscapeDefault as std::fmt::Display>::fmt" | "<std::char::EscapeUnicode as std::fmt::Display>::fmt" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let Val::Str(s) = st.read(&thin(&p).push(PE::Field(0)))? else { return unk("escape iterator") }; fmt_write_text(e, st, &cx.args[1], (*s).clone()) },
        "<std::string::String as std::iter::Extend<char>>::extend" => {
            let t = *ty_args(&inst.args()).first().unwrap();
            if let TyKind::RigidTy(RigidTy::Adt(d, _)) = t.kind() { if d.name().to_string().starts_with("std::char::Escape") {
                return Native(|e, st, cx| { let p = string_ptr(e, st, cx, 0)?; let s = st.str_of(&cx.args[1])?; push_segs(st, &p, s)?; unit() });
            } }
            return shim(e, "string_extend_char", Sel::Idx(vec![0]));
        }
        "<u8 as std::hash::Hash>::hash_slice" | "core::hash::impls::<impl std::hash::Hash for u8>::hash_slice" | "std::hash::impls::<impl std::hash::Hash for u8>::hash_slice" => return shim(e, "hash_slice_u8", Sel::Idx(vec![0])),
        "<std::string::String as std::iter::Extend<&'a str>>::extend" => return shim(e, "string_extend_str", Sel::Idx(vec![0])),
        "<std::string::String as std::iter::FromIterator<char>>::from_iter" => return shim(e, "string_from_iter_char", Sel::Idx(vec![0])),
        "<std::string::String as std::iter::FromIterator<&'a str>>::from_iter" => return shim(e, "string_from_iter_str", Sel::Idx(vec![0])),
        // ---- formatting
        "std::fmt::Arguments::<'a>::new" => |e, st, cx| { let (p, q) = (pa(e, st, cx, 0)?, pa(e, st, cx, 1)?); let (t, a) = (seq_at(st, &p)?, seq_at(st, &q)?); let f = decode_template(e, st, &t, &a)?; v(Val::Fmt(Rc::new(f))) },
        "std::fmt::Arguments::<'a>::from_str" | "std::fmt::Arguments::<'a>::from_str_nonconst" => |e, st, cx| { let s = text(e, st, cx, 0)?; v(Val::Fmt(Rc::new(vec![FmtPiece::Lit(Rc::new(s))]))) },
        "std::fmt::Arguments::<'a>::as_str" | "std::fmt::Arguments::<'a>::as_statically_known_str" => |_, _, _| v(Val::none()),
        "std::fmt::Arguments::<'a>::estimated_capacity" => |_, _, _| v(Val::k(0)),
        "std::fmt::Formatter::<'a>::write_str" | "<std::fmt::Formatter<'_> as std::fmt::Write>::write_str" => return shim(e, "fmt_write_str", Sel::Idx(vec![])),
        "std::fmt::Formatter::<'a>::write_char" | "<std::fmt::Formatter<'_> as std::fmt::Write>::write_char" => return shim(e, "fmt_write_char", Sel::Idx(vec![])),
        "std::fmt::Formatter::<'a>::alternate" => |e, st, cx| { let (fl, _) = fmt_opts(e, st, cx, 0)?; v(Val::bool(fl & (1 << 23) != 0)) },
        "std::fmt::Formatter::<'a>::debug_struct" | "std::fmt::Formatter::<'a>::debug_tuple" => return shim(e, "dbg_struct", Sel::Idx(vec![])),
        "std::fmt::Formatter::<'a>::debug_list" => return shim(e, "dbg_list", Sel::Idx(vec![])),
        "std::fmt::DebugStruct::<'a, 'b>::field" => return shim(e, "dbg_field", Sel::Idx(vec![])),
        "std::fmt::DebugStruct::<'a, 'b>::finish" => return shim(e, "dbg_finish", Sel::Idx(vec![])),
        "std::fmt::DebugTuple::<'a, 'b>::field" => return shim(e, "dbg_tuple_field", Sel::Idx(vec![])),
        "std::fmt::DebugTuple::<'a, 'b>::finish" => return shim(e, "dbg_tuple_finish", Sel::Idx(vec![])),
        "std::fmt::DebugList::<'a, 'b>::entry" => return shim(e, "dbg_entry", Sel::Idx(vec![])),
        "std::fmt::DebugList::<'a, 'b>::entries" => return shim(e, "dbg_entries", Sel::Idx(vec![0, 1])),
        "std::fmt::DebugList::<'a, 'b>::finish" => return shim(e, "dbg_list_finish", Sel::Idx(vec![])),
        "std::fmt::Formatter::<'a>::debug_tuple_field1_finish" => return shim(e, "dbg_tuple1", Sel::Idx(vec![])),
        "std::fmt::Formatter::<'a>::write_fmt" | "<std::fmt::Formatter<'_> as std::fmt::Write>::write_fmt" => return shim(e, "fmt_write_fmt", Sel::Idx(vec![])),
        "std::fmt::format" => return shim(e, "fmt_format", Sel::Idx(vec![])),
        "<T as std::string::SpecToString>::spec_to_string" => return shim(e, "to_string", Sel::Idx(vec![0])),
        "std::fmt::write" => return shim(e, "fmt_write", Sel::Idx(vec![])),
        "<std::fmt::Arguments<'_> as std::fmt::Display>::fmt" | "<std::fmt::Arguments<'_> as std::fmt::Debug>::fmt" => return shim(e, "fmt_arguments", Sel::Idx(vec![])),
        "<char as std::fmt::Display>::fmt" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let x = st.read(&p)?; let c = e.to_int(st, &x)?; fmt_write_text(e, st, &cx.args[1].clone(), vec![Seg::Ch(c, None)]) },
        "<str as std::fmt::Debug>::fmt" | "<std::string::String as std::fmt::Debug>::fmt" => |e, st, cx| { let s = text(e, st, cx, 0)?; if let Some(t) = s.iter().map(|g| match g { Seg::Ch(l, _) => st.norm(l).konst().and_then(|c| char::from_u32(c as u32)), _ => None }).collect::<Option<String>>() { return fmt_write_text(e, st, &cx.args[1].clone(), lit(&format!("{:?}", t))); } let tn = TermNode { op: "debug-str".into(), args: vec![new_string(s)], ty: st.unit_ty() }; let l = opq_len(st, &tn, ISet::range(2, 1 << 30)); fmt_write_text(e, st, &cx.args[1].clone(), vec![Seg::Opq(Rc::new(tn), l)]) },
        "<char as std::fmt::Debug>::fmt" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let x = st.read(&p)?; if let Some(c) = e.to_int(st, &x).ok().and_then(|l| st.norm(&l).konst()).and_then(|c| char::from_u32(c as u32)) { return fmt_write_text(e, st, &cx.args[1].clone(), lit(&format!("{:?}", c))); } let tn = TermNode { op: "debug-char".into(), args: vec![x], ty: st.unit_ty() }; let l = opq_len(st, &tn, ISet::range(3, 12)); fmt_write_text(e, st, &cx.args[1].clone(), vec![Seg::Opq(Rc::new(tn), l)]) },
        // ---- thread locals, once, atomics
        _ if (name.contains("thread_local") || name.contains("local_impl")) && name.ends_with("::get_or_init") => return { let n = ty_args(&inst.args()).len(); if n >= 3 { shim(e, "tls_get_or_init", Sel::Idx(vec![0, n - 1])) } else { shim(e, "tls_get_or_init_fn", Sel::Idx(vec![0])) } },
        _ if name.contains("EagerStorage") && name.ends_with("::get") => |e, st, cx| { let p = pa(e, st, cx, 0)?; let t = cx.targs[0]; let _ = t; let n = 1; v(Val::ptr(thin(&p).push(PE::Field(n)))) },
        "std::sync::Once::call_once" => return shim(e, "once_call_once", Sel::Idx(vec![0])),
        "std::sync::Once::is_completed" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let k = format!("once{}", p.slot); v(Val::bool(st.flags.contains_key(&k))) },
        "std::panic::catch_unwind" => |e, st, cx| { let _ = st; let Some(fd) = e.shims.get("call0") else { return unk("shim call0") }; let g = GenericArgs(cx.targs.iter().map(|t| GenericArgKind::Type(*t)).collect()); let i = Instance::resolve(*fd, &g).map_err(|x| Stop::Unknown(format!("{:?}", x)))?; Ok(Ret::Call(i, cx.args.clone(), After::WrapOk, true)) },
        "std::hint::must_use" | "std::hint::black_box" => |_, _, cx| v(cx.args[0].clone()),
        "core::f64::<impl f64>::is_finite" | "core::f32::<impl f32>::is_finite" | "core::f64::<impl f64>::is_nan" | "core::f32::<impl f32>::is_nan" | "core::f64::<impl f64>::is_infinite" | "core::f32::<impl f32>::is_infinite" => |_, st, cx| {
            // one three-way question per value: finite / infinite / NaN
            if let Some(f) = fconst(&cx.args[0]) { return v(Val::bool(if cx.name.ends_with("is_finite") { f.is_finite() } else if cx.name.ends_with("is_infinite") { f.is_infinite() } else { f.is_nan() })); }
            let q = TermNode { op: "fclass".into(), args: vec![cx.args[0].clone()], ty: st.unit_ty() };
            let c = st.ask(q, 3)?;
            v(Val::bool(if cx.name.ends_with("is_finite") { c == 0 } else if cx.name.ends_with("is_infinite") { c == 1 } else { c == 2 }))
        },
        "std::collections::BTreeMap::<K, V>::new" => |_, _, _| v(Val::seq(vec![])),
        "std::path::Path::new" => |_, _, cx| v(cx.args[0].clone()),
        _ => {
            if let Some(k) = generic_rules(e, inst, name) { return k; }
            return Body;
        }
    };
    Native(n)
}

fn generic_rules(e: &Eng, inst: Instance, name: &str) -> Option<Kind> {
    use Kind::*;
    let k = match name {
        "std::rc::Rc::<T, A>::make_mut" => shim(e, "rc_make_mut", Sel::Idx(vec![0])),
        "std::rc::Rc::<T, A>::unwrap_or_clone" => shim(e, "rc_unwrap_or_clone", Sel::Idx(vec![0])),
        "<std::vec::Vec<T, A> as std::clone::Clone>::clone" => shim(e, "vec_clone", Sel::Idx(vec![0])),
        "<std::vec::IntoIter<T, A> as std::clone::Clone>::clone" => shim(e, "vec_into_iter_clone", Sel::Idx(vec![0])),
        "<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend" => shim(e, "vec_extend", Sel::Idx(vec![0, 2])),
        "<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend" => shim(e, "vec_extend_ref", Sel::Idx(vec![0, 2])),
        "<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter" => shim(e, "vec_from_iter", Sel::Idx(vec![0, 1])),
        "std::vec::Vec::<T, A>::extend_from_slice" => shim(e, "vec_extend_from_slice", Sel::Idx(vec![0])),
        "std::slice::<impl [T]>::to_vec" | "std::slice::<impl std::borrow::ToOwned for [T]>::to_owned" | "<std::vec::Vec<T> as std::convert::From<&[T]>>::from" => shim(e, "slice_to_vec", Sel::Idx(vec![0])),
        "std::vec::Vec::<T, A>::truncate" => shim(e, "vec_truncate", Sel::Idx(vec![0])),
        "std::vec::Vec::<T, A>::clear" => shim(e, "vec_clear", Sel::Idx(vec![0])),
        "std::vec::Vec::<T, A>::drain" => shim(e, "vec_drain", Sel::Idx(vec![0, 2])),
        "std::vec::from_elem" => shim(e, "vec_from_elem", Sel::Idx(vec![0])),
        "core::slice::<impl [T]>::contains" => shim(e, "slice_contains", Sel::Idx(vec![0])),
        "core::slice::<impl [T]>::binary_search_by" => shim(e, "slice_binary_search_by", Sel::Idx(vec![0, 1])),
        "core::slice::<impl [T]>::partition_point" => shim(e, "slice_partition_point", Sel::Idx(vec![0, 1])),
        "std::collections::BTreeMap::<K, V, A>::range" | "std::collections::BTreeMap::<K, V, A>::insert" | "std::collections::BTreeMap::<K, V, A>::get" | "std::collections::BTreeMap::<K, V, A>::clear" | "std::collections::BTreeMap::<K, V, A>::len" | "std::collections::BTreeMap::<K, V, A>::is_empty" => {
            let m = name.rsplit("::").next().unwrap();
            match m { "range" => {
                // by range type
                let t = *ty_args(&inst.args()).last()?;
                if matches!(t.kind(), TyKind::RigidTy(RigidTy::Tuple(_))) { return Some(shim(e, "btree_range_Bounds", Sel::Idx(vec![0, 1]))); }
                let TyKind::RigidTy(RigidTy::Adt(d, _)) = t.kind() else { return None };
                let n = d.name().to_string();
                let r = n.rsplit("::").next().unwrap().to_string();
                shim(e, &format!("btree_range_{}", r), Sel::Idx(vec![0, 1]))
            } _ => shim(e, &format!("btree_{}", m), Sel::Idx(vec![0, 1])) }
        }
        "<std::collections::btree_map::Range<'a, K, V> as std::iter::Iterator>::next" => Native(|e, st, cx| { let p = pa(e, st, cx, 0)?; bt_next(e, st, &p, false) }),
        "<std::collections::btree_map::Range<'a, K, V> as std::iter::DoubleEndedIterator>::next_back" => Native(|e, st, cx| { let p = pa(e, st, cx, 0)?; bt_next(e, st, &p, true) }),
        "std::slice::<impl [T]>::concat" | "std::slice::<impl [T]>::join" => return None,
        _ => {
            if name.starts_with("core::fmt::num::") || name.starts_with("std::fmt::num::") || name.starts_with("core::fmt::float::") || name.starts_with("std::fmt::float::") {
                for (k, f) in [("Display for", (|e, st, cx| num_fmt("Display", e, st, cx)) as NF), ("LowerHex for", |e, st, cx| num_fmt("LowerHex", e, st, cx)), ("UpperHex for", |e, st, cx| num_fmt("UpperHex", e, st, cx)), ("Debug for", |e, st, cx| num_fmt("Debug", e, st, cx))] {
                    if name.contains(k) && name.ends_with("::fmt") { return Some(Native(f)); }
                }
            }
            if name.starts_with("<") && name.ends_with("as std::string::SpecToString>::spec_to_string") {
                let t = param_ty(inst, 0);
                if matches!(t.kind(), TyKind::RigidTy(RigidTy::Int(_) | RigidTy::Uint(_))) {
                    return Some(Native(|e, st, cx| { let p = pa(e, st, cx, 0)?; let x = st.read(&p)?; let l = e.to_int(st, &x)?; let s = num_text(st, "Display", &l, 0xE000_0020, 0, param_ty(cx.inst, 0))?; v(new_string(s)) }));
                }
            }
            if name.contains("std::hash::Hash") && name.ends_with("::hash") && is_text(param_ty(inst, 0)) { return Some(shim(e, "text_hash", Sel::Idx(vec![ty_args(&inst.args()).len() - 1]))); }
            if name.starts_with("std::vec::partial_eq::") && (name.ends_with("::eq") || name.ends_with("::ne")) {
                // which operand is the vector, and how the other one is represented
                let Some((rhs, lhs)) = name.split_once("PartialEq<").and_then(|(_, x)| x.rsplit_once("> for ")) else { return None };
                let lhs = lhs.rsplit_once(">::").map_or(lhs, |x| x.0);
                let kind = |x: &str| if x.starts_with("std::vec::Vec") || (x.starts_with("[") && x.contains(';')) { Some("vec") } else if x.starts_with("&") && x.contains("; N]") { Some("ref") } else if x.starts_with("&") && x.ends_with(']') { Some("rsl") } else if x.starts_with('[') { Some("sl") } else { None };
                let (Some(a), Some(b)) = (kind(lhs), kind(rhs)) else { return None };
                return Some(shim(e, &format!("seq_{}_{}_{}", if name.ends_with("::eq") { "eq" } else { "ne" }, a, b), Sel::Idx(vec![0, 1])));
            }
            if name.contains("std::cmp::PartialEq") && (name.ends_with("::eq") || name.ends_with("::ne")) && is_text(param_ty(inst, 0)) && is_text(param_ty(inst, 1)) {
                let ne = name.ends_with("::ne");
                return Some(if ne { Native(|e, st, cx| { let (a, b) = (text(e, st, cx, 0)?, text(e, st, cx, 1)?); v(Val::bool(!st.text_eq(&a, &b)?)) }) } else { Native(|e, st, cx| { let (a, b) = (text(e, st, cx, 0)?, text(e, st, cx, 1)?); v(Val::bool(st.text_eq(&a, &b)?)) }) });
            }
            if name.contains("::sync::atomic::") {
                let m = name.rsplit("::").next().unwrap();
                match m {
                    "load" => return Some(Native(|e, st, cx| { let p = pa(e, st, cx, 0)?; let q = atomic(st, p)?; v(st.read(&q)?) })),
                    "store" => return Some(Native(|e, st, cx| { let p = pa(e, st, cx, 0)?; let q = atomic(st, p)?; st.write(&q, cx.args[1].clone())?; unit() })),
                    "swap" => return Some(Native(|e, st, cx| { let p = pa(e, st, cx, 0)?; let q = atomic(st, p)?; let o = st.read(&q)?; st.write(&q, cx.args[1].clone())?; v(o) })),
                    "compare_exchange" | "compare_exchange_weak" => return Some(Native(|e, st, cx| { let p = pa(e, st, cx, 0)?; let q = atomic(st, p)?; let o = st.read(&q)?; if e.cmp(st, &o, &cx.args[1])? == 0 { st.write(&q, cx.args[2].clone())?; v(Val::ok(o)) } else { v(Val::err(o)) } })),
                    "fetch_add" | "fetch_sub" => return Some(Native(|e, st, cx| { let p = pa(e, st, cx, 0)?; let q = atomic(st, p)?; let o = st.read(&q)?; let (x, y) = (e.to_int(st, &o)?, int(e, st, cx, 1)?); let r = if cx.name.ends_with("add") { x.add(&y) } else { x.sub(&y) }; st.write(&q, Val::Int(r))?; v(o) })),
                    _ => {}
                }
            }
            return None;
        }
    };
    Some(k)
}
pub fn atomic(st: &mut State, mut p: Ptr) -> R<Ptr> {
    for _ in 0..6 { match st.read(&p)? { Val::Agg(a) if !a.f.is_empty() => p = p.push(PE::Field(0)), Val::Int(_) => return Ok(p), x => { let s = st.show(&x); return unk(format!("atomic {}", s)); } } }
    unk("atomic")
}
fn bt_next(_e: &Eng, st: &mut State, p: &Ptr, back: bool) -> R<Ret> {
    let q = thin(p).push(PE::Field(0));
    let r = seq_update(st, &q, |s| Ok(if s.is_empty() { None } else if back { s.pop() } else { Some(s.remove(0)) }))?;
    v(match r { Some(x) => Val::some(x), None => Val::none() })
}
fn rc_count(e: &Eng, st: &mut State, q: &Ptr) -> R<i128> { let c = st.read(&thin(q).push(PE::Field(0)))?; let c = e.to_int(st, &c)?; st.enumerate(&c, 4) }
fn seq_through(st: &mut State, p: &Ptr) -> R<Rc<Vec<Val>>> {
    let mut x = st.read(&thin(p))?;
    for _ in 0..8 { match x { Val::Seq(s) => return Ok(s), Val::Agg(a) => { x = match a.f.iter().find(|y| !matches!(y, Val::Undef)) { Some(y) => y.clone(), None => return unk("uninitialised array") } } _ => return unk("array expected") } }
    unk("array expected")
}
pub fn starts(st: &mut State, s: &[Seg], q: &[Seg]) -> R<bool> {
    for (i, c) in q.iter().enumerate() {
        match (s.get(i), c) {
            (None, _) => return Ok(false),
            (Some(Seg::Ch(x, _)), Seg::Ch(y, _)) => { let d = x.sub(y); if !st.decide(&d, &ISet::single(0))? { return Ok(false); } }
            (Some(Seg::Opq(t, _)), Seg::Ch(y, _)) if i == 0 && y.konst().is_some() => {
                let f = first_of_opq(st, t, q.len())?;
                let d = f.sub(y);
                if q.len() == 1 { return st.decide(&d, &ISet::single(0)); }
                if !st.decide(&d, &ISet::single(0))? { return Ok(false); }
                return unk("prefix of an uninterpreted text");
            }
            _ => return unk("prefix of a summarised text"),
        }
    }
    Ok(true)
}
/// First character of the text of an uninterpreted value.
pub fn first_of_opq(st: &mut State, t: &Rc<TermNode>, _n: usize) -> R<Lin> {
    if t.op.starts_with("num:Display") {
        if let Val::Int(l) = &t.args[0] { let l = l.clone(); let neg = st.decide(&l, &ISet::range(-INF, -1))?; if neg { return Ok(Lin::k('-' as i128)); } else { return Ok(st.fresh_weak(ISet::range('0' as i128, '9' as i128), "digit")); } }
    }
    let tn = TermNode { op: "first".into(), args: vec![Val::Term(t.clone())], ty: t.ty };
    let oplens = st.oplens.clone();
    for (n, l) in oplens.iter() { if st.term_eq(n, &tn) { return Ok(l.clone()); } }
    let l = st.fresh(ISet::new(vec![(0, 0xd7ff), (0xe000, 0x10ffff)]), "first");
    Rc::make_mut(&mut st.oplens).push((Rc::new(tn), l.clone()));
    Ok(l)
}
fn escape(e: &Eng, st: &mut State, c: &Lin, name: &str) -> R<Vec<Seg>> {
    let c = st.norm(c);
    let bs = |x: char| vec![Seg::Ch(Lin::k('\\' as i128), None), Seg::Ch(Lin::k(x as i128), None)];
    if let Some(k) = c.konst() {
        let ch = char::from_u32(k as u32).unwrap();
        let s: String = if name.ends_with("default") { ch.escape_default().collect() } else if name.ends_with("unicode") { ch.escape_unicode().collect() } else { ch.escape_debug().collect() };
        return Ok(lit(&s));
    }
    if !name.ends_with("escape_debug") { return unk("escape of an abstract character"); }
    let specials = ['\0', '\t', '\r', '\n', '\'', '"', '\\'];
    let mut sets: Vec<ISet> = specials.iter().map(|c| ISet::single(*c as i128)).collect();
    sets.push(e.tables.esc_plain.clone());
    let i = st.decide_multi(&c, &sets)?;
    if i < 7 { return Ok(bs(['0', 't', 'r', 'n', '\'', '"', '\\'][i])); }
    if i == 7 { return Ok(vec![Seg::Ch(c, None)]); }
    let cls: Vec<ISet> = vec![ISet::range(0, 0xf), ISet::range(0x10, 0xff), ISet::range(0x100, 0xfff), ISet::range(0x1000, 0xffff), ISet::range(0x10000, 0xfffff), ISet::range(0x100000, 0x10ffff)];
    let _ = st.decide_multi(&c, &cls)?;
    let u32t = Ty::unsigned_ty(UintTy::U32);
    let mut o = lit("\\u{");
    o.extend(num_text(st, "LowerHex", &c, 0xE000_0020, 0, u32t)?);
    o.extend(lit("}"));
    Ok(o)
}
fn from_utf8(e: &Eng, st: &mut State, cx: &CallCx) -> R<Ret> {
    let p = pa(e, st, cx, 0)?;
    let p = whole(e, st, &p)?;
    let (a, l) = bounds_of(&p)?;
    match st.read(&thin(&p))? {
        Val::Str(s) => {
            if st.seg_at(&s, &a)?.is_ok() && st.seg_at(&s, &a.add(&l))?.is_ok() { return v(Val::ok(Val::ptr(p))); }
            unk("from_utf8 of a part of a text")
        }
        Val::Seq(s) => {
            let (a, l) = (st.enumerate(&a, 4096)? as usize, st.enumerate(&l, 4096)? as usize);
            let mut b: Vec<Lin> = vec![];
            for x in &s[a..a + l] { b.push(e.to_int(st, x)?); }
            // UTF-8 validation over abstract bytes
            let rng = |x: i128, y: i128| ISet::range(x, y);
            let mut i = 0;
            let err = |pos: usize, len: Option<usize>| v(Val::err(Val::agg(0, vec![Val::k(pos as i128), match len { Some(n) => Val::some(Val::k(n as i128)), None => Val::none() }])));
            while i < l {
                let k = st.decide_multi(&b[i], &[rng(0, 0x7f), rng(0xc2, 0xdf), rng(0xe0, 0xe0), ISet::new(vec![(0xe1, 0xec), (0xee, 0xef)]), rng(0xed, 0xed), rng(0xf0, 0xf0), rng(0xf1, 0xf3), rng(0xf4, 0xf4)])?;
                let (w, first) = match k { 0 => { i += 1; continue; } 1 => (2, rng(0x80, 0xbf)), 2 => (3, rng(0xa0, 0xbf)), 3 => (3, rng(0x80, 0xbf)), 4 => (3, rng(0x80, 0x9f)), 5 => (4, rng(0x90, 0xbf)), 6 => (4, rng(0x80, 0xbf)), 7 => (4, rng(0x80, 0x8f)), _ => return err(i, Some(1)) };
                for j in 1..w {
                    if i + j >= l { return err(i, None); }
                    let set = if j == 1 { first.clone() } else { rng(0x80, 0xbf) };
                    if !st.decide(&b[i + j], &set)? { return err(i, Some(j)); }
                }
                i += w;
            }
            let t = st.bytes_to_segs(&s[a..a + l])?;
            v(Val::ok(st.new_str(t)?))
        }
        _ => unk("from_utf8"),
    }
}

// ---- intrinsics ------------------------------------------------------------------------------
fn intrinsic(_e: &Eng, inst: Instance, name: &str) -> Kind {
    let n = inst.intrinsic_name().map(|x| x.to_string()).unwrap_or_else(|| name.rsplit("::").next().unwrap_or("").to_string());
    let f: NF = match n.as_str() {
        "likely" | "unlikely" | "black_box" | "select_unpredictable_" => |_, _, cx| v(cx.args[0].clone()),
        "cold_path" | "assume" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "forget" => |_, _, _| unit(),
        "ub_checks" | "contract_checks" | "overflow_checks" | "is_val_statically_known" => |_, _, _| v(Val::bool(false)),
        "needs_drop" => |_, _, cx| { let i = Instance::resolve_drop_in_place(cx.targs[0]); v(Val::bool(!i.is_empty_shim())) },
        "compare_bytes" => crate::more::compare_bytes,
        "raw_eq" => crate::more::raw_eq,
        "ctpop" | "ctlz" | "cttz" | "ctlz_nonzero" | "cttz_nonzero" | "rotate_left" | "rotate_right" => crate::more::bits,
        "size_of" | "min_align_of" | "align_of" => |_, _, cx| { let l = cx.targs[0].layout().map_err(|x| Stop::Unknown(format!("{:?}", x)))?.shape(); v(Val::k(if cx.name.contains("size_of") { l.size.bytes() as i128 } else { l.abi_align as i128 })) },
        "discriminant_value" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let x = st.read(&p)?; v(Val::Int(e.discriminant(st, &x, cx.targs[0])?)) },
        "transmute" | "transmute_unchecked" => |e, st, cx| { let x = e.transmute(st, cx.args[0].clone(), cx.targs[0], cx.targs[1])?; v(x) },
        "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "unchecked_add" | "unchecked_sub" | "unchecked_mul" | "unchecked_shl" | "unchecked_shr" | "exact_div" | "unchecked_div" | "unchecked_rem" | "disjoint_bitor" => |e, st, cx| {
            let n = cx.name.rsplit("::").next().unwrap();
            let op = if n.ends_with("add") { BinOp::Add } else if n.ends_with("sub") { BinOp::Sub } else if n.ends_with("mul") { BinOp::Mul } else if n.ends_with("shl") { BinOp::Shl } else if n.ends_with("shr") { BinOp::Shr } else if n.ends_with("bitor") { BinOp::BitOr } else if n.ends_with("rem") { BinOp::Rem } else { BinOp::Div };
            v(e.binop(st, &op, cx.args[0].clone(), cx.args[1].clone(), cx.targs[0])?)
        },
        "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => |e, st, cx| {
            let n = cx.name;
            let op = if n.contains("add_with") { BinOp::Add } else if n.contains("sub_with") { BinOp::Sub } else { BinOp::Mul };
            v(e.checked(st, &op, cx.args[0].clone(), cx.args[1].clone(), cx.targs[0])?)
        },
        "saturating_add" | "saturating_sub" => |e, st, cx| {
            let (x, y) = (int(e, st, cx, 0)?, int(e, st, cx, 1)?);
            let s = if cx.name.ends_with("add") { x.add(&y) } else { x.sub(&y) };
            let (lo, hi) = int_range(&rigid(cx.targs[0])).unwrap();
            if st.decide(&s, &ISet::range(lo, hi))? { v(Val::Int(st.norm(&s))) } else if st.decide(&s, &ISet::range(hi + 1, INF))? { v(Val::k(hi)) } else { v(Val::k(lo)) }
        },
        "three_way_compare" => |e, st, cx| { let c = e.cmp(st, &cx.args[0], &cx.args[1])?; v(Val::agg((c + 1) as u32, vec![])) },
        "caller_location" => |_, st, _| { let s = st.alloc(Val::Top); v(Val::ptr(Ptr::thin(s, vec![]))) },
        "unreachable" => |_, _, _| Err(Stop::Fail("unreachable_unchecked reached".into())),
        "abort" => |_, _, _| Err(Stop::Fail("abort".into())),
        "read_via_copy" | "volatile_load" => |e, st, cx| { let p = pa(e, st, cx, 0)?; v(st.read(&p)?) },
        "write_via_move" | "volatile_store" => |e, st, cx| { let p = pa(e, st, cx, 0)?; st.write(&p, cx.args[1].clone())?; unit() },
        "typed_swap_nonoverlapping" => |e, st, cx| { let (p, q) = (pa(e, st, cx, 0)?, pa(e, st, cx, 1)?); let (a, b) = (st.read(&p)?, st.read(&q)?); st.write(&p, b)?; st.write(&q, a)?; unit() },
        "select_unpredictable" => |e, st, cx| { let c = int(e, st, cx, 0)?; let b = st.decide(&c, &ISet::single(1))?; v(cx.args[if b { 1 } else { 2 }].clone()) },
        "offset" | "arith_offset" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let o = int(e, st, cx, 1)?; v(ptr_offset(e, st, &p, &o)?) },
        "ptr_metadata" => |e, st, cx| { let p = pa(e, st, cx, 0)?; match &p.meta { Meta::Slice(_, l) => v(Val::Int(st.norm(l))), _ => unit() } },
        "ptr_offset_from_unsigned" | "ptr_offset_from" => |e, st, cx| {
            let (p, q) = (pa(e, st, cx, 0)?, pa(e, st, cx, 1)?);
            match (p.path.last(), q.path.last()) { (Some(PE::Elem(i)), Some(PE::Elem(j))) => v(Val::k((*i - *j) as i128)), (Some(PE::Byte(i)), Some(PE::Byte(j))) => v(Val::Int(st.norm(&i.sub(j)))), _ => unk("pointer difference") }
        },
        "const_eval_select" => return Kind::Native(|e, st, cx| {
            // (args, const fn, runtime fn): call the runtime function with the untupled arguments
            let t = cx.targs[2];
            let TyKind::RigidTy(RigidTy::FnDef(d, a)) = t.kind() else { return unk("const_eval_select") };
            let i = Instance::resolve(d, &a).map_err(|x| Stop::Unknown(format!("{:?}", x)))?;
            let _ = (e, st);
            let args = match &cx.args[0] { Val::Agg(x) => x.f.clone(), _ => vec![] };
            Ok(Ret::Call(i, args, After::Nothing, false))
        }),
        "ctpop" | "ctlz" | "cttz" => |_, _, cx| unk(format!("intrinsic {}", cx.name)),
        _ => {
            if inst.has_body() { return Kind::Body; }
            |_, _, cx| unk(format!("intrinsic {}", cx.name))
        }
    };
    Kind::Native(f)
}
