//! Abstract interpretation of monomorphic MIR.
use crate::dom::*;
use crate::native;
use crate::state::*;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub struct Eng {
    pub bodies: RefCell<HashMap<Instance, Option<Rc<BodyInfo>>>>,
    pub names: RefCell<HashMap<Instance, Rc<str>>>,
    pub kinds: RefCell<HashMap<Instance, native::Kind>>,
    pub shims: HashMap<String, FnDef>,
    pub resolved: RefCell<HashMap<Ty, Option<Instance>>>,
    pub drops: RefCell<HashMap<Ty, Instance>>,
    pub tyk: RefCell<HashMap<Ty, Rc<TyKind>>>,
    pub covered: RefCell<std::collections::BTreeSet<String>>,
    pub tables: native::Tables,
    pub debug: bool,
    pub max_steps: u64,
    pub budget: std::cell::Cell<f64>,
    pub show_all: bool,
    pub tracks: RefCell<HashMap<Instance, bool>>,
    pub closures: RefCell<HashMap<Instance, bool>>,
    pub seen_unk: RefCell<std::collections::HashSet<String>>,
}

/// What a native model produced.
pub enum Ret {
    Val(Val),
    /// Call this function; its result becomes the result of the modelled call.
    Call(Instance, Vec<Val>, After, bool),
}

pub struct CallCx<'a> {
    pub inst: Instance,
    pub name: &'a str,
    pub args: Vec<Val>,
    pub targs: Vec<Ty>,
    pub rty: Option<Ty>,
}

#[derive(Clone, Debug)]
pub enum Outcome { Return, Panic(String), Fail(String), Unknown(String) }

#[derive(Default)]
pub struct RunResult { pub ends: Vec<String>, pub paths: u64, pub returns: u64, pub steps: u64, pub truncated: bool, pub checks: u64, pub unknowns: u64, pub fails: u64, pub weak: u64, pub unk: std::collections::BTreeMap<String, u64>, pub covered: std::collections::BTreeSet<String>, pub samples: Vec<String> }

pub fn rigid(t: Ty) -> RigidTy { match t.kind() { TyKind::RigidTy(r) => r, k => panic!("type {:?}", k) } }
pub fn ty_args(a: &GenericArgs) -> Vec<Ty> { a.0.iter().filter_map(|x| x.ty().copied()).collect() }

pub fn int_range(t: &RigidTy) -> Option<(i128, i128)> {
    Some(match t {
        RigidTy::Bool => (0, 1),
        RigidTy::Char => (0, 0x10ffff),
        RigidTy::Int(i) => { let b = i.num_bytes() as u32 * 8; if b == 128 { (-INF, INF) } else { (-(1i128 << (b - 1)), (1i128 << (b - 1)) - 1) } }
        RigidTy::Uint(i) => { let b = i.num_bytes() as u32 * 8; if b == 128 { (0, INF) } else { (0, (1i128 << b) - 1) } }
        RigidTy::RawPtr(..) | RigidTy::Ref(..) | RigidTy::FnPtr(..) => (0, (1i128 << 64) - 1),
        _ => return None,
    })
}

fn successors(t: &TerminatorKind) -> Vec<usize> {
    let un = |u: &UnwindAction, v: &mut Vec<usize>| if let UnwindAction::Cleanup(b) = u { v.push(*b) };
    let mut v = vec![];
    match t {
        TerminatorKind::Goto { target } => v.push(*target),
        TerminatorKind::SwitchInt { targets, .. } => v.extend(targets.all_targets()),
        TerminatorKind::Drop { target, unwind, .. } => { v.push(*target); un(unwind, &mut v) }
        TerminatorKind::Call { target, unwind, .. } => { v.extend(target); un(unwind, &mut v) }
        TerminatorKind::Assert { target, unwind, .. } => { v.push(*target); un(unwind, &mut v) }
        _ => {}
    }
    v
}

impl Eng {
    pub fn kind(&self, t: Ty) -> Rc<TyKind> {
        if let Some(k) = self.tyk.borrow().get(&t) { return k.clone(); }
        let k = Rc::new(t.kind());
        self.tyk.borrow_mut().insert(t, k.clone());
        k
    }
    pub fn name(&self, i: Instance) -> Rc<str> {
        if let Some(n) = self.names.borrow().get(&i) { return n.clone(); }
        let n: Rc<str> = i.def.name().to_string().replace("pm2_harness::proc_macro::", "proc_macro::").as_str().into();
        self.names.borrow_mut().insert(i, n.clone());
        n
    }
    pub fn body(&self, i: Instance) -> Option<Rc<BodyInfo>> {
        if let Some(b) = self.bodies.borrow().get(&i) { return b.clone(); }
        let r = if i.has_body() || matches!(i.kind, InstanceKind::Shim) { i.body() } else { None };
        if let (Ok(w), Some(b)) = (std::env::var("PM2_DUMP"), &r) { if i.name().contains(&w) { let mut o = vec![]; let _ = b.dump(&mut o, &w); eprintln!("{}", String::from_utf8_lossy(&o)); } }
        let r = r.map(|body| {
            let krate = i.def.krate().name.to_string();
            // loop heads: targets of retreating edges in a depth-first search
            let mut heads = std::collections::HashSet::new();
            let n = body.blocks.len();
            let mut state = vec![0u8; n];
            let mut stack = vec![(0usize, successors(&body.blocks[0].terminator.kind), 0usize)];
            state[0] = 1;
            while let Some((b, s, k)) = stack.last_mut() {
                if *k < s.len() {
                    let t = s[*k];
                    *k += 1;
                    if state[t] == 1 { heads.insert(t); }
                    else if state[t] == 0 { state[t] = 1; stack.push((t, successors(&body.blocks[t].terminator.kind), 0)); }
                } else { state[*b] = 2; stack.pop(); }
            }
            let name = self.name(i);
            if krate == "proc_macro2" { self.covered.borrow_mut().insert(name.to_string()); }
            Rc::new(BodyInfo { inst: i, name, krate, body, heads, tys: RefCell::new(HashMap::new()), opty: RefCell::new(HashMap::new()) })
        });
        self.bodies.borrow_mut().insert(i, r.clone());
        r
    }
    fn local_ty(&self, b: &BodyInfo, l: usize) -> Ty { b.body.locals()[l].ty }
    pub fn place_ty(&self, b: &BodyInfo, p: &Place) -> R<Ty> {
        if p.projection.is_empty() { return Ok(self.local_ty(b, p.local)); }
        let key = p as *const Place as usize;
        if let Some(t) = b.opty.borrow().get(&key) { return Ok(*t); }
        let t = p.ty(b.body.locals()).map_err(|e| Stop::Unknown(format!("type of place: {:?}", e)))?;
        b.opty.borrow_mut().insert(key, t);
        Ok(t)
    }
    fn op_ty(&self, b: &BodyInfo, o: &Operand) -> R<Ty> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => self.place_ty(b, p),
            Operand::Constant(c) => Ok(c.const_.ty()),
            _ => Ok(Ty::bool_ty()),
        }
    }

    // ---- places and operands -----------------------------------------------------------
    pub fn place(&self, st: &mut State, p: &Place) -> R<Ptr> {
        let f = st.frames.last().unwrap();
        let mut cur = Ptr::thin(f.locals[p.local], vec![]);
        for e in &p.projection {
            match e {
                ProjectionElem::Deref => { let v = st.read(&cur)?; cur = self.deref(st, v)?; }
                ProjectionElem::Field(i, _) => { cur.path.push(PE::Field(*i as u32)); cur.meta = Meta::None; }
                ProjectionElem::Downcast(v) => { cur.path.push(PE::Down(v.to_index() as u32)); }
                ProjectionElem::Index(l) => {
                    let slot = st.frames.last().unwrap().locals[*l];
                    let Val::Int(i) = st.slot(slot)?.clone() else { return unk("index is not an integer") };
                    self.index(st, &mut cur, &i)?;
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let i = if *from_end { let l = self.len(st, &cur)?; l.addk(-(*offset as i128)) } else { Lin::k(*offset as i128) };
                    self.index(st, &mut cur, &i)?;
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let l = self.len(st, &cur)?;
                    let start = match &cur.meta { Meta::Slice(a, _) => a.clone(), _ => Lin::k(0) };
                    let len = if *from_end { l.addk(-(*from as i128) - *to as i128) } else { Lin::k(*to as i128 - *from as i128) };
                    cur.meta = Meta::Slice(start.addk(*from as i128), len);
                }
                ProjectionElem::OpaqueCast(_) => {}
            }
        }
        Ok(cur)
    }
    fn index(&self, st: &mut State, cur: &mut Ptr, i: &Lin) -> R<()> {
        let i = match &cur.meta { Meta::Slice(a, _) => i.add(a), _ => i.clone() };
        let i = st.norm(&i);
        let is_str = matches!(st.read(&Ptr::thin(cur.slot, cur.path.clone()))?, Val::Str(_));
        let pe = if is_str { PE::Byte(i) } else { PE::Elem(st.enumerate(&i, 512)? as i64) };
        cur.path.push(pe);
        cur.meta = Meta::None;
        Ok(())
    }
    pub fn deref(&self, st: &mut State, v: Val) -> R<Ptr> {
        match v {
            Val::Ptr(p) => Ok((*p).clone()),
            Val::Agg(a) if !a.f.is_empty() => { let x = a.f[0].clone(); self.deref(st, x) }
            Val::Term(t) => { let s = st.alloc(Val::Term(Rc::new(TermNode { op: "*".into(), args: vec![Val::Term(t.clone())], ty: t.ty }))); Ok(Ptr::thin(s, vec![])) }
            v => { let s = st.show(&v); unk(format!("dereference of {}", s)) }
        }
    }
    pub fn len(&self, st: &mut State, p: &Ptr) -> R<Lin> {
        if let Meta::Slice(_, l) = &p.meta { return Ok(st.norm(l)); }
        match st.read(p)? {
            Val::Seq(s) => Ok(Lin::k(s.len() as i128)),
            Val::Str(s) => st.segs_len(&s),
            v => { let s = st.show(&v); unk(format!("length of {}", s)) }
        }
    }
    pub fn operand(&self, st: &mut State, o: &Operand) -> R<Val> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => { let q = self.place(st, p)?; st.read(&q) }
            Operand::Constant(c) => self.constant(st, &c.const_),
            _ => Ok(Val::bool(false)),
        }
    }
    pub fn constant(&self, st: &mut State, c: &MirConst) -> R<Val> {
        match c.kind() {
            ConstantKind::ZeroSized => self.zst(c.ty()),
            ConstantKind::Allocated(a) => self.decode(st, a, 0, c.ty()),
            ConstantKind::Ty(t) => match t.kind() {
                TyConstKind::Value(ty, a) => self.decode(st, a, 0, *ty),
                TyConstKind::ZSTValue(ty) => self.zst(*ty),
                k => unk(format!("constant {:?}", k)),
            },
            k => unk(format!("constant {:?}", k)),
        }
    }
    fn zst(&self, t: Ty) -> R<Val> {
        Ok(match &*self.kind(t) {
            TyKind::RigidTy(RigidTy::FnDef(..)) => Val::unit(),
            TyKind::RigidTy(RigidTy::Array(..)) => Val::seq(vec![]),
            TyKind::RigidTy(RigidTy::Adt(d, a)) => {
                let vs = d.variants();
                if d.kind() == AdtKind::Struct && vs.len() == 1 {
                    let mut f = vec![];
                    for x in vs[0].fields() { f.push(self.zst(x.ty_with_args(a))?); }
                    Val::agg(0, f)
                } else { Val::unit() }
            }
            TyKind::RigidTy(RigidTy::Tuple(ts)) => { let mut f = vec![]; for x in ts { f.push(self.zst(*x)?); } Val::agg(0, f) }
            _ => Val::unit(),
        })
    }
    fn uint(&self, a: &Allocation, off: usize, n: usize) -> R<u128> {
        let mut v = 0u128;
        for i in 0..n { match a.bytes.get(off + i) { Some(Some(b)) => v |= (*b as u128) << (8 * i), _ => return unk("uninitialised constant byte") } }
        Ok(v)
    }
    /// Decode a value of type `t` at byte `off` of a constant allocation.
    pub fn decode(&self, st: &mut State, a: &Allocation, off: usize, t: Ty) -> R<Val> {
        let k = self.kind(t);
        let TyKind::RigidTy(r) = &*k else { return unk("constant of a non-rigid type") };
        match r {
            RigidTy::Bool => Ok(Val::k(self.uint(a, off, 1)? as i128)),
            RigidTy::Char => Ok(Val::k(self.uint(a, off, 4)? as i128)),
            RigidTy::Uint(u) => { let v = self.uint(a, off, u.num_bytes())?; if v > INF as u128 { return unk("an integer constant beyond 127 bits"); } Ok(Val::k(v as i128)) }
            RigidTy::Int(u) => { let n = u.num_bytes(); let v = self.uint(a, off, n)?; let sh = 128 - 8 * n as u32; Ok(Val::k(((v << sh) as i128) >> sh)) }
            RigidTy::Float(f) => { let n = match f { FloatTy::F32 => 4, FloatTy::F64 => 8, FloatTy::F16 => 2, _ => 16 }; let v = self.uint(a, off, n)?; Ok(Val::Term(Rc::new(TermNode { op: "float".into(), args: vec![Val::k(v as i128)], ty: t }))) }
            RigidTy::Tuple(ts) => {
                let sh = t.layout().map_err(|e| Stop::Unknown(format!("{:?}", e)))?.shape();
                let mut f = vec![];
                if let FieldsShape::Arbitrary { offsets } = &sh.fields { for (i, x) in ts.iter().enumerate() { f.push(self.decode(st, a, off + offsets[i].bytes(), *x)?); } }
                Ok(Val::agg(0, f))
            }
            RigidTy::Array(e, _) => {
                let sh = t.layout().map_err(|e| Stop::Unknown(format!("{:?}", e)))?.shape();
                let FieldsShape::Array { stride, count } = &sh.fields else { return unk("array layout") };
                let mut f = vec![];
                for i in 0..*count as usize { f.push(self.decode(st, a, off + i * stride.bytes(), *e)?); }
                Ok(Val::seq(f))
            }
            RigidTy::Pat(i, _) => self.decode(st, a, off, *i),
            RigidTy::Ref(_, to, _) | RigidTy::RawPtr(to, _) => self.decode_ptr(st, a, off, *to),
            RigidTy::FnPtr(_) => {
                match a.provenance.ptrs.iter().find(|(o, _)| *o == off) {
                    Some((_, p)) => match GlobalAlloc::from(p.0) { GlobalAlloc::Function(i) => Ok(Val::Fn(i)), _ => unk("function pointer constant") },
                    None => Ok(Val::k(self.uint(a, off, 8)? as i128)),
                }
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) => Ok(Val::unit()),
            RigidTy::Adt(d, args) => {
                if d.kind() == AdtKind::Union {
                    return Ok(Val::Top);
                }
                let sh = t.layout().map_err(|e| Stop::Unknown(format!("{:?}", e)))?.shape();
                let vs = d.variants();
                let (vi, offs): (usize, Vec<usize>) = match &sh.variants {
                    VariantsShape::Single { index } => {
                        let o = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|x| x.bytes()).collect(), _ => vec![] };
                        (index.to_index(), o)
                    }
                    VariantsShape::Empty => return unk("constant of an uninhabited type"),
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let FieldsShape::Arbitrary { offsets } = &sh.fields else { return unk("enum layout") };
                        let toff = off + offsets[*tag_field].bytes();
                        let n = match tag { rustc_public::abi::Scalar::Initialized { value, .. } | rustc_public::abi::Scalar::Union { value } => match value { rustc_public::abi::Primitive::Int { length, .. } => length.bits() / 8, _ => 8 } };
                        let is_ptr = a.provenance.ptrs.iter().any(|(o, _)| *o == toff);
                        let v = if is_ptr { None } else { Some(self.uint(a, toff, n)?) };
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let v = v.unwrap();
                                let mut r = None;
                                for (i, vd) in vs.iter().enumerate() { let dv = d.discriminant_for_variant(vd.idx()).val; let m = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 }; if dv & m == v { r = Some(i); } }
                                match r { Some(i) => i, None => return unk("bad tag in constant") }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => match v {
                                None => untagged_variant.to_index(),
                                Some(v) => {
                                    let m = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                                    let rel = v.wrapping_sub(*niche_start) & m;
                                    let cnt = (niche_variants.end().to_index() - niche_variants.start().to_index()) as u128;
                                    if rel <= cnt { niche_variants.start().to_index() + rel as usize } else { untagged_variant.to_index() }
                                }
                            },
                        };
                        (vi, variants[vi].offsets.iter().map(|x| x.bytes()).collect())
                    }
                };
                let mut f = vec![];
                for (i, fd) in vs[vi].fields().iter().enumerate() { f.push(self.decode(st, a, off + offs[i], fd.ty_with_args(args))?); }
                if native::is_seq_adt(d) { return self.collection(d, &f); }
                Ok(Val::agg(vi as u32, f))
            }
            _ => unk(format!("constant of type {}", t)),
        }
    }
    /// A standard collection built field by field: only the empty one has a known meaning.
    fn collection(&self, d: &AdtDef, f: &[Val]) -> R<Val> {
        let n = d.name().to_string();
        if n.ends_with("String") { return match f.first() { Some(Val::Seq(s)) if s.is_empty() => Ok(Val::str("")), Some(x @ Val::Str(_)) => Ok(x.clone()), _ => unk("String built from parts") }; }
        match f.last() { Some(Val::Int(l)) if l.konst() == Some(0) => Ok(Val::seq(vec![])), _ => unk("Vec built from parts") }
    }
    fn decode_ptr(&self, st: &mut State, a: &Allocation, off: usize, to: Ty) -> R<Val> {
        let Some((_, p)) = a.provenance.ptrs.iter().find(|(o, _)| *o == off) else {
            let k = self.uint(a, off, 8)? as i128;
            // dangling pointer to a zero-sized or empty object
            let k2 = self.kind(to);
            if matches!(&*k2, TyKind::RigidTy(RigidTy::Slice(_) | RigidTy::Str)) {
                let s = st.alloc(if matches!(&*k2, TyKind::RigidTy(RigidTy::Str)) { Val::str("") } else { Val::seq(vec![]) });
                return Ok(Val::ptr(Ptr { slot: s, path: vec![], meta: Meta::Slice(Lin::k(0), Lin::k(0)) }));
            }
            if let Ok(l) = to.layout() { if l.shape().size.bytes() == 0 && k != 0 { let z = self.zst(to)?; let s = st.alloc(z); return Ok(Val::ptr(Ptr::thin(s, vec![]))); } }
            return Ok(Val::k(k));
        };
        let key = format!("c{:?}:{}", p.0, to);
        let inner_off = self.uint(a, off, 8)? as usize;
        let k = self.kind(to);
        let slot_key = format!("{}@{}", key, inner_off);
        match GlobalAlloc::from(p.0) {
            GlobalAlloc::Memory(al) => {
                match &*k {
                    TyKind::RigidTy(RigidTy::Str) => {
                        let n = self.uint(a, off + 8, 8)? as usize;
                        let slot = match st.globals.get(&slot_key) { Some(s) => *s, None => {
                            let b: Vec<u8> = (0..n).map(|i| al.bytes[inner_off + i].unwrap_or(0)).collect();
                            let s = st.alloc(Val::str(&String::from_utf8_lossy(&b)));
                            Rc::make_mut(&mut st.globals).insert(slot_key, s); s } };
                        Ok(Val::ptr(Ptr { slot, path: vec![], meta: Meta::Slice(Lin::k(0), Lin::k(n as i128)) }))
                    }
                    TyKind::RigidTy(RigidTy::Slice(e)) => {
                        let n = self.uint(a, off + 8, 8)? as usize;
                        let slot = match st.globals.get(&slot_key) { Some(s) => *s, None => {
                            let sz = e.layout().map_err(|e| Stop::Unknown(format!("{:?}", e)))?.shape().size.bytes();
                            let mut f = vec![];
                            for i in 0..n { f.push(self.decode(st, &al, inner_off + i * sz, *e)?); }
                            let s = st.alloc(Val::seq(f));
                            Rc::make_mut(&mut st.globals).insert(slot_key, s); s } };
                        Ok(Val::ptr(Ptr { slot, path: vec![], meta: Meta::Slice(Lin::k(0), Lin::k(n as i128)) }))
                    }
                    TyKind::RigidTy(RigidTy::Dynamic(..)) => {
                        let vt = a.provenance.ptrs.iter().find(|(o, _)| *o == off + 8);
                        let Some((_, vp)) = vt else { return unk("constant trait object") };
                        let GlobalAlloc::VTable(cty, _) = GlobalAlloc::from(vp.0) else { return unk("constant trait object") };
                        let v = self.decode(st, &al, inner_off, cty)?;
                        let slot = st.alloc(v);
                        Ok(Val::ptr(Ptr { slot, path: vec![], meta: Meta::Vtable(cty) }))
                    }
                    _ => {
                        let slot = match st.globals.get(&slot_key) { Some(s) => *s, None => {
                            let v = self.decode(st, &al, inner_off, to)?;
                            let s = st.alloc(v);
                            Rc::make_mut(&mut st.globals).insert(slot_key, s); s } };
                        Ok(Val::ptr(Ptr::thin(slot, vec![])))
                    }
                }
            }
            GlobalAlloc::Static(d) => {
                let key = format!("s{}", d.name());
                let slot = match st.globals.get(&key) { Some(s) => *s, None => {
                    let al = d.eval_initializer().map_err(|e| Stop::Unknown(format!("static {}: {:?}", d.name(), e)))?;
                    let v = match self.decode(st, &al, 0, d.ty()) { Ok(v) => v, Err(Stop::Unknown(_)) => Val::Top, Err(e) => return Err(e) };
                    let s = st.alloc(v);
                    Rc::make_mut(&mut st.globals).insert(key, s); s } };
                Ok(Val::ptr(Ptr::thin(slot, vec![])))
            }
            GlobalAlloc::Function(i) => Ok(Val::Fn(i)),
            g => unk(format!("constant pointer to {:?}", g)),
        }
    }

    // ---- rvalues -----------------------------------------------------------------------
    pub fn to_int(&self, st: &State, v: &Val) -> R<Lin> {
        match v {
            Val::Int(l) => Ok(st.norm(l)),
            Val::Agg(a) if a.f.len() == 1 => self.to_int(st, &a.f[0]),
            Val::Agg(a) if a.f.is_empty() => Ok(Lin::k(a.var as i128)),
            v => unk(format!("integer expected, found {}", st.show(v))),
        }
    }
    pub fn wrap(&self, st: &mut State, l: &Lin, t: &RigidTy) -> R<Lin> {
        let Some((lo, hi)) = int_range(t) else { return unk("wrap to a non-integer type") };
        let mut l = st.norm(l);
        if let Some(c) = l.konst() {
            if hi >= INF { return Ok(l); }
            let m = hi - lo + 1;
            return Ok(Lin::k((c - lo).rem_euclid(m) + lo));
        }
        for _ in 0..3 {
            if st.decide(&l, &ISet::range(lo, hi))? { return Ok(l); }
            let m = hi - lo + 1;
            if st.decide(&l, &ISet::range(hi + 1, INF))? { l = l.addk(-m); } else { l = l.addk(m); }
        }
        unk("wrapping of a wide range")
    }
    fn rvalue(&self, st: &mut State, b: &Rc<BodyInfo>, rv: &Rvalue) -> R<Val> {
        match rv {
            Rvalue::Use(o, _) => self.operand(st, o),
            Rvalue::CopyForDeref(p) => { let q = self.place(st, p)?; st.read(&q) }
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) | Rvalue::Reborrow(_, _, p) => {
                let q = self.place(st, p)?;
                Ok(Val::ptr(q))
            }
            Rvalue::Len(p) => { let q = self.place(st, p)?; Ok(Val::Int(self.len(st, &q)?)) }
            Rvalue::Discriminant(p) => {
                let t = self.place_ty(b, p)?;
                let q = self.place(st, p)?;
                let v = st.read(&q)?;
                Ok(Val::Int(self.discriminant(st, &v, t)?))
            }
            Rvalue::Aggregate(k, ops) => {
                let mut f = Vec::with_capacity(ops.len());
                for o in ops { f.push(self.operand(st, o)?); }
                Ok(match k {
                    AggregateKind::Array(_) => Val::seq(f),
                    AggregateKind::Adt(d, _, _, _, _) if native::is_seq_adt(d) => self.collection(d, &f)?,
                    AggregateKind::Adt(_, v, _, _, active) => {
                        if let Some(i) = active { let mut g = vec![Val::Undef; *i]; g.push(f.pop().unwrap()); Val::agg(0, g) }
                        else { Val::agg(v.to_index() as u32, f) }
                    }
                    AggregateKind::RawPtr(..) => {
                        let meta = f.pop().unwrap();
                        let base = f.pop().unwrap();
                        match (&base, &meta) {
                            (Val::Ptr(p), Val::Int(l)) => self.ptr_with_len(st, p, l)?,
                            (Val::Ptr(p), Val::Agg(a)) if !a.f.is_empty() => { let l = self.to_int(st, &meta)?; self.ptr_with_len(st, p, &l)? }
                            (Val::Ptr(_), Val::Agg(_)) => base,
                            _ => return unk("raw pointer aggregate"),
                        }
                    }
                    _ => Val::agg(0, f),
                })
            }
            Rvalue::Repeat(o, n) => {
                let v = self.operand(st, o)?;
                let n = n.eval_target_usize().map_err(|e| Stop::Unknown(format!("{:?}", e)))?;
                if n > 100_000 { return unk("huge array"); }
                Ok(Val::seq(vec![v; n as usize]))
            }
            Rvalue::UnaryOp(op, o) => {
                let v = self.operand(st, o)?;
                match op {
                    UnOp::PtrMetadata => match v {
                        Val::Ptr(p) => match &p.meta { Meta::Slice(_, l) => Ok(Val::Int(st.norm(l))), Meta::None => { let t = self.op_ty(b, o)?; if let Some(x) = self.pointee(t) { if matches!(&*self.kind(x), TyKind::RigidTy(RigidTy::Slice(_) | RigidTy::Str)) { return unk("length of a slice pointer without bounds"); } } Ok(Val::unit()) } Meta::Vtable(_) => unk("vtable metadata") },
                        _ => unk("metadata of a non-pointer"),
                    },
                    UnOp::Not => {
                        let t = self.op_ty(b, o)?;
                        let r = self.kind(t);
                        let TyKind::RigidTy(r) = &*r else { return unk("not") };
                        let l = self.to_int(st, &v)?;
                        Ok(Val::Int(match r {
                            RigidTy::Bool => Lin::k(1).sub(&l),
                            RigidTy::Uint(_) => Lin::k(int_range(r).unwrap().1).sub(&l),
                            _ => Lin::k(-1).sub(&l),
                        }))
                    }
                    UnOp::Neg => {
                        let t = self.op_ty(b, o)?;
                        let r = self.kind(t);
                        let TyKind::RigidTy(r) = &*r else { return unk("neg") };
                        if matches!(r, RigidTy::Float(_)) { return Ok(Val::Term(Rc::new(TermNode { op: "fneg".into(), args: vec![v], ty: t }))); }
                        let l = self.to_int(st, &v)?;
                        Ok(Val::Int(self.wrap(st, &l.scale(-1), r)?))
                    }
                }
            }
            Rvalue::BinaryOp(op, x, y) => {
                let (a, c) = (self.operand(st, x)?, self.operand(st, y)?);
                let t = self.op_ty(b, x)?;
                self.binop(st, op, a, c, t)
            }
            Rvalue::CheckedBinaryOp(op, x, y) => {
                let (a, c) = (self.operand(st, x)?, self.operand(st, y)?);
                let t = self.op_ty(b, x)?;
                self.checked(st, op, a, c, t)
            }
            Rvalue::Cast(k, o, t) => {
                let v = self.operand(st, o)?;
                let from = self.op_ty(b, o)?;
                self.cast(st, k, v, from, *t)
            }
            Rvalue::ThreadLocalRef(item) => {
                let key = format!("tl{}", item.name());
                let slot = match st.globals.get(&key) { Some(s) => *s, None => {
                    let sd = rustc_public::mir::mono::StaticDef::try_from(*item).map_err(|e| Stop::Unknown(format!("thread local: {:?}", e)))?;
                    let al = sd.eval_initializer().map_err(|e| Stop::Unknown(format!("thread local {}: {:?}", item.name(), e)))?;
                    let v = match self.decode(st, &al, 0, sd.ty()) { Ok(v) => v, Err(Stop::Unknown(_)) => Val::Undef, Err(e) => return Err(e) };
                    let s = st.alloc(v);
                    Rc::make_mut(&mut st.globals).insert(key, s); s } };
                Ok(Val::ptr(Ptr::thin(slot, vec![])))
            }
        }
    }
    /// A pointer to `len` elements starting at the element `p` points to.
    pub fn ptr_with_len(&self, st: &mut State, p: &Ptr, len: &Lin) -> R<Val> {
        let mut q = p.clone();
        match q.path.last().cloned() {
            Some(PE::Elem(i)) => { q.path.pop(); q.meta = Meta::Slice(Lin::k(i as i128), len.clone()); }
            Some(PE::Byte(l)) => { q.path.pop(); q.meta = Meta::Slice(l, len.clone()); }
            _ => { let s = match &q.meta { Meta::Slice(s, _) => s.clone(), _ => Lin::k(0) }; q.meta = Meta::Slice(s, len.clone()); }
        }
        let _ = st;
        Ok(Val::ptr(q))
    }
    pub fn discriminant(&self, st: &mut State, v: &Val, t: Ty) -> R<Lin> {
        let k = self.kind(t);
        let TyKind::RigidTy(RigidTy::Adt(d, _)) = &*k else { return Ok(Lin::k(0)) };
        if let Val::Undef = v {
            if let Ok(l) = t.layout() { if let VariantsShape::Single { index } = l.shape().variants { return Ok(Lin::k(d.discriminant_for_variant(d.variants()[index.to_index()].idx()).val as i128)); } }
        }
        match v {
            Val::Agg(a) => {
                if d.kind() != AdtKind::Enum { return Ok(Lin::k(0)); }
                let vs = d.variants();
                if a.var as usize >= vs.len() { return unk("variant out of range"); }
                let dv = d.discriminant_for_variant(vs[a.var as usize].idx());
                let TyKind::RigidTy(r) = &*self.kind(dv.ty) else { return unk("discriminant type") };
                let x = dv.val as i128;
                let x = match int_range(r) { Some((lo, hi)) if hi < INF && x > hi && lo < 0 => x - (hi - lo + 1), _ => x };
                Ok(Lin::k(x))
            }
            Val::Term(n) => {
                let nv = d.variants().len() as u32;
                let q = TermNode { op: "variant".into(), args: vec![Val::Term(n.clone())], ty: t };
                let i = st.ask(q, nv)?;
                Ok(Lin::k(d.discriminant_for_variant(d.variants()[i as usize].idx()).val as i128))
            }
            Val::Int(l) => Ok(st.norm(l)),
            v => { let s = st.show(v); unk(format!("discriminant of {}", s)) }
        }
    }
    pub fn cmp(&self, st: &mut State, a: &Val, c: &Val) -> R<i128> {
        if let (Val::Ptr(p), Val::Ptr(q)) = (a, c) {
            if p.slot == q.slot && p.path == q.path {
                return match (&p.meta, &q.meta) { (Meta::Slice(x, _), Meta::Slice(y, _)) => { let d = x.sub(y); Ok(if st.decide(&d, &ISet::single(0))? { 0 } else if st.decide(&d, &ISet::range(1, INF))? { 1 } else { -1 }) } _ => Ok(0) };
            }
            return Ok(if (p.slot, 0) < (q.slot, 0) { -1 } else { 1 });
        }
        if let (Val::Ptr(_), Val::Int(l)) = (a, c) { if l.konst() == Some(0) { return Ok(1); } }
        if let (Val::Int(l), Val::Ptr(_)) = (a, c) { if l.konst() == Some(0) { return Ok(-1); } }
        let (x, y) = (self.to_int(st, a)?, self.to_int(st, c)?);
        let d = st.norm(&x.sub(&y));
        if let Some(k) = d.konst() { return Ok(k.signum()); }
        if st.decide(&d, &ISet::single(0))? { return Ok(0); }
        Ok(if st.decide(&d, &ISet::range(1, INF))? { 1 } else { -1 })
    }
    pub fn binop(&self, st: &mut State, op: &BinOp, a: Val, c: Val, t: Ty) -> R<Val> {
        let k = self.kind(t);
        let TyKind::RigidTy(r) = &*k else { return unk("binop type") };
        if matches!(r, RigidTy::Float(_)) { return native::float_binop(self, st, op, a, c, t); }
        use BinOp::*;
        if let (Val::Fn(x), Val::Fn(y), Eq | Ne) = (&a, &c, op) { return Ok(Val::bool((x == y) == matches!(op, Eq))); }
        Ok(match op {
            Eq | Ne => {
                let r = if let (Val::Int(x), Val::Int(y)) = (&a, &c) { let d = x.sub(y); st.decide(&d, &ISet::single(0))? } else { self.cmp(st, &a, &c)? == 0 };
                Val::bool(r == matches!(op, Eq))
            }
            Lt | Le | Gt | Ge => {
                if let (Val::Int(x), Val::Int(y)) = (&a, &c) {
                    let d = x.sub(y);
                    let s = match op { Lt => ISet::range(-INF, -1), Le => ISet::range(-INF, 0), Gt => ISet::range(1, INF), _ => ISet::range(0, INF) };
                    Val::bool(st.decide(&d, &s)?)
                } else {
                    let o = self.cmp(st, &a, &c)?;
                    Val::bool(match op { Lt => o < 0, Le => o <= 0, Gt => o > 0, _ => o >= 0 })
                }
            }
            Cmp => Val::agg((self.cmp(st, &a, &c)? + 1) as u32, vec![]),
            Add | AddUnchecked | Sub | SubUnchecked => {
                let (x, y) = (self.to_int(st, &a)?, self.to_int(st, &c)?);
                let s = if matches!(op, Add | AddUnchecked) { x.add(&y) } else { x.sub(&y) };
                Val::Int(self.wrap(st, &s, r)?)
            }
            Mul | MulUnchecked => {
                let (x, y) = (self.to_int(st, &a)?, self.to_int(st, &c)?);
                let p = match (x.konst(), y.konst()) { (Some(k), _) => y.scale(k), (_, Some(k)) => x.scale(k), _ => {
                    let (l, m, big) = if st.bounds(&x).1 < st.bounds(&y).1 { (&x, &y, ()) } else { (&y, &x, ()) };
                    let _ = big;
                    let k = st.enumerate(l, 16)?;
                    m.scale(k)
                } };
                Val::Int(self.wrap(st, &p, r)?)
            }
            Div | Rem => {
                let (x, y) = (self.to_int(st, &a)?, self.to_int(st, &c)?);
                match (x.konst(), y.konst()) {
                    (Some(x), Some(y)) if y != 0 => Val::k(if matches!(op, Div) { x / y } else { x % y }),
                    (_, Some(y)) if y > 0 => {
                        let (lo, hi) = st.bounds(&x);
                        if lo >= 0 && lo / y == hi / y { Val::Int(if matches!(op, Div) { Lin::k(lo / y) } else { x.addk(-(lo / y) * y) }) }
                        else { let x = st.enumerate(&x, 512)?; Val::k(if matches!(op, Div) { x / y } else { x % y }) }
                    }
                    _ => return unk("division"),
                }
            }
            BitAnd | BitOr | BitXor => {
                let (x, y) = (self.to_int(st, &a)?, self.to_int(st, &c)?);
                if let (Some(x), Some(y)) = (x.konst(), y.konst()) { return Ok(Val::k(match op { BitAnd => x & y, BitOr => x | y, _ => x ^ y })); }
                let (s, k) = if x.konst().is_some() { (y, x) } else { (x, y) };
                if let Some(k) = k.konst() {
                    if k == 0 { return Ok(Val::Int(if matches!(op, BitAnd) { Lin::k(0) } else { s })); }
                    let (lo, hi) = st.bounds(&s);
                    if matches!(op, BitAnd) && k > 0 && (k & (k + 1)) == 0 && lo >= 0 {
                        if hi <= k { return Ok(Val::Int(s)); }
                        if lo / (k + 1) == hi / (k + 1) { return Ok(Val::Int(s.addk(-(lo / (k + 1)) * (k + 1)))); }
                    }
                    if matches!(r, RigidTy::Bool) { return Ok(Val::Int(match op { BitAnd => s, BitOr => Lin::k(1), _ => Lin::k(1).sub(&s) })); }
                }
                if matches!(r, RigidTy::Bool) {
                    let s1 = st.decide(&s, &ISet::single(1))?;
                    let k1 = st.decide(&k, &ISet::single(1))?;
                    return Ok(Val::bool(match op { BitAnd => s1 & k1, BitOr => s1 | k1, _ => s1 ^ k1 }));
                }
                let x = st.enumerate(&s, 300)?;
                let y = st.enumerate(&k, 300)?;
                Val::k(match op { BitAnd => x & y, BitOr => x | y, _ => x ^ y })
            }
            Shl | ShlUnchecked => {
                let (x, y) = (self.to_int(st, &a)?, self.to_int(st, &c)?);
                let Some(k) = y.konst() else { return unk("shift by an abstract amount") };
                if k > 90 { return unk("wide shift"); }
                Val::Int(self.wrap(st, &x.scale(1 << k), r)?)
            }
            Shr | ShrUnchecked => {
                let (x, y) = (self.to_int(st, &a)?, self.to_int(st, &c)?);
                let Some(k) = y.konst() else { return unk("shift by an abstract amount") };
                match x.konst() {
                    Some(x) => Val::k(x >> k),
                    None => {
                        let (lo, hi) = st.bounds(&x);
                        if lo >> k == hi >> k { Val::k(lo >> k) } else { let x = st.enumerate(&x, 300)?; Val::k(x >> k) }
                    }
                }
            }
            Offset => match a {
                Val::Ptr(p) => { let o = self.to_int(st, &c)?; native::ptr_offset(self, st, &p, &o)? }
                _ => return unk("pointer offset"),
            },
        })
    }
    pub fn checked(&self, st: &mut State, op: &BinOp, a: Val, c: Val, t: Ty) -> R<Val> {
        let k = self.kind(t);
        let TyKind::RigidTy(r) = &*k else { return unk("binop type") };
        let (x, y) = (self.to_int(st, &a)?, self.to_int(st, &c)?);
        let s = match op {
            BinOp::Add | BinOp::AddUnchecked => x.add(&y),
            BinOp::Sub | BinOp::SubUnchecked => x.sub(&y),
            BinOp::Mul | BinOp::MulUnchecked => match (x.konst(), y.konst()) { (Some(k), _) => y.scale(k), (_, Some(k)) => x.scale(k), _ => return unk("product of abstract values") },
            _ => { let v = self.binop(st, op, a, c, t)?; return Ok(Val::agg(0, vec![v, Val::bool(false)])); }
        };
        let (lo, hi) = int_range(r).unwrap();
        if st.decide(&s, &ISet::range(lo, hi))? { Ok(Val::agg(0, vec![Val::Int(st.norm(&s)), Val::bool(false)])) }
        else { let w = self.wrap(st, &s, r)?; Ok(Val::agg(0, vec![Val::Int(w), Val::bool(true)])) }
    }
    fn pointee(&self, t: Ty) -> Option<Ty> {
        match &*self.kind(t) {
            TyKind::RigidTy(RigidTy::Ref(_, x, _) | RigidTy::RawPtr(x, _)) => Some(*x),
            TyKind::RigidTy(RigidTy::Adt(d, a)) if d.is_box() => ty_args(a).first().copied(),
            TyKind::RigidTy(RigidTy::Adt(_, a)) => ty_args(a).first().copied(),
            _ => None,
        }
    }
    fn cast(&self, st: &mut State, k: &CastKind, v: Val, from: Ty, to: Ty) -> R<Val> {
        let tk = self.kind(to);
        match k {
            CastKind::IntToInt | CastKind::PointerExposeAddress | CastKind::PointerWithExposedProvenance => {
                if matches!(v, Val::Ptr(_)) { return Ok(v); }
                let TyKind::RigidTy(r) = &*tk else { return unk("cast") };
                let l = self.to_int(st, &v)?;
                if int_range(r).is_none() { return Ok(v); }
                Ok(Val::Int(self.wrap(st, &l, r)?))
            }
            CastKind::FloatToInt | CastKind::FloatToFloat | CastKind::IntToFloat => Ok(Val::Term(Rc::new(TermNode { op: format!("cast {:?}", k).into(), args: vec![v], ty: to }))),
            CastKind::PointerCoercion(pc) => match pc {
                PointerCoercion::ReifyFnPointer(_) => {
                    let fk = self.kind(from);
                    let TyKind::RigidTy(RigidTy::FnDef(d, a)) = &*fk else { return unk("reify") };
                    match Instance::resolve_for_fn_ptr(*d, a) { Ok(i) => Ok(Val::Fn(i)), Err(e) => unk(format!("{:?}", e)) }
                }
                PointerCoercion::ClosureFnPointer(_) => {
                    let fk = self.kind(from);
                    let TyKind::RigidTy(RigidTy::Closure(d, a)) = &*fk else { return unk("closure pointer") };
                    match Instance::resolve_closure(*d, a, ClosureKind::FnOnce) { Ok(i) => Ok(Val::Fn(i)), Err(e) => unk(format!("{:?}", e)) }
                }
                PointerCoercion::Unsize => self.unsize(st, v, from, to),
                _ => Ok(v),
            },
            CastKind::PtrToPtr => {
                if let (Val::Ptr(p), Some(x), Some(y)) = (&v, self.pointee(from), self.pointee(to)) {
                    let (kx, ky) = (self.kind(x), self.kind(y));
                    let thin = |k: &TyKind| !matches!(k, TyKind::RigidTy(RigidTy::Slice(_) | RigidTy::Str | RigidTy::Dynamic(..)));
                    if !thin(&kx) && thin(&ky) {
                        // fat to thin: point at the first element
                        let mut q = (**p).clone();
                        if let Meta::Slice(a, _) = &q.meta {
                            let a = a.clone();
                            q.meta = Meta::None;
                            let is_str = matches!(st.read(&Ptr::thin(q.slot, q.path.clone()))?, Val::Str(_));
                            q.path.push(if is_str { PE::Byte(a) } else { PE::Elem(st.enumerate(&a, 512)? as i64) });
                        } else { q.meta = Meta::None; }
                        return Ok(Val::ptr(q));
                    }
                    if thin(&kx) && thin(&ky) && matches!(&*kx, TyKind::RigidTy(RigidTy::Array(..))) && !matches!(&*ky, TyKind::RigidTy(RigidTy::Array(..))) {
                        let k2 = self.kind(y);
                        if !matches!(&*k2, TyKind::RigidTy(RigidTy::Tuple(t)) if t.is_empty()) { return Ok(Val::ptr(p.push(PE::Elem(0)))); }
                    }
                    if thin(&kx) && thin(&ky) && x != y { return Ok(Val::ptr(self.recast(st, p, x, y))); }
                }
                Ok(v)
            }
            CastKind::FnPtrToPtr => Ok(v),
            _ => self.transmute(st, v, from, to),
        }
    }
    /// The only field of a wrapper struct whose other fields have no size.
    fn wrapped(&self, t: Ty) -> Option<(u32, Ty)> {
        let k = self.kind(t);
        let TyKind::RigidTy(RigidTy::Adt(d, a)) = &*k else { return None };
        if d.kind() != AdtKind::Struct || is_seq_ty(d) { return None; }
        let fs = d.variants()[0].fields();
        let mut r = None;
        for (i, f) in fs.iter().enumerate() {
            let ft = f.ty_with_args(a);
            let zst = ft.layout().map(|l| l.shape().size.bytes() == 0 && !l.shape().is_unsized()).unwrap_or(false);
            if zst { continue; }
            if r.is_some() { return None; }
            r = Some((i as u32, ft));
        }
        r
    }
    /// Pointer cast between a wrapper and what it wraps.
    pub fn recast(&self, st: &mut State, p: &Ptr, x: Ty, y: Ty) -> Ptr {
        let mut q = p.clone();
        let mut t = x;
        for _ in 0..6 {
            if t == y { return q; }
            let Some((i, ft)) = self.wrapped(t) else { break };
            if !matches!(st.read(&Ptr::thin(q.slot, q.path.clone())), Ok(Val::Agg(_)) | Ok(Val::Undef)) { t = ft; continue; }
            q.path.push(PE::Field(i));
            t = ft;
        }
        let mut chain = vec![];
        let mut t = y;
        for _ in 0..6 {
            if t == x {
                let mut q = p.clone();
                for i in chain.iter().rev() { if q.path.last() == Some(&PE::Field(*i)) { q.path.pop(); } else { return p.clone(); } }
                return q;
            }
            let Some((i, ft)) = self.wrapped(t) else { break };
            chain.push(i);
            t = ft;
        }
        p.clone()
    }
    pub fn transmute(&self, st: &mut State, v: Val, from: Ty, to: Ty) -> R<Val> {
        if from == to { return Ok(v); }
        if let (Val::Ptr(p), Some(x), Some(y)) = (&v, self.pointee(from), self.pointee(to)) { if x != y && matches!(p.meta, Meta::None) { let q = self.recast(st, p, x, y); return Ok(Val::ptr(q)); } }
        let tk = self.kind(to);
        match (&v, &*tk) {
            (_, TyKind::RigidTy(RigidTy::Float(_))) | (Val::Term(_), _) => Ok(Val::Term(Rc::new(TermNode { op: "bits".into(), args: vec![v], ty: to }))),
            (Val::Int(_) , TyKind::RigidTy(RigidTy::Bool | RigidTy::Char | RigidTy::Int(_) | RigidTy::Uint(_))) => {
                let TyKind::RigidTy(r) = &*tk else { unreachable!() };
                let l = self.to_int(st, &v)?;
                Ok(Val::Int(self.wrap(st, &l, r)?))
            }
            (Val::Agg(a), TyKind::RigidTy(RigidTy::Bool | RigidTy::Char | RigidTy::Int(_) | RigidTy::Uint(_) | RigidTy::RawPtr(..) | RigidTy::Ref(..) | RigidTy::FnPtr(_))) => {
                if a.f.is_empty() { let l = self.discriminant(st, &v, from)?; return Ok(Val::Int(l)); }
                let x = a.f[0].clone();
                Ok(x).and_then(|x| match x { Val::Agg(_) => self.transmute(st, x, to, from), x => Ok(x) })
            }
            (Val::Int(l), TyKind::RigidTy(RigidTy::Adt(d, a))) => {
                if d.kind() == AdtKind::Enum {
                    let l = st.norm(l);
                    let c = st.enumerate(&l, 64)?;
                    for (i, vd) in d.variants().iter().enumerate() { if d.discriminant_for_variant(vd.idx()).val as i128 == c { return Ok(Val::agg(i as u32, vec![])); } }
                    if d.name().to_string() == "std::option::Option" {
                        // a niche: zero is None
                        if c == 0 { return Ok(Val::none()); }
                        if let Some(rustc_public::ty::GenericArgKind::Type(t)) = a.0.first() { let x = self.transmute(st, v.clone(), from, *t)?; return Ok(Val::some(x)); }
                    }
                    return unk("transmute to enum");
                }
                let fs = d.variants()[0].fields();
                let mut out = vec![];
                for f in &fs {
                    let ft = f.ty_with_args(a);
                    let z = ft.layout().map(|l| l.shape().size.bytes() == 0).unwrap_or(false);
                    out.push(if z { self.zst(ft)? } else { self.transmute(st, v.clone(), from, ft)? });
                }
                Ok(Val::agg(0, out))
            }
            (Val::Ptr(_) | Val::Fn(_), TyKind::RigidTy(RigidTy::Adt(d, _))) if d.kind() == AdtKind::Enum => {
                // Option<NonNull> and friends
                Ok(Val::agg(1, vec![v]))
            }
            _ => Ok(v),
        }
    }
    fn unsize(&self, st: &mut State, v: Val, from: Ty, to: Ty) -> R<Val> {
        match &v {
            Val::Ptr(p) => {
                let (Some(x), Some(y)) = (self.pointee(from), self.pointee(to)) else { return unk("unsize") };
                let (kx, ky) = (self.kind(x), self.kind(y));
                match (&*kx, &*ky) {
                    (TyKind::RigidTy(RigidTy::Array(_, _)), TyKind::RigidTy(RigidTy::Slice(_))) => {
                        let n = self.len(st, p)?;
                        let mut q = (**p).clone();
                        q.meta = Meta::Slice(Lin::k(0), n);
                        Ok(Val::ptr(q))
                    }
                    (TyKind::RigidTy(RigidTy::Dynamic(..)), _) => Ok(v),
                    (_, TyKind::RigidTy(RigidTy::Dynamic(..))) => { let mut q = (**p).clone(); q.meta = Meta::Vtable(x); Ok(Val::ptr(q)) }
                    _ => unk(format!("unsize {} to {}", from, to)),
                }
            }
            Val::Agg(a) if !a.f.is_empty() => { let x = self.unsize(st, a.f[0].clone(), from, to)?; let mut f = a.f.clone(); f[0] = x; Ok(Val::agg(a.var, f)) }
            _ => unk("unsize of a non-pointer"),
        }
    }

    // ---- control -----------------------------------------------------------------------
    pub fn push_frame(&self, st: &mut State, inst: Instance, mut args: Vec<Val>, dest: Option<Rc<Ptr>>, ret: Option<usize>, unwind: UnwindAction, after: After, catch: bool) -> R<()> {
        let Some(b) = self.body(inst) else { return unk(format!("no body for {}", self.name(inst))) };
        if st.frames.len() > 4000 { return unk("call depth limit"); }
        let nargs = b.body.arg_locals().len();
        if args.len() != nargs || b.body.spread_arg().is_some() {
            // rust-call ABI: untuple or tuple the trailing arguments
            if b.body.spread_arg().is_some() {
                if !(args.len() == nargs && matches!(args.last(), Some(Val::Agg(_)))) || args.len() > nargs {
                    let rest: Vec<Val> = args.drain(nargs - 1..).collect();
                    args.push(Val::agg(0, rest));
                }
            } else if let Some(Val::Agg(a)) = args.last().cloned() {
                if args.len() - 1 + a.f.len() == nargs { args.pop(); args.extend(a.f.iter().cloned()); }
            }
            if args.len() != nargs { return unk(format!("argument count of {}", b.name)); }
        }
        let n = b.body.locals().len();
        let mut locals = Vec::with_capacity(n);
        locals.push(st.alloc(Val::Undef));
        for a in args { locals.push(st.alloc(a)); }
        while locals.len() < n { locals.push(st.alloc(Val::Undef)); }
        if b.krate == "proc_macro2" {
            let t = Rc::make_mut(&mut st.trace);
            if t.last().map_or(true, |x| **x != *b.name) { if t.len() > 60 { t.drain(0..20); } t.push(b.name.clone()); }
        }
        let loc = b.name.clone();
        st.frames.push(Frame { b, bb: 0, st: 0, locals: Rc::new(locals), dest, ret, unwind, catch, after, cleanup: false, loc });
        st.depth_max = st.depth_max.max(st.frames.len());
        Ok(())
    }
    fn pop_frame(&self, st: &mut State) -> Frame {
        let f = st.frames.pop().unwrap();
        for &l in f.locals.iter() { st.dealloc(l); }
        f
    }
    fn goto(&self, st: &mut State, bb: usize) {
        let f = st.frames.last_mut().unwrap();
        f.bb = bb;
        f.st = 0;
    }
    /// Start or continue unwinding with the given action of the current frame.
    /// Returns the uncaught panic message when no frame is left.
    fn unwind(&self, st: &mut State, mut act: UnwindAction) -> Option<Outcome> {
        loop {
            match act {
                UnwindAction::Cleanup(bb) => { self.goto(st, bb); return None; }
                UnwindAction::Terminate | UnwindAction::Unreachable => { return Some(Outcome::Fail(format!("panic in a context that must not unwind: {}", st.panicking.clone().unwrap_or("".into())))); }
                UnwindAction::Continue => {
                    let f = self.pop_frame(st);
                    if f.catch {
                        st.panicking = None;
                        let slot = st.alloc(Val::unit());
                        let mut pp = Ptr::thin(slot, vec![]);
                        pp.meta = Meta::Vtable(st.unit_ty());
                        let v = Val::err(Val::ptr(pp));
                        if let Some(d) = &f.dest { if st.write(d, v).is_err() { return Some(Outcome::Unknown("catch destination".into())); } }
                        let f2 = st.frames.last_mut().unwrap();
                        f2.bb = f.ret.unwrap();
                        f2.st = 0;
                        return None;
                    }
                    if st.frames.is_empty() { return Some(Outcome::Panic(st.panicking.clone().unwrap_or("".into()).to_string())); }
                    act = f.unwind;
                }
            }
        }
    }
    fn cur_unwind(&self, st: &State) -> UnwindAction {
        let f = st.frames.last().unwrap();
        if f.st < f.b.body.blocks[f.bb].statements.len() { return UnwindAction::Continue; }
        match &f.b.body.blocks[f.bb].terminator.kind {
            TerminatorKind::Call { unwind, .. } | TerminatorKind::Drop { unwind, .. } | TerminatorKind::Assert { unwind, .. } => unwind.clone(),
            _ => UnwindAction::Continue,
        }
    }

    /// One instruction. Ok(true) = path finished normally.
    fn step(&self, st: &mut State) -> R<bool> {
        let f = st.frames.last().unwrap();
        let b = f.b.clone();
        let (bb, si) = (f.bb, f.st);
        let block = &b.body.blocks[bb];
        st.steps += 1;
        if si < block.statements.len() {
            match &block.statements[si].kind {
                StatementKind::Assign(p, rv) => {
                    let v = self.rvalue(st, &b, rv)?;
                    let q = self.place(st, p)?;
                    st.write(&q, v)?;
                }
                StatementKind::SetDiscriminant { place, variant_index } => {
                    let q = self.place(st, place)?;
                    let v = st.read(&q)?;
                    let f = if let Val::Agg(a) = v { a.f.clone() } else { vec![] };
                    st.write(&q, Val::agg(variant_index.to_index() as u32, f))?;
                }
                StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => return unk("copy_nonoverlapping"),
                StatementKind::StorageLive(l) => { let s = st.frames.last().unwrap().locals[*l]; st.slots[s as usize] = Some(Rc::new(Val::Undef)); }
                _ => {}
            }
            st.frames.last_mut().unwrap().st += 1;
            return Ok(false);
        }
        match &block.terminator.kind {
            TerminatorKind::Goto { target } => self.goto(st, *target),
            TerminatorKind::SwitchInt { discr, targets } => {
                let v = self.operand(st, discr)?;
                let l = match &v { Val::Int(l) => st.norm(l), Val::Ptr(_) => Lin::k(1 << 40), _ => self.to_int(st, &v)? };
                let mut order: Vec<usize> = vec![];
                let mut by: HashMap<usize, Vec<(i128, i128)>> = HashMap::new();
                let t = self.op_ty(&b, discr)?;
                let tk = self.kind(t);
                for (val, tgt) in targets.branches() {
                    let mut x = val as i128;
                    if let TyKind::RigidTy(r) = &*tk { if let Some((lo, hi)) = int_range(r) { if hi < INF && x > hi && lo < 0 { x -= hi - lo + 1; } } }
                    if !order.contains(&tgt) { order.push(tgt); }
                    by.entry(tgt).or_default().push((x, x));
                }
                let sets: Vec<ISet> = order.iter().map(|t| ISet::new(by[t].clone())).collect();
                let i = st.decide_multi(&l, &sets)?;
                let tgt = if i < order.len() { order[i] } else { targets.otherwise() };
                self.goto(st, tgt);
            }
            TerminatorKind::Return => {
                let f = st.frames.last().unwrap();
                let mut v = st.slot(f.locals[0])?.clone();
                match f.after { After::WrapOk => v = Val::ok(v), _ => {} }
                if st.frames.len() == 1 { return Ok(true); }
                let f = self.pop_frame(st);
                if f.after == After::Resume { Rc::make_mut(&mut st.flags).remove("interfering"); return Ok(false); }
                if let Some(d) = &f.dest { if f.after != After::RetBool { st.write(d, v)?; } }
                match f.ret { Some(bb) => self.goto(st, bb), None => return unk("return from a diverging call") }
            }
            TerminatorKind::Resume => {
                let f = self.unwind(st, UnwindAction::Continue);
                if let Some(o) = f { return Err(match o { Outcome::Panic(m) => Stop::Uncaught(m), Outcome::Fail(m) => Stop::Fail(m), Outcome::Unknown(m) => Stop::Unknown(m), Outcome::Return => unreachable!() }); }
            }
            TerminatorKind::Abort => return Err(Stop::Fail("abort".into())),
            TerminatorKind::Unreachable => {
                if let Some(w) = &st.weak { return unk(format!("unreachable code on an approximated path ({})", w)); }
                return Err(Stop::Fail("unreachable code reached".into()));
            }
            TerminatorKind::Drop { place, target, unwind } => {
                let t = self.place_ty(&b, place)?;
                let q = self.place(st, place)?;
                self.drop_at(st, q, t, *target, unwind.clone())?;
            }
            TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                let v = self.operand(st, cond)?;
                let l = self.to_int(st, &v)?;
                if st.decide(&l, &ISet::single(*expected as i128))? { self.goto(st, *target) }
                else { return Err(Stop::Panic(format!("{} in {}", assert_msg(msg), b.name))); }
            }
            TerminatorKind::Call { func, args, destination, target, unwind } => {
                if let Some(Val::Fn(other)) = st.flags.get("interfere").cloned() { if self.interfere(st, &b, func, other)? { return Ok(false); } }
                let mut vals = Vec::with_capacity(args.len());
                for a in args { vals.push(self.operand(st, a)?); }
                let ft = self.op_ty(&b, func)?;
                let inst = self.callee(st, func, ft, &mut vals)?;
                // the closure traits pass the arguments as a tuple
                if matches!(&*self.kind(ft), TyKind::RigidTy(RigidTy::FnDef(..))) && self.is_closure(inst) {
                    if let Some(Val::Agg(a)) = vals.last().cloned() { vals.pop(); vals.extend(a.f.iter().cloned()); }
                }
                if matches!(&*self.kind(ft), TyKind::RigidTy(RigidTy::FnPtr(..))) {
                    if let Some(cb) = self.body(inst) { if cb.body.spread_arg().is_some() { vals = vec![Val::unit(), Val::agg(0, vals)]; } else if self.is_closure(inst) { vals.insert(0, Val::unit()); } }
                }
                let dest = Rc::new(self.place(st, destination)?);
                let rty = self.place_ty(&b, destination)?;
                self.call(st, inst, vals, dest, rty, *target, unwind.clone())?;
                if st.flags.contains_key("interfere-later") { Rc::make_mut(&mut st.flags).remove("interfere-later"); }
            }
            TerminatorKind::InlineAsm { .. } => return unk("inline assembly"),
        }
        Ok(false)
    }
    /// Function that a panic raised now is attributed to.
    /// Another thread may take its step before any access to shared state: both cases are followed.
    fn interfere(&self, st: &mut State, b: &BodyInfo, func: &Operand, other: Instance) -> R<bool> {
        if st.flags.contains_key("interfere-later") { return Ok(false); }
        let ft = self.op_ty(b, func)?;
        let TyKind::RigidTy(RigidTy::FnDef(d, a)) = &*self.kind(ft) else { return Ok(false) };
        let Ok(i) = Instance::resolve(*d, a) else { return Ok(false) };
        let name = self.name(i);
        if !(name.contains("::sync::atomic::") || name.contains("::sync::Once::") || name.contains("::sync::OnceLock::") || name.contains("is_available")) { return Ok(false); }
        let n = st.flags.get("interfere-n").map(|x| match x { Val::Int(l) => l.konst().unwrap_or(0), _ => 0 }).unwrap_or(0);
        let q = TermNode { op: format!("interfere#{}", n).as_str().into(), args: vec![], ty: st.unit_ty() };
        let r = st.ask(q, 2)?;
        let f = Rc::make_mut(&mut st.flags);
        f.insert("interfere-n".into(), Val::k(n + 1));
        if r == 0 { f.insert("interfere-later".into(), Val::k(1)); return Ok(false); }
        f.remove("interfere");
        f.insert("interfering".into(), Val::k(1));
        self.push_frame(st, other, vec![], None, None, UnwindAction::Continue, After::Resume, false)?;
        Ok(true)
    }
    pub fn caller(&self, st: &State) -> Option<Rc<str>> {
        for f in st.frames.iter().rev() { if !self.tracks_caller(f.b.inst) { return Some(f.b.name.clone()); } }
        None
    }
    fn tracks_caller(&self, i: Instance) -> bool {
        if let Some(b) = self.tracks.borrow().get(&i) { return *b; }
        let r = rustc_middle::ty::tls::with(|tcx| rustc_public::rustc_internal::internal(tcx, i).def.requires_caller_location(tcx));
        self.tracks.borrow_mut().insert(i, r);
        r
    }
    fn is_closure(&self, i: Instance) -> bool {
        if matches!(i.kind, InstanceKind::Shim) { return false; }
        if let Some(b) = self.closures.borrow().get(&i) { return *b; }
        let r = matches!(i.ty().kind(), TyKind::RigidTy(RigidTy::Closure(..)));
        self.closures.borrow_mut().insert(i, r);
        r
    }
    fn callee(&self, st: &mut State, func: &Operand, ft: Ty, vals: &mut Vec<Val>) -> R<Instance> {
        let k = self.kind(ft);
        match &*k {
            TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                let cached = self.resolved.borrow().get(&ft).copied();
                let i = match cached { Some(i) => i, None => { let i = Instance::resolve(*d, a).ok(); self.resolved.borrow_mut().insert(ft, i); i } };
                let Some(i) = i else { return unk(format!("unresolved call {}", d.name())) };
                if let InstanceKind::Virtual { .. } = i.kind { return self.virt(st, *d, a, vals); }
                Ok(i)
            }
            TyKind::RigidTy(RigidTy::FnPtr(_)) => match self.operand(st, func)? {
                Val::Fn(i) => Ok(i),
                Val::Agg(a) if matches!(a.f.first(), Some(Val::Fn(_))) => { let Some(Val::Fn(i)) = a.f.first() else { unreachable!() }; Ok(*i) }
                v => { let s = st.show(&v); unk(format!("call through {}", s)) }
            },
            k => unk(format!("call of {:?}", k)),
        }
    }
    pub fn virt(&self, st: &mut State, d: FnDef, a: &GenericArgs, vals: &mut Vec<Val>) -> R<Instance> {
        let p = self.deref(st, vals[0].clone())?;
        let Meta::Vtable(t) = &p.meta else { return unk("dynamic call without a vtable") };
        let mut g = a.0.clone();
        g[0] = GenericArgKind::Type(*t);
        let mut q = p.clone();
        q.meta = Meta::None;
        vals[0] = Val::ptr(q);
        Instance::resolve(d, &GenericArgs(g)).map_err(|e| Stop::Unknown(format!("dynamic call: {:?}", e)))
    }
    pub fn call(&self, st: &mut State, inst: Instance, vals: Vec<Val>, dest: Rc<Ptr>, rty: Ty, target: Option<usize>, unwind: UnwindAction) -> R<()> {
        let name = self.name(inst);
        let kind = { let c = self.kinds.borrow().get(&inst).cloned(); match c { Some(k) => k, None => { let k = native::classify(self, inst, &name); self.kinds.borrow_mut().insert(inst, k.clone()); k } } };
        match kind {
            native::Kind::Body => self.push_frame(st, inst, vals, Some(dest), target, unwind, After::Nothing, false),
            native::Kind::Shim(d, sel) => {
                let a = sel.args(self, inst);
                let i = Instance::resolve(d, &a).map_err(|e| Stop::Unknown(format!("shim for {}: {:?}", name, e)))?;
                self.push_frame(st, i, vals, Some(dest), target, unwind, After::Nothing, false)
            }
            native::Kind::Native(f) => {
                let backup = st.begin();
                let cx = CallCx { inst, name: &name, args: vals, targs: ty_args(&inst.args()), rty: Some(rty) };
                let r = f(self, st, &cx);
                if let Err(Stop::Split(a)) = r { st.rollback(backup); return Err(Stop::Split(a)); }
                st.journal = None;
                drop(backup);
                match r {
                    Ok(Ret::Val(v)) => {
                        st.write(&dest, v)?;
                        match target { Some(t) => { self.goto(st, t); Ok(()) } None => unk(format!("return from diverging {}", name)) }
                    }
                    Ok(Ret::Call(i, args, after, catch)) => {
                        let name = self.name(i);
                        let kind = { let c = self.kinds.borrow().get(&i).cloned(); match c { Some(k) => k, None => { let k = native::classify(self, i, &name); self.kinds.borrow_mut().insert(i, k.clone()); k } } };
                        match kind {
                            native::Kind::Native(_) if after == After::Nothing && !catch => self.call(st, i, args, dest, rty, target, unwind),
                            native::Kind::Native(_) => unk(format!("indirect call of {}", name)),
                            native::Kind::Shim(d, sel) => {
                                let a = sel.args(self, i);
                                let j = Instance::resolve(d, &a).map_err(|e| Stop::Unknown(format!("shim for {}: {:?}", name, e)))?;
                                self.push_frame(st, j, args, Some(dest), target, unwind, after, catch)
                            }
                            _ => self.push_frame(st, i, args, Some(dest), target, unwind, after, catch),
                        }
                    }
                    Err(e) => Err(e),
                }
            }
        }
    }
    pub fn drop_at(&self, st: &mut State, q: Ptr, t: Ty, target: usize, unwind: UnwindAction) -> R<()> {
        let mut t = t;
        let mut q = q;
        if let Meta::Vtable(x) = q.meta { t = x; q.meta = Meta::None; }
        let k = self.kind(t);
        if let TyKind::RigidTy(RigidTy::Adt(d, a)) = &*k {
            if d.krate().name.to_string() == "proc_macro" { self.goto(st, target); return Ok(()); }
            if let Some(s) = native::drop_shim(d) {
                let Some(fd) = self.shims.get(s) else { return unk(format!("drop shim {}", s)) };
                let g = GenericArgs(a.0.iter().filter(|x| x.ty().is_some()).take(native::drop_shim_arity(s)).cloned().collect());
                let i = Instance::resolve(*fd, &g).map_err(|e| Stop::Unknown(format!("drop shim {}: {:?}", s, e)))?;
                let dest = Rc::new(Ptr::thin(st.alloc(Val::Undef), vec![]));
                return self.push_frame(st, i, vec![Val::ptr(q)], Some(dest), Some(target), unwind, After::Nothing, false);
            }
            if native::drop_noop(d) { self.goto(st, target); return Ok(()); }
        }
        if let TyKind::RigidTy(RigidTy::Slice(e)) = &*k {
            let Some(fd) = self.shims.get("slice_drop") else { return unk("slice drop shim") };
            let i = Instance::resolve(*fd, &GenericArgs(vec![GenericArgKind::Type(*e)])).map_err(|e| Stop::Unknown(format!("{:?}", e)))?;
            let dest = Rc::new(Ptr::thin(st.alloc(Val::Undef), vec![]));
            return self.push_frame(st, i, vec![Val::ptr(q)], Some(dest), Some(target), unwind, After::Nothing, false);
        }
        let i = { let c = self.drops.borrow().get(&t).copied(); match c { Some(i) => i, None => { let i = Instance::resolve_drop_in_place(t); self.drops.borrow_mut().insert(t, i); i } } };
        if i.is_empty_shim() { self.goto(st, target); return Ok(()); }
        let v = st.read(&Ptr::thin(q.slot, q.path.clone()))?;
        if matches!(v, Val::Term(_)) { self.goto(st, target); return Ok(()); }
        let dest = Rc::new(Ptr::thin(st.alloc(Val::Undef), vec![]));
        self.push_frame(st, i, vec![Val::ptr(q)], Some(dest), Some(target), unwind, After::Nothing, false)
    }

    // ---- driver ------------------------------------------------------------------------
    /// Analyse `entry`; the abstract states are shared out among up to `workers` forked processes.
    pub fn run(&self, entry: Instance, max_paths: u64, keep: usize, workers: usize) -> RunResult {
        let mut res = RunResult::default();
        let mut st = State::new();
        if let Err(_) = self.push_frame(&mut st, entry, vec![], None, None, UnwindAction::Continue, After::Nothing, false) {
            res.unknowns = 1;
            res.unk.insert("entry".into(), 1);
            return res;
        }
        let t0 = std::time::Instant::now();
        let dir = std::env::temp_dir().join(format!("pm2-{}-{}", std::process::id(), self.name(entry).replace("::", "-")));
        let _ = std::fs::create_dir_all(&dir);
        let sh = Shared::new(workers);
        sh.active.store(1, Relaxed);
        let ok = self.drain(vec![st], &mut res, max_paths, keep, t0, sh, &dir);
        let mut files: Vec<_> = std::fs::read_dir(&dir).map(|d| d.filter_map(|x| x.ok().map(|x| x.path())).collect()).unwrap_or_default();
        files.sort();
        for f in files { if let Ok(t) = std::fs::read_to_string(&f) { res.merge(&t, keep); } }
        if !ok { res.truncated = true; *res.unk.entry("a worker ended early".into()).or_default() += 1; res.unknowns += 1; }
        let _ = std::fs::remove_dir_all(&dir);
        res.covered.extend(self.covered.borrow().iter().cloned());
        res
    }
    /// Work off the states; false if a helper process died.
    fn drain(&self, mut work: Vec<State>, res: &mut RunResult, max_paths: u64, keep: usize, t0: std::time::Instant, sh: &'static Shared, dir: &std::path::Path) -> bool {
        let mut kids = vec![];
        let mut n = 0u64;
        while let Some(st) = work.pop() {
            n += 1;
            if sh.paths.load(Relaxed) as u64 >= max_paths || (n % 16 == 0 && t0.elapsed().as_secs_f64() > self.budget.get()) || sh.fails.load(Relaxed) >= 20 { res.truncated = true; break; }
            let mut parts = vec![];
            let (p0, f0) = (res.paths, res.fails);
            self.path(st, res, keep, &mut |p| parts.push(p));
            sh.paths.fetch_add((res.paths - p0) as usize, Relaxed);
            sh.fails.fetch_add((res.fails - f0) as usize, Relaxed);
            parts.reverse();
            work.extend(parts);
            if work.len() >= 4 && n > 30 && sh.active.load(Relaxed) < sh.max && sh.active.fetch_update(Relaxed, Relaxed, |a| if a < sh.max { Some(a + 1) } else { None }).is_ok() {
                let id = sh.next.fetch_add(1, Relaxed);
                let pid = unsafe { fork() };
                let mut half = vec![];
                let mut rest = vec![];
                for (i, s) in std::mem::take(&mut work).into_iter().enumerate() { if i % 2 == 0 { half.push(s) } else { rest.push(s) } }
                if pid == 0 {
                    drop(rest);
                    let mut r = RunResult::default();
                    let ok = self.drain(half, &mut r, max_paths, keep, t0, sh, dir);
                    r.covered = self.covered.borrow().clone();
                    let w = std::fs::write(dir.join(format!("{:06}", id)), r.encode()).is_ok();
                    unsafe { _exit(if ok && w { 0 } else { 1 }) };
                } else if pid < 0 { sh.active.fetch_sub(1, Relaxed); rest.extend(half); }
                else { kids.push(pid); }
                work = rest;
            }
        }
        sh.active.fetch_sub(1, Relaxed);
        let mut ok = true;
        for pid in kids { let mut s = 0; unsafe { waitpid(pid, &mut s, 0) }; ok &= s == 0; }
        ok
    }
    /// Follow one abstract state to its end or to the next partition.
    fn path(&self, mut st: State, res: &mut RunResult, keep: usize, push: &mut dyn FnMut(State)) {
        let s0 = st.steps;
        let out = loop {
            if st.limit > 0 && st.steps > st.limit { break Some(Outcome::Fail(format!("does not end in {}", st.frames.last().map(|f| f.b.name.to_string()).unwrap_or_default()))); }
            if st.steps > self.max_steps + st.patience && st.limit == 0 { break Some(Outcome::Unknown(format!("step limit in {}", st.frames.last().map(|f| f.b.name.to_string()).unwrap_or_default()))); }
            let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.step(&mut st))) { Ok(r) => r, Err(_) => break Some(Outcome::Unknown("internal error of the analyser".into())) };
            match r {
                Ok(false) => {}
                Ok(true) => break Some(Outcome::Return),
                // a partition on a value that exists only inside the undone step
                Err(Stop::Split(alts)) if alts.iter().flatten().any(|r| r.unborn(st.atoms.len())) => break Some(Outcome::Unknown(format!("partition of a temporary value in {}", st.frames.last().map(|f| f.b.name.to_string()).unwrap_or_default()))),
                Err(Stop::Split(alts)) => {
                    let n = alts.len();
                    res.steps += st.steps - s0;
                    for (i, a) in alts.into_iter().enumerate() {
                        let mut c = if i + 1 == n { std::mem::replace(&mut st, State::new()) } else { st.clone() };
                        if c.apply(&a) { push(c); }
                    }
                    return;
                }
                Err(Stop::Panic(m)) => {
                    if std::env::var_os("PM2_TRACE").is_some() { eprintln!("PANIC {} [{}]", m, st.frames.iter().rev().take(4).map(|f| f.b.name.to_string()).collect::<Vec<_>>().join(" < ")); }
                    st.panicking = Some(m.as_str().into());
                    st.panic_at = self.caller(&st);
                    let act = self.cur_unwind(&st);
                    if let Some(o) = self.unwind(&mut st, act) { break Some(o); }
                }
                Err(Stop::Uncaught(m)) => break Some(Outcome::Panic(m)),
                Err(Stop::Unknown(m)) => {
                    let w = st.frames.last().map(|f| f.b.name.to_string()).unwrap_or_default();
                    if self.debug && self.seen_unk.borrow_mut().insert(format!("{}{}", m.chars().take(25).collect::<String>(), w)) { if let Some(f) = st.frames.last() { if std::env::var_os("PM2_MIR").is_some() { let mut o = vec![]; let _ = f.b.body.dump(&mut o, &w); eprintln!("{}", String::from_utf8_lossy(&o)); } let bl = &f.b.body.blocks[f.bb]; let t = if f.st < bl.statements.len() { format!("{:?}", bl.statements[f.st].kind) } else { format!("{:?}", bl.terminator.kind) }; eprintln!("UNKNOWN {} at {} bb{}: {}\n   stack {}", m, f.b.name, f.bb, t.chars().take(700).collect::<String>(), st.frames.iter().rev().take(6).map(|f| f.b.name.to_string()).collect::<Vec<_>>().join(" < ")); } }
                    break Some(Outcome::Unknown(format!("{} [in {}]", m, w)));
                }
                Err(Stop::Fail(m)) => break Some(Outcome::Fail(m)),
                Err(Stop::Infeasible) => { res.steps += st.steps - s0; return; }
            }
        };
        let Some(o) = out else { return };
        res.steps += st.steps - s0;
        res.paths += 1;
        res.checks += st.checks;
        let inputs = |st: &State| -> Vec<String> { st.inputs.iter().map(|(n, v)| format!("{} = {}", n, st.show(v))).collect() };
        match &o {
            Outcome::Return => { res.returns += 1; if res.samples.len() < 3 || (res.returns % 997 == 0 && res.samples.len() < 6) { res.samples.push(inputs(&st).join("; ")); } if !self.show_all { return; } }
            Outcome::Unknown(m) => { res.unknowns += 1; *res.unk.entry(m.clone()).or_default() += 1; if !self.show_all && res.unk[m] > 2 { return; } }
            _ => if st.weak.is_some() { res.weak += 1 } else { res.fails += 1 },
        }
        if res.ends.len() < keep {
            let mut trace: Vec<Rc<str>> = (*st.trace).clone();
            if matches!(o, Outcome::Unknown(_)) { for f in st.frames.iter() { trace.push(format!("@{} bb{}", f.b.name, f.bb).as_str().into()); } }
            let (k, m) = match &o { Outcome::Return => ("return", ""), Outcome::Panic(m) => ("panic", m.as_str()), Outcome::Fail(m) => ("fail", m.as_str()), Outcome::Unknown(m) => ("unknown", m.as_str()) };
            res.ends.push(format!("{{\"kind\":{},\"msg\":{},\"weak\":{},\"inputs\":{},\"trace\":{},\"depth\":{}}}", js(k), js(m), js(st.weak.as_deref().unwrap_or("")), jl(&inputs(&st)), jl(&trace.iter().map(|x| x.to_string()).collect::<Vec<_>>()), st.depth_max));
        }
    }
}
/// Counters shared by the forked processes.
struct Shared { active: AtomicUsize, next: AtomicUsize, fails: AtomicUsize, paths: AtomicUsize, max: usize }
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
impl Shared {
    fn new(max: usize) -> &'static Shared {
        unsafe {
            let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *mut Shared;
            p.write(Shared { active: AtomicUsize::new(0), next: AtomicUsize::new(0), fails: AtomicUsize::new(0), paths: AtomicUsize::new(0), max });
            &*p
        }
    }
}
extern "C" { fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; fn fork() -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn _exit(c: i32) -> !; }
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\r' => o += "\\r", '\t' => o += "\\t", c if (c as u32) < 32 || c == '\u{7f}' => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } }
    o.push('"');
    o
}
pub fn jl(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")) }
impl RunResult {
    fn encode(&self) -> String {
        let mut o = format!("{} {} {} {} {} {} {} {}\n", self.paths, self.returns, self.steps, self.checks, self.truncated as u8, self.unknowns, self.fails, self.weak);
        for (k, n) in &self.unk { o += &format!("U\t{}\t{}\n", n, k.replace(['\n', '\t'], " ")); }
        for c in &self.covered { o += &format!("C\t{}\n", c); }
        for c in &self.samples { o += &format!("S\t{}\n", c.replace('\n', " ")); }
        for e in &self.ends { o += &format!("E\t{}\n", e); }
        o
    }
    fn merge(&mut self, t: &str, keep: usize) {
        for (i, l) in t.lines().enumerate() {
            if i == 0 {
                let n: Vec<u64> = l.split(' ').map(|x| x.parse().unwrap_or(0)).collect();
                self.paths += n[0]; self.returns += n[1]; self.steps += n[2]; self.checks += n[3]; self.truncated |= n[4] != 0; self.unknowns += n[5]; self.fails += n[6]; self.weak += n[7];
                continue;
            }
            let Some((k, r)) = l.split_once('\t') else { continue };
            match k {
                "U" => if let Some((n, m)) = r.split_once('\t') { *self.unk.entry(m.into()).or_default() += n.parse::<u64>().unwrap_or(1); },
                "C" => { self.covered.insert(r.into()); }
                "S" => if self.samples.len() < 8 { self.samples.push(r.into()) },
                _ => if self.ends.len() < keep { self.ends.push(r.into()) },
            }
        }
    }
}
fn is_seq_ty(d: &AdtDef) -> bool { native::is_seq_adt(d) }
fn assert_msg(m: &AssertMessage) -> String {
    match m {
        AssertMessage::BoundsCheck { .. } => "index out of bounds".into(),
        AssertMessage::Overflow(op, _, _) => format!("arithmetic overflow ({:?})", op),
        AssertMessage::OverflowNeg(_) => "negation overflow".into(),
        AssertMessage::DivisionByZero(_) | AssertMessage::RemainderByZero(_) => "division by zero".into(),
        _ => "assertion".into(),
    }
}
