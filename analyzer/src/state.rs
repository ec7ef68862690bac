//! Abstract values and abstract states.
use crate::dom::*;
use rustc_public::mir::mono::Instance;
use rustc_public::mir::{Body, UnwindAction};
use rustc_public::ty::Ty;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

pub type SlotId = u32;
pub type R<T> = Result<T, Stop>;

/// Why the evaluation of one instruction did not complete normally.
pub enum Stop {
    /// The abstract state must be partitioned; the instruction is re-evaluated in each part.
    Split(Vec<Vec<Refine>>),
    Panic(String),
    Unknown(String),
    Fail(String),
    Infeasible,
    Uncaught(String),
}
pub fn unk<T>(s: impl Into<String>) -> R<T> { Err(Stop::Unknown(s.into())) }

#[derive(Clone, Debug)]
pub enum Refine {
    Dom(AtomId, ISet),
    Subst(AtomId, Lin),
    Constr(Lin, ISet),
    Fact(Rc<TermNode>, u32),
}
impl Refine {
    /// Mentions a value that does not exist among the first `n`.
    pub fn unborn(&self, n: usize) -> bool { let l = |l: &Lin| l.t.iter().any(|t| t.0 as usize >= n); match self { Refine::Dom(a, _) => *a as usize >= n, Refine::Subst(a, x) => *a as usize >= n || l(x), Refine::Constr(x, _) => l(x), Refine::Fact(..) => false } }
}

#[derive(Clone, Debug)]
pub enum Val {
    Undef,
    Int(Lin),
    Agg(Rc<Agg>),
    Seq(Rc<Vec<Val>>),
    Ptr(Rc<Ptr>),
    Term(Rc<TermNode>),
    Str(Rc<Vec<Seg>>),
    Fn(Instance),
    Fmt(Rc<Vec<FmtPiece>>),
    Top,
}
#[derive(Clone, Debug)]
pub struct Agg { pub var: u32, pub f: Vec<Val> }

/// An uninterpreted value: the result of an operation of the compiler's API (or of another
/// operation that is deliberately left abstract) applied to argument values.
#[derive(Clone, Debug)]
pub struct TermNode { pub op: Rc<str>, pub args: Vec<Val>, pub ty: Ty }

#[derive(Clone, Debug)]
pub struct Ptr { pub slot: SlotId, pub path: Vec<PE>, pub meta: Meta }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum PE { Field(u32), Down(u32), Elem(i64), Byte(Lin) }
#[derive(Clone, Debug, PartialEq)]
pub enum Meta { None, Slice(Lin, Lin), Vtable(Ty) }

/// Piece of string content.
#[derive(Clone, Debug)]
pub enum Seg {
    /// One character; `org` = (brick, index) when it was materialised from a repetition.
    Ch(Lin, Option<(u32, Lin)>),
    /// `n` consecutive characters of brick `b` starting with number `o`.
    Rep(u32, Lin, Lin),
    /// Text of an uninterpreted value; the Lin is its length in bytes.
    Opq(Rc<TermNode>, Lin),
}
#[derive(Clone, Debug)]
pub enum FmtPiece { Lit(Rc<Vec<Seg>>), Arg { ptr: Val, f: Instance, flags: u32, width: Option<u16> , prec: Option<u16>, fill: char } }

#[derive(Clone, Debug)]
pub struct AtomInfo { pub dom: ISet, pub subst: Option<Lin>, pub weak: bool, pub name: Rc<str> }
#[derive(Clone, Debug)]
pub struct BrickInfo { pub dom: ISet, pub w: i128 }

pub struct BodyInfo {
    pub inst: Instance,
    pub name: Rc<str>,
    pub krate: String,
    pub body: Body,
    pub heads: HashSet<usize>,
    pub tys: RefCell<HashMap<usize, Rc<Vec<Ty>>>>,
    pub opty: RefCell<HashMap<usize, Ty>>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum After { Nothing, WrapOk, RetBool, /** A step of another thread: the interrupted call is taken up again. */ Resume }

#[derive(Clone)]
pub struct Frame {
    pub b: Rc<BodyInfo>,
    pub bb: usize,
    pub st: usize,
    pub locals: Rc<Vec<SlotId>>,
    pub dest: Option<Rc<Ptr>>,
    pub ret: Option<usize>,
    pub unwind: UnwindAction,
    pub catch: bool,
    pub after: After,
    pub cleanup: bool,
    pub loc: Rc<str>,
}

#[derive(Clone)]
pub struct State {
    pub slots: Vec<Option<Rc<Val>>>,
    pub free: Vec<SlotId>,
    pub frames: Vec<Frame>,
    pub atoms: Rc<Vec<AtomInfo>>,
    pub bricks: Rc<Vec<BrickInfo>>,
    pub constrs: Rc<Vec<(Lin, ISet)>>,
    pub facts: Rc<Vec<(Rc<TermNode>, u32)>>,
    pub globals: Rc<HashMap<String, SlotId>>,
    pub consts: Rc<HashMap<u64, SlotId>>,
    pub mats: Rc<Vec<(u32, Lin, AtomId)>>,
    pub inputs: Rc<Vec<(String, Val)>>,
    pub trace: Rc<Vec<Rc<str>>>,
    pub weak: Option<Rc<str>>,
    pub panicking: Option<Rc<str>>,
    pub panic_at: Option<Rc<str>>,
    pub steps: u64,
    /// The step at which the code under analysis counts as not ending (0: none).
    pub limit: u64,
    pub patience: u64,
    pub depth_max: usize,
    pub pm_calls: Rc<Vec<Rc<TermNode>>>,
    pub flags: Rc<HashMap<String, Val>>,
    pub widened: bool,
    pub oplens: Rc<Vec<(Rc<TermNode>, Lin)>>,
    pub checks: u64,
    /// The slots of heap allocations made by the program.
    pub heap: Rc<Vec<SlotId>>,
    /// Undo log of slot changes while a native model runs.
    pub journal: Option<Vec<Undo>>,
}
#[derive(Clone)]
pub enum Undo { Set(SlotId, Option<Rc<Val>>), /// the text or sequence there had this length
    Short(Ptr, usize), Pushed, Popped(SlotId), Freed }
pub struct Snapshot {
    atoms: Rc<Vec<AtomInfo>>, bricks: Rc<Vec<BrickInfo>>, constrs: Rc<Vec<(Lin, ISet)>>, facts: Rc<Vec<(Rc<TermNode>, u32)>>, globals: Rc<HashMap<String, SlotId>>, consts: Rc<HashMap<u64, SlotId>>,
    mats: Rc<Vec<(u32, Lin, AtomId)>>, inputs: Rc<Vec<(String, Val)>>, pm_calls: Rc<Vec<Rc<TermNode>>>, flags: Rc<HashMap<String, Val>>, oplens: Rc<Vec<(Rc<TermNode>, Lin)>>, weak: Option<Rc<str>>, depth_max: usize, checks: u64, heap: Rc<Vec<SlotId>>,
}

impl Val {
    pub fn k(c: i128) -> Val { Val::Int(Lin::k(c)) }
    pub fn bool(b: bool) -> Val { Val::k(b as i128) }
    pub fn unit() -> Val { Val::agg(0, vec![]) }
    pub fn agg(var: u32, f: Vec<Val>) -> Val { Val::Agg(Rc::new(Agg { var, f })) }
    pub fn seq(f: Vec<Val>) -> Val { Val::Seq(Rc::new(f)) }
    pub fn some(v: Val) -> Val { Val::agg(1, vec![v]) }
    pub fn none() -> Val { Val::agg(0, vec![]) }
    pub fn ok(v: Val) -> Val { Val::agg(0, vec![v]) }
    pub fn err(v: Val) -> Val { Val::agg(1, vec![v]) }
    pub fn str(s: &str) -> Val { Val::Str(Rc::new(s.chars().map(|c| Seg::Ch(Lin::k(c as u32 as i128), None)).collect())) }
    pub fn ptr(p: Ptr) -> Val { Val::Ptr(Rc::new(p)) }
}
impl Ptr {
    pub fn thin(slot: SlotId, path: Vec<PE>) -> Ptr { Ptr { slot, path, meta: Meta::None } }
    pub fn push(&self, e: PE) -> Ptr { let mut p = self.path.clone(); p.push(e); Ptr { slot: self.slot, path: p, meta: Meta::None } }
}

impl State {
    pub fn new() -> State {
        State { slots: vec![], free: vec![], frames: vec![], atoms: Rc::new(vec![]), bricks: Rc::new(vec![]), constrs: Rc::new(vec![]),
            facts: Rc::new(vec![]), globals: Rc::new(HashMap::new()), consts: Rc::new(HashMap::new()), mats: Rc::new(vec![]),
            inputs: Rc::new(vec![]), trace: Rc::new(vec![]), weak: None, panicking: None, panic_at: None, steps: 0, limit: 0, patience: 0, depth_max: 0, pm_calls: Rc::new(vec![]),
            flags: Rc::new(HashMap::new()), widened: false, oplens: Rc::new(vec![]), checks: 0, heap: Rc::new(vec![]), journal: None }
    }
    pub fn alloc(&mut self, v: Val) -> SlotId {
        if let Some(s) = self.free.pop() {
            if let Some(j) = &mut self.journal { j.push(Undo::Popped(s)); }
            self.slots[s as usize] = Some(Rc::new(v));
            return s;
        }
        if let Some(j) = &mut self.journal { j.push(Undo::Pushed); }
        self.slots.push(Some(Rc::new(v)));
        (self.slots.len() - 1) as SlotId
    }
    pub fn dealloc(&mut self, s: SlotId) {
        if let Some(j) = &mut self.journal { j.push(Undo::Set(s, self.slots[s as usize].clone())); j.push(Undo::Freed); }
        self.slots[s as usize] = None;
        self.free.push(s);
    }
    /// Free a heap slot: the slot number is never reused, so a dangling pointer stays detectable.
    pub fn alloc_heap(&mut self, v: Val) -> SlotId { let s = self.alloc(v); Rc::make_mut(&mut self.heap).push(s); s }
    pub fn kill(&mut self, s: SlotId) {
        if let Some(j) = &mut self.journal { j.push(Undo::Set(s, self.slots[s as usize].clone())); }
        self.slots[s as usize] = None;
    }
    pub fn begin(&mut self) -> Snapshot {
        self.journal = Some(vec![]);
        Snapshot { atoms: self.atoms.clone(), bricks: self.bricks.clone(), constrs: self.constrs.clone(), facts: self.facts.clone(), globals: self.globals.clone(), consts: self.consts.clone(), mats: self.mats.clone(), inputs: self.inputs.clone(), pm_calls: self.pm_calls.clone(), flags: self.flags.clone(), oplens: self.oplens.clone(), weak: self.weak.clone(), depth_max: self.depth_max, checks: self.checks, heap: self.heap.clone() }
    }
    pub fn rollback(&mut self, s: Snapshot) {
        if let Some(j) = self.journal.take() {
            for u in j.into_iter().rev() {
                match u {
                    Undo::Set(i, v) => self.slots[i as usize] = v,
                    Undo::Short(p, n) => match self.place(&p) { Some(Val::Str(s)) => Rc::make_mut(s).truncate(n), Some(Val::Seq(s)) => Rc::make_mut(s).truncate(n), _ => {} },
                    Undo::Pushed => { self.slots.pop(); }
                    Undo::Popped(i) => { self.slots[i as usize] = None; self.free.push(i); }
                    Undo::Freed => { self.free.pop(); }
                }
            }
        }
        self.atoms = s.atoms; self.bricks = s.bricks; self.constrs = s.constrs; self.facts = s.facts; self.globals = s.globals; self.consts = s.consts; self.mats = s.mats; self.inputs = s.inputs; self.pm_calls = s.pm_calls; self.flags = s.flags; self.oplens = s.oplens; self.weak = s.weak; self.depth_max = s.depth_max; self.checks = s.checks; self.heap = s.heap;
    }

    // ---- atoms -------------------------------------------------------------------------
    pub fn fresh(&mut self, dom: ISet, name: &str) -> Lin {
        if let Some(c) = dom.as_single() { return Lin::k(c); }
        let a = Rc::make_mut(&mut self.atoms);
        a.push(AtomInfo { dom, subst: None, weak: false, name: name.into() });
        Lin::atom((a.len() - 1) as AtomId)
    }
    pub fn fresh_weak(&mut self, dom: ISet, name: &str) -> Lin {
        let l = self.fresh(dom, name);
        if let Some(&(a, _)) = l.t.first() { Rc::make_mut(&mut self.atoms)[a as usize].weak = true; }
        l
    }
    pub fn norm(&self, l: &Lin) -> Lin {
        if l.t.is_empty() { return l.clone(); }
        let mut cur = l.clone();
        loop {
            let mut hit = None;
            for &(a, _) in &cur.t { if let Some(s) = &self.atoms[a as usize].subst { hit = Some((a, s.clone())); break; } }
            match hit { None => return cur, Some((a, s)) => cur = cur.subst(a, &s) }
        }
    }
    pub fn bounds(&self, l: &Lin) -> (i128, i128) {
        let (mut lo, mut hi) = (l.c, l.c);
        for &(a, k) in &l.t {
            let d = &self.atoms[a as usize].dom;
            let (x, y) = (d.min(), d.max());
            let (p, q) = if k > 0 { (x, y) } else { (y, x) };
            lo = if p.abs() >= INF || lo <= -INF { -INF } else { (lo + k * p).max(-INF) };
            hi = if q.abs() >= INF || hi >= INF { INF } else { (hi + k * q).min(INF) };
        }
        (lo, hi)
    }
    pub fn is_weak_lin(&self, l: &Lin) -> bool { l.t.iter().any(|&(a, _)| self.atoms[a as usize].weak) }

    /// Decide l ∈ set; splits the state when it is not determined.
    pub fn decide(&mut self, l: &Lin, set: &ISet) -> R<bool> {
        let l = self.norm(l);
        if let Some(c) = l.konst() { return Ok(set.contains(c)); }
        if l.t.len() == 1 {
            let (a, k) = l.t[0];
            let dom = self.atoms[a as usize].dom.clone();
            let want = set.unaffine(k, l.c);
            let t = dom.intersect(&want);
            if t.is_empty() { return Ok(false); }
            let f = dom.minus(&want);
            if f.is_empty() { return Ok(true); }
            return Err(Stop::Split(vec![vec![Refine::Dom(a, t)], vec![Refine::Dom(a, f)]]));
        }
        let (lo, hi) = self.bounds(&l);
        let all = ISet::range(lo, hi);
        if all.subset_of(set) { return Ok(true); }
        if all.intersect(set).is_empty() { return Ok(false); }
        for (cl, cs) in self.constrs.iter() {
            let cl = self.norm(cl);
            let d = l.sub(&cl);
            if let Some(c) = d.konst() {
                // l = cl + c
                let shifted = ISet::new(cs.0.iter().map(|&(a, b)| (if a <= -INF { -INF } else { a + c }, if b >= INF { INF } else { b + c })).collect());
                if shifted.subset_of(set) { return Ok(true); }
                if shifted.intersect(set).is_empty() { return Ok(false); }
            }
            let d = l.add(&cl);
            if let Some(c) = d.konst() {
                let shifted = ISet::new(cs.0.iter().map(|&(a, b)| (if b >= INF { -INF } else { c - b }, if a <= -INF { INF } else { c - a })).collect());
                if shifted.subset_of(set) { return Ok(true); }
                if shifted.intersect(set).is_empty() { return Ok(false); }
            }
        }
        // zone closure
        let (zl, zh) = self.zone_bounds(&l);
        let z = ISet::range(zl.max(lo), zh.min(hi));
        if z.subset_of(set) { return Ok(true); }
        if z.intersect(set).is_empty() { return Ok(false); }
        let (t, f) = (z.intersect(set), z.minus(set));
        let mut r1 = vec![];
        // equality with a unit coefficient: substitute
        if let Some(c) = t.as_single() {
            if let Some(&(a, k)) = l.t.iter().rev().find(|x| x.1.abs() == 1) {
                // k*a + rest = c  =>  a = (c - rest)/k
                let rest = l.subst(a, &Lin::k(0));
                let v = Lin::k(c).sub(&rest).scale(k);
                r1.push(Refine::Subst(a, v));
            }
        }
        if r1.is_empty() { r1.push(Refine::Constr(l.clone(), t)); }
        Err(Stop::Split(vec![r1, vec![Refine::Constr(l, f)]]))
    }
    /// Bounds of a difference x - y + c from the recorded difference constraints.
    fn zone_bounds(&self, l: &Lin) -> (i128, i128) {
        if l.t.len() != 2 || l.t[0].1 * l.t[1].1 != -1 { return (-INF, INF); }
        let (p, n) = if l.t[0].1 == 1 { (l.t[0].0, l.t[1].0) } else { (l.t[1].0, l.t[0].0) };
        let (g, ids) = self.zone(&[p, n]);
        let ip = ids.iter().position(|x| *x == Some(p)).unwrap();
        let in_ = ids.iter().position(|x| *x == Some(n)).unwrap();
        let hi = g[ip][in_];
        let lo = g[in_][ip];
        ((if lo >= INF { -INF } else { -lo + l.c }), if hi >= INF { INF } else { hi + l.c })
    }
    /// Difference-bound matrix g[i][j] >= x_i - x_j.
    fn zone(&self, extra: &[AtomId]) -> (Vec<Vec<i128>>, Vec<Option<AtomId>>) {
        let mut ids: Vec<Option<AtomId>> = vec![None];
        for &e in extra { if !ids.contains(&Some(e)) { ids.push(Some(e)); } }
        let cs: Vec<(Lin, ISet)> = self.constrs.iter().map(|(l, s)| (self.norm(l), s.clone())).collect();
        for (l, _) in &cs { if l.t.len() == 2 && l.t[0].1 * l.t[1].1 == -1 { for &(a, _) in &l.t { if !ids.contains(&Some(a)) { ids.push(Some(a)); } } } }
        let n = ids.len();
        let mut g = vec![vec![INF; n]; n];
        for i in 0..n { g[i][i] = 0; }
        for i in 1..n {
            let d = &self.atoms[ids[i].unwrap() as usize].dom;
            g[i][0] = d.max();
            g[0][i] = if d.min() <= -INF { INF } else { -d.min() };
        }
        for (l, s) in &cs {
            if s.is_empty() { continue; }
            if l.t.len() == 2 && l.t[0].1 * l.t[1].1 == -1 {
                let (p, q) = if l.t[0].1 == 1 { (l.t[0].0, l.t[1].0) } else { (l.t[1].0, l.t[0].0) };
                let (i, j) = (ids.iter().position(|x| *x == Some(p)).unwrap(), ids.iter().position(|x| *x == Some(q)).unwrap());
                if s.max() < INF { g[i][j] = g[i][j].min(s.max() - l.c); }
                if s.min() > -INF { g[j][i] = g[j][i].min(-(s.min() - l.c)); }
            }
        }
        for k in 0..n { for i in 0..n { for j in 0..n {
            if g[i][k] < INF && g[k][j] < INF { let v = g[i][k] + g[k][j]; if v < g[i][j] { g[i][j] = v; } }
        } } }
        (g, ids)
    }
    fn zone_feasible(&self) -> bool {
        let (g, _) = self.zone(&[]);
        (0..g.len()).all(|i| g[i][i] >= 0)
    }
    pub fn apply(&mut self, rs: &[Refine]) -> bool {
        for r in rs {
            match r {
                Refine::Dom(a, d) => {
                    let at = Rc::make_mut(&mut self.atoms);
                    let i = &mut at[*a as usize];
                    i.dom = d.clone();
                    if i.weak { self.weak = Some("refined an approximated value".into()); }
                    if d.is_empty() { return false; }
                    if let Some(c) = d.as_single() { at[*a as usize].subst = Some(Lin::k(c)); }
                    if !self.recheck() { return false; }
                }
                Refine::Subst(a, v) => {
                    let v = self.norm(v);
                    let dom = self.atoms[*a as usize].dom.clone();
                    let w = self.atoms[*a as usize].weak || self.is_weak_lin(&v);
                    if w { self.weak = Some("refined an approximated value".into()); }
                    Rc::make_mut(&mut self.atoms)[*a as usize].subst = Some(v.clone());
                    // the substituted value must stay in the atom's domain
                    if v.t.is_empty() { if !dom.contains(v.c) { return false; } }
                    else if v.t.len() == 1 {
                        let (b, k) = v.t[0];
                        let nd = self.atoms[b as usize].dom.intersect(&dom.unaffine(k, v.c));
                        if nd.is_empty() { return false; }
                        let at = Rc::make_mut(&mut self.atoms);
                        at[b as usize].dom = nd.clone();
                        if let Some(c) = nd.as_single() { at[b as usize].subst = Some(Lin::k(c)); }
                    } else {
                        let (lo, hi) = self.bounds(&v);
                        let r = ISet::range(lo, hi);
                        if r.intersect(&dom).is_empty() { return false; }
                        if !r.subset_of(&dom) { Rc::make_mut(&mut self.constrs).push((v, dom)); }
                    }
                    if !self.recheck() { return false; }
                }
                Refine::Constr(l, s) => {
                    Rc::make_mut(&mut self.constrs).push((l.clone(), s.clone()));
                    if !self.recheck() { return false; }
                    let diff = l.t.len() == 2 && l.t[0].1 * l.t[1].1 == -1;
                    if !diff { self.weak = Some("kept a non-difference constraint".into()); }
                }
                Refine::Fact(t, v) => Rc::make_mut(&mut self.facts).push((t.clone(), *v)),
            }
        }
        true
    }
    /// Re-evaluate recorded constraints after a refinement; false if one is violated.
    fn recheck(&mut self) -> bool {
        if self.constrs.is_empty() { return true; }
        for _ in 0..4 {
            let cs = self.constrs.clone();
            let mut keep = vec![];
            let mut changed = false;
            for (l, s) in cs.iter() {
                let l2 = self.norm(l);
                if let Some(c) = l2.konst() { if !s.contains(c) { return false; } changed = true; continue; }
                if l2.t.len() == 1 {
                    let (a, k) = l2.t[0];
                    let nd = self.atoms[a as usize].dom.intersect(&s.unaffine(k, l2.c));
                    if nd.is_empty() { return false; }
                    let at = Rc::make_mut(&mut self.atoms);
                    at[a as usize].dom = nd.clone();
                    if let Some(c) = nd.as_single() { at[a as usize].subst = Some(Lin::k(c)); }
                    changed = true;
                    continue;
                }
                let (lo, hi) = self.bounds(&l2);
                if ISet::range(lo, hi).intersect(s).is_empty() { return false; }
                keep.push((l2, s.clone()));
            }
            self.constrs = Rc::new(keep);
            if !changed { break; }
        }
        self.zone_feasible()
    }
    /// Pick one concrete value of `l`, splitting over all of them.
    pub fn enumerate(&mut self, l: &Lin, limit: i128) -> R<i128> {
        let l = self.norm(l);
        if let Some(c) = l.konst() { return Ok(c); }
        if l.t.len() == 1 {
            let (a, _) = l.t[0];
            let d = self.atoms[a as usize].dom.clone();
            if d.count() <= limit {
                let mut alts = vec![];
                for &(x, y) in d.0.iter() { for v in x..=y { alts.push(vec![Refine::Dom(a, ISet::single(v))]); } }
                return Err(Stop::Split(alts));
            }
        }
        unk("enumeration of a large domain")
    }
    pub fn fact(&self, t: &TermNode) -> Option<u32> {
        for (n, v) in self.facts.iter() { if self.term_eq(n, t) { return Some(*v); } }
        None
    }
    pub fn term_eq(&self, a: &TermNode, b: &TermNode) -> bool {
        std::ptr::eq(a, b) || (a.op == b.op && a.ty == b.ty && a.args.len() == b.args.len() && a.args.iter().zip(&b.args).all(|(x, y)| self.val_same(x, y)))
    }
    /// Structural identity of frozen values.
    pub fn val_same(&self, a: &Val, b: &Val) -> bool {
        match (a, b) {
            (Val::Int(x), Val::Int(y)) => self.norm(x) == self.norm(y),
            (Val::Agg(x), Val::Agg(y)) => Rc::ptr_eq(x, y) || (x.var == y.var && x.f.len() == y.f.len() && x.f.iter().zip(&y.f).all(|(p, q)| self.val_same(p, q))),
            (Val::Seq(x), Val::Seq(y)) => Rc::ptr_eq(x, y) || (x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| self.val_same(p, q))),
            (Val::Term(x), Val::Term(y)) => Rc::ptr_eq(x, y) || self.term_eq(x, y),
            (Val::Str(x), Val::Str(y)) => self.segs_same(x, y),
            (Val::Fn(x), Val::Fn(y)) => x == y,
            (Val::Undef, Val::Undef) => true,
            (Val::Ptr(x), Val::Ptr(y)) => x.slot == y.slot && x.path == y.path && x.meta == y.meta,
            _ => false,
        }
    }
    pub fn segs_same(&self, x: &[Seg], y: &[Seg]) -> bool {
        let (x, y) = (self.merge_segs(x), self.merge_segs(y));
        x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| match (p, q) {
            (Seg::Ch(a, _), Seg::Ch(b, _)) => self.norm(a) == self.norm(b),
            (Seg::Rep(b1, o1, n1), Seg::Rep(b2, o2, n2)) => b1 == b2 && self.norm(o1) == self.norm(o2) && self.norm(n1) == self.norm(n2),
            (Seg::Opq(a, l1), Seg::Opq(b, l2)) => self.norm(l1) == self.norm(l2) && self.term_eq(a, b),
            _ => false,
        })
    }
    /// Re-join characters that were materialised from a brick (used for comparison only).
    pub fn merge_segs(&self, x: &[Seg]) -> Vec<Seg> {
        let mut out: Vec<Seg> = Vec::with_capacity(x.len());
        for s in x {
            let (b, o, n) = match s {
                Seg::Ch(_, Some((b, i))) => (*b, self.norm(i), Lin::k(1)),
                Seg::Rep(b, o, n) => (*b, self.norm(o), self.norm(n)),
                Seg::Opq(_, l) if self.norm(l) == Lin::k(0) => continue,
                _ => { out.push(s.clone()); continue; }
            };
            if n == Lin::k(0) { continue; }
            if let Some(Seg::Rep(b0, o0, n0)) = out.last_mut() {
                if *b0 == b && o0.add(n0) == o { *n0 = n0.add(&n); continue; }
            }
            out.push(Seg::Rep(b, o, n));
        }
        out
    }
}
