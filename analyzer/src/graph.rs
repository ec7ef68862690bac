//! Call graph of monomorphic instances: recursion reachable from a function.
use crate::interp::*;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::collections::{BTreeSet, HashMap, HashSet};

/// Callees of an instance: resolved calls, functions and closures whose address is taken. Drop glue is left out.
fn callees(i: Instance) -> Vec<Instance> {
    let mut out = vec![];
    if !(i.has_body() || matches!(i.kind, InstanceKind::Shim)) { return out; }
    let Some(b) = i.body() else { return out };
    for bb in &b.blocks {
        for s in &bb.statements {
            if let StatementKind::Assign(_, Rvalue::Cast(CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_) | PointerCoercion::ClosureFnPointer(_)), op, _)) = &s.kind {
                if let Ok(t) = op.ty(b.locals()) {
                    match t.kind() {
                        TyKind::RigidTy(RigidTy::FnDef(d, a)) => if let Ok(j) = Instance::resolve_for_fn_ptr(d, &a) { out.push(j) },
                        TyKind::RigidTy(RigidTy::Closure(d, a)) => if let Ok(j) = Instance::resolve_closure(d, &a, ClosureKind::FnOnce) { out.push(j) },
                        _ => {}
                    }
                }
            }
        }
        if let TerminatorKind::Call { func, .. } = &bb.terminator.kind {
            if let Ok(t) = func.ty(b.locals()) {
                if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = t.kind() {
                    if let Ok(j) = Instance::resolve(d, &a) { out.push(j) }
                }
            }
        }
    }
    out
}
/// Functions of the crate on a cycle of the call graph below `root`, and the number of instances visited.
pub fn recursion(e: &Eng, root: Instance) -> (BTreeSet<String>, usize) {
    // Tarjan, iterative
    let mut idx: HashMap<Instance, usize> = HashMap::new();
    let mut low: Vec<usize> = vec![];
    let mut on: HashSet<Instance> = HashSet::new();
    let mut stack: Vec<Instance> = vec![];
    let mut bad = BTreeSet::new();
    let mut work: Vec<(Instance, Vec<Instance>, usize)> = vec![];
    let mut enter = |i: Instance, idx: &mut HashMap<Instance, usize>, low: &mut Vec<usize>, on: &mut HashSet<Instance>, stack: &mut Vec<Instance>| { let n = idx.len(); idx.insert(i, n); low.push(n); on.insert(i); stack.push(i); (i, callees(i), 0usize) };
    work.push(enter(root, &mut idx, &mut low, &mut on, &mut stack));
    while let Some((i, cs, k)) = work.last_mut() {
        let n = idx[i];
        if *k < cs.len() {
            let c = cs[*k];
            *k += 1;
            if c == *i && c.def.krate().name == "proc_macro2" { bad.insert(e.name(c).to_string()); }
            match idx.get(&c) {
                None => { let w = enter(c, &mut idx, &mut low, &mut on, &mut stack); work.push(w); }
                Some(&m) => if on.contains(&c) { low[n] = low[n].min(m); }
            }
        } else {
            let i = *i;
            work.pop();
            if let Some((p, _, _)) = work.last() { let pn = idx[p]; low[pn] = low[pn].min(low[n]); }
            if low[n] == n {
                let mut comp = vec![];
                loop { let x = stack.pop().unwrap(); on.remove(&x); comp.push(x); if x == i { break; } }
                if comp.len() > 1 && comp.iter().any(|x| x.def.krate().name == "proc_macro2") { for x in comp { bad.insert(e.name(x).to_string()); } }
            }
        }
    }
    for i in idx.keys() { if i.def.krate().name == "proc_macro2" { e.covered.borrow_mut().insert(e.name(*i).to_string()); } }
    (bad, idx.len())
}
