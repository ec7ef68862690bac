//! The compiler's `proc_macro` API as uninterpreted operations. A token stream is the sequence of
//! the trees it holds; every other value is the term that records how it was obtained.
use crate::dom::*;
use crate::interp::*;
use crate::native::*;
use crate::state::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::rc::Rc;

fn adt_name(t: Ty) -> Option<String> { match t.kind() { TyKind::RigidTy(RigidTy::Adt(d, _)) => Some(d.name().to_string().replace("pm2_harness::proc_macro::", "proc_macro::")), _ => None } }

/// Integer determined by a term: the same atom for the same term.
pub fn term_int(st: &mut State, t: &TermNode, d: ISet, name: &str) -> Lin {
    let l = st.oplens.clone();
    for (n, x) in l.iter() { if n.op == t.op && st.term_eq(n, t) { return x.clone(); } }
    let x = st.fresh(d, name);
    Rc::make_mut(&mut st.oplens).push((Rc::new(t.clone()), x.clone()));
    x
}

/// An abstract result of type `t` described by the term `n`.
pub fn result(e: &Eng, st: &mut State, n: TermNode, t: Ty) -> R<Val> {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Bool) => Ok(Val::bool(st.ask(n, 2)? == 1)),
        TyKind::RigidTy(RigidTy::Char) => Ok(Val::Int(term_int(st, &n, ISet::new(vec![(0, 0xd7ff), (0xe000, 0x10ffff)]), "char"))),
        TyKind::RigidTy(r @ (RigidTy::Int(_) | RigidTy::Uint(_))) => { let (a, b) = int_range(&r).unwrap(); Ok(Val::Int(term_int(st, &n, ISet::range(a, b), "int"))) }
        TyKind::RigidTy(RigidTy::Tuple(ts)) if ts.is_empty() => Ok(Val::unit()),
        TyKind::RigidTy(RigidTy::Adt(d, a)) => {
            let name = d.name().to_string().replace("pm2_harness::proc_macro::", "proc_macro::");
            let ts = ty_args(&a);
            let part = |n: &TermNode, s: &str, t: Ty| TermNode { op: format!("{}/{}", n.op, s).as_str().into(), args: n.args.clone(), ty: t };
            match name.as_str() {
                "std::string::String" => { let len = opq_len(st, &n, ISet::range(0, 1 << 40)); Ok(Val::Str(Rc::new(vec![Seg::Opq(Rc::new(n), len)]))) }
                "std::option::Option" => { if st.ask(part(&n, "is_some", t), 2)? == 0 { return Ok(Val::none()); } let x = result(e, st, part(&n, "some", ts[0]), ts[0])?; Ok(Val::some(x)) }
                "std::result::Result" => { if st.ask(part(&n, "is_ok", t), 2)? == 1 { let x = result(e, st, part(&n, "ok", ts[0]), ts[0])?; Ok(Val::ok(x)) } else { let x = result(e, st, part(&n, "err", ts[1]), ts[1])?; Ok(Val::err(x)) } }
                "std::ops::Range" => { let x = result(e, st, part(&n, "start", ts[0]), ts[0])?; let y = result(e, st, part(&n, "end", ts[0]), ts[0])?; Ok(Val::agg(0, vec![x, y])) }
                "proc_macro::TokenStream" => Ok(Val::seq(vec![Val::Term(Rc::new(n))])),
                "std::vec::Vec" => Ok(Val::Term(Rc::new(n))),
                _ => {
                    if d.kind() == AdtKind::Enum && d.variants().iter().all(|v| v.fields().is_empty()) {
                        let k = st.ask(n, d.variants().len() as u32)?;
                        return Ok(Val::agg(k, vec![]));
                    }
                    Ok(Val::Term(Rc::new(n)))
                }
            }
        }
        _ => Ok(Val::Term(Rc::new(n))),
    }
}
/// Value of an argument with references replaced by what they refer to.
pub fn freeze(e: &Eng, st: &mut State, v: &Val, t: Ty) -> R<Val> {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Ref(_, x, _)) => match x.kind() {
            TyKind::RigidTy(RigidTy::Str) => Ok(Val::Str(Rc::new(st.str_of(v)?))),
            TyKind::RigidTy(RigidTy::Slice(_)) => { let p = e.deref(st, v.clone())?; let p = whole(e, st, &p)?; let (a, l) = bounds_of(&p)?; if let Val::Str(s) = st.read(&Ptr::thin(p.slot, p.path.clone()))? { if let Some(x) = st.segs_slice(&s, &a, &l)? { return Ok(Val::Str(Rc::new(x))); } } let (a, l) = (st.enumerate(&a, 512)? as usize, st.enumerate(&l, 512)? as usize); let s = seq_at(st, &p)?; Ok(Val::seq(s[a..a + l].to_vec())) }
            _ => { let p = e.deref(st, v.clone())?; st.read(&p) }
        },
        _ => Ok(v.clone()),
    }
}
fn inputs(inst: Instance) -> Vec<Ty> { inst.ty().kind().fn_sig().unwrap().skip_binder().inputs().to_vec() }

fn generic(e: &Eng, st: &mut State, cx: &CallCx) -> R<Ret> {
    let ins = inputs(cx.inst);
    let mut args = vec![];
    for (i, a) in cx.args.iter().enumerate() { args.push(freeze(e, st, a, ins[i])?); }
    let rty = cx.rty.unwrap();
    // generic arguments matter (ranges etc.): part of the operation's identity
    let mut op = cx.name.to_string();
    for t in &cx.targs { op += &format!("<{}>", t); }
    // a.located_at(b) is b.resolved_at(a)
    if cx.name == "proc_macro::Span::located_at" && args.len() == 2 { args.swap(0, 1); op = "proc_macro::Span::resolved_at".to_string(); }
    // the position of a span is the position of its start
    if matches!(cx.name, "proc_macro::Span::line" | "proc_macro::Span::column" | "proc_macro::Span::start") {
        if let Val::Term(t) = &args[0] {
            if t.op.as_ref() == "proc_macro::Span::start" { args = t.args.clone(); }
            else if t.op.as_ref() == "proc_macro::Span::end" && cx.name == "proc_macro::Span::start" { return Ok(Ret::Val(args[0].clone())); }
        }
    }
    // equality is symmetric: the question already answered the other way round is the same question
    if cx.name.ends_with("::eq") && args.len() == 2 {
        let m = TermNode { op: op.as_str().into(), args: vec![args[1].clone(), args[0].clone()], ty: rty };
        if st.fact(&m).is_some() { args.swap(0, 1); }
    }
    let n = TermNode { op: op.as_str().into(), args, ty: rty };
    if std::env::var_os("PM2_TRACE").is_some() { eprintln!("pm call {}", cx.name); }
    let is_parse = cx.name.ends_with("FromStr>::from_str");
    let mutable = matches!(ins.first().map(|t| t.kind()), Some(TyKind::RigidTy(RigidTy::Ref(_, _, Mutability::Mut))));
    if is_parse {
        let q = TermNode { op: format!("{}/panics", n.op).as_str().into(), args: n.args.clone(), ty: rty };
        let p = st.ask(q, 2)?;
        Rc::make_mut(&mut st.pm_calls).push(Rc::new(n.clone()));
        if p == 1 { return Err(Stop::Panic("the compiler's parser panicked".into())); }
    }
    let r = result(e, st, n.clone(), rty)?;
    if mutable {
        let p = e.deref(st, cx.args[0].clone())?;
        let t = match ins[0].kind() { TyKind::RigidTy(RigidTy::Ref(_, x, _)) => x, _ => unreachable!() };
        st.write(&p, Val::Term(Rc::new(TermNode { op: format!("{}/self", n.op).as_str().into(), args: n.args.clone(), ty: t })))?;
    }
    if !is_parse { Rc::make_mut(&mut st.pm_calls).push(Rc::new(n)); }
    Ok(Ret::Val(r))
}
use rustc_public::mir::Mutability;

fn seq_of(e: &Eng, st: &mut State, x: &Val) -> R<Rc<Vec<Val>>> {
    match x {
        Val::Seq(s) => Ok(s.clone()),
        Val::Ptr(_) => { let p = e.deref(st, x.clone())?; let x = st.read(&p)?; seq_of(e, st, &x) }
        Val::Term(_) => Ok(Rc::new(vec![x.clone()])),
        Val::Agg(a) if a.f.len() == 1 => { let y = a.f[0].clone(); seq_of(e, st, &y) }
        _ => unk("compiler token stream expected"),
    }
}
pub fn classify(e: &Eng, inst: Instance, name: &str) -> Kind {
    use Kind::*;
    if name == "proc_macro::is_available" {
        return Native(|_, st, _| { Rc::make_mut(&mut st.pm_calls); match st.flags.get("available") { Some(x) => v(x.clone()), None => v(Val::bool(false)) } });
    }
    let t0 = inputs(inst).first().map(|t| match t.kind() { TyKind::RigidTy(RigidTy::Ref(_, x, _)) => x, _ => *t });
    let n0 = t0.and_then(adt_name).unwrap_or_default();
    let ret = inst.ty().kind().fn_sig().map(|s| s.skip_binder().output()).and_then(adt_name).unwrap_or_default();
    if name.ends_with("std::clone::Clone>::clone") { return Native(|e, st, cx| { let p = pa(e, st, cx, 0)?; v(st.read(&p)?) }); }
    if name.ends_with("std::fmt::Display>::fmt") || name.ends_with("std::fmt::Debug>::fmt") {
        return Native(|e, st, cx| {
            let p = pa(e, st, cx, 0)?;
            let x = st.read(&p)?;
            let tn = TermNode { op: cx.name.into(), args: vec![x], ty: st.unit_ty() };
            let l = opq_len(st, &tn, ISet::range(0, 1 << 40));
            fmt_write_text(e, st, &cx.args[1].clone(), vec![Seg::Opq(Rc::new(tn), l)])
        });
    }
    if name.ends_with("std::string::ToString>::to_string") {
        return Native(|e, st, cx| {
            let p = pa(e, st, cx, 0)?;
            let x = st.read(&p)?;
            let d = cx.name.replace("std::string::ToString>::to_string", "std::fmt::Display>::fmt");
            let tn = TermNode { op: d.as_str().into(), args: vec![x], ty: st.unit_ty() };
            let l = opq_len(st, &tn, ISet::range(0, 1 << 40));
            v(Val::Str(Rc::new(vec![Seg::Opq(Rc::new(tn), l)])))
        });
    }
    if n0 == "proc_macro::TokenStream" || ret == "proc_macro::TokenStream" || n0 == "proc_macro::token_stream::IntoIter" {
        let m = name.rsplit("::").next().unwrap();
        if name.contains("std::iter::Extend<") {
            let k = if name.contains("Extend<proc_macro::TokenTree>") { "pm_extend_tt" } else if name.contains("Extend<proc_macro::TokenStream>") { "pm_extend_ts" } else { "pm_extend_into" };
            return shim(e, k, if k == "pm_extend_into" { Sel::Idx(vec![0]) } else { Sel::Idx(vec![0]) });
        }
        if name.contains("std::iter::FromIterator<") {
            let k = if name.contains("FromIterator<proc_macro::TokenTree>") { "pm_from_iter_tt" } else { "pm_from_iter_ts" };
            return shim(e, k, Sel::Idx(vec![0]));
        }
        match m {
            "new" | "default" if n0.is_empty() => return Native(|_, _, _| v(Val::seq(vec![]))),
            "is_empty" => return Native(|e, st, cx| {
                let s = seq_of(e, st, &cx.args[0])?;
                for x in s.iter() {
                    match x {
                        Val::Term(t) if t.op.as_ref() != "tree" => { let q = TermNode { op: "stream is empty".into(), args: vec![x.clone()], ty: st.unit_ty() }; if st.ask(q, 2)? == 0 { return v(Val::bool(false)); } }
                        _ => return v(Val::bool(false)),
                    }
                }
                v(Val::bool(true))
            }),
            "from" => return Native(|_, _, cx| v(Val::seq(vec![cx.args[0].clone()]))),
            "into_iter" if n0 == "proc_macro::TokenStream" => return Native(|e, st, cx| { let s = seq_of(e, st, &cx.args[0])?; v(Val::agg(0, vec![Val::Seq(s)])) }),
            "next" => return Native(|e, st, cx| {
                let p = pa(e, st, cx, 0)?;
                let q = Ptr::thin(p.slot, p.path.clone()).push(PE::Field(0));
                let x = st.read(&q)?;
                let s = seq_of(e, st, &x)?;
                let mut s = (*s).clone();
                loop {
                    if s.is_empty() { return v(Val::none()); }
                    match &s[0] {
                        Val::Term(t) if t.op.as_ref() != "tree" => { let qn = TermNode { op: "stream is empty".into(), args: vec![s[0].clone()], ty: st.unit_ty() }; if st.ask(qn, 2)? == 1 { s.remove(0); continue; } return unk("iteration over an abstract compiler stream"); }
                        _ => { let h = s.remove(0); st.write(&q, Val::seq(s))?; return v(Val::some(h)); }
                    }
                }
            }),
            "size_hint" => return Native(|e, st, cx| {
                let p = pa(e, st, cx, 0)?;
                let x = st.read(&Ptr::thin(p.slot, p.path.clone()).push(PE::Field(0)))?;
                let s = seq_of(e, st, &x)?;
                if s.iter().any(|x| matches!(x, Val::Term(t) if t.op.as_ref() != "tree")) { return unk("size of an abstract compiler stream"); }
                let n = s.len() as i128;
                v(Val::agg(0, vec![Val::k(n), Val::some(Val::k(n))]))
            }),
            _ => {}
        }
    }
    // a punct is its character, spacing and span
    if let Some(m) = name.strip_prefix("proc_macro::Punct::") {
        match m {
            "new" => return Native(|e, st, cx| { let _ = e; let s = Val::Term(Rc::new(TermNode { op: "proc_macro::Span::call_site".into(), args: vec![], ty: st.unit_ty() })); v(Val::agg(0, vec![cx.args[0].clone(), cx.args[1].clone(), s])) }),
            "as_char" => return Native(|e, st, cx| { let p = pa(e, st, cx, 0)?; v(st.read(&Ptr::thin(p.slot, p.path.clone()).push(PE::Field(0)))?) }),
            "spacing" => return Native(|e, st, cx| { let p = pa(e, st, cx, 0)?; v(st.read(&Ptr::thin(p.slot, p.path.clone()).push(PE::Field(1)))?) }),
            "span" => return Native(|e, st, cx| { let p = pa(e, st, cx, 0)?; v(st.read(&Ptr::thin(p.slot, p.path.clone()).push(PE::Field(2)))?) }),
            "set_span" => return Native(|e, st, cx| { let p = pa(e, st, cx, 0)?; st.write(&Ptr::thin(p.slot, p.path.clone()).push(PE::Field(2)), cx.args[1].clone())?; unit() }),
            _ => {}
        }
    }
    if (n0 == "proc_macro::Spacing" || n0 == "proc_macro::Delimiter") && (name.ends_with("PartialEq>::eq") || name.ends_with("PartialEq>::ne")) {
        return Native(|e, st, cx| {
            let (p, q) = (pa(e, st, cx, 0)?, pa(e, st, cx, 1)?);
            match (st.read(&p)?, st.read(&q)?) { (Val::Agg(a), Val::Agg(b)) => v(Val::bool((a.var == b.var) == cx.name.ends_with("::eq"))), _ => unk("comparison of compiler enums") }
        });
    }
    if n0 == "proc_macro::TokenTree" || ret == "proc_macro::TokenTree" {
        // From<Group> for TokenTree etc. and the accessors of the public enum
        if inst.has_body() { return Body; }
    }
    Native(generic)
}
