//! Operations the obligations use to talk to the analysis.
use crate::dom::*;
use crate::interp::*;
use crate::native::*;
use crate::state::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use std::rc::Rc;

fn name_arg(st: &mut State, x: &Val) -> String {
    match st.str_of(x) { Ok(s) => s.iter().map(|c| match c { Seg::Ch(l, _) => l.konst().and_then(|c| char::from_u32(c as u32)).unwrap_or('?'), _ => '?' }).collect(), Err(_) => "?".into() }
}
fn field(st: &mut State, p: &Ptr, i: u32) -> R<Ptr> { let _ = st; Ok(Ptr::thin(p.slot, p.path.clone()).push(PE::Field(i))) }

pub fn classify(_inst: Instance, name: &str) -> Kind {
    let base = name.split("::<").next().unwrap_or(name);
    let f: NF = match base {
        "fail" => |_, st, cx| { let m = name_arg(st, &cx.args[0]); Err(Stop::Fail(m)) },
        "check" => |e, st, cx| {
            let c = int(e, st, cx, 0)?;
            let ok = st.decide(&c, &ISet::single(1))?;
            st.checks += 1;
            if ok { return unit(); }
            let m = name_arg(st, &cx.args[1]);
            Err(Stop::Fail(m))
        },
        "assume" => |e, st, cx| { let c = int(e, st, cx, 0)?; if st.decide(&c, &ISet::single(1))? { unit() } else { Err(Stop::Infeasible) } },
        "stop" => |_, _, _| Err(Stop::Infeasible),
        "dbg" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let x = st.read(&p)?; eprintln!("DBG {}", st.show(&x)); unit() },
        "dbg_str" => |_, st, cx| { let s = st.str_of(&cx.args[0])?; eprintln!("DBG {}", st.show_segs(&s)); unit() },
        // any_char_in(&[(lo, hi), ...])
        "any_char_in" => |e, st, cx| {
            let p = pa(e, st, cx, 0)?;
            let s = seq_at(st, &p)?;
            let mut r = vec![];
            for x in s.iter() { let Val::Agg(a) = x else { return unk("range list") }; let (l, h) = (e.to_int(st, &a.f[0])?, e.to_int(st, &a.f[1])?); r.push((l.konst().unwrap_or(0), h.konst().unwrap_or(0x10ffff))); }
            let d = ISet::new(r).minus(&ISet::range(0xd800, 0xdfff));
            let l = st.fresh(d, "c");
            v(Val::Int(l))
        },
        // a character of the given table: 0 = any, 1 = XID_Start, 2 = XID_Continue, 3 = White_Space, 4 = alphabetic
        "any_char_table" => |e, st, cx| {
            let k = int(e, st, cx, 0)?.konst().unwrap_or(0);
            let d = match k { 1 => e.tables.xid_start.clone(), 2 => e.tables.xid_continue.clone(), 3 => e.tables.white.clone(), 4 => e.tables.alpha.clone(), _ => ISet::new(vec![(0, 0xd7ff), (0xe000, 0x10ffff)]) };
            let l = st.fresh(d, "c");
            v(Val::Int(l))
        },
        "in_table" => |e, st, cx| {
            let c = int(e, st, cx, 0)?;
            let k = int(e, st, cx, 1)?.konst().unwrap_or(0);
            let d = match k { 0 => &e.tables.xid_start, 1 => &e.tables.xid_continue, 2 => &e.tables.white, _ => return unk("character table") };
            v(Val::bool(st.decide(&c, d)?))
        },
        // recursion(f): the call graph below f (drop glue excluded) must have no cycle through the crate
        "no_recursion" => |e, st, cx| {
            let TyKind::RigidTy(RigidTy::FnDef(d, a)) = cx.targs[0].kind() else { return unk("function expected") };
            let Ok(i) = Instance::resolve(d, &a) else { return unk("function expected") };
            let (bad, n) = crate::graph::recursion(e, i);
            st.checks += n as u64;
            if bad.is_empty() { return unit(); }
            Err(Stop::Fail(format!("recursive cycle in the call graph: {}", bad.into_iter().collect::<Vec<_>>().join(", "))))
        },
        "any" => |_, st, cx| {
            let t = cx.targs[0];
            match t.kind() {
                TyKind::RigidTy(RigidTy::Char) => { let l = st.fresh(ISet::new(vec![(0, 0xd7ff), (0xe000, 0x10ffff)]), "c"); v(Val::Int(l)) }
                TyKind::RigidTy(r) if int_range(&r).is_some() => { let (a, b) = int_range(&r).unwrap(); let l = st.fresh(ISet::range(a, b), "n"); v(Val::Int(l)) }
                _ => { let n = format!("any{}", st.atoms.len()); let _ = st.fresh(ISet::range(0, 1), "id"); v(term(&n, vec![], t)) }
            }
        },
        "any_range" => |e, st, cx| {
            let (a, b) = (int(e, st, cx, 0)?, int(e, st, cx, 1)?);
            let (Some(a), Some(b)) = (a.konst(), b.konst()) else { return unk("any_range bounds") };
            let l = st.fresh(ISet::range(a, b), "n");
            v(Val::Int(l))
        },
        // one of 0..n, each analysed separately
        "choose" => |e, st, cx| {
            let n = int(e, st, cx, 0)?.konst().unwrap_or(1);
            let key = format!("choose@{}", st.frames.iter().map(|f| format!("{}:{}:{}", f.b.name, f.bb, f.st)).collect::<Vec<_>>().join("/"));
            let k = st.flags.get(&format!("n{}", key)).map(|x| match x { Val::Int(l) => l.konst().unwrap_or(0), _ => 0 }).unwrap_or(0);
            let q = TermNode { op: format!("{}#{}", key, k).as_str().into(), args: vec![], ty: st.unit_ty() };
            let r = st.ask(q, n as u32)?;
            Rc::make_mut(&mut st.flags).insert(format!("n{}", key), Val::k(k + 1));
            v(Val::k(r as i128))
        },
        "cstr" => |_, _, cx| v(cx.args[0].clone()),
        "as_str" => |_, st, cx| { let s = st.str_of(&cx.args[0])?; v(st.new_str(s)?) },
        "opaque" => |_, st, cx| { let n = name_arg(st, &cx.args[0]); v(term(&n, vec![], cx.targs[0])) },
        "opaque_stream" => |_, st, cx| { let n = name_arg(st, &cx.args[0]); v(Val::seq(vec![term(&n, vec![], cx.rty.unwrap())])) },
        "opaque_tree" => |_, st, cx| { let n = name_arg(st, &cx.args[0]); v(term("tree", vec![Val::str(&n)], cx.rty.unwrap())) },
        "opaque_string" => |_, st, cx| {
            let n = name_arg(st, &cx.args[0]);
            let tn = TermNode { op: "text".into(), args: vec![Val::str(&n)], ty: st.unit_ty() };
            let l = opq_len(st, &tn, ISet::range(0, 1 << 40));
            v(new_string(vec![Seg::Opq(Rc::new(tn), l)]))
        },
        "input" => |e, st, cx| { let n = name_arg(st, &cx.args[0]); let x = match &cx.args[1] { Val::Ptr(p) if matches!(p.meta, Meta::None) => { let p = e.deref(st, cx.args[1].clone())?; st.read(&p)? } x => x.clone() }; Rc::make_mut(&mut st.inputs).push((n, x)); unit() },
        "input_str" => |_, st, cx| { let n = name_arg(st, &cx.args[0]); let s = match st.str_of(&cx.args[1]) { Ok(s) => s, Err(Stop::Split(a)) => return Err(Stop::Split(a)), Err(_) => vec![] }; Rc::make_mut(&mut st.inputs).push((n, Val::Str(Rc::new(s)))); unit() },
        // structural identity of two abstract values
        "same" => |e, st, cx| {
            let (p, q) = (pa(e, st, cx, 0)?, pa(e, st, cx, 1)?);
            let (a, b) = (st.read(&p)?, st.read(&q)?);
            let (a, b) = (deep(e, st, &a, 8)?, deep(e, st, &b, 8)?);
            if std::env::var_os("PM2_TRACE").is_some() { eprintln!("same? {}\n      {}", st.show(&a), st.show(&b)); }
            v(Val::bool(same(st, &a, &b)?))
        },
        // interfere(f): another thread calls f once, before some later access to shared state or not at all
        "interfere" => |_, st, cx| {
            let TyKind::RigidTy(RigidTy::FnDef(d, a)) = cx.targs[0].kind() else { return unk("function expected") };
            let Ok(i) = Instance::resolve(d, &a) else { return unk("function expected") };
            Rc::make_mut(&mut st.flags).insert("interfere".into(), Val::Fn(i));
            unit()
        },
        "no_more_interference" => |_, st, _| { Rc::make_mut(&mut st.flags).remove("interfere"); unit() },
        // a Once that is running: another thread would wait (covered by its later steps), the same one never gets on
        "once_begin" => |e, st, cx| {
            let p = pa(e, st, cx, 0)?; let k = format!("once-running{}", p.slot);
            if st.flags.contains_key(&k) { return Err(if st.flags.contains_key("interfering") { Stop::Infeasible } else { Stop::Fail("a Once is entered again while it runs: deadlock".into()) }); }
            Rc::make_mut(&mut st.flags).insert(k, Val::k(1)); unit()
        },
        "set_available" => |_, st, cx| { Rc::make_mut(&mut st.flags).insert("available".into(), cx.args[0].clone()); unit() },
        "pm_parses" => |_, st, _| v(Val::k(st.pm_calls.iter().filter(|t| t.op.contains("FromStr>::from_str")).count() as i128)),
        // the characters or bytes a literal denotes
        "decode" => |e, st, cx| { let s = st.str_of(&cx.args[0])?; let k = int(e, st, cx, 1)?.konst().unwrap_or(0); match crate::decode::decode(st, &s, k)? { Some(x) => v(Val::some(Val::seq(x.into_iter().map(Val::Int).collect()))), None => v(Val::none()) } },
        "pm_calls" => |_, st, _| v(Val::k(st.pm_calls.len() as i128)),
        "depth" => |_, st, _| v(Val::k(st.frames.len() as i128)),
        "patience" => |e, st, cx| { st.patience = int(e, st, cx, 0)?.konst().unwrap_or(0) as u64; unit() },
        "must_end" => |e, st, cx| { let n = int(e, st, cx, 0)?.konst().unwrap_or(0) as u64; st.limit = if n == 0 { 0 } else { st.steps + n }; unit() },
        "depth_reset" => |_, st, _| { st.depth_max = st.frames.len(); unit() },
        "panic_at_caller" => |_, st, _| v(Val::bool(st.panic_at.as_deref().map_or(false, |n| n.contains("pm2_harness::") && !n.contains("::shims::")))),
        "depth_max" => |_, st, _| v(Val::k(st.depth_max as i128)),
        "steps" => |_, st, _| v(Val::k(st.steps as i128)),
        // compiler streams
        "pm_push" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let x = cx.args[1].clone(); seq_update(st, &p, |s| { s.push(x); Ok(()) })?; unit() },
        "pm_append" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let Val::Seq(x) = cx.args[1].clone() else { return unk("compiler stream") }; seq_update(st, &p, |s| { s.extend(x.iter().cloned()); Ok(()) })?; unit() },
        // sequences
        "seq_len" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let s = seq_at(st, &p)?; v(Val::k(s.len() as i128)) },
        "seq_pop_front" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let q = seq_ptr(st, &p)?; if let Val::Str(_) = st.read(&q)? { st.write(&q, Val::seq(vec![]))?; return v(Val::none()); } let r = seq_update(st, &q, |s| Ok(if s.is_empty() { None } else { Some(s.remove(0)) }))?; v(match r { Some(x) => Val::some(x), None => Val::none() }) },
        "seq_pop_back" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let q = seq_ptr(st, &p)?; let r = seq_update(st, &q, |s| Ok(s.pop()))?; v(match r { Some(x) => Val::some(x), None => Val::none() }) },
        // heap
        "box_take" => |e, st, cx| {
            // move the content out of a Box and free it
            let p = pa(e, st, cx, 0)?;
            let b = st.read(&p)?;
            let q = e.deref(st, b)?;
            let x = st.read(&Ptr::thin(q.slot, q.path.clone()))?;
            st.kill(q.slot);
            v(x)
        },
        "box_is_sized" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let b = st.read(&p)?; let q = e.deref(st, b)?; v(Val::bool(matches!(q.meta, Meta::None))) },
        "box_kill" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let b = st.read(&p)?; let q = e.deref(st, b)?; st.kill(q.slot); unit() },
        "rc_count" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let b = st.read(&p)?; let q = e.deref(st, b)?; let c = st.read(&rc_field(&q, 0))?; v(c) },
        "rc_set_count" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let b = st.read(&p)?; let q = e.deref(st, b)?; st.write(&rc_field(&q, 0), cx.args[1].clone())?; unit() },
        "rc_value" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let b = st.read(&p)?; let q = e.deref(st, b)?; v(Val::ptr(rc_field(&q, 2))) },
        "rc_kill" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let b = st.read(&p)?; let q = e.deref(st, b)?; st.kill(q.slot); unit() },
        "rc_take" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let b = st.read(&p)?; let q = e.deref(st, b)?; let x = st.read(&rc_field(&q, 2))?; st.kill(q.slot); v(x) },
        "live" => |_, st, _| v(Val::k(st.heap.iter().filter(|s| st.slots[**s as usize].is_some()).count() as i128)),
        // thread locals and once
        "tls_get" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let k = format!("tls{}:{:?}", p.slot, p.path); match st.flags.get(&k) { Some(x) => v(Val::some(x.clone())), None => v(Val::none()) } },
        "tls_set" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let k = format!("tls{}:{:?}", p.slot, p.path); let s = st.alloc(cx.args[1].clone()); let r = Val::ptr(Ptr::thin(s, vec![])); Rc::make_mut(&mut st.flags).insert(k, r.clone()); v(r) },
        "once_done" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let k = format!("once{}", p.slot); v(Val::bool(st.flags.contains_key(&k))) },
        "once_set" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let k = format!("once{}", p.slot); let f = Rc::make_mut(&mut st.flags); f.insert(k, Val::k(1)); f.remove(&format!("once-running{}", p.slot)); unit() },
        // formatting
        "fmt_len" => |_, st, cx| { let f = fmt(st, &cx.args[0])?; v(Val::k(f.len() as i128)) },
        "fmt_is_lit" => |e, st, cx| { let f = fmt(st, &cx.args[0])?; let i = int(e, st, cx, 1)?.konst().unwrap_or(0); v(Val::bool(matches!(f[i as usize], FmtPiece::Lit(_)))) },
        "fmt_lit" => |e, st, cx| { let f = fmt(st, &cx.args[0])?; let i = int(e, st, cx, 1)?.konst().unwrap_or(0); match &f[i as usize] { FmtPiece::Lit(s) => { let s = (**s).clone(); v(st.new_str(s)?) } _ => unk("literal piece") } },
        // fmt_arg(out: &mut dyn Write, args: &Arguments, i): format argument i
        "fmt_arg" => |e, st, cx| {
            let f = fmt(st, &cx.args[1])?;
            let i = int(e, st, cx, 2)?.konst().unwrap_or(0);
            match &f[i as usize] {
                FmtPiece::Arg { ptr, f, flags, width, prec, .. } => {
                    let o = Val::agg(0, vec![Val::k(*flags as i128), Val::k(width.unwrap_or(0) as i128), Val::k(prec.unwrap_or(0) as i128)]);
                    let s = st.alloc(Val::agg(0, vec![o, cx.args[0].clone()]));
                    Ok(Ret::Call(*f, vec![ptr.clone(), Val::ptr(Ptr::thin(s, vec![]))], After::Nothing, false))
                }
                _ => unk("argument piece"),
            }
        },
        "fmt_buf" => |e, st, cx| { let p = pa(e, st, cx, 0)?; let q = field(st, &p, 1)?; v(st.read(&q)?) },
        _ => return Kind::Body,
    };
    Kind::Native(f)
}
fn rc_field(q: &Ptr, i: u32) -> Ptr {
    // an Rc value points at the RcInner's value field or at the whole inner object
    let mut r = Ptr::thin(q.slot, vec![]);
    r.path.push(PE::Field(i));
    r
}
fn fmt(st: &mut State, x: &Val) -> R<Rc<Vec<FmtPiece>>> {
    let mut x = x.clone();
    for _ in 0..3 { match x { Val::Fmt(f) => return Ok(f), Val::Ptr(p) => x = st.read(&p)?, _ => break } }
    unk("format arguments expected")
}
fn seq_ptr(st: &mut State, p: &Ptr) -> R<Ptr> {
    let mut q = Ptr::thin(p.slot, p.path.clone());
    for _ in 0..6 {
        match st.read(&q)? { Val::Seq(_) | Val::Str(_) => return Ok(q), Val::Agg(a) => { let i = a.f.iter().position(|x| !matches!(x, Val::Undef)).unwrap_or(0); q = q.push(PE::Field(i as u32)); } _ => break }
    }
    unk("sequence expected")
}
/// Replace pointers by what they point to.
fn deep(e: &Eng, st: &mut State, x: &Val, d: u32) -> R<Val> {
    if d == 0 { return Ok(x.clone()); }
    Ok(match x {
        Val::Ptr(p) => { let y = st.read(&Ptr::thin(p.slot, p.path.clone()))?; match (&y, &p.meta) { (Val::Str(_), Meta::Slice(..)) => Val::Str(Rc::new(st.str_of(x)?)), _ => deep(e, st, &y, d - 1)? } }
        Val::Agg(a) => { let mut f = vec![]; for y in &a.f { f.push(deep(e, st, y, d - 1)?); } Val::agg(a.var, f) }
        Val::Seq(s) => { let mut f = vec![]; for y in s.iter() { f.push(deep(e, st, y, d - 1)?); } Val::seq(f) }
        x => x.clone(),
    })
}
/// Equality of frozen values; equality of numbers is decided (splitting if needed).
fn same(st: &mut State, a: &Val, b: &Val) -> R<bool> {
    if st.val_same(a, b) { return Ok(true); }
    match (a, b) {
        (Val::Int(x), Val::Int(y)) => { let d = x.sub(y); st.decide(&d, &ISet::single(0)) }
        (Val::Agg(x), Val::Agg(y)) => {
            if x.var != y.var || x.f.len() != y.f.len() { return Ok(false); }
            for (p, q) in x.f.iter().zip(&y.f) { if !same(st, p, q)? { return Ok(false); } }
            Ok(true)
        }
        (Val::Seq(x), Val::Seq(y)) => {
            if x.len() != y.len() { return Ok(false); }
            for (p, q) in x.iter().zip(y.iter()) { if !same(st, p, q)? { return Ok(false); } }
            Ok(true)
        }
        (Val::Term(x), Val::Term(y)) => {
            if x.op != y.op || x.args.len() != y.args.len() { return Ok(false); }
            for (p, q) in x.args.iter().zip(&y.args) { if !same(st, p, q)? { return Ok(false); } }
            Ok(true)
        }
        (Val::Str(x), Val::Str(y)) => { let (x, y) = (x.clone(), y.clone()); st.text_eq(&x, &y) }
        (Val::Undef, Val::Undef) | (Val::Top, Val::Top) => Ok(true),
        _ => Ok(false),
    }
}
