//! Models of the standard library surface used by the crate.  Combinators on Option/Result and
//! iterator adaptors are not modelled: their own MIR is interpreted.
use crate::facts::ty_range;
use crate::interp::*;
use crate::state::*;
use crate::term::*;
use rustc_middle::ty::{self, Instance};
use rustc_span::def_id::DefId;
use std::collections::HashMap;

pub type R = Option<Vec<(State, V)>>;

pub fn inline_std(name: &str, _d: DefId) -> bool {
    const OK: &[&str] = &[
        "std::option::", "std::result::", "std::iter::", "std::ops::", "std::cmp::", "std::convert::", "core::option", "core::result", "core::iter", "core::cmp",
        "core::convert", "core::bool", "std::array::<impl std::iter::IntoIterator", "std::ptr::read", "core::ops",
    ];
    const NO: &[&str] = &["std::fmt", "std::slice::", "std::vec::", "std::collections", "std::iter::range::", "std::string::String", "std::path", "std::io"];
    let n = name.trim_start_matches('<');
    if NO.iter().any(|p| n.starts_with(p)) {
        return false;
    }
    OK.iter().any(|p| name.contains(p))
}
pub fn impure(name: &str) -> bool {
    const IMP: &[&str] = &[
        "rand::", "std::time::", "std::net::", "std::sync::", "std::thread", "std::fs", "std::io", "std::env", "indirect", "closure", "std::process", "lines", "recv", "accept",
        "log::max_level", "DnsRead::read", "simple_logger", "MutexGuard", "call_once", "call_mut", "deserialize",
    ];
    IMP.iter().any(|p| name.contains(p))
}
pub fn option(ret: Ty, v: Option<V>) -> V {
    match v {
        Some(v) => adt(1, vec![v], Some(ret)),
        None => adt(0, vec![], Some(ret)),
    }
}
pub fn ok(ret: Ty, v: V) -> V {
    adt(0, vec![v], Some(ret))
}
pub fn err(ret: Ty, v: V) -> V {
    adt(1, vec![v], Some(ret))
}
pub fn unit() -> V {
    adt(0, vec![], Some(tcx().types.unit))
}
pub fn coll_len(v: V) -> V {
    len_of(v, usize_ty())
}
/// split on a predicate; each side continues with the state in which it holds
pub fn split(st: &State, p: V) -> (Option<State>, Option<State>) {
    match p.as_bool() {
        Some(true) => return (Some(st.clone()), None),
        Some(false) => return (None, Some(st.clone())),
        None => {}
    }
    let mut a = st.clone();
    let mut b = st.clone();
    let x = a.assume(p, true);
    let y = b.assume(p, false);
    (if x { Some(a) } else { None }, if y { Some(b) } else { None })
}
/// the possible values of the element at `i`, each with its state
pub fn elements(e: &mut Engine, st: &State, coll: V, i: V, ety: Option<Ty>) -> Vec<(State, V)> {
    let et = ety.map(peel).or(coll.ty().and_then(elem_ty).map(peel));
    match coll.n() {
        N::Summ(id, _, alts) => {
            if alts.is_empty() {
                return vec![];
            }
            let _ = e;
            let mut out = vec![];
            for a in alts {
                let mut m: HashMap<V, V> = HashMap::new();
                collect_bvars(a.t, &mut m, *id, i);
                for f in &a.facts {
                    collect_bvars(f.0, &mut m, *id, i);
                }
                let mut s = Subst::new(m);
                let t = s.ap(a.t);
                let mut st2 = st.clone();
                let mut okk = true;
                for (f, b) in &a.facts {
                    let g = s.ap(*f);
                    if !st2.assume(g, *b) {
                        okk = false;
                        break;
                    }
                }
                if okk && recs().is_some() {
                    okk = also_known(st, &mut st2, *id, i, t);
                }
                if okk && !out.contains(&(st2.clone(), t)) {
                    out.push((st2, t));
                }
            }
            out
        }
        _ => vec![(st.clone(), elem(coll, i, et))],
    }
}
/// what every alternative says of a record's name, type and other shared fields holds of the
/// record at `i`
fn known_at(st: &mut State, coll: V, i: V) -> bool {
    let (N::Summ(id, _, alts), Some(lay)) = (coll.n(), recs()) else { return true };
    let mut all: Option<Vec<(V, bool)>> = None;
    let views = |t: V| -> Vec<V> { (0..lay.common.len()).map(|k| rec_get(t, k)).chain([rec_kind(t)]).collect() };
    let holes: Vec<V> = (0..=lay.common.len()).map(|k| sym_untyped(Box::leak(format!("hole{k}").into_boxed_str()))).collect();
    for a in alts {
        if rec_of(a.t).is_none() {
            return true;
        }
        let m: HashMap<V, V> = views(a.t).into_iter().zip(holes.iter().copied()).filter(|x| matches!(x.0.n(), N::App(f, _) if f.starts_with("rec."))).collect();
        let mut s = Subst::new(m);
        let mut fs = vec![];
        for (f, b) in &a.facts {
            let g = s.ap(*f);
            if g != *f && !has_bvar(g) {
                fs.push((g, *b));
            }
        }
        match &mut all {
            None => all = Some(fs),
            Some(x) => x.retain(|y| fs.contains(y)),
        }
    }
    let t = elem(*id, i, Some(lay.rec));
    let mut s = Subst::new(holes.into_iter().zip(views(t)).collect());
    for (f, b) in all.unwrap_or_default() {
        if !st.assume(s.ap(f), b) {
            return false;
        }
    }
    true
}
fn has_bvar(v: V) -> bool {
    let mut y = matches!(v.n(), N::Bvar(_));
    children(v.n(), &mut |c| y = y || has_bvar(c));
    y
}
/// what is known of the element at `i` of the collection is known of `t`
fn also_known(st: &State, st2: &mut State, id: V, i: V, t: V) -> bool {
    fn find(v: V, id: V, out: &mut Vec<V>) {
        if let N::App(f, a) = v.n() {
            if *f == "elem" && a[0] == id && !out.contains(&v) {
                out.push(v);
            }
        }
        children(v.n(), &mut |c| find(c, id, out));
    }
    let mut at = vec![];
    for k in st.facts.b.keys().chain(st.facts.vars.keys()) {
        find(*k, id, &mut at);
    }
    let mut m = HashMap::new();
    for x in at {
        if let N::App(_, a) = x.n() {
            if st.query(eq0(&Lin::of(a[1]).sub(&Lin::of(i)))) == Some(true) {
                m.insert(x, t);
            }
        }
    }
    if m.is_empty() {
        return true;
    }
    let mut s = Subst::new(m);
    for (f, b) in &st.facts.b {
        let g = s.ap(*f);
        if g != *f && !st2.assume(g, *b) {
            return false;
        }
    }
    for (x, k) in &st.facts.vars {
        let g = s.ap(*x);
        if g != *x {
            let k = *k & st2.facts.mask(g);
            if !st2.facts.set_mask(g, k) {
                return false;
            }
        }
    }
    true
}
fn collect_bvars(v: V, m: &mut HashMap<V, V>, id: V, i: V) {
    if let N::Bvar(_) = v.n() {
        m.entry(v).or_insert_with(|| app("inst", vec![sym_untyped(match v.n() { N::Bvar(s) => s, _ => "" }), id, i], v.ty()));
        return;
    }
    if let (N::Summ(x, n, _), true) = (v.n(), recs().is_some()) {
        // the variables of a collection inside are its own
        collect_bvars(*x, m, id, i);
        collect_bvars(*n, m, id, i);
        return;
    }
    children(v.n(), &mut |c| collect_bvars(c, m, id, i));
}
pub fn push_elem(st: &State, coll: V, x: V) -> V {
    match coll.n() {
        N::Seq(e) if e.len() < 24 => {
            let mut e = e.clone();
            e.push(x);
            seq(e)
        }
        N::Summ(id, l, alts) => {
            let mut a = alts.clone();
            add_alt(&mut a, Alt { t: x, facts: vec![] });
            let nid = app("push", vec![*id, x], None);
            let nid = if nid.size() > 60 { app("pushes", vec![sym_untyped("many"), *l], None) } else { nid };
            summ(nid, Lin::of(*l).plus(1).v(), a)
        }
        _ => {
            let l = coll_len(coll);
            let mut a = alts_of(coll, st);
            add_alt(&mut a, Alt { t: x, facts: vec![] });
            summ(app("push", vec![coll, x], None), Lin::of(l).plus(1).v(), a)
        }
    }
}
pub fn append(st: &State, a: V, b: V) -> V {
    match (a.n(), b.n()) {
        (N::Seq(x), N::Seq(y)) if x.len() + y.len() < 24 => {
            let mut x = x.clone();
            x.extend(y.iter().copied());
            return seq(x);
        }
        (N::Seq(x), _) if x.is_empty() => return b,
        (_, N::Seq(y)) if y.is_empty() => return a,
        _ => {}
    }
    let l = Lin::of(coll_len(a)).add(&Lin::of(coll_len(b)), 1).v();
    let mut al = alts_of(a, st);
    for x in alts_of(b, st) {
        add_alt(&mut al, x);
    }
    let id = app("append", vec![a, b], None);
    let id = if id.size() > 60 { app("appends", vec![sym_untyped("many"), l], None) } else { id };
    summ(id, l, al)
}
/// same elements in unknown number/order: at most `max` (<= len)
fn subset(st: &State, v: V, id: &str, len: V) -> V {
    let al = alts_of(v, st);
    summ(app(id, vec![v, len], None), len, al)
}
pub fn tup(ty: Option<Ty>, f: Vec<V>) -> V {
    adt(0, f, ty)
}
fn iter(coll: V) -> V {
    let l = coll_len(coll);
    model("iter", vec![coll, int(0), l])
}
fn is_path(t: Ty, p: &str) -> bool {
    adt_path(t).as_deref() == Some(p)
}
fn base_ty(t: Ty) -> Ty {
    let mut t = t;
    while let ty::Ref(_, x, _) = t.kind() {
        t = *x
    }
    t
}
fn is_string(t: Ty) -> bool {
    let t = peel(t);
    t.is_str() || is_path(t, "std::string::String") || is_path(t, "std::borrow::Cow")
}
fn is_time(t: Ty) -> bool {
    let t = peel(t);
    is_path(t, "std::time::Instant") || is_path(t, "std::time::Duration")
}
pub fn is_intlike(t: Ty) -> bool {
    let t = peel(t);
    is_int(t) || is_time(t)
}
const NS: i128 = 1_000_000_000;

pub fn default_of(t: Ty) -> Option<V> {
    if is_coll_ty(t) {
        return Some(seq(vec![]));
    }
    if is_string(t) {
        return Some(strv(""));
    }
    if is_int(t) {
        return Some(int(0));
    }
    if t.is_bool() {
        return Some(boolv(false));
    }
    if is_path(t, "std::option::Option") {
        return Some(option(t, None));
    }
    None
}
/// structural equality as a set of (state, bool)
pub fn equal(e: &mut Engine, st: &State, a: V, b: V, t: Ty) -> Vec<(State, V)> {
    let a = e.snap(st, a, 0);
    let b = e.snap(st, b, 0);
    let t = peel(t);
    if is_intlike(t) {
        return vec![(st.clone(), eq0(&Lin::of(a).sub(&Lin::of(b))))];
    }
    if t.is_bool() {
        let r = e.binop(st, rustc_middle::mir::BinOp::Eq, a, b, t);
        return vec![(st.clone(), r)];
    }
    if fieldless(Some(t)) {
        let x = e.discr(st, a, t);
        let y = e.discr(st, b, t);
        return vec![(st.clone(), eq0(&Lin::of(x).sub(&Lin::of(y))))];
    }
    if is_coll_ty(t) {
        if let (N::Seq(x), N::Seq(y)) = (a.n(), b.n()) {
            if x.len() != y.len() {
                return vec![(st.clone(), boolv(false))];
            }
            if x.is_empty() {
                return vec![(st.clone(), boolv(true))];
            }
        }
        for (x, y) in [(a, b), (b, a)] {
            if let N::Seq(z) = x.n() {
                if z.is_empty() {
                    return vec![(st.clone(), eq0(&Lin::of(coll_len(y))))];
                }
            }
        }
    }
    // Option: compare variants, then the payload
    if is_path(t, "std::option::Option") {
        if let (N::Adt(ka, fa), N::Adt(kb, fb)) = (a.n(), b.n()) {
            if ka != kb {
                return vec![(st.clone(), boolv(false))];
            }
            if *ka == 0 {
                return vec![(st.clone(), boolv(true))];
            }
            if let ty::Adt(_, ga) = t.kind() {
                return equal(e, st, fa[0], fb[0], ga.type_at(0));
            }
        }
        for (x, y) in [(a, b), (b, a)] {
            if let N::Adt(0, _) = x.n() {
                return vec![(st.clone(), is_var(y, 0))];
            }
        }
    }
    vec![(st.clone(), eqv(a, b))]
}

pub fn rt_fn(name: &str) -> Option<DefId> {
    thread_local! { static M: std::cell::RefCell<Option<HashMap<String, DefId>>> = const { std::cell::RefCell::new(None) }; }
    M.with(|m| {
        let mut m = m.borrow_mut();
        if m.is_none() {
            let mut h = HashMap::new();
            let t = tcx();
            for k in t.crates(()) {
                if t.crate_name(*k).as_str() == "sa_rt" {
                    for c in t.module_children(k.as_def_id()) {
                        if let Some(d) = c.res.opt_def_id() {
                            h.insert(c.ident.name.to_string(), d);
                        }
                    }
                }
            }
            *m = Some(h);
        }
        m.as_ref().unwrap().get(name).copied()
    })
}
fn rt_call(e: &mut Engine, st: &State, c: &Call, f: &str, targs: Vec<ty::GenericArg<'static>>, args: Vec<V>) -> R {
    let d = match rt_fn(f) {
        Some(d) => d,
        None => {
            e.notes.insert(format!("sa_rt function {f} missing"));
            return None;
        }
    };
    let n = tcx().generics_of(d).count();
    let targs: Vec<_> = targs.into_iter().take(n).collect();
    if targs.len() != n {
        e.notes.insert(format!("sa_rt {f}: generic arguments {} expected {}", targs.len(), n));
        return None;
    }
    let ga = tcx().mk_args(&targs);
    let inst = Instance::try_resolve(tcx(), tenv(), d, ga).ok().flatten()?;
    e.exec_body(inst, None, args, st.clone(), c.frame, c.bb, c.span)
}
fn ty_args(c: &Call) -> Vec<ty::GenericArg<'static>> {
    c.targs.iter().filter(|a| a.as_region().is_none()).collect()
}
pub fn panic_name(n: &str) -> bool {
    n.contains("panicking::") || n.contains("unwrap_failed") || n.contains("expect_failed") || n.contains("panic_fmt") || n.contains("begin_panic") || n.contains("assert_failed")
        || n.contains("slice_index_fail") || n.contains("len_mismatch_fail") || n.contains("rt::panic")
}

pub fn call(e: &mut Engine, st: &State, c: &Call) -> R {
    let n = c.name;
    let one = |v: V| -> R { Some(vec![(st.clone(), v)]) };
    let a = &c.args;
    // ---- panics -----------------------------------------------------------------------------
    if c.ret_ty.is_never() && panic_name(n) {
        let sn = e.snippet(e.site(c.frame, c.span).1);
        e.oblig(c.frame, c.span, "panic", false);
        e.fail(st, c.frame, c.span, "panic", &sn);
        return Some(vec![]);
    }
    // ---- trait methods ------------------------------------------------------------------------
    if let Some(tm) = c.tm {
        let self_ty = c.self_ty().map(base_ty);
        if let Some(r) = trait_method(e, st, c, tm, self_ty) {
            return Some(r);
        }
    }
    // normalise "core::slice::<impl [T]>::iter" etc.
    let m = short(n);
    let ty0 = c.arg_tys.first().copied();
    let rel: &str = n;
    match rel {
        "std::option::Option::unwrap" | "std::option::Option::expect" | "std::result::Result::unwrap" | "std::result::Result::expect" => {
            let v = e.deref(st, a[0]);
            let okv = if rel.starts_with("std::option") { 1 } else { 0 };
            let t = ty0.map(peel);
            let v = if v.ty().is_none() { t.map(|t| retype(v, t)).unwrap_or(v) } else { v };
            let p = is_var(v, okv);
            let proved = st.query(p) == Some(true);
            e.oblig(c.frame, c.span, m, proved);
            if !proved {
                let sn = e.snippet(e.site(c.frame, c.span).1);
                e.fail(st, c.frame, c.span, m, &sn);
            }
            let mut s = st.clone();
            if !s.assume(p, true) {
                return Some(vec![]);
            }
            let r = field(v, okv, 0, Some(peel(c.ret_ty)));
            return Some(vec![(s, r)]);
        }
        "std::mem::take" => {
            if let N::Ptr(l, p) = a[0].n() {
                let old = e.deref(st, a[0]);
                let t = peel(c.ret_ty);
                let d = default_of(t).unwrap_or_else(|| app("default", vec![], Some(t)));
                let mut s = st.clone();
                e.store(&mut s, *l, p, d);
                return Some(vec![(s, old)]);
            }
        }
        "std::mem::replace" => {
            if let N::Ptr(l, p) = a[0].n() {
                let old = e.deref(st, a[0]);
                let mut s = st.clone();
                e.store(&mut s, *l, p, a[1]);
                return Some(vec![(s, old)]);
            }
        }
        "std::mem::swap" => {
            if let (N::Ptr(l, p), N::Ptr(l2, p2)) = (a[0].n(), a[1].n()) {
                let x = e.deref(st, a[0]);
                let y = e.deref(st, a[1]);
                let mut s = st.clone();
                e.store(&mut s, *l, p, y);
                e.store(&mut s, *l2, p2, x);
                return Some(vec![(s, unit())]);
            }
        }
        "std::option::Option::take" => {
            if let N::Ptr(l, p) = a[0].n() {
                let old = e.deref(st, a[0]);
                let mut s = st.clone();
                e.store(&mut s, *l, p, option(peel(c.ret_ty), None));
                return Some(vec![(s, old)]);
            }
        }
        "std::option::Option::replace" | "std::option::Option::insert" => {
            if let N::Ptr(l, p) = a[0].n() {
                let old = e.deref(st, a[0]);
                let mut s = st.clone();
                let t = ty0.map(peel)?;
                e.store(&mut s, *l, p, option(t, Some(a[1])));
                if m == "replace" {
                    return Some(vec![(s, old)]);
                }
                let mut q = p.clone();
                q.push(Pj::Field(1, 0, peel(c.ret_ty)));
                return Some(vec![(s, ptr(*l, q))]);
            }
        }
        "std::option::Option::get_or_insert" | "std::option::Option::get_or_insert_with" => {
            if let N::Ptr(l, p) = a[0].n() {
                let old = e.deref(st, a[0]);
                let t = ty0.map(peel)?;
                let (some, none) = split(st, is_var(old, 1));
                let mut q = p.clone();
                q.push(Pj::Field(1, 0, peel(c.ret_ty)));
                let mut out = vec![];
                if let Some(s) = some {
                    out.push((s, ptr(*l, q.clone())));
                }
                if let Some(s) = none {
                    let vals = if m == "get_or_insert" { vec![(s, a[1])] } else { e.call_value(c.frame, c.bb + 10_000, s, a[1], vec![], vec![], peel(c.ret_ty), c.span) };
                    for (mut s, v) in vals {
                        e.store(&mut s, *l, p, option(t, Some(v)));
                        out.push((s, ptr(*l, q.clone())));
                    }
                }
                return Some(out);
            }
        }
        "std::mem::drop" => {
            let mut s = st.clone();
            let t = ty0?;
            e.drop_place(c.frame, &mut s, a[0], t);
            return Some(vec![(s, unit())]);
        }
        "std::hint::must_use" => return one(a[0]),
        "std::boxed::Box::new" | "std::sync::Arc::new" | "std::rc::Rc::new" | "std::boxed::Box::pin" => return one(a[0]),
        "std::boxed::Box::new_uninit" => {
            let h = e.heap(c.frame, c.bb, 1);
            let mut s = st.clone();
            s.set(h, uninit());
            return Some(vec![(s, ptr(h, vec![]))]);
        }
        "std::boxed::box_assume_init_into_vec_unsafe" | "std::boxed::Box::assume_init" => {
            let v = e.deref(st, a[0]);
            return one(v);
        }
        "std::cell::RefCell::new" | "std::cell::Cell::new" | "std::sync::Mutex::new" | "std::sync::RwLock::new" => return one(model("cell", vec![a[0]])),
        _ => {}
    }
    if n.starts_with("std::vec::Vec::") || n.contains("::<impl [T]>::") || n.starts_with("std::vec::") {
        if let Some(r) = vec_method(e, st, c, m) {
            return Some(r);
        }
    }
    if n.contains("<impl str>::") || n.starts_with("std::string::String::") || n.starts_with("std::str::") {
        if let Some(r) = str_method(e, st, c, m) {
            return Some(r);
        }
    }
    if n.starts_with("std::collections::HashMap::") || n.starts_with("std::collections::hash_map::") {
        if let Some(r) = map_method(e, st, c, m) {
            return Some(r);
        }
    }
    if n.contains("<impl char>::") {
        let x = e.deref(st, a[0]);
        return one(app(m, vec![x], Some(c.ret_ty)));
    }
    if n.starts_with("std::time::") {
        if let Some(r) = time_method(e, st, c, m) {
            return Some(r);
        }
    }
    if n.contains("::num::<impl") && !n.contains("FromStr") && !n.contains("TryFrom") {
        if let Some(r) = num_method(e, st, c, m) {
            return Some(r);
        }
    }
    match (n, m) {
        ("std::sync::Mutex::lock", _) | ("std::sync::RwLock::write", _) | ("std::sync::RwLock::read", _) => {
            let h = e.heap(c.frame, c.bb, 2);
            let mut s = st.clone();
            let t = match peel(ty0?).kind() {
                ty::Adt(_, ga) => ga.type_at(0),
                _ => return None,
            };
            let f = e.fresh(st, c.frame, c.bb, "locked", Some(t));
            s.set(h, f);
            let g = model("guard", vec![ptr(h, vec![])]);
            return Some(vec![(s, ok(c.ret_ty, g))]);
        }
        ("core::fmt::rt::Argument::new_display", _) | ("std::fmt::rt::Argument::new_display", _) => {
            let v = e.snap(st, a[0], 0);
            let t = c.targs.iter().find_map(|g| g.as_type()).map(peel);
            let text = t.map(|t| t.is_str() || adt_path(t).as_deref() == Some("std::string::String")).unwrap_or(false);
            return one(app("shown", vec![if text { v } else { app("display", vec![v], Some(tcx().types.str_)) }], Some(c.ret_ty)));
        }
        ("std::fmt::Arguments::new", _) if a.len() == 2 => {
            let (t, x) = (e.snap(st, a[0], 0), e.snap(st, a[1], 0));
            if let Some(v) = template(t, x) {
                return one(v);
            }
        }
        ("std::fmt::format", _) | ("alloc::fmt::format", _) => {
            let v = e.snap(st, a[0], 0);
            if matches!(v.n(), N::Str(_)) || matches!(v.n(), N::App(f, _) if ["concat", "display"].contains(f)) || v.ty().map(|t| t.is_str()).unwrap_or(false) {
                return one(v);
            }
        }
        ("std::fmt::Arguments::from_str", _) | ("std::fmt::Arguments::from_str_nonconst", _) => return one(a[0]),
        _ => {}
    }
    if m == "size_of" || m == "align_of" {
        return one(app(m, vec![strv(&format!("{:?}", c.targs))], Some(c.ret_ty)));
    }
    if n.starts_with("std::intrinsics::") || n.starts_with("core::intrinsics::") {
        match m {
            "discriminant_value" => {
                let t = c.self_ty()?;
                let v = e.discr(st, a[0], t);
                return one(v);
            }
            "unlikely" | "likely" | "black_box" => return one(a[0]),
            "assume" | "cold_path" | "assert_inhabited" => return one(unit()),
            "unreachable" => return Some(vec![]),
            "transmute" => return one(a[0]),
            "read_via_copy" => {
                let v = e.deref(st, a[0]);
                return one(v);
            }
            "write_via_move" => {
                if let N::Ptr(l, p) = a[0].n() {
                    let mut s = st.clone();
                    e.store(&mut s, *l, p, a[1]);
                    return Some(vec![(s, unit())]);
                }
            }
            _ => {}
        }
    }
    None
}

fn trait_method(e: &mut Engine, st: &State, c: &Call, tm: &str, self_ty: Option<Ty>) -> R {
    let a = &c.args;
    let one = |v: V| -> R { Some(vec![(st.clone(), v)]) };
    let sp = self_ty.map(peel);
    let (tr, m) = tm.rsplit_once("::").unwrap_or(("", tm));
    let local_impl = c.inst.map(|i| local_crate(i.def_id()) && !tcx().is_automatically_derived(tcx().parent(i.def_id()))).unwrap_or(false);
    if local_impl {
        return None;
    }
    match tr {
        "std::ops::Deref" => {
            let v = e.deref(st, a[0]);
            if let N::Model(k, x) = v.n() {
                if *k == "guard" {
                    let y = e.deref(st, x[0]);
                    return one(y);
                }
            }
            return one(v);
        }
        "std::ops::DerefMut" => {
            let v = e.deref(st, a[0]);
            if let N::Model(k, x) = v.n() {
                if *k == "guard" {
                    return one(x[0]);
                }
            }
            return one(a[0]);
        }
        "std::clone::Clone" => {
            if m == "clone_from" {
                return None;
            }
            let v = e.snap(st, a[0], 0);
            return one(v);
        }
        "std::borrow::Borrow" | "std::convert::AsRef" | "std::borrow::ToOwned" => {
            let v = e.deref(st, a[0]);
            if let (Some(t), ty::Ref(_, r, _)) = (sp, c.ret_ty.kind()) {
                if is_string(t) && matches!(r.kind(), ty::Slice(_)) {
                    return one(app("bytes", vec![v], Some(*r)));
                }
            }
            return one(v);
        }
        "std::convert::AsMut" | "std::borrow::BorrowMut" => return one(a[0]),
        "std::string::ToString" => {
            let v = e.deref(st, a[0]);
            if sp.map(is_string).unwrap_or(false) {
                return one(v);
            }
            let v = e.snap(st, v, 0);
            return one(app("to_string", vec![v], Some(c.ret_ty)));
        }
        "std::convert::From" | "std::convert::Into" => {
            let (to, from) = if m == "from" { (c.ret_ty, c.arg_tys[0]) } else { (c.ret_ty, c.arg_tys[0]) };
            if is_int(to) && (is_int(peel(from)) || peel(from).is_bool()) {
                let v = e.deref(st, a[0]);
                let v = e.cast_int(st, v, peel(from), to);
                return one(v);
            }
            if is_string(to) && is_string(from) {
                return one(e.deref(st, a[0]));
            }
            if is_string(to) && peel(from).is_char() {
                return one(app("str_push", vec![strv(""), a[0]], Some(to)));
            }
            if is_coll_ty(peel(to)) && is_coll_ty(peel(from)) && is_path(peel(to), "std::vec::Vec") {
                return one(e.deref(st, a[0]));
            }
            if peel(to) == peel(from) {
                return one(a[0]);
            }
        }
        "std::convert::TryFrom" | "std::convert::TryInto" => {
            if let ty::Adt(_, ga) = c.ret_ty.kind() {
                let to = ga.type_at(0);
                let from = peel(c.arg_tys[0]);
                if is_int(to) && is_int(from) {
                    let v = e.deref(st, a[0]);
                    if let Some((lo, hi)) = ty_range(to) {
                        let l = Lin::of(v);
                        let mut out = vec![];
                        let mut s = st.clone();
                        if s.assume(ge0(&l.plus(-lo)), true) && s.assume(ge0(&l.scale(-1).plus(hi)), true) {
                            out.push((s, ok(c.ret_ty, v)));
                        }
                        for p in [ge0(&l.plus(-lo)), ge0(&l.scale(-1).plus(hi))] {
                            let mut s = st.clone();
                            if s.assume(p, false) {
                                let er = app("tryfromint", vec![], Some(ga.type_at(1)));
                                out.push((s, err(c.ret_ty, er)));
                            }
                        }
                        return Some(out);
                    }
                }
            }
        }
        "std::default::Default" => {
            if let Some(v) = default_of(c.ret_ty) {
                return one(v);
            }
        }
        "std::cmp::PartialEq" => {
            let t = sp?;
            let local_derived = c.inst.map(|i| local_crate(i.def_id())).unwrap_or(false);
            if local_derived && !fieldless(Some(t)) {
                return None;
            }
            if let ty::Adt(d, _) = t.kind() {
                if local_crate(d.did()) && !fieldless(Some(t)) {
                    return None; // through the reference impls to the derived one
                }
            }
            let rs = equal(e, st, a[0], a[1], t);
            return Some(rs.into_iter().map(|(s, v)| (s, if m == "ne" { not(v) } else { v })).collect());
        }
        "std::cmp::PartialOrd" | "std::cmp::Ord" => {
            let t = sp?;
            if is_intlike(t) && a.len() >= 2 {
                let x = e.snap(st, a[0], 0);
                let y = e.snap(st, a[1], 0);
                match m {
                    "lt" => return one(lt(x, y)),
                    "le" => return one(le(x, y)),
                    "gt" => return one(lt(y, x)),
                    "ge" => return one(le(y, x)),
                    "max" | "min" => {
                        let (p, q) = split(st, le(x, y));
                        let mut out = vec![];
                        if let Some(s) = p {
                            out.push((s, if m == "max" { y } else { x }));
                        }
                        if let Some(s) = q {
                            out.push((s, if m == "max" { x } else { y }));
                        }
                        return Some(out);
                    }
                    "clamp" => {}
                    "cmp" | "partial_cmp" => {
                        let mut out = vec![];
                        let ord = if m == "cmp" {
                            c.ret_ty
                        } else if let ty::Adt(_, ga) = c.ret_ty.kind() {
                            ga.type_at(0)
                        } else {
                            return None;
                        };
                        for (k, p) in [(0u32, lt(x, y)), (1, eq0(&Lin::of(x).sub(&Lin::of(y)))), (2, lt(y, x))] {
                            let mut s = st.clone();
                            if s.assume(p, true) {
                                let o = adt(k, vec![], Some(ord));
                                out.push((s, if m == "cmp" { o } else { option(c.ret_ty, Some(o)) }));
                            }
                        }
                        return Some(out);
                    }
                    _ => {}
                }
            }
            let p = peel(t);
            if let Some(path) = adt_path(p) {
                if path.starts_with("log::Level") && a.len() >= 2 {
                    return one(app("log_enabled", vec![], Some(c.ret_ty)));
                }
            }
            if is_string(t) && a.len() >= 2 {
                let x = e.snap(st, a[0], 0);
                let y = e.snap(st, a[1], 0);
                return one(app(m, vec![x, y], Some(c.ret_ty)));
            }
        }
        "std::ops::Add" | "std::ops::Sub" | "std::ops::AddAssign" | "std::ops::SubAssign" => {
            let t = sp?;
            if is_time(t) {
                return time_arith(e, st, c, m);
            }
            if is_path(t, "std::string::String") && m == "add" {
                let v = e.deref(st, a[1]);
                return one(str_concat(a[0], v));
            }
            if is_path(t, "std::string::String") && m == "add_assign" {
                if let N::Ptr(l, p) = a[0].n() {
                    let old = e.deref(st, a[0]);
                    let v = e.deref(st, a[1]);
                    let mut s = st.clone();
                    e.store(&mut s, *l, p, str_concat(old, v));
                    return Some(vec![(s, unit())]);
                }
            }
            if is_int(t) {
                return num_op(e, st, c, m);
            }
        }
        "std::ops::Index" | "std::ops::IndexMut" => return index(e, st, c),
        "std::iter::IntoIterator" => {
            let t = c.self_ty()?;
            let b = base_ty(t);
            if let ty::Ref(_, _, mt) = t.kind() {
                if is_coll_ty(b) {
                    if mt.is_mut() {
                        return itermut(e, st, a[0]);
                    }
                    let v = e.deref(st, a[0]);
                    return one(iter(v));
                }
                return None;
            }
            if is_coll_ty(b) {
                let v = e.deref(st, a[0]);
                return one(iter(v));
            }
        }
        "std::iter::Iterator" | "std::iter::DoubleEndedIterator" | "std::iter::ExactSizeIterator" => return iterator(e, st, c, m, self_ty),
        "std::iter::Extend" => {
            let v = rt_fn("vec_extend")?;
            let _ = v;
            if !is_path(sp?, "std::vec::Vec") {
                return None;
            }
            // extend::<I: IntoIterator>(self, I): generic args of the trait method: [Self, A, I]
            let ta = ty_args(c);
            let it = ta.last().copied()?;
            let el = match sp?.kind() {
                ty::Adt(_, ga) => ga.type_at(0),
                _ => return None,
            };
            // quick path: extending from another collection
            let src = a[1];
            if let Some(it_ty) = it.as_type() {
                if is_coll_ty(base_ty(it_ty)) {
                    if let N::Ptr(l, p) = a[0].n() {
                        let x = e.deref(st, src);
                        let old = e.deref(st, a[0]);
                        let mut s = st.clone();
                        let nv = append(st, old, x);
                        e.store(&mut s, *l, p, nv);
                        return Some(vec![(s, unit())]);
                    }
                }
            }
            return rt_call(e, st, c, "vec_extend", vec![el.into(), it], vec![a[0], src]);
        }
        "std::str::FromStr" => {
            let v = e.snap(st, a[0], 0);
            return one(app("parse", vec![v], Some(c.ret_ty)));
        }
        "std::hash::Hash" => return one(unit()),
        _ => {}
    }
    None
}

fn itermut(e: &mut Engine, st: &State, p: V) -> R {
    let v = e.deref(st, p);
    let l = coll_len(v);
    if let N::Ptr(..) = p.n() {
        return Some(vec![(st.clone(), model("itermut", vec![p, int(0), l]))]);
    }
    Some(vec![(st.clone(), model("iter", vec![v, int(0), l]))])
}

fn is_map_iter(t: Ty) -> bool {
    adt_path(t).map(|p| p.contains("hash_map") || p.contains("btree_map")).unwrap_or(false)
}

fn iterator(e: &mut Engine, st: &State, c: &Call, m: &str, self_ty: Option<Ty>) -> R {
    let a = &c.args;
    let t = self_ty?;
    match m {
        "next" | "next_back" | "nth_back" if !m.starts_with("nth") => {
            let it = e.deref(st, a[0]);
            if m == "next" && is_path(t, "std::iter::Zip") {
                let (N::Ptr(l, path), ty::Adt(_, ga)) = (a[0].n(), t.kind()) else { return None };
                let part = |i: u32| {
                    let mut p = path.clone();
                    p.push(Pj::Field(STRUCT, i, ga.type_at(i as usize)));
                    ptr(*l, p)
                };
                return rt_call(e, st, c, "pair_next", vec![ga[0], ga[1]], vec![part(0), part(1)]);
            }
            // ranges
            if let Some(p) = adt_path(t) {
                if p == "std::ops::Range" {
                    let it = if it.is_term() { expand(it, None, st)? } else { it };
                    let (s0, e0) = match it.n() {
                        N::Adt(_, f) if f.len() >= 2 => (f[0], f[1]),
                        _ => return None,
                    };
                    let N::Ptr(l, path) = a[0].n() else { return None };
                    let (x, y) = split(st, lt(s0, e0));
                    let mut out = vec![];
                    if let Some(mut s) = x {
                        let (nv, r) = if m == "next" {
                            (adt(0, vec![Lin::of(s0).plus(1).v(), e0], it.ty()), s0)
                        } else {
                            let q = Lin::of(e0).plus(-1).v();
                            (adt(0, vec![s0, q], it.ty()), q)
                        };
                        e.store(&mut s, *l, path, nv);
                        out.push((s, option(c.ret_ty, Some(r))));
                    }
                    if let Some(s) = y {
                        out.push((s, option(c.ret_ty, None)));
                    }
                    return Some(out);
                }
                if p == "std::ops::RangeInclusive" {
                    let it = if it.is_term() { expand(it, None, st)? } else { it };
                    let (s0, e0, ex) = match it.n() {
                        N::Adt(_, f) if f.len() >= 3 => (f[0], f[1], f[2]),
                        _ => return None,
                    };
                    let N::Ptr(l, path) = a[0].n() else { return None };
                    // exhausted flag as in core; represent by (start, end, exhausted)
                    let mut out = vec![];
                    let (exh, live) = split(st, ex);
                    if let Some(s) = exh {
                        out.push((s, option(c.ret_ty, None)));
                    }
                    if let Some(s) = live {
                        let (some, none) = split(&s, le(s0, e0));
                        if let Some(s) = none {
                            out.push((s, option(c.ret_ty, None)));
                        }
                        if let Some(s) = some {
                            let (less, eq) = split(&s, lt(s0, e0));
                            if let Some(mut s) = less {
                                e.store(&mut s, *l, path, adt(0, vec![Lin::of(s0).plus(1).v(), e0, boolv(false)], it.ty()));
                                out.push((s, option(c.ret_ty, Some(s0))));
                            }
                            if let Some(mut s) = eq {
                                e.store(&mut s, *l, path, adt(0, vec![s0, e0, boolv(true)], it.ty()));
                                out.push((s, option(c.ret_ty, Some(s0))));
                            }
                        }
                    }
                    return Some(out);
                }
                if p == "std::ops::RangeFrom" {
                    let it = if it.is_term() { expand(it, None, st)? } else { it };
                    let s0 = match it.n() {
                        N::Adt(_, f) => f[0],
                        _ => return None,
                    };
                    let N::Ptr(l, path) = a[0].n() else { return None };
                    let mut s = st.clone();
                    let it_ty = match peel(c.ret_ty).kind() {
                        ty::Adt(_, ga) => ga.type_at(0),
                        _ => return None,
                    };
                    let nx = Lin::of(s0).plus(1);
                    if let Some((_, hi)) = ty_range(it_ty) {
                        let g = ge0(&nx.scale(-1).plus(hi));
                        let okk = st.query(g) == Some(true);
                        e.oblig(c.frame, c.span, "range overflow", okk);
                        if !okk {
                            let sn = e.snippet(e.site(c.frame, c.span).1);
                            e.fail(st, c.frame, c.span, "arithmetic overflow (open range)", &sn);
                        }
                        if !s.assume(g, true) {
                            return Some(vec![]);
                        }
                    }
                    e.store(&mut s, *l, path, adt(0, vec![nx.v()], it.ty()));
                    return Some(vec![(s, option(c.ret_ty, Some(s0)))]);
                }
            }
            if let N::Model(k, f) = it.n() {
                if *k == "iter" || *k == "itermut" {
                    let N::Ptr(l, path) = a[0].n() else { return None };
                    let (i, back) = (f[1], f[2]);
                    let (x, y) = split(st, lt(i, back));
                    let mut out = vec![];
                    let ety = match c.ret_ty.kind() {
                        ty::Adt(_, ga) => Some(ga.type_at(0)),
                        _ => None,
                    };
                    if let Some(s) = x {
                        let (at, nf) = if m == "next" {
                            (i, vec![f[0], Lin::of(i).plus(1).v(), back])
                        } else {
                            let q = Lin::of(back).plus(-1).v();
                            (q, vec![f[0], i, q])
                        };
                        let nit = model(k, nf);
                        if *k == "itermut" {
                            let mut s = s;
                            if recs().is_some() {
                                let coll = e.deref(&s, f[0]);
                                if !known_at(&mut s, coll, at) {
                                    return Some(vec![]);
                                }
                            }
                            let mut v = f[0];
                            if let N::Ptr(cl, cp) = v.n() {
                                let mut cp = cp.clone();
                                cp.push(Pj::Index(at));
                                if is_map_iter(t) {
                                    let coll = e.deref(&s, f[0]);
                                    let et = coll.ty().and_then(elem_ty).map(peel);
                                    let pair = elem(coll, at, et);
                                    let (kt, vt) = match ety.map(|t| t.kind()) {
                                        Some(ty::Tuple(ts)) => (Some(peel(ts[0])), peel(ts[1])),
                                        _ => (None, tcx().types.unit),
                                    };
                                    cp.push(Pj::Field(STRUCT, 1, vt));
                                    v = adt(0, vec![field(pair, STRUCT, 0, kt), ptr(*cl, cp)], ety);
                                } else {
                                    v = ptr(*cl, cp);
                                }
                            }
                            e.store(&mut s, *l, path, nit);
                            out.push((s, option(c.ret_ty, Some(v))));
                        } else {
                            for (mut s, v) in elements(e, &s, f[0], at, ety) {
                                e.store(&mut s, *l, path, nit);
                                // a pair of references is a tuple of the values
                                out.push((s, option(c.ret_ty, Some(v))));
                            }
                        }
                    }
                    if let Some(s) = y {
                        out.push((s, option(c.ret_ty, None)));
                    }
                    return Some(out);
                }
            }
            // opaque base iterator (e.g. lines of a file): fresh element or end
            if let Some(p) = adt_path(t) {
                let adaptor = p.starts_with("std::iter::");
                if !adaptor && !local_ty(t) {
                    return None;
                }
            }
            None
        }
        "zip" if a.len() == 2 => {
            let ta = ty_args(c);
            let outs = rt_call(e, st, c, "zip_other", vec![*ta.get(1)?], vec![a[1]])?;
            Some(outs.into_iter().map(|(s, b)| (s, adt(0, vec![a[0], b, int(0), int(0)], Some(c.ret_ty)))).collect())
        }
        "len" => {
            let it = e.deref(st, a[0]);
            if let N::Model(_, f) = it.n() {
                return Some(vec![(st.clone(), Lin::of(f[2]).sub(&Lin::of(f[1])).v())]);
            }
            None
        }
        "all" | "any" | "find" | "find_map" | "position" | "fold" | "for_each" | "count" | "last" | "nth" | "max_by_key" | "min_by_key" | "max" | "min" | "sum" | "try_fold" | "try_for_each" | "rposition" | "rfind" | "partition" | "max_by" | "min_by" | "unzip" | "eq" => {
            let mut ta = ty_args(c);
            if let Some(x) = ta.first_mut() {
                // strip the reference of a by-ref receiver; the receiver is Self
                let _ = x;
            }
            let f = format!("iter_{m}");
            rt_fn(&f)?;
            rt_call(e, st, c, &f, ta, a.clone())
        }
        "collect" => {
            let ta = ty_args(c);
            let b = ta.get(1)?.as_type()?;
            let p = adt_path(b)?;
            match p.as_str() {
                "std::vec::Vec" => {
                    if let N::Model(k, f) = a[0].n() {
                        if *k == "iter" && f[1].as_int() == Some(0) && coll_len(f[0]) == f[2] {
                            return Some(vec![(st.clone(), f[0])]);
                        }
                    }
                    rt_call(e, st, c, "collect_vec", vec![ta[0]], a.clone())
                }
                "std::collections::HashMap" => {
                    let ty::Adt(_, ga) = b.kind() else { return None };
                    rt_call(e, st, c, "collect_map", vec![ta[0], ga.type_at(0).into(), ga.type_at(1).into()], a.clone())
                }
                "std::result::Result" => {
                    let ty::Adt(_, ga) = b.kind() else { return None };
                    if !is_path(ga.type_at(0), "std::vec::Vec") {
                        return None;
                    }
                    let el = elem_ty(ga.type_at(0))?;
                    rt_call(e, st, c, "collect_result", vec![ta[0], el.into(), ga.type_at(1).into()], a.clone())
                }
                "std::option::Option" => {
                    let ty::Adt(_, ga) = b.kind() else { return None };
                    if !is_path(ga.type_at(0), "std::vec::Vec") {
                        return None;
                    }
                    let el = elem_ty(ga.type_at(0))?;
                    rt_call(e, st, c, "collect_option", vec![ta[0], el.into()], a.clone())
                }
                _ => None,
            }
        }
        _ => None,
    }
}
fn local_ty(t: Ty) -> bool {
    match t.kind() {
        ty::Adt(d, _) => local_crate(d.did()),
        _ => false,
    }
}

/// bounds obligation
fn require(e: &mut Engine, st: &mut State, c: &Call, goals: &[V], kind: &str) -> bool {
    let okk = goals.iter().all(|g| st.query(*g) == Some(true));
    e.oblig(c.frame, c.span, kind, okk);
    if !okk {
        let sn = e.snippet(e.site(c.frame, c.span).1);
        e.fail(st, c.frame, c.span, kind, &sn);
    }
    for g in goals {
        if !st.assume(*g, true) {
            return false;
        }
    }
    true
}
fn range_of(e: &Engine, st: &State, r: V, t: Ty, len: V) -> Option<(V, V)> {
    let r = e.deref(st, r);
    let r = if r.is_term() { expand(r, None, st).unwrap_or(r) } else { r };
    let p = adt_path(peel(t))?;
    let f = match r.n() {
        N::Adt(_, f) => f.clone(),
        _ => return None,
    };
    Some(match p.as_str() {
        "std::ops::Range" => (f[0], f[1]),
        "std::ops::RangeFrom" => (f[0], len),
        "std::ops::RangeTo" => (int(0), f[0]),
        "std::ops::RangeFull" => (int(0), len),
        "std::ops::RangeInclusive" => (f[0], Lin::of(f[1]).plus(1).v()),
        "std::ops::RangeToInclusive" => (int(0), Lin::of(f[0]).plus(1).v()),
        _ => return None,
    })
}
fn index(e: &mut Engine, st: &State, c: &Call) -> R {
    let a = &c.args;
    let cv = e.deref(st, a[0]);
    let it = peel(c.arg_tys[1]);
    let mutable = c.tm.map(|t| t.ends_with("index_mut")).unwrap_or(false);
    let base = peel(c.arg_tys[0]);
    if is_path(base, "std::collections::HashMap") {
        return None;
    }
    let strb = is_string(base);
    let len = coll_len(cv);
    if is_int(it) {
        let i = e.deref(st, a[1]);
        let mut s = st.clone();
        if !require(e, &mut s, c, &[lt(i, len)], "index out of bounds") {
            return Some(vec![]);
        }
        if mutable {
            if let N::Ptr(l, p) = a[0].n() {
                let mut p = p.clone();
                p.push(Pj::Index(i));
                return Some(vec![(s, ptr(*l, p))]);
            }
        }
        return Some(elements(e, &s, cv, i, Some(peel(c.ret_ty))));
    }
    let (x, y) = range_of(e, st, a[1], it, len)?;
    let mut s = st.clone();
    if !require(e, &mut s, c, &[le(x, y), le(y, len)], if strb { "string range out of bounds" } else { "range out of bounds" }) {
        return Some(vec![]);
    }
    let n = Lin::of(y).sub(&Lin::of(x)).v();
    if strb {
        return Some(vec![(s, app("substr", vec![cv, x, n], Some(base)))]);
    }
    if mutable {
        if let N::Ptr(l, p) = a[0].n() {
            let mut p = p.clone();
            p.push(Pj::Sub(x, n));
            return Some(vec![(s, ptr(*l, p))]);
        }
    }
    Some(vec![(s, subslice(cv, x, n))])
}

fn vec_method(e: &mut Engine, st: &State, c: &Call, m: &str) -> R {
    let a = &c.args;
    let one = |v: V| -> R { Some(vec![(st.clone(), v)]) };
    let recv = |e: &Engine| -> V { a.first().map(|x| e.deref(st, *x)).unwrap_or_else(uninit) };
    let opt_elem = |e: &mut Engine, st: &State, v: V, i: V, cond: V| -> R {
        let (x, y) = split(st, cond);
        let mut out = vec![];
        if let Some(s) = x {
            let ety = match c.ret_ty.kind() {
                ty::Adt(_, ga) => Some(ga.type_at(0)),
                _ => None,
            };
            for (s, v) in elements(e, &s, v, i, ety) {
                out.push((s, option(c.ret_ty, Some(v))));
            }
        }
        if let Some(s) = y {
            out.push((s, option(c.ret_ty, None)));
        }
        Some(out)
    };
    match m {
        "new" | "with_capacity" => return one(seq(vec![])),
        "from_elem" => {
            if let Some(k) = a[1].as_int() {
                if k <= 16 {
                    return one(seq(vec![a[0]; k as usize]));
                }
            }
            return one(app("repeat", vec![a[0], a[1]], Some(c.ret_ty)));
        }
        "len" => {
            let v = recv(e);
            return one(coll_len(v));
        }
        "is_empty" => {
            let v = recv(e);
            return one(eq0(&Lin::of(coll_len(v))));
        }
        "as_slice" | "to_vec" | "into_vec" | "as_ref" | "into_boxed_slice" | "to_owned" => {
            let v = recv(e);
            return one(v);
        }
        "as_mut_slice" => return one(a[0]),
        "capacity" => return one(app("capacity", vec![a[0]], Some(c.ret_ty))),
        "reserve" | "shrink_to_fit" => return one(unit()),
        "iter" => {
            let v = recv(e);
            return one(iter(v));
        }
        "iter_mut" => return itermut(e, st, a[0]),
        "first" | "last" => {
            let v = recv(e);
            let l = coll_len(v);
            let i = if m == "first" { int(0) } else { Lin::of(l).plus(-1).v() };
            return opt_elem(e, st, v, i, not(eq0(&Lin::of(l))));
        }
        "get" if c.arg_tys.len() > 1 && is_int(peel(c.arg_tys[1])) => {
            let v = recv(e);
            let l = coll_len(v);
            return opt_elem(e, st, v, a[1], lt(a[1], l));
        }
        "get" => {
            let v = recv(e);
            let l = coll_len(v);
            let (x, y) = range_of(e, st, a[1], c.arg_tys[1], l)?;
            let mut out = vec![];
            let mut s = st.clone();
            if s.assume(le(x, y), true) && s.assume(le(y, l), true) {
                out.push((s, option(c.ret_ty, Some(subslice(v, x, Lin::of(y).sub(&Lin::of(x)).v())))));
            }
            for p in [le(x, y), le(y, l)] {
                let mut s = st.clone();
                if s.assume(p, false) {
                    out.push((s, option(c.ret_ty, None)));
                }
            }
            return Some(out);
        }
        "first_mut" | "last_mut" | "get_mut" => {
            let v = recv(e);
            let l = coll_len(v);
            let i = match m {
                "first_mut" => int(0),
                "last_mut" => Lin::of(l).plus(-1).v(),
                _ => a[1],
            };
            let (x, y) = split(st, if m == "get_mut" { lt(i, l) } else { not(eq0(&Lin::of(l))) });
            let mut out = vec![];
            if let (Some(s), N::Ptr(lc, p)) = (x, a[0].n()) {
                let mut p = p.clone();
                p.push(Pj::Index(i));
                out.push((s, option(c.ret_ty, Some(ptr(*lc, p)))));
            }
            if let Some(s) = y {
                out.push((s, option(c.ret_ty, None)));
            }
            return Some(out);
        }
        "push" => {
            let N::Ptr(l, p) = a[0].n() else { return None };
            let v = recv(e);
            let x = e.snap(st, a[1], 0);
            let nv = push_elem(st, v, x);
            let mut s = st.clone();
            e.store(&mut s, *l, p, nv);
            return Some(vec![(s, unit())]);
        }
        "append" | "extend_from_slice" => {
            let N::Ptr(l, p) = a[0].n() else { return None };
            let v = recv(e);
            let w = e.deref(st, a[1]);
            let nv = append(st, v, w);
            let mut s = st.clone();
            e.store(&mut s, *l, p, nv);
            if let ("append", N::Ptr(l2, p2)) = (m, a[1].n()) {
                e.store(&mut s, *l2, p2, seq(vec![]));
            }
            return Some(vec![(s, unit())]);
        }
        "insert" => {
            let N::Ptr(l, p) = a[0].n() else { return None };
            let v = recv(e);
            let mut s = st.clone();
            if !require(e, &mut s, c, &[le(a[1], coll_len(v))], "insert out of bounds") {
                return Some(vec![]);
            }
            let nv = match (v.n(), a[1].as_int()) {
                (N::Seq(x), Some(k)) if (k as usize) <= x.len() && x.len() < 24 => {
                    let mut x = x.clone();
                    x.insert(k as usize, a[2]);
                    seq(x)
                }
                _ => {
                    let mut al = alts_of(v, st);
                    add_alt(&mut al, Alt { t: a[2], facts: vec![] });
                    summ(app("insert", vec![v, a[1], a[2]], None), Lin::of(coll_len(v)).plus(1).v(), al)
                }
            };
            e.store(&mut s, *l, p, nv);
            return Some(vec![(s, unit())]);
        }
        "pop" => {
            let N::Ptr(l, p) = a[0].n() else { return None };
            let v = recv(e);
            let len = coll_len(v);
            let (x, y) = split(st, not(eq0(&Lin::of(len))));
            let mut out = vec![];
            if let Some(s) = x {
                let i = Lin::of(len).plus(-1).v();
                for (mut s, el) in elements(e, &s, v, i, None) {
                    let nv = match v.n() {
                        N::Seq(x) => seq(x[..x.len() - 1].to_vec()),
                        _ => subset(&s, v, "pop", i),
                    };
                    e.store(&mut s, *l, p, nv);
                    out.push((s, option(c.ret_ty, Some(el))));
                }
            }
            if let Some(s) = y {
                out.push((s, option(c.ret_ty, None)));
            }
            return Some(out);
        }
        "remove" | "swap_remove" => {
            let N::Ptr(l, p) = a[0].n() else { return None };
            let v = recv(e);
            let len = coll_len(v);
            let mut s = st.clone();
            if !require(e, &mut s, c, &[lt(a[1], len)], "remove out of bounds") {
                return Some(vec![]);
            }
            let mut out = vec![];
            for (mut s, el) in elements(e, &s, v, a[1], Some(peel(c.ret_ty))) {
                let nv = match (v.n(), a[1].as_int()) {
                    (N::Seq(x), Some(k)) if (k as usize) < x.len() => {
                        let mut x = x.clone();
                        if m == "remove" {
                            x.remove(k as usize);
                        } else {
                            x.swap_remove(k as usize);
                        }
                        seq(x)
                    }
                    _ => subset(&s, v, "removed", Lin::of(len).plus(-1).v()),
                };
                e.store(&mut s, *l, p, nv);
                out.push((s, el));
            }
            return Some(out);
        }
        "drain" => {
            let N::Ptr(l, p) = a[0].n() else { return None };
            let v = recv(e);
            let len = coll_len(v);
            let (x, y) = range_of(e, st, a[1], c.arg_tys[1], len)?;
            let mut s = st.clone();
            if !require(e, &mut s, c, &[le(x, y), le(y, len)], "range out of bounds") {
                return Some(vec![]);
            }
            let whole = x.as_int() == Some(0) && y == len;
            let nv = if whole {
                seq(vec![])
            } else {
                let left = Lin::of(len).sub(&Lin::of(y)).add(&Lin::of(x), 1).v();
                subset(&s, v, "drained", left)
            };
            let taken = if whole { v } else { subslice(v, x, y) };
            e.store(&mut s, *l, p, nv);
            return Some(vec![(s, iter(taken))]);
        }
        "clear" => {
            let N::Ptr(l, p) = a[0].n() else { return None };
            let mut s = st.clone();
            e.store(&mut s, *l, p, seq(vec![]));
            return Some(vec![(s, unit())]);
        }
        "truncate" => {
            let N::Ptr(l, p) = a[0].n() else { return None };
            let v = recv(e);
            let len = coll_len(v);
            let mut out = vec![];
            let (x, y) = split(st, lt(a[1], len));
            if let Some(mut s) = x {
                let nv = subslice(v, int(0), a[1]);
                e.store(&mut s, *l, p, nv);
                out.push((s, unit()));
            }
            if let Some(s) = y {
                out.push((s, unit()));
            }
            return Some(out);
        }
        "resize" => {
            let N::Ptr(l, p) = a[0].n() else { return None };
            let v = recv(e);
            let x = e.snap(st, a[2], 0);
            let len = coll_len(v);
            let mut out = vec![];
            let (y, z) = split(st, le(a[1], len));
            if let Some(mut s) = y {
                let nv = subslice(v, int(0), a[1]);
                e.store(&mut s, *l, p, nv);
                out.push((s, unit()));
            }
            if let Some(mut s) = z {
                let more = Lin::of(a[1]).sub(&Lin::of(len)).v();
                let nv = append(&s, v, app("repeat", vec![x, more], v.ty()));
                e.store(&mut s, *l, p, nv);
                out.push((s, unit()));
            }
            return Some(out);
        }
        "retain" | "dedup" | "dedup_by_key" | "dedup_by" => {
            let N::Ptr(l, p) = a[0].n() else { return None };
            if m == "retain" {
                let el = match peel(c.arg_tys[0]).kind() {
                    ty::Adt(_, ga) => ga.type_at(0),
                    _ => return None,
                };
                let ft = c.arg_tys[1];
                return rt_call(e, st, c, "vec_retain", vec![el.into(), ft.into()], a.clone());
            }
            let v = recv(e);
            let mut s = st.clone();
            let nl = e.fresh(st, c.frame, c.bb, "len", usize_ty());
            s.assume(le(nl, coll_len(v)), true);
            let nv = subset(&s, v, m, nl);
            e.store(&mut s, *l, p, nv);
            return Some(vec![(s, unit())]);
        }
        "reverse" | "sort" | "sort_by" | "sort_by_key" | "sort_unstable" | "sort_unstable_by" | "sort_unstable_by_key" | "swap" | "rotate_left" | "rotate_right" => {
            let N::Ptr(l, p) = a[0].n() else { return None };
            let v = recv(e);
            let mut s = st.clone();
            let nv = match (m, v.n()) {
                ("reverse", N::Seq(x)) => {
                    let mut x = x.clone();
                    x.reverse();
                    seq(x)
                }
                (_, N::Seq(x)) if x.len() <= 1 => v,
                _ => subset(st, v, m, coll_len(v)),
            };
            e.store(&mut s, *l, p, nv);
            return Some(vec![(s, unit())]);
        }
        "contains" => {
            let v = recv(e);
            let x = e.snap(st, a[1], 0);
            if let N::Seq(es) = v.n() {
                if es.is_empty() {
                    return one(boolv(false));
                }
            }
            return one(app("contains", vec![v, x], Some(c.ret_ty)));
        }
        "concat" | "join" => {
            let v = e.snap(st, a[0], 0);
            if let (N::Seq(l), "concat", true) = (v.n(), m, crate::interp::is_coll_ty(c.ret_ty)) {
                let first = seq(vec![]);
                return one(l.iter().fold(first, |x, y| append(st, x, *y)));
            }
            return one(app(m, vec![v], Some(c.ret_ty)));
        }
        "split_at" => {
            let v = recv(e);
            let l = coll_len(v);
            let mut s = st.clone();
            if !require(e, &mut s, c, &[le(a[1], l)], "split out of bounds") {
                return Some(vec![]);
            }
            let r = adt(0, vec![subslice(v, int(0), a[1]), subslice(v, a[1], Lin::of(l).sub(&Lin::of(a[1])).v())], Some(c.ret_ty));
            return Some(vec![(s, r)]);
        }
        "copy_from_slice" | "clone_from_slice" => {
            let N::Ptr(l, p) = a[0].n() else { return None };
            let v = recv(e);
            let w = e.deref(st, a[1]);
            let mut s = st.clone();
            if !require(e, &mut s, c, &[eq0(&Lin::of(coll_len(v)).sub(&Lin::of(coll_len(w))))], "copy length mismatch") {
                return Some(vec![]);
            }
            e.store(&mut s, *l, p, w);
            return Some(vec![(s, unit())]);
        }
        "split_first" | "split_last" => {
            let v = recv(e);
            let l = coll_len(v);
            let (x, y) = split(st, not(eq0(&Lin::of(l))));
            let mut out = vec![];
            let tt = match c.ret_ty.kind() {
                ty::Adt(_, ga) => ga.type_at(0),
                _ => return None,
            };
            if let Some(s) = x {
                let n1 = Lin::of(l).plus(-1).v();
                let (i, off) = if m == "split_first" { (int(0), int(1)) } else { (n1, int(0)) };
                for (s, el) in elements(e, &s, v, i, None) {
                    let t = adt(0, vec![el, subslice(v, off, n1)], Some(tt));
                    out.push((s, option(c.ret_ty, Some(t))));
                }
            }
            if let Some(s) = y {
                out.push((s, option(c.ret_ty, None)));
            }
            return Some(out);
        }
        _ => {}
    }
    None
}
pub fn str_concat(a: V, b: V) -> V {
    match (a.n(), b.n()) {
        (N::Str(x), N::Str(y)) => strv(&format!("{x}{y}")),
        (N::Str(x), _) if x.is_empty() => b,
        (_, N::Str(y)) if y.is_empty() => a,
        _ => app("concat", vec![a, b], a.ty().or(b.ty())),
    }
}
/// the text of a formatting template
fn template(t: V, args: V) -> Option<V> {
    let N::Seq(b) = t.n() else { return None };
    let N::Seq(x) = args.n() else { return None };
    let b: Vec<u8> = b.iter().filter_map(|v| v.as_int()).map(|v| v as u8).collect();
    let (mut i, mut next) = (0, 0);
    let mut out = strv("");
    while i < b.len() {
        let n = b[i];
        i += 1;
        let lit = match n {
            0 => return if out.size() > 120 { None } else { Some(out) },
            1..=127 => n as usize,
            128 => {
                let l = u16::from_le_bytes([*b.get(i)?, *b.get(i + 1)?]) as usize;
                i += 2;
                l
            }
            0xC0 => {
                let N::App(f, s) = x.get(next)?.n() else { return None };
                if *f != "shown" {
                    return None;
                }
                next += 1;
                out = str_concat(out, s[0]);
                continue;
            }
            _ => return None,
        };
        out = str_concat(out, strv(std::str::from_utf8(b.get(i..i + lit)?).ok()?));
        i += lit;
    }
    None
}
fn str_method(e: &mut Engine, st: &State, c: &Call, m: &str) -> R {
    let a = &c.args;
    let one = |v: V| -> R { Some(vec![(st.clone(), v)]) };
    let snap = |e: &Engine, i: usize| -> V { e.snap(st, a[i], 0) };
    match m {
        "new" | "with_capacity" if a.len() <= 1 && c.ret_ty == peel(c.ret_ty) => return one(strv("")),
        "as_str" | "as_string" | "to_owned" | "into_string" | "into_boxed_str" | "to_string" => {
            let v = e.deref(st, a[0]);
            return one(v);
        }
        "len" => {
            let v = snap(e, 0);
            return one(coll_len(v));
        }
        "is_empty" => {
            let v = snap(e, 0);
            return one(eq0(&Lin::of(coll_len(v))));
        }
        "as_bytes" | "into_bytes" | "bytes" => {
            let v = snap(e, 0);
            let t = Ty::new_slice(tcx(), tcx().types.u8);
            let b = app("bytes", vec![v], Some(t));
            if m == "bytes" {
                return one(iter(b));
            }
            return one(b);
        }
        "chars" => {
            let v = snap(e, 0);
            let t = Ty::new_slice(tcx(), tcx().types.char);
            return one(iter(app("chars", vec![v], Some(t))));
        }
        "char_indices" => {
            let v = snap(e, 0);
            let t = Ty::new_slice(tcx(), Ty::new_tup(tcx(), &[tcx().types.usize, tcx().types.char]));
            return one(iter(app("char_indices", vec![v], Some(t))));
        }
        "split" | "rsplit" | "split_terminator" | "split_whitespace" | "lines" | "splitn" | "split_inclusive" => {
            let mut args: Vec<V> = vec![];
            for i in 0..a.len() {
                args.push(snap(e, i));
            }
            let t = Ty::new_slice(tcx(), tcx().types.str_);
            let coll = app(m, args, Some(t));
            let mut s = st.clone();
            if m == "split" || m == "rsplit" {
                s.assume(ge0(&Lin::of(coll_len(coll)).plus(-1)), true);
            }
            return Some(vec![(s, iter(coll))]);
        }
        "starts_with" | "ends_with" | "contains" | "eq_ignore_ascii_case" | "is_char_boundary" | "is_ascii" => {
            let mut args: Vec<V> = vec![];
            for i in 0..a.len() {
                args.push(snap(e, i));
            }
            if m == "ends_with" {
                if let N::Str(x) = args[1].n() {
                    if x.is_empty() {
                        return one(boolv(true));
                    }
                }
            }
            return one(app(m, args, Some(c.ret_ty)));
        }
        "strip_suffix" | "strip_prefix" => {
            let (v, w) = (snap(e, 0), snap(e, 1));
            let end = m == "strip_suffix";
            let has = app(if end { "ends_with" } else { "starts_with" }, vec![v, w], Some(tcx().types.bool));
            let ll = if w.ty().map(|t| t.is_str()).unwrap_or(false) || matches!(w.n(), N::Str(_)) || w.ty().and_then(adt_path).as_deref() == Some("std::string::String") {
                Some(Lin::of(coll_len(w)))
            } else if w.as_int().map(|x| x < 128).unwrap_or(false) {
                Some(Lin::k(1))
            } else {
                None
            };
            let mut out = vec![];
            let (yes, no) = split(st, has);
            if let Some(mut s) = yes {
                let n = Lin::of(coll_len(v));
                let rest = match &ll {
                    Some(l) => {
                        let rn = n.sub(l);
                        s.assume(ge0(&rn), true);
                        app("substr", if end { vec![v, int(0), rn.v()] } else { vec![v, l.v(), rn.v()] }, Some(tcx().types.str_))
                    }
                    None => app(m, vec![v, w], Some(tcx().types.str_)),
                };
                out.push((s, option(c.ret_ty, Some(rest))));
            }
            if let Some(s) = no {
                out.push((s, option(c.ret_ty, None)));
            }
            return Some(out);
        }
        "parse" => {
            let v = snap(e, 0);
            return one(app("parse", vec![v], Some(c.ret_ty)));
        }
        "push" => {
            let N::Ptr(l, p) = a[0].n() else { return None };
            let v = e.deref(st, a[0]);
            let ch = snap(e, 1);
            let nv = app("str_push", vec![v, ch], v.ty().or(Some(peel(c.arg_tys[0]))));
            let nv = if nv.size() > 120 { e.fresh(st, c.frame, c.bb, "str", Some(peel(c.arg_tys[0]))) } else { nv };
            let mut s = st.clone();
            let (lo, ln) = (Lin::of(coll_len(v)), Lin::of(coll_len(nv)));
            s.assume(ge0(&ln.sub(&lo).plus(-1)), true);
            s.assume(ge0(&lo.plus(4).sub(&ln)), true);
            e.store(&mut s, *l, p, nv);
            return Some(vec![(s, unit())]);
        }
        "push_str" => {
            let N::Ptr(l, p) = a[0].n() else { return None };
            let v = e.deref(st, a[0]);
            let w = snap(e, 1);
            let mut s = st.clone();
            let nv = str_concat(v, w);
            e.store(&mut s, *l, p, nv);
            return Some(vec![(s, unit())]);
        }
        "clear" => {
            let N::Ptr(l, p) = a[0].n() else { return None };
            let mut s = st.clone();
            e.store(&mut s, *l, p, strv(""));
            return Some(vec![(s, unit())]);
        }
        "from_utf8" => {
            let v = snap(e, 0);
            let p = app("is_utf8", vec![v], None);
            let (x, y) = split(st, p);
            let mut out = vec![];
            if let Some(s) = x {
                out.push((s, ok(c.ret_ty, app("utf8", vec![v], Some(tcx().types.str_)))));
            }
            if let Some(s) = y {
                let et = match c.ret_ty.kind() {
                    ty::Adt(_, ga) => Some(ga.type_at(1)),
                    _ => None,
                };
                out.push((s, err(c.ret_ty, app("utf8err", vec![v], et))));
            }
            return Some(out);
        }
        _ => {}
    }
    // other string functions are pure
    let mutates = a.iter().any(|x| matches!(x.n(), N::Ptr(..))) && c.arg_tys.first().map(|t| matches!(t.kind(), ty::Ref(_, _, mm) if mm.is_mut())).unwrap_or(false);
    if !mutates && !c.ret_ty.is_never() {
        let args: Vec<V> = (0..a.len()).map(|i| snap(e, i)).collect();
        return one(app(m, args, Some(peel(c.ret_ty))));
    }
    None
}
/// maps are collections of (key, value) pairs
fn pairs_for_key(e: &mut Engine, st: &State, m: V, k: V, vty: Option<Ty>) -> Vec<(State, V)> {
    // each possibility: the value stored under `k`
    match m.n() {
        N::Seq(_) | N::Summ(..) => {
            let alts = alts_of(m, st);
            let id = if let N::Summ(i, _, _) = m.n() { *i } else { m };
            let tmp = summ(id, sym_untyped("?"), alts);
            let key = app("at", vec![k], usize_ty());
            let mut out = vec![];
            for (mut s, pair) in elements(e, st, tmp, key, None) {
                let pk = field(pair, STRUCT, 0, k.ty());
                let pv = field(pair, STRUCT, 1, vty);
                if s.assume(eqv(pk, k), true) {
                    out.push((s, pv));
                }
            }
            out
        }
        _ => vec![(st.clone(), app("map_get", vec![m, k], vty))],
    }
}
fn map_method(e: &mut Engine, st: &State, c: &Call, m: &str) -> R {
    let a = &c.args;
    let one = |v: V| -> R { Some(vec![(st.clone(), v)]) };
    let recv = |e: &Engine| -> V { a.first().map(|x| e.deref(st, *x)).unwrap_or_else(uninit) };
    let has = |mv: V, k: V| -> V {
        if let N::Seq(x) = mv.n() {
            if x.is_empty() {
                return boolv(false);
            }
        }
        let id = if let N::Summ(i, _, _) = mv.n() { *i } else { mv };
        app("has_key", vec![id, k], None)
    };
    match m {
        "new" | "with_capacity" | "with_hasher" => return one(seq(vec![])),
        "len" => {
            let v = recv(e);
            return one(coll_len(v));
        }
        "is_empty" => {
            let v = recv(e);
            return one(eq0(&Lin::of(coll_len(v))));
        }
        "contains_key" => {
            let v = recv(e);
            let k = e.snap(st, a[1], 0);
            return one(has(v, k));
        }
        "iter" => {
            let v = recv(e);
            return one(iter(v));
        }
        "iter_mut" => return itermut(e, st, a[0]),
        "values" | "keys" | "into_values" | "into_keys" => {
            let v = recv(e);
            let fi = if m.ends_with("values") { 1 } else { 0 };
            let et = match v.ty().and_then(elem_ty).map(|t| t.kind()) {
                Some(ty::Tuple(ts)) => Some(peel(ts[fi as usize])),
                _ => None,
            };
            let alts: Vec<Alt> = alts_of(v, st).into_iter().map(|x| Alt { t: field(x.t, STRUCT, fi, et), facts: x.facts }).collect();
            let s = summ(app(m, vec![v], None), coll_len(v), alts);
            return one(iter(s));
        }
        "get" => {
            let v = recv(e);
            let k = e.snap(st, a[1], 0);
            let vty = match c.ret_ty.kind() {
                ty::Adt(_, ga) => Some(peel(ga.type_at(0))),
                _ => None,
            };
            let (x, y) = split(st, has(v, k));
            let mut out = vec![];
            if let Some(s) = x {
                for (s, val) in pairs_for_key(e, &s, v, k, vty) {
                    out.push((s, option(c.ret_ty, Some(val))));
                }
            }
            if let Some(s) = y {
                out.push((s, option(c.ret_ty, None)));
            }
            return Some(out);
        }
        "get_mut" => {
            let N::Ptr(l, p) = a[0].n() else { return None };
            let v = recv(e);
            let k = e.snap(st, a[1], 0);
            let (x, y) = split(st, has(v, k));
            let mut out = vec![];
            if let Some(s) = x {
                let vt = match c.ret_ty.kind() {
                    ty::Adt(_, ga) => peel(ga.type_at(0)),
                    _ => return None,
                };
                let mut p = p.clone();
                p.push(Pj::Index(app("at", vec![k], usize_ty())));
                p.push(Pj::Field(STRUCT, 1, vt));
                out.push((s, option(c.ret_ty, Some(ptr(*l, p)))));
            }
            if let Some(s) = y {
                out.push((s, option(c.ret_ty, None)));
            }
            return Some(out);
        }
        "insert" => {
            let N::Ptr(l, p) = a[0].n() else { return None };
            let v = recv(e);
            let k = e.snap(st, a[1], 0);
            let val = e.snap(st, a[2], 0);
            let vt = match c.ret_ty.kind() {
                ty::Adt(_, ga) => Some(peel(ga.type_at(0))),
                _ => None,
            };
            let nv = map_insert(st, v, k, val);
            let (x, y) = split(st, has(v, k));
            let mut out = vec![];
            if let Some(s) = x {
                let old = app("map_get", vec![v, k], vt);
                let mut s = s;
                e.store(&mut s, *l, p, nv);
                out.push((s, option(c.ret_ty, Some(old))));
            }
            if let Some(mut s) = y {
                e.store(&mut s, *l, p, nv);
                out.push((s, option(c.ret_ty, None)));
            }
            return Some(out);
        }
        "remove" => {
            let N::Ptr(l, p) = a[0].n() else { return None };
            let v = recv(e);
            let k = e.snap(st, a[1], 0);
            let vt = match c.ret_ty.kind() {
                ty::Adt(_, ga) => Some(peel(ga.type_at(0))),
                _ => None,
            };
            let (x, y) = split(st, has(v, k));
            let mut out = vec![];
            if let Some(s) = x {
                for (mut s, val) in pairs_for_key(e, &s, v, k, vt) {
                    let nl = e.fresh(&s, c.frame, c.bb, "len", usize_ty());
                    let al = alts_of(v, &s);
                    let nv = summ(app("map_removed", vec![v, k], None), nl, al);
                    e.store(&mut s, *l, p, nv);
                    out.push((s, option(c.ret_ty, Some(val))));
                }
            }
            if let Some(s) = y {
                out.push((s, option(c.ret_ty, None)));
            }
            return Some(out);
        }
        "entry" => {
            let k = e.snap(st, a[1], 0);
            return one(model("entry", vec![a[0], k]));
        }
        "or_default" | "or_insert" | "or_insert_with" => {
            let N::Model(_, f) = a[0].n() else { return None };
            let N::Ptr(l, p) = f[0].n() else { return None };
            let mv = e.deref(st, f[0]);
            let k = f[1];
            let vt = peel(c.ret_ty);
            let mut np = p.clone();
            np.push(Pj::Index(app("at", vec![k], usize_ty())));
            np.push(Pj::Field(STRUCT, 1, vt));
            let (x, y) = split(st, has(mv, k));
            let mut out = vec![];
            if let Some(s) = x {
                out.push((s, ptr(*l, np.clone())));
            }
            if let Some(s) = y {
                let vals = match m {
                    "or_default" => vec![(s, default_of(vt).unwrap_or_else(|| app("default", vec![], Some(vt))))],
                    "or_insert" => vec![(s, a[1])],
                    _ => e.call_value(c.frame, c.bb + 10_000, s, a[1], vec![], vec![], vt, c.span),
                };
                for (mut s, d) in vals {
                    let nv = map_insert(&s, mv, k, d);
                    e.store(&mut s, *l, p, nv);
                    // precise cell for the fresh entry
                    if let N::Seq(es) = nv.n() {
                        let mut q = p.clone();
                        q.push(Pj::Index(int(es.len() as i128 - 1)));
                        q.push(Pj::Field(STRUCT, 1, vt));
                        out.push((s, ptr(*l, q)));
                    } else {
                        out.push((s, ptr(*l, np.clone())));
                    }
                }
            }
            return Some(out);
        }
        "retain" => {
            let ft = c.arg_tys[1];
            let (kt, vt) = match peel(c.arg_tys[0]).kind() {
                ty::Adt(_, ga) => (ga.type_at(0), ga.type_at(1)),
                _ => return None,
            };
            return rt_call(e, st, c, "map_retain", vec![kt.into(), vt.into(), ft.into()], a.clone());
        }
        "clear" => {
            let N::Ptr(l, p) = a[0].n() else { return None };
            let mut s = st.clone();
            e.store(&mut s, *l, p, seq(vec![]));
            return Some(vec![(s, unit())]);
        }
        _ => {}
    }
    None
}
pub fn map_insert(st: &State, m: V, k: V, v: V) -> V {
    let pair = adt(0, vec![k, v], None);
    if let N::Seq(es) = m.n() {
        if es.iter().any(|x| x.fields().map(|f| f.1[0] == k).unwrap_or(false)) {
            let n: Vec<V> = es.iter().map(|x| if x.fields().map(|f| f.1[0] == k).unwrap_or(false) { pair } else { *x }).collect();
            return seq(n);
        }
    }
    push_elem(st, m, pair)
}
fn now_loc() -> Loc {
    Loc(0, 900)
}
fn time_method(e: &mut Engine, st: &State, c: &Call, m: &str) -> R {
    let a = &c.args;
    let one = |v: V| -> R { Some(vec![(st.clone(), v)]) };
    let g = |e: &Engine, i: usize| -> Lin { Lin::of(e.snap(st, a[i], 0)) };
    let u64t = Some(tcx().types.u64);
    match (c.name, m) {
        ("std::time::Instant::now", _) => {
            let n = e.fresh(st, c.frame, c.bb, "now", Some(c.ret_ty));
            let mut s = st.clone();
            let prev = s.get(now_loc());
            if !prev.is_uninit() {
                s.assume(le(prev, n), true);
            }
            s.set(now_loc(), n);
            Some(vec![(s, n)])
        }
        (_, "from_secs") => one(g(e, 0).scale(NS).v()),
        (_, "from_millis") => one(g(e, 0).scale(1_000_000).v()),
        (_, "from_micros") => one(g(e, 0).scale(1000).v()),
        (_, "from_nanos") => one(g(e, 0).v()),
        ("std::time::Duration::new", _) => one(g(e, 0).scale(NS).add(&g(e, 1), 1).v()),
        (_, "as_secs") => {
            let d = g(e, 0);
            let r = e.binop(st, rustc_middle::mir::BinOp::Div, d.v(), int(NS), tcx().types.u64);
            let mut s = st.clone();
            s.assume(ge0(&Lin::of(r)), true);
            let _ = u64t;
            Some(vec![(s, r)])
        }
        (_, "is_zero") => one(eq0(&g(e, 0))),
        (_, "elapsed") => {
            let n = e.fresh(st, c.frame, c.bb, "now", Some(c.arg_tys[0]).map(peel));
            let mut s = st.clone();
            let prev = s.get(now_loc());
            if !prev.is_uninit() {
                s.assume(le(prev, n), true);
            }
            s.set(now_loc(), n);
            sat_sub(&s, Lin::of(n), g(e, 0))
        }
        (_, "duration_since") | (_, "saturating_duration_since") | (_, "saturating_sub") => sat_sub(st, g(e, 0), g(e, 1)),
        (_, "checked_duration_since") | (_, "checked_sub") => {
            let (x, y) = (g(e, 0), g(e, 1));
            let (p, q) = split(st, ge0(&x.sub(&y)));
            let mut out = vec![];
            if let Some(s) = p {
                out.push((s, option(c.ret_ty, Some(x.sub(&y).v()))));
            }
            if let Some(s) = q {
                out.push((s, option(c.ret_ty, None)));
            }
            Some(out)
        }
        (_, "checked_add") => {
            let (x, y) = (g(e, 0), g(e, 1));
            Some(vec![(st.clone(), option(c.ret_ty, Some(x.add(&y, 1).v()))), (st.clone(), option(c.ret_ty, None))])
        }
        _ => None,
    }
}
fn sat_sub(st: &State, x: Lin, y: Lin) -> R {
    let (p, q) = split(st, ge0(&x.sub(&y)));
    let mut out = vec![];
    if let Some(s) = p {
        out.push((s, x.sub(&y).v()));
    }
    if let Some(s) = q {
        out.push((s, int(0)));
    }
    Some(out)
}
fn time_arith(e: &mut Engine, st: &State, c: &Call, m: &str) -> R {
    let a = &c.args;
    let x = Lin::of(e.snap(st, a[0], 0));
    let y = Lin::of(e.snap(st, a[1], 0));
    let inst_sub = m == "sub" && is_path(peel(c.arg_tys[1]), "std::time::Instant");
    match m {
        "add" => Some(vec![(st.clone(), x.add(&y, 1).v())]),
        "sub" if inst_sub => sat_sub(st, x, y),
        "sub" => Some(vec![(st.clone(), x.sub(&y).v())]),
        "add_assign" | "sub_assign" => {
            let N::Ptr(l, p) = a[0].n() else { return None };
            let mut s = st.clone();
            let r = if m == "add_assign" { x.add(&y, 1) } else { x.sub(&y) };
            e.store(&mut s, *l, p, r.v());
            Some(vec![(s, unit())])
        }
        _ => None,
    }
}
fn num_op(e: &mut Engine, st: &State, c: &Call, m: &str) -> R {
    let a = &c.args;
    let t = peel(c.self_ty()?);
    let x = Lin::of(e.snap(st, a[0], 0));
    let y = Lin::of(e.snap(st, a[1], 0));
    let (lo, hi) = ty_range(t)?;
    let r = if m.starts_with("add") { x.add(&y, 1) } else { x.sub(&y) };
    let mut s = st.clone();
    if !require(e, &mut s, c, &[ge0(&r.plus(-lo)), ge0(&r.scale(-1).plus(hi))], "arithmetic overflow") {
        return Some(vec![]);
    }
    if m.ends_with("_assign") {
        let N::Ptr(l, p) = a[0].n() else { return None };
        e.store(&mut s, *l, p, r.v());
        return Some(vec![(s, unit())]);
    }
    Some(vec![(s, r.v())])
}
fn num_method(e: &mut Engine, st: &State, c: &Call, m: &str) -> R {
    let a = &c.args;
    let one = |v: V| -> R { Some(vec![(st.clone(), v)]) };
    let t = peel(c.arg_tys.first().copied()?);
    let x = e.snap(st, a[0], 0);
    let lx = Lin::of(x);
    let ly = if a.len() > 1 { Lin::of(e.snap(st, a[1], 0)) } else { Lin::k(0) };
    if !is_int(t) {
        // from_be_bytes and friends
        if let ("from_be_bytes" | "from_le_bytes" | "from_ne_bytes", Some(rt @ ty::Uint(_))) = (m, Some(peel(c.ret_ty).kind())) {
            let n = match rt {
                ty::Uint(u) => u.bit_width().unwrap_or(64) as i128 / 8,
                _ => 0,
            };
            let mut s = Lin::k(0);
            for i in 0..n {
                let k = if m == "from_be_bytes" { n - 1 - i } else { i };
                s = s.add(&Lin::of(e.read_index(x, int(i))).scale(1i128 << (8 * k)), 1);
            }
            return one(s.v());
        }
        if m.starts_with("from_") {
            return one(app(m, vec![x], Some(c.ret_ty)));
        }
        return None;
    }
    let (lo, hi) = ty_range(t)?;
    let lin_op = |m: &str| -> Option<Lin> {
        Some(if m.ends_with("_add") {
            lx.add(&ly, 1)
        } else if m.ends_with("_sub") {
            lx.sub(&ly)
        } else if m.ends_with("_mul") {
            if ly.is_const() {
                lx.scale(ly.c)
            } else if lx.is_const() {
                ly.scale(lx.c)
            } else {
                Lin::of(app("mul", vec![lx.v().min(ly.v()), lx.v().max(ly.v())], Some(t)))
            }
        } else {
            return None;
        })
    };
    match m {
        "to_be_bytes" | "to_le_bytes" | "to_ne_bytes" => {
            let w = match t.kind() {
                ty::Uint(u) => u.bit_width().unwrap_or(64) / 8,
                ty::Int(u) => u.bit_width().unwrap_or(64) / 8,
                _ => return None,
            };
            let mut v = vec![];
            for i in 0..w {
                let k = if m == "to_be_bytes" { w - 1 - i } else { i };
                let d = e.binop(st, rustc_middle::mir::BinOp::Shr, x, int(8 * k as i128), t);
                let b = if k == w - 1 { d } else { e.binop(st, rustc_middle::mir::BinOp::Rem, d, int(256), t) };
                v.push(b);
            }
            return one(seq(v));
        }
        "checked_add" | "checked_sub" | "checked_mul" => {
            let r = lin_op(m)?;
            let mut out = vec![];
            let mut s = st.clone();
            if s.assume(ge0(&r.plus(-lo)), true) && s.assume(ge0(&r.scale(-1).plus(hi)), true) {
                out.push((s, option(c.ret_ty, Some(r.v()))));
            }
            for p in [ge0(&r.plus(-lo)), ge0(&r.scale(-1).plus(hi))] {
                let mut s = st.clone();
                if s.assume(p, false) {
                    out.push((s, option(c.ret_ty, None)));
                }
            }
            return Some(out);
        }
        "saturating_add" | "saturating_sub" | "saturating_mul" => {
            let r = lin_op(m)?;
            let mut out = vec![];
            let mut s = st.clone();
            if s.assume(ge0(&r.plus(-lo)), true) && s.assume(ge0(&r.scale(-1).plus(hi)), true) {
                out.push((s, r.v()));
            }
            let mut s = st.clone();
            if s.assume(ge0(&r.plus(-lo)), false) {
                out.push((s, int(lo)));
            }
            let mut s = st.clone();
            if s.assume(ge0(&r.scale(-1).plus(hi)), false) {
                out.push((s, int(hi)));
            }
            return Some(out);
        }
        "wrapping_add" | "wrapping_sub" | "wrapping_mul" => {
            let r = lin_op(m)?;
            let v = e.int_result(st, r, t, m, lx.v(), ly.v());
            return one(v);
        }
        "abs_diff" => {
            let mut out = vec![];
            let (p, q) = split(st, ge0(&lx.sub(&ly)));
            if let Some(s) = p {
                out.push((s, lx.sub(&ly).v()));
            }
            if let Some(s) = q {
                out.push((s, ly.sub(&lx).v()));
            }
            return Some(out);
        }
        "div_ceil" => {
            if ly.is_const() && ly.c > 0 {
                let v = lx.plus(ly.c - 1).v();
                let r = e.binop(st, rustc_middle::mir::BinOp::Div, v, int(ly.c), t);
                return one(r);
            }
        }
        "is_ascii_alphanumeric" | "is_ascii_digit" | "is_ascii" | "is_ascii_alphabetic" => return one(app(m, vec![x], Some(c.ret_ty))),
        _ => {}
    }
    if c.ret_ty.is_bool() || is_int(c.ret_ty) {
        let args: Vec<V> = (0..a.len()).map(|i| e.snap(st, a[i], 0)).collect();
        return one(app(m, args, Some(c.ret_ty)));
    }
    None
}
