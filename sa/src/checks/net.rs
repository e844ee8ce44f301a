//! Threads, sockets and locks: no lock across blocking work (C22), time-outs on connections
//! (C27), the thread pool (C28), servers stopping together (C29).
use super::base::*;
use super::frames::{either, reaches_call};
use super::layout::{direct_calls, reachable};
use super::wire::{rob, sig_of};
use super::*;
use crate::models;
use rustc_span::Span;
use std::collections::{HashMap, HashSet};

const BLOCKING: &[&str] = &[
    "std::thread::sleep", "JoinHandle::join", "mpsc::Receiver::recv", "mpsc::Receiver::recv_timeout", "mpsc::Receiver::iter", "mpsc::Iter", "mpsc::IntoIter", "mpsc::SyncSender::send", "std::net::", "std::io::", "std::fs::", "Condvar::wait", "std::sync::Barrier::wait", "std::process::",
];
const LOCKS: &[&str] = &["Mutex::lock", "Mutex::try_lock", "RwLock::read", "RwLock::write", "RwLock::try_read", "RwLock::try_write"];
fn blocking(n: &str, tm: Option<&str>) -> bool {
    let tm = tm.unwrap_or("");
    BLOCKING.iter().any(|b| n.contains(b)) && !n.contains("std::io::Error") && !n.contains("ErrorKind") && !n.contains("std::net::IpAddr") && !n.contains("Addr::")
        || tm.starts_with("std::io::Read") || tm.starts_with("std::io::Write") || tm.starts_with("std::net::ToSocketAddrs")
}
fn is_lock(n: &str) -> bool {
    LOCKS.iter().any(|l| n.ends_with(l))
}
/// the function and the closures written inside it
pub fn own(d: DefId) -> Vec<DefId> {
    let mut v = vec![d];
    let mut i = 0;
    while i < v.len() {
        for x in direct_calls(v[i]) {
            if tcx().is_closure_like(x) && tcx().typeck_root_def_id(x) == d && !v.contains(&x) {
                v.push(x);
            }
        }
        i += 1;
    }
    v
}
fn mentions_ty(t: Ty, what: &dyn Fn(&str) -> bool, d: u32) -> bool {
    let t = peel(t);
    if d == 0 {
        return false;
    }
    match t.kind() {
        ty::Adt(a, g) => what(&path_of(a.did())) || g.types().any(|x| mentions_ty(norm(x), what, d - 1)),
        ty::Tuple(ts) => ts.iter().any(|x| mentions_ty(x, what, d - 1)),
        _ => false,
    }
}
fn is_guard_ty(p: &str) -> bool {
    p.ends_with("MutexGuard") || p.ends_with("RwLockReadGuard") || p.ends_with("RwLockWriteGuard")
}
/// function items used in the body of `d`, with their type arguments
pub fn uses(d: DefId) -> Vec<(DefId, ty::GenericArgsRef<'static>)> {
    if !tcx().is_mir_available(d) {
        return vec![];
    }
    struct U(Vec<(DefId, ty::GenericArgsRef<'static>)>);
    impl rustc_middle::mir::visit::Visitor<'static> for U {
        fn visit_const_operand(&mut self, c: &rustc_middle::mir::ConstOperand<'static>, _l: rustc_middle::mir::Location) {
            if let ty::FnDef(d, a) = c.const_.ty().kind() {
                self.0.push((*d, a.skip_binder()));
            }
        }
    }
    use rustc_middle::mir::visit::Visitor;
    let mut u = U(vec![]);
    u.visit_body(tcx().optimized_mir(d));
    u.0
}

// ---- C22 ------------------------------------------------------------------------------------
const HELD: Loc = Loc(0, 70);
const HELD_TY: Loc = Loc(0, 72);
#[derive(Default)]
struct L {
    callbacks: bool,
    seen: usize,
}
fn guards_in(v: V) -> usize {
    match v.n() {
        N::Model(k, _) if *k == "guard" => 1,
        N::Adt(_, f) => f.iter().map(|x| guards_in(*x)).sum(),
        _ => 0,
    }
}
pub fn fob(e: &mut Engine, prop: &str, st: &State, fr: u32, span: Span, what: &str, ok: bool) {
    e.oblig(fr, span, what, ok);
    if !ok {
        e.fail(st, fr, span, prop, what);
    }
}
impl Hooks for L {
    fn inline(&mut self, _e: &mut Engine, st: &State, c: &Call) -> Option<(State, V, Vec<V>)> {
        if !c.name.contains("std::thread::") || !c.name.ends_with("spawn") {
            return None;
        }
        let mut s = st.clone();
        s.set(HELD, boolv(false));
        Some((s, *c.args.last()?, vec![]))
    }
    fn inlined(&mut self, e: &mut Engine, st: &State, c: &Call, outs: Vec<(State, V)>) -> Vec<(State, V)> {
        for (s, _) in &outs {
            let ok = s.get(HELD).as_bool() == Some(false);
            fob(e, "C22", s, c.frame, c.span, "a thread ends without holding a lock", ok);
        }
        let h = e.fresh(st, c.frame, c.bb, "thread", Some(c.ret_ty));
        vec![(st.clone(), h)]
    }
    fn call(&mut self, e: &mut Engine, st: &State, c: &Call) -> Option<Vec<(State, V)>> {
        let held = st.get(HELD).as_bool() != Some(false);
        if is_lock(c.name) {
            self.seen += 1;
            fob(e, "C22", st, c.frame, c.span, "a lock is taken only when no other is held", !held);
            let mut outs = models::call(e, st, c)?;
            let t = format!("{:?}", c.arg_tys.first().map(|t| peel(*t)));
            for (s, _) in outs.iter_mut() {
                s.set(HELD, boolv(true));
                s.set(HELD_TY, strv(&t));
            }
            return Some(outs);
        }
        if c.name == "std::mem::forget" && guards_in(c.args[0]) > 0 {
            fob(e, "C22", st, c.frame, c.span, "a lock taken is released", false);
        }
        if blocking(c.name, c.tm) {
            let queue = c.name.contains("mpsc::Receiver::recv") && matches!(st.get(HELD_TY).n(), N::Str(s) if s.contains("Receiver"));
            fob(e, "C22", st, c.frame, c.span, "no lock is held across blocking work", !held || queue);
            return None;
        }
        if let Some(tm) = c.tm {
            if tm.starts_with("std::ops::Fn") && tm.contains("::call") {
                let t = c.self_ty().map(peel);
                if matches!(t.map(|t| t.kind()), Some(ty::Param(_))) {
                    self.callbacks |= held;
                } else {
                    fob(e, "C22", st, c.frame, c.span, "no lock is held while a job runs", !held);
                }
                return None;
            }
        }
        None
    }
    fn drop_value(&mut self, _e: &mut Engine, st: &mut State, v: V, _t: Ty, _fr: u32) {
        if guards_in(v) > 0 {
            st.set(HELD, boolv(false));
        }
    }
}
fn bad_under_lock(d: DefId) -> Option<String> {
    for x in reachable(&[d]) {
        for y in direct_calls(x) {
            let p = path_of(y);
            let tm = tcx().trait_of_assoc(y).map(|_| p.clone());
            if is_lock(&p) || blocking(&p, tm.as_deref()) {
                return Some(p);
            }
        }
    }
    None
}
pub fn locks(r: &mut Report) {
    let fns = local_fns();
    let locker = |d: DefId| own(d).iter().any(|x| direct_calls(*x).iter().any(|y| is_lock(&path_of(*y))));
    let mut roots: Vec<DefId> = fns.iter().map(|x| x.1).filter(|d| locker(*d)).collect();
    // functions handing out a guard: their callers hold the lock
    let mut i = 0;
    let mut giving = vec![];
    while i < roots.len() {
        let d = roots[i];
        if mentions_ty(sig_of(d).1, &is_guard_ty, 5) {
            giving.push(d);
            for (_, x) in &fns {
                if !roots.contains(x) && own(*x).iter().any(|y| direct_calls(*y).contains(&d)) {
                    roots.push(*x);
                }
            }
        }
        i += 1;
    }
    if roots.is_empty() {
        r.error("no function takes a lock");
    }
    let mut cbs: Vec<DefId> = vec![];
    for d in roots {
        let mut e = Engine::new();
        let mut st = State::default();
        set_tenv(ty::TypingEnv::post_analysis(tcx(), d));
        let inst = identity_instance(d);
        let args = sym_args(inst, &mut st);
        st.set(HELD, boolv(false));
        st.set(HELD_TY, strv(""));
        e.hooks = Some(Box::new(L::default()));
        let rets = e.root(inst, args, st);
        r.roots.push(path_of(d));
        let cb = e.hooks.take();
        let cb = cb.map(|h| unsafe { &*(Box::into_raw(h) as *const L) }.callbacks).unwrap_or(false);
        if cb {
            cbs.push(d);
        }
        for (s, v) in &rets {
            let ok = s.get(HELD).as_bool() == Some(false) || giving.contains(&d) && guards_in(*v) > 0;
            rob(r, "C22", d, "every lock taken is released on return", s, ok);
        }
        keep(&mut e, "C22");
        r.take(&mut e);
    }
    // what callers run under the lock
    let mut i = 0;
    while i < cbs.len() {
        let d = cbs[i];
        i += 1;
        for (_, f) in &fns {
            for x in own(*f) {
                for (y, a) in uses(x) {
                    if y != d {
                        continue;
                    }
                    for t in a.types() {
                        match peel(t).kind() {
                            ty::Closure(k, _) => {
                                let bad = bad_under_lock(*k);
                                let what = "a function run under a lock neither blocks nor takes a lock";
                                let st = State::default();
                                rob(r, "C22", *k, &bad.clone().map(|b| format!("{what}: it reaches {b}")).unwrap_or(what.into()), &st, bad.is_none());
                            }
                            ty::FnDef(k, _) => {
                                let bad = bad_under_lock(*k);
                                let st = State::default();
                                rob(r, "C22", *k, "a function run under a lock neither blocks nor takes a lock", &st, bad.is_none());
                            }
                            ty::Param(_) if !cbs.contains(f) && sig_of(*f).0.iter().any(|s| peel(*s) == peel(t)) && fn_bound(*f, peel(t)) => cbs.push(*f),
                            _ => {}
                        }
                    }
                }
            }
        }
    }
    // a closure run under a lock may be handed over elsewhere: nothing else runs foreign code
}
/// is the type parameter bounded by a function trait ?
fn fn_bound(d: DefId, t: Ty) -> bool {
    tcx().param_env(d).caller_bounds().any(|p| p.as_trait_clause().map(|x| x.skip_binder().self_ty() == t && path_of(x.skip_binder().def_id()).starts_with("std::ops::Fn")).unwrap_or(false))
}
/// functions that queue a job: they take a function by value and reach a channel's send
pub fn handoffs() -> Vec<DefId> {
    local_fns().into_iter().map(|x| x.1).filter(|d| { let s = sig_of(*d).0; s.iter().any(|t| matches!(t.kind(), ty::Param(_)) && fn_bound(*d, *t)) } && reaches_call(*d, &["mpsc::Sender::send", "mpsc::SyncSender::send", "std::thread::spawn"])).collect()
}
/// the innermost functions that reach both kinds of calls
pub fn minimal(f: &dyn Fn(DefId) -> bool) -> Vec<DefId> {
    let all: Vec<DefId> = local_fns().into_iter().map(|x| x.1).filter(|d| f(*d)).collect();
    let set: HashSet<DefId> = all.iter().copied().collect();
    all.into_iter().filter(|d| !reachable(&[*d]).iter().any(|x| x != d && set.contains(x))).collect()
}
const ACCEPT: &[&str] = &["TcpListener::accept", "net::Incoming", "TcpListener::incoming"];
pub fn servers() -> (Vec<DefId>, Vec<DefId>) {
    let h = handoffs();
    let reach_h = |d: DefId| reachable(&[d]).iter().any(|x| h.contains(x)) && !h.contains(&d);
    let tcp = minimal(&|d| reach_h(d) && reaches_call(d, ACCEPT));
    let udp = minimal(&|d| reach_h(d) && reaches_call(d, &["UdpSocket::recv_from", "UdpSocket::recv"]));
    (tcp, udp)
}

// ---- C27 ------------------------------------------------------------------------------------
struct T {
    handoffs: Vec<DefId>,
    params: Vec<V>,
    uses: usize,
}
fn is_stream(t: Ty) -> bool {
    adt_path(peel(t)).map(|p| p.ends_with("net::TcpStream")).unwrap_or(false)
}
fn is_udp(t: Ty) -> bool {
    adt_path(peel(t)).map(|p| p.ends_with("net::UdpSocket")).unwrap_or(false)
}
fn timed(which: &str, s: V) -> V {
    bool_app(which, vec![s])
}
/// sockets inside a value
fn sockets(v: V, out: &mut Vec<V>) {
    if v.ty().map(|t| is_stream(t) || is_udp(t)).unwrap_or(false) {
        out.push(v);
        return;
    }
    crate::term::children(v.n(), &mut |x| sockets(x, out));
}
impl T {
    fn ready(&mut self, e: &mut Engine, st: &State, c: &Call, s: V) {
        self.uses += 1;
        let ok = st.query(timed("rt", s)) == Some(true) && st.query(timed("wt", s)) == Some(true);
        fob(e, "C27", st, c.frame, c.span, "a socket is used only after its read and write time-outs were set", ok);
    }
    /// the configured time-out of that kind
    fn configured(&self, v: V, letter: char) -> bool {
        let N::Field(x, k, i) = v.n() else { return false };
        let root = |mut v: V| loop {
            match v.n() {
                N::Field(y, ..) => v = *y,
                _ => return v,
            }
        };
        self.params.contains(&root(v)) && field_name(*x, *k, *i).starts_with(letter)
    }
}
impl Hooks for T {
    fn inline(&mut self, _e: &mut Engine, st: &State, c: &Call) -> Option<(State, V, Vec<V>)> {
        let d = c.inst.map(|i| i.def_id()).or(c.def)?;
        if self.handoffs.contains(&d) {
            let f = *c.args.iter().zip(&c.arg_tys).find(|(_, t)| matches!(t.kind(), ty::Closure(..))).map(|x| x.0)?;
            return Some((st.clone(), f, vec![]));
        }
        None
    }
    fn inlined(&mut self, _e: &mut Engine, st: &State, _c: &Call, _outs: Vec<(State, V)>) -> Vec<(State, V)> {
        vec![(st.clone(), models::unit())]
    }
    fn call(&mut self, e: &mut Engine, st: &State, c: &Call) -> Option<Vec<(State, V)>> {
        let m = c.name.rsplit("::").next().unwrap_or("");
        if ACCEPT.iter().any(|a| c.name.contains(a)) && m != "incoming" {
            return None;
        }
        let sock_ty = c.arg_tys.first().map(|t| is_stream(*t) || is_udp(*t)).unwrap_or(false);
        if sock_ty && (c.name.contains("net::TcpStream::") || c.name.contains("net::UdpSocket::")) {
            let s = e.snap(st, c.args[0], 0);
            match m {
                "set_read_timeout" | "set_write_timeout" => {
                    let (w, l) = if m == "set_read_timeout" { ("rt", 'r') } else { ("wt", 'w') };
                    let d = e.snap(st, c.args[1], 0);
                    let ok = matches!(d.fields(), Some((1, f)) if self.configured(f[0], l));
                    fob(e, "C27", st, c.frame, c.span, &format!("the {} time-out set is the configured one", if l == 'r' { "read" } else { "write" }), ok);
                    let mut a = st.clone();
                    let fine = a.assume(timed(w, s), true);
                    let rt = peel(c.ret_ty);
                    let mut out = vec![];
                    if fine {
                        out.push((a, models::ok(rt, models::unit())));
                    }
                    let et = match rt.kind() {
                        ty::Adt(_, g) => Some(peel(norm(g.type_at(1)))),
                        _ => None,
                    };
                    let x = e.fresh(st, c.frame, c.bb, "io_err", et);
                    out.push((st.clone(), models::err(rt, x)));
                    return Some(out);
                }
                "try_clone" => {
                    let rt = peel(c.ret_ty);
                    let mut out = either(e, st, c);
                    out[0].1 = models::ok(rt, s);
                    return Some(out);
                }
                "peer_addr" | "local_addr" | "set_nodelay" | "set_ttl" | "shutdown" | "take_error" | "nodelay" | "ttl" | "read_timeout" | "write_timeout" => return None,
                "connect" if is_udp(c.arg_tys[0]) => return None,
                _ => {
                    self.ready(e, st, c, s);
                    return None;
                }
            }
        }
        if let Some(tm) = c.tm {
            if (tm.starts_with("std::io::Read") || tm.starts_with("std::io::Write")) && sock_ty {
                let s = e.snap(st, c.args[0], 0);
                self.ready(e, st, c, s);
                return None;
            }
        }
        // handed to code that is not looked into
        let d = c.inst.map(|i| i.def_id()).or(c.def)?;
        let unknown = local_crate(d) && c.inst.map(|i| !tcx().is_mir_available(i.def_id())).unwrap_or(true);
        if unknown && c.tm.is_some() {
            let mut ss = vec![];
            for a in &c.args {
                sockets(e.snap(st, *a, 0), &mut ss);
            }
            for s in ss {
                if s.ty().map(is_stream).unwrap_or(false) {
                    self.ready(e, st, c, s);
                }
            }
        }
        None
    }
}
pub fn timeouts(r: &mut Report) {
    let (tcp, udp) = servers();
    if tcp.is_empty() {
        r.error("no function accepts TCP connections");
    }
    let ex = minimal(&|d| reaches_call(d, &["UdpSocket::bind"]) && reaches_call(d, &["UdpSocket::recv", "UdpSocket::recv_from", "UdpSocket::peek"]) && !udp.contains(&d));
    let ex: Vec<DefId> = ex.into_iter().filter(|d| !udp.iter().any(|u| reachable(&[*d]).contains(u))).collect();
    if ex.is_empty() {
        r.error("no function exchanges datagrams with upstream servers");
    }
    for d in tcp.iter().chain(ex.iter()) {
        let mut e = Engine::new();
        let mut st = State::default();
        set_tenv(ty::TypingEnv::post_analysis(tcx(), *d));
        let inst = identity_instance(*d);
        let args = sym_args(inst, &mut st);
        let mut params: Vec<V> = args.iter().map(|a| e.snap(&st, *a, 0)).collect();
        params.retain(|p| matches!(p.n(), N::Sym(_)));
        for a in &params {
            e.pinned.extend(a.syms().iter());
        }
        e.hooks = Some(Box::new(T { handoffs: handoffs(), params, uses: 0 }));
        e.root(inst, args, st);
        r.roots.push(path_of(*d));
        if !e.obligations.keys().any(|k| k.starts_with("a socket is used only after")) {
            r.error(format!("{} uses no socket", path_of(*d)));
        }
        keep(&mut e, "C27");
        r.take(&mut e);
    }
}

// ---- C28 ------------------------------------------------------------------------------------
const MSG: Loc = Loc(0, 74);
const RAN: Loc = Loc(0, 75);
const STOPS: Loc = Loc(0, 76);
const JOINS: Loc = Loc(0, 77);
const SENT: Loc = Loc(0, 78);
/// the message type of the pool and which of its variants carries a job
fn message_ty() -> Option<(Ty, u32, u32)> {
    for i in tcx().hir_crate_items(()).free_items() {
        let d = i.owner_id.to_def_id();
        if !matches!(tcx().def_kind(d), DefKind::Enum) {
            continue;
        }
        let t = tcx().erase_and_anonymize_regions(tcx().type_of(d).instantiate_identity().skip_norm_wip());
        let ty::Adt(a, g) = t.kind() else { continue };
        for (k, v) in a.variants().iter().enumerate() {
            for (j, f) in v.fields.iter().enumerate() {
                if is_job(norm(f.ty(tcx(), g).skip_norm_wip())) {
                    return Some((t, k as u32, j as u32));
                }
            }
        }
    }
    None
}
fn is_job(t: Ty) -> bool {
    let mut t = peel(t);
    for _ in 0..2 {
        if let ty::Adt(a, g) = t.kind() {
            if path_of(a.did()).ends_with("boxed::Box") {
                t = norm(g.type_at(0));
            }
        }
    }
    matches!(t.kind(), ty::Dynamic(p, ..) if p.principal_def_id().map(|d| path_of(d).starts_with("std::ops::Fn")).unwrap_or(false))
}
struct W {
    mt: Ty,
    job: u32,
    jf: u32,
    role: u8, // 0 worker, 1 submit, 2 drop
    root: DefId,
    given: Option<V>,
    workers: Option<V>,
    recvs: usize,
}
impl W {
    fn settled(&self, e: &mut Engine, st: &State, fr: u32, span: Span, end: bool) {
        let m = st.get(MSG);
        let ran = st.get(RAN).as_bool();
        if m.is_uninit() || m.as_bool().is_some() {
            if end {
                fob(e, "C28", st, fr, span, "a worker ends only when told to", false);
            }
            return;
        }
        let job = st.query(is_var(m, self.job));
        if end {
            fob(e, "C28", st, fr, span, "a worker ends only when told to", job == Some(false));
        } else {
            fob(e, "C28", st, fr, span, "a worker that is told to stop does not take another job", job == Some(true));
            fob(e, "C28", st, fr, span, "a job taken from the queue is run before the next is taken", ran == Some(true));
        }
    }
}
impl Hooks for W {
    fn inline(&mut self, _e: &mut Engine, st: &State, c: &Call) -> Option<(State, V, Vec<V>)> {
        if self.role != 0 || !c.name.contains("std::thread::") || !c.name.ends_with("spawn") {
            return None;
        }
        let mut s = st.clone();
        s.set(MSG, boolv(false));
        s.set(RAN, boolv(false));
        Some((s, *c.args.last()?, vec![]))
    }
    fn inlined(&mut self, e: &mut Engine, st: &State, c: &Call, outs: Vec<(State, V)>) -> Vec<(State, V)> {
        for (s, _) in &outs {
            self.settled(e, s, c.frame, c.span, true);
        }
        let h = e.fresh(st, c.frame, c.bb, "thread", Some(c.ret_ty));
        vec![(st.clone(), h)]
    }
    fn call(&mut self, e: &mut Engine, st: &State, c: &Call) -> Option<Vec<(State, V)>> {
        let d = c.inst.map(|i| i.def_id()).or(c.def);
        if self.role == 0 && c.name.contains("mpsc::") && (c.name.contains("Receiver") || c.name.contains("Iter")) && mentions_ty(c.ret_ty, &|p| adt_path(self.mt).as_deref() == Some(p), 4) {
            self.recvs += 1;
            self.settled(e, st, c.frame, c.span, false);
            let m = e.fresh(st, c.frame, c.bb, "message", Some(self.mt));
            let mut s = st.clone();
            s.set(MSG, m);
            s.set(RAN, boolv(false));
            let rt = peel(c.ret_ty);
            let opt = adt_path(rt).map(|p| p.ends_with("option::Option")).unwrap_or(false);
            let mut out = vec![];
            // (all senders gone: the pool itself is gone)
            let mut none = st.clone();
            none.set(MSG, boolv(true));
            if opt {
                out.push((s, models::option(rt, Some(m))));
                out.push((none, models::option(rt, None)));
            } else {
                out.push((s, models::ok(rt, m)));
                let x = e.fresh(st, c.frame, c.bb, "gone", None);
                out.push((none, models::err(rt, x)));
            }
            return Some(out);
        }
        if let Some(tm) = c.tm {
            if self.role == 0 && tm.starts_with("std::ops::Fn") && tm.contains("::call") && c.self_ty().map(is_job).unwrap_or(false) {
                let f = e.snap(st, c.args[0], 0);
                let m = st.get(MSG);
                let ran = st.get(RAN).as_bool() == Some(true);
                let of = matches!(f.n(), N::Field(x, k, _) if *x == m && *k == self.job);
                fob(e, "C28", st, c.frame, c.span, "a worker runs the job it has just taken", of);
                fob(e, "C28", st, c.frame, c.span, "a job is run once", !ran);
                let mut s = st.clone();
                s.set(RAN, boolv(true));
                return Some(vec![(s, models::unit())]);
            }
        }
        if c.name.contains("mpsc::") && c.name.ends_with("Sender::send") && mentions_ty(c.arg_tys[1], &|p| adt_path(self.mt).as_deref() == Some(p), 4) {
            let v = e.snap(st, c.args[1], 0);
            let mut s = st.clone();
            if self.role == 1 {
                let ok = matches!(v.fields(), Some((k, f)) if k == self.job && Some(f[self.jf as usize]) == self.given);
                fob(e, "C28", st, c.frame, c.span, "the job queued is the one given", ok);
                let n = st.get(SENT).as_int().unwrap_or(0);
                s.set(SENT, int((n + 1).min(3)));
            } else if self.role == 2 {
                let stop = st.query(is_var(v, self.job)) == Some(false) || matches!(v.fields(), Some((k, _)) if k != self.job);
                fob(e, "C28", st, c.frame, c.span, "dropping the pool queues only stop messages", stop);
                s.set(STOPS, Lin::of(st.get(STOPS)).plus(1).v());
            }
            // (the receiving end lives as long as a worker does)
            let rt = peel(c.ret_ty);
            return Some(vec![(s, models::ok(rt, models::unit()))]);
        }
        if self.role == 2 {
            if c.name.ends_with("JoinHandle::join") {
                let n = self.workers.map(|w| Lin::of(models::coll_len(w)));
                let ok = n.map(|n| st.query(ge0(&Lin::of(st.get(STOPS)).sub(&n))) == Some(true)).unwrap_or(false);
                fob(e, "C28", st, c.frame, c.span, "every worker has been told to stop before the first is waited for", ok);
                // (a handle is consumed: each join is of another worker)
                let at = Lin::of(st.get(JOINS));
                let mut s = st.clone();
                s.set(JOINS, at.plus(1).v());
                let rt = peel(c.ret_ty);
                return Some(vec![(s, models::ok(rt, models::unit()))]);
            }
        }
        let _ = d;
        None
    }
}
pub fn pool(r: &mut Report) {
    let Some((mt, job, jf)) = message_ty() else {
        r.error("no message type that carries jobs");
        return;
    };
    let fns = local_fns();
    let w = |root: DefId, role: u8| W { mt, job, jf, role, root, given: None, workers: None, recvs: 0 };
    let finish = |r: &mut Report, e: &mut Engine, d: DefId| {
        r.roots.push(path_of(d));
        keep(e, "C28");
        r.take(e);
    };
    // workers
    let workers = minimal(&|d| reaches_call(d, &["mpsc::Receiver", "mpsc::IntoIter", "mpsc::Iter"]) && reaches_call(d, &["std::thread::spawn", "thread::Builder::spawn"]) && own(d).iter().any(|x| uses(*x).iter().any(|(_, a)| a.types().any(|t| is_job(t)))));
    if workers.is_empty() {
        r.error("no thread runs jobs");
    }
    for d in &workers {
        let mut e = Engine::new();
        let mut st = State::default();
        set_tenv(ty::TypingEnv::post_analysis(tcx(), *d));
        let inst = identity_instance(*d);
        let args = sym_args(inst, &mut st);
        e.hooks = Some(Box::new(w(*d, 0)));
        e.root(inst, args, st);
        for need in ["a worker runs the job", "a worker ends only when told to", "a job taken from the queue"] {
            if !e.obligations.keys().any(|k| k.starts_with(need)) {
                r.error(format!("{}: nothing to show that {need}...", path_of(*d)));
            }
        }
        finish(r, &mut e, *d);
    }
    // submitting
    let subs: Vec<DefId> = handoffs().into_iter().filter(|d| !workers.contains(d)).collect();
    if subs.is_empty() {
        r.error("no function queues jobs");
    }
    for d in &subs {
        let mut e = Engine::new();
        let mut st = State::default();
        set_tenv(ty::TypingEnv::post_analysis(tcx(), *d));
        let inst = identity_instance(*d);
        let args = sym_args(inst, &mut st);
        let ins = sig_of(*d).0;
        let mut h = w(*d, 1);
        h.given = args.iter().zip(&ins).find(|(_, t)| matches!(t.kind(), ty::Param(_)) && fn_bound(*d, **t)).map(|x| *x.0);
        st.set(SENT, int(0));
        e.hooks = Some(Box::new(h));
        let rets = e.root(inst, args, st);
        for (s, _) in &rets {
            rob(r, "C28", *d, "a job given to the pool is queued once", s, s.get(SENT).as_int() == Some(1));
        }
        finish(r, &mut e, *d);
    }
    // the pool: the struct with the sending end
    let mut drops = 0;
    for (p, d) in &fns {
        if !p.ends_with("as std::ops::Drop>::drop") || !reaches_call(*d, &["mpsc::Sender::send"]) {
            continue;
        }
        drops += 1;
        let mut e = Engine::new();
        let mut st = State::default();
        set_tenv(ty::TypingEnv::post_analysis(tcx(), *d));
        let inst = identity_instance(*d);
        let args = sym_args(inst, &mut st);
        let mut h = w(*d, 2);
        let sv = e.snap(&st, args[0], 0);
        e.pinned.extend(sv.syms().iter());
        let pt = peel(sig_of(*d).0[0]);
        if let ty::Adt(a, g) = pt.kind() {
            for (i, f) in a.non_enum_variant().fields.iter().enumerate() {
                let ft = peel(norm(f.ty(tcx(), g).skip_norm_wip()));
                if elem_ty(ft).map(|t| holds_handle(t, 3)).unwrap_or(false) {
                    h.workers = Some(field(sv, STRUCT, i as u32, Some(ft)));
                }
            }
        }
        let ws = h.workers;
        if ws.is_none() {
            r.error("the pool has no collection of workers");
            continue;
        }
        st.set(STOPS, int(0));
        st.set(JOINS, int(0));
        // (a worker's handle is there until the pool is dropped)
        e.always = Some(|t| match t.kind() {
            ty::Adt(a, g) if path_of(a.did()) == "std::option::Option" && adt_path(norm(g.type_at(0))).map(|p| p.ends_with("thread::JoinHandle")).unwrap_or(false) => Some(1),
            _ => None,
        });
        e.hooks = Some(Box::new(h));
        let rets = e.root(inst, args, st);
        for (s, _) in &rets {
            let n = Lin::of(models::coll_len(ws.unwrap()));
            rob(r, "C28", *d, "dropping the pool tells every worker to stop", s, s.query(ge0(&Lin::of(s.get(STOPS)).sub(&n))) == Some(true));
            rob(r, "C28", *d, "dropping the pool waits for every worker", s, s.query(eq0(&Lin::of(s.get(JOINS)).sub(&n))) == Some(true));
        }
        if rets.is_empty() {
            r.error("dropping the pool never ends");
        }
        finish(r, &mut e, *d);
        // making the pool
        for (_, k) in &fns {
            let (ins, out) = sig_of(*k);
            if peel(out) != pt || !ins.iter().any(|t| is_int(*t)) {
                continue;
            }
            let mut e = Engine::new();
            let mut st = State::default();
            set_tenv(ty::TypingEnv::post_analysis(tcx(), *k));
            let inst = identity_instance(*k);
            let args = sym_args(inst, &mut st);
            for a in &args {
                e.pinned.extend(a.syms().iter());
            }
            let n = args[ins.iter().position(|t| is_int(*t)).unwrap()];
            let rets = e.root(inst, args, st);
            for (s, v) in &rets {
                let ws = match pt.kind() {
                    ty::Adt(a, g) => a.non_enum_variant().fields.iter().enumerate().find_map(|(i, f)| {
                        let ft = peel(norm(f.ty(tcx(), g).skip_norm_wip()));
                        elem_ty(ft).filter(|t| holds_handle(*t, 3)).map(|_| field(e.snap(s, *v, 0), STRUCT, i as u32, Some(ft)))
                    }),
                    _ => None,
                };
                let ok = ws.map(|w| s.query(eq0(&Lin::of(models::coll_len(w)).sub(&Lin::of(n)))) == Some(true)).unwrap_or(false);
                rob(r, "C28", *k, "a pool has as many workers as asked for", s, ok);
            }
            finish(r, &mut e, *k);
        }
    }
    if drops == 0 {
        r.error("no destructor of the pool");
    }
}
fn holds_handle(t: Ty, d: u32) -> bool {
    let t = peel(t);
    let ty::Adt(a, g) = t.kind() else { return false };
    if path_of(a.did()).ends_with("thread::JoinHandle") {
        return true;
    }
    d > 0 && (g.types().any(|x| holds_handle(norm(x), d - 1)) || local_crate(a.did()) && a.all_fields().any(|f| holds_handle(norm(f.ty(tcx(), g).skip_norm_wip()), d - 1)))
}

// ---- C29 ------------------------------------------------------------------------------------
const ST: Loc = Loc(0, 80); // a request was taken and the stop flag not looked at since
const SEEN: Loc = Loc(0, 81); // the stop flag was seen set
struct Srv {
    handoffs: Vec<DefId>,
    takes: usize,
}
fn atomic_load(n: &str) -> bool {
    n.contains("sync::atomic::") && (n.ends_with("::load") || n.ends_with("::swap") || n.ends_with("::fetch_or") || n.ends_with("::fetch_and"))
}
impl Hooks for Srv {
    fn call(&mut self, e: &mut Engine, st: &State, c: &Call) -> Option<Vec<(State, V)>> {
        let d = c.inst.map(|i| i.def_id()).or(c.def)?;
        let take = ACCEPT.iter().any(|a| c.name.contains(a)) && !c.name.ends_with("incoming") || c.name.ends_with("UdpSocket::recv_from") || c.name.ends_with("UdpSocket::recv");
        if take {
            self.takes += 1;
            let ok = st.get(ST).as_bool() == Some(false);
            fob(e, "C29", st, c.frame, c.span, "the stop flag is looked at between taking one request and the next", ok);
            let ok = st.get(SEEN).as_bool() == Some(false);
            fob(e, "C29", st, c.frame, c.span, "no request is taken once the stop flag was seen set", ok);
            let outs = crate::models::call(e, st, c).unwrap_or_else(|| e.opaque_call(c.frame, c.bb, st.clone(), c.name, &c.args, c.ret_ty));
            let mut out = vec![];
            for (s, v) in outs {
                // (Incoming::next gives Some(Result))
                let (mut a, b) = (s.clone(), s.clone());
                let opt = adt_path(peel(c.ret_ty)).map(|p| p.ends_with("option::Option")).unwrap_or(false);
                if opt {
                    if a.assume(is_var(v, 1), true) {
                        a.set(ST, boolv(true));
                        out.push((a, v));
                    }
                    continue;
                }
                if a.assume(is_var(v, 0), true) {
                    a.set(ST, boolv(true));
                    out.push((a, v));
                }
                let mut b = b;
                if b.assume(is_var(v, 1), true) {
                    out.push((b, v));
                }
            }
            return Some(out);
        }
        if atomic_load(c.name) && c.ret_ty.is_bool() {
            let mut out = vec![];
            for t in [true, false] {
                let mut s = st.clone();
                s.set(ST, boolv(false));
                if t {
                    s.set(SEEN, boolv(true));
                }
                out.push((s, boolv(t)));
            }
            return Some(out);
        }
        if self.handoffs.contains(&d) {
            return Some(vec![(st.clone(), models::unit())]);
        }
        if c.name == "std::mem::drop" {
            return Some(vec![(st.clone(), models::unit())]);
        }
        None
    }
}
struct Both {
    servers: Vec<DefId>,
    /// (server, parameters, stop flag, notified channel)
    ran: Vec<(DefId, V, V)>,
    cur: Vec<(DefId, V, V)>,
    chans: Vec<V>,
    threads: usize,
}
const S_RAN: Loc = Loc(0, 82);
const S_TOLD: Loc = Loc(0, 83);
const E_FIRST: Loc = Loc(0, 84);
const E_STOP: Loc = Loc(0, 85);
const E_UDP: Loc = Loc(0, 86);
const E_TCP: Loc = Loc(0, 87);
const E_WAIT: Loc = Loc(0, 88);
const E_NOSOCK: Loc = Loc(0, 89);
fn mentions(v: V, x: V) -> bool {
    if v == x {
        return true;
    }
    let mut r = false;
    crate::term::children(v.n(), &mut |y| r |= mentions(y, x));
    r
}
impl Both {
    fn addr(&self, v: V, st: &State) -> bool {
        self.ran.iter().any(|(_, p, _)| {
            let Some(t) = p.ty() else { return false };
            let (a, q) = (getf(st, *p, t, STRUCT, "address"), getf(st, *p, t, STRUCT, "port"));
            !a.is_uninit() && mentions(v, a) && mentions(v, q)
        })
    }
}
impl Hooks for Both {
    fn inline(&mut self, _e: &mut Engine, st: &State, c: &Call) -> Option<(State, V, Vec<V>)> {
        if !c.name.contains("std::thread::") || !c.name.ends_with("spawn") {
            return None;
        }
        let mut s = st.clone();
        s.set(S_RAN, boolv(false));
        s.set(S_TOLD, boolv(false));
        self.cur.clear();
        Some((s, *c.args.last()?, vec![]))
    }
    fn inlined(&mut self, e: &mut Engine, st: &State, c: &Call, outs: Vec<(State, V)>) -> Vec<(State, V)> {
        self.threads += 1;
        for (s, _) in &outs {
            let ok = s.get(S_RAN).as_bool() == Some(true) && s.get(S_TOLD).as_bool() == Some(true);
            fob(e, "C29", s, c.frame, c.span, "a server's thread reports when the server has ended, and not before", ok);
        }
        if outs.is_empty() {
            fob(e, "C29", st, c.frame, c.span, "a server's thread reports when the server has ended, and not before", false);
        }
        self.ran.append(&mut self.cur);
        let h = e.fresh(st, c.frame, c.bb, "thread", Some(c.ret_ty));
        vec![(st.clone(), h)]
    }
    fn call(&mut self, e: &mut Engine, st: &State, c: &Call) -> Option<Vec<(State, V)>> {
        let d = c.inst.map(|i| i.def_id()).or(c.def)?;
        if self.servers.contains(&d) {
            let mut p = uninit();
            let mut f = uninit();
            for (a, t) in c.args.iter().zip(&c.arg_tys) {
                let v = e.snap(st, *a, 0);
                if mentions_ty(*t, &|p| p.contains("sync::atomic::"), 4) {
                    f = v;
                } else if let ty::Adt(ad, _) = peel(*t).kind() {
                    if local_crate(ad.did()) && field_index(peel(*t), STRUCT, "port").is_some() {
                        p = v;
                    }
                }
            }
            self.cur.push((d, p, f));
            let once = st.get(S_RAN).as_bool() == Some(false);
            fob(e, "C29", st, c.frame, c.span, "a thread runs one server", once);
            let mut s = st.clone();
            s.set(S_RAN, boolv(true));
            return Some(vec![(s, models::unit())]);
        }
        if c.name.contains("mpsc::") && c.name.ends_with("Sender::send") {
            let v = e.snap(st, c.args[0], 0);
            self.chans.push(v);
            let mut s = st.clone();
            if st.get(S_RAN).as_bool() == Some(true) {
                s.set(S_TOLD, boolv(true));
            } else {
                fob(e, "C29", st, c.frame, c.span, "a server's thread reports when the server has ended, and not before", false);
            }
            let rt = peel(c.ret_ty);
            return Some(vec![(s, models::ok(rt, models::unit()))]);
        }
        if c.name.contains("mpsc::Receiver::recv") {
            let v = e.snap(st, c.args[0], 0);
            let same = !self.chans.is_empty() && self.chans.iter().all(|x| x.syms() == v.syms());
            fob(e, "C29", st, c.frame, c.span, "the channel waited on is the one the servers report to", same);
            let mut s = st.clone();
            if st.get(E_FIRST).as_bool() == Some(false) {
                let ok = c.name.ends_with("Receiver::recv");
                fob(e, "C29", st, c.frame, c.span, "the process goes on until a server has ended", ok);
                s.set(E_FIRST, boolv(true));
                let rt = peel(c.ret_ty);
                return Some(vec![(s, models::ok(rt, models::unit()))]);
            }
            let bounded = c.name.ends_with("recv_timeout") && e.snap(st, c.args[1], 0).as_int().map(|n| n > 0 && n <= 60_000_000_000).unwrap_or(false);
            fob(e, "C29", st, c.frame, c.span, "the second server is waited for a bounded time", bounded);
            s.set(E_WAIT, boolv(true));
            let mut c2 = c.clone();
            c2.args = vec![];
            let outs = either(e, &s, c);
            return Some(outs);
        }
        if c.name.contains("sync::atomic::") && c.name.ends_with("::store") {
            let (f, v) = (e.snap(st, c.args[0], 0), e.snap(st, c.args[1], 0));
            let mut s = st.clone();
            let flag = !self.ran.is_empty() && self.ran.iter().all(|x| x.2 == f);
            if v.as_bool() == Some(true) && flag && st.get(E_FIRST).as_bool() == Some(true) {
                s.set(E_STOP, boolv(true));
            } else if v.as_bool() == Some(true) && st.get(E_FIRST).as_bool() == Some(false) {
                fob(e, "C29", st, c.frame, c.span, "the servers are told to stop only after one has ended", false);
            }
            return Some(vec![(s, models::unit())]);
        }
        if c.name.ends_with("UdpSocket::bind") {
            let mut out = either(e, st, c);
            out[1].0.set(E_NOSOCK, boolv(true));
            return Some(out);
        }
        let stop = st.get(E_STOP).as_bool() == Some(true);
        if c.name.ends_with("UdpSocket::send_to") {
            let a = e.snap(st, c.args[2], 0);
            let mut s = st.clone();
            if stop && self.addr(a, st) {
                s.set(E_UDP, boolv(true));
            }
            return Some(either(e, &s, c));
        }
        if c.name.ends_with("TcpStream::connect") || c.name.ends_with("TcpStream::connect_timeout") {
            let a = e.snap(st, c.args[0], 0);
            let mut s = st.clone();
            if stop && self.addr(a, st) {
                s.set(E_TCP, boolv(true));
            }
            return Some(either(e, &s, c));
        }
        None
    }
}
pub fn together(r: &mut Report) {
    let (tcp, udp) = servers();
    if tcp.len() != 1 || udp.len() != 1 {
        r.error(format!("expected one TCP and one UDP server loop, found {} and {}", tcp.len(), udp.len()));
        return;
    }
    for d in [tcp[0], udp[0]] {
        let mut e = Engine::new();
        let mut st = State::default();
        set_tenv(ty::TypingEnv::post_analysis(tcx(), d));
        let inst = identity_instance(d);
        let args = sym_args(inst, &mut st);
        st.set(ST, boolv(false));
        st.set(SEEN, boolv(false));
        e.hooks = Some(Box::new(Srv { handoffs: handoffs(), takes: 0 }));
        let rets = e.root(inst, args, st);
        r.roots.push(path_of(d));
        let leaves = rets.iter().any(|(s, _)| s.get(SEEN).as_bool() == Some(true));
        rob(r, "C29", d, "a server that sees the stop flag set ends", &State::default(), leaves);
        if !e.obligations.keys().any(|k| k.starts_with("the stop flag is looked at")) {
            r.error(format!("{} takes no requests", path_of(d)));
        }
        keep(&mut e, "C29");
        r.take(&mut e);
    }
    let both = minimal(&|d| {
        let x = reachable(&[d]);
        x.contains(&tcp[0]) && x.contains(&udp[0])
    });
    if both.is_empty() {
        r.error("no function starts both servers");
    }
    for d in both {
        let mut e = Engine::new();
        let mut st = State::default();
        set_tenv(ty::TypingEnv::post_analysis(tcx(), d));
        let inst = identity_instance(d);
        let args = sym_args(inst, &mut st);
        for a in &args {
            e.pinned.extend(a.syms().iter());
        }
        for l in [S_RAN, S_TOLD, E_FIRST, E_STOP, E_UDP, E_TCP, E_WAIT, E_NOSOCK] {
            st.set(l, boolv(false));
        }
        e.hooks = Some(Box::new(Both { servers: vec![tcp[0], udp[0]], ran: vec![], cur: vec![], chans: vec![], threads: 0 }));
        let rets = e.root(inst, args, st);
        r.roots.push(path_of(d));
        let h = e.hooks.take().map(|h| unsafe { &*(Box::into_raw(h) as *const Both) });
        let n: HashSet<DefId> = h.map(|h| h.ran.iter().map(|x| x.0).collect()).unwrap_or_default();
        rob(r, "C29", d, "both servers are started, with one stop flag", &State::default(), n.len() == 2 && h.map(|h| h.ran.iter().all(|x| x.2 == h.ran[0].2 && !x.2.is_uninit())).unwrap_or(false));
        for (s, _) in &rets {
            let b = |l: Loc| s.get(l).as_bool() == Some(true);
            rob(r, "C29", d, "when a server has ended the stop flag is set", s, b(E_FIRST) && b(E_STOP));
            rob(r, "C29", d, "the servers are woken after the stop flag is set", s, b(E_NOSOCK) || b(E_UDP) && b(E_TCP));
            rob(r, "C29", d, "the second server is waited for", s, b(E_WAIT));
        }
        if rets.is_empty() {
            r.error(format!("{} never returns", path_of(d)));
        }
        keep(&mut e, "C29");
        r.take(&mut e);
    }
}

// ---- time-outs on their way to the sockets ----------------------------------------------------
fn timeout_letter(name: &str) -> Option<char> {
    let c = name.chars().next()?;
    (name.contains("timeout") && (c == 'r' || c == 'w') && (name.starts_with("read") || name.starts_with("write") || name[1..].starts_with('_'))).then_some(c)
}
/// every struct with a read (write) time-out gets it from a read (write) time-out
pub fn plumbing(r: &mut Report) {
    use rustc_middle::mir::*;
    let mut n = 0;
    for (_, f) in local_fns() {
        for d in own(f) {
            if !tcx().is_mir_available(d) {
                continue;
            }
            let body = tcx().optimized_mir(d);
            let mut defs: HashMap<Local, Vec<(Option<&'static Rvalue<'static>>, Option<&'static TerminatorKind<'static>>)>> = HashMap::new();
            for bb in body.basic_blocks.iter() {
                for s in &bb.statements {
                    if let StatementKind::Assign(x) = &s.kind {
                        defs.entry(x.0.local).or_default().push((Some(&x.1), None));
                    }
                }
                if let Some(t) = &bb.terminator {
                    if let TerminatorKind::Call { destination, .. } = &t.kind {
                        defs.entry(destination.local).or_default().push((None, Some(&t.kind)));
                    }
                }
            }
            let named = |p: &Place<'static>, out: &mut Vec<char>| -> bool {
                let mut t = PlaceTy::from_ty(body.local_decls[p.local].ty);
                let mut last = None;
                for e in p.projection.iter() {
                    if let ProjectionElem::Field(i, _) = e {
                        if let ty::Adt(a, _) = t.ty.kind() {
                            let v = t.variant_index.unwrap_or(rustc_abi::VariantIdx::from_u32(0));
                            if (v.as_u32() as usize) < a.variants().len() {
                                if let Some(c) = timeout_letter(a.variant(v).fields[i].name.as_str()) {
                                    last = Some(c);
                                }
                            }
                        }
                    }
                    t = t.projection_ty(tcx(), e);
                }
                if let Some(c) = last {
                    out.push(c);
                }
                last.is_some()
            };
            let trace = |o: &Operand<'static>| -> Vec<char> {
                let mut out = vec![];
                let mut todo: Vec<Place<'static>> = o.place().into_iter().collect();
                let mut seen = HashSet::new();
                while let Some(p) = todo.pop() {
                    if named(&p, &mut out) || !seen.insert(p.local) {
                        continue;
                    }
                    for (rv, call) in defs.get(&p.local).cloned().unwrap_or_default() {
                        match rv {
                            Some(Rvalue::Use(o, ..)) | Some(Rvalue::Cast(_, o, _)) => todo.extend(o.place()),
                            Some(Rvalue::Ref(_, _, p)) | Some(Rvalue::CopyForDeref(p)) => todo.push(p.clone()),
                            Some(Rvalue::BinaryOp(_, x)) => {
                                todo.extend(x.0.place());
                                todo.extend(x.1.place());
                            }
                            _ => {}
                        }
                        if let Some(TerminatorKind::Call { args, .. }) = call {
                            todo.extend(args.iter().filter_map(|a| a.node.place()));
                        }
                    }
                }
                out
            };
            let mut sites: Vec<(char, Vec<char>, Span)> = vec![];
            for bb in body.basic_blocks.iter() {
                for s in &bb.statements {
                    let StatementKind::Assign(x) = &s.kind else { continue };
                    if let Rvalue::Aggregate(k, ops) = &x.1 {
                        if let AggregateKind::Adt(ad, vi, _, _, None) = &**k {
                            for (i, fl) in tcx().adt_def(*ad).variant(*vi).fields.iter_enumerated() {
                                if let Some(c) = timeout_letter(fl.name.as_str()) {
                                    sites.push((c, trace(&ops[i]), s.source_info.span));
                                }
                            }
                        }
                    }
                    let mut v = vec![];
                    if !x.0.projection.is_empty() && named(&x.0, &mut v) {
                        if let Rvalue::Use(o, ..) = &x.1 {
                            sites.push((v[0], trace(o), s.source_info.span));
                        }
                    }
                }
            }
            for (c, from, span) in sites {
                if span.from_expansion() {
                    continue;
                }
                n += 1;
                let ok = from.is_empty() || from.contains(&c);
                let what = format!("a {} time-out is taken from a {0} time-out @ {}", if c == 'r' { "read" } else { "write" }, tcx().sess.source_map().span_to_diagnostic_string(span));
                rob(r, "C27", d, &what, &State::default(), ok);
            }
        }
    }
    if n == 0 && crate_name() == "ariadne_dns" {
        r.error("no time-out is handed over");
    }
}
