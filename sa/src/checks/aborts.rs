//! No request aborts a worker (C16, C17): every panic of the code that serves a request.
use super::base::*;
use super::*;
use crate::models;

fn part(r: &mut Report, f: impl FnOnce(&mut Report)) {
    let mut x = Report::default();
    ABORTS.set(true);
    f(&mut x);
    ABORTS.set(false);
    x.findings.retain(|f| is_panic_ob(&f.kind));
    x.obligations.retain(|k, _| is_panic_ob(k));
    for f in x.findings {
        if !r.findings.iter().any(|g| g.func == f.func && g.kind == f.kind && g.detail == f.detail) {
            r.findings.push(f);
        }
    }
    for (k, v) in x.obligations {
        let y = r.obligations.entry(k).or_insert((0, true));
        y.0 += v.0;
        y.1 &= v.1;
    }
    r.fns.extend(x.fns);
    r.loops.extend(x.loops);
    r.notes.extend(x.notes);
    r.roots.extend(x.roots);
    for (k, v) in x.opaque {
        *r.opaque.entry(k).or_default() += v;
    }
    r.errors.extend(x.errors);
    r.steps += x.steps;
}
/// what both servers do around their handlers
fn around(r: &mut Report) {
    part(r, |r| super::wire::run(r, "C01"));
    part(r, super::frames::udp);
    part(r, super::frames::tcp);
    // writers of entries refuse what no reader returns; what they are given was read (or loaded, C31)
    let own: Vec<String> = writers();
    part(r, |r| {
        super::layout::entries(r, "C06");
        let refused = |what: &str, func: &str| what.starts_with("panic") && own.iter().any(|o| o == func);
        r.findings.retain(|f| !(refused(&f.kind, &f.func) && f.detail.starts_with("assert")));
        r.obligations.retain(|k, v| v.1 || !own.iter().any(|o| k.starts_with("panic @") && k.ends_with(&format!("[{o}]"))));
    });
    // sums over lists are for entries() above: here the shapes readers return meet the writers' refusals
    part(r, |r| {
        super::layout::again(r);
        r.findings.retain(|f| !f.kind.starts_with("arithmetic"));
        r.obligations.retain(|k, _| !k.starts_with("arithmetic"));
    });
    part(r, super::layout::header);
    // starting and stopping the pool is no part of serving a request
    part(r, |r| {
        serve(r);
        let pool: Vec<String> = super::net::handoffs().iter().filter_map(|d| super::wire::sig_of(*d).0.first().and_then(|t| adt_path(peel(*t)))).collect();
        let own: Vec<String> = local_fns().into_iter().filter(|(_, d)| {
            let s = tcx().impl_of_assoc(*d).map(|i| adt_path(tcx().type_of(i).instantiate_identity().skip_norm_wip()));
            s.flatten().map(|p| pool.contains(&p)).unwrap_or(false)
        }).map(|x| x.0).collect();
        r.findings.retain(|f| !own.iter().any(|o| f.func.starts_with(o.as_str())));
        r.obligations.retain(|k, _| !own.iter().any(|o| k.contains(&format!("[{o}"))));
    });
}
fn writers() -> Vec<String> {
    let (Some(ro), Some(qt), Some(rt)) = (super::wire::roles(), find_adt("questions::Question"), find_adt("records::Record")) else { return vec![] };
    [qt, rt].into_iter().flat_map(|t| super::layout::encoders(t, ro.t)).map(path_of).collect()
}
pub fn nameserver(r: &mut Report) {
    part(r, |r| super::handlers::run(r, "C16", &[true]));
    around(r);
    part(r, |r| texts(r, &["::dns::"]));
    part(r, names);
}
/// the servers: jobs are run as they are queued, a datagram is no longer than the buffer given for
/// it, messages are decoded and requests handled elsewhere
struct S {
    handoffs: Vec<DefId>,
    dec: Vec<DefId>,
    jobs: usize,
}
impl Hooks for S {
    fn inline(&mut self, _e: &mut Engine, st: &State, c: &Call) -> Option<(State, V, Vec<V>)> {
        let d = c.inst.map(|i| i.def_id()).or(c.def)?;
        if !self.handoffs.contains(&d) {
            return None;
        }
        let f = *c.args.iter().zip(&c.arg_tys).find(|(_, t)| matches!(t.kind(), ty::Closure(..))).map(|x| x.0)?;
        self.jobs += 1;
        Some((st.clone(), f, vec![]))
    }
    fn inlined(&mut self, _e: &mut Engine, st: &State, _c: &Call, _outs: Vec<(State, V)>) -> Vec<(State, V)> {
        vec![(st.clone(), models::unit())]
    }
    fn call(&mut self, e: &mut Engine, st: &State, c: &Call) -> Option<Vec<(State, V)>> {
        let d = c.inst.map(|i| i.def_id()).or(c.def);
        if let Some(d) = d {
            if self.dec.contains(&d) {
                return Some(super::frames::either(e, st, c));
            }
        }
        let m = c.name.rsplit("::").next().unwrap_or("");
        if c.name.contains("std::net::UdpSocket::") && ["recv_from", "recv", "peek", "peek_from"].contains(&m) {
            let mut v = super::frames::either(e, st, c);
            let N::Ptr(l, p) = c.args[1].n() else { return None };
            let old = e.deref(st, c.args[1]);
            let k = Lin::of(models::coll_len(old));
            let g = e.fresh(st, c.frame, c.bb, "datagram", old.ty());
            let (_, f) = v[0].1.fields()?;
            let r = f[0];
            let n = match super::upstream::result_ok(c.ret_ty)?.kind() {
                ty::Tuple(ts) => field(r, STRUCT, 0, Some(ts[0])),
                _ => r,
            };
            let s = &mut v[0].0;
            s.assume(eq0(&Lin::of(models::coll_len(g)).sub(&k)), true);
            e.store(s, *l, p, g);
            s.assume(ge0(&k.sub(&Lin::of(n))), true);
            return Some(v);
        }
        None
    }
}
fn serve(r: &mut Report) {
    let (tcp, udp) = super::net::servers();
    if tcp.is_empty() || udp.is_empty() {
        r.error("the servers were not found");
    }
    let readers: Vec<DefId> = local_fns().into_iter().map(|x| x.1).filter(|d| super::frames::trait_impl(*d, "DnsRead")).collect();
    if readers.is_empty() {
        r.error("no function reads requests");
    }
    let starts = tcp.iter().chain(&udp).copied().collect::<Vec<_>>();
    for d in starts.iter().chain(&readers).copied() {
        let mut e = Engine::new();
        let mut st = State::default();
        let inst = if starts.contains(&d) { identity_instance(d) } else { concrete_instance(d) };
        set_tenv(ty::TypingEnv::post_analysis(tcx(), d));
        let args = sym_args(inst, &mut st);
        e.hooks = Some(Box::new(S { handoffs: super::net::handoffs(), dec: super::wire::byte_decoders(), jobs: 0 }));
        e.root(inst, args, st);
        r.roots.push(path_of(d));
        keep(&mut e, "");
        r.take(&mut e);
    }
}
/// texts written to the log: hand-written formatting
/// what is done with names; how they are read is in the wire part
fn names(r: &mut Report) {
    let Some(t) = find_adt("dns::name::Name") else {
        r.error("the type of names was not found");
        return;
    };
    let mut n = 0;
    for (_, d) in local_fns() {
        let (i, _) = super::wire::sig_of(d);
        if tcx().is_closure_like(d) || !i.iter().all(|x| { let p = peel(*x); p == t || p.is_str() || matches!(p.kind(), ty::Slice(u) if norm(*u) == t) }) || i.is_empty() {
            continue;
        }
        let of = tcx().impl_of_assoc(d).map(|i| peel(tcx().type_of(i).instantiate_identity().skip_norm_wip()));
        if of != Some(t) || tcx().trait_impl_of_assoc(d).map(|i| tcx().is_automatically_derived(i)).unwrap_or(false) {
            continue;
        }
        n += 1;
        let mut e = Engine::new();
        e.split_zero = true;
        let mut st = State::default();
        let inst = concrete_instance(d);
        set_tenv(ty::TypingEnv::post_analysis(tcx(), d));
        let args = sym_args(inst, &mut st);
        for a in &args {
            let v = e.snap(&st, *a, 0);
            if v.ty() == Some(t) {
                // names are validated (C03)
                let l = Lin::of(models::coll_len(field(v, STRUCT, 0, field_ty(t, STRUCT, 0).map(peel))));
                st.assume(ge0(&l.plus(-1)), true);
                st.assume(ge0(&l.scale(-1).plus(255)), true);
            }
        }
        e.root(inst, args, st);
        r.roots.push(path_of(d));
        keep(&mut e, "");
        r.take(&mut e);
    }
    if n < 3 {
        r.error("the methods of names were not found");
    }
}
fn texts(r: &mut Report, which: &[&str]) {
    for (p, d) in local_fns() {
        let Some(i) = tcx().trait_impl_of_assoc(d) else { continue };
        if tcx().is_automatically_derived(i) || !["std::fmt::Display", "std::fmt::Debug"].contains(&path_of(tcx().impl_trait_ref(i).skip_binder().def_id).as_str()) || !which.iter().any(|w| p.contains(w)) {
            continue;
        }
        let mut e = Engine::new();
        let mut st = State::default();
        let inst = concrete_instance(d);
        set_tenv(ty::TypingEnv::post_analysis(tcx(), d));
        let args = sym_args(inst, &mut st);
        e.root(inst, args, st);
        r.roots.push(path_of(d));
        keep(&mut e, "");
        r.take(&mut e);
    }
}
