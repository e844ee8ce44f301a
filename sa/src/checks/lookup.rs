//! Resolution: referrals (C24), what is cached and served from the cache (C20, C21), bounds (C25)
//! and alias chains (C26).
use super::base::*;
use super::frames::either;
use super::recs::*;
use super::resolver::{requests, struct_fields};
use super::upstream::result_ok;
use super::wire::{rob, sig_of};
use super::*;
use crate::models;

/// a name server to ask: the record that names it and its addresses
pub struct Server {
    pub t: Ty,
    pub ns: u32,
    pub addrs: u32,
}
pub fn server(rs: &Recs) -> Option<Server> {
    for i in tcx().hir_crate_items(()).free_items() {
        let d = i.owner_id.to_def_id();
        if !matches!(tcx().def_kind(d), DefKind::Struct) {
            continue;
        }
        let t = tcx().erase_and_anonymize_regions(tcx().type_of(d).instantiate_identity().skip_norm_wip());
        let fs = struct_fields(t);
        if fs.len() == 2 {
            if let (Some(a), Some(b)) = (fs.iter().position(|f| f.1 == rs.lay.rec), fs.iter().position(|f| vec_of(f.1, rs.lay.rec))) {
                return Some(Server { t, ns: a as u32, addrs: b as u32 });
            }
        }
    }
    None
}
impl Server {
    pub fn ns_of(&self, v: V, rs: &Recs) -> V {
        field(v, STRUCT, self.ns, Some(rs.lay.rec))
    }
    pub fn addrs_of(&self, v: V) -> V {
        field(v, STRUCT, self.addrs, field_ty(self.t, STRUCT, self.addrs).map(peel))
    }
}
/// the name a record of a kind with one name refers to
pub fn target(rs: &Recs, r: V, kind: u32) -> Option<V> {
    let k = rs.variant_of(kind)?;
    let d = rs.lay.rec.ty_adt_def()?;
    let n = d.variant(rustc_abi::VariantIdx::from_u32(k)).fields.len() as u32;
    let shared = |i: u32| rs.lay.common.iter().any(|c| c.2[k as usize] == i);
    let i = (0..n).find(|i| !shared(*i) && field_ty(rs.lay.rec, k, *i).map(peel) == Some(rs.name))?;
    Some(field(r, k, i, Some(rs.name)))
}
pub fn text_len(n: V, rs: &Recs) -> Lin {
    Lin::of(models::coll_len(field(n, STRUCT, 0, field_ty(rs.name, STRUCT, 0).map(peel))))
}
pub fn in_zone_known(e: &mut Engine, st: &State, rs: &Recs, a: V, z: V) -> bool {
    if rs.same_name(e, st, a, z) || st.query(in_zone(a, z)) == Some(true) {
        return true;
    }
    // through another name equal to either
    st.facts.b.iter().any(|(f, b)| {
        *b && match f.n() {
            N::App(n, x) if *n == "in_zone" && x.len() == 2 => {
                let same = |p: V, q: V| p == q || st.query(eqv(p, q)) == Some(true);
                same(x[0], a) && same(x[1], z)
            }
            _ => false,
        }
    })
}
/// `z` encloses `a` and so does `top`, and `z` is the longer: `z` is inside `top`
pub fn deeper(e: &mut Engine, st: &State, rs: &Recs, a: V, z: V, top: V) -> (bool, bool) {
    let has = in_zone_known(e, st, rs, a, z);
    let long = st.query(ge0(&text_len(z, rs).sub(&text_len(top, rs)).plus(-1))) == Some(true);
    (has, long)
}
pub struct Q {
    pub rs: Recs,
    pub msg: Ty,
    pub trace: Option<Ty>,
}
pub fn muted(c: &Call, trace: Option<Ty>) -> bool {
    let Some(t) = trace else { return false };
    c.ret_ty.is_unit() && c.inst.map(|i| local_crate(i.def_id())).unwrap_or(false) && c.arg_tys.first().map(|x| peel(*x) == t).unwrap_or(false)
}
impl Hooks for Q {
    fn call(&mut self, e: &mut Engine, st: &State, c: &Call) -> Option<Vec<(State, V)>> {
        if let Some(v) = self.rs.call(e, st, c, true) {
            return Some(v);
        }
        if muted(c, self.trace) {
            return Some(vec![(st.clone(), models::unit())]);
        }
        let d = c.inst.map(|i| i.def_id()).or(c.def)?;
        if local_crate(d) && result_ok(c.ret_ty) == Some(self.msg) {
            return Some(either(e, st, c));
        }
        base_call(e, st, c)
    }
}
/// servers listed anywhere in a value of type t, with the value they come with
fn lists(v: V, t: Ty, sv: Ty, d: u32) -> Vec<V> {
    let t = peel(t);
    if vec_of(t, sv) {
        return vec![v];
    }
    if d == 0 {
        return vec![];
    }
    match (v.fields(), t.kind()) {
        (Some((k, f)), ty::Adt(a, _)) => {
            let en = a.is_enum();
            f.iter().enumerate().flat_map(|(i, x)| field_ty(t, if en { k } else { STRUCT }, i as u32).map(|ft| lists(*x, ft, sv, d - 1)).unwrap_or_default()).collect()
        }
        _ => vec![],
    }
}
pub fn referrals(r: &mut Report) {
    let (Some(rs), Some(msg)) = (Recs::find(), find_adt("Message")) else {
        r.error("no records or messages");
        return;
    };
    let Some(sv) = server(&rs) else {
        r.error("no type of name servers to ask");
        return;
    };
    set_recs(Some(rs.lay));
    takers(r, "C24");
    set_recs(Some(rs.lay));
    let trace = super::resolver::types().map(|t| t.trace);
    let (Some(ns), Some(a), Some(cname)) = (rs.kind_no("NS"), rs.kind_no("A"), rs.kind_no("CNAME")) else { return };
    let mut n = 0;
    for d in requests() {
        let mut e = Engine::new();
        let mut st = State::default();
        set_tenv(ty::TypingEnv::post_analysis(tcx(), d));
        let inst = identity_instance(d);
        let args = sym_args(inst, &mut st);
        for x in &args {
            let v = e.snap(&st, *x, 0);
            e.pinned.extend(v.syms().iter());
        }
        // the request: a name and the server asked
        let ins = sig_of(d).0;
        let mut asked = None;
        for (x, t) in args.iter().zip(&ins) {
            let v = e.snap(&st, *x, 0);
            let fs = struct_fields(peel(*t));
            if let (Some(i), Some(j)) = (fs.iter().position(|f| f.1 == rs.name), fs.iter().position(|f| f.1 == sv.t)) {
                asked = Some((field(v, STRUCT, i as u32, Some(rs.name)), field(v, STRUCT, j as u32, Some(sv.t))));
            }
        }
        let Some((name, srv)) = asked else {
            r.error(format!("what {} asks, and whom, was not found", path_of(d)));
            continue;
        };
        let top = rs.node_of(sv.ns_of(srv, &rs));
        e.hooks = Some(Box::new(Q { rs: Recs::find().unwrap(), msg, trace }));
        let rets = e.root(inst, args, st);
        r.roots.push(path_of(d));
        let out = sig_of(d).1;
        for (s, v) in &rets {
            let v = e.snap(s, *v, 0);
            let Some((0, f)) = v.fields() else { continue };
            let reply = f[0];
            let rt = result_ok(out).unwrap();
            // the alias that comes with the servers, if any
            let alias = reply.fields().and_then(|(_, f)| f.iter().copied().find(|x| x.ty() == Some(rs.lay.rec) && rs.is_kind(s, *x, cname)));
            let ls = lists(reply, rt, sv.t, 2);
            if std::env::var("SA_DBG").is_ok() {
                eprintln!("RET {reply:?}\n {:?} {}", ls.len(), s.facts.show());
            }
            for l in ls {
                for (s, x) in each(&mut e, s, l, sv.t) {
                    n += 1;
                    let rec = sv.ns_of(x, &rs);
                    let zone = rs.node_of(rec);
                    if std::env::var("SA_DBG").is_ok() {
                        eprintln!("EL {x:?}\n  {}", s.facts.show());
                    }
                    rob(r, "C24", d, "servers to ask next are named by NS records", &s, rs.is_kind(&s, rec, ns));
                    match alias {
                        None => {
                            let (has, long) = deeper(&mut e, &s, &rs, name, zone, top);
                            rob(r, "C24", d, "a referral is to a zone that contains the name", &s, has);
                            rob(r, "C24", d, "a referral is to a zone below the one whose servers were asked", &s, long);
                        }
                        Some(al) => {
                            let Some(to) = target(&rs, al, cname) else { continue };
                            let has = in_zone_known(&mut e, &s, &rs, to, zone);
                            rob(r, "C24", d, "servers sent with an alias are of a zone that contains its target", &s, has);
                            let ok = in_zone_known(&mut e, &s, &rs, zone, top);
                            rob(r, "C24", d, "servers sent with an alias are of a zone inside the one whose servers were asked", &s, ok);
                        }
                    }
                    let Some(host) = target(&rs, rec, ns) else { continue };
                    for (s, g) in each(&mut e, &s, sv.addrs_of(x), rs.lay.rec) {
                        rob(r, "C24", d, "addresses sent along are A records", &s, rs.is_kind(&s, g, a));
                        let ok = rs.same_name(&mut e, &s, rs.node_of(g), host);
                        rob(r, "C24", d, "addresses sent along are those of the server they are used for", &s, ok);
                    }
                }
            }
        }
        keep(&mut e, "C24");
        r.take(&mut e);
    }
    if n == 0 {
        r.error("no request ever gives other servers to ask");
    }
    set_recs(None);
}
