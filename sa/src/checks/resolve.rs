//! A whole resolution: what is cached (C21, the rest of C24), what a request was shown to give
//! being used for what it gives.
use crate::interp::{usize_ty, LoopInfo};
use rustc_span::Span;
use super::base::*;
use super::frames::either;
use super::lookup::*;
use super::net::fob;
use super::recs::*;
use super::resolver::{mentions_lookup, requests, struct_fields};
use super::upstream::result_ok;
use super::wire::{rank_loop, rob, sig_of};
use super::*;
use crate::models;
use std::collections::HashMap;

/// what is known of a record that came back
#[derive(Clone, Debug)]
struct Pred {
    node: bool,
    kind: bool,
    is: u64,
}
/// what is known of the servers that came back
#[derive(Clone, Debug)]
struct SPred {
    ns: bool,
    has: bool,
    long: bool,
    inside: bool,
    target: bool,
    addr_kind: bool,
    addr_node: bool,
}
#[derive(Clone, Debug)]
enum Known {
    Rec(Pred),
    Recs(Pred, bool),
    Servers(SPred, bool),
    Other,
}
pub struct Reply {
    rt: Ty,
    vars: HashMap<u32, Vec<Known>>,
}
impl Pred {
    fn top() -> Pred {
        Pred { node: true, kind: true, is: u64::MAX }
    }
    fn meet(&mut self, e: &mut Engine, st: &State, rs: &Recs, r: V, name: V, kind: V) {
        self.node &= rs.same_name(e, st, rs.node_of(r), name);
        self.kind &= rs.same_kind(st, rec_kind(r), kind);
        let m = st.facts.mask(rec_kind(r));
        self.is &= if m.count_ones() == 1 { m } else { 0 };
    }
    fn facts(&self, rs: &Recs, r: V, name: V, kind: V) -> Vec<(V, bool)> {
        let mut f = vec![];
        if self.node {
            f.push((eqv(rs.node_of(r), name), true));
        }
        if self.is.count_ones() == 1 {
            f.push((is_var(rec_kind(r), self.is.trailing_zeros()), true));
        } else if self.kind {
            f.push((rs.kind_eq(rec_kind(r), kind), true));
        }
        f.retain(|x| x.0.as_bool() != Some(true));
        f
    }
}
/// equal, through any chain of known equalities
fn equal(e: &mut Engine, st: &State, rs: &Recs, a: V, b: V) -> bool {
    if rs.same_name(e, st, a, b) {
        return true;
    }
    let mut seen = vec![a];
    let mut i = 0;
    while i < seen.len() {
        let x = seen[i];
        i += 1;
        for (f, t) in &st.facts.b {
            if let (true, N::App("eq", y)) = (*t, f.n()) {
                for (p, q) in [(y[0], y[1]), (y[1], y[0])] {
                    if p == x && !seen.contains(&q) {
                        seen.push(q);
                    }
                }
            }
        }
        if x != a && x == b || rs.same_name(e, st, x, b) {
            return true;
        }
    }
    false
}
fn equal_kinds(st: &State, rs: &Recs, a: V, b: V) -> bool {
    if rs.same_kind(st, a, b) {
        return true;
    }
    let mut seen = vec![a];
    let mut i = 0;
    while i < seen.len() {
        let x = seen[i];
        i += 1;
        for (f, t) in &st.facts.b {
            if let (true, N::App("eq", y)) = (*t, f.n()) {
                for (p, q) in [(y[0], y[1]), (y[1], y[0])] {
                    if p == x && !seen.contains(&q) {
                        seen.push(q);
                    }
                }
            }
        }
        if rs.same_kind(st, x, b) {
            return true;
        }
    }
    false
}
/// the name, type and server a request is made with
pub fn asked(rs: &Recs, sv: &Server, e: &Engine, st: &State, args: &[V], tys: &[Ty]) -> Option<(V, V, V)> {
    for (x, t) in args.iter().zip(tys) {
        let v = e.snap(st, *x, 0);
        let fs = struct_fields(peel(*t));
        let at = |t: Ty| fs.iter().position(|f| f.1 == t).map(|i| field(v, STRUCT, i as u32, Some(t)));
        if let (Some(a), Some(b), Some(c)) = (at(rs.name), at(rs.lay.kind), at(sv.t)) {
            return Some((a, b, c));
        }
    }
    None
}
/// what the functions that make a request are shown to give
pub fn replies(r: &mut Report) -> Option<Reply> {
    let rs = Recs::find()?;
    let sv = server(&rs)?;
    let msg = find_adt("Message")?;
    let trace = super::resolver::types().map(|t| t.trace);
    let mut out: Option<Reply> = None;
    for d in requests() {
        let mut e = Engine::new();
        let mut st = State::default();
        set_tenv(ty::TypingEnv::post_analysis(tcx(), d));
        let inst = identity_instance(d);
        let args = sym_args(inst, &mut st);
        for x in &args {
            let v = e.snap(&st, *x, 0);
            e.pinned.extend(v.syms().iter());
        }
        let (name, kind, srv) = asked(&rs, &sv, &e, &st, &args, &sig_of(d).0)?;
        let top = rs.node_of(sv.ns_of(srv, &rs));
        e.hooks = Some(Box::new(Q { rs: Recs::find()?, msg, trace }));
        let rets = e.root(inst, args, st);
        let rt = result_ok(sig_of(d).1)?;
        let rep = out.get_or_insert_with(|| Reply { rt, vars: HashMap::new() });
        rep.meet(&mut e, &rets, &rs, &sv, name, kind, Some(top))?;
        r.take(&mut e);
    }
    if std::env::var("SA_DBG").is_ok() {
        eprintln!("REPLIES {:?}", out.as_ref().map(|o| &o.vars));
    }
    out
}
impl Reply {
    /// keep what holds of these results too
    fn meet(&mut self, e: &mut Engine, rets: &[(State, V)], rs: &Recs, sv: &Server, name: V, kind: V, top: Option<V>) -> Option<()> {
        let (ns, a, cname) = (rs.kind_no("NS")?, rs.kind_no("A")?, rs.kind_no("CNAME")?);
        for (s, v) in rets {
            let v = e.snap(s, *v, 0);
            let Some((0, f)) = v.fields() else {
                if matches!(v.fields(), Some((1, _))) {
                    continue;
                }
                return None;
            };
            let (k, f) = f[0].fields()?;
            let alias = f.iter().copied().find(|x| x.ty() == Some(rs.lay.rec) && rs.is_kind(s, *x, cname));
            let old = self.vars.remove(&k);
            let mut ks = vec![];
            for (i, x) in f.iter().enumerate() {
                let ft = field_ty(self.rt, k, i as u32).map(peel);
                let was = old.as_ref().map(|o| o[i].clone());
                let some = |x: V| s.query(ge0(&Lin::of(models::coll_len(x)).plus(-1))) == Some(true);
                ks.push(match ft {
                    Some(t) if t == rs.lay.rec => {
                        let mut p = match was {
                            Some(Known::Rec(p)) => p,
                            _ => Pred::top(),
                        };
                        p.meet(e, s, rs, *x, name, kind);
                        Known::Rec(p)
                    }
                    Some(t) if vec_of(t, rs.lay.rec) => {
                        let (mut p, n) = match was {
                            Some(Known::Recs(p, n)) => (p, n),
                            _ => (Pred::top(), true),
                        };
                        for (s, x) in each(e, s, *x, rs.lay.rec) {
                            p.meet(e, &s, rs, x, name, kind);
                        }
                        Known::Recs(p, n && some(*x))
                    }
                    Some(t) if vec_of(t, sv.t) => {
                        let (mut p, n) = match was {
                            Some(Known::Servers(p, n)) => (p, n),
                            _ => (SPred { ns: true, has: true, long: true, inside: true, target: true, addr_kind: true, addr_node: true }, true),
                        };
                        for (s, y) in each(e, s, *x, sv.t) {
                            let rec = sv.ns_of(y, rs);
                            let zone = rs.node_of(rec);
                            p.ns &= rs.is_kind(&s, rec, ns);
                            p.has &= in_zone_known(e, &s, rs, name, zone);
                            p.long &= top.map(|t| deeper(e, &s, rs, name, zone, t).1).unwrap_or(false);
                            // a zone around the searched name, and longer than that of the server, is inside that
                            p.inside &= top
                                .map(|t| in_zone_known(e, &s, rs, zone, t) || {
                                    let d = deeper(e, &s, rs, name, zone, t);
                                    d.0 && d.1
                                })
                                .unwrap_or(false);
                            p.target &= alias.and_then(|al| target(rs, al, cname)).map(|to| in_zone_known(e, &s, rs, to, zone)).unwrap_or(false);
                            for (s, g) in each(e, &s, sv.addrs_of(y), rs.lay.rec) {
                                p.addr_kind &= rs.is_kind(&s, g, a);
                                let host = target(rs, rec, ns);
                                p.addr_node &= host.map(|h| rs.same_name(e, &s, rs.node_of(g), h)).unwrap_or(false);
                            }
                        }
                        Known::Servers(p, n && some(*x))
                    }
                    _ => Known::Other,
                });
            }
            self.vars.insert(k, ks);
        }
        Some(())
    }
}
/// functions that ask servers until one answers, verified on their own
pub struct Asker {
    d: DefId,
    reply: Reply,
    /// the fields of the resolution left as they are
    same: Vec<bool>,
}
/// the resolution in progress: a struct with the name and type looked for and the servers to ask
pub struct Work {
    t: Ty,
    name: u32,
    kind: u32,
}
pub fn work(rs: &Recs, sv: &Server) -> Option<Work> {
    for i in tcx().hir_crate_items(()).free_items() {
        let d = i.owner_id.to_def_id();
        if !matches!(tcx().def_kind(d), DefKind::Struct) {
            continue;
        }
        let t = tcx().erase_and_anonymize_regions(tcx().type_of(d).instantiate_identity().skip_norm_wip());
        let fs = struct_fields(t);
        let one = |f: &dyn Fn(Ty) -> bool| {
            let x: Vec<usize> = (0..fs.len()).filter(|i| f(fs[*i].1)).collect();
            (x.len() == 1).then(|| x[0] as u32)
        };
        if let (Some(name), Some(kind), Some(_)) = (one(&|x| x == rs.name), one(&|x| x == rs.lay.kind), one(&|x| vec_of(x, sv.t))) {
            return Some(Work { t, name, kind });
        }
    }
    None
}
impl Work {
    fn asks(&self, v: V, rs: &Recs) -> (V, V) {
        (field(v, STRUCT, self.name, Some(rs.name)), field(v, STRUCT, self.kind, Some(rs.lay.kind)))
    }
    fn arg(&self, tys: &[Ty]) -> Option<usize> {
        tys.iter().position(|t| adt_path(peel(*t)) == adt_path(self.t))
    }
}
/// functions that give a reply, called by those that do not
fn askers() -> Vec<DefId> {
    let (Some(resp), reqs) = (find_adt("NsResponse"), requests()) else { return vec![] };
    let gives = |d: DefId| super::resolver::mentions(sig_of(d).1, resp, 3);
    let all = local_fns();
    let mut out = vec![];
    for (_, d) in &all {
        if tcx().is_closure_like(*d) || gives(*d) {
            continue;
        }
        for x in super::net::own(*d) {
            for y in super::layout::direct_calls(x) {
                if tcx().is_closure_like(y) || !gives(y) || reqs.contains(&y) || out.contains(&y) || result_ok(sig_of(y).1) != Some(resp) {
                    continue;
                }
                out.push(y);
            }
        }
    }
    out
}
impl Reply {
    /// the replies a request for this may get
    fn values(&self, e: &mut Engine, st: &State, c: &Call, rs: &Recs, sv: &Server, name: V, kind: V, top: Option<V>) -> Vec<(State, V)> {
        let (ns, a, cname) = (rs.kind_no("NS").unwrap(), rs.kind_no("A").unwrap(), rs.kind_no("CNAME").unwrap());
        let asked = top;
        let top = top.map(|t| rs.node_of(t));
        let mut out = vec![];
        let mut ks: Vec<u32> = self.vars.keys().copied().collect();
        ks.sort();
        for k in ks {
            let mut s = st.clone();
            let mut f = vec![];
            let mut alias = None;
            for (i, kn) in self.vars[&k].iter().enumerate() {
                let t = field_ty(self.rt, k, i as u32).map(peel);
                let x = e.fresh(&s, c.frame, c.bb, &format!("reply.{k}.{i}"), t);
                let refine = |s: &mut State, x: V, some: bool, facts: &dyn Fn(V) -> Vec<(V, bool)>| -> V {
                    let len = models::coll_len(x);
                    s.assume(ge0(&Lin::of(len)), true);
                    if some {
                        s.assume(ge0(&Lin::of(len).plus(-1)), true);
                    }
                    let alts = alts_of(x, s)
                        .into_iter()
                        .map(|al| {
                            let mut g = al.facts.clone();
                            g.extend(facts(al.t));
                            g.sort();
                            g.dedup();
                            Alt { t: al.t, facts: g }
                        })
                        .collect();
                    summ(x, len, alts)
                };
                f.push(match kn {
                    Known::Rec(p) => {
                        for (g, b) in p.facts(rs, x, name, kind) {
                            s.assume(g, b);
                        }
                        if s.facts.mask(rec_kind(x)) == 1 << cname {
                            alias = Some(x);
                        }
                        x
                    }
                    Known::Recs(p, n) => refine(&mut s, x, *n, &|y| p.facts(rs, y, name, kind)),
                    Known::Servers(p, n) => {
                        let len = models::coll_len(x);
                        s.assume(ge0(&Lin::of(len)), true);
                        if *n {
                            s.assume(ge0(&Lin::of(len).plus(-1)), true);
                        }
                        let alts = alts_of(x, &s)
                            .into_iter()
                            .map(|al| {
                                let rec = sv.ns_of(al.t, rs);
                                let zone = rs.node_of(rec);
                                let mut g = al.facts.clone();
                                if p.ns {
                                    g.push((is_var(rec_kind(rec), ns), true));
                                }
                                if p.has {
                                    g.push((in_zone(name, zone), true));
                                }
                                if let (true, Some(top)) = (p.long, top) {
                                    g.push((ge0(&text_len(zone, rs).sub(&text_len(top, rs)).plus(-1)), true));
                                    if s.get(BAR) == bar("") {
                                        g.push((ge0(&text_len(zone, rs).sub(&Lin::of(bar(""))).plus(-1)), true));
                                    }
                                }
                                if let (true, Some(top)) = (p.inside, top) {
                                    g.push((in_zone(zone, top), true));
                                }
                                if let (true, Some(to)) = (p.target, alias.and_then(|al| target(rs, al, cname))) {
                                    g.push((in_zone(to, zone), true));
                                }
                                g.sort();
                                let ad = sv.addrs_of(al.t);
                                let host = target(rs, rec, ns);
                                let addrs = [Alt { t: elem(ad, intern(N::Bvar(sym_str("any.addr")), usize_ty()), Some(rs.lay.rec)), facts: vec![] }]
                                    .into_iter()
                                    .map(|z| {
                                        let mut h = z.facts.clone();
                                        if p.addr_kind {
                                            h.push((is_var(rec_kind(z.t), a), true));
                                        }
                                        if let (true, Some(host)) = (p.addr_node, host) {
                                            h.push((eqv(rs.node_of(z.t), host), true));
                                        }
                                        h.sort();
                                        Alt { t: z.t, facts: h }
                                    })
                                    .collect();
                                let mut fs = vec![rec, rec];
                                fs[sv.ns as usize] = rec;
                                fs[sv.addrs as usize] = summ(ad, models::coll_len(ad), addrs);
                                Alt { t: adt(STRUCT, fs, Some(sv.t)), facts: g }
                            })
                            .collect();
                        summ(x, len, alts)
                    }
                    Known::Other => x,
                });
            }
            let v = models::ok(peel(c.ret_ty), adt(k, f, Some(self.rt)));
            let (servers, alias) = self.brings(k as i128, rs);
            s.set(LAST, boolv(true));
            s.set(SERVERS, boolv(servers));
            s.set(ALIAS, boolv(alias));
            s.set(ASKED, name);
            s.set(WHAT, kind);
            if let Some(top) = asked {
                s.set(TOP, top);
            }
            out.push((s, v));
        }
        let mut s = st.clone();
        s.set(LAST, boolv(false));
        s.set(SERVERS, boolv(false));
        s.set(ALIAS, boolv(false));
        s.set(TOP, int(0));
        s.set(ASKED, int(0));
        s.set(WHAT, int(0));
        let et = match peel(c.ret_ty).kind() {
            ty::Adt(_, g) => peel(norm(g.type_at(1))),
            _ => return out,
        };
        let x = e.fresh(&s, c.frame, c.bb, "reply_err", Some(et));
        out.push((s, models::err(peel(c.ret_ty), x)));
        out
    }
    /// what kind of reply this is: brings servers, brings an alias
    fn brings(&self, k: i128, rs: &Recs) -> (bool, bool) {
        let cname = rs.kind_no("CNAME").unwrap();
        match self.vars.get(&(k as u32)) {
            Some(f) if k >= 0 => (f.iter().any(|x| matches!(x, Known::Servers(..))), f.iter().any(|x| matches!(x, Known::Rec(p) if p.is == 1 << cname))),
            _ => (false, false),
        }
    }
}
/// whether the last request got a reply
const LAST: Loc = Loc(0, 150);
/// whether that reply brings servers
const SERVERS: Loc = Loc(0, 153);
/// whether it is an alias
const ALIAS: Loc = Loc(0, 152);
/// the name and type asked for last
const ASKED: Loc = Loc(0, 154);
const WHAT: Loc = Loc(0, 155);
/// the zone of the server asked last
const TOP: Loc = Loc(0, 151);
/// one record of the list looked at (C20), what it is now, when what was found expires, and the
/// first reading of the clock
const ONE: Loc = Loc(0, 160);
const CELL: Loc = Loc(0, 161);
const UNTIL: Loc = Loc(0, 162);
const START: Loc = Loc(0, 163);
/// it was got by a fixed place
const FIRST: Loc = Loc(0, 166);
/// it was given to be changed
const GIVEN: Loc = Loc(0, 165);
/// come to it, or past it
const PAST: Loc = Loc(0, 164);
const SEC: i128 = 1_000_000_000;
/// which record of the list
fn spot() -> V {
    sym("spot", tcx().types.usize)
}
fn bare(mut x: V) -> V {
    while let N::App("rec:=", a) = x.n() {
        x = a[0];
    }
    x
}
/// the list and the place a record is from
fn source(x: V) -> Option<(V, V)> {
    match bare(x).n() {
        N::App("elem", a) => Some((a[0], a[1])),
        _ => None,
    }
}
/// look at one record of this list
fn look_at(e: &mut Engine, st: &mut State, l: V, rs: &Recs) {
    let i = spot();
    e.pinned.extend(i.syms().iter());
    st.assume(ge0(&Lin::of(i)), true);
    st.assume(ge0(&Lin::of(models::coll_len(l)).sub(&Lin::of(i)).plus(-1)), true);
    let x = models::elements(e, st, l, i, Some(rs.lay.rec));
    if let [(s, x)] = &x[..] {
        let x = *x;
        *st = s.clone();
        st.set(ONE, x);
        st.set(CELL, x);
    }
}
struct W {
    prop: &'static str,
    rs: Recs,
    sv: Server,
    trace: Option<Ty>,
    reply: std::rc::Rc<Reply>,
    requests: Vec<DefId>,
    roots: Vec<DefId>,
    parts: Parts,
    askers: std::rc::Rc<Vec<Asker>>,
    work: Work,
    /// the type asked for, where aliases are followed
    kind: Option<V>,
    /// the resolution in progress as it was at first, where exchanges are counted
    lim: Option<V>,
    /// what is analysed is called for each alias followed
    outer: bool,
}
/// servers tried since the last reply (its name resolved or a request sent), whether the name of
/// the present one was just resolved; how often servers were asked
const TRIED: Loc = Loc(0, 171);
const NAMED: Loc = Loc(0, 172);
const ROUNDS: Loc = Loc(0, 173);
/// whether the servers asked are those of a referral
const NEARER: Loc = Loc(0, 174);
/// the length of the zone that was last referred from. It is only ever bounded from above.
const BAR: Loc = Loc(0, 175);
fn bar(which: &str) -> V {
    intern(N::Sym(sym_str(&format!("bar{which}"))), usize_ty())
}
/// the state when the servers of another zone reply: what was known of the bar is of an older one
fn renamed(st: &State) -> State {
    let mut m = Subst::new(HashMap::from([(bar(""), bar(".old"))]));
    let mut s = State { store: st.store.iter().map(|(l, v)| (*l, if *l == BAR { *v } else { m.ap(*v) })).collect(), facts: Default::default() };
    for (f, b) in st.facts.list() {
        s.assume(m.ap(f), b);
    }
    s
}
/// the settings in a resolution, by the names users give them
fn setting(v: V, t: Ty, n: &str) -> Option<V> {
    for (k, (m, ft)) in struct_fields(peel(t)).into_iter().enumerate() {
        if m == n && ft.is_integral() {
            return Some(field(v, STRUCT, k as u32, Some(ft)));
        }
        let fs = struct_fields(ft);
        if local_adt(ft) && fs.iter().any(|x| x.0 == n && x.1.is_integral()) {
            return setting(field(v, STRUCT, k as u32, Some(ft)), ft, n);
        }
    }
    None
}
fn local_adt(t: Ty) -> bool {
    t.ty_adt_def().map(|a| local_crate(a.did())).unwrap_or(false)
}
const LIMITS: [&str; 3] = ["max_ns_queried", "max_upd_retries", "max_cname_redir"];
impl W {
    fn count(&self, e: &mut Engine, st: &mut State, c: &Call, l: Loc, limit: &str, what: &str) {
        let Some(w) = self.lim else { return };
        let k = Lin::of(st.get(l)).plus(1);
        let ok = setting(w, self.work.t, limit).map(|m| st.query(ge0(&Lin::of(m).sub(&k))) == Some(true)).unwrap_or(false);
        if !ok && std::env::var("SA_SETS").is_ok() {
            eprintln!("COUNT {what} {k:?}\n  {}", st.facts.show());
        }
        fob(e, "C25", st, c.frame, c.span, what, ok);
        st.set(l, k.v());
    }
    /// the name of a server is resolved on the way
    fn nested(&self, e: &mut Engine, st: &mut State, c: &Call, w: V) {
        let Some(own) = self.lim else { return };
        self.count(e, st, c, TRIED, "max_ns_queried", "no more names of servers are resolved for a zone than configured");
        let ok = LIMITS.iter().all(|l| match (setting(own, self.work.t, l), setting(w, self.work.t, l)) {
            (Some(a), Some(b)) => a == b || st.query(ge0(&Lin::of(a).sub(&Lin::of(b)))) == Some(true),
            _ => false,
        });
        fob(e, "C25", st, c.frame, c.span, "a nested resolution has no wider limits", ok);
        let ok = struct_fields(self.work.t).into_iter().enumerate().any(|(k, (_, t))| {
            let (a, b) = (field(own, STRUCT, k as u32, Some(t)), field(w, STRUCT, k as u32, Some(t)));
            let at = |v: V| {
                if vec_of(t, self.rs.name) {
                    Some(Lin::of(models::coll_len(v)))
                } else {
                    t.is_integral().then(|| Lin::of(v))
                }
            };
            let (Some(a), Some(b)) = (at(a), at(b)) else { return false };
            let up = st.query(ge0(&b.sub(&a).plus(-1))) == Some(true) && st.query(ge0(&b.scale(-1).plus(4096))) == Some(true);
            let down = st.query(ge0(&a.sub(&b).plus(-1))) == Some(true) && st.query(ge0(&b)) == Some(true);
            up || down
        });
        fob(e, "C25", st, c.frame, c.span, "nested resolutions go deeper only to a bounded depth", ok);
    }
}
/// functions verified on their own, and used elsewhere for what they were shown to do
#[derive(Clone, Default)]
pub struct Parts {
    /// those that cache the records of a list, all of one name and type
    savers: Vec<DefId>,
    /// those that give what is cached for a name and type
    finders: Vec<DefId>,
}
fn is_cache(t: Ty) -> bool {
    super::cache::stores().iter().any(|s| matches!((s.t.kind(), peel(t).kind()), (ty::Adt(a, _), ty::Adt(b, _)) if a.did() == b.did()))
}
fn by_mut(t: Ty) -> bool {
    matches!(t.kind(), ty::Ref(_, _, m) if m.is_mut())
}
pub fn parts(rs: &Recs) -> Parts {
    let mut p = Parts::default();
    for (_, d) in local_fns() {
        if tcx().is_closure_like(d) || tcx().trait_impl_of_assoc(d).is_some() || tcx().generics_of(d).requires_monomorphization(tcx()) {
            continue;
        }
        let (ins, out) = sig_of(d);
        if !ins.iter().any(|t| is_cache(*t)) || ins.iter().any(|t| by_mut(*t)) {
            continue;
        }
        let n = |f: &dyn Fn(Ty) -> bool| ins.iter().filter(|t| f(peel(**t))).count();
        if out.is_unit() && n(&|t| vec_of(t, rs.lay.rec)) == 1 {
            p.savers.push(d);
        }
        if vec_of(out, rs.lay.rec) && n(&|t| t == rs.name) == 1 && n(&|t| t == rs.lay.kind) == 1 && ins.len() == 3 {
            p.finders.push(d);
        }
    }
    p
}
/// a function that only looks at what it is given, and gives nothing of it back
fn aside(c: &Call, rs: &Recs, sv: &Server) -> bool {
    let Some(i) = c.inst else { return false };
    if tcx().is_closure_like(i.def_id()) || tcx().trait_impl_of_assoc(i.def_id()).is_some() || c.arg_tys.is_empty() {
        return false;
    }
    let holds = |t: Ty| is_cache(t) || struct_fields(peel(t)).iter().any(|f| is_cache(f.1));
    let part = |t: Ty| [rs.lay.rec, rs.name, rs.lay.kind, sv.t].iter().any(|x| super::resolver::mentions(t, *x, 4));
    let boring = match peel(c.ret_ty).kind() {
        ty::Adt(a, _) => !local_crate(a.did()) && path_of(a.did()) != "std::option::Option",
        _ => false,
    };
    boring && !part(c.ret_ty) && c.arg_tys.iter().all(|t| !by_mut(*t) && !holds(*t) && matches!(t.kind(), ty::Ref(..)))
}
/// what a call does to the table of cached records
enum Op {
    Set { key: usize, ttl: usize, val: usize },
    Get { key: usize },
    No,
}
fn key_ty(t: Ty, rs: &Recs) -> bool {
    matches!(peel(t).kind(), ty::Tuple(ts) if ts.len() == 2 && ts.iter().any(|x| peel(x) == rs.name) && ts.iter().any(|x| peel(x) == rs.lay.kind))
}
fn is_duration(t: Ty) -> bool {
    adt_path(peel(t)).as_deref() == Some("std::time::Duration")
}
fn op(c: &Call, rs: &Recs) -> Op {
    let Some(i) = c.inst else { return Op::No };
    if !local_crate(i.def_id()) || c.arg_tys.is_empty() {
        return Op::No;
    }
    let of = peel(c.arg_tys[0]);
    if !super::cache::stores().iter().any(|s| matches!((s.t.kind(), of.kind()), (ty::Adt(a, _), ty::Adt(b, _)) if a.did() == b.did())) {
        return Op::No;
    }
    let Some(key) = c.arg_tys.iter().position(|t| key_ty(*t, rs)) else { return Op::No };
    let val = c.arg_tys.iter().position(|t| vec_of(*t, rs.lay.rec));
    let ttl = c.arg_tys.iter().position(|t| is_duration(*t));
    match (val, ttl) {
        (Some(val), Some(ttl)) => Op::Set { key, ttl, val },
        (None, None) if c.arg_tys.len() == 2 => Op::Get { key },
        _ => Op::No,
    }
}
fn parts_of_key(k: V, t: Ty, rs: &Recs) -> Option<(V, V)> {
    let ty::Tuple(ts) = peel(t).kind() else { return None };
    let i = ts.iter().position(|x| peel(x) == rs.name)?;
    let j = ts.iter().position(|x| peel(x) == rs.lay.kind)?;
    Some((field(k, STRUCT, i as u32, Some(rs.name)), field(k, STRUCT, j as u32, Some(rs.lay.kind))))
}
impl Hooks for W {
    fn call(&mut self, e: &mut Engine, st: &State, c: &Call) -> Option<Vec<(State, V)>> {
        if let Some(v) = self.rs.call(e, st, c, true) {
            return Some(v);
        }
        if muted(c, self.trace) {
            return Some(vec![(st.clone(), models::unit())]);
        }
        if self.prop == "C26" {
            if let Some(v) = self.follow(e, st, c) {
                return Some(v);
            }
        }
        if self.prop == "C20" {
            if let Some(v) = self.time(e, st, c) {
                return Some(v);
            }
        }
        let d = c.inst.map(|i| i.def_id()).or(c.def)?;
        if self.requests.contains(&d) {
            let (name, kind, srv) = asked(&self.rs, &self.sv, e, st, &c.args, &c.arg_tys)?;
            let top = self.sv.ns_of(srv, &self.rs);
            if self.lim.is_some() {
                let mut s = st.clone();
                if s.get(NAMED).as_bool() != Some(true) {
                    self.count(e, &mut s, c, TRIED, "max_ns_queried", "no more servers are asked for a zone than configured");
                }
                s.set(NAMED, boolv(false));
                let zone = text_len(self.rs.node_of(top), &self.rs);
                let near = st.get(NEARER).as_bool() == Some(true);
                if near {
                    let ok = st.query(ge0(&zone.sub(&Lin::of(st.get(BAR))).plus(-1))) == Some(true);
                    if !ok && std::env::var("SA_SETS").is_ok() {
                        eprintln!("NEAR {zone:?} {:?}\n {}", st.get(BAR), st.facts.show());
                    }
                    fob(e, "C25", st, c.frame, c.span, "after a referral the servers asked are of a nearer zone", ok);
                }
                let own = setting(self.lim.unwrap(), self.work.t, "max_upd_retries");
                let most = c.args.iter().zip(&c.arg_tys).find_map(|(a, t)| {
                    let v = e.snap(st, *a, 0);
                    struct_fields(peel(*t)).into_iter().enumerate().find(|x| Some(x.1.1) == usize_ty()).map(|(k, x)| field(v, STRUCT, k as u32, Some(x.1)))
                });
                let ok = matches!((own, most), (Some(a), Some(b)) if a == b || st.query(ge0(&Lin::of(a).sub(&Lin::of(b)))) == Some(true));
                fob(e, "C25", st, c.frame, c.span, "a server is sent a query no more often than configured", ok);
                let done = |v: &V| matches!(v.fields(), Some((0, _)));
                let mut l = self.reply.values(e, &s, c, &self.rs, &self.sv, name, kind, Some(top));
                l.retain(|(_, v)| !done(v));
                for (mut s, v) in self.reply.values(e, &renamed(&s), c, &self.rs, &self.sv, name, kind, Some(top)) {
                    if done(&v) {
                        let servers = s.get(SERVERS).as_bool() == Some(true) && s.get(ALIAS).as_bool() != Some(true);
                        s.set(TRIED, int(0));
                        s.set(NEARER, boolv(servers));
                        l.push((s, v));
                    }
                }
                return Some(self.forget(l));
            }
            return Some(self.forget(self.reply.values(e, st, c, &self.rs, &self.sv, name, kind, Some(top))));
        }
        if let Some(a) = self.askers.iter().find(|a| a.d == d) {
            let i = self.work.arg(&c.arg_tys)?;
            let w = e.snap(st, c.args[i], 0);
            let (name, kind) = self.work.asks(w, &self.rs);
            if let (true, Some((i, t))) = (self.prop == "C26" && self.kind.is_some(), aliases_field(&self.work, &self.rs)) {
                let l = field(w, STRUCT, i, Some(t));
                let ok = aliases_of(l).map(|(to, ends)| st.query(eq0(&Lin::of(ends))) == Some(true) && equal(e, st, &self.rs, to, name)).unwrap_or(false);
                fob(e, "C26", st, c.frame, c.span, "servers are asked for the name the aliases collected lead to", ok);
                let ok = equal_kinds(st, &self.rs, kind, self.kind.unwrap());
                fob(e, "C26", st, c.frame, c.span, "servers are asked for the type asked for", ok);
            }
            let mut s = st.clone();
            if self.outer {
                self.count(e, &mut s, c, ROUNDS, "max_cname_redir", "no more names are looked for at servers than redirections are configured");
            }
            if let (N::Ptr(l, p), true) = (c.args[i].n(), by_mut(c.arg_tys[i])) {
                for (k, (n, t)) in struct_fields(peel(c.arg_tys[i])).into_iter().enumerate() {
                    if !a.same[k] {
                        let x = e.fresh(&s, c.frame, c.bb, &n, Some(t));
                        let mut q = p.clone();
                        q.push(Pj::Field(STRUCT, k as u32, t));
                        e.store(&mut s, *l, &q, x);
                    }
                }
            }
            return Some(self.forget(a.reply.values(e, &s, c, &self.rs, &self.sv, name, kind, None)));
        }
        if self.roots.contains(&d) {
            let mut s = st.clone();
            if let (Some(_), Some(i)) = (self.lim, self.work.arg(&c.arg_tys)) {
                let w = e.snap(st, c.args[i], 0);
                self.nested(e, &mut s, c, w);
            }
            let t = peel(c.ret_ty);
            let v = e.fresh(&s, c.frame, c.bb, "nested", Some(t));
            if self.lim.is_none() {
                return Some(vec![(s, v)]);
            }
            // found or not
            let res = |v: V| match t.kind() {
                ty::Tuple(l) => field(v, STRUCT, 0, l.first().map(|x| peel(*x))),
                _ => v,
            };
            let mut l = vec![];
            for k in 0..2 {
                let mut s = s.clone();
                s.set(NAMED, boolv(k == 0));
                if s.assume(is_var(res(v), k), true) {
                    l.push((s, v));
                }
            }
            return Some(l);
        }
        if local_crate(d) && result_ok(c.ret_ty) == Some(self.rs.name) {
            return Some(either(e, st, c));
        }
        if local_crate(d) && aside(c, &self.rs, &self.sv) {
            if peel(c.ret_ty).is_adt() && path_of(peel(c.ret_ty).ty_adt_def().unwrap().did()) == "std::result::Result" {
                return Some(either(e, st, c));
            }
            let v = e.fresh(st, c.frame, c.bb, "aside", Some(peel(c.ret_ty)));
            return Some(vec![(st.clone(), v)]);
        }
        if self.parts.savers.contains(&d) {
            let i = c.arg_tys.iter().position(|t| vec_of(*t, self.rs.lay.rec))?;
            let l = e.snap(st, c.args[i], 0);
            if std::env::var("SA_SETS").is_ok() {
                eprintln!("SAVE {l:?}\n  {}", st.facts.show());
            }
            self.uniform(e, st, c, l);
            for (s, x) in each(e, st, l, self.rs.lay.rec) {
                let (n, k) = (self.rs.node_of(x), rec_kind(x));
                // what was taken from the cache may go back
                if s.query(bool_app("was_cached", vec![x])) != Some(true) {
                    self.cached(e, &s, c, n, k);
                }
            }
            return Some(vec![(st.clone(), models::unit())]);
        }
        if self.parts.finders.contains(&d) {
            let i = c.arg_tys.iter().position(|t| peel(*t) == self.rs.name)?;
            let j = c.arg_tys.iter().position(|t| peel(*t) == self.rs.lay.kind)?;
            let (n, k) = (e.snap(st, c.args[i], 0), e.snap(st, c.args[j], 0));
            let mut s = st.clone();
            let v = stored(e, &mut s, c, &self.rs, n, k, peel(c.ret_ty));
            return Some(vec![(s, v)]);
        }
        match op(c, &self.rs) {
            Op::Set { key, ttl, val } => {
                if self.prop == "C20" {
                    let (v, t) = (e.snap(st, c.args[val], 0), e.snap(st, c.args[ttl], 0));
                    self.lives(e, st, c, v, t);
                }
                let (k, v) = (e.snap(st, c.args[key], 0), e.snap(st, c.args[val], 0));
                let (name, kind) = parts_of_key(k, c.arg_tys[key], &self.rs)?;
                if std::env::var("SA_SETS").is_ok() {
                    eprintln!("SET {k:?} {v:?}\n  {}", st.facts.show());
                }
                if self.prop == "C21" {
                    for (s, x) in each(e, st, v, self.rs.lay.rec) {
                        let ok = equal(e, &s, &self.rs, self.rs.node_of(x), name);
                        fob(e, "C21", &s, c.frame, c.span, "records are cached under their name", ok);
                        let ok = equal_kinds(&s, &self.rs, rec_kind(x), kind);
                        fob(e, "C21", &s, c.frame, c.span, "records are cached under their type", ok);
                    }
                }
                self.cached(e, st, c, name, kind);
                let v = e.fresh(st, c.frame, c.bb, "replaced", Some(peel(c.ret_ty)));
                return Some(vec![(st.clone(), v)]);
            }
            Op::Get { key } => {
                let k = e.snap(st, c.args[key], 0);
                let (name, kind) = parts_of_key(k, c.arg_tys[key], &self.rs)?;
                let mut out = found(e, st, c, &self.rs, name, kind, self.prop == "C20")?;
                if self.prop == "C20" {
                    for (s, v) in &mut out {
                        until(e, s, c, *v, &self.rs);
                    }
                }
                return Some(out);
            }
            Op::No => {}
        }
        base_call(e, st, c)
    }
    fn loop_done(&mut self, e: &mut Engine, l: &LoopInfo) {
        if self.lim.is_none() {
            return;
        }
        // a referral to a nearer zone is progress
        let left: Vec<_> = l.arrivals.iter().filter(|x| x.1.get(NEARER).as_bool() != Some(true) || x.1.get(TRIED).as_int() != Some(0)).cloned().collect();
        let m = LoopInfo { frame: l.frame, head: l.head, span: l.span, heads: l.heads, arrivals: &left };
        rank_loop(e, &m, "C25");
    }
    fn aggregate(&mut self, e: &mut Engine, st: &mut State, fr: u32, span: Span, v: V) {
        if self.prop != "C26" || v.ty().map(peel).and_then(adt_path) != adt_path(self.work.t) {
            return;
        }
        let v = e.snap(st, v, 0);
        let Some((i, t)) = aliases_field(&self.work, &self.rs) else { return };
        let l = field(v, STRUCT, i, Some(t));
        let ok = st.query(eq0(&Lin::of(models::coll_len(l)))) == Some(true);
        fob(e, "C26", st, fr, span, "a resolution starts with no aliases collected", ok);
    }
}
/// where a resolution collects the aliases it follows
fn aliases_field(w: &Work, rs: &Recs) -> Option<(u32, Ty)> {
    let f = struct_fields(w.t);
    let at: Vec<usize> = (0..f.len()).filter(|i| vec_of(f[*i].1, rs.lay.rec)).collect();
    (at.len() == 1).then(|| (at[0] as u32, f[at[0]].1))
}
/// a list of the aliases that lead from the name asked for to this one, in order, and after them
/// so many records of it
fn aliases(to: V, ends: V, t: Ty) -> V {
    app("aliases", vec![to, ends], Some(t))
}
fn aliases_of(v: V) -> Option<(V, V)> {
    match v.n() {
        N::App("aliases", a) => Some((a[0], a[1])),
        _ => None,
    }
}
impl W {
    /// what the last reply was matters to some properties only
    fn forget(&self, mut l: Vec<(State, V)>) -> Vec<(State, V)> {
        if self.prop != "C24" {
            for (s, _) in &mut l {
                for x in [LAST, SERVERS, ALIAS] {
                    s.set(x, boolv(false));
                }
                for x in [TOP, ASKED, WHAT] {
                    s.set(x, int(0));
                }
            }
        }
        l
    }
    fn asked_for(&self, e: &mut Engine, st: &State, x: V, to: V) -> bool {
        let kind = self.kind.unwrap_or(int(0));
        kind.ty().is_some() && equal(e, st, &self.rs, self.rs.node_of(x), to) && equal_kinds(st, &self.rs, rec_kind(x), kind)
    }
    /// one more record at the end of such a list
    fn one_more(&self, e: &mut Engine, st: &State, l: V, x: V, t: Ty) -> Option<V> {
        let (to, ends) = aliases_of(l)?;
        let cname = self.rs.kind_no("CNAME")?;
        let mine = equal(e, st, &self.rs, self.rs.node_of(x), to);
        if st.query(eq0(&Lin::of(ends))) == Some(true) && mine && self.rs.is_kind(st, x, cname) {
            return Some(aliases(target(&self.rs, x, cname)?, int(0), t));
        }
        self.asked_for(e, st, x, to).then(|| aliases(to, Lin::of(ends).plus(1).v(), t))
    }
    /// such a list with all of these after it
    fn and_all(&self, e: &mut Engine, st: &State, l: V, r: V, t: Ty) -> Option<V> {
        let (to, ends) = aliases_of(l)?;
        let all = each(e, st, r, self.rs.lay.rec).into_iter().all(|(s, x)| self.asked_for(e, &s, x, to));
        all.then(|| aliases(to, Lin::of(ends).add(&Lin::of(models::coll_len(r)), 1).v(), t))
    }
    /// the list of aliases as it grows
    fn follow(&mut self, e: &mut Engine, st: &State, c: &Call) -> Option<Vec<(State, V)>> {
        let m = c.name.rsplit("::").next().unwrap_or("");
        let t = |x: Ty| peel(x);
        if c.args.is_empty() {
            return None;
        }
        // a chain of iterators over such a list and what comes after it
        if c.tm == Some("std::iter::Iterator::collect") && vec_of(c.ret_ty, self.rs.lay.rec) {
            let it = e.snap(st, c.args[0], 0);
            let (_, f) = it.fields()?;
            let lists: Vec<V> = f.iter().filter_map(|x| whole(*x)).collect();
            if lists.len() == 2 && c.self_ty().and_then(adt_path).map(|p| p.contains("Chain")).unwrap_or(false) {
                return self.and_all(e, st, lists[0], lists[1], t(c.ret_ty)).map(|l| vec![(st.clone(), l)]);
            }
            return None;
        }
        if m == "concat" {
            if let N::Seq(f) = e.snap(st, c.args[0], 0).n() {
                let mut l = *f.first()?;
                aliases_of(l)?;
                for x in &f[1..] {
                    l = self.and_all(e, st, l, *x, t(c.ret_ty))?;
                }
                return Some(vec![(st.clone(), l)]);
            }
        }
        if !by_mut(c.arg_tys[0]) {
            return None;
        }
        let cur = e.deref(st, c.args[0]);
        aliases_of(cur)?;
        let lt = cur.ty()?;
        let N::Ptr(l, p) = c.args[0].n() else { return None };
        let local = c.inst.map(|i| local_crate(i.def_id())).unwrap_or(false);
        if local || matches!(m, "take" | "replace" | "swap" | "deref" | "deref_mut" | "as_mut_slice" | "iter_mut" | "into_iter" | "index_mut" | "borrow_mut") {
            return None;
        }
        let mut s = st.clone();
        let new = match m {
            "reserve" | "shrink_to_fit" | "reserve_exact" => Some(cur),
            "push" => {
                let x = e.snap(st, c.args[1], 0);
                self.one_more(e, st, cur, x, lt)
            }
            "extend" | "append" | "extend_from_slice" => {
                let r = e.snap(st, c.args[1], 0);
                let r = whole(r).unwrap_or(r);
                let is = vec_of(peel(c.arg_tys[1]), self.rs.lay.rec) || matches!(peel(c.arg_tys[1]).kind(), ty::Slice(x) if peel(*x) == self.rs.lay.rec) || whole(e.snap(st, c.args[1], 0)).is_some();
                let new = if is { self.and_all(e, st, cur, r, lt) } else { None };
                if let (Some(_), "append", N::Ptr(l, p)) = (new, m, c.args[1].n()) {
                    e.store(&mut s, *l, p, seq(vec![]));
                }
                new
            }
            _ => None,
        };
        if std::env::var("SA_SETS").is_ok() {
            eprintln!("FOLLOW {} {cur:?} -> {new:?} {:?}\n  {}", c.name, c.args.get(1).map(|x| e.snap(st, *x, 0)), st.facts.show());
        }
        if let (Some(n), "push" | "extend" | "append" | "extend_from_slice" | "reserve" | "shrink_to_fit" | "reserve_exact") = (new, m) {
            e.store(&mut s, *l, p, n);
            return Some(vec![(s, models::unit())]);
        }
        // something else is done with it
        let x = e.fresh(st, c.frame, c.bb, "unordered", Some(lt));
        e.store(&mut s, *l, p, x);
        models::call(e, &s, c).or_else(|| Some(vec![(s.clone(), e.fresh(&s, c.frame, c.bb, "got", Some(peel(c.ret_ty))))]))
    }
}
/// the list an untouched iterator goes through
fn whole(v: V) -> Option<V> {
    match v.n() {
        N::Model("iter", f) if f[1].as_int() == Some(0) && f[2] == models::coll_len(f[0]) => Some(f[0]),
        N::Adt(1, f) if f.len() == 1 => whole(f[0]),
        _ => None,
    }
}
impl W {
    /// all the records have one name and type
    fn uniform(&self, e: &mut Engine, st: &State, c: &Call, l: V) {
        if self.prop != "C21" {
            return;
        }
        let t = self.rs.lay.rec;
        for (s, x) in each(e, st, l, t) {
            let r = sym("one", t);
            let mut s = s;
            // keep the first apart from the second
            s.assume(eqv(self.rs.node_of(r), self.rs.node_of(x)), true);
            s.assume(self.rs.kind_eq(rec_kind(r), rec_kind(x)), true);
            for (s, y) in each_at(e, &s, l, t, "other") {
                let ok = equal(e, &s, &self.rs, self.rs.node_of(y), self.rs.node_of(r));
                fob(e, "C21", &s, c.frame, c.span, "records cached together have one name", ok);
                let ok = equal_kinds(&s, &self.rs, rec_kind(y), rec_kind(r));
                fob(e, "C21", &s, c.frame, c.span, "records cached together have one type", ok);
            }
        }
    }
    /// records of this name and type are cached
    fn cached(&self, e: &mut Engine, st: &State, c: &Call, name: V, kind: V) {
        if self.prop != "C24" {
            return;
        }
        let is = |l: Loc| st.get(l).as_bool();
        if is(LAST) == Some(false) {
            return;
        }
        let rs = &self.rs;
        let (ns, cname) = (rs.kind_no("NS").unwrap(), rs.kind_no("CNAME").unwrap());
        let (asked, what) = (st.get(ASKED), st.get(WHAT));
        if asked.ty() != Some(rs.name) {
            fob(e, "C24", st, c.frame, c.span, "records of a reply are cached after it", false);
            return;
        }
        let m = st.facts.mask(kind);
        let mine = equal(e, st, rs, name, asked);
        if mine && (is(ALIAS) == Some(true) && m == 1 << cname || equal_kinds(st, rs, kind, what)) {
            fob(e, "C24", st, c.frame, c.span, "what was asked for is cached", true);
            return;
        }
        if is(SERVERS) == Some(true) && m == 1 << ns && in_zone_known(e, st, rs, asked, name) {
            fob(e, "C24", st, c.frame, c.span, "servers of a zone around the searched name are cached", true);
            return;
        }
        let top = st.get(TOP);
        let ok = top.ty() == Some(rs.lay.rec) && {
            let t = rs.node_of(top);
            let mut zs = vec![];
            for (f, b) in &st.facts.b {
                if let (true, N::App("in_zone", x)) = (*b, f.n()) {
                    zs.push((x[0], x[1]));
                }
            }
            in_zone_known(e, st, rs, name, t)
                || zs.into_iter().any(|(a, z)| equal(e, st, rs, a, name) && in_zone_known(e, st, rs, z, t))
        };
        if !ok && std::env::var("SA_SETS").is_ok() { eprintln!("CACHED {name:?} TOP {t:?}\n {}", st.facts.show(), t = top); }
        fob(e, "C24", st, c.frame, c.span, "anything else sent along is cached only inside the zone whose servers were asked", ok);
    }
}
/// what was found expires after now, and not later than any record can live
fn until(e: &mut Engine, s: &mut State, c: &Call, v: V, rs: &Recs) {
    let Some((1, f)) = v.fields() else { return };
    let (t, v) = (f[0].ty(), f[0]);
    let Some(ty::Tuple(ts)) = t.map(|t| t.kind()) else { return };
    let at = |f: &dyn Fn(Ty) -> bool| ts.iter().position(|x| f(peel(x))).map(|i| field(v, STRUCT, i as u32, Some(peel(ts[i]))));
    let (Some(x), Some(l)) = (at(&|t| adt_path(t).as_deref() == Some("std::time::Instant")), at(&|t| vec_of(t, rs.lay.rec))) else { return };
    let now = e.fresh(s, c.frame, c.bb, "now_found", x.ty());
    let last = s.get(Loc(0, 900));
    if !last.is_uninit() {
        s.assume(le(last, now), true);
    }
    s.set(Loc(0, 900), now);
    if s.get(START).is_uninit() {
        s.set(START, now);
    }
    s.assume(lt(now, x), true);
    let d = Lin::of(x).sub(&Lin::of(s.get(START)));
    s.assume(ge0(&d.scale(-1).plus(SEC * u32::MAX as i128)), true);
    s.set(UNTIL, x);
    e.pinned.extend(x.syms().iter());
    look_at(e, s, l, rs);
}
impl W {
    /// the clock, and the record looked at as lists are gone through
    fn time(&mut self, e: &mut Engine, st: &State, c: &Call) -> Option<Vec<(State, V)>> {
        if c.name == "std::time::Instant::now" {
            let mut out = models::call(e, st, c)?;
            for (s, v) in &mut out {
                if s.get(START).is_uninit() {
                    s.set(START, *v);
                    e.pinned.extend(v.syms().iter());
                }
            }
            return Some(out);
        }
        let index = matches!(c.tm, Some("std::ops::Index::index" | "std::ops::IndexMut::index_mut"));
        if !index && c.tm != Some("std::iter::Iterator::next") && c.tm != Some("std::iter::DoubleEndedIterator::next_back") {
            return None;
        }
        source(st.get(ONE))?;
        if c.tm == Some("std::ops::Index::index") && !st.get(UNTIL).is_uninit() {
            return None;
        }
        let mut r = vec![];
        for (s, v) in models::call(e, st, c)? {
            if index {
                r.extend(self.pick(e, s, c, v));
                continue;
            }
            let Some((1, f)) = v.fields() else {
                r.push((s, v));
                continue;
            };
            r.extend(self.pick(e, s, c, f[0]).into_iter().map(|(s, x)| (s, models::option(c.ret_ty, Some(x)))));
        }
        Some(r)
    }
    /// what is got from a list may be the record looked at
    fn pick(&self, e: &mut Engine, s: State, c: &Call, f: V) -> Vec<(State, V)> {
        let Some((one, i)) = source(s.get(ONE)) else { return vec![(s, f)] };
        // the place in the list
        let (l, at, now) = match f.n() {
            N::Ptr(l, p) => match p.last() {
                Some(Pj::Index(at)) => {
                    let of = e.deref(&s, ptr(*l, p[..p.len() - 1].to_vec()));
                    let mutable = c.tm == Some("std::ops::IndexMut::index_mut") || c.tm != Some("std::ops::Index::index");
                    (if is_from(&s, of, one) { one } else { of }, *at, if mutable { ptr(CELL, vec![]) } else { s.get(CELL) })
                }
                _ => return vec![(s, f)],
            },
            _ => match source(f) {
                Some((l, at)) => (l, at, s.get(CELL)),
                None => return vec![(s, f)],
            },
        };
        if !from(l, one) {
            return vec![(s, f)];
        }
        let fixed = at.as_int().is_some() && matches!(c.tm, Some("std::ops::Index::index" | "std::ops::IndexMut::index_mut"));
        let mut r = vec![];
        let (a, b) = models::split(&s, eq0(&Lin::of(at).sub(&Lin::of(i))));
        if let Some(mut a) = a {
            a.set(if fixed { FIRST } else { PAST }, boolv(true));
            if matches!(now.n(), N::Ptr(..)) {
                a.set(GIVEN, boolv(true));
            }
            // in the form of the others
            let plain = a.get(UNTIL).is_uninit() && bare(now) == now && !matches!(now.n(), N::Ptr(..));
            let now = if plain { app("rec:=", vec![now, int(self.rs.ttl as i128), self.rs.ttl_of(now)], Some(self.rs.lay.rec)) } else { now };
            r.push((a, now));
        }
        if let Some(b) = b {
            for after in [true, false] {
                let mut b = b.clone();
                if b.assume(ge0(&Lin::of(at).sub(&Lin::of(i)).plus(-1)), after) {
                    if !fixed {
                        b.set(PAST, boolv(after));
                    }
                    let x = if matches!(f.n(), N::Ptr(..)) { f } else { self.other(e, &mut b, c, f) };
                    r.push((b, x));
                }
            }
        }
        r
    }
    /// any other record, of which the TTL does not matter
    fn other(&self, e: &mut Engine, s: &mut State, c: &Call, x: V) -> V {
        if !s.get(UNTIL).is_uninit() || bare(x) != x {
            return x;
        }
        let t = e.fresh(s, c.frame, c.bb, "other_ttl", Some(tcx().types.u32));
        rec_set(x, self.rs.ttl, t)
    }
    /// an entry lives no longer than each of its records
    fn lives(&self, e: &mut Engine, st: &State, c: &Call, l: V, t: V) {
        let rs = &self.rs;
        let one = st.get(ONE);
        let mine = source(one).map(|(a, _)| is_from(st, l, a)).unwrap_or(false);
        for (s, x) in each(e, st, l, rs.lay.rec) {
            let y = if mine { one } else { bare(x) };
            let d = Lin::of(rs.ttl_of(y)).scale(SEC).sub(&Lin::of(t));
            let ok = s.query(ge0(&d)) == Some(true);
            if !ok && std::env::var("SA_SETS").is_ok() {
                eprintln!("LIVES {y:?} {t:?}\n  {}", s.facts.show());
            }
            fob(e, "C20", &s, c.frame, c.span, "an entry lives no longer than each record stored in it", ok);
        }
    }
}
/// a list some of whose records are as they are in this one, changed in place
fn is_from(s: &State, l: V, one: V) -> bool {
    from(l, one) || matches!(l.n(), N::Summ(..)) && alts_of(l, s).iter().any(|a| matches!(source(a.t), Some((b, _)) if from(b, one)))
}
fn from(l: V, one: V) -> bool {
    l == one || matches!(l.n(), N::Summ(i, ..) if *i == one) || matches!(l.n(), N::App(_, a) if a.first().map(|x| from(*x, one)).unwrap_or(false))
}
/// the TTL of a record found is the time left
fn left(e: &mut Engine, s: &State, rs: &Recs, x: V, until: V) -> bool {
    let t = Lin::of(rs.ttl_of(x)).scale(SEC);
    let (first, last) = (s.get(START), s.get(Loc(0, 900)));
    let _ = e;
    if first.is_uninit() || last.is_uninit() {
        return false;
    }
    // no more than was left at first, no less than is left at last
    let most = Lin::of(until).sub(&Lin::of(first)).sub(&t);
    let least = t.plus(SEC - 1).sub(&Lin::of(until)).add(&Lin::of(last), 1);
    (s.query(ge0(&most)) == Some(true) || s.query(eq0(&t)) == Some(true)) && s.query(ge0(&least)) == Some(true)
}
/// what the cache holds under a key: records of that name and type
fn stored(e: &mut Engine, s: &mut State, c: &Call, rs: &Recs, name: V, kind: V, t: Ty) -> V {
    let x = e.fresh(s, c.frame, c.bb, "cached", Some(t));
    let len = models::coll_len(x);
    s.assume(ge0(&Lin::of(len)), true);
    let p = Pred { node: true, kind: true, is: 0 };
    let alts = alts_of(x, s)
        .into_iter()
        .map(|al| {
            let mut g = al.facts.clone();
            g.extend(p.facts(rs, al.t, name, kind));
            g.push((bool_app("was_cached", vec![al.t]), true));
            g.sort();
            Alt { t: al.t, facts: g }
        })
        .collect();
    summ(x, len, alts)
}
fn found(e: &mut Engine, st: &State, c: &Call, rs: &Recs, name: V, kind: V, plain: bool) -> Option<Vec<(State, V)>> {
    let rt = peel(c.ret_ty);
    let inner = option_of(rt)?;
    let ty::Tuple(ts) = inner.kind() else { return None };
    let mut s = st.clone();
    let mut f = vec![];
    for t in ts.iter() {
        let t = peel(t);
        f.push(if vec_of(t, rs.lay.rec) && !plain { stored(e, &mut s, c, rs, name, kind, t) } else { e.fresh(&s, c.frame, c.bb, "expiry", Some(t)) });
    }
    Some(vec![(st.clone(), models::option(rt, None)), (s, models::option(rt, Some(models::tup(Some(inner), f))))])
}
/// the functions that resolve a name, used from outside
pub fn roots() -> Vec<DefId> {
    local_fns().into_iter().map(|x| x.1).filter(|d| !tcx().is_closure_like(*d) && tcx().visibility(*d).is_public() && mentions_lookup(sig_of(*d).1) && sig_of(*d).0.len() == 1).collect()
}
/// records from the cache are given as they were found
fn answers(e: &mut Engine, r: &mut Report, s: &State, v: V, rs: &Recs, d: DefId, depth: u32) {
    let Some(t) = v.ty().map(peel) else { return };
    if vec_of(t, rs.lay.rec) {
        for (s, x) in each(e, s, v, rs.lay.rec) {
            let y = bare(x);
            if s.query(bool_app("was_cached", vec![y])) == Some(true) {
                let ok = rs.ttl_of(x) == rs.ttl_of(y) || s.query(eqv(rs.ttl_of(x), rs.ttl_of(y))) == Some(true);
                rob(r, "C20", d, "records found in the cache are given with the TTL they were found with", &s, ok);
            }
        }
        return;
    }
    if depth == 0 {
        return;
    }
    if let ty::Adt(a, _) = t.kind() {
        if a.is_struct() && local_crate(a.did()) || matches!(t.kind(), ty::Tuple(_)) {
            for (i, f) in struct_fields(t).into_iter().enumerate() {
                let x = e.snap(s, field(v, STRUCT, i as u32, Some(f.1)), 0);
                answers(e, r, s, x, rs, d, depth - 1);
            }
        }
    }
}
pub fn run(r: &mut Report, prop: &'static str) {
    let Some(rs) = Recs::find() else {
        r.error("no records");
        return;
    };
    set_recs(Some(rs.lay));
    if prop != "C24" {
        takers(r, prop);
    }
    set_recs(Some(rs.lay));
    let Some(sv) = server(&rs) else {
        r.error("no type of name servers to ask");
        return;
    };
    let trace = super::resolver::types().map(|t| t.trace);
    let mut n = (0, 0);
    let Some(reply) = replies(r) else {
        r.error("what a request gives was not found");
        return;
    };
    let reply = std::rc::Rc::new(reply);
    let ps = parts(&rs);
    let Some(wk) = work(&rs, &sv) else {
        r.error("no resolution in progress");
        return;
    };
    let mut done: std::rc::Rc<Vec<Asker>> = Default::default();
    let ask: Vec<DefId> = askers().into_iter().filter(|d| wk.arg(&sig_of(*d).0).is_some()).collect();
    let mut all = ask.clone();
    all.extend(roots());
    all.extend(ps.savers.iter().chain(&ps.finders));
    for d in all {
        let mut e = Engine::new();
        let mut st = State::default();
        set_tenv(ty::TypingEnv::post_analysis(tcx(), d));
        let inst = identity_instance(d);
        let mut args = sym_args(inst, &mut st);
        let (ins, out) = sig_of(d);
        st.set(LAST, boolv(false));
        st.set(SERVERS, boolv(false));
        st.set(ALIAS, boolv(false));
        st.set(TOP, int(0));
        st.set(ASKED, int(0));
        st.set(WHAT, int(0));
        let mut mine = ps.clone();
        mine.savers.retain(|x| *x != d);
        mine.finders.retain(|x| *x != d);
        let at = |f: &dyn Fn(Ty) -> bool| ins.iter().position(|t| f(peel(*t)));
        if ps.savers.contains(&d) {
            // called with the records of one name and type
            let i = at(&|t| vec_of(t, rs.lay.rec)).unwrap();
            let l = e.deref(&st, args[i]);
            let (n, k) = (sym("a.name", rs.name), sym("a.type", rs.lay.kind));
            e.pinned.extend(n.syms().iter());
            e.pinned.extend(k.syms().iter());
            let p = Pred { node: true, kind: true, is: 0 };
            let alts = alts_of(l, &st).into_iter().map(|al| Alt { t: al.t, facts: { let mut g = p.facts(&rs, al.t, n, k); g.sort(); g } }).collect();
            // places in the list matter here
            let v = if prop == "C20" { l } else { summ(l, models::coll_len(l), alts) };
            match args[i].n() {
                N::Ptr(l, p) => e.store(&mut st, *l, p, v),
                _ => args[i] = v,
            }
        }
        if prop == "C20" {
            for l in [ONE, CELL, UNTIL, START] {
                st.set(l, uninit());
            }
            st.set(PAST, boolv(false));
            st.set(GIVEN, boolv(false));
            st.set(FIRST, boolv(false));
            if ps.savers.contains(&d) {
                let i = at(&|t| vec_of(t, rs.lay.rec)).unwrap();
                let l = e.deref(&st, args[i]);
                look_at(&mut e, &mut st, l, &rs);
            }
        }
        let mut of_kind = None;
        if let (true, true, Some(i)) = (prop == "C26", roots().contains(&d), wk.arg(&ins)) {
            let w = e.snap(&st, args[i], 0);
            let Some((at, t)) = aliases_field(&wk, &rs) else {
                r.error("no list of the aliases followed");
                return;
            };
            let (name, kind) = wk.asks(w, &rs);
            e.pinned.extend(name.syms().iter());
            e.pinned.extend(kind.syms().iter());
            of_kind = Some(kind);
            let f = struct_fields(wk.t).into_iter().enumerate().map(|(k, f)| if k as u32 == at { aliases(name, int(0), t) } else { field(w, STRUCT, k as u32, Some(f.1)) }).collect();
            let v = adt(STRUCT, f, Some(wk.t));
            match args[i].n() {
                N::Ptr(l, p) => e.store(&mut st, *l, p, v),
                _ => args[i] = v,
            }
        }
        let before = wk.arg(&ins).map(|i| e.snap(&st, args[i], 0));
        if let (true, Some(w)) = (ask.contains(&d), before) {
            e.pinned.extend(w.syms().iter());
        }
        let lim = before.filter(|_| prop == "C25" && (ask.contains(&d) || roots().contains(&d)));
        if let Some(w) = lim {
            e.pinned.extend(w.syms().iter());
        }
        st.set(NAMED, boolv(false));
        for l in [TRIED, ROUNDS] {
            st.set(l, int(0));
        }
        st.set(BAR, if lim.is_some() { bar("") } else { int(0) });
        st.set(NEARER, boolv(false));
        let work_arg = wk.arg(&ins).map(|i| args[i]);
        let want = if ps.finders.contains(&d) {
            let (i, j) = (at(&|t| t == rs.name).unwrap(), at(&|t| t == rs.lay.kind).unwrap());
            let (n, k) = (e.snap(&st, args[i], 0), e.snap(&st, args[j], 0));
            e.pinned.extend(n.syms().iter());
            e.pinned.extend(k.syms().iter());
            Some((n, k))
        } else {
            None
        };
        e.hooks = Some(Box::new(W { prop, rs: Recs::find().unwrap(), sv: server(&rs).unwrap(), trace, reply: reply.clone(), requests: requests(), roots: roots(), parts: mine, askers: done.clone(), work: work(&rs, &sv).unwrap(), kind: of_kind, lim, outer: roots().contains(&d) }));
        let rets = e.root(inst, args, st);
        r.roots.push(path_of(d));
        if rets.is_empty() {
            r.error(format!("{} never returns", path_of(d)));
        }
        if std::env::var("SA_DBG").is_ok() {
            for (s, v) in &rets {
                eprintln!("RET {v:?}\n  {}", s.facts.show());
            }
        }
        if let (true, Some(w), Some(p)) = (ask.contains(&d), before, work_arg) {
            let (name, kind) = wk.asks(w, &rs);
            let mut rep = Reply { rt: result_ok(out).unwrap(), vars: HashMap::new() };
            if rep.meet(&mut e, &rets, &rs, &sv, name, kind, None).is_none() {
                r.error(format!("what {} gives was not found", path_of(d)));
                return;
            }
            let n = struct_fields(wk.t).len();
            let same = (0..n as u32).map(|k| rets.iter().all(|(s, _)| {
                let v = e.snap(s, p, 0);
                field(v, STRUCT, k, None) == field(w, STRUCT, k, None) || { let t = field_ty(wk.t, STRUCT, k).map(peel); same(&mut e, s, field(v, STRUCT, k, t), field(w, STRUCT, k, t)) }
            })).collect();
            if std::env::var("SA_DBG").is_ok() {
                eprintln!("ASKER {:?} {:?}", rep.vars, same);
            }
            let mut l = vec![Asker { d, reply: rep, same }];
            if let Ok(x) = std::rc::Rc::try_unwrap(std::mem::take(&mut done)) {
                l.extend(x);
            }
            done = std::rc::Rc::new(l);
        }
        if prop == "C20" && ps.finders.contains(&d) {
            for (s, v) in &rets {
                let v = e.snap(s, *v, 0);
                let all = each(&mut e, s, v, rs.lay.rec);
                let (one, cell, x) = (s.get(ONE), s.get(CELL), s.get(UNTIL));
                // changed in place: both as they were and as they are
                let set = all.iter().any(|(_, y)| bare(*y) != *y);
                let of = source(one).map(|x| x.0);
                let mine = of.map(|o| is_from(s, v, o) && s.query(eq0(&Lin::of(models::coll_len(v)).sub(&Lin::of(models::coll_len(o))))) == Some(true)).unwrap_or(false);
                for (s, y) in all {
                    let y = if mine && set && bare(cell) != cell { cell } else { y };
                    let ok = left(&mut e, &s, &rs, y, x);
                    if !ok && std::env::var("SA_SETS").is_ok() {
                        eprintln!("LEFT {:?} {:?} {mine} {set} {cell:?} {one:?} {y:?} {x:?}\n  {}", s.get(START), s.get(Loc(0,900)), s.facts.show());
                    }
                    rob(r, prop, d, "records found in the cache have the time left as their TTL", &s, ok);
                }
            }
        }
        if let (true, "C20", false) = (roots().contains(&d), prop, ps.finders.contains(&d)) {
            for (s, v) in &rets {
                let v = e.snap(s, *v, 0);
                let Some((0, f)) = v.fields() else { continue };
                answers(&mut e, r, s, f[0], &rs, d, 2);
            }
        }
        if prop == "C26" && roots().contains(&d) {
            for (s, v) in &rets {
                let v = e.snap(s, *v, 0);
                let v = match v.fields() {
                    // the result and what else is given
                    Some((0, f)) if v.ty().map(|t| matches!(t.kind(), ty::Tuple(_))).unwrap_or(false) || result_ok(out).is_none() => f[0],
                    _ => v,
                };
                let Some((0, f)) = v.fields() else { continue };
                let Some((0, g)) = f[0].fields() else { continue };
                let Some(l) = g.first().copied() else { continue };
                let flag = result_ok(out).or(f[0].ty()).map(|t| struct_fields(peel(t))).and_then(|l| l.iter().position(|x| x.1.is_bool()));
                let flag = flag.or_else(|| f[0].ty().and_then(|t| struct_fields(peel(t)).iter().position(|x| x.1.is_bool())));
                let none = flag.and_then(|i| g.get(i)).and_then(|x| x.as_bool());
                let end = aliases_of(l);
                rob(r, prop, d, "the answers are the aliases followed, in order, and after them records of the name they lead to", s, end.is_some());
                let ok = none == Some(true) || end.map(|x| s.query(ge0(&Lin::of(x.1).plus(-1))) == Some(true)).unwrap_or(false);
                rob(r, prop, d, "the records found come after the aliases", s, ok);
                if std::env::var("SA_SETS").is_ok() {
                    eprintln!("ANSWERS {l:?} {none:?}");
                }
            }
        }
        if let (Some((n, k)), "C21") = (want, prop) {
            for (s, v) in &rets {
                let v = e.snap(s, *v, 0);
                for (s, x) in each(&mut e, s, v, rs.lay.rec) {
                    let ok = equal(&mut e, &s, &rs, rs.node_of(x), n);
                    rob(r, prop, d, "what is found in the cache has the name looked for", &s, ok);
                    rob(r, prop, d, "what is found in the cache has the type looked for", &s, equal_kinds(&s, &rs, rec_kind(x), k));
                }
            }
        }
        keep(&mut e, prop);
        r.take(&mut e);
        n.0 += 1;
    }
    let _ = (&sv, rob);
    n.1 += 1;
    if n.0 == 0 {
        r.error("no function that resolves a name");
    }
    set_recs(None);
}
