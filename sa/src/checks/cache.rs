//! The cache: expired entries are not served and live ones not dropped (C19), expired entries go
//! away (C39), entries expire no later than their time to live (part of C20).
use super::base::*;
use super::*;
use crate::models;
use rustc_span::Span;

const G_REM: Loc = Loc(0, 60); // the live entry taken out of the store
const G_INS: Loc = Loc(0, 61); // number of insertions
const G_PASS: Loc = Loc(0, 62); // a whole pass over the store was made since the last sleep
const G_SLEPT: Loc = Loc(0, 63);
const NOW: Loc = Loc(0, 900);

/// a struct holding a locked map of values with an expiry
#[derive(Clone, Copy)]
pub struct Store {
    pub t: Ty,
    pub map: Ty,
    pub entry: Ty,
    pub key: Ty,
    /// index of the expiry in the entry
    pub exp: u32,
}
fn is_instant(t: Ty) -> bool {
    adt_path(t).map(|p| p == "std::time::Instant").unwrap_or(false)
}
fn parts(t: Ty) -> Vec<Ty> {
    match t.kind() {
        ty::Tuple(ts) => ts.iter().collect(),
        ty::Adt(d, g) if d.is_struct() => d.non_enum_variant().fields.iter().map(|f| norm(f.ty(tcx(), g).skip_norm_wip())).collect(),
        _ => vec![],
    }
}
fn map_in(t: Ty, d: u32) -> Option<Ty> {
    let ty::Adt(a, g) = peel(t).kind() else { return None };
    let p = path_of(a.did());
    if p == "std::collections::HashMap" {
        return Some(peel(t));
    }
    if d == 0 || !(p.starts_with("std::sync::") || p.starts_with("std::cell::")) {
        return None;
    }
    g.types().find_map(|x| map_in(x, d - 1))
}
pub fn stores() -> Vec<Store> {
    let mut out = vec![];
    for i in tcx().hir_crate_items(()).free_items() {
        let d = i.owner_id.to_def_id();
        if !matches!(tcx().def_kind(d), DefKind::Struct) {
            continue;
        }
        let t = tcx().erase_and_anonymize_regions(tcx().type_of(d).instantiate_identity().skip_norm_wip());
        for ft in parts(t) {
            let Some(m) = map_in(ft, 3) else { continue };
            let ty::Adt(_, g) = m.kind() else { continue };
            let e = g.type_at(1);
            if let Some(x) = parts(e).iter().position(|x| is_instant(*x)) {
                out.push(Store { t, map: m, entry: e, key: g.type_at(0), exp: x as u32 });
            }
        }
    }
    out
}
/// public functions of the struct itself (not of its trait implementations)
pub fn methods(t: Ty) -> Vec<DefId> {
    let ty::Adt(a, _) = t.kind() else { return vec![] };
    local_fns()
        .into_iter()
        .map(|x| x.1)
        .filter(|d| {
            let Some(i) = tcx().impl_of_assoc(*d) else { return false };
            tcx().impl_opt_trait_ref(i).is_none()
                && tcx().visibility(*d).is_public()
                && matches!(peel(tcx().type_of(i).instantiate_identity().skip_norm_wip()).kind(), ty::Adt(b, _) if a.did() == b.did())
        })
        .collect()
}
struct H {
    prop: &'static str,
    s: Store,
    conf: Option<V>,
}
fn from_lock(v: V) -> bool {
    match v.n() {
        N::Sym(s) => s.starts_with("locked"),
        N::App(f, a) if matches!(*f, "map_removed" | "map_get" | "elem" | "subslice" | "it") => from_lock(a[0]),
        N::Field(x, ..) => from_lock(*x),
        N::Summ(i, ..) => from_lock(*i),
        _ => false,
    }
}
impl H {
    /// is this the value of an entry of the store ?
    fn entry(&self, v: V) -> bool {
        match v.n() {
            N::App(f, a) if *f == "map_get" => from_lock(a[0]),
            N::Field(p, _, 1) => matches!(p.n(), N::App(f, a) if *f == "elem" && from_lock(a[0])),
            _ => false,
        }
    }
    fn key_of(&self, v: V) -> Option<V> {
        match v.n() {
            N::App(_, a) => Some(a[1]),
            N::Field(p, ..) => match p.n() {
                N::App(_, a) => match a[1].n() {
                    N::App(at, k) if *at == "at" => Some(k[0]),
                    _ => Some(field(*p, STRUCT, 0, Some(peel(self.s.key)))),
                },
                _ => None,
            },
            _ => None,
        }
    }
    fn expiry(&self, v: V) -> Lin {
        Lin::of(field(v, STRUCT, self.s.exp, parts(self.s.entry).get(self.s.exp as usize).copied()))
    }
    /// the same entry, read through a pointer
    fn twin(&self, v: V) -> V {
        match v.n() {
            N::App(f, a) if *f == "map_get" => {
                let pt = match self.s.map.kind() {
                    ty::Adt(_, g) => Ty::new_tup(tcx(), &[g.type_at(0), g.type_at(1)]),
                    _ => return v,
                };
                field(elem(a[0], app("at", vec![a[1]], usize_ty()), Some(pt)), STRUCT, 1, Some(peel(self.s.entry)))
            }
            N::Field(p, _, 1) => match p.n() {
                N::App(f, a) if *f == "elem" => match a[1].n() {
                    N::App(at, k) if *at == "at" => app("map_get", vec![a[0], k[0]], v.ty()),
                    _ => v,
                },
                _ => v,
            },
            _ => v,
        }
    }
    fn live(&self, st: &State, v: V) -> bool {
        self.live1(st, v) || self.live1(st, self.twin(v))
    }
    fn expired(&self, st: &State, v: V) -> bool {
        self.expired1(st, v) || self.expired1(st, self.twin(v))
    }
    fn live1(&self, st: &State, v: V) -> bool {
        let n = st.get(NOW);
        !n.is_uninit() && st.query(ge0(&self.expiry(v).sub(&Lin::of(n)).plus(-1))) == Some(true)
    }
    fn expired1(&self, st: &State, v: V) -> bool {
        let n = st.get(NOW);
        !n.is_uninit() && st.query(ge0(&Lin::of(n).sub(&self.expiry(v)))) == Some(true)
    }
    /// entries mentioned in `v`, and whether the store is mentioned otherwise
    fn entries(&self, v: V, out: &mut Vec<V>, bare: &mut bool) {
        if self.entry(v) {
            out.push(v);
            return;
        }
        if from_lock(v) && (matches!(v.n(), N::Sym(_) | N::Summ(..)) || matches!(v.n(), N::App(f, _) if *f == "it")) {
            *bare = true;
            return;
        }
        if v.ty().map(|t| is_int(t) || t.is_bool()).unwrap_or(false) && !matches!(v.n(), N::Field(..)) {
            return;
        }
        crate::term::children(v.n(), &mut |x| self.entries(x, out, bare));
    }
    fn ob(&self, e: &mut Engine, st: &State, fr: u32, span: Span, what: &str, ok: bool) {
        e.oblig(fr, span, what, ok);
        if !ok {
            e.fail(st, fr, span, self.prop, what);
        }
    }
    fn leaves(&self, e: &mut Engine, st: &State, fr: u32, span: Span, v: V) {
        if self.prop != "C19" {
            return;
        }
        let (mut es, mut bare) = (vec![], false);
        self.entries(e.snap(st, v, 0), &mut es, &mut bare);
        for x in es {
            let ok = self.live(st, x);
            self.ob(e, st, fr, span, "an entry leaves the cache only if it has not expired", ok);
        }
        if bare {
            self.ob(e, st, fr, span, "only entries leave the cache", false);
        }
    }
    fn in_map(&self, e: &Engine, st: &State, v: V) -> bool {
        from_lock(e.deref(st, v))
    }
    fn rt_frame(&self, e: &Engine, fr: u32) -> bool {
        let d = e.frame(fr).inst.def_id();
        tcx().crate_name(d.krate).as_str() == "sa_rt"
    }
    /// `x` is stored under `k`
    fn stored(&self, e: &mut Engine, st: &mut State, fr: u32, span: Span, k: V, x: V) {
        if self.entry(x) {
            // put back
            if self.prop == "C39" {
                let ok = self.live(st, x);
                self.ob(e, st, fr, span, "a pass over the cache keeps only entries that have not expired", ok);
            }
            let same_key = self.key_of(x).map(|y| same(e, st, y, k)).unwrap_or(false);
            if self.prop == "C19" {
                self.ob(e, st, fr, span, "an entry that is kept stays under its key", same_key);
            }
            return;
        }
        let n = st.get(G_INS).as_int().unwrap_or(0);
        st.set(G_INS, int((n + 1).min(3)));
        st.set(Loc(0, 64), k);
        st.set(Loc(0, 65), x);
    }
    fn whole_pass(&self, st: &mut State) {
        st.set(G_PASS, boolv(true));
    }
}
impl Hooks for H {
    fn inline(&mut self, _e: &mut Engine, st: &State, c: &Call) -> Option<(State, V, Vec<V>)> {
        if c.name != "std::thread::spawn" {
            return None;
        }
        let mut s = st.clone();
        s.set(G_SLEPT, boolv(false));
        s.set(G_PASS, boolv(false));
        Some((s, c.args[0], vec![]))
    }
    fn inlined(&mut self, e: &mut Engine, st: &State, c: &Call, outs: Vec<(State, V)>) -> Vec<(State, V)> {
        let h = e.fresh(st, c.frame, c.bb, "thread", Some(c.ret_ty));
        if self.prop == "C39" {
            self.ob(e, st, c.frame, c.span, "the cleaning thread never ends", outs.is_empty());
        }
        vec![(st.clone(), h)]
    }
    fn call(&mut self, e: &mut Engine, st: &State, c: &Call) -> Option<Vec<(State, V)>> {
        let m = c.name.rsplit("::").next().unwrap_or("");
        if let Some(tm) = c.tm {
            if tm.starts_with("std::ops::Fn") && tm.contains("::call") {
                // a caller's function: what it gets leaves the cache
                self.leaves(e, st, c.frame, c.span, c.args[1]);
                return None;
            }
        }
        if std::env::var("SA_CALLS").is_ok() {
            eprintln!("CALL {} {:?} pass {:?} slept {:?}", c.name, c.args.first().map(|x| e.deref(st, *x)), st.get(G_PASS), st.get(G_SLEPT));
        }
        if c.name == "std::thread::sleep" {
            let pass = st.get(G_PASS).as_bool();
            let slept = st.get(G_SLEPT).as_bool();
            if self.prop == "C39" {
                self.ob(e, st, c.frame, c.span, "between two waits the whole cache is passed over", pass == Some(true) || slept == Some(false));
                let d = e.snap(st, c.args[0], 0);
                let known = d.as_int().is_some() || self.conf.map(|x| d.has_any_sym(x.syms())).unwrap_or(false);
                self.ob(e, st, c.frame, c.span, "the wait is the configured one", known);
            }
            let mut s = st.clone();
            s.set(G_PASS, boolv(false));
            s.set(G_SLEPT, boolv(true));
            return Some(vec![(s, models::unit())]);
        }
        if c.args.is_empty() {
            return None;
        }
        if matches!(c.name, "std::mem::take" | "std::mem::replace" | "std::mem::swap") && self.in_map(e, st, c.args[0]) {
            if let N::Ptr(_, p) = c.args[0].n() {
                if !p.is_empty() {
                    // an entry in place
                    if let (Some(Pj::Index(i)), "std::mem::replace") = (p.first(), c.name) {
                        if let N::App(f, a) = i.n() {
                            if *f == "at" && p.len() == 2 {
                                let mut s = st.clone();
                                let x = e.snap(st, c.args[1], 0);
                                self.stored(e, &mut s, c.frame, c.span, a[0], x);
                                return models::call(e, &s, c);
                            }
                        }
                    }
                    if self.prop == "C19" && p.iter().any(|x| matches!(x, Pj::Field(_, i, _) if *i == self.s.exp)) && p.len() == 3 {
                        self.ob(e, st, c.frame, c.span, "the expiry of an entry is not changed in place", false);
                    }
                    return None;
                }
            }
            let mut s = st.clone();
            self.whole_pass(&mut s);
            return models::call(e, &s, c);
        }
        if (c.name.starts_with("std::collections::HashMap::") || c.name.starts_with("std::collections::hash_map::")) && matches!(c.arg_tys[0].kind(), ty::Ref(_, t, mm) if mm.is_mut() && peel(*t) == peel(c.arg_tys[0])) {
            let t = peel(c.arg_tys[0]);
            let map = matches!(t.kind(), ty::Adt(_, g) if g.types().nth(1).map(|x| parts(peel(x)).iter().any(|y| is_instant(*y))).unwrap_or(false));
            if !map {
                return None;
            }
            match m {
                "insert" => {
                    let (k, x) = (e.snap(st, c.args[1], 0), e.snap(st, c.args[2], 0));
                    let mut s = st.clone();
                    self.stored(e, &mut s, c.frame, c.span, k, x);
                    return models::call(e, &s, c);
                }
                "remove" => {
                    let v = e.deref(st, c.args[0]);
                    let live_before = from_lock(v);
                    let outs = models::call(e, st, c)?;
                    return Some(
                        outs.into_iter()
                            .map(|(mut s, r)| {
                                if let (true, Some((1, f))) = (live_before, r.fields()) {
                                    if !self.expired(&s, f[0]) {
                                        s.set(G_REM, f[0]);
                                    }
                                }
                                (s, r)
                            })
                            .collect(),
                    );
                }
                "retain" | "get_mut" | "iter_mut" | "values_mut" | "reserve" | "shrink_to_fit" | "try_reserve" => return None,
                _ => {
                    if self.prop == "C19" {
                        self.ob(e, st, c.frame, c.span, &format!("the entries of the cache are not dropped wholesale (HashMap::{m})"), false);
                    }
                    return None;
                }
            }
        }
        None
    }
    fn drop_value(&mut self, e: &mut Engine, st: &mut State, v: V, _t: Ty, fr: u32) {
        if self.prop != "C19" {
            return;
        }
        let span = e.frame(fr).bi.body.span;
        match v.n() {
            // dropped in a pass over the entries
            N::Field(p, _, 1) if self.entry(v) && matches!(p.n(), N::App(_, a) if !matches!(a[1].n(), N::App(at, _) if *at == "at")) => {
                let ok = self.expired(st, v);
                self.ob(e, st, fr, span, "an entry is dropped only if it has expired", ok);
            }
            N::App(f, a) if *f == "elem" && from_lock(a[0]) => {
                let x = field(v, STRUCT, 1, Some(peel(self.s.entry)));
                let ok = self.expired(st, x);
                self.ob(e, st, fr, span, "an entry is dropped only if it has expired", ok);
            }
            N::Sym(_) | N::Summ(..) | N::App("it", _) if from_lock(v) && v.ty().map(|t| adt_path(t).as_deref() == Some("std::collections::HashMap")).unwrap_or(false) => {
                self.ob(e, st, fr, span, "the store is not dropped as a whole", false);
            }
            N::Model(k, a) if *k == "iter" && a.len() == 3 && from_lock(a[0]) && _t.is_adt() && adt_path(_t).map(|p| p.ends_with("IntoIter") || p.ends_with("Drain")).unwrap_or(false) => {
                let ok = st.query(ge0(&Lin::of(a[1]).sub(&Lin::of(a[2])))) == Some(true);
                self.ob(e, st, fr, span, "no entry is left behind in a pass over the store", ok);
            }
            _ => {}
        }
    }
    fn wrote(&mut self, e: &mut Engine, st: &mut State, fr: u32, span: Span, _t: Ty, l: Loc, path: &[Pj], v: V) {
        let now = st.get(l);
        if self.rt_frame(e, fr) || !now.has_any_sym(now.syms()) && !v.is_uninit() && path.is_empty() {
            return;
        }
        if let (Some(Pj::Index(i)), Some(Pj::Field(_, 1, _))) = (path.first(), path.get(1)) {
            if let N::App(f, a) = i.n() {
                if *f != "at" {
                    return;
                }
                if path.len() == 2 {
                    let x = e.snap(st, v, 0);
                    self.stored(e, st, fr, span, a[0], x);
                } else if matches!(path[2], Pj::Field(_, i, _) if i == self.s.exp) {
                    if self.prop == "C19" {
                        self.ob(e, st, fr, span, "the expiry of an entry is not changed in place", false);
                    }
                }
            }
        }
    }
}
/// C19, C39 and the part of C20 about the cache itself
pub fn run(r: &mut Report, prop: &'static str) {
    let ss = stores();
    if ss.len() != 1 {
        r.error(format!("expected one struct with a locked map of expiring entries, found {}", ss.len()));
        return;
    }
    let s = ss[0];
    let mut setters = 0;
    let mut readers = 0;
    let mut cleaners = 0;
    for d in methods(s.t) {
        let mut e = Engine::new();
        let mut st = State::default();
        set_tenv(ty::TypingEnv::post_analysis(tcx(), d));
        let inst = identity_instance(d);
        let args = sym_args(inst, &mut st);
        for a in &args {
            e.pinned.extend(a.syms().iter());
        }
        let (ins, _) = super::wire::sig_of(d);
        st.set(G_REM, boolv(false));
        st.set(G_INS, int(0));
        let conf = args.first().copied();
        e.hooks = Some(Box::new(H { prop, s, conf }));
        let spawns = super::frames::reaches_call(d, &["thread::spawn", "thread::Builder::spawn"]);
        let rets = e.root(inst, args.clone(), st);
        r.roots.push(path_of(d));
        let h = H { prop, s, conf };
        let (pk, pv, pt) = {
            let val = parts(s.entry).iter().enumerate().find(|(i, _)| *i as u32 != s.exp).map(|x| *x.1);
            let at = |t: Option<Ty>| t.and_then(|t| ins.iter().position(|x| *x == t && !matches!(x.kind(), ty::Ref(..))));
            (at(Some(s.key)), at(val), ins.iter().position(|x| adt_path(*x).map(|p| p == "std::time::Duration").unwrap_or(false)))
        };
        let setter = pk.is_some() && pv.is_some() && pt.is_some();
        setters += setter as usize;
        for (st, v) in &rets {
            let (mut es, mut bare) = (vec![], false);
            let v = e.snap(st, *v, 0);
            h.entries(v, &mut es, &mut bare);
            readers += (!es.is_empty()) as usize;
            if prop == "C19" {
                for x in &es {
                    let ok = h.live(st, *x);
                    rob(r, prop, d, "an entry is returned only if it has not expired", st, ok);
                }
                if bare {
                    rob(r, prop, d, "only entries leave the cache", st, false);
                }
                let rem = st.get(G_REM);
                let ok = rem.as_bool() == Some(false) || es.contains(&rem) || es.contains(&h.twin(rem)) || h.expired(st, rem);
                rob(r, prop, d, "an entry taken out of the store has expired or is returned", st, ok);
            }
            let n = st.get(G_INS).as_int();
            if setter {
                let (k, x) = (st.get(Loc(0, 64)), st.get(Loc(0, 65)));
                if prop == "C19" {
                    rob(r, prop, d, "setting a value stores exactly one entry", st, n == Some(1));
                }
                if n == Some(1) {
                    let val = parts(s.entry).iter().enumerate().find(|(i, _)| *i as u32 != s.exp).map(|x| (x.0 as u32, *x.1)).unwrap();
                    let xv = field(x, STRUCT, val.0, Some(peel(val.1)));
                    let (ak, av, at) = (args[pk.unwrap()], args[pv.unwrap()], args[pt.unwrap()]);
                    let mut base = h.expiry(x).sub(&Lin::of(at));
                    let now = st.get(NOW);
                    if prop == "C19" {
                        rob(r, prop, d, "the entry is stored under the given key", st, same(&mut e, st, k, ak));
                        rob(r, prop, d, "the entry holds the given value", st, same(&mut e, st, xv, av));
                        // the time to live is added to a reading of the clock made in this call
                        let v = base.v();
                        let v = match v.n() {
                            N::App(f, a) if *f == "it" => a[0],
                            _ => v,
                        };
                        let clock = matches!(v.n(), N::Sym(s) if s.starts_with("now"));
                        rob(r, prop, d, "the entry expires when its time to live has passed, counted from now", st, clock);
                    }
                    if prop == "C20" {
                        base = Lin::of(now).sub(&base);
                        let ok = !now.is_uninit() && st.query(ge0(&base)) == Some(true);
                        rob(r, prop, d, "an entry expires no later than its time to live from now", st, ok);
                    }
                }
            } else if prop == "C19" {
                rob(r, prop, d, "entries are stored only by the function that is given key, time to live and value", st, n == Some(0));
            }
        }
        if prop == "C39" && spawns {
            cleaners += 1;
        }
        let keep_panics = prop == "C39" && spawns;
        e.findings.retain(|_, f| f.kind == prop || keep_panics);
        e.obligations.retain(|k, _| !is_panic_ob(k) || keep_panics);
        r.take(&mut e);
    }
    if setters == 0 && prop != "C39" {
        r.error("no function stores an entry");
    }
    if readers == 0 && prop == "C19" {
        r.error("no function returns an entry");
    }
    if cleaners == 0 && prop == "C39" {
        r.error("no function starts a cleaning thread");
    }
}
use super::wire::rob;

/// does the type hold a store of expiring entries ?
fn holds_store(t: Ty, d: u32) -> bool {
    let t = peel(t);
    let ty::Adt(a, g) = t.kind() else { return false };
    if d == 0 {
        return false;
    }
    if local_crate(a.did()) && a.is_struct() {
        for f in a.non_enum_variant().fields.iter() {
            let ft = norm(f.ty(tcx(), g).skip_norm_wip());
            if let Some(m) = map_in(ft, 3) {
                if let ty::Adt(_, g) = m.kind() {
                    if parts(g.type_at(1)).iter().any(|x| is_instant(*x)) {
                        return true;
                    }
                }
            }
        }
    }
    g.types().any(|x| holds_store(norm(x), d - 1))
}
struct Bin {
    has: bool,
    starts: usize,
}
const G_HAS: Loc = Loc(0, 66);
const G_RUN: Loc = Loc(0, 67);
impl Hooks for Bin {
    fn call(&mut self, e: &mut Engine, st: &State, c: &Call) -> Option<Vec<(State, V)>> {
        let d = c.inst.map(|i| i.def_id()).or(c.def)?;
        if !local_crate(d) {
            return None;
        }
        if super::frames::reaches_call(d, &["TcpListener::bind", "UdpSocket::bind"]) && super::frames::reaches_call(d, &["thread::spawn"]) {
            self.starts += 1;
            if st.get(G_HAS).as_bool() == Some(true) {
                let ok = st.get(G_RUN).as_bool() == Some(true);
                e.oblig(c.frame, c.span, "the cache's cleaning thread is started before the servers", ok);
                if !ok {
                    e.fail(st, c.frame, c.span, "C39", "the cache's cleaning thread is started before the servers");
                }
            }
            return Some(vec![(st.clone(), models::unit())]);
        }
        let store = c.arg_tys.iter().any(|t| holds_store(*t, 5)) || holds_store(c.ret_ty, 5);
        if store {
            self.has = true;
            let mut s = st.clone();
            s.set(G_HAS, boolv(true));
            if super::frames::reaches_call(d, &["thread::sleep"]) {
                s.set(G_RUN, boolv(true));
            }
            let v = e.fresh(&s, c.frame, c.bb, "made", Some(peel(c.ret_ty)));
            return Some(vec![(s, v)]);
        }
        if !d.is_local() && !c.ret_ty.is_never() && !super::frames::reaches_call(d, &["process::exit", "TcpListener::bind"]) {
            // nothing of concern here
            let v = e.fresh(st, c.frame, c.bb, "result", Some(peel(c.ret_ty)));
            return Some(vec![(st.clone(), v)]);
        }
        None
    }
}
pub fn run_bin(r: &mut Report) {
    let Some((d, _)) = tcx().entry_fn(()) else { return };
    let mut e = Engine::new();
    let mut st = State::default();
    st.set(G_HAS, boolv(false));
    st.set(G_RUN, boolv(false));
    let inst = identity_instance(d);
    e.hooks = Some(Box::new(Bin { has: false, starts: 0 }));
    e.root(inst, vec![], st);
    r.roots.push(format!("{} ({})", path_of(d), crate_name()));
    if crate_name().contains("resolver") && !e.obligations.keys().any(|k| k.starts_with("the cache's cleaning thread")) {
        r.error("the resolver program does not start servers after making a cache");
    }
    e.findings.retain(|_, f| f.kind == "C39");
    e.obligations.retain(|k, _| !is_panic_ob(k));
    r.take(&mut e);
}
