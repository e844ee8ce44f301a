//! The wire format: decoding and encoding of messages over the bit buffer.
//! The methods of the buffer are taken by their contract (`C34` decides that their bodies keep
//! it); functions that decode a name, question, record or header from the buffer are analysed one
//! by one, each taking the others by contract.
use super::base::*;
use super::*;
use crate::models;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

pub const G_LOG: Loc = Loc(0, 20);
pub const G_END: Loc = Loc(0, 21);

#[derive(Clone, Copy)]
pub struct Roles {
    pub t: Ty,
    pub data: u32,
    pub last: u32,
    pub w: u32,
    pub r: u32,
    pub n: u32,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Name,
    Entry,
    Header,
}
pub fn sig_of(d: DefId) -> (Vec<Ty>, Ty) {
    let s = tcx().instantiate_bound_regions_with_erased(tcx().fn_sig(d).instantiate_identity().skip_norm_wip());
    (s.inputs().iter().map(|t| norm(*t)).collect(), norm(s.output()))
}
/// the methods of a type (inherent ones)
pub fn methods_of(t: Ty) -> Vec<(String, DefId)> {
    local_fns()
        .into_iter()
        .filter(|(_, d)| match tcx().impl_of_assoc(*d) {
            Some(i) => tcx().impl_opt_trait_ref(i).is_none() && norm(tcx().type_of(i).instantiate_identity().skip_norm_wip()) == t,
            None => false,
        })
        .map(|(p, d)| (p.rsplit("::").next().unwrap_or("").to_string(), d))
        .collect()
}
/// which field of the buffer is which, found from what its accessors return
pub fn roles() -> Option<Roles> {
    let t = find_adt("buffer::BitsBuf")?;
    let ms = methods_of(t);
    let get = |n: &str| -> Option<u32> {
        let d = ms.iter().find(|m| m.0 == n)?.1;
        let mut e = Engine::new();
        e.hooks = Some(Box::new(NoHooks));
        let mut st = State::default();
        let i = concrete_instance(d);
        let a = sym_args(i, &mut st);
        let me = a[0];
        let o = e.root(i, a, st);
        if o.len() != 1 {
            return None;
        }
        match o[0].1.n() {
            N::Field(x, _, i) if *x == me => Some(*i),
            _ => None,
        }
    };
    let n = t.ty_adt_def()?.non_enum_variant().fields.len() as u32;
    Some(Roles { t, data: get("into_vec")?, last: get("bits_len")?, w: get("write_pos")?, r: get("read_pos")?, n })
}
/// the local functions that decode a value from the buffer, by signature
pub fn decoders(buf: Ty) -> HashMap<DefId, Kind> {
    let mut m = HashMap::new();
    let (nm, q, rc, h) = (find_adt("dns::name::Name"), find_adt("questions::Question"), find_adt("records::Record"), find_adt("header::Header"));
    for (_, d) in local_fns() {
        let (i, o) = sig_of(d);
        if i.len() != 1 || !is_mut_ref(i[0], buf) {
            continue;
        }
        let ty::Adt(_, g) = o.kind() else { continue };
        if adt_path(o).as_deref() != Some("std::result::Result") {
            continue;
        }
        let ot = Some(norm(g.type_at(0)));
        if ot == nm {
            m.insert(d, Kind::Name);
        } else if ot == q || ot == rc {
            m.insert(d, Kind::Entry);
        } else if ot == h {
            m.insert(d, Kind::Header);
        }
    }
    m
}
pub fn is_mut_ref(t: Ty, to: Ty) -> bool {
    matches!(t.kind(), ty::Ref(_, x, m) if m.is_mut() && norm(*x) == to)
}
/// local functions taking the whole input as bytes
pub fn byte_decoders() -> Vec<DefId> {
    let ts: Vec<Ty> = ["message::Message", "questions::Question", "records::Record", "header::Header"].iter().filter_map(|n| find_adt(n)).collect();
    let mut v = vec![];
    for (_, d) in local_fns() {
        let (i, o) = sig_of(d);
        if i.len() != 1 || !matches!(i[0].kind(), ty::Ref(_, x, _) if matches!(x.kind(), ty::Slice(u) if *u == tcx().types.u8)) {
            continue;
        }
        if let ty::Adt(_, g) = o.kind() {
            if adt_path(o).as_deref() == Some("std::result::Result") && g.types().next().map(|t| ts.contains(&norm(t))).unwrap_or(false) {
                v.push(d);
            }
        }
    }
    v
}
pub fn usz() -> Ty {
    tcx().types.usize
}
pub fn bits(data: V, pos: V, n: i128) -> V {
    let t = if n <= 8 {
        tcx().types.u8
    } else if n <= 16 {
        tcx().types.u16
    } else {
        tcx().types.u32
    };
    app("bits", vec![data, pos, int(n)], Some(t))
}

pub struct B {
    pub roles: Roles,
    pub contracts: HashMap<DefId, Kind>,
    /// the function under analysis: not taken by contract
    pub root: Option<DefId>,
    pub log: bool,
    /// writes change the bytes (the analysis of the buffer's own methods)
    pub track: bool,
    /// calls made to functions taken by contract
    pub edges: Rc<RefCell<HashSet<(DefId, DefId)>>>,
}
fn full_value(st: &State, v: V, r: &Roles) -> Vec<V> {
    let _ = st;
    (0..r.n).map(|i| field(v, STRUCT, i, field_ty(r.t, STRUCT, i).map(peel))).collect()
}
impl B {
    pub fn fields(&self, st: &State, v: V) -> Vec<V> {
        full_value(st, v, &self.roles)
    }
    pub fn new(roles: Roles) -> B {
        B { roles, contracts: HashMap::new(), root: None, log: false, track: false, edges: Default::default() }
    }
    /// what is known about every buffer
    pub fn invariant(&self, st: &mut State, v: V) -> bool {
        let f = full_value(st, v, &self.roles);
        let (d, l, w, r) = (f[self.roles.data as usize], Lin::of(f[self.roles.last as usize]), Lin::of(f[self.roles.w as usize]), Lin::of(f[self.roles.r as usize]));
        let len8 = Lin::of(models::coll_len(d)).scale(8);
        st.assume(ge0(&l.sub(&r)), true) && st.assume(ge0(&l.sub(&w)), true) && st.assume(ge0(&len8.sub(&l)), true) && st.assume(ge0(&l.sub(&len8).plus(7)), true) && st.assume(ge0(&r), true) && st.assume(ge0(&w), true)
    }
    fn put(&self, e: &mut Engine, st: &State, p: V, f: Vec<V>) -> State {
        let mut s = st.clone();
        if let N::Ptr(l, path) = p.n() {
            e.store(&mut s, *l, path, adt(0, f, Some(self.roles.t)));
        }
        s
    }
    fn ob(&self, e: &mut Engine, st: &State, c: &Call, what: &str, cond: V) {
        let ok = st.query(cond) == Some(true);
        e.oblig(c.frame, c.span, what, ok);
        if !ok {
            e.fail(st, c.frame, c.span, what, &format!("not shown: {}", show(cond)));
        }
    }
    fn read(&self, e: &mut Engine, st: &State, c: &Call, n: Lin, mk: impl Fn(V, V) -> (V, Option<i128>)) -> Vec<(State, V)> {
        let b = e.deref(st, c.args[0]);
        let mut f = full_value(st, b, &self.roles);
        let (data, r, last) = (f[self.roles.data as usize], Lin::of(f[self.roles.r as usize]), Lin::of(f[self.roles.last as usize]));
        let rt = peel(c.ret_ty);
        let (x, y) = models::split(st, ge0(&last.sub(&r.add(&n, 1))));
        let mut out = vec![];
        if let Some(s) = x {
            let (v, max) = mk(data, r.v());
            f[self.roles.r as usize] = r.add(&n, 1).v();
            let mut s = self.put(e, &s, c.args[0], f.clone());
            if let Some(m) = max {
                s.assume(ge0(&Lin::of(v).scale(-1).plus(m)), true);
            }
            out.push((s, models::option(rt, Some(v))));
        }
        if let Some(s) = y {
            out.push((s, models::option(rt, None)));
        }
        out
    }
    pub fn write(&self, e: &mut Engine, st: &State, c: &Call, n: Lin, v: V) -> Vec<(State, V)> {
        let b = e.deref(st, c.args[0]);
        let f = full_value(st, b, &self.roles);
        let (w, last) = (Lin::of(f[self.roles.w as usize]), Lin::of(f[self.roles.last as usize]));
        let nw = w.add(&n, 1);
        let (x, y) = models::split(st, ge0(&nw.sub(&last)));
        let mut out = vec![];
        for (s, grow) in [(x, true), (y, false)] {
            let Some(s) = s else { continue };
            let mut f = f.clone();
            f[self.roles.w as usize] = nw.v();
            if grow {
                f[self.roles.last as usize] = nw.v();
            }
            let mut s = s;
            if self.track {
                let dt = field_ty(self.roles.t, STRUCT, self.roles.data).map(peel);
                f[self.roles.data as usize] = e.fresh(&s, c.frame, c.bb, "written", dt);
                let x = adt(0, f.clone(), Some(self.roles.t));
                self.invariant(&mut s, x);
            }
            let mut s = self.put(e, &s, c.args[0], f);
            if self.log {
                let mut l = match s.get(G_LOG).n() {
                    N::Model(_, l) => l.to_vec(),
                    _ => vec![],
                };
                l.push(app("w", vec![w.v(), n.v(), v], None));
                s.set(G_LOG, model("log", l));
            }
            out.push((s, models::unit()));
        }
        out
    }
    /// the contract of the method `m` of the buffer
    pub fn method(&mut self, e: &mut Engine, st: &State, c: &Call, m: &str) -> Option<Vec<(State, V)>> {
        let ro = self.roles;
        Some(match m {
            "read_bits" => {
                let n = c.args[1];
                self.ob(e, st, c, "panic (bits asked for at once are at most 8)", ge0(&Lin::of(n).scale(-1).plus(8)));
                let k = n.as_int();
                if k == Some(0) {
                    return Some(vec![(st.clone(), models::option(peel(c.ret_ty), Some(int(0))))]);
                }
                self.read(e, st, c, Lin::of(n), |d, r| match k {
                    Some(k) if (1..=8).contains(&k) => (bits(d, r, k), Some((1 << k) - 1)),
                    _ => (app("bits", vec![d, r, n], Some(tcx().types.u8)), None),
                })
            }
            "read_u8" => self.read(e, st, c, Lin::k(8), |d, r| (bits(d, r, 8), Some(255))),
            "read_u16" => self.read(e, st, c, Lin::k(16), |d, r| (bits(d, r, 16), Some(65535))),
            "read_u32" => self.read(e, st, c, Lin::k(32), |d, r| (bits(d, r, 32), Some(u32::MAX as i128))),
            "read_bytes" => {
                let n = match peel(c.ret_ty).kind() {
                    ty::Adt(_, g) => match g.type_at(0).kind() {
                        ty::Array(_, n) => n.try_to_target_usize(tcx()).map(|x| x as i128),
                        _ => None,
                    },
                    _ => None,
                }?;
                if n > 64 {
                    return None;
                }
                self.read(e, st, c, Lin::k(8 * n), |d, r| (seq((0..n).map(|i| bits(d, Lin::of(r).plus(8 * i).v(), 8)).collect()), None))
            }
            "read_bytes_vec" => {
                let n = c.args[1];
                let et = c.ret_ty;
                let et = match peel(et).kind() {
                    ty::Adt(_, g) => Some(peel(norm(g.type_at(0)))),
                    _ => None,
                };
                self.read(e, st, c, Lin::of(n).scale(8), |d, r| (app("bytes_at", vec![d, r, n], et), None))
            }
            "set_read_pos" | "set_write_pos" => {
                let b = e.deref(st, c.args[0]);
                let mut f = full_value(st, b, &ro);
                let p = Lin::of(c.args[1]);
                self.ob(e, st, c, "panic (a position set lies in the buffer)", ge0(&Lin::of(f[ro.last as usize]).sub(&p)));
                f[if m == "set_read_pos" { ro.r } else { ro.w } as usize] = p.v();
                let mut s = self.put(e, st, c.args[0], f.clone());
                if !s.assume(ge0(&Lin::of(f[ro.last as usize]).sub(&p)), true) {
                    return Some(vec![]);
                }
                vec![(s, models::unit())]
            }
            "write_bits" => {
                let n = c.args[2];
                self.ob(e, st, c, "panic (bits written at once are 1 to 8)", ge0(&Lin::of(n).scale(-1).plus(8)));
                self.ob(e, st, c, "panic (bits written at once are 1 to 8)", ge0(&Lin::of(n).plus(-1)));
                self.write(e, st, c, Lin::of(n), c.args[1])
            }
            "write_u8" => self.write(e, st, c, Lin::k(8), c.args[1]),
            "write_u16" => self.write(e, st, c, Lin::k(16), c.args[1]),
            "write_u32" => self.write(e, st, c, Lin::k(32), c.args[1]),
            "write_bytes" => {
                let v = e.snap(st, c.args[1], 0);
                self.write(e, st, c, Lin::of(models::coll_len(v)).scale(8), v)
            }
            "truncate" => {
                let b = e.deref(st, c.args[0]);
                let f = full_value(st, b, &ro);
                let p = Lin::of(c.args[1]);
                let (x, y) = models::split(st, ge0(&p.sub(&Lin::of(f[ro.last as usize]))));
                let mut out = vec![];
                if let Some(s) = x {
                    out.push((s, models::unit()));
                }
                if let Some(s) = y {
                    let mut todo = vec![(s, f)];
                    for i in [ro.r, ro.w] {
                        let mut nx = vec![];
                        for (s, f) in todo {
                            let (x, y) = models::split(&s, ge0(&p.sub(&Lin::of(f[i as usize]))));
                            if let Some(s) = x {
                                nx.push((s, f.clone()));
                            }
                            if let Some(s) = y {
                                let mut f = f.clone();
                                f[i as usize] = p.v();
                                nx.push((s, f));
                            }
                        }
                        todo = nx;
                    }
                    for (s, mut f) in todo {
                        f[ro.last as usize] = p.v();
                        out.push((self.put(e, &s, c.args[0], f), models::unit()));
                    }
                }
                out
            }
            "new" => {
                let mut f = vec![uninit(); ro.n as usize];
                f[ro.data as usize] = seq(vec![]);
                for i in [ro.last, ro.w, ro.r] {
                    f[i as usize] = int(0);
                }
                vec![(st.clone(), adt(0, f, Some(ro.t)))]
            }
            "from_raw_bytes" => {
                let d = e.snap(st, c.args[0], 0);
                let mut f = vec![uninit(); ro.n as usize];
                f[ro.data as usize] = d;
                let l = Lin::of(models::coll_len(d)).scale(8).v();
                f[ro.last as usize] = l;
                f[ro.w as usize] = l;
                f[ro.r as usize] = int(0);
                vec![(st.clone(), adt(0, f, Some(ro.t)))]
            }
            "into_vec" => {
                let b = e.snap(st, c.args[0], 0);
                let f = full_value(st, b, &ro);
                let last = f[ro.last as usize];
                let v = e.fresh(st, c.frame, c.bb, "encoded", Some(peel(c.ret_ty)));
                let mut s = st.clone();
                let l8 = Lin::of(models::coll_len(v)).scale(8);
                s.assume(ge0(&l8.sub(&Lin::of(last))), true);
                s.assume(ge0(&Lin::of(last).sub(&l8).plus(7)), true);
                s.set(G_END, last);
                vec![(s, v)]
            }
            _ => return None,
        })
    }
    /// a function that decodes a value from the buffer
    fn decoder(&mut self, e: &mut Engine, st: &State, c: &Call, k: Kind) -> Option<Vec<(State, V)>> {
        let ro = self.roles;
        let b = e.deref(st, c.args[0]);
        let f = full_value(st, b, &ro);
        let (data, r, last) = (f[ro.data as usize], f[ro.r as usize], f[ro.last as usize]);
        let rt = peel(c.ret_ty);
        let ty::Adt(_, g) = rt.kind() else { return None };
        let (okt, ert) = (peel(norm(g.type_at(0))), peel(norm(g.type_at(1))));
        let mut out = vec![];
        // success
        let mut s = st.clone();
        let (v, nr) = match k {
            Kind::Name => {
                let m = app("name_len", vec![data, r], Some(usz()));
                s.assume(ge0(&Lin::of(m).plus(-1)), true);
                (app("name_at", vec![data, r], Some(okt)), Lin::of(r).add(&Lin::of(m).scale(8), 1))
            }
            Kind::Entry => (e.fresh(st, c.frame, c.bb, "decoded", Some(okt)), Lin::of(e.fresh(st, c.frame, c.bb, "rpos", Some(usz())))),
            Kind::Header => (e.fresh(st, c.frame, c.bb, "header", Some(okt)), Lin::of(r).plus(96)),
        };
        let ok = s.assume(ge0(&Lin::of(last).sub(&nr)), true) && s.assume(ge0(&nr.sub(&Lin::of(r))), true);
        if ok {
            let mut g = f.clone();
            g[ro.r as usize] = nr.v();
            out.push((self.put(e, &s, c.args[0], g), models::ok(rt, v)));
        }
        let mut s = st.clone();
        let x = e.fresh(st, c.frame, c.bb, "decode_err", Some(ert));
        let p = e.fresh(st, c.frame, c.bb, "epos", Some(usz()));
        s.assume(ge0(&Lin::of(last).sub(&Lin::of(p))), true);
        let mut g = f.clone();
        g[ro.r as usize] = p;
        out.push((self.put(e, &s, c.args[0], g), models::err(rt, x)));
        Some(out)
    }
    pub fn handle(&mut self, e: &mut Engine, st: &State, c: &Call) -> Option<Vec<(State, V)>> {
        let i = c.inst?;
        let d = i.def_id();
        if !local_crate(d) {
            return None;
        }
        if let Some(k) = self.contracts.get(&d).copied() {
            if let Some(r) = self.root {
                self.edges.borrow_mut().insert((r, d));
            }
            if Some(d) != self.root || e.stack.len() > 1 {
                return self.decoder(e, st, c, k);
            }
        }
        if let Some(imp) = tcx().impl_of_assoc(d) {
            if tcx().impl_opt_trait_ref(imp).is_none() && norm(tcx().type_of(imp).instantiate_identity().skip_norm_wip()) == self.roles.t {
                if Some(d) == self.root {
                    return None;
                }
                let m = path_of(d);
                let m = m.rsplit("::").next().unwrap_or("").to_string();
                return self.method(e, st, c, &m);
            }
        }
        None
    }
}
/// the argument that is the buffer gets explicit fields and the invariant
pub fn init_buf(b: &B, e: &mut Engine, st: &mut State, args: &[V], empty: bool) -> Option<V> {
    for a in args {
        if let N::Ptr(l, p) = a.n() {
            let v = e.deref(st, *a);
            if v.ty() == Some(b.roles.t) {
                let f = full_value(st, v, &b.roles);
                let mut f2 = f.clone();
                if empty {
                    f2[b.roles.last as usize] = f[b.roles.w as usize];
                }
                let x = adt(0, f2, Some(b.roles.t));
                let (l, p) = (*l, p.clone());
                b.invariant(st, x);
                e.store(st, l, &p, x);
                return Some(*a);
            }
        }
    }
    None
}
pub fn run(r: &mut Report, prop: &'static str) {
    if crate_name() != "ariadne_dns" {
        return;
    }
    let Some(ro) = roles() else {
        r.error("the buffer's accessors were not recognised");
        return;
    };
    match prop {
        "C01" | "C02" => {
            decode_safety(r, ro, prop);
            // what the analysis above takes for granted about the buffer
            let what = ["a read leaves", "a read advances", "a read happens only", "a refused read", "a read of bytes", "setting a position", "a buffer over bytes"];
            buffer_lemmas(r, ro, prop, &["read_", "set_read_pos", "from_raw_bytes"], &what, prop == "C01");
        }
        "C34" => buffer_bodies(r, ro),
        _ => r.error("unknown property"),
    }
}
/// those facts about the buffer's methods that another property rests on
pub fn buffer_lemmas(r: &mut Report, ro: Roles, prop: &'static str, methods: &[&str], what: &[&str], panics: bool) {
    let mut l = Report::default();
    buffer_bodies(&mut l, ro);
    let m = |f: &str| {
        let n = f.rsplit("::").next().unwrap_or("");
        methods.iter().any(|m| n.starts_with(m))
    };
    for mut f in l.findings {
        if m(&f.func) && (panics && is_panic_ob(&f.kind) || what.iter().any(|w| f.detail.starts_with(w))) {
            if !is_panic_ob(&f.kind) {
                f.kind = prop.into();
            }
            r.findings.push(f);
        }
    }
    for (k, v) in l.obligations {
        let f = k.rsplit('[').next().unwrap_or("").trim_end_matches(']').to_string();
        if m(&f) && (panics && is_panic_ob(&k) || what.iter().any(|w| k.starts_with(w))) {
            r.obligations.insert(k, v);
        }
    }
    r.errors.extend(l.errors);
    r.fns.extend(l.fns);
    r.roots.extend(l.roots);
    r.steps += l.steps;
}
pub struct Dec {
    pub b: B,
    pub prop: &'static str,
}
impl Hooks for Dec {
    fn call(&mut self, e: &mut Engine, st: &State, c: &Call) -> Option<Vec<(State, V)>> {
        if self.prop == "C02" {
            if let Some(i) = c.inst {
                let d = i.def_id();
                let onstack = e.stack.iter().any(|f| e.frame(*f).inst.def_id() == d);
                if local_crate(d) && onstack && e.stack.len() > 0 {
                    e.oblig(c.frame, c.span, "decoding functions do not recurse", false);
                    e.fail(st, c.frame, c.span, "C02", "a decoding function calls itself: its depth is not bounded by the input");
                }
            }
        }
        self.b.handle(e, st, c).or_else(|| base_call(e, st, c))
    }
    fn loop_done(&mut self, e: &mut Engine, l: &LoopInfo) {
        if self.prop == "C02" {
            rank_loop(e, l, "C02");
        }
    }
}
fn decode_safety(r: &mut Report, ro: Roles, prop: &'static str) {
    let contracts = decoders(ro.t);
    let mut roots: Vec<DefId> = contracts.keys().copied().collect();
    roots.extend(byte_decoders());
    roots.sort_by_key(|d| path_of(*d));
    for k in [Kind::Name, Kind::Entry, Kind::Header] {
        if !contracts.values().any(|x| *x == k) {
            r.error(format!("no decoder of kind {k:?} found"));
        }
    }
    let edges: Rc<RefCell<HashSet<(DefId, DefId)>>> = Default::default();
    for d in &roots {
        let mut b = B::new(ro);
        b.contracts = contracts.clone();
        b.root = Some(*d);
        b.edges = edges.clone();
        let mut e = Engine::new();
        e.split_zero = true;
        let mut st = State::default();
        let inst = concrete_instance(*d);
        let args = sym_args(inst, &mut st);
        let me = init_buf(&b, &mut e, &mut st, &args, false);
        let before = me.map(|p| full_value(&st, e.deref(&st, p), &ro));
        if let (Some(f), Some(_)) = (&before, contracts.get(d)) {
            e.pinned.extend(f.iter().flat_map(|x| x.syms().to_vec()));
        }
        e.hooks = Some(Box::new(Dec { b, prop }));
        let t0 = std::time::Instant::now();
        let rets = e.root(inst, args, st);
        if std::env::var("SA_TIME").is_ok() {
            eprintln!("{} {:?} steps {} rets {}", path_of(*d), t0.elapsed(), e.steps, rets.len());
        }
        r.roots.push(path_of(*d));
        if rets.is_empty() {
            r.error(format!("no path through {}", path_of(*d)));
        }
        r.take(&mut e);
        // what callers rely on
        if let (Some(k), Some(p), Some(f0)) = (contracts.get(d), me, &before) {
            for (s, v) in &rets {
                let f = full_value(s, e.deref(s, p), &ro);
                let q = |a: &Lin| s.query(ge0(a)) == Some(true);
                let (r0, r1, last) = (Lin::of(f0[ro.r as usize]), Lin::of(f[ro.r as usize]), Lin::of(f0[ro.last as usize]));
                let same = [ro.data, ro.last, ro.w].iter().all(|i| f[*i as usize] == f0[*i as usize]);
                rob(r, prop, *d, "decoding leaves the bytes alone and the position inside them", s, same && q(&last.sub(&r1)) && q(&r1));
                if let Some((0, _)) = v.fields() {
                    let ok = match k {
                        Kind::Name => q(&r1.sub(&r0).plus(-8)),
                        Kind::Entry => q(&r1.sub(&r0)),
                        Kind::Header => s.query(eq0(&r1.sub(&r0).plus(-96))) == Some(true),
                    };
                    rob(r, prop, *d, "decoding moves the position forward past what was decoded", s, ok);
                }
            }
        }
    }
    if prop == "C02" {
        // a cycle through functions taken by contract
        let edges = edges.borrow();
        for d in &roots {
            let mut seen = HashSet::new();
            let mut work = vec![*d];
            let mut cyc = false;
            while let Some(x) = work.pop() {
                for (a, b) in edges.iter() {
                    if *a == x && seen.insert(*b) {
                        work.push(*b);
                        cyc |= b == d;
                    }
                }
            }
            let x = r.obligations.entry(format!("decoding functions do not recurse [{}]", path_of(*d))).or_insert((0, true));
            x.0 += 1;
            x.1 &= !cyc;
            if cyc {
                r.findings.push(Finding { func: path_of(*d), kind: "C02".into(), detail: "a decoding function calls itself: its depth is not bounded by the input".into(), line: Engine::new().span_str(tcx().def_span(*d)), trace: vec![], facts: String::new() });
            }
        }
    }
    if prop == "C01" {
        r.findings.retain(|f| f.kind == prop || is_panic_ob(&f.kind));
    } else {
        r.findings.retain(|f| f.kind == prop);
        r.obligations.retain(|k, _| !is_panic_ob(k));
    }
}
/// integer leaves of the local state at a loop head
fn leaves(v: V, path: &mut Vec<u32>, out: &mut Vec<Vec<u32>>, d: u32) {
    if d > 5 {
        return;
    }
    match v.n() {
        N::Adt(_, f) => {
            for (i, x) in f.iter().enumerate() {
                path.push(i as u32);
                leaves(*x, path, out, d + 1);
                path.pop();
            }
        }
        N::Model(_, f) => {
            for (i, x) in f.iter().enumerate() {
                path.push(i as u32);
                leaves(*x, path, out, d + 1);
                path.pop();
            }
        }
        N::Seq(_) | N::Summ(..) => {
            path.push(u32::MAX);
            out.push(path.clone());
            path.pop();
        }
        N::Lin(..) => out.push(path.clone()),
        _ => {
            if let Some(t) = v.ty() {
                if is_int(t) {
                    out.push(path.clone());
                } else if is_coll_ty(t) || t.is_str() {
                    path.push(u32::MAX);
                    out.push(path.clone());
                    path.pop();
                }
            }
        }
    }
}
fn leaf(v: V, p: &[u32]) -> Option<Lin> {
    match p.first() {
        None => match v.n() {
            N::Lin(..) => Some(Lin::of(v)),
            _ if v.ty().map(is_int).unwrap_or(false) => Some(Lin::of(v)),
            _ => None,
        },
        Some(&u32::MAX) => Some(Lin::of(models::coll_len(v))),
        Some(i) => match v.n() {
            N::Adt(_, f) => f.get(*i as usize).and_then(|x| leaf(*x, &p[1..])),
            N::Model(_, f) => f.get(*i as usize).and_then(|x| leaf(*x, &p[1..])),
            _ => None,
        },
    }
}
/// a bound on the number of iterations: local quantities that never decrease and never exceed a
/// constant or an unchanging quantity, at least one of which grows on every way round the loop
pub fn rank_loop(e: &mut Engine, l: &LoopInfo, prop: &str) {
    let what = "every loop makes progress towards a bound";
    if l.arrivals.is_empty() {
        return;
    }
    let mut cand: BTreeSet<(Loc, Vec<u32>)> = BTreeSet::new();
    for (_, s, _) in l.heads {
        for (loc, v) in &s.store {
            if loc.0 != 0 && !(loc.0 == l.frame && loc.1 >= CTR) {
                let mut o = vec![];
                leaves(*v, &mut vec![], &mut o, 0);
                for p in o {
                    cand.insert((*loc, p));
                }
            }
        }
    }
    // a leaf that is the address of a local is the same cell
    let get = |s: &State, c: &(Loc, Vec<u32>)| s.store.get(&c.0).and_then(|v| leaf(*v, &c.1));
    struct C {
        key: (Loc, Vec<u32>),
        up: bool,
        fixed: bool,
    }
    let mut cs: Vec<C> = vec![];
    for k in cand {
        let (mut up, mut down, mut fixed) = (true, true, true);
        for (i, s, _) in l.arrivals {
            let (Some(a), Some(b)) = (get(&l.heads[*i].1, &k), get(s, &k)) else {
                up = false;
                down = false;
                fixed = false;
                break;
            };
            let d = b.sub(&a);
            fixed &= d.is_const() && d.c == 0 || s.query(eq0(&d)) == Some(true);
            up = up && s.query(ge0(&d)) == Some(true);
            down = down && s.query(ge0(&d.scale(-1))) == Some(true);
            if !up && !down {
                break;
            }
        }
        if fixed {
            cs.push(C { key: k, up: true, fixed: true });
        } else if up {
            cs.push(C { key: k, up: true, fixed: false });
        } else if down {
            cs.push(C { key: k, up: false, fixed: false });
        }
    }
    let bounded = |c: &C| -> bool {
        if !c.up {
            return l.heads.iter().all(|(_, s, _)| get(s, &c.key).map(|v| s.query(ge0(&v.plus(1 << 20))) == Some(true)).unwrap_or(false));
        }
        let konst = l.heads.iter().all(|(_, s, _)| get(s, &c.key).map(|v| s.query(ge0(&v.scale(-1).plus(1 << 20))) == Some(true)).unwrap_or(false));
        // what was passed does not change
        let given = l.heads.iter().all(|(_, s, _)| {
            let Some(v) = get(s, &c.key) else { return false };
            let Some((x, k)) = v.t.first().cloned() else { return false };
            k == 1 && s.facts.ge.iter().any(|f| {
                let f = Lin::of(*f);
                let g = f.add(&v, -f.coef(x));
                f.coef(x) == -1 && g.t.iter().all(|(y, _)| y.syms().iter().all(|q| e.pinned.contains(q)))
            })
        });
        konst || given || cs.iter().filter(|u| u.fixed).any(|u| l.heads.iter().all(|(_, s, _)| match (get(s, &c.key), get(s, &u.key)) {
            (Some(v), Some(u)) => s.query(ge0(&u.sub(&v))) == Some(true),
            _ => false,
        }))
    };
    let good: Vec<&C> = cs.iter().filter(|c| !c.fixed && bounded(c)).collect();
    for (i, s, _) in l.arrivals {
        let mut ok = false;
        let mut sum = Lin::k(-1);
        for c in &good {
            let (Some(a), Some(b)) = (get(&l.heads[*i].1, &c.key), get(s, &c.key)) else { continue };
            let d = if c.up { b.sub(&a) } else { a.sub(&b) };
            if s.query(ge0(&d.plus(-1))) == Some(true) {
                ok = true;
                break;
            }
            sum = sum.add(&d, 1);
        }
        ok = ok || s.query(ge0(&sum)) == Some(true);
        e.oblig(l.frame, l.span, what, ok);
        if !ok {
            if std::env::var("SA_DBG").is_ok() {
                eprintln!("rank: {} good {:?}", e.span_str(l.span), good.iter().map(|c| (&c.key, c.up)).collect::<Vec<_>>());
                for (k, hs, _) in l.heads {
                    eprintln!(" head {k} {}", hs.facts.show());
                    for (x, v) in &hs.store {
                        eprintln!("    {:?} = {:?}", x, v);
                    }
                }
                eprintln!(" arrival from {i}");
                for (x, v) in &s.store {
                    eprintln!("    {:?} = {:?}", x, v);
                }
            }
            e.fail(s, l.frame, l.span, prop, "a way round this loop makes no progress towards a bound");
        }
    }
}

// ---- C34: the methods of the buffer keep their contract ------------------------------------
struct Body {
    b: B,
}
impl Hooks for Body {
    fn call(&mut self, e: &mut Engine, st: &State, c: &Call) -> Option<Vec<(State, V)>> {
        self.b.handle(e, st, c)
    }
}
pub fn rob(r: &mut Report, prop: &str, d: DefId, text: &str, st: &State, ok: bool) {
    let x = r.obligations.entry(format!("{text} [{}]", path_of(d))).or_insert((0, true));
    x.0 += 1;
    x.1 &= ok;
    if !ok && !r.findings.iter().any(|f| f.func == path_of(d) && f.detail == text) {
        r.findings.push(Finding { func: path_of(d), kind: prop.into(), detail: text.into(), line: Engine::new().span_str(tcx().def_span(d)), trace: vec![], facts: st.facts.show() });
    }
}
fn buffer_bodies(r: &mut Report, ro: Roles) {
    let ms = methods_of(ro.t);
    for need in ["read_bits", "read_u8", "read_u16", "read_u32", "read_bytes", "read_bytes_vec", "write_bits", "write_u8", "write_u16", "write_u32", "write_bytes", "set_read_pos", "set_write_pos", "truncate", "from_raw_bytes", "new", "into_vec"] {
        if !ms.iter().any(|m| m.0 == need) {
            r.error(format!("buffer method {need} not found"));
        }
    }
    for (m, d) in &ms {
        let m = m.as_str();
        let contract = matches!(
            m,
            "read_bits" | "read_u8" | "read_u16" | "read_u32" | "read_bytes" | "read_bytes_vec" | "write_bits" | "write_u8" | "write_u16" | "write_u32" | "write_bytes" | "set_read_pos" | "set_write_pos" | "truncate" | "from_raw_bytes" | "new" | "into_vec"
        );
        if !contract {
            continue;
        }
        let insts: Vec<(Instance<'static>, Option<i128>)> = if m == "read_bytes" {
            [1u64, 2, 3, 4, 8, 16]
                .iter()
                .map(|n| {
                    let n1 = *n;
                    let ga = ty::GenericArgs::for_item(tcx(), *d, |p, _| match p.kind {
                        ty::GenericParamDefKind::Const { .. } => ty::Const::from_target_usize(tcx(), n1).into(),
                        _ => tcx().lifetimes.re_erased.into(),
                    });
                    (Instance::new_raw(*d, ga), Some(n1 as i128))
                })
                .collect()
        } else {
            vec![(concrete_instance(*d), None)]
        };
        for (inst, cn) in insts {
            match m {
                "read_bits" | "write_bits" => {
                    for o in 0..8 {
                        for n in (m == "write_bits") as i128..=8 {
                            body_run(r, ro, m, *d, inst, cn, Some((o, n)));
                        }
                    }
                }
                "truncate" => (0..8).for_each(|o| body_run(r, ro, m, *d, inst, cn, Some((o, 0)))),
                _ => body_run(r, ro, m, *d, inst, cn, None),
            }
        }
        // the bits moved, for every alignment and width
        if m == "read_bits" || m == "write_bits" {
            for o in 0..8 {
                for n in 1..=8 {
                    bits_moved(r, ro, *d, m == "read_bits", o, n);
                }
            }
        }
    }
    r.findings.retain(|f| f.kind == "C34" || is_panic_ob(&f.kind));
}
fn body_run(r: &mut Report, ro: Roles, m: &str, d: DefId, inst: Instance<'static>, cn: Option<i128>, on: Option<(i128, i128)>) {
    let mut b = B::new(ro);
    b.root = Some(d);
    b.track = true;
    let mut e = Engine::new();
    if m == "read_bytes" {
        e.unroll = 32;
    }
    let mut st = State::default();
    let mut args = sym_args(inst, &mut st);
    for a in &args {
        e.pinned.extend(a.syms().iter());
    }
    let q = sym("q", usz());
    e.pinned.extend(q.syms().iter());
    st.assume(ge0(&Lin::of(q).scale(-1).plus(1 << 50)), true);
    let mut before = vec![];
    if let Some(x) = args.first().copied() {
        let v = e.deref(&st, x);
        if v.ty() == Some(ro.t) {
            before = full_value(&st, v, &ro);
            if let Some((o, n)) = on {
                let p = Lin::of(q).scale(8).plus(o).v();
                match m {
                    "read_bits" => (before[ro.r as usize], args[1]) = (p, int(n)),
                    "write_bits" => (before[ro.w as usize], args[2]) = (p, int(n)),
                    _ => args[1] = p,
                }
            }
            let x2 = adt(0, before.clone(), Some(ro.t));
            b.invariant(&mut st, x2);
            for f in &before {
                e.pinned.extend(f.syms().iter());
            }
            if let N::Ptr(l, p) = x.n() {
                let (l, p) = (*l, p.clone());
                e.store(&mut st, l, &p, x2);
            }
        }
    }
    // preconditions
    match m {
        "read_bits" => {
            st.assume(ge0(&Lin::of(args[1]).scale(-1).plus(8)), true);
        }
        "write_bits" => {
            st.assume(ge0(&Lin::of(args[2]).scale(-1).plus(8)), true);
            st.assume(ge0(&Lin::of(args[2]).plus(-1)), true);
        }
        "set_read_pos" | "set_write_pos" => {
            st.assume(ge0(&Lin::of(before[ro.last as usize]).sub(&Lin::of(args[1]))), true);
        }
        "read_bytes_vec" => {
            st.assume(ge0(&Lin::of(args[1]).scale(-1).plus(1 << 32)), true);
        }
        _ => {}
    }
    let want: Option<Lin> = match m {
        "read_bits" => Some(Lin::of(args[1])),
        "write_bits" => Some(Lin::of(args[2])),
        "read_u8" | "write_u8" => Some(Lin::k(8)),
        "read_u16" | "write_u16" => Some(Lin::k(16)),
        "read_u32" | "write_u32" => Some(Lin::k(32)),
        "read_bytes" => cn.map(|n| Lin::k(8 * n)),
        "read_bytes_vec" => Some(Lin::of(args[1]).scale(8)),
        "write_bytes" => Some(Lin::of(models::coll_len(args[1])).scale(8)),
        _ => None,
    };
    let me = args.first().copied();
    e.hooks = Some(Box::new(Body { b }));
    if let (true, Some(N::Ptr(l, _))) = (m.starts_with("write_"), me.map(|x| x.n())) {
        // loop states are told apart by whether the write position is the end of the data
        let (l, iw, il) = (*l, ro.w, ro.last);
        e.head_key = Some(Box::new(move |st| match st.get(l).fields() {
            Some((_, f)) => (st.query(eq0(&Lin::of(f[iw as usize]).sub(&Lin::of(f[il as usize])))) == Some(true)) as u8,
            None => 2,
        }));
    }
    let rets = e.root(inst, args.clone(), st);
    r.roots.push(path_of(d));
    if rets.is_empty() {
        r.error(format!("no path through {}", path_of(d)));
    }
    let len8 = |v: V| Lin::of(models::coll_len(v)).scale(8);
    for (s, v) in &rets {
        let after = |s: &State, e: &Engine| -> Vec<V> { me.map(|p| full_value(s, e.deref(s, p), &ro)).unwrap_or_default() };
        let eqq = |s: &State, a: &Lin, b: &Lin| s.query(eq0(&a.sub(b))) == Some(true);
        let inv = |s: &State, f: &[V]| -> bool {
            let (d, l, w, rr) = (f[ro.data as usize], Lin::of(f[ro.last as usize]), Lin::of(f[ro.w as usize]), Lin::of(f[ro.r as usize]));
            let ge = |a: Lin| s.query(ge0(&a)) == Some(true);
            ge(l.sub(&rr)) && ge(l.sub(&w)) && ge(len8(d).sub(&l)) && ge(l.sub(&len8(d)).plus(7))
        };
        let g = |f: &[V], i: u32| Lin::of(f[i as usize]);
        if m.starts_with("read_") {
            let f = after(s, &e);
            let n = want.clone().unwrap();
            let same = f[ro.data as usize] == before[ro.data as usize] && eqq(s, &g(&f, ro.last), &g(&before, ro.last)) && eqq(s, &g(&f, ro.w), &g(&before, ro.w));
            rob(r, "C34", d, "a read leaves the bytes and the write position alone", s, same);
            let fits = s.query(ge0(&g(&before, ro.last).sub(&g(&before, ro.r)).sub(&n)));
            match v.fields() {
                Some((1, _)) => {
                    let mv = eqq(s, &g(&f, ro.r), &g(&before, ro.r).add(&n, 1));
                    rob(r, "C34", d, "a read advances by exactly the bits asked for", s, mv);
                    rob(r, "C34", d, "a read happens only entirely inside the buffer", s, fits == Some(true));
                    read_value(r, &mut e, ro, d, m, s, v.fields().unwrap().1[0], &before, &n, cn);
                }
                Some((0, _)) => {
                    let mv = eqq(s, &g(&f, ro.r), &g(&before, ro.r));
                    rob(r, "C34", d, "a refused read leaves the position unchanged", s, mv);
                    // refusing is right only when the bits are not there
                    let right = fits == Some(false) || n.is_const() && n.c == 0;
                    rob(r, "C34", d, "a read is refused only when it does not fit", s, right);
                }
                _ => rob(r, "C34", d, "a read either returns bits or refuses", s, false),
            }
        } else if m.starts_with("write_") {
            let f = after(s, &e);
            let n = want.clone().unwrap();
            let nw = g(&before, ro.w).add(&n, 1);
            rob(r, "C34", d, "a write advances by exactly the bits written", s, eqq(s, &g(&f, ro.w), &nw));
            rob(r, "C34", d, "a write leaves the read position alone", s, eqq(s, &g(&f, ro.r), &g(&before, ro.r)));
            let l = g(&f, ro.last);
            let mut ok = true;
            let (x, y) = models::split(s, ge0(&nw.sub(&g(&before, ro.last))));
            if let Some(x) = x {
                ok &= eqq(&x, &l, &nw);
            }
            if let Some(y) = y {
                ok &= eqq(&y, &l, &g(&before, ro.last));
            }
            rob(r, "C34", d, "a write extends the buffer exactly to the bits written", s, ok);
            rob(r, "C34", d, "the buffer stays consistent after a write", s, inv(s, &f));
        } else if m.starts_with("set_") {
            let f = after(s, &e);
            let (p, q) = if m == "set_read_pos" { (ro.r, ro.w) } else { (ro.w, ro.r) };
            let ok = eqq(s, &g(&f, p), &Lin::of(args[1])) && eqq(s, &g(&f, q), &g(&before, q)) && eqq(s, &g(&f, ro.last), &g(&before, ro.last)) && f[ro.data as usize] == before[ro.data as usize];
            rob(r, "C34", d, "setting a position changes only that position", s, ok);
        } else if m == "truncate" {
            let f = after(s, &e);
            let p = Lin::of(args[1]);
            let min = |s: &State, a: &Lin, b: &Lin, x: &Lin| -> bool {
                let (u, v) = models::split(s, ge0(&a.sub(b)));
                u.map(|s| eqq(&s, x, b)).unwrap_or(true) && v.map(|s| eqq(&s, x, a)).unwrap_or(true)
            };
            for i in [ro.last, ro.r, ro.w] {
                let ok = min(s, &g(&before, i), &p, &g(&f, i));
                rob(r, "C34", d, "truncating limits length and positions to the length given", s, ok);
            }
            rob(r, "C34", d, "the buffer stays consistent after truncation", s, inv(s, &f));
        } else if m == "from_raw_bytes" {
            let f = full_value(s, *v, &ro);
            let l = len8(args[0]);
            let ok = e.snap(s, f[ro.data as usize], 0) == args[0] && eqq(s, &g(&f, ro.last), &l) && eqq(s, &g(&f, ro.w), &l) && eqq(s, &g(&f, ro.r), &Lin::k(0));
            rob(r, "C34", d, "a buffer over bytes holds exactly them and reads from their start", s, ok);
        } else if m == "new" {
            let f = full_value(s, *v, &ro);
            let ok = eqq(s, &len8(f[ro.data as usize]), &Lin::k(0)) && [ro.last, ro.w, ro.r].iter().all(|i| eqq(s, &g(&f, *i), &Lin::k(0)));
            rob(r, "C34", d, "a new buffer is empty", s, ok);
        } else if m == "into_vec" {
            let f = full_value(s, args[0], &ro);
            rob(r, "C34", d, "the bytes handed out are the buffer's", s, e.snap(s, *v, 0) == f[ro.data as usize]);
        }
    }
    r.take(&mut e);
}
/// the value a composite read returns, bit by bit
fn read_value(r: &mut Report, e: &mut Engine, ro: Roles, d: DefId, m: &str, s: &State, v: V, before: &[V], n: &Lin, cn: Option<i128>) {
    let (data, pos) = (before[ro.data as usize], Lin::of(before[ro.r as usize]));
    match m {
        "read_u8" | "read_u16" | "read_u32" => {
            let w = n.c as usize;
            let ok = bitexp(s, v, w).map(|b| (0..w).all(|i| b[i] == Bit::Data(data, pos.plus(i as i128).v()))).unwrap_or(false);
            rob(r, "C34", d, "a read returns the bits at the position, most significant first", s, ok);
        }
        "read_bytes" => {
            let ok = (0..cn.unwrap_or(0)).all(|i| {
                let x = e.read_index(v, int(i));
                bitexp(s, x, 8).map(|b| (0..8).all(|j| b[j as usize] == Bit::Data(data, pos.plus(8 * i + j).v()))).unwrap_or(false)
            });
            rob(r, "C34", d, "a read returns the bits at the position, most significant first", s, ok);
        }
        "read_bytes_vec" => {
            let ok = s.query(eq0(&Lin::of(models::coll_len(v)).scale(8).sub(n))) == Some(true);
            rob(r, "C34", d, "a read of bytes returns as many as asked for", s, ok);
        }
        _ => {}
    }
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Bit {
    C(bool),
    /// bit of the input at a position
    Data(V, V),
    /// bit i (from the least significant) of an integer term
    T(V, u32),
    B(V),
}
/// an integer value as `w` bits, most significant first (the value modulo 2^w)
pub fn bitexp(st: &State, v: V, w: usize) -> Option<Vec<Bit>> {
    let mut o = vec![Bit::C(false); w];
    let l = Lin::of(v);
    if l.c < 0 {
        return None;
    }
    let mut used = vec![false; w];
    for i in 0..w {
        if i < 127 && (l.c >> i) & 1 == 1 {
            o[w - 1 - i] = Bit::C(true);
            used[i] = true;
        }
    }
    for (t, k) in &l.t {
        if *k <= 0 || k.count_ones() != 1 {
            return None;
        }
        let sh = k.trailing_zeros() as usize;
        let bs = term_bits(st, *t)?;
        for (i, b) in bs.iter().rev().enumerate() {
            let p = i + sh;
            if p >= w || *b == Bit::C(false) {
                continue;
            }
            if used[p] {
                return None;
            }
            used[p] = true;
            o[w - 1 - p] = b.clone();
        }
    }
    Some(o)
}
/// the bits of a single term, most significant first
fn term_bits(st: &State, t: V) -> Option<Vec<Bit>> {
    if let N::App(f, a) = t.n() {
        match *f {
            "bits" => {
                let n = a[2].as_int()?;
                let p = Lin::of(a[1]);
                return Some((0..n).map(|i| Bit::Data(a[0], p.plus(i).v())).collect());
            }
            "rem" | "div" => {
                if let Some(k) = a[1].as_int() {
                    if k > 0 && k.count_ones() == 1 {
                        let s = k.trailing_zeros() as usize;
                        let x = bitexp(st, a[0], 64)?;
                        return Some(if *f == "rem" { x[64 - s..].to_vec() } else { x[..64 - s].to_vec() });
                    }
                }
                return None;
            }
            "b2i" => return Some(vec![Bit::B(a[0])]),
            "and" | "or" => {
                let (x, y) = (bitexp(st, a[0], 64)?, bitexp(st, a[1], 64)?);
                let one = Bit::C(*f == "and");
                let zero = Bit::C(*f != "and");
                let mut o = vec![];
                for (p, q) in x.into_iter().zip(y) {
                    o.push(if p == one || p == q {
                        q
                    } else if q == one {
                        p
                    } else if p == zero || q == zero {
                        zero.clone()
                    } else {
                        return None;
                    });
                }
                return Some(o);
            }
            _ => {}
        }
    }
    let ty = match (t.ty(), t.n()) {
        (Some(t), _) => t,
        (None, N::App("elem", _)) => tcx().types.u8,
        _ => return None,
    };
    let (lo, hi) = crate::facts::ty_range(ty)?;
    if lo != 0 {
        return None;
    }
    let w = 128 - (hi as u128).leading_zeros();
    Some((0..w).rev().map(|i| Bit::T(t, i)).collect())
}
fn bits_moved(r: &mut Report, ro: Roles, d: DefId, reading: bool, o: i128, n: i128) {
    let mut b = B::new(ro);
    b.root = Some(d);
    let mut e = Engine::new();
    let mut st = State::default();
    let inst = concrete_instance(d);
    let mut args = sym_args(inst, &mut st);
    let v = e.deref(&st, args[0]);
    let mut f = full_value(&st, v, &ro);
    let q = sym("q", usz());
    let pos = Lin::of(q).scale(8).plus(o);
    f[if reading { ro.r } else { ro.w } as usize] = pos.v();
    let x = adt(0, f.clone(), Some(ro.t));
    b.invariant(&mut st, x);
    st.assume(ge0(&Lin::of(q).scale(-1).plus(1 << 50)), true);
    if let N::Ptr(l, p) = args[0].n() {
        let (l, p) = (*l, p.clone());
        e.store(&mut st, l, &p, x);
    }
    let me = args[0];
    let bitsv = args[1];
    args[if reading { 1 } else { 2 }] = int(n);
    for a in args.iter().chain(f.iter()) {
        e.pinned.extend(a.syms().iter());
    }
    e.hooks = Some(Box::new(Body { b }));
    let rets = e.root(inst, args, st);
    let data = f[ro.data as usize];
    let pushed = app("push", vec![data, int(0)], None);
    let byte = |k: i128| elem(data, Lin::of(q).plus(k).v(), Some(tcx().types.u8));
    if rets.is_empty() {
        r.error("no path through the bit transfer");
    }
    for (s, v) in &rets {
        if reading {
            let Some((1, x)) = v.fields() else { continue };
            let got = bitexp(s, x[0], 8);
            let ok = got
                .as_ref()
                .map(|g| {
                    (0..8).all(|i| {
                        let j = i - (8 - n);
                        if j < 0 {
                            g[i as usize] == Bit::C(false)
                        } else {
                            let p = o + j;
                            g[i as usize] == Bit::T(byte(p / 8), 7 - (p % 8) as u32)
                        }
                    })
                })
                .unwrap_or(false);
            if !ok && std::env::var("SA_DBG").is_ok() {
                eprintln!("o {o} n {n} {} {:?}", show(x[0]), got);
            }
            rob(r, "C34", d, "a read returns the bits at the position, most significant first", s, ok);
        } else {
            let fin = full_value(s, e.deref(s, me), &ro)[ro.data as usize];
            let mut ok = true;
            for k in 0..=((o + n - 1) / 8) {
                let x = e.read_index(fin, Lin::of(q).plus(k).v());
                let got = bitexp(s, x, 8);
                let good = got
                    .as_ref()
                    .map(|g| {
                        (0..8).all(|i| {
                            let p = 8 * k + i;
                            if p >= o && p < o + n {
                                g[i as usize] == Bit::T(bitsv, (n - 1 - (p - o)) as u32)
                            } else {
                                matches!(&g[i as usize], Bit::T(t, b) if *b == 7 - i as u32 && matches!(t.n(), N::App(f, x) if *f == "elem" && (x[0] == data || x[0] == pushed) && x[1] == Lin::of(q).plus(k).v()))
                            }
                        })
                    })
                    .unwrap_or(false);
                if !good && std::env::var("SA_DBG").is_ok() {
                    eprintln!("write o {o} n {n} k {k} {} {:?} in {}", show(x), got, show(fin));
                }
                ok &= good;
            }
            rob(r, "C34", d, "a write puts the bits at the position, most significant first", s, ok);
        }
    }
    r.take(&mut e);
}
