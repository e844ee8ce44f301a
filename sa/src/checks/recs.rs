//! Records as seen by the resolver: the fields all kinds share are read and written through
//! functions found here by what they do, without telling the kinds apart; functions that take the
//! records of a name and type out of a list are used through what their bodies are shown to do.
use super::base::*;
use super::wire::{rob, sig_of};
use super::*;
use crate::models;

pub struct Recs {
    pub lay: &'static RecLay,
    getters: Vec<(DefId, usize)>,
    setters: Vec<(DefId, usize)>,
    kinds: Vec<DefId>,
    pub takers: Vec<DefId>,
    pub name: Ty,
    name_eq: Vec<DefId>,
    pub node: usize,
    pub ttl: usize,
}
fn ref_of(t: Ty, mutbl: bool) -> Option<Ty> {
    match t.kind() {
        ty::Ref(_, x, m) if m.is_mut() == mutbl => Some(peel(*x)),
        _ => None,
    }
}
pub fn vec_of(t: Ty, el: Ty) -> bool {
    matches!(peel(t).kind(), ty::Adt(a, g) if path_of(a.did()) == "std::vec::Vec" && peel(norm(g.type_at(0))) == el)
}
fn concrete(rec: Ty, k: u32) -> V {
    let n = rec.ty_adt_def().unwrap().variant(rustc_abi::VariantIdx::from_u32(k)).fields.len();
    adt(k, (0..n as u32).map(|i| sym(&format!("r.{k}.{i}"), peel(field_ty(rec, k, i).unwrap()))).collect(), Some(rec))
}
impl Recs {
    pub fn find() -> Option<Recs> {
        thread_local! { static C: std::cell::RefCell<Option<Option<&'static Recs>>> = const { std::cell::RefCell::new(None) }; }
        let c = C.with(|c| *c.borrow());
        let r = match c {
            Some(x) => x,
            None => {
                let x = Recs::look().map(|x| &*Box::leak(Box::new(x)));
                C.with(|c| *c.borrow_mut() = Some(x));
                x
            }
        }?;
        Some(Recs { lay: r.lay, getters: r.getters.clone(), setters: r.setters.clone(), kinds: r.kinds.clone(), takers: r.takers.clone(), name: r.name, name_eq: r.name_eq.clone(), node: r.node, ttl: r.ttl })
    }
    fn look() -> Option<Recs> {
        let rec = find_adt("records::Record")?;
        let kind = find_adt("RecordType")?;
        let name = find_adt("name::Name")?;
        let n = rec.ty_adt_def().filter(|d| d.is_enum())?.variants().len() as u32;
        let was = recs();
        set_recs(None);
        let mut common: Vec<(&'static str, Ty, Vec<u32>)> = vec![];
        let mut add = |idx: Vec<u32>| -> usize {
            if let Some(i) = common.iter().position(|c| c.2 == idx) {
                return i;
            }
            let d = rec.ty_adt_def().unwrap();
            let f = d.variant(rustc_abi::VariantIdx::from_u32(0)).fields.iter().nth(idx[0] as usize).unwrap().name.to_string();
            let t = peel(field_ty(rec, 0, idx[0]).unwrap());
            common.push((Box::leak(f.into_boxed_str()), t, idx));
            common.len() - 1
        };
        let (mut getters, mut setters, mut kinds, mut kmap) = (vec![], vec![], vec![], vec![]);
        for (_, d) in local_fns() {
            if tcx().is_closure_like(d) || tcx().generics_of(d).requires_monomorphization(tcx()) {
                continue;
            }
            let (ins, out) = sig_of(d);
            let of = tcx().impl_of_assoc(d).map(|i| peel(tcx().type_of(i).instantiate_identity().skip_norm_wip()));
            if of != Some(rec) || tcx().trait_impl_of_assoc(d).is_some() {
                continue;
            }
            let get = ins.len() == 1 && ref_of(ins[0], false) == Some(rec);
            let set = ins.len() == 2 && ref_of(ins[0], true) == Some(rec) && out.is_unit();
            if !get && !set {
                continue;
            }
            let mut idx = vec![];
            let mut tags = vec![];
            for k in 0..n {
                let mut e = Engine::new();
                let mut st = State::default();
                set_tenv(ty::TypingEnv::post_analysis(tcx(), d));
                let r = concrete(rec, k);
                let args = if get {
                    vec![r]
                } else {
                    st.set(Loc(1, 1), r);
                    vec![ptr(Loc(1, 1), vec![]), sym("value", peel(ins[1]))]
                };
                let x = args.last().copied().unwrap();
                let rets = e.root(identity_instance(d), args, st);
                if rets.len() != 1 {
                    break;
                }
                let (s, v) = &rets[0];
                let N::Adt(_, f) = r.n() else { break };
                if get {
                    let v = e.snap(s, *v, 0);
                    if let Some(i) = f.iter().position(|y| *y == v) {
                        idx.push(i as u32);
                    }
                    if let (N::Adt(j, z), true) = (v.n(), peel(out) == kind) {
                        if z.is_empty() {
                            tags.push(*j);
                        }
                    }
                } else if let N::Adt(j, g) = s.get(Loc(1, 1)).n() {
                    let ch: Vec<usize> = (0..f.len()).filter(|i| g.get(*i) != f.get(*i)).collect();
                    if *j == k && ch.len() == 1 && g[ch[0]] == x && g.len() == f.len() {
                        idx.push(ch[0] as u32);
                    }
                }
            }
            if idx.len() == n as usize {
                let i = add(idx);
                if get { getters.push((d, i)) } else { setters.push((d, i)) }
            }
            if tags.len() == n as usize {
                kinds.push(d);
                kmap = tags;
            }
        }
        set_recs(was);
        if kinds.len() != 1 {
            return None;
        }
        let node = common.iter().position(|c| c.1 == name)?;
        let ttl = common.iter().position(|c| c.0 == "ttl")?;
        let lay: &'static RecLay = Box::leak(Box::new(RecLay { rec, kind, common, kinds: kmap }));
        let takers = local_fns()
            .into_iter()
            .map(|x| x.1)
            .filter(|d| {
                let (i, o) = sig_of(*d);
                i.iter().any(|t| ref_of(*t, true).map(|t| vec_of(t, rec)).unwrap_or(false))
                    && i.iter().any(|t| peel(*t) == kind)
                    && i.iter().any(|t| ref_of(*t, false) == Some(name))
                    && i.len() == 3
                    && (vec_of(o, rec) || option_of(o) == Some(rec))
            })
            .collect();
        let name_eq = local_fns()
            .into_iter()
            .map(|x| x.1)
            .filter(|d| {
                let Some(i) = tcx().trait_impl_of_assoc(*d) else { return false };
                tcx().is_automatically_derived(i) && path_of(tcx().impl_trait_ref(i).skip_binder().def_id) == "std::cmp::PartialEq" && peel(tcx().type_of(i).instantiate_identity().skip_norm_wip()) == name
            })
            .collect();
        Some(Recs { lay, getters, setters, kinds, takers, name, name_eq, node, ttl })
    }
    pub fn node_of(&self, r: V) -> V {
        rec_get(r, self.node)
    }
    pub fn ttl_of(&self, r: V) -> V {
        rec_get(r, self.ttl)
    }
    /// the type with this name
    pub fn kind_no(&self, n: &str) -> Option<u32> {
        (0..64).take(self.lay.kind.ty_adt_def()?.variants().len()).find(|k| variant_name(Some(self.lay.kind), *k) == n)
    }
    pub fn variant_of(&self, kind: u32) -> Option<u32> {
        self.lay.kinds.iter().position(|k| *k == kind).map(|x| x as u32)
    }
    pub fn is_kind(&self, st: &State, r: V, kind: u32) -> bool {
        st.query(is_var(rec_kind(r), kind)) == Some(true)
    }
    pub fn same_kind(&self, st: &State, a: V, b: V) -> bool {
        if a == b {
            return true;
        }
        let (m, n) = (st.facts.mask(a), st.facts.mask(b));
        m == n && m.count_ones() == 1 || st.query(self.kind_eq(a, b)) == Some(true)
    }
    /// what comparing two types comes to
    pub fn kind_eq(&self, a: V, b: V) -> V {
        match (a.n(), b.n()) {
            (N::Adt(k, _), _) => is_var(b, *k),
            (_, N::Adt(k, _)) => is_var(a, *k),
            _ => eqv(a, b),
        }
    }
    pub fn same_name(&self, e: &mut Engine, st: &State, a: V, b: V) -> bool {
        a == b || st.query(eqv(a, b)) == Some(true) || same(e, st, a, b)
    }
    pub fn call(&self, e: &mut Engine, st: &State, c: &Call, takers: bool) -> Option<Vec<(State, V)>> {
        let d = c.inst.map(|i| i.def_id()).or(c.def)?;
        let pos = |t: &dyn Fn(Ty) -> bool| c.arg_tys.iter().position(|x| t(*x));
        if let Some((_, i)) = self.getters.iter().find(|g| g.0 == d) {
            let r = e.snap(st, c.args[0], 0);
            return Some(vec![(st.clone(), rec_get(r, *i))]);
        }
        if self.kinds.contains(&d) {
            let r = e.snap(st, c.args[0], 0);
            return Some(vec![(st.clone(), rec_kind(r))]);
        }
        if let Some((_, i)) = self.setters.iter().find(|g| g.0 == d) {
            let mut s = st.clone();
            let r = e.deref(st, c.args[0]);
            let N::Ptr(l, p) = c.args[0].n() else { return None };
            let v = rec_set(r, *i, e.snap(st, c.args[1], 0));
            e.store(&mut s, *l, p, v);
            return Some(vec![(s, models::unit())]);
        }
        if self.name_eq.contains(&d) && c.args.len() == 2 {
            let (a, b) = (e.snap(st, c.args[0], 0), e.snap(st, c.args[1], 0));
            let p = if c.name.ends_with("::ne") { not(eqv(a, b)) } else { eqv(a, b) };
            return Some(vec![(st.clone(), p)]);
        }
        if takers && self.takers.contains(&d) {
            let li = pos(&|t| ref_of(t, true).is_some())?;
            let ki = pos(&|t| peel(t) == self.lay.kind)?;
            let ni = pos(&|t| ref_of(t, false) == Some(self.name))?;
            let (k, n) = (e.snap(st, c.args[ki], 0), e.snap(st, c.args[ni], 0));
            let N::Ptr(l, p) = c.args[li].n() else { return None };
            let old = e.deref(st, c.args[li]);
            let len = Lin::of(models::coll_len(old));
            let u = tcx().types.usize;
            let mut s = st.clone();
            let took = e.fresh(st, c.frame, c.bb, "taken", Some(u));
            let alts = alts_of(old, st);
            let rest = summ(app("left", vec![old, k, n], None), len.sub(&Lin::of(took)).v(), alts.clone());
            s.assume(ge0(&Lin::of(took)), true);
            s.assume(ge0(&len.sub(&Lin::of(took))), true);
            e.store(&mut s, *l, p, if took_none(old) { old } else { rest });
            if vec_of(c.ret_ty, self.lay.rec) {
                let alts = alts
                    .into_iter()
                    .filter_map(|a| {
                        let mut f = a.facts.clone();
                        for q in [self.kind_eq(rec_kind(a.t), k), eqv(rec_get(a.t, self.node), n)] {
                            match q.as_bool() {
                                Some(true) => {}
                                Some(false) => return None,
                                None => f.push((q, true)),
                            }
                        }
                        f.sort();
                        Some(Alt { t: a.t, facts: f })
                    })
                    .collect::<Vec<_>>();
                let v = if alts.is_empty() { seq(vec![]) } else { summ(app("taken", vec![old, k, n], None), took, alts) };
                if alts_empty(v) {
                    s.assume(eq0(&Lin::of(took)), true);
                }
                return Some(vec![(s, v)]);
            }
            let rt = peel(c.ret_ty);
            let mut out = vec![];
            let mut none = s.clone();
            if none.assume(eq0(&Lin::of(took)), true) {
                out.push((none, models::option(rt, None)));
            }
            if s.assume(eq0(&Lin::of(took).plus(-1)), true) {
                let i = e.fresh(st, c.frame, c.bb, "taken_at", Some(u));
                for (mut s, x) in models::elements(e, &s, old, i, Some(self.lay.rec)) {
                    let x = adt_or(x);
                    if s.assume(self.kind_eq(rec_kind(x), k), true) && s.assume(eqv(rec_get(x, self.node), n), true) {
                        out.push((s, models::option(rt, Some(x))));
                    }
                }
            }
            return Some(out);
        }
        None
    }
}
fn adt_or(x: V) -> V {
    x
}
fn took_none(v: V) -> bool {
    matches!(v.n(), N::Seq(x) if x.is_empty())
}
fn alts_empty(v: V) -> bool {
    took_none(v)
}
pub fn option_of(t: Ty) -> Option<Ty> {
    match peel(t).kind() {
        ty::Adt(a, g) if path_of(a.did()) == "std::option::Option" => Some(peel(norm(g.type_at(0)))),
        _ => None,
    }
}
struct K(Recs);
impl Hooks for K {
    fn call(&mut self, e: &mut Engine, st: &State, c: &Call) -> Option<Vec<(State, V)>> {
        self.0.call(e, st, c, false).or_else(|| base_call(e, st, c))
    }
}
/// the records in a collection, each with a state in which it is one
pub fn each(e: &mut Engine, st: &State, coll: V, ety: Ty) -> Vec<(State, V)> {
    each_at(e, st, coll, ety, "each")
}
pub fn each_at(e: &mut Engine, st: &State, coll: V, ety: Ty, at: &str) -> Vec<(State, V)> {
    let n = Lin::of(models::coll_len(coll));
    if let N::Seq(x) = coll.n() {
        return x.iter().map(|x| (st.clone(), *x)).collect();
    }
    let i = sym(at, tcx().types.usize);
    let mut s = st.clone();
    if !s.assume(ge0(&n.sub(&Lin::of(i)).plus(-1)), true) {
        return vec![];
    }
    models::elements(e, &s, coll, i, Some(ety))
}
fn within(v: V, base: V) -> bool {
    v == base
        || match v.n() {
            N::App(f, a) if matches!(*f, "elem" | "subslice" | "left" | "rest" | "wr" | "upd") => within(a[0], base),
            N::App(_, a) => a.first().map(|x| within(*x, base)).unwrap_or(false),
            N::Summ(i, ..) => within(*i, base),
            _ => false,
        }
}
/// what functions that take the records of a name and type out of a list are used for
pub fn takers(r: &mut Report, prop: &'static str) {
    let Some(rs) = Recs::find() else {
        r.error("no record type with functions that read it");
        return;
    };
    set_recs(Some(rs.lay));
    for d in rs.takers.clone() {
        let mut e = Engine::new();
        let mut st = State::default();
        set_tenv(ty::TypingEnv::post_analysis(tcx(), d));
        let inst = identity_instance(d);
        let (ins, out) = sig_of(d);
        let args = sym_args(inst, &mut st);
        for a in &args {
            let v = e.snap(&st, *a, 0);
            e.pinned.extend(v.syms().iter());
        }
        let li = ins.iter().position(|t| ref_of(*t, true).is_some()).unwrap();
        let ki = ins.iter().position(|t| peel(*t) == rs.lay.kind).unwrap();
        let ni = ins.iter().position(|t| ref_of(*t, false) == Some(rs.name)).unwrap();
        let (k, n) = (e.snap(&st, args[ki], 0), e.snap(&st, args[ni], 0));
        let list = args[li];
        let before = e.deref(&st, list);
        e.hooks = Some(Box::new(K(Recs::find().unwrap())));
        let rets = e.root(inst, args, st);
        r.roots.push(path_of(d));
        for (s, v) in &rets {
            let v = e.snap(s, *v, 0);
            let after = e.deref(s, list);
            let (la, lb) = (Lin::of(models::coll_len(after)), Lin::of(models::coll_len(before)));
            let (got, cnt) = if vec_of(out, rs.lay.rec) {
                (each(&mut e, s, v, rs.lay.rec), Lin::of(models::coll_len(v)))
            } else {
                match v.fields() {
                    Some((1, f)) => (vec![(s.clone(), f[0])], Lin::k(1)),
                    Some((0, _)) => (vec![], Lin::k(0)),
                    _ => {
                        rob(r, prop, d, "what is taken is known", s, false);
                        continue;
                    }
                }
            };
            if std::env::var("SA_DBG").is_ok() {
                eprintln!("RET {v:?}\n after {after:?}\n {}", s.facts.show());
            }
            rob(r, prop, d, "as many are taken as are missing after", s, s.query(eq0(&lb.sub(&la).sub(&cnt))) == Some(true));
            for (s, x) in got {
                let kx = rec_kind(x);
                rob(r, prop, d, "what is taken has the type", &s, rs.same_kind(&s, kx, k));
                let ok = rs.same_name(&mut e, &s, rs.node_of(x), n);
                rob(r, prop, d, "what is taken has the name", &s, ok);
                rob(r, prop, d, "what is taken is from the list", &s, within(x, before));
            }
            for (s, x) in each(&mut e, s, after, rs.lay.rec) {
                rob(r, prop, d, "what is left is from the list", &s, within(x, before));
            }
        }
        if rets.is_empty() {
            r.error(format!("{} never returns", path_of(d)));
        }
        keep(&mut e, prop);
        r.take(&mut e);
    }
    set_recs(None);
}
