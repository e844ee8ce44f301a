//! The resolver: tracing (C35).
use super::base::*;
use super::frames::reaches_call;
use super::layout::direct_calls;
use super::net::{minimal, own};
use super::wire::{rob, sig_of};
use super::*;
use crate::models;

pub struct Types {
    pub trace: Ty,
    pub lines: u32,
    pub conf: u32,
    pub tconf: Ty,
    pub silent: u32,
    pub verbose: Option<u32>,
}
pub fn mentions(t: Ty, what: Ty, d: u32) -> bool {
    let t = peel(t);
    if t == what {
        return true;
    }
    if d == 0 {
        return false;
    }
    match t.kind() {
        ty::Adt(_, g) => g.types().any(|x| mentions(norm(x), what, d - 1)),
        ty::Tuple(ts) => ts.iter().any(|x| mentions(x, what, d - 1)),
        ty::Slice(x) | ty::Array(x, _) => mentions(*x, what, d - 1),
        _ => false,
    }
}
pub fn struct_fields(t: Ty) -> Vec<(String, Ty)> {
    match t.kind() {
        ty::Adt(a, g) if a.is_struct() => a.non_enum_variant().fields.iter().map(|f| (f.name.to_string(), peel(norm(f.ty(tcx(), g).skip_norm_wip())))).collect(),
        _ => vec![],
    }
}
/// the trace: a struct with a list of lines and its settings, which can silence it
pub fn types() -> Option<Types> {
    for i in tcx().hir_crate_items(()).free_items() {
        let d = i.owner_id.to_def_id();
        if !matches!(tcx().def_kind(d), DefKind::Struct) {
            continue;
        }
        let t = tcx().erase_and_anonymize_regions(tcx().type_of(d).instantiate_identity().skip_norm_wip());
        let fs = struct_fields(t);
        let conf = fs.iter().position(|(_, x)| field_index(*x, STRUCT, "silent").is_some());
        let lines = fs.iter().position(|(_, x)| crate::interp::elem_ty(*x).map(|e| matches!(e.kind(), ty::Adt(a, _) if a.is_enum() && local_crate(a.did()))).unwrap_or(false));
        if let (Some(c), Some(l)) = (conf, lines) {
            let tconf = fs[c].1;
            return Some(Types { trace: t, lines: l as u32, conf: c as u32, tconf, silent: field_index(tconf, STRUCT, "silent")?, verbose: field_index(tconf, STRUCT, "verbose") });
        }
    }
    None
}
impl Types {
    /// the trace inside a value of type t
    pub fn inside(&self, v: V, t: Ty, d: u32) -> Option<V> {
        let t = peel(t);
        if t == self.trace {
            return Some(v);
        }
        if d == 0 {
            return None;
        }
        match t.kind() {
            ty::Tuple(ts) => ts.iter().enumerate().find_map(|(i, x)| self.inside(field(v, STRUCT, i as u32, Some(peel(x))), x, d - 1)),
            ty::Adt(a, _) if a.is_struct() && local_crate(a.did()) => struct_fields(t).into_iter().enumerate().find_map(|(i, (_, x))| self.inside(field(v, STRUCT, i as u32, Some(x)), x, d - 1)),
            _ => None,
        }
    }
    pub fn has(&self, t: Ty, d: u32) -> bool {
        let t = peel(t);
        t == self.trace
            || d > 0
                && match t.kind() {
                    ty::Tuple(ts) => ts.iter().any(|x| self.has(x, d - 1)),
                    ty::Adt(a, _) if a.is_struct() && local_crate(a.did()) => struct_fields(t).into_iter().any(|(_, x)| self.has(x, d - 1)),
                    _ => false,
                }
    }
    fn lines_ty(&self) -> Ty {
        struct_fields(self.trace)[self.lines as usize].1
    }
    pub fn lines(&self, tr: V) -> V {
        field(tr, STRUCT, self.lines, Some(self.lines_ty()))
    }
    pub fn is_silent(&self, tr: V) -> V {
        let c = field(tr, STRUCT, self.conf, Some(self.tconf));
        field(c, STRUCT, self.silent, field_ty(self.tconf, STRUCT, self.silent).map(peel))
    }
    pub fn is_verbose(&self, tr: V) -> Option<V> {
        let c = field(tr, STRUCT, self.conf, Some(self.tconf));
        self.verbose.map(|k| field(c, STRUCT, k, field_ty(self.tconf, STRUCT, k).map(peel)))
    }
}
fn mut_ref(t: Ty) -> bool {
    matches!(t.kind(), ty::Ref(_, _, m) if m.is_mut())
}
/// does the function itself name the lines of a trace ?
fn touches_lines(d: DefId, ty: &Types) -> bool {
    own(d).into_iter().any(|x| {
        if !tcx().is_mir_available(x) {
            return false;
        }
        let body = tcx().optimized_mir(x);
        struct F<'a>(&'a rustc_middle::mir::Body<'static>, &'a Types, bool);
        impl rustc_middle::mir::visit::Visitor<'static> for F<'_> {
            fn visit_place(&mut self, p: &rustc_middle::mir::Place<'static>, _c: rustc_middle::mir::visit::PlaceContext, _l: rustc_middle::mir::Location) {
                let mut t = rustc_middle::mir::PlaceTy::from_ty(self.0.local_decls[p.local].ty);
                for e in p.projection.iter() {
                    if let rustc_middle::mir::ProjectionElem::Field(i, _) = e {
                        if i.as_u32() == self.1.lines && adt_path(peel(t.ty)) == adt_path(self.1.trace) {
                            self.2 = true;
                        }
                    }
                    t = t.projection_ty(tcx(), e);
                }
            }
        }
        use rustc_middle::mir::visit::Visitor;
        let mut f = F(body, ty, false);
        f.visit_body(body);
        f.2
    })
}
// ---- C35 ------------------------------------------------------------------------------------
const SENT: Loc = Loc(0, 110);
const BACK: Loc = Loc(0, 111);
const V_REQ: Loc = Loc(0, 112);
const N_BACK: Loc = Loc(0, 113);
const GOOD: Loc = Loc(0, 114);
struct C35 {
    requests: Vec<DefId>,
    lookups: Vec<DefId>,
    ty: Types,
    trace: (Loc, Vec<Pj>),
    start: V,
    silent: bool,
    writers: Vec<DefId>,
}
fn last_variant(st: &State, lines: V) -> Option<u32> {
    let el = match lines.n() {
        N::Seq(x) => *x.last()?,
        N::Summ(id, _, _) => match id.n() {
            N::App(f, a) if *f == "push" => a[1],
            _ => return None,
        },
        _ => return None,
    };
    let _ = st;
    el.fields().map(|x| x.0)
}
impl C35 {
    fn now(&self, e: &Engine, st: &State) -> V {
        let p = ptr(self.trace.0, self.trace.1.clone());
        let tr = e.snap(st, p, 0);
        self.ty.lines(tr)
    }
}
impl Hooks for C35 {
    fn call(&mut self, e: &mut Engine, st: &State, c: &Call) -> Option<Vec<(State, V)>> {
        let d = c.inst.map(|i| i.def_id()).or(c.def)?;
        if self.requests.contains(&d) || self.lookups.contains(&d) {
            let req = self.requests.contains(&d);
            let mut s = st.clone();
            // a nested resolution is silenced with this one
            for (a, t) in c.args.iter().zip(&c.arg_tys) {
                let v = e.snap(st, *a, 0);
                if let Some(tr) = self.ty.inside(v, *t, 3) {
                    let sv = self.ty.is_silent(tr);
                    if self.silent {
                        super::net::fob(e, "C35", st, c.frame, c.span, "what is traced for a silent resolution is silent too", st.query(sv) == Some(true) || sv.as_bool() == Some(true));
                    } else {
                        super::net::fob(e, "C35", st, c.frame, c.span, "what is traced for a traced resolution is traced too", st.query(sv) == Some(false) || sv.as_bool() == Some(false));
                    }
                }
            }
            let now = self.now(e, st);
            if req && !self.silent {
                let grew = Lin::of(models::coll_len(now)).sub(&Lin::of(models::coll_len(self.start)));
                super::net::fob(e, "C35", st, c.frame, c.span, "a request to a server is recorded before it is sent", st.query(ge0(&grew.plus(-1))) == Some(true));
                s.set(V_REQ, last_variant(st, now).map(|k| int(k as i128)).unwrap_or(int(-1)));
            }
            s.set(SENT, boolv(true));
            // it may add lines of its own to the trace it is given
            for (a, t) in c.args.iter().zip(&c.arg_tys) {
                if let N::Ptr(l, p) = a.n() {
                    if mut_ref(*t) && peel(*t) == self.ty.trace && !self.silent {
                        let mut q = p.clone();
                        q.push(Pj::Field(STRUCT, self.ty.lines, self.ty.lines_ty()));
                        let x = e.fresh(st, c.frame, c.bb, "lines", Some(self.ty.lines_ty()));
                        let g = Lin::of(models::coll_len(x)).sub(&Lin::of(models::coll_len(now)));
                        s.assume(ge0(&g), true);
                        e.store(&mut s, *l, &q, x);
                    }
                }
            }
            let after = self.now(e, &s);
            s.set(N_BACK, models::coll_len(after));
            let rt = c.ret_ty;
            let mut out = vec![];
            let is_result = matches!(peel(rt).kind(), ty::Adt(a, _) if path_of(a.did()) == "std::result::Result");
            let v = e.fresh(&s, c.frame, c.bb, "reply", Some(peel(rt)));
            if is_result {
                for k in [0u32, 1] {
                    let mut t = s.clone();
                    t.set(GOOD, boolv(k == 0));
                    if t.assume(is_var(v, k), true) {
                        out.push((t, v));
                    }
                }
            } else {
                // (result, trace): the trace has its own lines
                if let (ty::Tuple(ts), false) = (rt.kind(), self.silent) {
                    let _ = ts;
                }
                s.set(GOOD, boolv(true));
                out.push((s, v));
            }
            return Some(out);
        }
        // other local code that has no business with traces
        if local_crate(d) && c.inst.is_some() && !self.writers.contains(&d) {
            let touches = c.arg_tys.iter().any(|t| self.ty.has(*t, 3) || peel(*t) == self.ty.tconf) || self.ty.has(c.ret_ty, 3);
            if !touches && !tcx().is_closure_like(d) && c.arg_tys.iter().all(|t| !mut_ref(*t)) {
                let mut out = vec![];
                let v = e.fresh(st, c.frame, c.bb, "result", Some(peel(c.ret_ty)));
                out.push((st.clone(), v));
                return Some(out);
            }
        }
        None
    }
}
pub fn tracing(r: &mut Report) {
    let Some(ty) = types() else {
        r.error("no trace with a switch to silence it");
        return;
    };
    let fns = local_fns();
    let has_trace_mut = |d: DefId| sig_of(d).0.iter().any(|t| mut_ref(*t) && ty.has(*t, 2));
    let direct: Vec<DefId> = fns.iter().map(|x| x.1).filter(|d| touches_lines(*d, &ty)).collect();
    let mut recorders: Vec<DefId> = direct.iter().copied().filter(|d| has_trace_mut(*d)).collect();
    // helpers of the module: what counts is what their callers do
    let mut i = 0;
    while i < recorders.len() {
        let d = recorders[i];
        let hidden = matches!(tcx().visibility(d), ty::Visibility::Restricted(m) if m.to_def_id() == tcx().parent_module_from_def_id(d.expect_local()).to_def_id());
        let callers: Vec<DefId> = fns.iter().map(|x| x.1).filter(|c| *c != d && own(*c).into_iter().any(|x| direct_calls(x).contains(&d))).collect();
        if hidden && !callers.is_empty() && callers.iter().all(|c| has_trace_mut(*c)) {
            recorders.remove(i);
            for c in callers {
                if !recorders.contains(&c) {
                    recorders.push(c);
                }
            }
        } else {
            i += 1;
        }
    }
    if recorders.len() < 4 {
        r.error(format!("only {} functions record trace lines", recorders.len()));
    }
    // recording functions: nothing when silent, a line when not
    for d in &recorders {
        let ins = sig_of(*d).0;
        let k = ins.iter().position(|t| mut_ref(*t) && ty.has(*t, 2)).unwrap();
        if peel(ins[k]) != ty.trace {
            r.error(format!("{} reaches into a trace from outside", path_of(*d)));
            continue;
        }
        for silent in [true, false] {
            let mut e = Engine::new();
            let mut st = State::default();
            set_tenv(ty::TypingEnv::post_analysis(tcx(), *d));
            let inst = identity_instance(*d);
            let args = sym_args(inst, &mut st);
            let tr = e.snap(&st, args[k], 0);
            e.pinned.extend(tr.syms().iter());
            st.assume(ty.is_silent(tr), silent);
            if let (false, Some(v)) = (silent, ty.is_verbose(tr)) {
                st.assume(v, true);
            }
            let before = ty.lines(tr);
            let a = args[k];
            let rets = e.root(inst, args, st);
            if silent {
                r.roots.push(path_of(*d));
            }
            for (s, _) in &rets {
                let now = ty.lines(e.snap(s, a, 0));
                if silent {
                    rob(r, "C35", *d, "a silent trace stays as it is", s, now == before);
                } else {
                    let g = Lin::of(models::coll_len(now)).sub(&Lin::of(models::coll_len(before)));
                    rob(r, "C35", *d, "a trace that is not silent gets the line", s, s.query(ge0(&g.plus(-1))) == Some(true));
                }
            }
            if rets.is_empty() {
                r.error(format!("{} never returns", path_of(*d)));
            }
            e.findings.clear();
            e.obligations.clear();
            r.take(&mut e);
        }
    }
    // traces are made empty, with the settings given
    for (_, d) in &fns {
        let (ins, out) = sig_of(*d);
        if !ty.has(out, 2) {
            continue;
        }
        let Some(k) = ins.iter().position(|t| peel(*t) == ty.tconf || peel(*t) == ty.trace || struct_fields(peel(*t)).iter().any(|f| f.1 == ty.tconf)) else { continue };
        if mentions_lookup(out) && ins.iter().any(|t| ty.has(*t, 2)) {
            continue;
        }
        let mut e = Engine::new();
        let mut st = State::default();
        set_tenv(ty::TypingEnv::post_analysis(tcx(), *d));
        let inst = identity_instance(*d);
        let args = sym_args(inst, &mut st);
        let given = e.snap(&st, args[k], 0);
        let gt = peel(ins[k]);
        let conf = if gt == ty.tconf {
            given
        } else if gt == ty.trace {
            field(given, STRUCT, ty.conf, Some(ty.tconf))
        } else {
            let i = struct_fields(gt).iter().position(|f| f.1 == ty.tconf).unwrap();
            field(given, STRUCT, i as u32, Some(ty.tconf))
        };
        let want = field(conf, STRUCT, ty.silent, field_ty(ty.tconf, STRUCT, ty.silent).map(peel));
        let rets = e.root(inst, args, st);
        r.roots.push(path_of(*d));
        for (s, v) in &rets {
            let v = e.snap(s, *v, 0);
            let Some(tr) = ty.inside(v, out, 2) else { continue };
            let got = ty.is_silent(tr);
            let same = got == want || s.query(got).is_some() && s.query(got) == s.query(want);
            rob(r, "C35", *d, "a trace is silent when its settings say so", s, same);
            let empty = s.query(eq0(&Lin::of(models::coll_len(ty.lines(tr))))) == Some(true);
            rob(r, "C35", *d, "a new trace is empty", s, empty);
        }
        e.findings.clear();
        e.obligations.clear();
        r.take(&mut e);
    }
    // what is recorded
    let requests = requests();
    let lookups: Vec<DefId> = fns.iter().map(|x| x.1).filter(|d| mentions_lookup(sig_of(*d).1)).collect();
    if requests.is_empty() || lookups.is_empty() {
        r.error("no function sends requests to servers, or none makes a lookup");
        return;
    }
    let mut sites = 0;
    for (_, d) in &fns {
        if lookups.contains(d) || requests.contains(d) || !has_trace_mut(*d) {
            continue;
        }
        let calls: Vec<DefId> = own(*d).into_iter().flat_map(direct_calls).collect();
        if !calls.iter().any(|c| requests.contains(c) || lookups.contains(c)) {
            continue;
        }
        sites += 1;
        for silent in [true, false] {
            let Some(ty) = types() else { return };
            let mut e = Engine::new();
            let mut st = State::default();
            set_tenv(ty::TypingEnv::post_analysis(tcx(), *d));
            let inst = identity_instance(*d);
            let args = sym_args(inst, &mut st);
            let ins = sig_of(*d).0;
            let k = ins.iter().position(|t| mut_ref(*t) && ty.has(*t, 2)).unwrap();
            let whole = e.snap(&st, args[k], 0);
            e.pinned.extend(whole.syms().iter());
            let Some(tr) = ty.inside(whole, ins[k], 2) else { continue };
            st.assume(ty.is_silent(tr), silent);
            let N::Ptr(l, p) = args[k].n() else { continue };
            let mut path = p.clone();
            let mut t = peel(ins[k]);
            while t != ty.trace {
                let fs = struct_fields(t);
                let Some(i) = fs.iter().position(|f| ty.has(f.1, 2)) else { break };
                path.push(Pj::Field(STRUCT, i as u32, fs[i].1));
                t = fs[i].1;
            }
            let start = ty.lines(tr);
            for g in [SENT, BACK, GOOD] {
                st.set(g, boolv(false));
            }
            st.set(V_REQ, int(-1));
            st.set(N_BACK, int(0));
            let h = C35 { requests: requests.clone(), lookups: lookups.clone(), ty, trace: (*l, path), start, silent, writers: recorders.clone() };
            e.hooks = Some(Box::new(h));
            let rets = e.root(inst, args, st);
            if silent {
                r.roots.push(path_of(*d));
            }
            let h = e.hooks.take().map(|h| unsafe { Box::from_raw(Box::into_raw(h) as *mut C35) }).unwrap();
            let (mut v_ok, mut v_err) = (vec![], vec![]);
            for (s, _) in &rets {
                let now = h.now(&e, s);
                if silent {
                    rob(r, "C35", *d, "a silent trace stays as it is", s, now == start);
                    continue;
                }
                if s.get(SENT).as_bool() != Some(true) {
                    continue;
                }
                let g = Lin::of(models::coll_len(now)).sub(&Lin::of(s.get(N_BACK)));
                rob(r, "C35", *d, "what came back is recorded", s, s.query(ge0(&g.plus(-1))) == Some(true));
                let rq = calls.iter().any(|c| requests.contains(c));
                if rq {
                    let k = last_variant(s, now);
                    let other = k.is_some() && k.map(|k| k as i128) != s.get(V_REQ).as_int();
                    rob(r, "C35", *d, "a reply is recorded as one", s, other);
                    if s.get(GOOD).as_bool() == Some(true) { v_ok.push(k) } else { v_err.push(k) }
                }
            }
            if v_ok.iter().any(|k| v_err.contains(k)) {
                rob(r, "C35", *d, "failures are recorded apart from replies", &State::default(), false);
            }
            if rets.is_empty() {
                r.error(format!("{} never returns", path_of(*d)));
            }
            keep(&mut e, "C35");
            r.take(&mut e);
        }
    }
    if sites < 2 {
        r.error("requests or nested lookups are made by no function with a trace");
    }
}
pub fn mentions_lookup(t: Ty) -> bool {
    find_adt("LookupResponse").map(|l| mentions(t, l, 4)).unwrap_or(false)
}
/// the function that asks one server: from a request to a reply
pub fn requests() -> Vec<DefId> {
    let Some(resp) = find_adt("NsResponse") else { return vec![] };
    minimal(&|d| mentions(sig_of(d).1, resp, 3) && reaches_call(d, &["UdpSocket::bind"]))
}
