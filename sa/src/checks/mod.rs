//! The checks.  Each property has an entry in `dispatch`; it runs the abstract interpreter from
//! the entry points it is about, with property-specific hooks, and reports what it found.
use crate::interp::*;
use crate::state::*;
use crate::term::*;
use rustc_hir::def::DefKind;
use rustc_middle::ty::TypeVisitableExt as _;
use rustc_middle::ty::{self, Instance};
use rustc_span::def_id::DefId;
use std::collections::{BTreeMap, BTreeSet};

pub mod aborts;
pub mod base;
pub mod cache;
pub mod conf;
pub mod debug;
pub mod frames;
pub mod handlers;
pub mod layout;
pub mod lookup;
pub mod resolve;
pub mod names;
pub mod net;
pub mod recs;
pub mod resolver;
pub mod tables;
pub mod upstream;
pub mod wire;

#[derive(Default)]
pub struct Report {
    pub findings: Vec<Finding>,
    pub obligations: BTreeMap<String, (usize, bool)>,
    pub fns: BTreeSet<String>,
    pub loops: BTreeSet<String>,
    pub notes: BTreeSet<String>,
    pub roots: Vec<String>,
    pub opaque: BTreeMap<String, usize>,
    pub errors: Vec<String>,
    pub steps: u64,
}
impl Report {
    pub fn take(&mut self, e: &mut Engine) {
        for (_, f) in std::mem::take(&mut e.findings) {
            if !self.findings.iter().any(|g| g.func == f.func && g.kind == f.kind && g.detail == f.detail) {
                self.findings.push(f);
            }
        }
        for (k, v) in std::mem::take(&mut e.obligations) {
            let x = self.obligations.entry(k).or_insert((0, true));
            x.0 += v.0;
            x.1 &= v.1;
        }
        self.fns.append(&mut e.fns);
        self.loops.append(&mut e.loops);
        self.notes.append(&mut e.notes);
        for (k, v) in std::mem::take(&mut e.opaque) {
            *self.opaque.entry(k).or_default() += v;
        }
        self.steps += e.steps;
    }
    pub fn error(&mut self, s: impl Into<String>) {
        self.errors.push(s.into());
    }
}
pub fn crate_name() -> String {
    tcx().crate_name(rustc_span::def_id::LOCAL_CRATE).to_string()
}
/// every function with a body in this crate, by path
pub fn local_fns() -> Vec<(String, DefId)> {
    let mut v = vec![];
    for d in tcx().mir_keys(()) {
        let did = d.to_def_id();
        if matches!(tcx().def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            v.push((path_of(did), did));
        }
    }
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v
}
/// the functions whose path ends with `suffix` (on a path-segment boundary)
pub fn find_all(suffix: &str) -> Vec<DefId> {
    local_fns()
        .into_iter()
        .filter(|(p, _)| p == suffix || p.ends_with(&format!("::{suffix}")) || p.ends_with(&format!("{suffix}")) && suffix.starts_with('<'))
        .map(|x| x.1)
        .collect()
}
pub fn find_fn(suffix: &str) -> Option<DefId> {
    let v = find_all(suffix);
    if v.len() == 1 {
        Some(v[0])
    } else {
        None
    }
}
pub fn identity_instance(d: DefId) -> Instance<'static> {
    let args = ty::GenericArgs::identity_for_item(tcx(), d);
    let args = tcx().erase_and_anonymize_regions(args);
    Instance::new_raw(d, args)
}
/// `d` with every type parameter instantiated by a local type implementing its local trait bound;
/// falls back to the identity instance (and its parameter environment)
pub fn concrete_instance(d: DefId) -> Instance<'static> {
    let id = ty::GenericArgs::identity_for_item(tcx(), d);
    let mut ok = true;
    let preds = tcx().param_env(d);
    let args = tcx().mk_args_from_iter(id.iter().map(|a| {
        let Some(t) = a.as_type() else { return a };
        if !matches!(t.kind(), ty::Param(_)) {
            return a;
        }
        for p in preds.caller_bounds() {
            let Some(tp) = p.as_trait_clause() else { continue };
            let tp = tp.skip_binder();
            if tp.self_ty() != t || !tp.def_id().is_local() {
                continue;
            }
            let mut impls: Vec<DefId> = tcx().all_impls(tp.def_id()).collect();
            impls.sort_by_key(|x| path_of(*x));
            for i in impls {
                let it = tcx().type_of(i).instantiate_identity().skip_norm_wip();
                if matches!(it.kind(), ty::Adt(..)) && !it.has_param() {
                    return it.into();
                }
            }
        }
        ok = false;
        a
    }));
    if !ok {
        set_tenv(ty::TypingEnv::post_analysis(tcx(), d));
        return identity_instance(d);
    }
    set_tenv(ty::TypingEnv::fully_monomorphized());
    Instance::new_raw(d, tcx().erase_and_anonymize_regions(args))
}
/// symbolic arguments for a function: `&mut` parameters point to fresh cells of frame 1
pub fn sym_args(inst: Instance<'static>, st: &mut State) -> Vec<V> {
    let sig = tcx().fn_sig(inst.def_id()).instantiate(tcx(), inst.args).skip_norm_wip();
    let sig = tcx().instantiate_bound_regions_with_erased(sig);
    let sig = norm_sig(sig);
    let body = tcx().optimized_mir(inst.def_id());
    let mut out = vec![];
    for (i, t) in sig.inputs().iter().enumerate() {
        let mut name = format!("arg{i}");
        for vdi in &body.var_debug_info {
            if vdi.argument_index == Some(i as u16 + 1) {
                name = vdi.name.to_string();
            }
        }
        let t = norm(*t);
        out.push(sym_arg(st, &name, t, i as u32));
    }
    out
}
fn norm_sig(s: ty::FnSig<'static>) -> ty::FnSig<'static> {
    tcx().erase_and_anonymize_regions(s)
}
pub fn sym_arg(st: &mut State, name: &str, t: Ty, i: u32) -> V {
    if let ty::Ref(_, x, m) = t.kind() {
        if m.is_mut() {
            let l = Loc(1, i + 1);
            st.set(l, sym(name, peel(*x)));
            return ptr(l, vec![]);
        }
    }
    sym(name, peel(t))
}
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    format!("\"{o}\"")
}
fn arr<T>(v: impl IntoIterator<Item = T>, f: impl Fn(T) -> String) -> String {
    format!("[{}]", v.into_iter().map(f).collect::<Vec<_>>().join(","))
}
pub fn json(r: &Report, prop: &str, ms: u128) -> String {
    let fnd = arr(&r.findings, |f| {
        format!(
            "{{\"func\":{},\"kind\":{},\"detail\":{},\"line\":{},\"trace\":{},\"facts\":{}}}",
            esc(&f.func), esc(&f.kind), esc(&f.detail), esc(&f.line), arr(&f.trace, |x| esc(x)), esc(&f.facts.chars().take(2000).collect::<String>())
        )
    });
    let ob = arr(&r.obligations, |(k, v)| format!("[{},{},{}]", esc(k), v.0, v.1));
    format!(
        "{{\"property\":{},\"crate\":{},\"findings\":{},\"obligations\":{},\"functions\":{},\"loops\":{},\"notes\":{},\"roots\":{},\"opaque\":{},\"errors\":{},\"steps\":{},\"ms\":{}}}\n",
        esc(prop), esc(&crate_name()), fnd, ob, arr(&r.fns, |x| esc(x)), arr(&r.loops, |x| esc(x)), arr(&r.notes, |x| esc(x)), arr(&r.roots, |x| esc(x)),
        arr(&r.opaque, |(k, v)| format!("[{},{}]", esc(k), v)), arr(&r.errors, |x| esc(x)), r.steps, ms
    )
}
type Check = fn(&mut Report);
fn dispatch(prop: &str) -> Option<Check> {
    Some(match prop {
        "C01" => |r| wire::run(r, "C01"),
        "C02" => |r| wire::run(r, "C02"),
        "C19" => |r| cache::run(r, "C19"),
        "C39" if crate_name() != "ariadne_dns" => cache::run_bin,
        "C39" => |r| cache::run(r, "C39"),
        "C22" => net::locks,
        "C27" if crate_name() != "ariadne_dns" => net::plumbing,
        "C27" => |r| {
            net::timeouts(r);
            net::plumbing(r);
        },
        "C28" => net::pool,
        "C35" => resolver::tracing,
        "C30" if crate_name() != "ariadne_dns" => conf::bin,
        "C30" => conf::lib,
        "C23" => upstream::replies,
        "C29" => net::together,
        "C34" => |r| wire::run(r, "C34"),
        "C05" => layout::header,
        "C06" => |r| layout::entries(r, "C06"),
        "C07" => |r| layout::entries(r, "C07"),
        "C04" => tables::run,
        "C08" => frames::udp,
        "C09" => frames::tcp,
        "C11" => |r| handlers::run(r, "C11", &[true, false]),
        "C12" => |r| handlers::run(r, "C12", &[true, false]),
        "C13" => |r| handlers::run(r, "C13", &[true, false]),
        "C14" => |r| handlers::run(r, "C14", &[true, false]),
        "C15" => |r| handlers::run(r, "C15", &[true]),
        "C03" => names::made,
        "C18" => names::containment,
        "C16" => aborts::nameserver,
        "C17" => |r| handlers::run(r, "C17", &[false]),
        "C24" => |r| {
            lookup::referrals(r);
            resolve::run(r, "C24");
        },
        "C21" => |r| resolve::run(r, "C21"),
        "C25" => |r| {
            handlers::run(r, "C25", &[false]);
            upstream::run(r, "C25");
            resolve::run(r, "C25");
        },
        "C26" => |r| {
            handlers::run(r, "C26", &[false]);
            resolve::run(r, "C26");
        },
        "C20" => |r| {
            cache::run(r, "C20");
            resolve::run(r, "C20");
        },
        "C36" => |r| handlers::run(r, "C36", &[true]),
        "C10" => |r| {
            handlers::run(r, "C10", &[true, false]);
            frames::counts(r);
        },
        _ => return None,
    })
}
pub fn main() {
    if let Ok(m) = std::env::var("SA_MODE") {
        debug::run(&m);
        return;
    }
    let (Ok(props), Ok(out)) = (std::env::var("SA_PROP"), std::env::var("SA_OUT")) else { return };
    for prop in props.split(',') {
        let Some(f) = dispatch(prop) else { continue };
        let t0 = std::time::Instant::now();
        let mut r = Report::default();
        f(&mut r);
        let s = json(&r, prop, t0.elapsed().as_millis());
        let p = format!("{out}/{prop}.{}.json", crate_name());
        if let Err(x) = std::fs::write(&p, s) {
            eprintln!("cannot write {p}: {x}");
        }
    }
}
