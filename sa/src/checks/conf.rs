//! Configurations (C30): what is accepted is validated, and nothing else is used.
use super::base::*;
use super::frames::{either, reaches_call};
use super::net::{fob, uses};
use super::wire::{rob, sig_of};
use super::*;
use crate::models;

const BAD: Loc = Loc(0, 100);
const NAMED: Loc = Loc(0, 101);
const C_OK: Loc = Loc(0, 102);
const C_ERR: Loc = Loc(0, 103);

fn result_of(t: Ty) -> Option<Ty> {
    match peel(t).kind() {
        ty::Adt(a, g) if path_of(a.did()) == "std::result::Result" => Some(peel(norm(g.type_at(0)))),
        _ => None,
    }
}
fn is_conf(t: Ty) -> bool {
    matches!(t.kind(), ty::Adt(a, _) if a.is_struct() && local_crate(a.did()) && !a.non_enum_variant().fields.is_empty() && path_of(a.did()).contains("onf"))
}
fn is_name(t: Ty) -> bool {
    adt_path(t).map(|p| p.ends_with("::Name")).unwrap_or(false)
}
/// functions that load a configuration
fn loaders() -> Vec<(DefId, Ty)> {
    let mut v = vec![];
    for (_, d) in local_fns() {
        let Some(t) = result_of(sig_of(d).1) else { continue };
        if is_conf(t) && reaches_call(d, &["std::fs::", "std::io::"]) {
            v.push((d, t));
        }
    }
    v
}
/// (path of the field, value) of the integer fields that must not be zero; lists of structs; texts that name a zone
struct Fields {
    nums: Vec<(String, V)>,
    zones: Vec<(String, V)>,
    lists: Vec<(String, V)>,
}
fn fields(v: V, t: Ty, path: &str, out: &mut Fields, d: u32) {
    let ty::Adt(a, g) = t.kind() else { return };
    if d == 0 || !a.is_struct() || !local_crate(a.did()) {
        return;
    }
    for (i, f) in a.non_enum_variant().fields.iter().enumerate() {
        let ft = peel(norm(f.ty(tcx(), g).skip_norm_wip()));
        let n = f.name.to_string();
        let p = if path.is_empty() { n.clone() } else { format!("{path}.{n}") };
        let x = field(v, STRUCT, i as u32, Some(ft));
        if is_int(ft) {
            if n != "port" && !n.contains("ttl") {
                out.nums.push((p, x));
            }
        } else if adt_path(ft).as_deref() == Some("std::string::String") {
            if n == "zone" {
                out.zones.push((p, x));
            }
        } else if let Some(et) = crate::interp::elem_ty(ft) {
            if let ty::Adt(b, _) = et.kind() {
                if b.is_struct() && b.non_enum_variant().fields.iter().any(|f| f.name.as_str() == "zone") {
                    out.lists.push((p, x));
                }
            }
        } else {
            fields(x, ft, &p, out, d - 1);
        }
    }
}
fn named(s: V) -> V {
    bool_app("zone_name_ok", vec![s])
}
/// the element a value is (part of)
fn elem_of(v: V) -> Option<(V, V)> {
    match v.n() {
        N::App(f, a) if *f == "elem" => Some((a[0], a[1])),
        N::Field(x, ..) => elem_of(*x),
        _ => None,
    }
}
fn names_call(c: &Call) -> bool {
    result_of(c.ret_ty).map(is_name).unwrap_or(false) && c.args.len() == 1 && c.arg_tys.first().map(|t| matches!(peel(*t).kind(), ty::Str) || adt_path(peel(*t)).as_deref() == Some("std::string::String")).unwrap_or(false)
}
struct Load {
    list: Option<V>,
}
impl Hooks for Load {
    fn call(&mut self, e: &mut Engine, st: &State, c: &Call) -> Option<Vec<(State, V)>> {
        let from = c.name.starts_with("std::fs::") || c.name.contains("serde_json::") || c.tm.map(|t| t.starts_with("std::io::")).unwrap_or(false) || c.name.starts_with("std::io::");
        if from && result_of(c.ret_ty).is_some() && !c.name.contains("Error") {
            let mut out = either(e, st, c);
            out[1].0.set(BAD, boolv(true));
            return Some(out);
        }
        if names_call(c) {
            let s = e.snap(st, c.args[0], 0);
            let mut out = either(e, st, c);
            out[0].0.assume(named(s), true);
            if let Some((cl, i)) = elem_of(s) {
                let n = out[0].0.get(NAMED);
                if self.list.map(|l| l == cl).unwrap_or(true) && !n.is_uninit() && st.query(eq0(&Lin::of(i).sub(&Lin::of(n)))) == Some(true) {
                    out[0].0.set(NAMED, Lin::of(n).plus(1).v());
                }
            }
            return Some(out);
        }
        None
    }
}
pub fn lib(r: &mut Report) {
    let ls = loaders();
    if ls.len() < 2 {
        r.error(format!("expected two functions that load a configuration, found {}", ls.len()));
    }
    for (d, t) in ls {
        let mut e = Engine::new();
        let mut st = State::default();
        set_tenv(ty::TypingEnv::post_analysis(tcx(), d));
        let inst = identity_instance(d);
        let args = sym_args(inst, &mut st);
        st.set(BAD, boolv(false));
        st.set(NAMED, int(0));
        e.hooks = Some(Box::new(Load { list: None }));
        let rets = e.root(inst, args, st);
        r.roots.push(path_of(d));
        let mut oks = 0;
        for (s, v) in &rets {
            if s.query(is_var(*v, 0)) == Some(false) {
                continue;
            }
            oks += 1;
            let cv = e.snap(s, field(*v, 0, 0, Some(t)), 0);
            rob(r, "C30", d, "a file that cannot be read or parsed is no configuration", s, s.get(BAD).as_bool() == Some(false));
            let mut f = Fields { nums: vec![], zones: vec![], lists: vec![] };
            fields(cv, t, "", &mut f, 5);
            for (p, x) in &f.nums {
                rob(r, "C30", d, &format!("an accepted configuration has {p} > 0"), s, s.query(eq0(&Lin::of(*x))) == Some(false));
            }
            for (p, x) in &f.zones {
                rob(r, "C30", d, &format!("the {p} of an accepted configuration is a domain name"), s, s.query(named(*x)) == Some(true));
            }
            for (p, x) in &f.lists {
                let n = Lin::of(models::coll_len(*x));
                rob(r, "C30", d, &format!("every zone in {p} of an accepted configuration is a domain name"), s, s.query(eq0(&n.sub(&Lin::of(s.get(NAMED))))) == Some(true));
            }
            if f.nums.len() < 4 {
                r.error(format!("{} has too few limits", path_of(d)));
            }
        }
        if oks == 0 {
            r.error(format!("{} accepts nothing", path_of(d)));
        }
        keep(&mut e, "C30");
        r.take(&mut e);
    }
}
// ---- the programs -----------------------------------------------------------------------------
struct Bin {
    conf: Option<V>,
    starts: usize,
}
impl Hooks for Bin {
    fn call(&mut self, e: &mut Engine, st: &State, c: &Call) -> Option<Vec<(State, V)>> {
        let d = c.inst.map(|i| i.def_id()).or(c.def)?;
        let good = st.get(C_OK).as_bool() == Some(true);
        if c.name == "std::process::exit" {
            let code = e.snap(st, c.args[0], 0);
            if st.get(C_ERR).as_bool() == Some(true) {
                fob(e, "C30", st, c.frame, c.span, "a bad configuration ends the program with an error", st.query(eq0(&Lin::of(code))) == Some(false));
            }
            return None;
        }
        if let Some(t) = result_of(c.ret_ty) {
            if is_conf(t) {
                let mut out = either(e, st, c);
                out[0].0.set(C_OK, boolv(true));
                out[1].0.set(C_ERR, boolv(true));
                self.conf = Some(field(out[0].1, 0, 0, Some(t)));
                if let Some(x) = self.conf {
                    e.pinned.extend(x.syms().iter());
                }
                return Some(out);
            }
        }
        if names_call(c) && !d.is_local() {
            let s = e.snap(st, c.args[0], 0);
            let mut out = either(e, st, c);
            let of_conf = match s.n() {
                N::Field(x, k, i) => field_name(*x, *k, *i) == "zone",
                _ => false,
            } && good;
            if of_conf {
                out.truncate(1);
            }
            return Some(out);
        }
        if c.name.contains("std::thread::") && c.name.ends_with("spawn") {
            fob(e, "C30", st, c.frame, c.span, "nothing is started before the configuration was accepted", good);
        }
        if !d.is_local() && (local_crate(d) || c.name.starts_with("std::net::") || c.name.starts_with("std::fs::")) {
            let starts = !local_crate(d) || reaches_call(d, &["std::thread::spawn", "thread::Builder::spawn", "std::net::", "std::fs::"]);
            if starts {
                self.starts += 1;
                fob(e, "C30", st, c.frame, c.span, "nothing is started before the configuration was accepted", good);
            }
            if c.ret_ty.is_never() {
                return None;
            }
            let v = e.fresh(st, c.frame, c.bb, "result", Some(peel(c.ret_ty)));
            return Some(vec![(st.clone(), v)]);
        }
        None
    }
}
pub fn bin(r: &mut Report) {
    let Some((d, _)) = tcx().entry_fn(()) else { return };
    let mut e = Engine::new();
    let mut st = State::default();
    st.set(C_OK, boolv(false));
    st.set(C_ERR, boolv(false));
    let inst = identity_instance(d);
    e.hooks = Some(Box::new(Bin { conf: None, starts: 0 }));
    let rets = e.root(inst, vec![], st);
    r.roots.push(format!("{} ({})", path_of(d), crate_name()));
    for (s, _) in &rets {
        rob(r, "C30", d, "a bad configuration ends the program with an error", s, s.get(C_ERR).as_bool() == Some(false));
    }
    if !e.obligations.keys().any(|k| k.starts_with("nothing is started")) {
        r.error("the program starts nothing");
    }
    if !e.obligations.keys().any(|k| k.starts_with("a bad configuration ends")) {
        r.error("the program loads no configuration");
    }
    // an accepted configuration is not refused later on
    let own: Vec<String> = local_fns().into_iter().map(|x| x.0).collect();
    for f in e.findings.values_mut() {
        if is_panic_ob(&f.kind) && own.iter().any(|o| *o == f.func || f.func.starts_with(&format!("{o}::"))) && f.kind.contains("unwrap") {
            f.kind = "C30".into();
            f.detail = format!("an accepted configuration is used without failing: {}", f.detail);
        }
    }
    let _ = uses;
    e.findings.retain(|_, f| f.kind == "C30");
    r.take(&mut e);
}
