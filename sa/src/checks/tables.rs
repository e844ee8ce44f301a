//! C04: the code tables.  Every conversion between a code type and its number or text is
//! interpreted over a symbolic input; the relation it implements is compared with the standard's.
use super::*;

const TYPES: &[(&str, i128, &str)] = &[
    ("A", 1, "A"), ("NS", 2, "NS"), ("MD", 3, "MD"), ("MF", 4, "MF"), ("CNAME", 5, "CNAME"), ("SOA", 6, "SOA"), ("MB", 7, "MB"),
    ("MG", 8, "MG"), ("MR", 9, "MR"), ("NULL", 10, "NULL"), ("WKS", 11, "WKS"), ("PTR", 12, "PTR"), ("HINFO", 13, "HINFO"),
    ("MINFO", 14, "MINFO"), ("MX", 15, "MX"), ("TXT", 16, "TXT"), ("AXFR", 252, "AXFR"), ("MAILB", 253, "MAILB"), ("MAILA", 254, "MAILA"),
    ("WC", 255, "*"),
];
const CLASSES: &[(&str, i128, &str)] = &[("IN", 1, "IN"), ("CS", 2, "CS"), ("CH", 3, "CH"), ("HS", 4, "HS"), ("WC", 255, "*")];
const OPS: &[(&str, i128, &str)] = &[("STD", 0, ""), ("INV", 1, ""), ("STS", 2, "")];
const RCODES: &[(&str, i128, &str)] = &[("NoError", 0, ""), ("FormErr", 1, ""), ("ServFail", 2, ""), ("NxDomain", 3, ""), ("NotImp", 4, ""), ("Refused", 5, "")];
const REC_OK: &[&str] = &["A", "NS", "CNAME", "SOA", "WKS", "PTR", "HINFO", "MX", "TXT"];

pub fn table_of(name: &str) -> &'static [(&'static str, i128, &'static str)] {
    match name {
        "RecordType" => TYPES,
        "Class" => CLASSES,
        "OpCode" => OPS,
        _ => RCODES,
    }
}
/// the number of a code type's variant
pub fn num(ty: &str, variant: &str) -> Option<i128> {
    table_of(ty).iter().find(|x| x.0 == variant).map(|x| x.1)
}

struct Fns {
    to_num: Vec<DefId>,
    from_num: Vec<DefId>,
    to_str: Vec<DefId>,
    from_str: Vec<DefId>,
    preds: Vec<(String, DefId)>,
}
/// the functions of the crate that convert `t`, recognised by their signatures
fn fns_of(t: Ty) -> Fns {
    let mut f = Fns { to_num: vec![], from_num: vec![], to_str: vec![], from_str: vec![], preds: vec![] };
    for (p, d) in local_fns() {
        if tcx().generics_of(d).own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)) {
            continue;
        }
        // methods of the type itself
        let Some(imp) = tcx().impl_of_assoc(d) else { continue };
        if tcx().impl_opt_trait_ref(imp).is_some() || norm(tcx().type_of(imp).instantiate_identity().skip_norm_wip()) != t {
            continue;
        }
        let sig = tcx().instantiate_bound_regions_with_erased(tcx().fn_sig(d).instantiate_identity().skip_norm_wip());
        let (i, o) = (sig.inputs().to_vec(), norm(sig.output()));
        if i.len() != 1 {
            continue;
        }
        let a = norm(i[0]);
        let ok_of = |o: Ty| -> bool {
            matches!(o.kind(), ty::Adt(_, g) if (adt_path(o).as_deref() == Some("std::result::Result") || adt_path(o).as_deref() == Some("std::option::Option")) && g.types().next().map(|x| norm(x)) == Some(t))
        };
        if peel(a) == t {
            if is_int(o) {
                f.to_num.push(d)
            } else if peel(o).is_str() || adt_path(o).as_deref() == Some("std::string::String") {
                f.to_str.push(d)
            } else if o.is_bool() {
                f.preds.push((p, d))
            }
        } else if ok_of(o) {
            if is_int(a) {
                f.from_num.push(d)
            } else if peel(a).is_str() {
                f.from_str.push(d)
            }
        }
    }
    f
}
fn go(r: &mut Report, d: DefId) -> (Vec<(State, V)>, V) {
    go_with(r, d, |_, _, a| a)
}
/// one run with the first argument restricted or replaced by `init`
fn go_with(r: &mut Report, d: DefId, init: impl Fn(&mut Engine, &mut State, V) -> V) -> (Vec<(State, V)>, V) {
    let mut e = Engine::new();
    e.unroll = 64;
    e.hooks = Some(Box::new(base::Base));
    let mut st = State::default();
    let inst = concrete_instance(d);
    let mut args = sym_args(inst, &mut st);
    for a in &args {
        e.pinned.extend(a.syms().iter());
    }
    args[0] = init(&mut e, &mut st, args[0]);
    let a = args[0];
    let out = e.root(inst, args, st);
    r.roots.push(path_of(d));
    r.take(&mut e);
    (out, a)
}
fn ob(r: &mut Report, d: DefId, text: String, ok: bool) {
    let x = r.obligations.entry(format!("{text} [{}]", path_of(d))).or_insert((0, true));
    x.0 += 1;
    x.1 &= ok;
    if !ok {
        let sp = Engine::new().span_str(tcx().def_span(d));
        if !r.findings.iter().any(|f| f.kind == "C04" && f.detail == text) {
            r.findings.push(Finding { func: path_of(d), kind: "C04".into(), detail: text, line: sp, trace: vec![], facts: String::new() });
        }
    }
}
fn variant_of(st: &State, v: V) -> Option<u32> {
    if let Some((k, _)) = v.fields() {
        return Some(k);
    }
    let m = st.facts.mask(v);
    if m.count_ones() == 1 {
        Some(m.trailing_zeros())
    } else {
        None
    }
}
/// the argument (a value of type `t`, or a reference to one) restricted to variant `k`
pub fn pin_variant(e: &mut Engine, st: &mut State, a: V, t: Ty, k: u32) -> V {
    let v = e.deref(st, a);
    let n = t.ty_adt_def().and_then(|d| d.variants().iter().nth(k as usize).map(|v| v.fields.len())).unwrap_or(0) as u32;
    let cv = adt(k, (0..n).map(|i| field(v, k, i, field_ty(t, k, i).map(peel))).collect(), Some(t));
    if let N::Ptr(l, p) = a.n() {
        let (l, p) = (*l, p.clone());
        e.store(st, l, &p, cv);
        a
    } else {
        cv
    }
}
pub fn run(r: &mut Report) {
    if crate_name() != "ariadne_dns" {
        return;
    }
    for name in ["RecordType", "Class", "OpCode", "RespCode"] {
        let Some(t) = base::find_adt(name) else {
            r.error(format!("type {name} not found"));
            continue;
        };
        let tab = table_of(name);
        let vname = |k: u32| variant_name(Some(t), k);
        let nvar = t.ty_adt_def().map(|d| d.variants().len()).unwrap_or(0);
        let f = fns_of(t);
        if f.to_num.is_empty() || f.from_num.is_empty() {
            r.error(format!("the number conversions of {name} were not found"));
        }
        for d in f.to_num {
            for k in 0..nvar as u32 {
                let (outs, _) = go_with(r, d, |e, st, a| pin_variant(e, st, a, t, k));
                let want = tab.iter().find(|x| x.0 == vname(k)).map(|x| x.1);
                let ok = !outs.is_empty() && want.is_some() && outs.iter().all(|(_, v)| v.as_int() == want);
                ob(r, d, format!("{name}::{} is numbered {}", vname(k), want.map(|x| x.to_string()).unwrap_or("?".into())), ok);
            }
        }
        for d in f.from_num {
            let sig = tcx().instantiate_bound_regions_with_erased(tcx().fn_sig(d).instantiate_identity().skip_norm_wip());
            let (lo, hi) = crate::facts::ty_range(sig.inputs()[0]).unwrap_or((0, 65535));
            let kind = |s: &State, v: V| v.ty().and_then(|t| variant_of(s, v).map(|k| variant_name(Some(t), k))).unwrap_or_default();
            for w in tab {
                let (outs, _) = go_with(r, d, |_, _, _| int(w.1));
                let ok = !outs.is_empty()
                    && outs.iter().all(|(s, v)| match (kind(s, *v).as_str(), v.fields()) {
                        ("Ok" | "Some", Some((_, p))) => variant_of(s, p[0]).map(vname).as_deref() == Some(w.0),
                        _ => false,
                    });
                ob(r, d, format!("number {} is read as {name}::{}", w.1, w.0), ok);
            }
            // the intervals between assigned codes
            let mut codes: Vec<i128> = tab.iter().map(|w| w.1).collect();
            codes.sort();
            let mut from = lo;
            codes.push(hi + 1);
            for c in codes {
                if c > from {
                    let (a0, b0) = (from, c - 1);
                    let (outs, a) = go_with(r, d, |_, st, a| {
                        st.assume(ge0(&Lin::of(a).plus(-a0)), true);
                        st.assume(ge0(&Lin::of(a).scale(-1).plus(b0)), true);
                        a
                    });
                    let ok = !outs.is_empty() && outs.iter().all(|(s, v)| matches!(kind(s, *v).as_str(), "Err" | "None"));
                    ob(r, d, format!("numbers {a0} to {b0} are rejected as no {name}"), ok);
                    for (s, v) in &outs {
                        if let ("Err", Some((_, p))) = (kind(s, *v).as_str(), v.fields()) {
                            if v.ty().map(|t| matches!(t.kind(), ty::Adt(_, g) if g.types().nth(1).map(is_int).unwrap_or(false))).unwrap_or(false) {
                                let ok = s.query(eq0(&Lin::of(a).sub(&Lin::of(p[0])))) == Some(true);
                                ob(r, d, format!("a rejected {name} number is reported unchanged"), ok);
                            }
                        }
                    }
                }
                from = c + 1;
            }
        }
        if tab[0].2.is_empty() {
            continue;
        }
        for d in f.to_str {
            for k in 0..nvar as u32 {
                let (outs, _) = go_with(r, d, |e, st, a| pin_variant(e, st, a, t, k));
                let want = tab.iter().find(|x| x.0 == vname(k)).map(|x| x.2);
                let ok = !outs.is_empty() && want.is_some() && outs.iter().all(|(_, v)| matches!(v.n(), N::Str(s) if Some(*s) == want));
                ob(r, d, format!("{name}::{} is written {}", vname(k), want.unwrap_or("?")), ok);
            }
        }
        for d in f.from_str {
            let (outs, a) = go(r, d);
            let mut seen = BTreeSet::new();
            let is = |s: &State, w: &str| s.query(eqv(a, intern(N::Str(sym_str(w)), a.ty()))).or(s.query(eqv(a, intern(N::Str(sym_str(w)), None))));
            for (s, v) in &outs {
                let err = v.ty().and_then(|t| variant_of(s, *v).map(|k| variant_name(Some(t), k))).unwrap_or_default();
                match (err.as_str(), v.fields()) {
                    ("Ok" | "Some", Some((_, p))) => {
                        let k = variant_of(s, p[0]);
                        let want = k.and_then(|k| tab.iter().find(|x| x.0 == vname(k)));
                        let ok = want.map(|w| is(s, w.2) == Some(true)).unwrap_or(false);
                        if let Some(w) = want {
                            seen.insert(w.0);
                        }
                        ob(r, d, format!("a text is read as {name}::{} only if it is {}", k.map(vname).unwrap_or("?".into()), want.map(|w| w.2).unwrap_or("?")), ok);
                    }
                    ("Err" | "None", _) => {
                        let ok = tab.iter().all(|w| is(s, w.2) == Some(false));
                        ob(r, d, format!("only texts outside the {name} table are rejected"), ok);
                    }
                    _ => ob(r, d, format!("the {name} reader either accepts or rejects"), false),
                }
            }
            for w in tab {
                ob(r, d, format!("text {} is read as {name}::{}", w.2, w.0), seen.contains(w.0));
            }
        }
        for (p, d) in f.preds {
            let last = p.rsplit("::").next().unwrap_or("").to_string();
            let sup: Option<&[&str]> = match (name, last.as_str()) {
                ("RecordType", "is_supported_for_records") | ("RecordType", "is_supported_for_question") => Some(REC_OK),
                ("Class", "is_supported") => Some(&["IN"]),
                ("OpCode", "is_supported") => Some(&["STD"]),
                _ => None,
            };
            let Some(sup) = sup else { continue };
            for k in 0..nvar as u32 {
                let (outs, _) = go_with(r, d, |e, st, a| pin_variant(e, st, a, t, k));
                let want = sup.contains(&vname(k).as_str());
                let ok = !outs.is_empty() && outs.iter().all(|(s, v)| v.as_bool().or(s.query(*v)) == Some(want));
                ob(r, d, format!("{name}::{} {} ({last})", vname(k), if want { "is supported" } else { "is not supported" }), ok);
            }
        }
    }
    r.findings.retain(|f| f.kind == "C04");
    r.obligations.retain(|k, _| !base::is_panic_ob(k));
}
