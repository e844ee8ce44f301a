//! Contracts shared by the checks: pure predicates of the crate that stay uninterpreted while
//! callers are analysed (their own bodies are analysed by the check named next to each).
use super::*;

pub fn bool_app(f: &str, a: Vec<V>) -> V {
    app(f, a, Some(tcx().types.bool))
}
/// zone containment: body decided by C18
pub fn in_zone(a: V, b: V) -> V {
    if a == b {
        return boolv(true);
    }
    bool_app("in_zone", vec![a, b])
}
pub fn base_call(e: &mut Engine, st: &State, c: &Call) -> Option<Vec<(State, V)>> {
    if c.name.ends_with("dns::name::Name::is_in_zone") && c.args.len() == 2 {
        let a = e.snap(st, c.args[0], 0);
        let b = e.snap(st, c.args[1], 0);
        return Some(vec![(st.clone(), in_zone(a, b))]);
    }
    None
}
pub struct Base;
impl Hooks for Base {
    fn call(&mut self, e: &mut Engine, st: &State, c: &Call) -> Option<Vec<(State, V)>> {
        base_call(e, st, c)
    }
}
/// a named type of the analysed crate (without generic parameters)
pub fn find_ty(suffix: &str) -> Option<Ty> {
    find_adt_id(suffix).map(|d| tcx().type_of(d).instantiate_identity().skip_norm_wip())
}
pub fn find_adt(suffix: &str) -> Option<Ty> {
    find_adt_id(suffix).map(|d| tcx().erase_and_anonymize_regions(tcx().type_of(d).instantiate_identity().skip_norm_wip()))
}
pub fn find_adt_id(suffix: &str) -> Option<DefId> {
    thread_local! { static C: std::cell::RefCell<Option<Vec<(String, DefId)>>> = const { std::cell::RefCell::new(None) }; }
    C.with(|c| {
        let mut c = c.borrow_mut();
        if c.is_none() {
            let mut v = vec![];
            for i in tcx().hir_crate_items(()).free_items() {
                let d = i.owner_id.to_def_id();
                if matches!(tcx().def_kind(d), DefKind::Struct | DefKind::Enum) {
                    v.push((path_of(d), d));
                }
            }
            *c = Some(v);
        }
        let v: Vec<DefId> = c.as_ref().unwrap().iter().filter(|(p, _)| p == suffix || p.ends_with(&format!("::{suffix}"))).map(|x| x.1).collect();
        if v.len() == 1 {
            Some(v[0])
        } else {
            None
        }
    })
}
/// field by name of a struct (or of a variant) value
pub fn getf(_st: &State, v: V, t: Ty, variant: u32, name: &str) -> V {
    match field_index(t, variant, name) {
        Some(i) => field(v, variant, i, field_ty(t, variant, i).map(peel)),
        None => uninit(),
    }
}
/// the two values are known to be equal
pub fn same(e: &mut Engine, st: &State, a: V, b: V) -> bool {
    if a.is_uninit() || b.is_uninit() {
        return false;
    }
    if a == b {
        return true;
    }
    let t = a.ty().or(b.ty());
    if t.map(is_int).unwrap_or(false) || matches!(a.n(), N::Lin(..)) || matches!(b.n(), N::Lin(..)) {
        return st.query(eq0(&Lin::of(a).sub(&Lin::of(b)))) == Some(true);
    }
    if let (N::Bool(_), _) | (_, N::Bool(_)) = (a.n(), b.n()) {
        return st.query(a).is_some() && st.query(a) == st.query(b);
    }
    if fieldless(t) {
        let (m1, m2) = (st.facts.mask(a), st.facts.mask(b));
        if m1 == m2 && m1.count_ones() == 1 {
            return true;
        }
    }
    if st.query(eqv(a, b)) == Some(true) {
        return true;
    }
    if let Some(t) = t {
        if matches!(t.kind(), ty::Adt(d, _) if d.is_struct() && local_crate(d.did())) && (a.fields().is_some() || b.fields().is_some()) {
            return same_struct(e, st, a, b, t);
        }
    }
    false
}
pub fn same_struct(e: &mut Engine, st: &State, a: V, b: V, t: Ty) -> bool {
    if a == b {
        return true;
    }
    let n = match t.kind() {
        ty::Adt(d, _) if d.is_struct() => d.non_enum_variant().fields.len() as u32,
        _ => return false,
    };
    (0..n).all(|i| {
        let ft = field_ty(t, STRUCT, i).map(peel);
        let (x, y) = (field(a, STRUCT, i, ft), field(b, STRUCT, i, ft));
        same(e, st, x, y)
    })
}
pub const PANICS: &[&str] = &["panic", "unwrap", "expect", "index out of bounds", "copy length", "insert out", "range out", "remove out", "split out", "arithmetic overflow", "division by zero", "remainder by zero", "shift overflow", "assertion", "range overflow", "slice", "str ", "string"];
pub fn is_panic_ob(k: &str) -> bool {
    PANICS.iter().any(|p| k.starts_with(p))
}

thread_local! { pub static ABORTS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// leave what the property is about: its own findings, or, when panics are, those
pub fn keep(e: &mut Engine, prop: &str) {
    if ABORTS.get() {
        e.findings.retain(|_, f| is_panic_ob(&f.kind));
        e.obligations.retain(|k, _| is_panic_ob(k));
        return;
    }
    e.findings.retain(|_, f| if prop.is_empty() { !is_panic_ob(&f.kind) } else { f.kind == prop });
    e.obligations.retain(|k, _| !is_panic_ob(k));
}
