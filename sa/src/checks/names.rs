//! Names: every name value was validated and the validation lets no malformed text through (C03);
//! zone containment compares whole labels (C18).  The predicates are decided by refutation: an
//! arbitrary text with a given defect is assumed, and no path may accept it.
use super::base::*;
use super::layout::{direct_calls, reachable};
use super::wire::{rob, sig_of};
use super::*;
use crate::models;
use rustc_span::Span;
use std::collections::{HashMap, HashSet};

fn name_ty() -> Option<Ty> {
    find_adt("dns::name::Name")
}
fn text(n: V, t: Ty) -> V {
    field(n, STRUCT, 0, field_ty(t, STRUCT, 0).map(peel))
}
fn str_slice() -> Ty {
    Ty::new_slice(tcx(), tcx().types.str_)
}
fn labels(s: V) -> V {
    app("labels", vec![s], Some(str_slice()))
}
fn is_dot(v: V) -> bool {
    matches!(v.n(), N::Str(s) if *s == ".") || v.as_int() == Some('.' as i128)
}
/// an element of a collection, not further known
fn el(v: V) -> Option<(V, V)> {
    match v.n() {
        N::App(f, a) if *f == "elem" && a.len() == 2 => Some((a[0], a[1])),
        _ => None,
    }
}
fn iter_of(coll: V) -> V {
    model("iter", vec![coll, int(0), models::coll_len(coll)])
}

// ---- refutation of a validator ----------------------------------------------------------------
struct R {
    s: V,
    label: V,
    k: V,
    /// where the bad character is
    j: V,
    ch: V,
    nochar: bool,
}
impl Hooks for R {
    fn call(&mut self, e: &mut Engine, st: &State, c: &Call) -> Option<Vec<(State, V)>> {
        let m = c.name.rsplit("::").next().unwrap_or("");
        if c.name.contains("<impl str>::") && ["split", "rsplit", "split_terminator", "rsplit_terminator"].contains(&m) && is_dot(e.snap(st, c.args[1], 0)) {
            let x = e.snap(st, c.args[0], 0);
            let l = labels(self.s);
            let n = Lin::of(models::coll_len(l));
            let body = match x.n() {
                N::App(f, a) if *f == "substr" && a[0] == self.s => st.query(eq0(&Lin::of(a[1]))) == Some(true) && st.query(eq0(&Lin::of(a[2]).plus(1).sub(&Lin::of(models::coll_len(self.s))))) == Some(true),
                N::Field(y, _, _) => matches!(y.n(), N::App(f, a) if *f == "strip_suffix" && a[0] == self.s && is_dot(a[1])),
                N::App(f, a) if *f == "trim_end_matches" => a[0] == self.s && is_dot(a[1]),
                _ => false,
            };
            if body || x == self.s && m.ends_with("terminator") {
                return Some(vec![(st.clone(), iter_of(l))]);
            }
            if x == self.s {
                // the labels and an empty one
                let f = app("labels_end", vec![self.s], Some(str_slice()));
                let mut s = st.clone();
                s.assume(eq0(&Lin::of(models::coll_len(f)).sub(&n).plus(-1)), true);
                return Some(vec![(s, iter_of(f))]);
            }
            return None;
        }
        if c.tm == Some("std::iter::Iterator::next") || c.tm == Some("std::iter::DoubleEndedIterator::next_back") {
            let outs = models::call(e, st, c)?;
            let mut r = vec![];
            for (s, v) in outs {
                let x = match v.fields() {
                    Some((1, f)) => e.snap(&s, f[0], 0),
                    _ => {
                        r.push((s, v));
                        continue;
                    }
                };
                let Some((l, at)) = el(x) else {
                    r.push((s, v));
                    continue;
                };
                let (f, of) = match l.n() {
                    N::App(f, a) => (f.to_string(), a[0]),
                    _ => (String::new(), l),
                };
                let (with, place) = match f.as_str() {
                    "labels" | "labels_end" => (self.label, self.k),
                    "chars" | "bytes" if of == self.label && !self.nochar => (self.ch, self.j),
                    "char_indices" if of == self.label && !self.nochar => {
                        let t = Ty::new_tup(tcx(), &[tcx().types.usize, tcx().types.char]);
                        let pos = field(x, STRUCT, 0, Some(tcx().types.usize));
                        (adt(0, vec![pos, self.ch], Some(t)), self.j)
                    }
                    _ => {
                        r.push((s, v));
                        continue;
                    }
                };
                let last = f == "labels_end";
                let is = eq0(&Lin::of(at).sub(&Lin::of(place)));
                let (a, b) = models::split(&s, is);
                if let Some(a) = a {
                    r.push((a, models::option(c.ret_ty, Some(with))));
                }
                if let Some(b) = b {
                    for after in [true, false] {
                        let mut b = b.clone();
                        let d = Lin::of(at).sub(&Lin::of(place)).plus(-1);
                        if !b.assume(ge0(&d), after) {
                            continue;
                        }
                        if last {
                            // the one after the last label is empty
                            let end = Lin::of(at).sub(&Lin::of(models::coll_len(labels(self.s))));
                            let (p, q) = models::split(&b, eq0(&end));
                            if let Some(p) = p {
                                r.push((p, models::option(c.ret_ty, Some(strv("")))));
                            }
                            if let Some(q) = q {
                                r.push((q, v));
                            }
                        } else {
                            r.push((b, v));
                        }
                    }
                }
            }
            return Some(r);
        }
        // character classes
        if c.args.len() == 1 && (c.name.contains("char::methods") || c.name.starts_with("std::char") || c.name.contains("<impl char>") || c.name.contains("<impl u8>")) {
            let x = e.snap(st, c.args[0], 0);
            if x == self.ch && ["is_ascii_alphanumeric", "is_ascii_alphabetic", "is_ascii_digit", "is_ascii_lowercase", "is_ascii_uppercase", "is_ascii_hexdigit"].contains(&m) {
                return Some(vec![(st.clone(), boolv(false))]);
            }
        }
        None
    }
}
/// the defects a name can have: what is assumed about the text
fn defects(s: V, r: &R) -> Vec<(String, Vec<(V, bool)>, bool)> {
    let one = |f: &str, x: V, p: V| bool_app(f, vec![x, p]);
    let chars = |x: V| models::coll_len(app("chars", vec![x], Some(Ty::new_slice(tcx(), tcx().types.char))));
    let bytes = |x: V| models::coll_len(app("bytes", vec![x], Some(Ty::new_slice(tcx(), tcx().types.u8))));
    let (ls, ll) = (Lin::of(models::coll_len(s)), Lin::of(models::coll_len(r.label)));
    let n = Lin::of(models::coll_len(labels(s)));
    let same = |a: V, b: &Lin| (eq0(&Lin::of(a).sub(b)), true);
    let notroot = (eqv(s, strv(".")), false);
    let notroot2 = (eqv(strv("."), s), false);
    let ends: Vec<(V, bool)> = vec![(one("ends_with", s, strv(".")), true), (one("ends_with", s, int('.' as i128)), true)];
    let mut v = vec![];
    v.push(("more than 255 bytes".to_string(), vec![notroot, notroot2, (ge0(&ls.plus(-256)), true), same(chars(s), &ls), same(bytes(s), &ls)], true));
    let mut f = vec![notroot, notroot2, same(chars(s), &ls), same(bytes(s), &ls)];
    f.extend(ends.iter().map(|x| (x.0, false)));
    v.push(("no dot at the end".to_string(), f, true));
    // a label
    let mut base = vec![notroot, notroot2, (ge0(&ls.plus(-1)), true), (ge0(&n.plus(-1)), true), (ge0(&Lin::of(r.k)), true), (ge0(&n.sub(&Lin::of(r.k)).plus(-1)), true)];
    base.extend(ends);
    base.push(same(bytes(r.label), &ll));
    let starts = |b: bool| [(one("starts_with", s, strv(".")), b), (one("starts_with", s, int('.' as i128)), b)];
    let mut f = base.clone();
    f.extend([(ge0(&ll.plus(-64)), true), same(chars(r.label), &ll)]);
    v.push(("a label of more than 63 bytes".to_string(), f, true));
    let mut f = base.clone();
    f.extend([(eq0(&ll), true), (eq0(&Lin::of(r.k)), true), same(chars(r.label), &ll)]);
    f.extend(starts(true));
    v.push(("an empty label at the start".to_string(), f, true));
    let mut f = base.clone();
    f.extend([(eq0(&ll), true), (ge0(&Lin::of(r.k).plus(-1)), true), (one("contains", s, strv("..")), true), same(chars(r.label), &ll)]);
    v.push(("an empty label inside".to_string(), f, true));
    for (lo, hi) in [(0, 44), (47, 47), (58, 64), (91, 96), (123, 127), (128, 0x10ffff)] {
        let mut f = base.clone();
        let x = Lin::of(r.ch);
        f.extend([(ge0(&ll.plus(-1)), true), (ge0(&x.plus(-lo)), true), (ge0(&x.scale(-1).plus(hi)), true), (ge0(&Lin::of(r.j)), true), (ge0(&Lin::of(chars(r.label)).sub(&Lin::of(r.j)).plus(-1)), true), (ge0(&ll.sub(&Lin::of(chars(r.label)))), true), (ge0(&ll.sub(&Lin::of(r.j)).plus(-1)), true)]);
        v.push((format!("a character from {lo} to {hi} in a label"), f, false));
    }
    v
}
/// the defects that `d`, from a text to a result, lets through
fn refute(r: &mut Report, d: DefId) -> Vec<String> {
    let mut out = vec![];
    let us = tcx().types.usize;
    for i in 0..11 {
        let mut e = Engine::new();
        e.split_zero = true;
        let mut st = State::default();
        let inst = concrete_instance(d);
        set_tenv(ty::TypingEnv::post_analysis(tcx(), d));
        let args = sym_args(inst, &mut st);
        let s = e.snap(&st, args[0], 0);
        let mut h = R { s, label: sym("the_label", tcx().types.str_), k: sym("its_index", us), j: sym("bad_at", us), ch: sym("bad_char", tcx().types.char), nochar: true };
        let all = defects(s, &h);
        let Some((what, facts, nochar)) = all.into_iter().nth(i) else { break };
        h.nochar = nochar;
        let mut okk = true;
        for (f, b) in facts {
            okk &= st.assume(f, b);
        }
        if !okk {
            r.error(format!("the assumptions for {what} contradict each other"));
            continue;
        }
        // kept in view of the loops
        st.set(Loc(0, 140), h.k);
        for (n, x) in [h.j, h.ch, h.label, s, labels(s)].into_iter().enumerate() {
            st.set(Loc(0, 141 + n as u32), x);
        }
        e.hooks = Some(Box::new(h));
        let rets = e.root(inst, args, st);
        let bad = rets.iter().find(|(_, v)| !matches!(v.fields(), Some((1, _))));
        if std::env::var("SA_DBG").is_ok() {
            for (s, v) in &rets {
                eprintln!("{what}: {} {}", show(*v), s.facts.show());
            }
        }
        if rets.is_empty() {
            r.error(format!("{} never returns on {what}", path_of(d)));
        }
        if bad.is_some() {
            out.push(what);
        }
        e.findings.clear();
        e.obligations.clear();
        r.take(&mut e);
    }
    out
}

// ---- construction ------------------------------------------------------------------------------
fn valid(d: DefId, s: V) -> V {
    bool_app(&format!("valid#{}", path_of(d)), vec![s])
}
/// from a text to nothing or an error
fn is_validator(d: DefId) -> bool {
    let (i, o) = sig_of(d);
    i.len() == 1 && matches!(i[0].kind(), ty::Ref(_, x, _) if x.is_str()) && matches!(o.kind(), ty::Adt(_, g) if adt_path(o).as_deref() == Some("std::result::Result") && norm(g.type_at(0)).is_unit())
}
struct Mk {
    b: super::wire::B,
    t: Ty,
    vals: Vec<DefId>,
    param: Option<V>,
    used: std::rc::Rc<std::cell::RefCell<HashSet<DefId>>>,
    sites: std::rc::Rc<std::cell::Cell<usize>>,
    own: std::rc::Rc<std::cell::Cell<bool>>,
    root: DefId,
}
impl Hooks for Mk {
    fn call(&mut self, e: &mut Engine, st: &State, c: &Call) -> Option<Vec<(State, V)>> {
        let d = c.inst.map(|i| i.def_id()).or(c.def)?;
        if self.vals.contains(&d) && d != self.root {
            let s = e.snap(st, c.args[0], 0);
            let mut v = super::frames::either(e, st, c);
            v[0].1 = models::ok(c.ret_ty, models::unit());
            if !v[0].0.assume(valid(d, s), true) {
                v.remove(0);
            }
            return Some(v);
        }
        self.b.handle(e, st, c)
    }
    fn aggregate(&mut self, e: &mut Engine, st: &mut State, fr: u32, span: Span, v: V) {
        if v.ty() != Some(self.t) {
            return;
        }
        self.sites.set(self.sites.get() + 1);
        let x = text(v, self.t);
        let s = e.snap(st, x, 0);
        if let Some(d) = self.vals.iter().find(|d| st.query(valid(**d, s)) == Some(true)) {
            self.used.borrow_mut().insert(*d);
            super::net::fob(e, "C03", st, fr, span, "the text of a name is validated first", true);
            return;
        }
        // the text of another name, or one that is plainly well formed
        let copy = matches!(s.n(), N::Field(y, _, 0) if y.ty() == Some(self.t));
        let plain = matches!(s.n(), N::Str(x) if well_formed(x));
        if !copy && !plain && Some(s) == self.param {
            self.own.set(true);
            return;
        }
        super::net::fob(e, "C03", st, fr, span, "the text of a name is validated first", copy || plain);
    }
}
fn well_formed(s: &str) -> bool {
    s == "." || s.len() <= 255 && s.ends_with('.') && s[..s.len() - 1].split('.').all(|l| (1..=63).contains(&l.len()) && l.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-'))
}
struct Places {
    t: Ty,
    body: &'static rustc_middle::mir::Body<'static>,
    made: bool,
    changed: Option<Span>,
}
impl rustc_middle::mir::visit::Visitor<'static> for Places {
    fn visit_rvalue(&mut self, r: &rustc_middle::mir::Rvalue<'static>, l: rustc_middle::mir::Location) {
        if let rustc_middle::mir::Rvalue::Aggregate(k, _) = r {
            if let rustc_middle::mir::AggregateKind::Adt(d, ..) = **k {
                self.made |= matches!(self.t.kind(), ty::Adt(a, _) if a.did() == d);
            }
        }
        self.super_rvalue(r, l)
    }
    fn visit_place(&mut self, p: &rustc_middle::mir::Place<'static>, c: rustc_middle::mir::visit::PlaceContext, l: rustc_middle::mir::Location) {
        use rustc_middle::mir::visit::{MutatingUseContext as M, PlaceContext as P};
        if let P::MutatingUse(m) = c {
            if !matches!(m, M::Drop) {
                let mut t = self.body.local_decls[p.local].ty;
                for x in p.projection.iter() {
                    if let rustc_middle::mir::ProjectionElem::Field(..) = x {
                        if norm_region(peel(t)) == self.t {
                            self.changed = Some(self.body.source_info(l).span);
                        }
                    }
                    t = rustc_middle::mir::PlaceTy::from_ty(t).projection_ty(tcx(), x).ty;
                }
            }
        }
        self.super_place(p, c, l)
    }
}
fn norm_region(t: Ty) -> Ty {
    tcx().erase_and_anonymize_regions(t)
}
pub fn made(r: &mut Report) {
    if crate_name() != "ariadne_dns" {
        return;
    }
    let (Some(t), Some(ro)) = (name_ty(), super::wire::roles()) else {
        r.error("the type of names was not found");
        return;
    };
    // the text is private
    let ty::Adt(a, _) = t.kind() else { return };
    let hidden = a.is_struct() && a.non_enum_variant().fields.iter().all(|f| !f.vis.is_public());
    let st0 = State::default();
    rob(r, "C03", a.did(), "the text of a name is private", &st0, hidden);
    let mut makers = vec![];
    for k in tcx().mir_keys(()) {
        let d = k.to_def_id();
        if !matches!(tcx().def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            continue;
        }
        use rustc_middle::mir::visit::Visitor;
        let body = tcx().optimized_mir(d);
        let mut p = Places { t, body, made: false, changed: None };
        p.visit_body(body);
        if p.made {
            makers.push(tcx().typeck_root_def_id(d));
        }
        let derived = tcx().impl_of_assoc(d).map(|i| tcx().is_automatically_derived(i)).unwrap_or(false);
        if !derived {
            rob(r, "C03", d, "the text of a name is not changed", &st0, p.changed.is_none());
        }
    }
    makers.sort_by_key(|d| path_of(*d));
    makers.dedup();
    if makers.is_empty() {
        r.error("no function makes a name");
    }
    // private makers are seen from where they are called
    let mut roots = vec![];
    let mut todo = makers;
    let mut done = HashSet::new();
    while let Some(d) = todo.pop() {
        if !done.insert(d) {
            continue;
        }
        let open = tcx().trait_impl_of_assoc(d).is_some() || tcx().visibility(d).is_accessible_from(rustc_span::def_id::CRATE_DEF_ID.to_def_id(), tcx());
        let callers: Vec<DefId> = local_fns().into_iter().map(|x| x.1).filter(|x| *x != d && super::net::own(*x).iter().any(|y| direct_calls(*y).contains(&d))).collect();
        if open || callers.is_empty() {
            roots.push(d);
        } else {
            todo.extend(callers);
        }
    }
    roots.sort_by_key(|d| path_of(*d));
    let vals: Vec<DefId> = local_fns().into_iter().map(|x| x.1).filter(|d| is_validator(*d)).collect();
    let used = std::rc::Rc::new(std::cell::RefCell::new(HashSet::new()));
    let mut subjects = vec![];
    for d in roots {
        // a copy of a name is one
        if tcx().impl_of_assoc(d).map(|i| tcx().is_automatically_derived(i)).unwrap_or(false) && path_of(d).contains("std::clone::Clone") {
            continue;
        }
        let mut e = Engine::new();
        e.split_zero = true;
        let mut st = State::default();
        let inst = concrete_instance(d);
        set_tenv(ty::TypingEnv::post_analysis(tcx(), d));
        let args = sym_args(inst, &mut st);
        let mut b = super::wire::B::new(ro);
        b.root = Some(d);
        super::wire::init_buf(&b, &mut e, &mut st, &args, false);
        let (i, _) = sig_of(d);
        let param = if i.len() == 1 && peel(i[0]).is_str() { Some(e.snap(&st, args[0], 0)) } else { None };
        let (own, sites) = (std::rc::Rc::new(std::cell::Cell::new(false)), std::rc::Rc::new(std::cell::Cell::new(0)));
        e.hooks = Some(Box::new(Mk { b, t, vals: vals.clone(), param, used: used.clone(), sites: sites.clone(), own: own.clone(), root: d }));
        e.root(inst, args, st);
        r.roots.push(path_of(d));
        keep(&mut e, "C03");
        r.take(&mut e);
        if sites.get() == 0 {
            r.error(format!("{} makes no name", path_of(d)));
        }
        if own.get() {
            subjects.push(d);
        }
    }
    subjects.extend(used.borrow().iter().copied());
    subjects.sort_by_key(|d| path_of(*d));
    for d in subjects {
        r.roots.push(path_of(d));
        let bad = refute(r, d);
        let st = State::default();
        let mut probe = Engine::new();
        let s = { let mut z = State::default(); let a = sym_args(concrete_instance(d), &mut z); probe.snap(&z, a[0], 0) };
        let us = tcx().types.usize;
        let h = R { s, label: sym("the_label", tcx().types.str_), k: sym("its_index", us), j: sym("bad_at", us), ch: sym("bad_char", tcx().types.char), nochar: true };
        for (what, ..) in defects(s, &h) {
            rob(r, "C03", d, &format!("a text with {what} is no name"), &st, !bad.contains(&what));
        }
    }
}

// ---- containment -------------------------------------------------------------------------------
struct Z {
    n: V,
    z: V,
    k: V,
    /// the name is in the zone
    inside: bool,
}
fn rl(s: V) -> V {
    app("rlabels", vec![s], Some(str_slice()))
}
impl Hooks for Z {
    fn call(&mut self, e: &mut Engine, st: &State, c: &Call) -> Option<Vec<(State, V)>> {
        let m = c.name.rsplit("::").next().unwrap_or("");
        let pieces = ["split", "rsplit", "split_terminator"];
        if c.name.contains("<impl str>::") && pieces.contains(&m) && is_dot(e.snap(st, c.args[1], 0)) {
            let x = e.snap(st, c.args[0], 0);
            if x == self.n || x == self.z {
                // from the right; the iterator of split runs from the other end
                let l = rl(x);
                if m == "rsplit" {
                    return Some(vec![(st.clone(), iter_of(l))]);
                }
                if m == "split" {
                    let t = app("labels_of", vec![x], Some(str_slice()));
                    let mut s = st.clone();
                    s.assume(eq0(&Lin::of(models::coll_len(t)).sub(&Lin::of(models::coll_len(l)))), true);
                    return Some(vec![(s, iter_of(t))]);
                }
            }
            return None;
        }
        if c.tm == Some("std::iter::Iterator::next") || c.tm == Some("std::iter::DoubleEndedIterator::next_back") {
            let outs = models::call(e, st, c)?;
            let mut r = vec![];
            for (s, v) in outs {
                let x = match v.fields() {
                    Some((1, f)) => e.snap(&s, f[0], 0),
                    _ => {
                        r.push((s, v));
                        continue;
                    }
                };
                // several at a time
                if let Some((0, parts)) = x.fields() {
                    let t = x.ty();
                    let parts: Vec<V> = parts.to_vec();
                    let mut all = vec![(s, vec![])];
                    for p in parts {
                        let mut next = vec![];
                        for (s, got) in all {
                            for (s, p) in self.label(s, p) {
                                let mut g: Vec<V> = got.clone();
                                g.push(p);
                                next.push((s, g));
                            }
                        }
                        all = next;
                    }
                    r.extend(all.into_iter().map(|(s, g)| (s, models::option(c.ret_ty, Some(adt(0, g, t))))));
                    continue;
                }
                for (s, y) in self.label(s, x) {
                    let o = if y == x { v } else { models::option(c.ret_ty, Some(y)) };
                    r.push((s, o));
                }
            }
            return Some(r);
        }
        if c.tm == Some("std::cmp::PartialEq::eq") || c.tm == Some("std::cmp::PartialEq::ne") {
            let (a, b) = (e.snap(st, c.args[0], 0), e.snap(st, c.args[1], 0));
            if el(a).is_some() && el(b).is_some() {
                let mut out = vec![];
                for (s, a) in self.label(st.clone(), a) {
                    for (s, b) in self.label(s, b) {
                        let q = eqv(a, b);
                        out.push((s, if m == "ne" { not(q) } else { q }));
                    }
                }
                return Some(out);
            }
        }
        // the zone taken off
        if m == "strip_suffix" && c.name.contains("<impl str>::") {
            let (x, p) = (e.snap(st, c.args[0], 0), e.snap(st, c.args[1], 0));
            if x == self.n && p == self.z {
                let (same, other) = models::split(st, eqv(x, p));
                let mut out = vec![];
                if let Some(s) = same {
                    out.push((s, models::option(c.ret_ty, Some(strv("")))));
                }
                if let Some(s) = other {
                    for (mut s, v) in models::call(e, &s, c)? {
                        let rest = Lin::of(models::coll_len(x)).sub(&Lin::of(models::coll_len(p)));
                        if !matches!(v.fields(), Some((1, _))) || s.assume(ge0(&rest.plus(-1)), true) {
                            out.push((s, v));
                        }
                    }
                }
                return Some(out);
            }
        }
        // the end of the name, as long as the zone
        if c.tm == Some("std::cmp::PartialEq::eq") || c.tm == Some("std::cmp::PartialEq::ne") {
            let (a, b) = (e.snap(st, c.args[0], 0), e.snap(st, c.args[1], 0));
            let rest = Lin::of(models::coll_len(self.n)).sub(&Lin::of(models::coll_len(self.z)));
            let bytes = |x: V| match x.n() {
                N::App(f, y) if *f == "bytes" || *f == "utf8" => y[0],
                _ => x,
            };
            for (x, y) in [(a, b), (b, a)] {
                if let N::App(f, t) = x.n() {
                    if ["substr", "subslice"].contains(f) && bytes(t[0]) == self.n && bytes(y) == self.z && st.query(eq0(&Lin::of(t[1]).sub(&rest))) == Some(true) && st.query(eq0(&Lin::of(t[1]).add(&Lin::of(t[2]), 1).sub(&Lin::of(models::coll_len(self.n))))) == Some(true) {
                        let q = bool_app("ends_with", vec![self.n, self.z]);
                        return Some(vec![(st.clone(), if m == "ne" { not(q) } else { q })]);
                    }
                }
            }
        }
        if m == "ends_with" && c.name.contains("<impl str>::") {
            let (x, p) = (e.snap(st, c.args[0], 0), e.snap(st, c.args[1], 0));
            let dot = |v: V, of: V| v == models::str_concat(strv("."), of);
            if dot(x, self.n) && dot(p, self.z) {
                let (same, other) = models::split(st, eqv(self.n, self.z));
                let mut out: Vec<(State, V)> = same.into_iter().map(|s| (s, boolv(true))).collect();
                out.extend(other.into_iter().map(|s| (s, bool_app("ends_with", vec![self.n, p]))));
                return Some(out);
            }
        }
        // what stands before the zone
        if m == "ends_with" && c.name.contains("<impl str>::") {
            let (x, p) = (e.snap(st, c.args[0], 0), e.snap(st, c.args[1], 0));
            if let N::App(f, a) = x.n() {
                let rest = Lin::of(models::coll_len(self.n)).sub(&Lin::of(models::coll_len(self.z)));
                if *f == "substr" && is_dot(p) && a[0] == self.n && a[1].as_int() == Some(0) && Lin::of(a[2]) == rest && st.query(bool_app("ends_with", vec![self.n, self.z])) == Some(true) {
                    return Some(vec![(st.clone(), bool_app("ends_with", vec![self.n, models::str_concat(strv("."), self.z)]))]);
                }
            }
        }
        None
    }
}
impl Z {
    /// a label as the assumptions have it
    fn label(&self, s: State, x: V) -> Vec<(State, V)> {
        let mut r = vec![];
        {
            {
                let Some((l, i)) = el(x) else {
                    return vec![(s, x)];
                };
                // labels counted from the left are the same ones
                let (l, i) = match l.n() {
                    N::App(f, a) if *f == "labels_of" => (rl(a[0]), Lin::of(models::coll_len(l)).sub(&Lin::of(i)).plus(-1).v()),
                    _ => (l, i),
                };
                let (rn, rz) = (rl(self.n), rl(self.z));
                if l != rn && l != rz {
                    return vec![(s, x)];
                }
                let y = elem(l, i, Some(tcx().types.str_));
                if self.inside {
                    // equal as far as the zone goes
                    let (a, b) = if l == rz { (Some(s), None) } else { models::split(&s, lt(i, models::coll_len(rz))) };
                    if let Some(mut a) = a {
                        // under one index for both
                        let last = a.get(Loc(0, 146));
                        let at = if !last.is_uninit() && a.query(eq0(&Lin::of(i).sub(&Lin::of(last)))) == Some(true) { last } else { i };
                        a.set(Loc(0, 146), at);
                        r.push((a, elem(rz, at, Some(tcx().types.str_))));
                    }
                    if let Some(b) = b {
                        r.push((b, y));
                    }
                    return r;
                }
                // the label that differs
                for at in 0..3 {
                    let mut a = s.clone();
                    let d = Lin::of(i).sub(&Lin::of(self.k));
                    let okk = match at {
                        0 => a.assume(eq0(&d), true),
                        1 => a.assume(ge0(&d.plus(-1)), true),
                        _ => a.assume(ge0(&d.scale(-1).plus(-1)), true),
                    };
                    if okk {
                        let w = if at == 0 { sym(if l == rn { "label_of_name" } else { "label_of_zone" }, tcx().types.str_) } else { y };
                        r.push((a, w));
                    }
                }
            }
        }
        r
    }
}
fn bool_rets(rets: &[(State, V)], what: bool) -> Vec<(State, V)> {
    rets.iter().filter_map(|(s, v)| { let mut s = s.clone(); if s.assume(*v, what) { Some((s, *v)) } else { None } }).collect()
}
/// containment of one name in another
fn contains(r: &mut Report, d: DefId, t: Ty) {
    let us = tcx().types.usize;
    let mut equality = true;
    // (what, the assumptions, inside)
    let cases = ["a label of the zone differs", "the name has fewer labels", "the same labels", "the root zone"];
    for (ci, what) in cases.iter().enumerate() {
        let mut e = Engine::new();
        e.split_zero = true;
        let mut st = State::default();
        let inst = concrete_instance(d);
        set_tenv(ty::TypingEnv::post_analysis(tcx(), d));
        let args = sym_args(inst, &mut st);
        let (a, b) = (e.snap(&st, args[0], 0), e.snap(&st, args[1], 0));
        let (n, z) = (text(a, t), text(b, t));
        let k = sym("differs_at", us);
        let (ln, lz) = (Lin::of(models::coll_len(rl(n))), Lin::of(models::coll_len(rl(z))));
        let mut f = vec![(ge0(&ln.plus(-2)), true), (ge0(&lz.plus(-2)), true), (ge0(&Lin::of(k)), true), (ge0(&lz.sub(&Lin::of(k)).plus(-1)), true)];
        let dotz = models::str_concat(strv("."), z);
        let root = eqv(z, strv("."));
        let roots = [root, eqv(strv("."), z)];
        let ends = bool_app("ends_with", vec![n, dotz]);
        let plain = bool_app("ends_with", vec![n, z]);
        let eq = [eqv(a, b), eqv(b, a), eqv(n, z), eqv(z, n)];
        let (lnl, lzl) = (Lin::of(models::coll_len(n)), Lin::of(models::coll_len(z)));
        match ci {
            0 => {
                f.extend(roots.iter().map(|x| (*x, false)));
                f.extend(eq.iter().map(|x| (*x, false)));
                f.push((ends, false));
                f.push((ge0(&ln.sub(&Lin::of(k)).plus(-1)), true));
                let (x, y) = (sym("label_of_name", tcx().types.str_), sym("label_of_zone", tcx().types.str_));
                f.extend([(eqv(x, y), false), (eqv(y, x), false)]);
            }
            1 => {
                f.extend(roots.iter().map(|x| (*x, false)));
                f.extend(eq.iter().map(|x| (*x, false)));
                f.push((ends, false));
                f.push((ge0(&lz.sub(&ln).plus(-1)), true));
            }
            2 => {
                f.push((ge0(&ln.sub(&lz)), true));
                f.push((plain, true));
                f.push((ge0(&lnl.sub(&lzl)), true));
            }
            _ => {
                f.extend(roots.iter().map(|x| (*x, true)));
            }
        }
        // inside means equal or ending with a dot and the zone
        let bytes = app("bytes", vec![n], Some(Ty::new_slice(tcx(), tcx().types.u8)));
        let before = eq0(&Lin::of(elem(bytes, lnl.sub(&lzl).plus(-1).v(), Some(tcx().types.u8))).plus(-('.' as i128)));
        let variants: Vec<Vec<(V, bool)>> = match ci {
            0 | 1 => vec![vec![(plain, false)], vec![(plain, true), (ge0(&lnl.sub(&lzl).plus(-1)), true), (before, false)]],
            2 => vec![eq.iter().map(|x| (*x, true)).chain([(eq0(&lnl.sub(&lzl)), true), (eq0(&ln.sub(&lz)), true)]).collect(), eq.iter().map(|x| (*x, false)).chain([(ends, true), (before, true), (ge0(&lnl.sub(&lzl).plus(-2)), true)]).chain(roots.iter().map(|x| (*x, false))).collect()],
            _ => vec![vec![]],
        };
        for v in variants {
            let mut st = st.clone();
            if !f.iter().chain(&v).all(|(x, b)| st.assume(*x, *b)) {
                r.error(format!("the assumptions for {what} contradict each other"));
                continue;
            }
            let mut e = Engine::new();
            e.split_zero = true;
            for (i, x) in [k, sym("label_of_name", tcx().types.str_), sym("label_of_zone", tcx().types.str_), n, z].into_iter().enumerate() {
                st.set(Loc(0, 140 + i as u32), x);
            }
            // counted from the left
            st.set(Loc(0, 147), lz.sub(&Lin::of(k)).plus(-1).v());
            st.set(Loc(0, 148), ln.sub(&Lin::of(k)).plus(-1).v());
            e.hooks = Some(Box::new(Z { n, z, k, inside: ci == 2 }));
            let rets = e.root(inst, args.clone(), st);
            equality &= rets.iter().all(|(_, v)| eq.contains(v) || v.as_bool().is_some());
            let want = ci >= 2;
            let bad = bool_rets(&rets, !want);
            if std::env::var("SA_DBG").is_ok() {
                for (s, v) in &rets {
                    eprintln!("{what}: {} {}", show(*v), s.facts.show());
                }
            }
            let is_equality = rets.iter().all(|(_, v)| eq.contains(v));
            if ci == 0 && is_equality && !path_of(d).ends_with("is_in_zone") {
                return; // equality of names
            }
            rob(r, "C18", d, &format!("{what}: {}", if want { "in the zone" } else { "not in the zone" }), bad.first().map(|x| &x.0).unwrap_or(&State::default()), bad.is_empty() && !rets.is_empty());
            e.findings.clear();
            e.obligations.clear();
            r.take(&mut e);
        }
    }
    r.roots.push(path_of(d));
}
/// in a zone, but in none of its subzones
struct Only {
    n: V,
    zone: V,
    subs: V,
    k: V,
    case: usize,
}
impl Hooks for Only {
    fn call(&mut self, e: &mut Engine, st: &State, c: &Call) -> Option<Vec<(State, V)>> {
        if !(c.name.ends_with("dns::name::Name::is_in_zone") && c.args.len() == 2) {
            return None;
        }
        let a = e.snap(st, c.args[0], 0);
        let b = e.snap(st, c.args[1], 0);
        if a != self.n {
            return Some(vec![(st.clone(), in_zone(a, b))]);
        }
        if b == self.zone {
            return Some(vec![(st.clone(), boolv(self.case > 0))]);
        }
        if let Some((l, i)) = el(b) {
            if l == self.subs {
                if self.case == 2 {
                    return Some(vec![(st.clone(), boolv(false))]);
                }
                let mut out = vec![];
                for at in 0..3 {
                    let mut s = st.clone();
                    let d = Lin::of(i).sub(&Lin::of(self.k));
                    let okk = match at {
                        0 => s.assume(eq0(&d), true),
                        1 => s.assume(ge0(&d.plus(-1)), true),
                        _ => s.assume(ge0(&d.scale(-1).plus(-1)), true),
                    };
                    if okk {
                        out.push((s, if at == 0 { boolv(true) } else { in_zone(a, b) }));
                    }
                }
                return Some(out);
            }
        }
        Some(vec![(st.clone(), in_zone(a, b))])
    }
}
fn only(r: &mut Report, d: DefId) {
    for (case, what) in ["outside the zone", "in a subzone", "in the zone and outside every subzone"].iter().enumerate() {
        let mut e = Engine::new();
        let mut st = State::default();
        let inst = concrete_instance(d);
        set_tenv(ty::TypingEnv::post_analysis(tcx(), d));
        let args = sym_args(inst, &mut st);
        let v: Vec<V> = args.iter().map(|a| e.snap(&st, *a, 0)).collect();
        let k = sym("subzone_at", tcx().types.usize);
        if case == 1 {
            st.assume(ge0(&Lin::of(k)), true);
            st.assume(ge0(&Lin::of(models::coll_len(v[2])).sub(&Lin::of(k)).plus(-1)), true);
        }
        for (i, x) in [k, v[0], v[1], v[2]].into_iter().enumerate() {
            st.set(Loc(0, 140 + i as u32), x);
        }
        e.hooks = Some(Box::new(Only { n: v[0], zone: v[1], subs: v[2], k, case }));
        let rets = e.root(inst, args, st);
        let want = case == 2;
        let bad = bool_rets(&rets, !want);
        rob(r, "C18", d, &format!("{what}: {want}"), bad.first().map(|x| &x.0).unwrap_or(&State::default()), bad.is_empty() && !rets.is_empty());
        e.findings.clear();
        e.obligations.clear();
        r.take(&mut e);
    }
    r.roots.push(path_of(d));
}
// ---- raw tests on the text of names --------------------------------------------------------------
const TESTS: &[&str] = &["ends_with", "strip_suffix", "trim_end_matches", "contains", "rfind", "find", "rsplit_once", "split_once", "rmatch_indices", "match_indices", "starts_with", "strip_prefix"];
type Taint = HashMap<DefId, HashSet<rustc_middle::mir::Local>>;
fn textual(t: Ty) -> bool {
    let p = peel(t);
    p.is_str() || matches!(adt_path(p).as_deref(), Some("std::string::String") | Some("std::borrow::Cow")) || matches!(p.kind(), ty::Slice(u) if *u == tcx().types.u8)
}
/// locals that hold text of names
fn taint(t: Ty) -> Taint {
    use rustc_middle::mir::*;
    let bodies: Vec<DefId> = tcx().mir_keys(()).iter().map(|k| k.to_def_id()).filter(|d| matches!(tcx().def_kind(*d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure)).collect();
    let mut m: Taint = HashMap::new();
    loop {
        let mut grew = false;
        for d in &bodies {
            let body = tcx().optimized_mir(*d);
            let mut set = m.get(d).cloned().unwrap_or_default();
            let n0 = set.len();
            let hot = |p: &Place<'static>, set: &HashSet<Local>| set.contains(&p.local) || norm_region(peel(body.local_decls[p.local].ty)) == t;
            let hot_op = |o: &Operand<'static>, set: &HashSet<Local>| o.place().map(|p| hot(&p, set)).unwrap_or(false);
            for bb in body.basic_blocks.iter() {
                for s in &bb.statements {
                    if let StatementKind::Assign(a) = &s.kind {
                        let (p, rv) = &**a;
                        if !textual(body.local_decls[p.local].ty) {
                            continue;
                        }
                        let mut h = false;
                        struct Ops<'a>(&'a mut Vec<Place<'static>>);
                        impl visit::Visitor<'static> for Ops<'_> {
                            fn visit_place(&mut self, p: &Place<'static>, _: visit::PlaceContext, _: Location) {
                                self.0.push(*p);
                            }
                        }
                        let mut ps = vec![];
                        visit::Visitor::visit_rvalue(&mut Ops(&mut ps), rv, Location::START);
                        for q in ps {
                            h |= hot(&q, &set);
                        }
                        if h {
                            set.insert(p.local);
                        }
                    }
                }
                if let Some(Terminator { kind: TerminatorKind::Call { func, args, destination, .. }, .. }) = &bb.terminator {
                    let any = args.iter().any(|a| hot_op(&a.node, &set));
                    if !any {
                        continue;
                    }
                    if textual(body.local_decls[destination.local].ty) {
                        set.insert(destination.local);
                    }
                    if let ty::FnDef(f, _) = func.ty(&body.local_decls, tcx()).kind() {
                        if local_crate(*f) && tcx().is_mir_available(*f) {
                            let cb = tcx().optimized_mir(*f);
                            for (i, a) in args.iter().enumerate() {
                                let l = Local::from_usize(i + 1);
                                if hot_op(&a.node, &set) && i < cb.arg_count && textual(cb.local_decls[l].ty) && m.entry(*f).or_default().insert(l) {
                                    grew = true;
                                }
                            }
                        }
                    }
                }
            }
            if set.len() > n0 {
                grew = true;
                m.entry(*d).or_default().extend(set);
            }
        }
        if !grew {
            return m;
        }
    }
}
fn raw(r: &mut Report, t: Ty, decided: &[DefId]) -> usize {
    use rustc_middle::mir::*;
    let m = taint(t);
    let mut n = 0;
    let mut inner: HashSet<DefId> = HashSet::new();
    for d in decided {
        inner.extend(reachable(&[*d]));
        inner.extend(super::net::own(*d));
    }
    for (d, set) in &m {
        if inner.contains(d) {
            continue;
        }
        let body = tcx().optimized_mir(*d);
        for bb in body.basic_blocks.iter() {
            let Some(Terminator { kind: TerminatorKind::Call { func, args, .. }, source_info }) = &bb.terminator else { continue };
            let ty::FnDef(f, _) = func.ty(&body.local_decls, tcx()).kind() else { continue };
            let p = path_of(*f);
            let last = p.rsplit("::").next().unwrap_or("");
            n += 1;
            if !p.contains("<impl str>") && !p.contains("<impl [T]>") || !TESTS.contains(&last) || args.len() < 2 {
                continue;
            }
            let is = |o: &Operand<'static>| o.place().map(|q| set.contains(&q.local)).unwrap_or(false);
            // compared with the text of another name
            let okk = !(is(&args[0].node) && is(&args[1].node));
            let st = State::default();
            rob(r, "C18", *d, "the text of a name is not searched for another's", &st, okk);
            let _ = source_info;
        }
    }
    n
}
pub fn containment(r: &mut Report) {
    if crate_name() != "ariadne_dns" {
        return;
    }
    let Some(t) = name_ty() else {
        r.error("the type of names was not found");
        return;
    };
    let is = |d: DefId, n: usize| {
        let (i, o) = sig_of(d);
        o.is_bool() && i.len() == n && peel(i[0]) == t && peel(i[1]) == t && tcx().trait_impl_of_assoc(d).is_none() && !tcx().is_closure_like(d)
    };
    let two: Vec<DefId> = local_fns().into_iter().map(|x| x.1).filter(|d| is(*d, 2)).collect();
    if !two.iter().any(|d| path_of(*d).ends_with("Name::is_in_zone")) {
        r.error("the containment of names was not found");
        return;
    }
    // those that decide, not those that ask
    for d in two.iter().filter(|d| !two.iter().any(|x| x != *d && reachable(&[**d]).contains(x))) {
        contains(r, *d, t);
    }
    for d in local_fns().into_iter().map(|x| x.1) {
        if is(d, 3) && matches!(peel(sig_of(d).0[2]).kind(), ty::Slice(x) if norm(*x) == t) {
            only(r, d);
        }
    }
    let n = raw(r, t, &two);
    r.steps += n as u64;
    if n < 20 {
        r.error("calls on text of names were not found");
    }
}
