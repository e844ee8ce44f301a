//! Hash-consed abstract values.  A value is immutable; equality is pointer equality.
//! Shared references, boxes, `Arc`/`Rc`, `String`->`str` and `Vec`->slice are transparent:
//! a reference is represented by the value it points to (the borrow checker guarantees that
//! value cannot change while the reference lives); `&mut` is a pointer to an abstract location.
use rustc_middle::ty::Ty as RTy;
use std::cell::RefCell;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};

pub type Ty = RTy<'static>;
pub type S = &'static str;

#[derive(Clone, Copy)]
pub struct V(&'static ND);
pub struct ND {
    pub id: u32,
    pub n: N,
    pub ty: Option<Ty>,
    /// sorted ids of Sym/Bvar leaves
    pub syms: Vec<u32>,
    pub size: u32,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Loc(pub u32, pub u32);

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub enum Pj {
    Field(u32, u32, Ty),
    Index(V),
    Sub(V, V), // from, len
}
pub const STRUCT: u32 = u32::MAX;

/// One alternative for the elements of a summarised collection: a template and the facts that
/// were known of it when it was added; `Bvar` leaves are existentially quantified per element.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Alt {
    pub t: V,
    pub facts: Vec<(V, bool)>,
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum N {
    Sym(S),
    Bvar(S),
    Field(V, u32, u32),
    App(S, Vec<V>),
    Lin(i128, Vec<(V, i128)>),
    Bool(bool),
    Ge0(V),
    Eq0(V),
    Not(V),
    /// `t` is the enum variant with this index
    IsVar(V, u32),
    Adt(u32, Vec<V>),
    Ptr(Loc, Vec<Pj>),
    Str(S),
    Seq(Vec<V>),
    Summ(V, V, Vec<Alt>), // identity, length, alternatives
    Model(S, Vec<V>),
    Uninit,
}
impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        std::ptr::eq(self.0, o.0)
    }
}
impl Eq for V {}
impl Hash for V {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.id.hash(h)
    }
}
impl PartialOrd for V {
    fn partial_cmp(&self, o: &V) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for V {
    fn cmp(&self, o: &V) -> std::cmp::Ordering {
        self.0.id.cmp(&o.0.id)
    }
}
pub struct Interner {
    map: HashMap<(N, Option<Ty>), V>,
    count: u32,
    strs: HashMap<String, S>,
}
thread_local! {
    static I: RefCell<Interner> = RefCell::new(Interner { map: HashMap::new(), count: 0, strs: HashMap::new() });
}
pub fn sym_str(s: &str) -> S {
    I.with(|i| {
        let mut i = i.borrow_mut();
        if let Some(x) = i.strs.get(s) {
            return *x;
        }
        let l: S = Box::leak(s.to_string().into_boxed_str());
        i.strs.insert(s.to_string(), l);
        l
    })
}
fn merge(a: &mut Vec<u32>, b: &[u32]) {
    if b.is_empty() {
        return;
    }
    a.extend_from_slice(b);
    a.sort_unstable();
    a.dedup();
}
pub fn intern(n: N, ty: Option<Ty>) -> V {
    I.with(|i| {
        let mut i = i.borrow_mut();
        if let Some(v) = i.map.get(&(n.clone(), ty)) {
            return *v;
        }
        let id = i.count;
        i.count += 1;
        let mut syms = vec![];
        let mut size = 1u32;
        match &n {
            N::Sym(_) | N::Bvar(_) => syms.push(id),
            _ => children(&n, &mut |c| {
                merge(&mut syms, &c.0.syms);
                size = size.saturating_add(c.0.size);
            }),
        }
        let v = V(Box::leak(Box::new(ND { id, n: n.clone(), ty, syms, size })));
        i.map.insert((n, ty), v);
        v
    })
}
pub fn children(n: &N, f: &mut dyn FnMut(V)) {
    match n {
        N::Field(a, _, _) | N::Ge0(a) | N::Eq0(a) | N::Not(a) | N::IsVar(a, _) => f(*a),
        N::App(_, a) | N::Adt(_, a) | N::Seq(a) | N::Model(_, a) => a.iter().for_each(|x| f(*x)),
        N::Lin(_, t) => t.iter().for_each(|x| f(x.0)),
        N::Summ(i, l, alts) => {
            f(*i);
            f(*l);
            for a in alts {
                f(a.t);
                a.facts.iter().for_each(|x| f(x.0));
            }
        }
        N::Ptr(_, p) => {
            for x in p {
                match x {
                    Pj::Index(v) => f(*v),
                    Pj::Sub(a, b) => {
                        f(*a);
                        f(*b)
                    }
                    _ => {}
                }
            }
        }
        N::Sym(_) | N::Bvar(_) | N::Bool(_) | N::Str(_) | N::Uninit => {}
    }
}
impl V {
    pub fn n(self) -> &'static N {
        &self.0.n
    }
    pub fn ty(self) -> Option<Ty> {
        self.0.ty
    }
    pub fn id(self) -> u32 {
        self.0.id
    }
    pub fn syms(self) -> &'static [u32] {
        &self.0.syms
    }
    pub fn size(self) -> u32 {
        self.0.size
    }
    pub fn has_any_sym(self, ids: &[u32]) -> bool {
        ids.iter().any(|i| self.0.syms.binary_search(i).is_ok())
    }
    pub fn is_uninit(self) -> bool {
        matches!(self.n(), N::Uninit)
    }
    pub fn as_bool(self) -> Option<bool> {
        match self.n() {
            N::Bool(b) => Some(*b),
            _ => None,
        }
    }
    pub fn as_int(self) -> Option<i128> {
        match self.n() {
            N::Lin(c, t) if t.is_empty() => Some(*c),
            _ => None,
        }
    }
    /// opaque term (not a structural value)
    pub fn is_term(self) -> bool {
        matches!(self.n(), N::Sym(_) | N::Bvar(_) | N::Field(..) | N::App(..))
    }
    pub fn fields(self) -> Option<(u32, &'static [V])> {
        match self.n() {
            N::Adt(v, f) => Some((*v, f)),
            _ => None,
        }
    }
}
pub fn sym(name: &str, ty: Ty) -> V {
    intern(N::Sym(sym_str(name)), Some(ty))
}
pub fn sym_untyped(name: &str) -> V {
    intern(N::Sym(sym_str(name)), None)
}
pub fn app(f: &str, args: Vec<V>, ty: Option<Ty>) -> V {
    intern(N::App(sym_str(f), args), ty)
}
pub fn model(f: &str, args: Vec<V>) -> V {
    intern(N::Model(sym_str(f), args), None)
}
pub fn int(c: i128) -> V {
    intern(N::Lin(c, vec![]), None)
}
pub fn boolv(b: bool) -> V {
    intern(N::Bool(b), None)
}
pub fn uninit() -> V {
    intern(N::Uninit, None)
}
pub fn strv(s: &str) -> V {
    intern(N::Str(sym_str(s)), None)
}
pub fn adt(variant: u32, fields: Vec<V>, ty: Option<Ty>) -> V {
    intern(N::Adt(variant, fields), ty)
}
pub fn seq(e: Vec<V>) -> V {
    intern(N::Seq(e), None)
}
pub fn ptr(l: Loc, p: Vec<Pj>) -> V {
    intern(N::Ptr(l, p), None)
}
pub fn summ(id: V, len: V, mut alts: Vec<Alt>) -> V {
    let mut out: Vec<Alt> = vec![];
    for a in alts.drain(..) {
        if !out.contains(&a) {
            out.push(a);
        }
    }
    out.sort_by(|a, b| (a.t, &a.facts).cmp(&(b.t, &b.facts)));
    intern(N::Summ(id, len, out), None)
}

// ---- linear expressions -------------------------------------------------------------------
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Lin {
    pub c: i128,
    pub t: Vec<(V, i128)>,
}
impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", show(*self))
    }
}
impl Lin {
    pub fn k(c: i128) -> Lin {
        Lin { c, t: vec![] }
    }
    pub fn of(v: V) -> Lin {
        match v.n() {
            N::Lin(c, t) => Lin { c: *c, t: t.clone() },
            N::Bool(b) => Lin::k(*b as i128),
            _ => Lin { c: 0, t: vec![(v, 1)] },
        }
    }
    pub fn add(&self, o: &Lin, k: i128) -> Lin {
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) {
                t.push(self.t[i]);
                i += 1;
            } else if i >= self.t.len() || o.t[j].0 < self.t[i].0 {
                t.push((o.t[j].0, o.t[j].1.saturating_mul(k)));
                j += 1;
            } else {
                let c = self.t[i].1.saturating_add(o.t[j].1.saturating_mul(k));
                if c != 0 {
                    t.push((self.t[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        t.retain(|x| x.1 != 0);
        Lin { c: self.c.saturating_add(o.c.saturating_mul(k)), t }
    }
    pub fn plus(&self, c: i128) -> Lin {
        Lin { c: self.c.saturating_add(c), t: self.t.clone() }
    }
    pub fn scale(&self, k: i128) -> Lin {
        if k == 0 {
            return Lin::k(0);
        }
        Lin { c: self.c.saturating_mul(k), t: self.t.iter().map(|x| (x.0, x.1.saturating_mul(k))).collect() }
    }
    pub fn sub(&self, o: &Lin) -> Lin {
        self.add(o, -1)
    }
    pub fn coef(&self, v: V) -> i128 {
        self.t.binary_search_by(|x| x.0.cmp(&v)).map(|i| self.t[i].1).unwrap_or(0)
    }
    pub fn is_const(&self) -> bool {
        self.t.is_empty()
    }
    pub fn v(&self) -> V {
        if self.c == 0 && self.t.len() == 1 && self.t[0].1 == 1 {
            return self.t[0].0;
        }
        intern(N::Lin(self.c, self.t.clone()), None)
    }
    /// divide by gcd, tightening the constant downwards (valid for >= 0)
    pub fn norm_ge(&self) -> Lin {
        let mut g: i128 = 0;
        for x in &self.t {
            g = gcd(g, x.1.abs());
        }
        if g <= 1 {
            return self.clone();
        }
        Lin { c: self.c.div_euclid(g), t: self.t.iter().map(|x| (x.0, x.1 / g)).collect() }
    }
}
pub fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
fn b2i_of(l: &Lin) -> Option<(V, i128)> {
    if l.t.len() == 1 {
        if let N::App(f, a) = l.t[0].0.n() {
            if *f == "b2i" {
                return Some((a[0], l.t[0].1));
            }
        }
    }
    None
}
fn b2i_test(b: V, at0: bool, at1: bool) -> V {
    match (at0, at1) {
        (false, false) => boolv(false),
        (true, true) => boolv(true),
        (false, true) => b,
        (true, false) => not(b),
    }
}
pub fn ge0(l: &Lin) -> V {
    if l.is_const() {
        return boolv(l.c >= 0);
    }
    if let Some((b, k)) = b2i_of(l) {
        return b2i_test(b, l.c >= 0, l.c + k >= 0);
    }
    let l = l.norm_ge();
    intern(N::Ge0(l.v()), None)
}
pub fn eq0(l: &Lin) -> V {
    if l.is_const() {
        return boolv(l.c == 0);
    }
    if let Some((b, k)) = b2i_of(l) {
        return b2i_test(b, l.c == 0, l.c + k == 0);
    }
    let l = if l.t[0].1 < 0 { l.scale(-1) } else { l.clone() };
    intern(N::Eq0(l.v()), None)
}
pub fn not(b: V) -> V {
    match b.n() {
        N::Bool(x) => boolv(!x),
        N::Not(x) => *x,
        N::Ge0(l) => ge0(&Lin::of(*l).scale(-1).plus(-1)),
        _ => intern(N::Not(b), None),
    }
}
// ---- records ------------------------------------------------------------------------------
/// An enum whose variants share fields and are told apart by a type: with a layout set, shared
/// fields are read without knowing the variant, and what is known of the variant is known of
/// the type.
pub struct RecLay {
    pub rec: Ty,
    pub kind: Ty,
    /// name, type and index in each variant of the shared fields
    pub common: Vec<(&'static str, Ty, Vec<u32>)>,
    /// the type that goes with each variant
    pub kinds: Vec<u32>,
}
thread_local! {
    static RECS: std::cell::Cell<Option<&'static RecLay>> = const { std::cell::Cell::new(None) };
}
pub fn set_recs(l: Option<&'static RecLay>) {
    RECS.set(l);
}
pub fn recs() -> Option<&'static RecLay> {
    RECS.get()
}
pub fn rec_of(t: V) -> Option<&'static RecLay> {
    let l = recs()?;
    if t.ty() == Some(l.rec) && !matches!(t.n(), N::Adt(..)) { Some(l) } else { None }
}
fn as_rec(r: V, l: &RecLay) -> V {
    if r.ty().is_none() && matches!(r.n(), N::App(..) | N::Field(..)) { intern(r.n().clone(), Some(l.rec)) } else { r }
}
pub fn rec_kind(r: V) -> V {
    let l = recs().unwrap();
    let r = as_rec(r, l);
    match r.n() {
        N::Adt(v, _) => adt(l.kinds[*v as usize], vec![], Some(l.kind)),
        N::App(f, a) if *f == "rec:=" => rec_kind(a[0]),
        _ => app("rec.type", vec![r], Some(l.kind)),
    }
}
/// shared field `i` of the layout
pub fn rec_get(r: V, i: usize) -> V {
    let l = recs().unwrap();
    let (n, t, idx) = &l.common[i];
    let r = as_rec(r, l);
    match r.n() {
        N::Adt(v, f) => f.get(idx[*v as usize] as usize).copied().unwrap_or(uninit()),
        N::App(f, a) if *f == "rec:=" => {
            if a[1].as_int() == Some(i as i128) { a[2] } else { rec_get(a[0], i) }
        }
        _ => app(&format!("rec.{n}"), vec![r], Some(*t)),
    }
}
pub fn rec_set(r: V, i: usize, x: V) -> V {
    let l = recs().unwrap();
    let r = as_rec(r, l);
    match r.n() {
        N::Adt(v, f) => {
            let mut f = f.clone();
            let k = l.common[i].2[*v as usize] as usize;
            if k < f.len() {
                f[k] = x;
            }
            adt(*v, f, r.ty())
        }
        N::App(f, a) if *f == "rec:=" && a[1].as_int() == Some(i as i128) => rec_set(a[0], i, x),
        _ => app("rec:=", vec![r, int(i as i128), x], Some(l.rec)),
    }
}
pub fn is_var(t: V, variant: u32) -> V {
    if let N::Adt(v, _) = t.n() {
        return boolv(*v == variant);
    }
    if let Some(l) = rec_of(t) {
        return is_var(rec_kind(t), l.kinds[variant as usize]);
    }
    intern(N::IsVar(t, variant), None)
}
pub fn eqv(a: V, b: V) -> V {
    if a == b {
        return boolv(true);
    }
    match (a.n(), b.n()) {
        (N::Str(x), N::Str(y)) => return boolv(x == y),
        _ => {}
    }
    let (a, b) = if a < b { (a, b) } else { (b, a) };
    app("eq", vec![a, b], None)
}
pub fn lt(a: V, b: V) -> V {
    ge0(&Lin::of(b).sub(&Lin::of(a)).plus(-1))
}
pub fn le(a: V, b: V) -> V {
    ge0(&Lin::of(b).sub(&Lin::of(a)))
}

// ---- substitution -------------------------------------------------------------------------
pub struct Subst {
    pub map: HashMap<V, V>,
    memo: HashMap<V, V>,
    keys: Vec<u32>,
}
impl Subst {
    pub fn new(map: HashMap<V, V>) -> Subst {
        let mut keys: Vec<u32> = vec![];
        for k in map.keys() {
            keys.extend_from_slice(k.syms());
        }
        keys.sort();
        keys.dedup();
        Subst { map, memo: HashMap::new(), keys }
    }
    pub fn is_empty(&self) -> bool {
        self.map.is_empty()
    }
    pub fn ap(&mut self, v: V) -> V {
        if let Some(r) = self.map.get(&v) {
            return *r;
        }
        if !v.has_any_sym(&self.keys) {
            return v;
        }
        if let Some(r) = self.memo.get(&v) {
            return *r;
        }
        let r = self.ap0(v);
        self.memo.insert(v, r);
        r
    }
    fn ap0(&mut self, v: V) -> V {
        match v.n() {
            N::Sym(_) | N::Bvar(_) | N::Bool(_) | N::Str(_) | N::Uninit => v,
            N::Field(a, x, i) => {
                let a2 = self.ap(*a);
                field(a2, *x, *i, v.ty())
            }
            N::App(f, a) => {
                let a2: Vec<V> = a.iter().map(|x| self.ap(*x)).collect();
                mk_app(f, a2, v.ty())
            }
            N::Model(f, a) => {
                let a2: Vec<V> = a.iter().map(|x| self.ap(*x)).collect();
                model(f, a2)
            }
            N::Lin(c, t) => {
                let mut l = Lin::k(*c);
                for (x, k) in t {
                    let y = self.ap(*x);
                    l = l.add(&Lin::of(y), *k);
                }
                l.v()
            }
            N::Ge0(l) => ge0(&Lin::of(self.ap(*l))),
            N::Eq0(l) => eq0(&Lin::of(self.ap(*l))),
            N::Not(b) => not(self.ap(*b)),
            N::IsVar(t, k) => is_var(self.ap(*t), *k),
            N::Adt(k, f) => {
                let f2: Vec<V> = f.iter().map(|x| self.ap(*x)).collect();
                adt(*k, f2, v.ty())
            }
            N::Seq(f) => seq(f.iter().map(|x| self.ap(*x)).collect()),
            N::Summ(i, l, a) => {
                let i2 = self.ap(*i);
                let l2 = self.ap(*l);
                let alts = a
                    .iter()
                    .map(|x| Alt { t: self.ap(x.t), facts: x.facts.iter().map(|(f, b)| (self.ap(*f), *b)).collect() })
                    .collect();
                summ(i2, l2, alts)
            }
            N::Ptr(l, p) => {
                let p2 = p
                    .iter()
                    .map(|x| match x {
                        Pj::Index(v) => Pj::Index(self.ap(*v)),
                        Pj::Sub(a, b) => Pj::Sub(self.ap(*a), self.ap(*b)),
                        x => *x,
                    })
                    .collect();
                ptr(*l, p2)
            }
        }
    }
}
pub fn field(a: V, variant: u32, idx: u32, ty: Option<Ty>) -> V {
    if let N::Adt(v, f) = a.n() {
        if (variant == STRUCT || *v == variant) && (idx as usize) < f.len() {
            return f[idx as usize];
        }
        return uninit();
    }
    if a.is_uninit() {
        return uninit();
    }
    if let Some(l) = rec_of(a) {
        if let Some(i) = l.common.iter().position(|c| c.2.get(variant as usize) == Some(&idx)) {
            return rec_get(a, i);
        }
        if let N::App(f, x) = a.n() {
            if *f == "rec:=" {
                return field(x[0], variant, idx, ty);
            }
        }
    }
    intern(N::Field(a, variant, idx), ty)
}
/// rebuild an application, applying the simplifications that its constructors apply
pub fn mk_app(f: &str, a: Vec<V>, ty: Option<Ty>) -> V {
    if f.starts_with("rec") && recs().is_some() {
        let l = recs().unwrap();
        if f == "rec.type" {
            return rec_kind(a[0]);
        }
        if f == "rec:=" {
            if let Some(i) = a[1].as_int() {
                return rec_set(a[0], i as usize, a[2]);
            }
        }
        if let Some(i) = f.strip_prefix("rec.").and_then(|n| l.common.iter().position(|c| c.0 == n)) {
            return rec_get(a[0], i);
        }
    }
    match f {
        "eq" if a.len() == 2 => return eqv(a[0], a[1]),
        "len" => return len_of(a[0], ty),
        "elem" => return elem(a[0], a[1], ty),
        "b2i" => {
            if let Some(b) = a[0].as_bool() {
                return int(b as i128);
            }
        }
        "div" | "rem" if a.len() == 2 => {
            if let Some(k) = a[1].as_int() {
                if let Some(x) = a[0].as_int() {
                    if k != 0 {
                        return int(if f == "div" { x / k } else { x % k });
                    }
                }
                let l = Lin::of(a[0]);
                if k > 0 && l.c % k == 0 && l.t.iter().all(|x| x.1 % k == 0) {
                    return if f == "rem" { int(0) } else { Lin { c: l.c / k, t: l.t.iter().map(|x| (x.0, x.1 / k)).collect() }.v() };
                }
            }
        }
        _ => {}
    }
    app(f, a, ty)
}
pub fn len_of(v: V, ty: Option<Ty>) -> V {
    match v.n() {
        N::Seq(e) => int(e.len() as i128),
        N::Summ(_, l, _) => *l,
        N::Str(s) => int(s.len() as i128),
        N::Adt(_, f) if false => int(f.len() as i128),
        N::App(s, a) if *s == "subslice" || *s == "substr" => a[2],
        N::App(s, a) if *s == "repeat" => a[1],
        N::App(s, a) if *s == "bytes_at" => a[2],
        N::App(s, a) if *s == "bytes" || *s == "utf8" => len_of(a[0], ty),
        _ => {
            if let Some(rustc_middle::ty::Array(_, n)) = v.ty().map(|t| t.kind()) {
                if let Some(n) = n.try_to_target_usize(crate::interp::tcx()) {
                    return int(n as i128);
                }
            }
            app("len", vec![v], ty)
        }
    }
}
pub fn elem(v: V, i: V, ty: Option<Ty>) -> V {
    match (v.n(), i.as_int()) {
        (N::Seq(e), Some(k)) if k >= 0 && (k as usize) < e.len() => e[k as usize],
        (N::Seq(e), None) if !e.is_empty() && e.iter().all(|x| *x == e[0]) => e[0],
        (N::App(s, a), _) if *s == "repeat" => a[0],
        (N::App(s, a), _) if *s == "subslice" => elem(a[0], Lin::of(a[1]).add(&Lin::of(i), 1).v(), ty),
        (N::Summ(id, _, _), _) => match id.n() {
            N::App(s, _) if *s == "wr" => elem(*id, i, ty),
            _ => app("elem", vec![*id, i], ty),
        },
        (N::App(s, a), _) if *s == "upd" && a.len() == 1 => elem(a[0], i, ty),
        (N::App(s, a), _) if *s == "wr" => {
            let d = Lin::of(a[1]).sub(&Lin::of(i));
            if d.is_const() && d.c == 0 {
                a[2]
            } else if d.is_const() {
                elem(a[0], i, ty)
            } else {
                app("elem", vec![v, i], ty)
            }
        }
        _ => app("elem", vec![v, i], ty),
    }
}

// ---- printing -----------------------------------------------------------------------------
pub fn show(v: V) -> String {
    let mut s = String::new();
    show_to(v, &mut s, 0);
    s
}
fn list(a: &[V], s: &mut String, d: u32) {
    for (i, x) in a.iter().enumerate() {
        if i > 0 {
            s.push_str(", ");
        }
        show_to(*x, s, d + 1);
    }
}
fn show_to(v: V, s: &mut String, d: u32) {
    if d > 14 || s.len() > 6000 {
        s.push('…');
        return;
    }
    match v.n() {
        N::Sym(n) => s.push_str(n),
        N::Bvar(n) => {
            s.push('?');
            s.push_str(n)
        }
        N::Field(a, x, i) => {
            show_to(*a, s, d + 1);
            let nm = crate::interp::field_name(*a, *x, *i);
            s.push('.');
            s.push_str(&nm);
        }
        N::App(f, a) => {
            s.push_str(f);
            s.push('(');
            list(a, s, d);
            s.push(')');
        }
        N::Model(f, a) => {
            s.push('#');
            s.push_str(f);
            s.push('{');
            list(a, s, d);
            s.push('}');
        }
        N::Lin(c, t) => {
            let mut first = true;
            for (x, k) in t {
                if *k >= 0 && !first {
                    s.push('+');
                }
                if *k == -1 {
                    s.push('-');
                } else if *k != 1 {
                    s.push_str(&format!("{}*", k));
                }
                show_to(*x, s, d + 1);
                first = false;
            }
            if *c != 0 || first {
                if *c >= 0 && !first {
                    s.push('+');
                }
                s.push_str(&c.to_string());
            }
        }
        N::Bool(b) => s.push_str(&b.to_string()),
        N::Ge0(l) => {
            show_to(*l, s, d + 1);
            s.push_str(">=0");
        }
        N::Eq0(l) => {
            show_to(*l, s, d + 1);
            s.push_str("==0");
        }
        N::Not(b) => {
            s.push('!');
            show_to(*b, s, d + 1);
        }
        N::IsVar(t, k) => {
            show_to(*t, s, d + 1);
            s.push_str(" is ");
            s.push_str(&crate::interp::variant_name(t.ty(), *k));
        }
        N::Adt(k, f) => {
            s.push_str(&crate::interp::adt_name(v.ty(), *k));
            s.push('{');
            list(f, s, d);
            s.push('}');
        }
        N::Ptr(l, p) => {
            s.push_str(&format!("&mut L{}_{}", l.0, l.1));
            for x in p {
                match x {
                    Pj::Field(v, i, _) => s.push_str(&if *v == STRUCT { format!(".{i}") } else { format!(".v{v}.{i}") }),
                    Pj::Index(v) => {
                        s.push('[');
                        show_to(*v, s, d + 1);
                        s.push(']');
                    }
                    Pj::Sub(..) => s.push_str("[..]"),
                }
            }
        }
        N::Str(x) => s.push_str(&format!("{:?}", x)),
        N::Seq(e) => {
            s.push('[');
            list(e, s, d);
            s.push(']');
        }
        N::Summ(_, l, a) => {
            s.push_str("[* len ");
            show_to(*l, s, d + 1);
            for x in a {
                s.push_str(" | ");
                show_to(x.t, s, d + 1);
                if !x.facts.is_empty() {
                    s.push_str(" where ");
                    for (f, b) in &x.facts {
                        if !*b {
                            s.push('!');
                        }
                        show_to(*f, s, d + 1);
                        s.push_str("; ");
                    }
                }
            }
            s.push(']');
        }
        N::Uninit => s.push('_'),
    }
}
