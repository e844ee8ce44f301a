//! Abstract states and their join (anti-unification with phi symbols; facts kept are those both
//! sides entail; candidate linear relations between phis are generated from templates).
use crate::facts::Facts;
use crate::interp;
use crate::term::*;
use std::collections::{BTreeMap, HashMap, HashSet};

#[derive(Clone, Default, PartialEq, Eq)]
pub struct State {
    pub store: BTreeMap<Loc, V>,
    pub facts: Facts,
}
impl State {
    pub fn get(&self, l: Loc) -> V {
        self.store.get(&l).copied().unwrap_or_else(uninit)
    }
    pub fn set(&mut self, l: Loc, v: V) {
        self.store.insert(l, v);
    }
    pub fn query(&self, b: V) -> Option<bool> {
        self.facts.query(b)
    }
    pub fn assume(&mut self, b: V, t: bool) -> bool {
        self.facts.assume(b, t)
    }
    pub fn live_syms(&self, pinned: &HashSet<u32>) -> HashSet<u32> {
        let mut s: HashSet<u32> = pinned.clone();
        for v in self.store.values() {
            s.extend(v.syms().iter());
        }
        s
    }
    pub fn gc(&mut self, pinned: &HashSet<u32>) {
        let mut l = self.live_syms(pinned);
        if crate::term::recs().is_some() {
            // elements of summarised collections may be read again
            l.extend(sym_untyped("any").syms().iter());
        }
        self.facts.gc(&l);
    }
}

pub struct JoinCtx<'a> {
    pub prefix: String,
    /// counters of the loops that enclose the join point (parameters of the phi symbols)
    pub outer: Vec<V>,
    pub is_loop: bool,
    /// phis already introduced at this loop head
    pub own: &'a mut Vec<V>,
    pub loc_ty: &'a dyn Fn(Loc) -> Option<Ty>,
}
struct Au<'a, 'b> {
    cx: &'a mut JoinCtx<'b>,
    a: &'a State,
    b: &'a State,
    sig_a: HashMap<V, V>,
    sig_b: HashMap<V, V>,
    newphi: Vec<V>,
    bmap: Option<HashMap<V, V>>,
    memo: HashMap<(V, V), V>,
    /// the joins made so far, and those that one value stands for wherever they are met
    pairs: HashMap<(V, V), V>,
    shared: HashMap<(V, V), V>,
}
impl<'a, 'b> Au<'a, 'b> {
    fn phi(&mut self, va: V, vb: V, ty: Option<Ty>, path: &str) -> V {
        // quantities that stay multiples of eight (plus a constant) keep being so
        if let (Some((ra, ca)), Some((rb, cb))) = (by8(va), by8(vb)) {
            if (ca - cb) % 8 == 0 && (!ra.is_const() || !rb.is_const()) {
                let c = ca.rem_euclid(8);
                let qa = ra.plus((ca - c) / 8).v();
                let qb = rb.plus((cb - c) / 8).v();
                let p = self.phi1(qa, qb, interp::usize_ty(), &format!("{path}/8"));
                return Lin::of(p).scale(8).plus(c).v();
            }
        }
        self.phi1(va, vb, ty, path)
    }
    fn phi1(&mut self, va: V, vb: V, ty: Option<Ty>, path: &str) -> V {
        if let Some(p) = self.memo.get(&(va, vb)).or(self.shared.get(&(va, vb))) {
            return *p;
        }
        let name = format!("{}{}", self.cx.prefix, path);
        if std::env::var("SA_PHI").is_ok() { eprintln!("PHI {name}: {va:?} ~ {vb:?}"); }
        let num = |v: V| v.as_bool().is_none() && v.as_int().is_some();
        let ty = ty.or(va.ty()).or(vb.ty()).map(interp::peel).or(if num(va) && num(vb) { interp::usize_ty() } else { None });
        let mut base = intern(N::Sym(sym_str(&name)), ty);
        if !self.cx.outer.is_empty() {
            let mut args = vec![base];
            args.extend(self.cx.outer.iter().copied());
            base = app("phi", args, ty);
        }
        self.sig_a.insert(base, va);
        self.sig_b.insert(base, vb);
        self.newphi.push(base);
        if !self.cx.is_loop {
            self.memo.insert((va, vb), base);
        }
        self.pairs.insert((va, vb), base);
        base
    }
    /// is `v` boolean-valued or integer-valued
    fn au(&mut self, va: V, vb: V, ty: Option<Ty>, path: &str) -> V {
        if self.cx.own.contains(&va) {
            if self.sig_b.get(&va).map(|x| *x != vb).unwrap_or(false) {
                // no longer the same as another place
                return self.phi1(va, vb, ty, &format!("{path}'"));
            }
            self.sig_a.insert(va, va);
            self.sig_b.insert(va, vb);
            return va;
        }
        if va == vb {
            return va;
        }
        if let N::Lin(c, t) = va.n() {
            if t.len() == 1 && t[0].1 == 8 && self.cx.own.contains(&t[0].0) {
                if let Some((rb, cb)) = by8(vb) {
                    if (cb - c) % 8 == 0 {
                        self.sig_a.insert(t[0].0, t[0].0);
                        self.sig_b.insert(t[0].0, rb.plus((cb - c) / 8).v());
                        return va;
                    }
                }
                return self.phi1(va, vb, ty, path);
            }
        }
        if va.is_uninit() || vb.is_uninit() {
            return uninit();
        }
        match (va.n(), vb.n()) {
            (N::Adt(k1, f1), N::Adt(k2, f2)) if k1 == k2 && f1.len() == f2.len() && va.ty() == vb.ty() => {
                let mut out = vec![];
                for i in 0..f1.len() {
                    let fty = va.ty().and_then(|t| interp::field_ty(t, *k1, i as u32));
                    out.push(self.au(f1[i], f2[i], fty, &format!("{path}.{i}")));
                }
                return adt(*k1, out, va.ty());
            }
            (N::Model(k1, f1), N::Model(k2, f2)) if k1 == k2 && f1.len() == f2.len() => {
                let mut out = vec![];
                for i in 0..f1.len() {
                    let ity = if matches!(f1[i].n(), N::Lin(..)) || matches!(f2[i].n(), N::Lin(..)) { interp::usize_ty() } else { None };
                    out.push(self.au(f1[i], f2[i], ity, &format!("{path}.{i}")));
                }
                return model(k1, out);
            }
            (N::Adt(..), N::Adt(..)) => {}
            _ => {}
        }
        if is_coll(part_of(va)) && is_coll(part_of(vb)) {
            return self.coll(va, vb, path);
        }
        if (is_coll(va) && is_coll_term(vb)) || (is_coll(vb) && is_coll_term(va)) {
            return self.coll(va, vb, path);
        }
        if va.is_term() && vb.is_term() {
            // a structural value is needed only when one side is structural
        }
        // expand an opaque struct against a structural one
        if let (N::Adt(k, f), true) = (va.n(), vb.is_term()) {
            if let Some(e) = interp::expand_as(vb, *k, va.ty(), f.len(), self.b) {
                return self.au(va, e, ty, path);
            }
        }
        if let (true, N::Adt(k, f)) = (va.is_term(), vb.n()) {
            if let Some(e) = interp::expand_as(va, *k, vb.ty(), f.len(), self.a) {
                return self.au(e, vb, ty, path);
            }
        }
        if let (N::App("aliases", x), N::App("aliases", y)) = (va.n(), vb.n()) {
            {
                let known = self.pairs.get(&(x[0], y[0])).copied();
                let to = known.unwrap_or_else(|| self.au(x[0], y[0], None, &format!("{path}~0")));
                self.shared.insert((x[0], y[0]), to);
                let n = self.au(x[1], y[1], interp::usize_ty(), &format!("{path}~1"));
                return app("aliases", vec![to, n], va.ty());
            }
        }
        // the same part, or the same function, of different values
        if let (N::Field(x, k, i), N::Field(y, l, j)) = (va.n(), vb.n()) {
            if (k, i) == (l, j) && va.ty() == vb.ty() && x.is_term() && y.is_term() && same_root(*x, *y, 4) {
                let m = self.au(*x, *y, None, &format!("{path}~"));
                if m.is_term() {
                    return field(m, *k, *i, va.ty());
                }
            }
        }
        if let (N::App(f, x), N::App(g, y)) = (va.n(), vb.n()) {
            if f == g && x.len() == y.len() && *f != "phi" && *f != "it" && va.ty() == vb.ty() && same_root(va, vb, 4) {
                {
                    let mut out = vec![];
                    for i in 0..x.len() {
                        let ity = if matches!(x[i].n(), N::Lin(..)) || matches!(y[i].n(), N::Lin(..)) { interp::usize_ty() } else { None };
                        out.push(if x[i] == y[i] { x[i] } else { self.au(x[i], y[i], ity, &format!("{path}~{i}")) });
                    }
                    if out.iter().all(|v| !v.is_uninit()) {
                        return app(f, out, va.ty());
                    }
                }
            }
        }
        self.phi(va, vb, ty, path)
    }
    fn bsub(&mut self) -> Subst {
        if self.bmap.is_none() {
            let mut m = HashMap::new();
            if self.cx.is_loop {
                for p in self.cx.own.iter() {
                    let nm = match p.n() {
                        N::Sym(s) => s,
                        N::App(_, a) => match a[0].n() {
                            N::Sym(s) => s,
                            _ => "phi",
                        },
                        _ => "phi",
                    };
                    m.insert(*p, intern(N::Bvar(sym_str(nm)), p.ty()));
                }
            }
            self.bmap = Some(m);
        }
        Subst::new(self.bmap.clone().unwrap())
    }
    fn coll(&mut self, va: V, vb: V, path: &str) -> V {
        if let (N::Seq(a), N::Seq(b)) = (va.n(), vb.n()) {
            if a.len() == b.len() {
                let mut out = vec![];
                for i in 0..a.len() {
                    out.push(self.au(a[i], b[i], None, &format!("{path}[{i}]")));
                }
                return seq(out);
            }
        }
        let la = len_of(va, interp::usize_ty());
        let lb = len_of(vb, interp::usize_ty());
        let len = self.au(la, lb, interp::usize_ty(), &format!("{path}#len"));
        let id = sym_untyped(&format!("{}{}#coll", self.cx.prefix, path));
        // the old identity stays only when the elements it had are still the same
        let ia = if let N::Summ(i, _, _) = va.n() { Some(*i) } else { None };
        let ib = if let N::Summ(i, _, _) = vb.n() { *i } else { vb };
        let keep = ia.map(|i| grown(ib, i, 0)).unwrap_or(false);
        // an element known only as one of its collection's
        let one_of = |x: Alt, v: V| -> Alt {
            match (x.t.n(), part_of(v).n()) {
                (N::Bvar(n), N::Summ(i, _, _)) => {
                    let k = intern(N::Bvar(sym_str("any")), interp::usize_ty());
                    let t = app("inst", vec![sym_untyped(n), *i, k], x.t.ty());
                    let mut s = Subst::new([(x.t, t)].into_iter().collect());
                    let facts = x.facts.iter().map(|(f, b)| (s.ap(*f), *b)).collect();
                    Alt { t, facts }
                }
                _ => x,
            }
        };
        let mut alts: Vec<Alt> = alts_of(va, self.a);
        if !keep {
            alts = alts.into_iter().map(|x| one_of(x, va)).collect();
        }
        let mut sub = self.bsub();
        for x in alts_of(vb, self.b) {
            let x = if keep || Some(ib) == ia { x } else { one_of(x, vb) };
            let mut facts: Vec<(V, bool)> = x.facts.iter().map(|(f, b)| (sub.ap(*f), *b)).collect();
            facts.sort();
            facts.dedup();
            facts.retain(|f| f.0.as_bool().is_none());
            add_alt(&mut alts, Alt { t: sub.ap(x.t), facts });
        }
        let id = if self.cx.outer.is_empty() {
            id
        } else {
            let mut args = vec![id];
            args.extend(self.cx.outer.iter().copied());
            app("phi", args, None)
        };
        let id = if keep { ia.unwrap() } else { id };
        summ(id, len, alts)
    }
}
/// the collection `b` is `a` with elements added at its end
fn grown(b: V, a: V, n: usize) -> bool {
    if a == b {
        return true;
    }
    match b.n() {
        N::App(f, x) if n < 40 && (*f == "push" || *f == "append") => {
            let y = if let N::Summ(i, _, _) = x[0].n() { *i } else { x[0] };
            grown(y, a, n + 1)
        }
        _ => false,
    }
}
/// v = 8 * r + c
fn by8(v: V) -> Option<(Lin, i128)> {
    if let N::Lin(c, t) = v.n() {
        if t.iter().all(|x| x.1 % 8 == 0) {
            return Some((Lin { c: 0, t: t.iter().map(|x| (x.0, x.1 / 8)).collect() }, *c));
        }
    }
    None
}
pub fn is_coll(v: V) -> bool {
    matches!(v.n(), N::Seq(_) | N::Summ(..))
}
pub fn is_coll_term(v: V) -> bool {
    v.is_term() && v.ty().map(interp::is_coll_ty).unwrap_or(false)
}
pub fn add_alt(alts: &mut Vec<Alt>, n: Alt) {
    for a in alts.iter() {
        if a.t == n.t && a.facts.iter().all(|f| n.facts.contains(f)) {
            return;
        }
    }
    alts.retain(|a| !(a.t == n.t && n.facts.iter().all(|f| a.facts.contains(f))));
    let same = alts.iter().filter(|a| a.t == n.t).count();
    if same >= 3 {
        let mut inter = n.facts.clone();
        alts.retain(|a| {
            if a.t == n.t {
                inter.retain(|f| a.facts.contains(f));
                false
            } else {
                true
            }
        });
        alts.push(Alt { t: n.t, facts: inter });
    } else {
        alts.push(n);
    }
}
/// facts of `st` that talk about `t`
pub fn facts_about(t: V, st: &State) -> Vec<(V, bool)> {
    let ids = t.syms();
    if ids.is_empty() {
        return vec![];
    }
    let mut out: Vec<(V, bool)> = st.facts.list().into_iter().filter(|(f, _)| f.has_any_sym(ids)).collect();
    if crate::term::recs().is_some() {
        // what is known of names and types first
        fn of_rec(v: V) -> bool {
            let mut y = matches!(v.n(), N::App(f, _) if f.starts_with("rec."));
            children(v.n(), &mut |c| y = y || of_rec(c));
            y
        }
        out.sort_by_key(|(f, b)| (matches!(f.n(), N::Ge0(_) | N::Eq0(_)) as u8 + !of_rec(*f) as u8, *f, *b));
    } else {
        out.sort();
    }
    out.truncate(24);
    out
}
/// the element alternatives of a collection value
pub fn alts_of(v: V, st: &State) -> Vec<Alt> {
    match v.n() {
        N::Seq(e) => e.iter().map(|x| Alt { t: *x, facts: facts_about(*x, st) }).collect(),
        N::Summ(_, _, a) => a
            .iter()
            .map(|x| {
                if x.facts.is_empty() {
                    Alt { t: x.t, facts: facts_about(x.t, st) }
                } else {
                    x.clone()
                }
            })
            .collect(),
        N::App("subslice", a) if is_coll(part_of(v)) => alts_of(a[0], st),
        _ => vec![Alt { t: interp::any_elem(v), facts: vec![] }],
    }
}
/// what a part was taken from
fn part_of(v: V) -> V {
    match v.n() {
        N::App("subslice", a) => part_of(a[0]),
        _ => v,
    }
}

/// equal but for one integer argument (an index) somewhere inside
fn same_root(a: V, b: V, d: u32) -> bool {
    if a == b {
        return true;
    }
    if d == 0 {
        return false;
    }
    match (a.n(), b.n()) {
        (N::Field(x, k, i), N::Field(y, l, j)) => (k, i) == (l, j) && same_root(*x, *y, d - 1),
        (N::App(f, x), N::App(g, y)) if f == g && x.len() == y.len() && *f != "phi" && *f != "it" => {
            x.iter().zip(y.iter()).all(|(p, q)| same_root(*p, *q, d - 1) || (is_int_like(*p, None) && is_int_like(*q, None)))
        }
        _ => false,
    }
}
fn is_int_like(v: V, ty: Option<Ty>) -> bool {
    match v.n() {
        N::Lin(..) => true,
        N::Bool(_) | N::Ge0(_) | N::Eq0(_) | N::Not(_) | N::IsVar(..) => false,
        _ => ty.or(v.ty()).map(interp::is_int).unwrap_or(false),
    }
}

/// join `b` into `a`; None when `b` is already covered by `a`
pub fn join(a: &State, b: &State, mut cx: JoinCtx) -> Option<State> {
    let mut store = BTreeMap::new();
    let mut changed = false;
    let loc_ty = cx.loc_ty;
    let mut au = Au { cx: &mut cx, a, b, sig_a: HashMap::new(), sig_b: HashMap::new(), newphi: vec![], bmap: None, memo: HashMap::new(), pairs: HashMap::new(), shared: HashMap::new() };
    for (l, va) in &a.store {
        let vb = match b.store.get(l) {
            Some(v) => *v,
            None => {
                changed = true;
                continue;
            }
        };
        let v = au.au(*va, vb, loc_ty(*l), &format!("L{}_{}", l.0, l.1));
        if v != *va {
            changed = true;
        }
        store.insert(*l, v);
    }
    let newphi = au.newphi.clone();
    let sig_a = au.sig_a.clone();
    let sig_b = au.sig_b.clone();
    drop(au);
    let mut out = State { store, facts: Facts::default() };
    let mut sa = Subst::new(sig_a.clone());
    let mut sb = Subst::new(sig_b.clone());
    let mut ok = |f: V, t: bool, need_a: bool, out: &mut State| -> bool {
        if f.as_bool().is_some() {
            return true;
        }
        if need_a {
            if let N::Ge0(_) = f.n() {
                if out.facts.entails(f, t) {
                    return true;
                }
            }
            let fa = sa.ap(f);
            if !a.facts.entails(fa, t) {
                return false;
            }
        }
        let fb = sb.ap(f);
        if !b.facts.entails(fb, t) {
            return false;
        }
        put(&mut out.facts, f, t);
        true
    };
    // facts of the first side
    let old = a.facts.list();
    for (f, t) in &old {
        if !ok(*f, *t, false, &mut out) {
            changed = true;
            // an equation may leave an inequality behind
            if let (N::Eq0(l), true) = (f.n(), *t) {
                let l = Lin::of(*l);
                ok(ge0(&l), true, false, &mut out);
                ok(ge0(&l.scale(-1)), true, false, &mut out);
                // and what it said of bounds on one part goes for the other
                let parts = l.t.iter().filter(|_| cx.is_loop && (2..=3).contains(&l.t.len())).filter(|(_, k)| k.abs() == 1);
                let mut n = 0;
                for (x, k) in parts {
                    for (g, u) in &old {
                        let (N::Ge0(g), true) = (g.n(), *u) else { continue };
                        let g = Lin::of(*g);
                        let c = g.coef(*x);
                        if c == 0 || n > 24 {
                            continue;
                        }
                        n += 1;
                        let g = g.add(&l, -c * k);
                        if !g.is_const() {
                            ok(ge0(&g), true, true, &mut out);
                        }
                    }
                }
            }
        }
    }
    if !newphi.is_empty() {
        // generalised facts of both sides
        let mut ga: HashMap<V, V> = HashMap::new();
        let mut gb: HashMap<V, V> = HashMap::new();
        for p in &newphi {
            let (x, y) = (sig_a[p], sig_b[p]);
            if !x.syms().is_empty() && !matches!(x.n(), N::Lin(..)) {
                ga.entry(x).or_insert(*p);
            }
            if !y.syms().is_empty() && !matches!(y.n(), N::Lin(..)) {
                gb.entry(y).or_insert(*p);
            }
        }
        let mut sga = Subst::new(ga);
        let mut sgb = Subst::new(gb);
        for (f, t) in &old {
            let g = sga.ap(*f);
            if g != *f {
                ok(g, *t, true, &mut out);
            }
        }
        for (f, t) in b.facts.list() {
            let g = sgb.ap(f);
            if g != f {
                ok(g, t, true, &mut out);
            }
        }
        // facts about the parts of a sum that became one unknown
        for p in &newphi {
            for (y, fs) in [(sig_a[p], &old), (sig_b[p], &b.facts.list())] {
                if !matches!(y.n(), N::Lin(..)) {
                    continue;
                }
                let ly = Lin::of(y);
                let mut n = 0;
                for (x, k) in ly.t.iter().take(2) {
                    for (f, t) in fs.iter() {
                        let (l, both) = match f.n() {
                            N::Ge0(l) => (l, false),
                            N::Eq0(l) => (l, true),
                            _ => continue,
                        };
                        let l = Lin::of(*l);
                        let c = l.coef(*x);
                        if c == 0 || !*t || n > 24 {
                            continue;
                        }
                        n += 1;
                        let g = l.scale(k.abs()).add(&Lin::of(*p).sub(&ly), c * k.signum());
                        ok(ge0(&g), true, true, &mut out);
                        if both {
                            ok(ge0(&g.scale(-1)), true, true, &mut out);
                        }
                    }
                }
            }
        }
        // variant sets
        for p in &newphi {
            if p.ty().map(interp::is_enum).unwrap_or(false) {
                let m = a.facts.mask(sig_a[p]) | b.facts.mask(sig_b[p]);
                out.facts.set_mask(*p, m);
            }
        }
        numeric(a, b, &newphi, &sig_a, &sig_b, cx.is_loop, &mut out, &mut ok);
        cx.own.extend(newphi.iter().copied());
        changed = true;
    } else {
        // phis that already exist may gain variants
    }
    for p in cx.own.iter() {
        if newphi.contains(p) {
            continue;
        }
        if let (true, Some(vb)) = (p.ty().map(interp::is_enum).unwrap_or(false), sig_b.get(p)) {
            let ma = a.facts.mask(*p);
            let m = ma | b.facts.mask(*vb);
            out.facts.vars.remove(p);
            out.facts.set_mask(*p, m);
            if m != ma {
                changed = true;
            }
        }
    }
    if cx.is_loop && std::env::var("SA_JOIN").map(|p| cx.prefix.starts_with(&p)).unwrap_or(false) {
        eprintln!("JOIN {} changed {changed}\n A {}\n B {}\n O {}", cx.prefix, a.facts.show(), b.facts.show(), out.facts.show());
    }
    if changed {
        Some(out)
    } else {
        None
    }
}
/// insert an already justified fact without feasibility work
pub fn put(f: &mut Facts, p: V, t: bool) {
    match (p.n(), t) {
        (N::Ge0(l), true) => {
            f.ge.insert(*l);
        }
        (N::Eq0(l), true) => {
            f.eq.insert(*l);
        }
        (N::Eq0(l), false) => {
            f.ne.insert(*l);
        }
        (N::Not(x), _) => put(f, *x, !t),
        (N::IsVar(x, k), _) => {
            let m = f.mask(*x);
            let m2 = if t { m & (1 << *k) } else { m & !(1u64 << *k) };
            if m2 != 0 {
                f.set_mask(*x, m2);
            }
        }
        (N::Bool(_), _) => {}
        (N::Ge0(l), false) => {
            f.ge.insert(Lin::of(*l).scale(-1).plus(-1).v());
        }
        _ => {
            f.b.insert(p, t);
        }
    }
}
fn int_leaves(v: V, out: &mut Vec<V>, d: u32) {
    if d > 6 {
        return;
    }
    match v.n() {
        N::Adt(_, f) | N::Model(_, f) => f.iter().for_each(|x| int_leaves(*x, out, d + 1)),
        N::Seq(e) if e.len() <= 4 => e.iter().for_each(|x| int_leaves(*x, out, d + 1)),
        N::Summ(_, l, _) => int_leaves(*l, out, d + 1),
        N::Lin(..) => {
            if !out.contains(&v) {
                out.push(v)
            }
        }
        _ => {
            if v.is_term() {
                if v.ty().map(interp::is_int).unwrap_or(false) {
                    if !out.contains(&v) {
                        out.push(v)
                    }
                } else if v.ty().map(interp::is_coll_ty).unwrap_or(false) {
                    let l = len_of(v, interp::usize_ty());
                    if !out.contains(&l) {
                        out.push(l)
                    }
                }
            }
        }
    }
}
/// the least upper bound known for `l`, when it is below 2^17
fn sup(s: &State, l: &Lin) -> Option<i128> {
    if l.is_const() {
        return Some(l.c);
    }
    let le = |c: i128| s.facts.entails_ge(&l.scale(-1).plus(c));
    let mut hi = 1i128 << 17;
    if !le(hi) {
        return None;
    }
    let mut lo = -1i128;
    while hi - lo > 1 {
        let m = (hi + lo) / 2;
        if le(m) {
            hi = m
        } else {
            lo = m
        }
    }
    Some(hi)
}
fn numeric(
    a: &State,
    b: &State,
    newphi: &[V],
    sa: &HashMap<V, V>,
    sb: &HashMap<V, V>,
    is_loop: bool,
    out: &mut State,
    ok: &mut dyn FnMut(V, bool, bool, &mut State) -> bool,
) {
    let ints: Vec<V> = newphi.iter().copied().filter(|p| is_int_like(*p, None) || is_int_like(sa[p], None) || is_int_like(sb[p], None)).collect();
    if ints.is_empty() {
        return;
    }
    // unchanged integer leaves
    let mut leaves = vec![];
    for (_, v) in &out.store {
        int_leaves(*v, &mut leaves, 0);
    }
    let phis: HashSet<V> = sb.keys().copied().collect();
    leaves.retain(|l| !phis.contains(l));
    for (f, _) in a.facts.list().iter().chain(b.facts.list().iter()) {
        if let N::Ge0(l) = f.n() {
            for (x, _) in Lin::of(*l).t {
                if !phis.contains(&x) && !leaves.contains(&x) && out.store.values().any(|v| x.syms().iter().all(|s| v.syms().binary_search(s).is_ok())) {
                    leaves.push(x)
                }
            }
        }
    }
    leaves.truncate(40);
    // directed candidates: leaves of the same variable, leaves of facts learned on one side only
    let few = leaves.len() <= 6;
    let mut fresh_leaves: HashSet<V> = HashSet::new();
    if !few {
        let la: HashSet<(V, bool)> = a.facts.list().into_iter().collect();
        let lb: HashSet<(V, bool)> = b.facts.list().into_iter().collect();
        for (f, _) in la.symmetric_difference(&lb) {
            if let N::Ge0(l) = f.n() {
                for (x, _) in Lin::of(*l).t {
                    fresh_leaves.insert(x);
                }
            }
        }
    }
    // places a check has pinned
    for (l, v) in &out.store {
        if l.0 == 0 && (140..150).contains(&l.1) {
            fresh_leaves.insert(*v);
        }
    }
    let mut near: HashMap<V, HashSet<V>> = HashMap::new();
    if !few {
        for (_, v) in &out.store {
            if !ints.iter().any(|p| v.has_any_sym(p.syms())) {
                continue;
            }
            let mut ls = vec![];
            int_leaves(*v, &mut ls, 0);
            for p in &ints {
                if ls.iter().any(|x| x == p || Lin::of(*x).coef(*p) != 0) {
                    near.entry(*p).or_default().extend(ls.iter().flat_map(|x| Lin::of(*x).t.into_iter().map(|y| y.0).chain([*x])));
                }
            }
        }
    }
    for i in 0..ints.len() {
        for j in i + 1..ints.len() {
            let (p, q) = (ints[i], ints[j]);
            let (hp, hq) = (Lin::of(sa[&p]), Lin::of(sa[&q]));
            let (dp, dq) = (Lin::of(sb[&p]).sub(&hp), Lin::of(sb[&q]).sub(&hq));
            for k in [1i128, -1, 2, 8, -8, 16] {
                if dp == dq.scale(k) {
                    let e = Lin::of(p).sub(&hp).add(&Lin::of(q).sub(&hq), -k);
                    ok(eq0(&e), true, true, out);
                    break;
                }
            }
        }
    }
    for p in &ints {
        let h = Lin::of(sa[p]);
        let lp = Lin::of(*p);
        // constant bounds
        for c in [0i128, 1] {
            ok(ge0(&lp.plus(-c)), true, true, out);
        }
        let one = matches!(sb[p].n(), N::App(..));
        let bases = if is_loop && !one { vec![h.clone()] } else { vec![h.clone(), Lin::of(sb[p])] };
        for base in &bases {
            let mentions_phi = base.t.iter().any(|x| phis.iter().any(|q| x.0.has_any_sym(q.syms()) && *q == x.0));
            if !mentions_phi {
                ok(ge0(&lp.sub(base)), true, true, out);
                ok(ge0(&base.sub(&lp)), true, true, out);
            }
        }
        let none = HashSet::new();
        let nr = near.get(p).unwrap_or(&none);
        for u in &leaves {
            let lu = Lin::of(*u);
            if *u == *p || !(few || nr.contains(u) || fresh_leaves.contains(u)) {
                continue;
            }
            for k in [1i128, 8] {
                ok(ge0(&lu.scale(k).sub(&lp)), true, true, out);
            }
            if u.as_int().is_none() {
                ok(ge0(&lp.sub(&lu)), true, true, out);
            }
        }
    }
    // against the unknowns introduced before at the same place
    let mut older: Vec<V> = sb.keys().filter(|q| !newphi.contains(q) && (is_int_like(**q, None) || is_int_like(sb[*q], None))).copied().collect();
    // what a check counts matters most
    let ghosts: HashSet<V> = out.store.iter().filter(|(l, _)| l.0 == 0).map(|(_, v)| *v).collect();
    older.sort_by_key(|q| (!ghosts.contains(q), *q));
    older.truncate(12);
    for p in &ints {
        let lp = Lin::of(*p);
        for q in &older {
            let lq = Lin::of(*q);
            for f in [ge0(&lq.sub(&lp)), ge0(&lp.sub(&lq))] {
                // kept even if it follows for now: what it follows from may not stay
                if ok(f, true, true, out) && is_loop && ghosts.contains(q) {
                    put(&mut out.facts, f, true);
                }
            }
            // what is done and what is left
            if is_loop && (ghosts.contains(p) || ghosts.contains(q)) {
                for u in leaves.iter().filter(|u| u.as_int().is_none()).take(12) {
                    ok(ge0(&Lin::of(*u).sub(&lp).sub(&lq)), true, true, out);
                }
            }
        }
    }
    // the value on one side rewritten with an equation known there
    for p in &ints {
        let mut tried: HashSet<V> = HashSet::new();
        for (s, sg) in [(a, sa), (b, sb)] {
            let l = Lin::of(sg[p]);
            if l.is_const() {
                continue;
            }
            for q in s.facts.eq.iter() {
                let q = Lin::of(*q);
                for (t, k) in &q.t {
                    let c = l.coef(*t);
                    if c == 0 || c % k != 0 || tried.len() > 8 {
                        continue;
                    }
                    let l2 = l.add(&q, -(c / k));
                    if tried.insert(l2.v()) {
                        ok(eq0(&Lin::of(*p).sub(&l2)), true, true, out);
                    }
                }
            }
        }
    }
    // the least constant bound that holds on both sides
    if ints.len() <= 8 {
        for p in &ints {
            let (la, lb) = (Lin::of(sa[p]), Lin::of(sb[p]));
            if la.is_const() && lb.is_const() {
                if is_loop && la.c.max(lb.c) <= 1 {
                    ok(ge0(&Lin::of(*p).scale(-1).plus(la.c.max(lb.c))), true, true, out);
                }
                continue;
            }
            if let (Some(x), Some(y)) = (sup(a, &la), sup(b, &lb)) {
                ok(ge0(&Lin::of(*p).scale(-1).plus(x.max(y))), true, true, out);
            }
        }
    }
    for i in 0..ints.len() {
        for j in 0..ints.len() {
            if i == j {
                continue;
            }
            let (p, q) = (ints[i], ints[j]);
            let (hp, hq) = (Lin::of(sa[&p]), Lin::of(sa[&q]));
            let (ap, aq) = (Lin::of(sb[&p]), Lin::of(sb[&q]));
            let (dp, dq) = (ap.sub(&hp), aq.sub(&hq));
            let (lp, lq) = (Lin::of(p), Lin::of(q));
            // dp == k dq
            let mut ks = vec![];
            for k in [1i128, -1, 2, 8, -8, 16] {
                if dp == dq.scale(k) {
                    ks.push(k);
                    break;
                }
            }
            if ks.is_empty() && dp.is_const() && dq.is_const() && dq.c != 0 && dp.c % dq.c == 0 {
                ks.push(dp.c / dq.c);
            }
            for k in &ks {
                if i < j || *k != 1 {
                    let e = lp.sub(&hp).add(&lq.sub(&hq), -*k);
                    ok(eq0(&e), true, true, out);
                }
            }
            if ks.is_empty() {
                for k in [1i128, 8] {
                    let e = lp.sub(&hp).add(&lq.sub(&hq), -k);
                    ok(ge0(&e), true, true, out);
                    ok(ge0(&e.scale(-1)), true, true, out);
                }
            }
            ok(ge0(&lp.sub(&lq)), true, true, out);
            ok(ge0(&lq.scale(8).sub(&lp)), true, true, out);
            // sums with invariant leaves: p + q <= u, p + q == const
            if i < j {
                let e = lp.add(&lq, 1).sub(&hp).sub(&hq);
                ok(eq0(&e), true, true, out);
            }
        }
    }
    if !is_loop {
        return;
    }
    // byte lengths against bit counts: 8 len - 7 <= x <= 8 len
    let coll = |p: &V| p.ty().map(interp::is_coll_ty).unwrap_or(false);
    let mut lens: Vec<V> = sb.keys().filter(|p| coll(p)).map(|p| len_of(*p, interp::usize_ty())).collect();
    lens.sort();
    lens.truncate(4);
    if lens.is_empty() || leaves.len() > 12 {
        return;
    }
    let mut xs: Vec<V> = sb.keys().filter(|p| is_int_like(**p, None) || is_int_like(sb[*p], None)).copied().collect();
    xs.sort();
    xs.extend(leaves.iter().copied());
    for l in lens {
        let l8 = Lin::of(l).scale(8);
        for x in &xs {
            let lx = Lin::of(*x);
            if *x == l || lx.is_const() {
                continue;
            }
            ok(ge0(&l8.sub(&lx)), true, true, out);
            ok(ge0(&lx.plus(7).sub(&l8)), true, true, out);
        }
    }
}
