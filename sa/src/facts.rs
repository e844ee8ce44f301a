//! Path facts: linear inequalities over integer terms, variant sets of enum terms, truth of
//! opaque predicates, equalities of opaque terms.  Entailment is Fourier-Motzkin elimination on
//! the connected part of the constraint set (sound, incomplete).
use crate::interp;
use crate::term::*;
use rustc_middle::ty;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

#[derive(Clone, Default, PartialEq, Eq)]
pub struct Facts {
    pub ge: BTreeSet<V>,
    pub eq: BTreeSet<V>,
    pub ne: BTreeSet<V>,
    pub vars: BTreeMap<V, u64>,
    pub b: BTreeMap<V, bool>,
}

pub fn ty_range(t: Ty) -> Option<(i128, i128)> {
    Some(match t.kind() {
        ty::Uint(u) => match u {
            ty::UintTy::U8 => (0, 255),
            ty::UintTy::U16 => (0, 65535),
            ty::UintTy::U32 => (0, u32::MAX as i128),
            ty::UintTy::U64 | ty::UintTy::Usize => (0, u64::MAX as i128),
            ty::UintTy::U128 => (0, i128::MAX / 4),
        },
        ty::Int(u) => match u {
            ty::IntTy::I8 => (-128, 127),
            ty::IntTy::I16 => (-32768, 32767),
            ty::IntTy::I32 => (i32::MIN as i128, i32::MAX as i128),
            ty::IntTy::I64 | ty::IntTy::Isize => (i64::MIN as i128, i64::MAX as i128),
            ty::IntTy::I128 => (i128::MIN / 4, i128::MAX / 4),
        },
        ty::Char => (0, 0x10ffff),
        ty::Bool => (0, 1),
        _ => return None,
    })
}
/// can `v` be a (possibly empty) string or collection
fn is_strlike(v: V) -> bool {
    !matches!(v.n(), N::Lin(..)) && !v.ty().map(interp::is_int).unwrap_or(false)
}
fn axioms(a: V, out: &mut Vec<Lin>) {
    let la = Lin { c: 0, t: vec![(a, 1)] };
    if let Some(t) = a.ty() {
        if let Some((lo, hi)) = ty_range(t) {
            out.push(la.plus(-lo));
            out.push(la.scale(-1).plus(hi));
        }
    }
    if let N::App(f, x) = a.n() {
        match *f {
            "len" => {
                out.push(la.clone());
                // no collection has more than 2^56 elements (assumption: no machine can address them)
                out.push(la.scale(-1).plus(1 << 56));
                if let N::App(g, y) = x[0].n() {
                    let whole = |v: V| Lin::of(len_of(v, interp::usize_ty()));
                    match *g {
                        "chars" | "char_indices" => {
                            out.push(whole(y[0]).sub(&la));
                            out.push(la.scale(4).sub(&whole(y[0])));
                        }
                        "elem" => {
                            if let N::App(h, z) = y[0].n() {
                                if matches!(*h, "split" | "rsplit" | "splitn" | "split_terminator" | "lines" | "split_whitespace") {
                                    out.push(whole(z[0]).sub(&la));
                                }
                            }
                        }
                        "split" | "rsplit" => {
                            out.push(whole(y[0]).plus(1).sub(&la));
                            out.push(la.plus(-1));
                        }
                        _ => {}
                    }
                }
            }
            "div" if x.len() == 2 => {
                if let Some(c) = x[1].as_int() {
                    if c > 0 {
                        let l = Lin::of(x[0]);
                        out.push(l.add(&la, -c)); // x - c q >= 0
                        out.push(la.scale(c).plus(c - 1).sub(&l)); // c q + c-1 - x >= 0
                    }
                }
            }
            "rem" if x.len() == 2 => {
                if let Some(c) = x[1].as_int() {
                    if c > 0 {
                        let l = Lin::of(x[0]);
                        let q = app("div", vec![x[0], x[1]], a.ty());
                        let e = l.add(&Lin::of(q), -c).sub(&la);
                        out.push(e.clone());
                        out.push(e.scale(-1));
                        out.push(la.scale(-1).plus(c - 1));
                        out.push(la.clone());
                    }
                }
            }
            "b2i" => {
                out.push(la.clone());
                out.push(la.scale(-1).plus(1));
            }
            "and" if x.len() == 2 => {
                for (p, _q) in [(x[0], x[1]), (x[1], x[0])] {
                    out.push(Lin::of(p).sub(&la));
                }
                out.push(la.clone());
            }
            "or" if x.len() == 2 => {
                out.push(la.sub(&Lin::of(x[0])));
                out.push(la.sub(&Lin::of(x[1])));
                out.push(Lin::of(x[0]).add(&Lin::of(x[1]), 1).sub(&la));
            }
            "min" if x.len() == 2 => {
                out.push(Lin::of(x[0]).sub(&la));
                out.push(Lin::of(x[1]).sub(&la));
            }
            "max" if x.len() == 2 => {
                out.push(la.sub(&Lin::of(x[0])));
                out.push(la.sub(&Lin::of(x[1])));
            }
            _ => {}
        }
    }
}

/// is the conjunction of `cs` (each >= 0) unsatisfiable (over the integers, incomplete)?
fn fm_unsat(mut cs: Vec<Lin>) -> bool {
    let dedupe = |cs: Vec<Lin>| -> Option<Vec<Lin>> {
        let mut best: HashMap<Vec<(V, i128)>, i128> = HashMap::new();
        for c in cs {
            let c = c.norm_ge();
            if c.is_const() {
                if c.c < 0 {
                    return None;
                }
                continue;
            }
            let e = best.entry(c.t).or_insert(c.c);
            if c.c < *e {
                *e = c.c;
            }
        }
        let mut v: Vec<Lin> = best.into_iter().map(|(t, c)| Lin { c, t }).collect();
        v.sort_by(|a, b| (a.t.len(), &a.t, a.c).cmp(&(b.t.len(), &b.t, b.c)));
        Some(v)
    };
    let mut rounds = 0;
    loop {
        cs = match dedupe(cs) {
            None => return true,
            Some(c) => c,
        };
        if cs.is_empty() || cs.len() > 400 {
            return false;
        }
        // equalities: pairs l>=0 and -l>=0 with unit coefficient -> substitute
        let mut sub: Option<(V, Lin)> = None;
        {
            let set: HashMap<&Vec<(V, i128)>, i128> = cs.iter().map(|c| (&c.t, c.c)).collect();
            for c in &cs {
                let neg: Vec<(V, i128)> = c.t.iter().map(|x| (x.0, -x.1)).collect();
                if let Some(k) = set.get(&neg) {
                    if *k + c.c < 0 {
                        return true;
                    }
                    if *k == -c.c {
                        if let Some((v, s)) = c.t.iter().find(|x| x.1.abs() == 1) {
                            // s*v + rest + c = 0  -> v = -s*(rest + c)
                            let mut rest = c.clone();
                            rest.t.retain(|x| x.0 != *v);
                            sub = Some((*v, rest.scale(-*s)));
                            break;
                        }
                    }
                }
            }
        }
        if let Some((v, e)) = sub {
            cs = cs
                .into_iter()
                .map(|c| {
                    let k = c.coef(v);
                    if k == 0 {
                        c
                    } else {
                        let mut c2 = c;
                        c2.t.retain(|x| x.0 != v);
                        c2.add(&e, k)
                    }
                })
                .collect();
            continue;
        }
        rounds += 1;
        if rounds > 40 {
            return false;
        }
        let mut cnt: BTreeMap<V, (usize, usize)> = BTreeMap::new();
        for c in &cs {
            for (v, k) in &c.t {
                let e = cnt.entry(*v).or_default();
                if *k > 0 {
                    e.0 += 1
                } else {
                    e.1 += 1
                }
            }
        }
        let (v, _) = cnt.iter().min_by_key(|(_, (p, n))| (p * n) as isize - (p + n) as isize).map(|(v, x)| (*v, *x)).unwrap();
        let (mut pos, mut neg, mut rest) = (vec![], vec![], vec![]);
        for c in cs {
            let k = c.coef(v);
            if k > 0 {
                pos.push((c, k))
            } else if k < 0 {
                neg.push((c, -k))
            } else {
                rest.push(c)
            }
        }
        if pos.len() * neg.len() > 900 {
            // give up on this variable
            cs = rest;
            continue;
        }
        for (p, kp) in &pos {
            for (n, kn) in &neg {
                let g = gcd(*kp, *kn);
                let c = p.scale(kn / g).add(n, kp / g);
                if c.t.iter().any(|x| x.1.abs() > (1i128 << 90)) {
                    continue;
                }
                rest.push(c);
            }
        }
        cs = rest;
    }
}

impl Facts {
    fn relevant(&self, q: &[Lin]) -> Vec<Lin> {
        let mut atoms: HashSet<V> = HashSet::new();
        let mut work: Vec<V> = vec![];
        let mut out: Vec<Lin> = q.to_vec();
        for l in q {
            for (v, _) in &l.t {
                if atoms.insert(*v) {
                    work.push(*v)
                }
            }
        }
        if self.ge.is_empty() && self.eq.is_empty() {
            // only axioms
        }
        let all: Vec<(Lin, bool)> =
            self.ge.iter().map(|v| (Lin::of(*v), false)).chain(self.eq.iter().map(|v| (Lin::of(*v), true))).collect();
        let mut used = vec![false; all.len()];
        let mut idx: HashMap<V, Vec<usize>> = HashMap::new();
        for (i, (l, _)) in all.iter().enumerate() {
            for (v, _) in &l.t {
                idx.entry(*v).or_default().push(i);
            }
        }
        let mut k = 0;
        while k < work.len() {
            let a = work[k];
            k += 1;
            let mut add = |l: &Lin, work: &mut Vec<V>| {
                for (v, _) in &l.t {
                    if atoms.insert(*v) {
                        work.push(*v)
                    }
                }
            };
            let mut ax = vec![];
            axioms(a, &mut ax);
            for l in ax {
                add(&l, &mut work);
                out.push(l);
            }
            if let Some(ix) = idx.get(&a) {
                for i in ix {
                    if !used[*i] {
                        used[*i] = true;
                        let (l, e) = &all[*i];
                        add(l, &mut work);
                        out.push(l.clone());
                        if *e {
                            out.push(l.scale(-1));
                        }
                    }
                }
            }
            if out.len() > 260 {
                break;
            }
        }
        // disequalities tighten bounds
        if !self.ne.is_empty() {
            let mut extra = vec![];
            for n in &self.ne {
                let l = Lin::of(*n);
                if l.t.iter().all(|x| atoms.contains(&x.0)) && extra.len() < 12 {
                    let mut c = out.clone();
                    c.push(l.scale(-1).plus(-1).clone());
                    if fm_unsat(c) {
                        extra.push(l.plus(-1));
                        continue;
                    }
                    let mut c = out.clone();
                    c.push(l.plus(-1));
                    if fm_unsat(c) {
                        extra.push(l.scale(-1).plus(-1));
                    }
                }
            }
            out.extend(extra);
        }
        out
    }
    pub fn unsat_with(&self, q: &[Lin]) -> bool {
        fm_unsat(self.relevant(q))
    }
    pub fn entails_ge(&self, l: &Lin) -> bool {
        if l.is_const() {
            return l.c >= 0;
        }
        let v = l.norm_ge().v();
        if self.ge.contains(&v) || self.eq.contains(&v) {
            return true;
        }
        self.unsat_with(&[l.scale(-1).plus(-1)])
    }
    pub fn entails_eq(&self, l: &Lin) -> bool {
        if l.is_const() {
            return l.c == 0;
        }
        self.entails_ge(l) && self.entails_ge(&l.scale(-1))
    }
    pub fn entails_ne(&self, l: &Lin) -> bool {
        if l.is_const() {
            return l.c != 0;
        }
        let v = if l.t[0].1 < 0 { l.scale(-1) } else { l.clone() }.v();
        if self.ne.contains(&v) {
            return true;
        }
        self.unsat_with(&[l.clone(), l.scale(-1)])
    }
    pub fn lower(&self, l: &Lin, c: i128) -> bool {
        self.entails_ge(&l.plus(-c))
    }
    pub fn mask(&self, t: V) -> u64 {
        if let N::Adt(v, _) = t.n() {
            return 1 << (*v).min(63);
        }
        if let Some(l) = rec_of(t) {
            let m = self.mask(rec_kind(t));
            return l.kinds.iter().enumerate().filter(|(_, k)| m & (1 << **k) != 0).fold(0, |a, (i, _)| a | 1 << i);
        }
        let mut full = interp::full_mask(t.ty());
        if let (N::App(f, _), Some(l)) = (t.n(), recs()) {
            if *f == "rec.type" {
                full &= l.kinds.iter().fold(0, |a, k| a | 1u64 << *k);
            }
        }
        let mut m = match self.vars.get(&t) {
            Some(m) => *m & full,
            None => full,
        };
        // equal terms share their variants
        if let Some(_) = t.ty() {
            for (k, b) in &self.b {
                if *b {
                    if let N::App(f, a) = k.n() {
                        if *f == "eq" {
                            let o = if a[0] == t { a[1] } else if a[1] == t { a[0] } else { continue };
                            if let N::Adt(v, _) = o.n() {
                                m &= 1 << (*v).min(63);
                            } else if let Some(x) = self.vars.get(&o) {
                                m &= *x;
                            }
                        }
                    }
                }
            }
        }
        m
    }
    fn single_discr(l: &Lin) -> Option<(V, i128, i128)> {
        if l.t.len() == 1 {
            if let N::App(f, a) = l.t[0].0.n() {
                if *f == "discr" {
                    return Some((a[0], l.t[0].1, l.c));
                }
            }
        }
        None
    }
    fn discr_mask(&self, t: V, pred: &dyn Fn(i128) -> bool) -> (u64, u64) {
        // (variants satisfying, variants not satisfying) among the possible ones
        let m = self.mask(t);
        let (mut y, mut n) = (0, 0);
        for k in 0..63u32 {
            if m & (1 << k) != 0 {
                if pred(interp::discr_value(t.ty(), k)) {
                    y |= 1 << k
                } else {
                    n |= 1 << k
                }
            }
        }
        (y, n)
    }
    pub fn classes(&self, a: V) -> Vec<V> {
        let mut cl = vec![a];
        let mut i = 0;
        while i < cl.len() {
            for (k, b) in &self.b {
                if *b {
                    if let N::App(f, x) = k.n() {
                        if *f == "eq" {
                            for (p, q) in [(x[0], x[1]), (x[1], x[0])] {
                                if p == cl[i] && !cl.contains(&q) {
                                    cl.push(q)
                                }
                            }
                        }
                    }
                }
            }
            i += 1;
        }
        cl
    }
    pub fn query(&self, b: V) -> Option<bool> {
        match b.n() {
            N::Bool(x) => Some(*x),
            N::Not(x) => self.query(*x).map(|y| !y),
            N::Ge0(l) => {
                let l = Lin::of(*l);
                if let Some((t, k, c)) = Self::single_discr(&l) {
                    let (y, n) = self.discr_mask(t, &|d| k * d + c >= 0);
                    return if n == 0 { Some(true) } else if y == 0 { Some(false) } else { None };
                }
                if self.entails_ge(&l) {
                    return Some(true);
                }
                if self.entails_ge(&l.scale(-1).plus(-1)) {
                    return Some(false);
                }
                None
            }
            N::Eq0(l) => {
                let l = Lin::of(*l);
                if let Some((t, k, c)) = Self::single_discr(&l) {
                    let (y, n) = self.discr_mask(t, &|d| k * d + c == 0);
                    return if n == 0 { Some(true) } else if y == 0 { Some(false) } else { None };
                }
                if l.t.len() == 2 && l.c == 0 {
                    if let (N::App(f, a), N::App(g, c)) = (l.t[0].0.n(), l.t[1].0.n()) {
                        if *f == "discr" && *g == "discr" && l.t[0].1 == -l.t[1].1 {
                            let (m1, m2) = (self.mask(a[0]), self.mask(c[0]));
                            if m1 & m2 == 0 {
                                return Some(false);
                            }
                            if m1 == m2 && m1.count_ones() == 1 {
                                return Some(true);
                            }
                        }
                    }
                }
                if self.entails_ne(&l) {
                    return Some(false);
                }
                if self.entails_eq(&l) {
                    return Some(true);
                }
                None
            }
            N::IsVar(t, k) => {
                let m = self.mask(*t);
                if m == 1 << k {
                    Some(true)
                } else if m & (1 << k) == 0 {
                    Some(false)
                } else {
                    None
                }
            }
            N::App(f, a) => {
                if let Some(x) = self.b.get(&b) {
                    return Some(*x);
                }
                if *f == "eq" {
                    let ca = self.classes(a[0]);
                    if ca.contains(&a[1]) {
                        return Some(true);
                    }
                    let cb = self.classes(a[1]);
                    for x in &ca {
                        for y in &cb {
                            if let (N::Str(p), N::Str(q)) = (x.n(), y.n()) {
                                if p != q {
                                    return Some(false);
                                }
                            }
                            if let (N::Adt(p, _), N::Adt(q, _)) = (x.n(), y.n()) {
                                if p != q {
                                    return Some(false);
                                }
                            }
                            if self.b.get(&eqv(*x, *y)) == Some(&false) {
                                return Some(false);
                            }
                        }
                    }
                    let (m1, m2) = (self.mask(a[0]), self.mask(a[1]));
                    if m1 & m2 == 0 {
                        return Some(false);
                    }
                    return None;
                }
                if a.is_empty() {
                    return None;
                }
                // congruence over known equalities
                if self.b.iter().any(|(k, b)| *b && matches!(k.n(), N::App(f,_) if *f=="eq")) {
                    let cls: Vec<Vec<V>> = a.iter().map(|x| self.classes(*x)).collect();
                    for (k, v) in &self.b {
                        if let N::App(g, x) = k.n() {
                            if g == f && x.len() == a.len() && x.iter().zip(&cls).all(|(p, c)| c.contains(p)) {
                                return Some(*v);
                            }
                        }
                    }
                }
                None
            }
            _ => self.b.get(&b).copied(),
        }
    }
    /// add `b == truth`; false when it contradicts what is known
    pub fn assume(&mut self, b: V, truth: bool) -> bool {
        match b.n() {
            N::Bool(x) => return *x == truth,
            N::Not(x) => return self.assume(*x, !truth),
            N::IsVar(t, k) => {
                let m = self.mask(*t);
                let m2 = if truth { m & (1 << k) } else { m & !(1u64 << k) };
                return self.set_mask(*t, m2);
            }
            N::Ge0(l) => {
                let mut l = Lin::of(*l);
                if !truth {
                    l = l.scale(-1).plus(-1);
                }
                if let Some((t, k, c)) = Self::single_discr(&l) {
                    let (y, _) = self.discr_mask(t, &|d| k * d + c >= 0);
                    return self.set_mask(t, y);
                }
                return self.add_ge(l);
            }
            N::Eq0(l) => {
                let l = Lin::of(*l);
                if let Some((t, k, c)) = Self::single_discr(&l) {
                    let (y, n) = self.discr_mask(t, &|d| k * d + c == 0);
                    return self.set_mask(t, if truth { y } else { n });
                }
                if l.t.len() == 2 && l.c == 0 {
                    if let (N::App(f, a), N::App(g, c)) = (l.t[0].0.n(), l.t[1].0.n()) {
                        if *f == "discr" && *g == "discr" && l.t[0].1 == -l.t[1].1 {
                            let (m1, m2) = (self.mask(a[0]), self.mask(c[0]));
                            if truth {
                                if m1 & m2 == 0 {
                                    return false;
                                }
                                let fieldless = interp::fieldless(a[0].ty());
                                if !(self.set_mask(a[0], m1 & m2) && self.set_mask(c[0], m1 & m2)) {
                                    return false;
                                }
                                if fieldless {
                                    let e = eqv(a[0], c[0]);
                                    if e.as_bool().is_none() {
                                        self.b.insert(e, true);
                                    }
                                }
                            } else {
                                if m1 == m2 && m1.count_ones() == 1 {
                                    return false;
                                }
                                if m1.count_ones() == 1 {
                                    if !self.set_mask(c[0], m2 & !m1) {
                                        return false;
                                    }
                                } else if m2.count_ones() == 1 && !self.set_mask(a[0], m1 & !m2) {
                                    return false;
                                }
                                self.ne.insert(l.v());
                            }
                            return true;
                        }
                    }
                }
                if truth {
                    if self.entails_ne(&l) {
                        return false;
                    }
                    self.eq.insert(l.v());
                    return true;
                } else {
                    if self.entails_eq(&l) {
                        return false;
                    }
                    if self.entails_ge(&l) {
                        return self.add_ge(l.plus(-1));
                    }
                    if self.entails_ge(&l.scale(-1)) {
                        return self.add_ge(l.scale(-1).plus(-1));
                    }
                    self.ne.insert(l.v());
                    return true;
                }
            }
            _ => {
                match self.query(b) {
                    Some(x) if x != truth => return false,
                    _ => {}
                }
                self.b.insert(b, truth);
                if let N::App(f, a) = b.n() {
                    if truth && matches!(*f, "starts_with" | "ends_with" | "contains") && a.len() == 2 {
                        let n = match a[1].n() {
                            N::Str(x) => x.len() as i128,
                            _ => (!is_strlike(a[1])) as i128,
                        };
                        if n > 0 && !self.add_ge(Lin::of(len_of(a[0], interp::usize_ty())).plus(-n)) {
                            return false;
                        }
                    }
                    if *f == "eq" {
                        let (m1, m2) = (self.mask(a[0]), self.mask(a[1]));
                        if truth {
                            let m = m1 & m2;
                            if m == 0 {
                                return false;
                            }
                        } else if interp::fieldless(a[0].ty().or(a[1].ty())) {
                            if m1.count_ones() == 1 {
                                return self.set_mask(a[1], m2 & !m1);
                            }
                            if m2.count_ones() == 1 {
                                return self.set_mask(a[0], m1 & !m2);
                            }
                        }
                    }
                }
                true
            }
        }
    }
    pub fn add_ge(&mut self, l: Lin) -> bool {
        if l.is_const() {
            return l.c >= 0;
        }
        let l = l.norm_ge();
        let v = l.v();
        if self.ge.contains(&v) {
            return true;
        }
        if self.unsat_with(&[l.clone()]) {
            return false;
        }
        // drop weaker facts with the same linear part
        let weaker: Vec<V> = self
            .ge
            .iter()
            .filter(|x| {
                let y = Lin::of(**x);
                y.t == l.t && y.c >= l.c
            })
            .copied()
            .collect();
        for w in weaker {
            self.ge.remove(&w);
        }
        self.ge.insert(v);
        true
    }
    pub fn set_mask(&mut self, t: V, m: u64) -> bool {
        if m == 0 {
            return false;
        }
        if let N::Adt(v, _) = t.n() {
            return m & (1 << (*v).min(63)) != 0;
        }
        if let Some(l) = rec_of(t) {
            let m = l.kinds.iter().enumerate().filter(|(i, _)| m & (1 << *i) != 0).fold(0, |a, (_, k)| a | 1u64 << *k);
            return self.set_mask(rec_kind(t), m);
        }
        let mut full = interp::full_mask(t.ty());
        if let (N::App(f, _), Some(l)) = (t.n(), recs()) {
            if *f == "rec.type" {
                full = l.kinds.iter().fold(0, |a, k| a | 1u64 << *k);
                if m & full == 0 {
                    return false;
                }
            }
        }
        if m & full != full {
            self.vars.insert(t, m);
        }
        true
    }
    /// all facts as (predicate, truth) pairs; variant sets as disjunctions are given by `masks`
    pub fn list(&self) -> Vec<(V, bool)> {
        let mut out = vec![];
        for g in &self.ge {
            out.push((ge0(&Lin::of(*g)), true));
        }
        for g in &self.eq {
            out.push((eq0(&Lin::of(*g)), true));
        }
        for g in &self.ne {
            out.push((eq0(&Lin::of(*g)), false));
        }
        for (k, b) in &self.b {
            out.push((*k, *b));
        }
        for (t, m) in &self.vars {
            let full = interp::full_mask(t.ty());
            if m.count_ones() == 1 {
                out.push((intern(N::IsVar(*t, m.trailing_zeros()), None), true));
            } else {
                for k in 0..63 {
                    if full & (1 << k) != 0 && m & (1 << k) == 0 {
                        out.push((intern(N::IsVar(*t, k), None), false));
                    }
                }
            }
        }
        out
    }
    pub fn entails(&self, f: V, truth: bool) -> bool {
        self.query(f) == Some(truth)
    }
    /// eliminate the leaves that are not live from the linear facts, keeping what follows from them
    fn project(&mut self, ok: &dyn Fn(&V) -> bool) {
        if self.ge.iter().all(ok) && self.eq.iter().all(ok) && self.ne.iter().all(ok) {
            return;
        }
        let mut rounds = 0;
        loop {
            rounds += 1;
            let mut pick: Option<(V, V)> = None;
            for g in &self.eq {
                if let Some((x, _)) = Lin::of(*g).t.iter().find(|(x, c)| c.abs() == 1 && !ok(x)) {
                    pick = Some((*g, *x));
                    break;
                }
            }
            if pick.is_none() {
                pick = self.eq.iter().find_map(|g| Lin::of(*g).t.iter().find(|(x, _)| !ok(x)).map(|(x, _)| (*g, *x)));
            }
            let Some((g, x)) = pick else { break };
            let def = Lin::of(g);
            self.eq.remove(&g);
            let c = def.coef(x);
            let sub = |l: &Lin| -> Lin { l.scale(c.abs()).add(&def, -l.coef(x) * c.signum()) };
            let take = |s: &mut BTreeSet<V>| -> Vec<Lin> {
                let v: Vec<V> = s.iter().filter(|y| Lin::of(**y).coef(x) != 0).copied().collect();
                for y in &v {
                    s.remove(y);
                }
                v.into_iter().map(Lin::of).collect()
            };
            for l in take(&mut self.ge) {
                let n = sub(&l);
                if !n.is_const() {
                    self.ge.insert(n.norm_ge().v());
                }
            }
            for l in take(&mut self.eq) {
                let n = sub(&l);
                if !n.is_const() {
                    put_lin(&mut self.eq, n);
                }
            }
            for l in take(&mut self.ne) {
                let n = sub(&l);
                if !n.is_const() {
                    put_lin(&mut self.ne, n);
                }
            }
            if rounds > 64 {
                break;
            }
        }
        let mut dead: BTreeSet<V> = BTreeSet::new();
        for g in &self.ge {
            for (x, _) in Lin::of(*g).t {
                if !ok(&x) {
                    dead.insert(x);
                }
            }
        }
        for x in dead.into_iter().take(40) {
            let all: Vec<Lin> = self.ge.iter().map(|g| Lin::of(*g)).filter(|l| l.coef(x) != 0).collect();
            let lo: Vec<&Lin> = all.iter().filter(|l| l.coef(x) > 0).collect();
            let up: Vec<&Lin> = all.iter().filter(|l| l.coef(x) < 0).collect();
            let n = lo.len() * up.len();
            for l in &all {
                self.ge.remove(&l.v());
            }
            if n > 0 && n <= 36 {
                for a in &lo {
                    for b in &up {
                        let r = a.scale(-b.coef(x)).add(&b.scale(a.coef(x)), 1);
                        if !r.is_const() && r.t.len() <= 5 {
                            let r = r.norm_ge();
                            if !self.ge.iter().any(|y| {
                                let y = Lin::of(*y);
                                y.t == r.t && y.c <= r.c
                            }) {
                                self.ge.insert(r.v());
                            }
                        }
                    }
                }
            }
        }
    }
    /// say what is known of things about to be forgotten of what they are equal to
    fn rename_dead(&mut self, ok: &dyn Fn(&V) -> bool) {
        for _ in 0..4 {
            let mut m: HashMap<V, V> = HashMap::new();
            let both = self.ge.iter().map(|q| Lin::of(*q)).filter(|l| self.ge.contains(&l.scale(-1).v()));
            for l in self.eq.iter().map(|q| Lin::of(*q)).chain(both) {
                let dead: Vec<&(V, i128)> = l.t.iter().filter(|x| !ok(&x.0)).collect();
                let [(x, k)] = dead[..] else { continue };
                if k.abs() == 1 && !m.contains_key(x) {
                    m.insert(*x, Lin::of(*x).sub(&l.scale(k.signum())).v());
                }
            }
            if m.is_empty() {
                return;
            }
            let mut s = Subst::new(m);
            let b: Vec<(V, bool)> = self.b.iter().filter(|x| !ok(x.0)).map(|x| (*x.0, *x.1)).collect();
            let vars: Vec<(V, u64)> = self.vars.iter().filter(|x| !ok(x.0)).map(|x| (*x.0, *x.1)).collect();
            let mut any = false;
            for (f, t) in b {
                let g = s.ap(f);
                if g != f {
                    any = true;
                    self.b.remove(&f);
                    self.assume(g, t);
                }
            }
            for (f, k) in vars {
                let g = s.ap(f);
                if g != f {
                    any = true;
                    self.vars.remove(&f);
                    let k = k & self.mask(g);
                    self.set_mask(g, k);
                }
            }
            if !any {
                return;
            }
        }
    }
    /// keep only facts all of whose leaves are in `live`
    pub fn gc(&mut self, live: &HashSet<u32>) {
        let ok = |v: &V| v.syms().iter().all(|s| live.contains(s));
        if recs().is_some() {
            self.rename_dead(&ok);
        }
        self.project(&ok);
        self.ge.retain(ok);
        self.eq.retain(ok);
        self.ne.retain(ok);
        self.vars.retain(|k, _| ok(k));
        self.b.retain(|k, _| ok(k));
    }
    pub fn show(&self) -> String {
        let mut s = vec![];
        for (f, b) in self.list() {
            s.push(format!("{}{}", if b { "" } else { "!" }, show(f)));
        }
        s.join(" && ")
    }
}

fn put_lin(s: &mut BTreeSet<V>, l: Lin) {
    let l = if l.t[0].1 < 0 { l.scale(-1) } else { l };
    s.insert(l.v());
}
