//! The layout of headers, questions and records on the wire (C05, C06, C07).
//! Writers: every write to the buffer is logged with its position, width and value, and the log of
//! each path is compared with the layout.  Readers: every field of a decoded value is compared with
//! the bits at its place.
use super::base::*;
use super::tables::{num, pin_variant};
use super::wire::*;
use super::*;
use crate::models;
use std::collections::HashMap;

pub struct L {
    pub b: B,
}
pub fn name_wire(n: V, t: Ty) -> V {
    app("name_wire", vec![n], Some(t))
}
impl Hooks for L {
    fn call(&mut self, e: &mut Engine, st: &State, c: &Call) -> Option<Vec<(State, V)>> {
        if let Some(r) = self.b.handle(e, st, c) {
            return Some(r);
        }
        let d = c.inst?.def_id();
        if Some(d) == self.b.root || !local_crate(d) || !matches!(tcx().def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            return None;
        }
        // a name to its wire form
        let (i, o) = sig_of(d);
        if i.len() == 1 && Some(peel(i[0])) == find_adt("dns::name::Name") && is_bytes_vec(o) {
            let n = e.snap(st, c.args[0], 0);
            let v = name_wire(n, peel(c.ret_ty));
            let mut s = st.clone();
            let l = Lin::of(models::coll_len(v));
            s.assume(ge0(&l.plus(-1)), true);
            s.assume(ge0(&l.scale(-1).plus(256)), true);
            return Some(vec![(s, v)]);
        }
        base_call(e, st, c)
    }
}
pub fn is_bytes_vec(t: Ty) -> bool {
    match t.kind() {
        ty::Adt(_, a) => adt_path(t).as_deref() == Some("std::vec::Vec") && norm(a.type_at(0)) == tcx().types.u8,
        _ => false,
    }
}
/// the functions that write a value of type `t` to the buffer
pub fn encoders(t: Ty, buf: Ty) -> Vec<DefId> {
    let mut v: Vec<DefId> = local_fns()
        .into_iter()
        .filter(|(_, d)| {
            let (i, _) = sig_of(*d);
            i.len() == 2 && peel(i[0]) == t && is_mut_ref(i[1], buf)
        })
        .map(|x| x.1)
        .collect();
    v.sort_by_key(|d| path_of(*d));
    v
}
fn decoders_of(t: Ty, buf: Ty) -> Vec<DefId> {
    let mut v: Vec<DefId> = decoders(buf)
        .keys()
        .copied()
        .filter(|d| match sig_of(*d).1.kind() {
            ty::Adt(_, g) => norm(g.type_at(0)) == t,
            _ => false,
        })
        .collect();
    v.sort_by_key(|d| path_of(*d));
    v
}
struct Run {
    d: DefId,
    rets: Vec<(State, V)>,
    before: Vec<V>,
    bufs: Vec<(State, V, Vec<V>)>, // state, result, buffer fields
    arg: V,
}
/// run a reader or writer; `pin` prepares the value written
fn go(r: &mut Report, ro: Roles, d: DefId, log: bool, pin: &dyn Fn(&mut Engine, &mut State, V) -> V) -> Run {
    let mut b = B::new(ro);
    b.contracts = decoders(ro.t).into_iter().filter(|x| x.1 == Kind::Name).collect();
    b.root = Some(d);
    b.log = log;
    let mut e = Engine::new();
    e.split_zero = true;
    let mut st = State::default();
    let inst = concrete_instance(d);
    let mut args = sym_args(inst, &mut st);
    for a in &args {
        e.pinned.extend(a.syms().iter());
    }
    let bi = args.len() - 1;
    let p = init_buf(&b, &mut e, &mut st, &args, log);
    let before = p.map(|p| b.fields(&st, e.deref(&st, p))).unwrap_or_default();
    for f in &before {
        e.pinned.extend(f.syms().iter());
    }
    if log {
        st.set(G_LOG, model("log", vec![]));
    }
    if bi > 0 {
        args[0] = pin(&mut e, &mut st, args[0]);
    }
    let arg = args[0];
    e.unroll = if log { 6 } else { 0 };
    e.hooks = Some(Box::new(L { b }));
    let rets = e.root(inst, args.clone(), st);
    r.roots.push(path_of(d));
    let b2 = B::new(ro);
    let bufs = rets.iter().map(|(s, v)| (s.clone(), *v, p.map(|p| b2.fields(s, e.deref(s, p))).unwrap_or_default())).collect();
    keep(&mut e, "");
    r.take(&mut e);
    Run { d, rets, before, bufs, arg }
}
fn eqq(s: &State, a: &Lin, b: &Lin) -> bool {
    s.query(eq0(&a.sub(b))) == Some(true)
}
/// the log of a path: position, width, value; None when the writes are not back to back
fn log_of(s: &State, w0: &Lin) -> Option<Vec<(Lin, Lin, V)>> {
    let N::Model(_, l) = s.get(G_LOG).n() else { return None };
    let mut pos = w0.clone();
    let mut out = vec![];
    for x in l.iter() {
        let N::App(_, a) = x.n() else { return None };
        let (p, n) = (Lin::of(a[0]), Lin::of(a[1]));
        if !eqq(s, &p, &pos) {
            return None;
        }
        pos = pos.add(&n, 1);
        out.push((p, n, a[2]));
    }
    Some(out)
}
/// which single input bit a predicate tells, and whether it is true when that bit is set
fn pred_bit(s: &State, p: V) -> Option<(Bit, bool)> {
    match p.n() {
        N::Not(x) => pred_bit(s, *x).map(|(b, t)| (b, !t)),
        N::Eq0(l) | N::Ge0(l) => {
            let eq = matches!(p.n(), N::Eq0(_));
            let mut l = Lin::of(*l);
            // sum of positive terms against a constant
            if l.t.iter().all(|x| x.1 < 0) {
                if !eq {
                    // c - x >= 0
                    let c = l.c;
                    let x = Lin { c: 0, t: l.t.iter().map(|y| (y.0, -y.1)).collect() };
                    let bs = bitexp(s, x.v(), 64)?;
                    let nz: Vec<usize> = (0..64).filter(|i| bs[*i] != Bit::C(false)).collect();
                    if nz.len() == 1 && c >= 0 && c < (1i128 << (63 - nz[0])) {
                        return Some((bs[nz[0]].clone(), false));
                    }
                    return None;
                }
                l = l.scale(-1);
            }
            let c = -l.c;
            let x = Lin { c: 0, t: l.t.clone() };
            let bs = bitexp(s, x.v(), 64)?;
            let nz: Vec<usize> = (0..64).filter(|i| bs[*i] != Bit::C(false)).collect();
            if nz.len() != 1 || bs[nz[0]] == Bit::C(true) {
                return None;
            }
            let w = 1i128 << (63 - nz[0]);
            let b = bs[nz[0]].clone();
            if eq {
                if c == 0 {
                    Some((b, false))
                } else if c == w {
                    Some((b, true))
                } else {
                    None
                }
            } else if c >= 1 && c <= w {
                Some((b, true))
            } else {
                None
            }
        }
        N::App(f, a) if *f == "b2i" => pred_bit(s, a[0]),
        _ => None,
    }
}
/// is the boolean value `v` the input bit at `pos` ?
fn is_bit(s: &State, v: V, data: V, pos: &Lin) -> bool {
    let want = Bit::Data(data, pos.v());
    if let N::Bool(b) = v.n() {
        let one = bits(data, pos.v(), 1);
        if s.query(eq0(&Lin::of(one).plus(-(*b as i128)))) == Some(true) {
            return true;
        }
        return s.facts.list().iter().any(|(f, t)| pred_bit(s, *f).map(|(x, k)| x == want && (k == *t) == *b).unwrap_or(false));
    }
    pred_bit(s, v) == Some((want, true))
}
fn is_data(s: &State, v: V, data: V, pos: &Lin, w: usize) -> bool {
    let w2 = 64.max(w);
    match bitexp(s, v, w2) {
        Some(b) => (0..w2 - w).all(|i| b[i] == Bit::C(false)) && (0..w).all(|i| b[w2 - w + i] == Bit::Data(data, pos.plus(i as i128).v())),
        None => false,
    }
}
/// is the field-less enum value `v` (type `t`) the one whose code is in the `w` bits at `pos` ?
fn is_code(s: &State, v: V, tname: &str, t: Ty, data: V, pos: &Lin, w: i128) -> bool {
    let vs: Vec<String> = match t.kind() {
        ty::Adt(d, _) => d.variants().iter().map(|v| v.name.to_string()).collect(),
        _ => return false,
    };
    let m = match v.fields() {
        Some((k, _)) => 1u64 << k,
        None => s.facts.mask(v),
    };
    let mut any = false;
    for (k, n) in vs.iter().enumerate() {
        if m & (1 << k) == 0 {
            continue;
        }
        let Some(want) = num(tname, n) else { return false };
        let mut s2 = s.clone();
        if v.fields().is_none() && !s2.assume(is_var(v, k as u32), true) {
            continue;
        }
        any = true;
        let x = bits(data, pos.v(), w);
        if s2.query(eq0(&Lin::of(x).plus(-want))) == Some(true) {
            continue;
        }
        // the bits were taken out of a wider read
        let ok = s2.facts.list().iter().any(|(f, t)| match (f.n(), t) {
            (N::Eq0(l), true) => {
                let l = Lin::of(*l);
                let l = if l.t.iter().all(|x| x.1 < 0) { l.scale(-1) } else { l };
                -l.c == want && is_data(&s2, Lin { c: 0, t: l.t }.v(), data, pos, w as usize)
            }
            _ => false,
        });
        if !ok {
            return false;
        }
    }
    any
}
const HEADER: &[(&str, i128)] = &[
    ("id", 16),
    ("query_resp", 1),
    ("op_code", 4),
    ("auth_answer", 1),
    ("truncated", 1),
    ("recursion_desired", 1),
    ("recursion_available", 1),
    ("z", 3),
    ("resp_code", 4),
    ("questions_count", 16),
    ("answers_count", 16),
    ("authorities_count", 16),
    ("additionals_count", 16),
];
pub fn header(r: &mut Report) {
    if crate_name() != "ariadne_dns" {
        return;
    }
    let (Some(ro), Some(ht), Some(ot), Some(ct)) = (roles(), find_adt("header::Header"), find_adt("header::OpCode"), find_adt("header::RespCode")) else {
        r.error("the header's types were not found");
        return;
    };
    let idx = |n: &str| field_index(ht, STRUCT, n);
    if HEADER.iter().any(|(n, _)| idx(n).is_none()) {
        r.error("a header field was not found");
        return;
    }
    let nvar = |t: Ty| t.ty_adt_def().map(|d| d.variants().len()).unwrap_or(0) as u32;
    let names = |t: Ty, k: u32| t.ty_adt_def().unwrap().variants().iter().nth(k as usize).unwrap().name.to_string();
    // the writer
    let encs = encoders(ht, ro.t);
    if encs.is_empty() {
        r.error("no function writes a header");
    }
    for d in &encs {
        for op in 0..nvar(ot) {
            for rc in 0..nvar(ct) {
                let run = go(r, ro, *d, true, &|e, st, a| {
                    let v = e.deref(st, a);
                    let n = ht.ty_adt_def().unwrap().non_enum_variant().fields.len() as u32;
                    let mut f: Vec<V> = (0..n).map(|i| field(v, STRUCT, i, field_ty(ht, STRUCT, i).map(peel))).collect();
                    for (nm, t, k) in [("op_code", ot, op), ("resp_code", ct, rc)] {
                        let i = idx(nm).unwrap() as usize;
                        f[i] = pin_variant(e, st, f[i], t, k);
                    }
                    adt(0, f, Some(ht))
                });
                let h = run.arg;
                for (s, v, _) in &run.bufs {
                    if matches!(v.fields(), Some((1, _))) && v.ty().map(is_enum).unwrap_or(false) {
                        continue;
                    }
                    let w0 = Lin::of(run.before[ro.w as usize]);
                    let log = log_of(s, &w0);
                    let ok = log.as_ref().map(|l| l.iter().all(|x| x.1.is_const()) && l.iter().map(|x| x.1.c).sum::<i128>() == 96).unwrap_or(false);
                    rob(r, "C05", *d, "a header is written as exactly 96 bits, back to back", s, ok);
                    if !ok {
                        continue;
                    }
                    let mut all: Vec<Bit> = vec![];
                    let mut good = true;
                    for (_, n, v) in log.unwrap() {
                        let parts: Vec<(V, i128)> = match v.n() {
                            N::Seq(x) => x.iter().map(|y| (*y, 8)).collect(),
                            _ => vec![(v, n.c)],
                        };
                        for (v, n) in parts {
                            match bitexp(s, v, 64) {
                                Some(b) => all.extend(b[64 - n as usize..].iter().cloned()),
                                None => {
                                    good = false;
                                    all.extend(vec![Bit::C(false); n as usize])
                                }
                            }
                        }
                    }
                    let mut at = 0usize;
                    for (nm, w) in HEADER {
                        let sl = &all[at..at + *w as usize];
                        let f = getf(s, h, ht, STRUCT, nm);
                        let ok = match *nm {
                            "op_code" | "resp_code" => {
                                let (t, tn, k) = if *nm == "op_code" { (ot, "OpCode", op) } else { (ct, "RespCode", rc) };
                                match num(tn, &names(t, k)) {
                                    Some(n) => (0..4).all(|i| sl[i] == Bit::C((n >> (3 - i)) & 1 == 1)),
                                    None => false,
                                }
                            }
                            _ if *w == 1 => match &sl[0] {
                                Bit::B(x) => *x == f || s.query(eqv(*x, f)) == Some(true),
                                Bit::C(b) => s.query(f) == Some(*b),
                                _ => false,
                            },
                            _ => (0..*w as usize).all(|i| sl[i] == Bit::T(f, (*w as usize - 1 - i) as u32)),
                        };
                        rob(r, "C05", *d, &format!("the written bits {}..{} are the {}", at, at + *w as usize, nm), s, ok);
                        at += *w as usize;
                    }
                    let _ = good;
                }
            }
        }
    }
    // the reader
    let decs = decoders_of(ht, ro.t);
    if decs.is_empty() {
        r.error("no function reads a header");
    }
    for d in &decs {
        let run = go(r, ro, *d, false, &|_, _, a| a);
        let mut any = false;
        for (s, v, f) in &run.bufs {
            let Some((0, ok)) = v.fields() else { continue };
            any = true;
            let h = ok[0];
            let (data, r0) = (run.before[ro.data as usize], Lin::of(run.before[ro.r as usize]));
            rob(r, "C05", *d, "a header is read from exactly 96 bits", s, eqq(s, &Lin::of(f[ro.r as usize]), &r0.plus(96)));
            let mut at = 0i128;
            for (nm, w) in HEADER {
                let x = getf(s, h, ht, STRUCT, nm);
                let p = r0.plus(at);
                let ok = match *nm {
                    "op_code" => is_code(s, x, "OpCode", ot, data, &p, 4),
                    "resp_code" => is_code(s, x, "RespCode", ct, data, &p, 4),
                    _ if *w == 1 => is_bit(s, x, data, &p),
                    _ => is_data(s, x, data, &p, *w as usize),
                };
                rob(r, "C05", *d, &format!("the {} is read from the bits {}..{}", nm, at, at + w), s, ok);
                at += w;
            }
        }
        if !any {
            r.error(format!("{} never succeeds", path_of(*d)));
        }
    }
    used_lemmas(r, ro, "C05", encs.iter().chain(decs.iter()).copied().collect());
}
/// the buffer methods reached from the functions given, as prefixes of method names
pub fn used_lemmas(r: &mut Report, ro: Roles, prop: &'static str, from: Vec<DefId>) {
    let ms: HashMap<DefId, String> = methods_of(ro.t).into_iter().map(|(n, d)| (d, n)).collect();
    let reach = reachable(&from);
    let mut used: Vec<String> = ms.iter().filter(|(d, _)| reach.contains(*d)).map(|x| x.1.clone()).collect();
    used.sort();
    let u: Vec<&str> = used.iter().map(|s| s.as_str()).collect();
    let what = ["a read leaves", "a read advances", "a read returns", "a read of bytes", "a write puts", "a write advances", "a write extends", "setting a position", "the bytes handed out"];
    buffer_lemmas(r, ro, prop, &u, &what, false);
}
/// functions of this crate reachable through direct calls
pub fn reachable(from: &[DefId]) -> std::collections::HashSet<DefId> {
    let mut seen: std::collections::HashSet<DefId> = from.iter().copied().collect();
    let mut work: Vec<DefId> = from.to_vec();
    while let Some(d) = work.pop() {
        for x in direct_calls(d) {
            if local_crate(x) && seen.insert(x) {
                work.push(x);
            }
        }
    }
    seen
}
/// every function item mentioned in the body of `d`
pub fn direct_calls(d: DefId) -> Vec<DefId> {
    let mut out = vec![];
    if !tcx().is_mir_available(d) {
        return out;
    }
    let body = tcx().optimized_mir(d);
    for c in body.required_consts().iter() {
        let _ = c;
    }
    struct V2(Vec<DefId>);
    impl rustc_middle::mir::visit::Visitor<'static> for V2 {
        fn visit_const_operand(&mut self, c: &rustc_middle::mir::ConstOperand<'static>, _l: rustc_middle::mir::Location) {
            if let ty::FnDef(d, _) | ty::Closure(d, _) = c.const_.ty().kind() {
                self.0.push(*d);
            }
        }
        fn visit_rvalue(&mut self, x: &rustc_middle::mir::Rvalue<'static>, l: rustc_middle::mir::Location) {
            if let rustc_middle::mir::Rvalue::Aggregate(k, _) = x {
                if let rustc_middle::mir::AggregateKind::Closure(d, _) = **k {
                    self.0.push(d);
                }
            }
            self.super_rvalue(x, l);
        }
    }
    use rustc_middle::mir::visit::Visitor;
    let mut v = V2(vec![]);
    v.visit_body(body);
    out.append(&mut v.0);
    out
}

// ---- questions and records ------------------------------------------------------------------
fn variant_names(t: Ty) -> Vec<String> {
    match t.kind() {
        ty::Adt(d, _) => d.variants().iter().map(|v| v.name.to_string()).collect(),
        _ => vec![],
    }
}
/// what one write of the log should be
enum W {
    Num(i128, i128),
    Int(V, i128),
    Name(V),
    Bytes(V, i128),
    Str(V),
}
/// flatten a log into items of (position, width, value), splitting byte sequences of known elements
fn matches_log(s: &State, log: &[(Lin, Lin, V)], want: &[W], nt: Ty) -> Option<usize> {
    // returns the number of log entries used when `want` is a prefix of the log
    let mut i = 0;
    for w in want {
        let (_, n, v) = log.get(i)?;
        i += 1;
        let ok = match w {
            W::Num(k, b) => n.is_const() && n.c == *b && eqq(s, &Lin::of(*v), &Lin::k(*k)),
            W::Int(x, b) => n.is_const() && n.c == *b && (v == x || eqq(s, &Lin::of(*v), &Lin::of(*x))),
            W::Name(x) => *v == name_wire(*x, v.ty().unwrap_or(nt)) || matches!(v.n(), N::App(f, a) if *f == "name_wire" && a[0] == *x),
            W::Bytes(x, b) => n.is_const() && n.c == 8 * b && (v == x || models::coll_len(*v).as_int() == Some(*b) && (0..*b).all(|k| elem(*v, int(k), None) == elem(*x, int(k), None))),
            W::Str(x) => is_charstr(s, *v, *x),
        };
        if !ok {
            return None;
        }
    }
    Some(i)
}
/// a length byte followed by the bytes of the text
fn is_charstr(s: &State, v: V, x: V) -> bool {
    let l = Lin::of(models::coll_len(v));
    let lx = Lin::of(models::coll_len(x));
    if !eqq(s, &l, &lx.plus(1)) || s.query(ge0(&lx.scale(-1).plus(255))) != Some(true) {
        return false;
    }
    let alts = alts_of(v, s);
    let is_len = |t: V| eqq(s, &Lin::of(t), &lx);
    let is_byte = |t: V| matches!(t.n(), N::App(f, a) if (*f == "elem" || *f == "inst") && strip_bytes(*a.last().map(|_| if *f == "elem" { &a[0] } else { &a[1] }).unwrap()) == x);
    !alts.is_empty() && alts.iter().all(|a| is_len(a.t) || is_byte(a.t)) && alts.iter().any(|a| is_len(a.t)) && first_is(s, v, &lx)
}
fn strip_bytes(v: V) -> V {
    match v.n() {
        N::App(f, a) if *f == "bytes" || *f == "utf8" => strip_bytes(a[0]),
        N::Summ(i, _, _) => strip_bytes(*i),
        _ => v,
    }
}
/// the first element, when the order is known from how the collection was built
fn first_is(s: &State, v: V, l: &Lin) -> bool {
    match v.n() {
        N::Seq(e) => e.first().map(|x| eqq(s, &Lin::of(*x), l)).unwrap_or(false),
        N::Summ(i, _, _) => first_is(s, *i, l),
        N::App(f, a) if *f == "append" || *f == "push" => {
            let n = Lin::of(models::coll_len(a[0]));
            if n.is_const() && n.c == 0 {
                first_is(s, a[1], l)
            } else {
                first_is(s, a[0], l)
            }
        }
        _ => false,
    }
}
/// the byte-collection apps `bytes_at` a value is made of
fn regions(v: V, out: &mut Vec<V>) {
    if let N::App(f, _) = v.n() {
        if *f == "bytes_at" {
            if !out.contains(&v) {
                out.push(v);
            }
            return;
        }
    }
    children(v.n(), &mut |c| regions(c, out));
}
fn is_region(s: &State, v: V, data: V, pos: &Lin, len: &Lin) -> bool {
    let mut rs = vec![];
    regions(v, &mut rs);
    rs.len() == 1
        && match rs[0].n() {
            N::App(_, a) => a[0] == data && eqq(s, &Lin::of(a[1]), pos) && eqq(s, &Lin::of(a[2]), len),
            _ => false,
        }
}
fn fld(s: &State, v: V, t: Ty, n: &str) -> V {
    getf(s, v, t, STRUCT, n)
}
pub fn entries(r: &mut Report, prop: &'static str) {
    if crate_name() != "ariadne_dns" {
        return;
    }
    let (Some(ro), Some(qt), Some(rt), Some(tt), Some(nt)) = (roles(), find_adt("questions::Question"), find_adt("records::Record"), find_adt("RecordType"), find_adt("dns::name::Name")) else {
        r.error("the types of questions and records were not found");
        return;
    };
    let (qe, re) = (encoders(qt, ro.t), encoders(rt, ro.t));
    let (qd, rd) = (decoders_of(qt, ro.t), decoders_of(rt, ro.t));
    if qe.is_empty() || re.is_empty() || qd.is_empty() || rd.is_empty() {
        r.error("no reader or writer of questions or records found");
        return;
    }
    let types = variant_names(tt);
    let g = |s: &State, v: V, t: Ty, k: u32, n: &str| getf(s, v, t, k, n);
    let mut written = 0u64;
    if prop == "C06" {
        for d in &qe {
            for (k, n) in types.iter().enumerate() {
                let run = go(r, ro, *d, true, &|e, st, a| {
                    let v = e.deref(st, a);
                    let mut f: Vec<V> = (0..3).map(|i| field(v, STRUCT, i, field_ty(qt, STRUCT, i).map(peel))).collect();
                    let i = field_index(qt, STRUCT, "record_type").unwrap_or(1) as usize;
                    f[i] = pin_variant(e, st, f[i], tt, k as u32);
                    adt(0, f, Some(qt))
                });
                for (s, v, _) in &run.bufs {
                    if matches!(v.fields(), Some((1, _))) {
                        continue;
                    }
                    written |= 1 << k;
                    let w0 = Lin::of(run.before[ro.w as usize]);
                    let want = [W::Name(g(s, run.arg, qt, STRUCT, "node")), W::Num(num("RecordType", n).unwrap_or(-1), 16), W::Num(1, 16)];
                    let ok = log_of(s, &w0).map(|l| matches_log(s, &l, &want, nt) == Some(l.len())).unwrap_or(false);
                    rob(r, prop, *d, "a question is written as name, type, class", s, ok);
                }
            }
        }
        for d in &re {
            // lists of texts are taken with up to three elements of any length
            let cases: Vec<(u32, String, usize)> = variant_names(rt).into_iter().enumerate().flat_map(|(k, n)| (0..if n == "TXT" { 4 } else { 1 }).map(move |c| (k as u32, n.clone(), c))).collect();
            for (k, n, cnt) in &cases {
                let k = *k;
                let run = go(r, ro, *d, true, &|e, st, a| {
                    let a = pin_variant(e, st, a, rt, k);
                    match field_index(rt, k, "txts") {
                        Some(i) if n == "TXT" => {
                            let (_, f) = a.fields().unwrap();
                            let mut f = f.to_vec();
                            f[i as usize] = seq((0..*cnt).map(|j| elem(f[i as usize], int(j as i128), field_ty(rt, k, i).and_then(crate::interp::elem_ty).map(peel))).collect());
                            adt(k, f, Some(rt))
                        }
                        _ => a,
                    }
                });
                let x = run.arg;
                let mut any = false;
                for (s, v, f) in &run.bufs {
                    if matches!(v.fields(), Some((1, _))) {
                        continue;
                    }
                    any = true;
                    let w0 = Lin::of(run.before[ro.w as usize]);
                    let Some(log) = log_of(s, &w0) else {
                        if std::env::var("SA_DBG").is_ok() {
                            eprintln!("RAW {n}: {:?}\n   END {:?}\n  {}", s.get(G_LOG), Lin::of(f[ro.w as usize]).v(), s.facts.show());
                        }
                        rob(r, prop, *d, &format!("a {n} record is written back to back"), s, false);
                        continue;
                    };
                    let want = [W::Name(g(s, x, rt, k, "node")), W::Num(num("RecordType", n).unwrap_or(-1), 16), W::Num(1, 16), W::Int(g(s, x, rt, k, "ttl"), 32)];
                    let m = matches_log(s, &log, &want, nt);
                    rob(r, prop, *d, &format!("a {n} record starts with name, type, class and TTL"), s, m.is_some());
                    let Some(m) = m else { continue };
                    let Some((lp, ln, lv)) = log.get(m) else {
                        rob(r, prop, *d, &format!("a {n} record's data length follows"), s, false);
                        continue;
                    };
                    let end = Lin::of(f[ro.w as usize]);
                    let start = lp.add(ln, 1);
                    let ok = ln.is_const() && ln.c == 16 && eqq(s, &Lin::of(*lv).scale(8), &end.sub(&start));
                    rob(r, prop, *d, &format!("a {n} record's data length is the number of data bytes written"), s, ok);
                    if !ok && std::env::var("SA_DBG").is_ok() {
                        for (p, l, v) in &log {
                            eprintln!("LOG {n} {:?} {:?} {:?} {:?}", p.v(), l.v(), v, v.ty());
                        }
                        eprintln!("END {:?}", end.v());
                    }
                    let fx = |n: &str| g(s, x, rt, k, n);
                    let want: Option<Vec<W>> = match n.as_str() {
                        "A" => Some(vec![W::Bytes(fx("address"), 4)]),
                        "NS" | "CNAME" | "PTR" => Some(vec![W::Name(fx("name"))]),
                        "SOA" => Some(vec![
                            W::Name(fx("ns_name")),
                            W::Name(fx("ml_name")),
                            W::Int(fx("serial"), 32),
                            W::Int(fx("refresh"), 32),
                            W::Int(fx("retry"), 32),
                            W::Int(fx("expire"), 32),
                            W::Int(fx("minimum"), 32),
                        ]),
                        "WKS" => Some(vec![W::Bytes(fx("address"), 4), W::Int(fx("protocol"), 8)]),
                        "HINFO" => Some(vec![W::Str(fx("cpu")), W::Str(fx("os"))]),
                        "MX" => Some(vec![W::Int(fx("priority"), 16), W::Name(fx("name"))]),
                        "TXT" => match fx("txts").n() {
                            N::Seq(x) => Some(x.iter().map(|y| W::Str(*y)).collect()),
                            _ => None,
                        },
                        _ => None,
                    };
                    if let Some(want) = want {
                        let rest = &log[m + 1..];
                        let used = matches_log(s, rest, &want, nt);
                        let ok = used == Some(rest.len()) || n == "WKS" && used.is_some();
                        rob(r, prop, *d, &format!("a {n} record's data fields are written in order"), s, ok);
                    }
                }
                if !any {
                    r.error(format!("{} never writes a {n} record", path_of(*d)));
                }
            }
        }
    }
    for d in qd.iter().chain(rd.iter()) {
        let q = qd.contains(d);
        let run = go(r, ro, *d, false, &|_, _, a| a);
        let (data, r0) = (run.before[ro.data as usize], Lin::of(run.before[ro.r as usize]));
        let name_len = |p: &Lin| Lin::of(app("name_len", vec![data, p.v()], Some(usz()))).scale(8);
        let name_at = |p: &Lin| app("name_at", vec![data, p.v()], Some(nt));
        let p1 = r0.add(&name_len(&r0), 1);
        let b = |p: &Lin, n: i128| Lin::of(bits(data, p.v(), n));
        let mut seen = 0u64;
        let (mut oks, mut unknown) = (0, 0);
        for (s, v, f) in &run.bufs {
            let end = Lin::of(f[ro.r as usize]);
            match v.fields() {
                Some((0, x)) => {
                    let x = x[0];
                    oks += 1;
                    if q && prop == "C06" {
                        let m = match fld(s, x, qt, "record_type").fields() {
                            Some((k, _)) => 1 << k,
                            None => s.facts.mask(fld(s, x, qt, "record_type")),
                        };
                        rob(r, prop, *d, "every kind of question that is read can be written", s, m & !written == 0);
                    }
                    let (k, n, t) = if q {
                        (STRUCT, String::new(), qt)
                    } else {
                        match x.fields() {
                            Some((k, _)) => (k, variant_names(rt)[k as usize].clone(), rt),
                            None => {
                                rob(r, prop, *d, "the kind of a decoded record is known", s, false);
                                continue;
                            }
                        }
                    };
                    if !q {
                        seen |= 1 << k;
                    }
                    let fx = |n: &str| g(s, x, t, k, n);
                    if prop == "C07" {
                        if !q {
                            let dl = b(&p1.plus(64), 16);
                            if std::env::var("SA_DBG").is_ok() && !eqq(s, &end, &p1.plus(80).add(&dl, 8)) {
                                eprintln!("DL {n}: {:?}\n{}", end.v(), s.facts.show());
                            }
                            rob(r, prop, *d, &format!("a decoded {n} record's data fill its data length"), s, eqq(s, &end, &p1.plus(80).add(&dl, 8)));
                        } else {
                            rob(r, prop, *d, "a decoded question ends after its class", s, eqq(s, &end, &p1.plus(32)));
                        }
                        continue;
                    }
                    let what = if q { "a question".to_string() } else { format!("a {n} record") };
                    rob(r, prop, *d, &format!("{what} starts with its name"), s, fx("node") == name_at(&r0));
                    let ok = if q { is_code(s, fx("record_type"), "RecordType", tt, data, &p1, 16) } else { s.query(eq0(&b(&p1, 16).plus(-num("RecordType", &n).unwrap_or(-1)))) == Some(true) };
                    rob(r, prop, *d, &format!("the type of {what} is read after its name"), s, ok);
                    rob(r, prop, *d, &format!("the class of {what} is read after its type"), s, is_code(s, fx("class"), "Class", find_adt("Class").unwrap_or(nt), data, &p1.plus(16), 16));
                    if q {
                        continue;
                    }
                    rob(r, prop, *d, &format!("the TTL of {what} is read after its class"), s, is_data(s, fx("ttl"), data, &p1.plus(32), 32));
                    rob(r, prop, *d, &format!("the data length of {what} is read after its TTL"), s, is_data(s, fx("data_len"), data, &p1.plus(64), 16));
                    let p = p1.plus(80);
                    let ok = match n.as_str() {
                        "A" => (0..4).all(|i| is_data(s, elem(fx("address"), int(i), Some(tcx().types.u8)), data, &p.plus(8 * i), 8)),
                        "NS" | "CNAME" | "PTR" => fx("name") == name_at(&p),
                        "SOA" => {
                            let p2 = p.add(&name_len(&p), 1);
                            let p3 = p2.add(&name_len(&p2), 1);
                            fx("ns_name") == name_at(&p) && fx("ml_name") == name_at(&p2) && ["serial", "refresh", "retry", "expire", "minimum"].iter().enumerate().all(|(i, n)| is_data(s, fx(n), data, &p3.plus(32 * i as i128), 32))
                        }
                        "WKS" => (0..4).all(|i| is_data(s, elem(fx("address"), int(i), Some(tcx().types.u8)), data, &p.plus(8 * i), 8)) && is_data(s, fx("protocol"), data, &p.plus(32), 8),
                        "HINFO" => {
                            let l1 = b(&p, 8);
                            let p2 = p.plus(8).add(&l1, 8);
                            is_region(s, fx("cpu"), data, &p.plus(8), &l1) && is_region(s, fx("os"), data, &p2.plus(8), &b(&p2, 8))
                        }
                        "MX" => is_data(s, fx("priority"), data, &p, 16) && fx("name") == name_at(&p.plus(16)),
                        _ => true,
                    };
                    rob(r, prop, *d, &format!("the data fields of {what} are read in order"), s, ok);
                }
                Some((1, x)) if prop == "C07" => {
                    // skipped as unknown
                    let x = x[0];
                    let un = match x.fields() {
                        Some((k, _)) => x.ty().and_then(|t| variant_names(t).get(k as usize).cloned()),
                        None => None,
                    };
                    if un.as_deref() == Some("UnknownType") {
                        unknown += 1;
                        let want = if q { p1.plus(32) } else { p1.plus(80).add(&b(&p1.plus(64), 16), 8) };
                        rob(r, prop, *d, "an entry of unknown type is skipped by exactly its length", s, eqq(s, &end, &want));
                    }
                }
                _ => {}
            }
        }
        if oks == 0 || prop == "C07" && unknown == 0 {
            r.error(format!("{} has no path that returns an entry, or none that skips one of unknown type", path_of(*d)));
        }
        if !q && seen.count_ones() as usize != variant_names(rt).len() {
            r.error(format!("{} does not read every kind of record", path_of(*d)));
        }
        let _ = (&run.rets, run.d);
    }
    let all: Vec<DefId> = qe.iter().chain(re.iter()).chain(qd.iter()).chain(rd.iter()).copied().collect();
    used_lemmas(r, ro, prop, if prop == "C06" { all } else { qd.iter().chain(rd.iter()).copied().collect() });
}
/// what a reader returned can be written: no abort on any path of reader, then writer
pub fn again(r: &mut Report) {
    let (Some(ro), Some(qt), Some(rt)) = (roles(), find_adt("questions::Question"), find_adt("records::Record")) else {
        r.error("the types of questions and records were not found");
        return;
    };
    for t in [qt, rt] {
        for d in decoders_of(t, ro.t) {
            let run = go(r, ro, d, false, &|_, _, a| a);
            let mut n = 0;
            for w in encoders(t, ro.t) {
                for (s, v) in &run.rets {
                    let Some((0, f)) = v.fields() else { continue };
                    n += 1;
                    let mut b = B::new(ro);
                    b.root = Some(w);
                    let mut e = Engine::new();
                    e.split_zero = true;
                    let mut st = s.clone();
                    let inst = concrete_instance(w);
                    let x = e.snap(&st, f[0], 0);
                    let mut args = sym_args(inst, &mut st);
                    args[0] = x;
                    if let N::Ptr(l, _) = args[1].n() {
                        st.set(*l, sym("written_to", ro.t));
                    }
                    init_buf(&b, &mut e, &mut st, &args, false);
                    e.hooks = Some(Box::new(L { b }));
                    e.root(inst, args, st);
                    keep(&mut e, "");
                    r.take(&mut e);
                }
            }
            if n == 0 {
                r.error(format!("nothing read by {} is written", path_of(d)));
            }
        }
    }
}
