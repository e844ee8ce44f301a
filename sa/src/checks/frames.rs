//! What is put on and taken from the sockets: UDP replies (C08), TCP framing (C09).
use super::base::*;
use super::layout::*;
use super::wire::*;
use super::*;
use crate::models;

const G_SENT: Loc = Loc(0, 30); // bytes of the reply handed to the socket
const G_W0: Loc = Loc(0, 31); // position before the last entry written
const G_W1: Loc = Loc(0, 32); // position after the last entry written
const G_LAST: [Loc; 3] = [Loc(0, 33), Loc(0, 36), Loc(0, 37)]; // section of the last entry written
const G_HDR: Loc = Loc(0, 34); // the header written last at position 0
const G_MADE: Loc = Loc(0, 38); // the bytes made from the buffer
const G_SENTV: Loc = Loc(0, 39); // what was written to the stream
const G_POS: Loc = Loc(0, 35); // bytes read from the stream
const G_K: u32 = 40; // entries written, by section
const SECS: [&str; 4] = ["questions", "answers", "authorities", "additionals"];

struct F {
    prop: &'static str,
    b: B,
    entry: Vec<DefId>,
    header: Vec<DefId>,
    msg: Option<V>,
    mt: Ty,
    ht: Ty,
    sends: usize,
    decodes: usize,
    finish: bool,
    /// only the obligations that speak of counts
    only: &'static str,
}
pub fn trait_impl(d: DefId, tr: &str) -> bool {
    tcx().impl_of_assoc(d).and_then(|i| tcx().impl_opt_trait_ref(i)).map(|t| path_of(t.skip_binder().def_id).ends_with(tr)).unwrap_or(false)
}
/// does `d` reach a call of a function whose path contains one of `names` ?
pub fn reaches_call(d: DefId, names: &[&str]) -> bool {
    reachable(&[d]).into_iter().any(|x| direct_calls(x).into_iter().any(|y| names.iter().any(|n| path_of(y).contains(n))))
}
/// (kept as truth values: states that differ in them are not joined)
fn set_last(st: &mut State, k: usize) {
    for (i, l) in G_LAST.iter().enumerate() {
        st.set(*l, boolv(k >> i & 1 == 1));
    }
}
fn get_last(st: &State) -> Option<usize> {
    let mut k = 0;
    for (i, l) in G_LAST.iter().enumerate() {
        k |= (st.get(*l).as_bool()? as usize) << i;
    }
    Some(k)
}
fn io_result(e: &mut Engine, st: &State, c: &Call, v: V) -> Vec<(State, V)> {
    let rt = peel(c.ret_ty);
    let et = match rt.kind() {
        ty::Adt(_, g) => Some(peel(norm(g.type_at(1)))),
        _ => None,
    };
    let x = e.fresh(st, c.frame, c.bb, "io_err", et);
    vec![(st.clone(), models::ok(rt, v)), (st.clone(), models::err(rt, x))]
}
impl F {
    fn new(prop: &'static str, ro: Roles, root: DefId, entry: &[DefId], header: &[DefId], mt: Ty, ht: Ty) -> F {
        let mut b = B::new(ro);
        b.root = Some(root);
        F { prop, b, entry: entry.to_vec(), header: header.to_vec(), msg: None, mt, ht, sends: 0, decodes: 0, finish: true, only: "" }
    }
    /// start with the message `m`, whose counts are right
    fn message(&mut self, e: &mut Engine, st: &mut State, m: V) {
        e.pinned.extend(m.syms().iter());
        let mh = getf(st, m, self.mt, STRUCT, "header");
        for s in SECS {
            let (n, l) = (Lin::of(getf(st, mh, self.ht, STRUCT, &format!("{s}_count"))), Lin::of(models::coll_len(getf(st, m, self.mt, STRUCT, s))));
            st.assume(eq0(&n.sub(&l)), true);
        }
        for s in 0..4 {
            st.set(Loc(0, G_K + s), int(0));
        }
        st.set(G_W0, int(96));
        st.set(G_W1, int(96));
        set_last(st, 0);
        self.msg = Some(m);
    }
    fn ob(&self, e: &mut Engine, st: &State, c: &Call, what: &str, ok: bool) {
        if !what.contains(self.only) {
            return;
        }
        e.oblig(c.frame, c.span, what, ok);
        if !ok {
            e.fail(st, c.frame, c.span, self.prop, what);
        }
    }
    fn k(&self, st: &State, s: usize) -> Lin {
        Lin::of(st.get(Loc(0, G_K + s as u32)))
    }
    fn section(&self, st: &State, s: usize) -> V {
        getf(st, self.msg.unwrap(), self.mt, STRUCT, SECS[s])
    }
    fn len(&self, st: &State, s: usize) -> Lin {
        Lin::of(models::coll_len(self.section(st, s)))
    }
    fn entry_written(&mut self, e: &mut Engine, st: &State, c: &Call) -> Option<Vec<(State, V)>> {
        let ro = self.b.roles;
        let x = e.snap(st, c.args[0], 0);
        let mut st = st.clone();
        if self.msg.is_some() {
            let mut known = false;
            if let N::App(f, a) = x.n() {
                if *f == "elem" {
                    for s in 0..4 {
                        if self.section(&st, s) == a[0] {
                            known = true;
                            let k = self.k(&st, s);
                            let mut ok = st.query(eq0(&Lin::of(a[1]).sub(&k))) == Some(true);
                            for t in 0..s {
                                ok &= st.query(eq0(&self.k(&st, t).sub(&self.len(&st, t)))) == Some(true);
                            }
                            self.ob(e, &st, c, "entries are written in the order of the message", ok);
                            st.set(Loc(0, G_K + s as u32), k.plus(1).v());
                            set_last(&mut st, s + 1);
                        }
                    }
                }
            }
            if !known {
                self.ob(e, &st, c, "the entries written are those of the message", false);
            }
        }
        let b = e.deref(&st, c.args[1]);
        let f = self.b.fields(&st, b);
        let w = Lin::of(f[ro.w as usize]);
        let n = e.fresh(&st, c.frame, c.bb, "entry_len", Some(usz()));
        st.assume(ge0(&Lin::of(n).plus(-1)), true);
        st.set(G_W0, w.v());
        let mut c2 = c.clone();
        c2.args = vec![c.args[1]];
        let rt = peel(c.ret_ty);
        let mut out = vec![];
        for (mut s, _) in self.b.write(e, &st, &c2, Lin::of(n).scale(8), x) {
            s.set(G_W1, w.add(&Lin::of(n), 8).v());
            let (okt, ert) = match rt.kind() {
                ty::Adt(_, g) => (norm(g.type_at(0)), peel(norm(g.type_at(1)))),
                _ => return None,
            };
            let _ = okt;
            let er = e.fresh(&s, c.frame, c.bb, "encode_err", Some(ert));
            out.push((s.clone(), models::ok(rt, models::unit())));
            out.push((s, models::err(rt, er)));
        }
        Some(out)
    }
    fn header_written(&mut self, e: &mut Engine, st: &State, c: &Call) -> Option<Vec<(State, V)>> {
        let ro = self.b.roles;
        let h = e.snap(st, c.args[0], 0);
        let b = e.deref(st, c.args[1]);
        let f = self.b.fields(st, b);
        let at0 = st.query(eq0(&Lin::of(f[ro.w as usize]))) == Some(true);
        self.ob(e, st, c, "the header is written at the start of the message", at0);
        let mut st = st.clone();
        st.set(G_HDR, h);
        let mut c2 = c.clone();
        c2.args = vec![c.args[1]];
        Some(self.b.write(e, &st, &c2, Lin::k(96), h))
    }
    /// the bytes of a reply are handed to the datagram socket
    fn sent(&mut self, e: &mut Engine, st: &State, c: &Call) -> Option<Vec<(State, V)>> {
        self.sends += 1;
        let v = e.snap(st, c.args[1], 0);
        let n = Lin::of(models::coll_len(v));
        let (base, from) = match v.n() {
            N::App(f, a) if *f == "subslice" => (a[0], Lin::of(a[1])),
            _ => (v, Lin::k(0)),
        };
        let total = Lin::of(models::coll_len(base));
        let sent = Lin::of(st.get(G_SENT));
        let q = |l: &Lin| st.query(eq0(l)) == Some(true);
        let whole = base.ty().map(is_bytes_vec).unwrap_or(false) && st.get(G_MADE) == base && q(&from.sub(&sent)) && q(&from.add(&n, 1).sub(&total));
        self.ob(e, st, c, "the whole of the encoded reply is sent, once", whole);
        let small = st.query(ge0(&n.scale(-1).plus(512))) == Some(true);
        self.ob(e, st, c, "the datagram sent has at most 512 bytes", small);
        let mut s = st.clone();
        s.set(G_SENT, sent.add(&n, 1).v());
        Some(io_result(e, &s, c, n.v()))
    }
    /// the bytes of a reply are handed to a stream
    fn written(&mut self, e: &mut Engine, st: &State, c: &Call) -> Option<Vec<(State, V)>> {
        if self.prop != "C09" {
            return None;
        }
        let (tr, m) = c.tm?.rsplit_once("::")?;
        if !tr.ends_with("io::Write") {
            return None;
        }
        if m == "flush" {
            return Some(either(e, st, c));
        }
        self.sends += 1;
        if m != "write_all" {
            self.ob(e, st, c, "the reply is written with a call that writes all of it", false);
            return Some(either(e, st, c));
        }
        let v = e.snap(st, c.args[1], 0);
        let mut log = vec![];
        flatten(v, &mut log);
        let k = st.get(G_SENTV).as_int().unwrap_or(9) as usize;
        let ok = self.framed(st, k, &log);
        self.ob(e, st, c, "what is written is the length of the encoded reply in two bytes, high byte first, and then the encoded reply, once", ok);
        let mut s = st.clone();
        s.set(G_SENTV, int((k + log.len()).min(9) as i128));
        Some(io_result(e, &s, c, models::unit()))
    }
    /// is `log` the part of a framed reply after its first `k` items (two bytes and the message) ?
    fn framed(&self, st: &State, k: usize, log: &[V]) -> bool {
        let made = st.get(G_MADE);
        if made.is_uninit() || k + log.len() > 3 {
            return false;
        }
        let n = Lin::of(models::coll_len(made));
        if st.query(ge0(&n.scale(-1).plus(65535))) != Some(true) {
            return false;
        }
        let Some(want) = bitexp(st, n.v(), 16) else { return false };
        let get = |i: usize| if i >= k { log.get(i - k).copied() } else { None };
        let q = |l: &Lin| st.query(eq0(l)) == Some(true);
        // both bytes at once, as numbers
        if let (Some(x), Some(y)) = (get(0), get(1)) {
            let (x, y) = (Lin::of(x), Lin::of(y));
            let byte = |l: &Lin| st.query(ge0(l)) == Some(true) && st.query(ge0(&l.scale(-1).plus(255))) == Some(true);
            if byte(&x) && byte(&y) && q(&x.scale(256).add(&y, 1).sub(&n)) {
                return get(2).map(|v| v == made).unwrap_or(true);
            }
        }
        for (i, x) in log.iter().enumerate() {
            let i = i + k;
            let ok = if i < 2 { bitexp(st, *x, 8).map(|b| b == want[8 * i..8 * i + 8]).unwrap_or(false) } else { *x == made };
            if !ok {
                if std::env::var("SA_DBG").is_ok() {
                    eprintln!("FRAME {i} {x:?} made {made:?} want {want:?} got {:?} {}", bitexp(st, *x, 8), st.facts.show());
                }
                return false;
            }
        }
        true
    }
    /// what was kept of the message in the bytes made from the buffer
    fn finished(&mut self, e: &mut Engine, st: &State, c: &Call) {
        let q = |l: &Lin| st.query(eq0(l)) == Some(true);
        if let Some(m) = self.msg {
            let h = st.get(G_HDR);
            let mh = getf(st, m, self.mt, STRUCT, "header");
            let g = |h: V, n: &str| getf(st, h, self.ht, STRUCT, n);
            let cnt: Vec<Lin> = SECS.iter().map(|s| Lin::of(g(h, &format!("{s}_count")))).collect();
            let last = Lin::of(st.get(G_END));
            let end = st.get(G_W1);
            let at_end = q(&last.sub(&Lin::of(end)));
            let whole = !h.is_uninit() && at_end && (0..4).all(|s| q(&self.k(st, s).sub(&self.len(st, s))) && q(&cnt[s].sub(&self.len(st, s))));
            if whole {
                let ok = same(e, st, g(h, "truncated"), g(mh, "truncated"));
                self.ob(e, st, c, "a reply sent whole does not get the truncation flag", ok);
            } else {
                let w0 = st.get(G_W0);
                let before = q(&last.sub(&Lin::of(w0)));
                let lastsec = get_last(st).and_then(|k| k.checked_sub(1));
                if self.prop == "C09" {
                    self.ob(e, st, c, "the whole message is encoded", false);
                }
                let ok = !h.is_uninit()
                    && (at_end || before && lastsec.is_some())
                    && (0..4).all(|s| {
                        let drop = if !at_end && Some(s) == lastsec { 1 } else { 0 };
                        q(&self.k(st, s).plus(-drop).sub(&cnt[s]))
                    });
                if !ok && std::env::var("SA_DBG").is_ok() {
                    eprintln!("CUT h {h:?}\n last {:?} w0 {w0:?} w1 {end:?} sec {lastsec:?} k {:?}\n {}", last.v(), (0..4).map(|s| self.k(st, s).v()).collect::<Vec<_>>(), st.facts.show());
                }
                self.ob(e, st, c, "a reply that was cut ends after an entry, and its counts are those of the entries kept", ok);
                let ok = st.query(g(h, "truncated")) == Some(true);
                self.ob(e, st, c, "a reply that was cut has the truncation flag", ok);
                let ok = (0..4).any(|s| st.query(ge0(&self.len(st, s).sub(&cnt[s]).plus(-1))) == Some(true));
                self.ob(e, st, c, "the truncation flag is set only on a reply that was cut", ok);
            }
        }
    }
}
impl Hooks for F {
    fn call(&mut self, e: &mut Engine, st: &State, c: &Call) -> Option<Vec<(State, V)>> {
        if std::env::var("SA_CALLS").is_ok() {
            eprintln!("CALL {}", c.name);
        }
        if let Some(r) = self.written(e, st, c) {
            return Some(r);
        }
        if c.name.ends_with("UdpSocket::send_to") || c.name.ends_with("UdpSocket::send") {
            return self.sent(e, st, c);
        }
        let d = c.inst.map(|i| i.def_id()).or(c.def)?;
        if self.entry.contains(&d) {
            return self.entry_written(e, st, c);
        }
        if self.header.contains(&d) {
            return self.header_written(e, st, c);
        }
        let mut r = self.b.handle(e, st, c);
        if let Some(v) = &mut r {
            if self.finish && is_bytes_vec(peel(c.ret_ty)) {
                for (s, x) in v.iter_mut() {
                    self.finished(e, s, c);
                    set_last(s, 0);
                    for l in [G_W0, G_W1] {
                        s.set(l, int(96));
                    }
                    s.set(G_MADE, *x);
                }
            }
        }
        r.or_else(|| base_call(e, st, c))
    }
}
pub fn udp(r: &mut Report) {
    if crate_name() != "ariadne_dns" {
        return;
    }
    let (Some(ro), Some(qt), Some(rt), Some(mt), Some(ht)) = (roles(), find_adt("questions::Question"), find_adt("records::Record"), find_adt("message::Message"), find_adt("header::Header")) else {
        r.error("the message types were not found");
        return;
    };
    let roots: Vec<DefId> = local_fns().into_iter().map(|x| x.1).filter(|d| trait_impl(*d, "DnsWrite") && reaches_call(*d, &["UdpSocket::send"])).collect();
    if roots.is_empty() {
        r.error("no function replies over UDP");
    }
    let mut entry = encoders(qt, ro.t);
    entry.extend(encoders(rt, ro.t));
    let header = encoders(ht, ro.t);
    for d in &roots {
        let mut e = Engine::new();
        e.split_zero = true;
        let mut st = State::default();
        let inst = concrete_instance(*d);
        let args = sym_args(inst, &mut st);
        let msg = args.iter().copied().find(|a| e.snap(&st, *a, 0).ty() == Some(mt));
        let Some(m) = msg else {
            r.error(format!("{} takes no message", path_of(*d)));
            continue;
        };
        let m = e.snap(&st, m, 0);
        let mut h = F::new("C08", ro, *d, &entry, &header, mt, ht);
        h.message(&mut e, &mut st, m);
        st.set(G_SENT, int(0));
        e.hooks = Some(Box::new(h));
        let rets = e.root(inst, args, st);
        r.roots.push(path_of(*d));
        let mut oks = 0;
        for (s, v) in &rets {
            if let Some((0, _)) = v.fields() {
                oks += 1;
                let ok = s.query(eq0(&Lin::of(s.get(G_SENT)))) == Some(false);
                rob(r, "C08", *d, "a reply that succeeds was sent", s, ok);
            }
        }
        if oks == 0 {
            r.error(format!("{} never succeeds", path_of(*d)));
        }
        keep(&mut e, "");
        r.take(&mut e);
    }
    used_lemmas(r, ro, "C08", roots);
}
/// the functions that encode a message into bytes, by signature
pub fn message_encoders(mt: Ty) -> Vec<DefId> {
    let mut v = vec![];
    for (_, d) in local_fns() {
        let (i, o) = sig_of(d);
        if i.len() == 1 && peel(i[0]) == mt && adt_path(o).as_deref() == Some("std::result::Result") {
            if let ty::Adt(_, g) = o.kind() {
                if g.types().next().map(|t| is_bytes_vec(norm(t))).unwrap_or(false) {
                    v.push(d);
                }
            }
        }
    }
    v
}
/// header counts of decoded messages, of encoded messages and of queries (C10)
pub fn counts(r: &mut Report) {
    if crate_name() != "ariadne_dns" {
        return;
    }
    let (Some(ro), Some(qt), Some(rt), Some(mt), Some(ht)) = (roles(), find_adt("questions::Question"), find_adt("records::Record"), find_adt("message::Message"), find_adt("header::Header")) else {
        r.error("the message types were not found");
        return;
    };
    let mut entry = encoders(qt, ro.t);
    entry.extend(encoders(rt, ro.t));
    let header = encoders(ht, ro.t);
    // decoded messages
    let dec = decoders(ro.t);
    let roots: Vec<DefId> = byte_decoders().into_iter().filter(|d| matches!(sig_of(*d).1.kind(), ty::Adt(_, g) if g.types().next().map(|t| norm(t) == mt).unwrap_or(false))).collect();
    if roots.is_empty() {
        r.error("no function decodes a message");
    }
    for d in roots {
        let mut e = Engine::new();
        e.split_zero = true;
        let mut st = State::default();
        let inst = concrete_instance(d);
        let args = sym_args(inst, &mut st);
        let mut b = B::new(ro);
        b.contracts = dec.clone();
        b.root = Some(d);
        e.hooks = Some(Box::new(Dec { b, prop: "C10" }));
        let rets = e.root(inst, args, st);
        r.roots.push(path_of(d));
        let mut oks = 0;
        for (s, v) in &rets {
            if let Some((0, f)) = v.fields() {
                oks += 1;
                let h = getf(s, f[0], mt, STRUCT, "header");
                for x in SECS {
                    let l = Lin::of(models::coll_len(getf(s, f[0], mt, STRUCT, x)));
                    let n = Lin::of(getf(s, h, ht, STRUCT, &format!("{x}_count")));
                    if std::env::var("SA_DBG").is_ok() { eprintln!("DEC {x} {n:?} {l:?}\n {}", s.facts.show()); }
                    rob(r, "C10", d, &format!("the {x} count of a decoded message is the number of its {x}"), s, s.query(eq0(&l.sub(&n))) == Some(true));
                }
            }
        }
        if oks == 0 {
            r.error(format!("{} never succeeds", path_of(d)));
        }
        e.findings.clear();
        e.obligations.clear();
        r.take(&mut e);
    }
    // encoded messages
    let encs = message_encoders(mt);
    if encs.is_empty() {
        r.error("no function encodes a message");
    }
    for d in &encs {
        let mut e = Engine::new();
        e.split_zero = true;
        let mut st = State::default();
        let inst = concrete_instance(*d);
        let args = sym_args(inst, &mut st);
        let m = e.snap(&st, args[0], 0);
        let mut h = F::new("C10", ro, *d, &entry, &header, mt, ht);
        h.message(&mut e, &mut st, m);
        h.only = "counts";
        e.hooks = Some(Box::new(h));
        let rets = e.root(inst, args, st);
        r.roots.push(path_of(*d));
        if !rets.iter().any(|x| matches!(x.1.fields(), Some((0, _)))) {
            r.error(format!("{} never succeeds", path_of(*d)));
        }
        keep(&mut e, "");
        r.take(&mut e);
    }
    // queries
    let callers: Vec<DefId> = local_fns().into_iter().map(|x| x.1).filter(|d| !encs.contains(d) && !trait_impl(*d, "DnsWrite") && direct_calls(*d).iter().any(|x| encs.contains(x))).collect();
    for d in callers {
        let mut e = Engine::new();
        let mut st = State::default();
        let inst = concrete_instance(d);
        let args = sym_args(inst, &mut st);
        let b = B::new(ro);
        e.hooks = Some(Box::new(Q { b, encs: encs.clone(), dec: byte_decoders(), mt, ht }));
        e.root(inst, args, st);
        r.roots.push(path_of(d));
        keep(&mut e, "C10");
        r.take(&mut e);
    }
}
/// hooks for the callers of the encoders
struct Q {
    b: B,
    encs: Vec<DefId>,
    dec: Vec<DefId>,
    mt: Ty,
    ht: Ty,
}
impl Hooks for Q {
    fn call(&mut self, e: &mut Engine, st: &State, c: &Call) -> Option<Vec<(State, V)>> {
        let d = c.inst.map(|i| i.def_id()).or(c.def)?;
        if self.encs.contains(&d) {
            let m = e.snap(st, c.args[0], 0);
            let h = getf(st, m, self.mt, STRUCT, "header");
            for x in SECS {
                let l = Lin::of(models::coll_len(getf(st, m, self.mt, STRUCT, x)));
                let n = Lin::of(getf(st, h, self.ht, STRUCT, &format!("{x}_count")));
                let ok = st.query(eq0(&l.sub(&n))) == Some(true);
                let what = format!("the {x} count of a query is the number of its {x}");
                e.oblig(c.frame, c.span, &what, ok);
                if !ok {
                    e.fail(st, c.frame, c.span, "C10", &what);
                }
            }
            return Some(either(e, st, c));
        }
        if self.dec.contains(&d) {
            return Some(either(e, st, c));
        }
        self.b.handle(e, st, c).or_else(|| base_call(e, st, c))
    }
}
/// any result of the call's result type
pub fn either(e: &mut Engine, st: &State, c: &Call) -> Vec<(State, V)> {
    let rt = peel(c.ret_ty);
    let (a, b) = match rt.kind() {
        ty::Adt(_, g) => (peel(norm(g.type_at(0))), peel(norm(g.type_at(1)))),
        _ => return vec![],
    };
    let x = e.fresh(st, c.frame, c.bb, "ok_value", Some(a));
    let y = e.fresh(st, c.frame, c.bb, "err_value", Some(b));
    vec![(st.clone(), models::ok(rt, x)), (st.clone(), models::err(rt, y))]
}
/// the bytes of a collection: single bytes and blocks
fn flatten(v: V, out: &mut Vec<V>) {
    match v.n() {
        N::Seq(x) => out.extend(x.iter().copied()),
        N::Summ(id, _, _) => match id.n() {
            N::App(f, a) if *f == "append" => {
                flatten(a[0], out);
                flatten(a[1], out);
            }
            N::App(f, a) if *f == "push" => {
                flatten(a[0], out);
                out.push(a[1]);
            }
            _ => out.push(v),
        },
        _ => out.push(v),
    }
}
/// replies and requests over TCP (C09)
pub fn tcp(r: &mut Report) {
    if crate_name() != "ariadne_dns" {
        return;
    }
    let (Some(ro), Some(qt), Some(rt), Some(mt), Some(ht)) = (roles(), find_adt("questions::Question"), find_adt("records::Record"), find_adt("message::Message"), find_adt("header::Header")) else {
        r.error("the message types were not found");
        return;
    };
    let mut entry = encoders(qt, ro.t);
    entry.extend(encoders(rt, ro.t));
    let header = encoders(ht, ro.t);
    let writers: Vec<DefId> = local_fns().into_iter().map(|x| x.1).filter(|d| trait_impl(*d, "DnsWrite") && !reaches_call(*d, &["UdpSocket::send"])).collect();
    if writers.is_empty() {
        r.error("no function replies over TCP");
    }
    for d in &writers {
        let mut e = Engine::new();
        e.split_zero = true;
        let mut st = State::default();
        let inst = concrete_instance(*d);
        let args = sym_args(inst, &mut st);
        let Some(m) = args.iter().copied().find(|a| e.snap(&st, *a, 0).ty() == Some(mt)) else {
            r.error(format!("{} takes no message", path_of(*d)));
            continue;
        };
        let m = e.snap(&st, m, 0);
        let mut h = F::new("C09", ro, *d, &entry, &header, mt, ht);
        h.message(&mut e, &mut st, m);
        st.set(G_SENTV, int(0));
        e.hooks = Some(Box::new(h));
        let rets = e.root(inst, args, st);
        r.roots.push(path_of(*d));
        let mut oks = 0;
        for (s, v) in &rets {
            if let Some((0, _)) = v.fields() {
                oks += 1;
                let ok = s.get(G_SENTV).as_int() == Some(3);
                rob(r, "C09", *d, "a reply that succeeds was written whole, with its length", s, ok);
            }
        }
        if oks == 0 {
            r.error(format!("{} never succeeds", path_of(*d)));
        }
        keep(&mut e, "C09");
        r.take(&mut e);
    }
    used_lemmas(r, ro, "C09", writers);
    let readers: Vec<DefId> = local_fns()
        .into_iter()
        .map(|x| x.1)
        .filter(|d| trait_impl(*d, "DnsRead") && { let i = sig_of(*d).0; i.iter().any(|t| holds_stream(*t, 0)) })
        .collect();
    if readers.is_empty() {
        r.error("no function reads requests over TCP");
    }
    for d in &readers {
        let mut e = Engine::new();
        let mut st = State::default();
        let inst = concrete_instance(*d);
        let args = sym_args(inst, &mut st);
        let stream = e.fresh(&st, 0, 0, "stream", Some(Ty::new_slice(tcx(), tcx().types.u8)));
        e.pinned.extend(stream.syms().iter());
        st.set(G_POS, int(0));
        e.hooks = Some(Box::new(Rd { dec: byte_decoders(), stream }));
        let rets = e.root(inst, args, st);
        r.roots.push(path_of(*d));
        if rets.is_empty() {
            r.error(format!("{} never returns", path_of(*d)));
        }
        if !e.obligations.keys().any(|k| k.starts_with("a request is decoded")) {
            r.error(format!("{} decodes nothing", path_of(*d)));
        }
        keep(&mut e, "C09");
        r.take(&mut e);
    }
}
fn holds_stream(t: Ty, d: u32) -> bool {
    let t = peel(t);
    if adt_path(t).map(|p| p.ends_with("TcpStream")).unwrap_or(false) {
        return true;
    }
    match t.kind() {
        ty::Adt(a, g) if d < 4 => a.all_fields().any(|f| holds_stream(norm(f.ty(tcx(), g).skip_norm_wip()), d + 1)) || g.types().any(|t| holds_stream(norm(t), d + 1)),
        ty::Tuple(ts) if d < 4 => ts.iter().any(|t| holds_stream(t, d + 1)),
        _ => false,
    }
}
struct Rd {
    dec: Vec<DefId>,
    stream: V,
}
impl Rd {
    fn ob(&self, e: &mut Engine, st: &State, c: &Call, what: &str, ok: bool) {
        e.oblig(c.frame, c.span, what, ok);
        if !ok {
            e.fail(st, c.frame, c.span, "C09", what);
        }
    }
}
impl Hooks for Rd {
    fn call(&mut self, e: &mut Engine, st: &State, c: &Call) -> Option<Vec<(State, V)>> {
        if let Some((tr, m)) = c.tm.and_then(|t| t.rsplit_once("::")) {
            if tr.ends_with("io::Read") {
                if m != "read_exact" {
                    self.ob(e, st, c, "the request is read with a call that reads exactly as many bytes as asked for", false);
                    return Some(either(e, st, c));
                }
                let N::Ptr(l, p) = c.args[1].n() else {
                    self.ob(e, st, c, "the buffer read into is known", false);
                    return Some(either(e, st, c));
                };
                let old = e.deref(st, c.args[1]);
                let n = models::coll_len(old);
                let pos = st.get(G_POS);
                let nv = match n.as_int() {
                    Some(k) if k <= 64 => seq((0..k).map(|i| elem(self.stream, Lin::of(pos).plus(i).v(), Some(tcx().types.u8))).collect()),
                    _ => app("subslice", vec![self.stream, pos, n], old.ty()),
                };
                let mut s = st.clone();
                e.store(&mut s, *l, p, nv);
                s.set(G_POS, Lin::of(pos).add(&Lin::of(n), 1).v());
                return Some(io_result(e, &s, c, models::unit()));
            }
        }
        let d = c.inst.map(|i| i.def_id()).or(c.def)?;
        if self.dec.contains(&d) {
            let v = e.snap(st, c.args[0], 0);
            let b = |i: i128| Lin::of(elem(self.stream, int(i), Some(tcx().types.u8)));
            let want = b(0).scale(256).add(&b(1), 1);
            let q = |l: &Lin| st.query(eq0(l)) == Some(true);
            let pos = Lin::of(st.get(G_POS));
            let ok = match v.n() {
                N::App(f, a) if *f == "subslice" && a[0] == self.stream => q(&Lin::of(a[1]).plus(-2)) && q(&Lin::of(a[2]).sub(&want)),
                N::Seq(x) if x.is_empty() => q(&want),
                _ => false,
            };
            if !ok && std::env::var("SA_DBG").is_ok() {
                eprintln!("READ {v:?} want {want:?} {}", st.facts.show());
            }
            self.ob(e, st, c, "a request is decoded from exactly the bytes its length prefix announces", ok);
            self.ob(e, st, c, "nothing beyond the request is read", q(&pos.sub(&want).plus(-2)));
            return Some(either(e, st, c));
        }
        base_call(e, st, c)
    }
}
