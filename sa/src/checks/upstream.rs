//! What the resolver does with upstream servers: replies match queries (C23).
use super::base::*;
use super::frames::{either, reaches_call};
use super::net::fob;
use super::resolver::{requests, struct_fields};
use crate::interp;
use super::wire::{rob, sig_of};
use super::*;
use crate::models;

const CONN: Loc = Loc(0, 120);
const SENT: Loc = Loc(0, 121);
const TO: Loc = Loc(0, 122);
const SRC: Loc = Loc(0, 123);
const GRAM: Loc = Loc(0, 124);
const GOT: Loc = Loc(0, 125);
const HAS: [Loc; 4] = [Loc(0, 126), Loc(0, 127), Loc(0, 128), Loc(0, 129)]; // connected, sent, received, decoded
const SENT_ID: Loc = Loc(0, 130);
const GOT_ID: Loc = Loc(0, 131);
const DIRECT: Loc = Loc(0, 132); // received over the connection the query went out on
const OVER: Loc = Loc(0, 133); // the query went out on the connection there is
const G_ALL: [Loc; 6] = [CONN, SENT, TO, SRC, GRAM, GOT];

fn ref_to(t: Ty, what: Ty) -> bool {
    peel(t) == what
}
pub fn result_ok(t: Ty) -> Option<Ty> {
    match peel(t).kind() {
        ty::Adt(a, g) if path_of(a.did()) == "std::result::Result" => Some(peel(norm(g.type_at(0)))),
        _ => None,
    }
}
fn is_bytes(t: Ty) -> bool {
    let t = peel(t);
    crate::interp::elem_ty(t).map(|e| matches!(e.kind(), ty::Uint(ty::UintTy::U8))).unwrap_or(false)
}
/// functions that turn messages into bytes and bytes into messages
pub fn coders(msg: Ty) -> (Vec<DefId>, Vec<DefId>) {
    let (mut enc, mut dec) = (vec![], vec![]);
    for (_, d) in local_fns() {
        let (ins, out) = sig_of(d);
        let o = result_ok(out).unwrap_or(peel(out));
        if ins.len() >= 1 && ref_to(ins[0], msg) && is_bytes(o) {
            enc.push(d);
        }
        if ins.iter().any(|t| is_bytes(*t)) && o == msg && !ins.iter().any(|t| ref_to(*t, msg)) {
            dec.push(d);
        }
    }
    (enc, dec)
}
fn enc_of(v: V) -> Option<V> {
    let mut found = None;
    fn go(v: V, found: &mut Option<V>, d: u32) {
        if found.is_some() || d == 0 {
            return;
        }
        if let N::App(f, a) = v.n() {
            if *f == "enc" {
                *found = Some(a[0]);
                return;
            }
        }
        children(v.n(), &mut |x| go(x, found, d - 1));
    }
    go(v, &mut found, 6);
    found
}
struct U {
    enc: Vec<DefId>,
    dec: Vec<DefId>,
    sockets: Vec<DefId>,
    msg: Ty,
    header: Ty,
    given: Vec<u32>,
    n: [usize; 4],
    /// how many queries may be sent (C25)
    most: Option<V>,
}
fn flag(st: &State, i: usize) -> bool {
    st.get(HAS[i]).as_bool() == Some(true)
}
impl U {
    fn id(&self, st: &State, m: V) -> V {
        getf(st, getf(st, m, self.msg, STRUCT, "header"), self.header, STRUCT, "id")
    }
    fn sent(&mut self, e: &mut Engine, st: &mut State, c: &Call, bytes: V) {
        self.n[1] += 1;
        let k = Lin::of(st.get(SENDS)).plus(1);
        if let Some(most) = self.most {
            let ok = st.query(ge0(&Lin::of(most).sub(&k))) == Some(true);
            if !ok && std::env::var("SA_SETS").is_ok() {
                eprintln!("SENDS {k:?} {most:?} {}", st.facts.show());
            }
            fob(e, "C25", st, c.frame, c.span, "no more queries are sent for a request than it allows", ok);
        }
        st.set(SENDS, k.v());
        let m = enc_of(bytes);
        fob(e, "C23", st, c.frame, c.span, "what is sent upstream is an encoded message", m.is_some());
        st.set(SENT, m.unwrap_or(unit()));
        st.set(SENT_ID, m.map(|m| self.id(st, m)).unwrap_or(int(-1)));
        st.set(HAS[1], boolv(true));
        st.set(HAS[2], boolv(false));
        st.set(HAS[3], boolv(false));
    }
}
fn unit() -> V {
    models::unit()
}
impl Hooks for U {
    fn call(&mut self, e: &mut Engine, st: &State, c: &Call) -> Option<Vec<(State, V)>> {
        let d = c.inst.map(|i| i.def_id()).or(c.def);
        if let Some(d) = d {
            if self.enc.contains(&d) {
                let m = e.snap(st, c.args[0], 0);
                let rt = peel(c.ret_ty);
                let bt = result_ok(rt).unwrap_or(rt);
                let b = app("enc", vec![m], Some(bt));
                if result_ok(rt).is_none() {
                    return Some(vec![(st.clone(), b)]);
                }
                let mut v = either(e, st, c);
                v[0].1 = models::ok(rt, b);
                return Some(v);
            }
            if self.dec.contains(&d) {
                self.n[3] += 1;
                let b = e.snap(st, *c.args.iter().zip(&c.arg_tys).find(|(_, t)| is_bytes(**t))?.0, 0);
                let gram = st.get(GRAM);
                let fresh = flag(st, 2) && (gram.syms().iter().any(|s| b.has_any_sym(&[*s])) || b.syms().iter().any(|s| !self.given.contains(s)));
                fob(e, "C23", st, c.frame, c.span, "what is decoded is what was received for the last query", fresh);
                let mut v = if result_ok(c.ret_ty).is_some() {
                    either(e, st, c)
                } else {
                    vec![(st.clone(), e.fresh(st, c.frame, c.bb, "message", Some(self.msg)))]
                };
                let m = match v[0].1.fields() {
                    Some((_, f)) if result_ok(c.ret_ty).is_some() => f[0],
                    _ => v[0].1,
                };
                v[0].0.set(GOT, m);
                let i = self.id(st, m);
                v[0].0.set(GOT_ID, i);
                v[0].0.set(HAS[3], boolv(fresh));
                for x in v.iter_mut().skip(1) {
                    x.0.set(HAS[3], boolv(false));
                }
                return Some(v);
            }
        }
        let n = c.name;
        let udp = n.contains("std::net::UdpSocket::");
        let tcp = n.contains("std::net::TcpStream::");
        if udp || tcp {
            let m = n.rsplit("::").next().unwrap_or("");
            let mut v = if result_ok(c.ret_ty).is_some() { either(e, st, c) } else { return None };
            let s = &mut v[0].0;
            match m {
                "bind" => {
                    for i in 0..4 {
                        s.set(HAS[i], boolv(false));
                    }
                }
                "connect" | "connect_timeout" => {
                    let a = e.snap(st, c.args[if udp { 1 } else { 0 }], 0);
                    s.set(CONN, a);
                    s.set(OVER, boolv(false));
                    s.set(HAS[0], boolv(true));
                    for i in 1..4 {
                        s.set(HAS[i], boolv(false));
                    }
                    self.n[0] += 1;
                }
                "send" | "send_to" => {
                    let b = e.snap(st, c.args[1], 0);
                    let to = if m == "send_to" { e.snap(st, c.args[2], 0) } else { st.get(CONN) };
                    if m == "send" {
                        fob(e, "C23", st, c.frame, c.span, "a socket is connected before it is used", flag(st, 0));
                    }
                    self.sent(e, s, c, b);
                    s.set(TO, to);
                    s.set(OVER, boolv(m == "send"));
                }
                "recv" | "recv_from" | "peek" | "peek_from" => {
                    self.n[2] += 1;
                    let N::Ptr(l, p) = c.args[1].n() else { return None };
                    let old = e.deref(st, c.args[1]);
                    let k = Lin::of(models::coll_len(old));
                    let g = e.fresh(st, c.frame, c.bb, "datagram", old.ty());
                    s.assume(eq0(&Lin::of(models::coll_len(g)).sub(&k)), true);
                    e.store(s, *l, p, g);
                    s.set(GRAM, g);
                    s.set(HAS[2], boolv(flag(st, 1)));
                    s.set(HAS[3], boolv(false));
                    let t = result_ok(c.ret_ty)?;
                    let r = match v[0].1.fields() {
                        Some((_, f)) => f[0],
                        None => return Some(v),
                    };
                    let (cnt, src) = match t.kind() {
                        ty::Tuple(ts) => (field(r, STRUCT, 0, Some(ts[0])), if flag(st, 0) { st.get(CONN) } else { field(r, STRUCT, 1, Some(ts[1])) }),
                        _ => (r, if flag(st, 0) { st.get(CONN) } else { e.fresh(st, c.frame, c.bb, "sender", None) }),
                    };
                    let s = &mut v[0].0;
                    s.assume(ge0(&k.sub(&Lin::of(cnt))), true);
                    s.set(SRC, src);
                    let direct = flag(s, 0) && s.get(OVER).as_bool() == Some(true);
                    s.set(DIRECT, boolv(direct));
                }
                _ => {}
            }
            return Some(v);
        }
        if let Some(tm) = c.tm {
            let st_ty = c.self_ty().map(peel);
            if st_ty.and_then(adt_path).map(|p| p.contains("net::TcpStream")).unwrap_or(false) {
                if tm.ends_with("Write::write_all") || tm.ends_with("Write::write") {
                    let b = e.snap(st, c.args[1], 0);
                    let mut v = either(e, st, c);
                    fob(e, "C23", st, c.frame, c.span, "a socket is connected before it is used", flag(st, 0));
                    self.sent(e, &mut v[0].0, c, b);
                    v[0].0.set(TO, st.get(CONN));
                    v[0].0.set(OVER, boolv(true));
                    return Some(v);
                }
                if tm.contains("Read::read") {
                    let mut v = either(e, st, c);
                    self.n[2] += 1;
                    if let N::Ptr(l, p) = c.args[1].n() {
                        let old = e.deref(st, c.args[1]);
                        let g = e.fresh(st, c.frame, c.bb, "stream", old.ty());
                        let s = &mut v[0].0;
                        e.store(s, *l, p, g);
                        s.set(GRAM, g);
                        s.set(SRC, st.get(CONN));
                        s.set(DIRECT, boolv(flag(st, 0) && st.get(OVER).as_bool() == Some(true)));
                        s.set(HAS[2], boolv(flag(st, 1)));
                        s.set(HAS[3], boolv(false));
                    }
                    return Some(v);
                }
            }
        }
        // what changes its arguments but touches no socket is of no interest
        if let Some(d) = d {
            if local_crate(d) && !tcx().is_closure_like(d) && !self.sockets.contains(&d) {
                let changes = c.arg_tys.iter().any(|t| matches!(t.kind(), ty::Ref(_, _, m) if m.is_mut()));
                let shows = c.tm.map(|t| t.starts_with("std::fmt::")).unwrap_or(false);
                if changes || shows {
                    return Some(e.opaque_call(c.frame, c.bb, st.clone(), c.name, &c.args, c.ret_ty));
                }
            }
        }
        None
    }
}
/// how many queries were sent
const SENDS: Loc = Loc(0, 170);
pub fn replies(r: &mut Report) {
    run(r, "C23")
}
pub fn run(r: &mut Report, prop: &'static str) {
    let (Some(msg), Some(header)) = (find_adt("Message"), find_adt("Header")) else {
        r.error("no Message or Header");
        return;
    };
    let (enc, dec) = coders(msg);
    let roots = requests();
    if enc.is_empty() || dec.is_empty() || roots.is_empty() {
        r.error(format!("{} encoders, {} decoders, {} functions that send requests", enc.len(), dec.len(), roots.len()));
        return;
    }
    let sockets: Vec<DefId> = local_fns().into_iter().map(|x| x.1).filter(|d| reaches_call(*d, &["std::net::UdpSocket", "std::net::TcpStream"])).collect();
    let mut total = [0usize; 4];
    for d in roots {
        let mut e = Engine::new();
        let mut st = State::default();
        set_tenv(ty::TypingEnv::post_analysis(tcx(), d));
        let inst = identity_instance(d);
        let args = sym_args(inst, &mut st);
        for a in &args {
            let v = e.snap(&st, *a, 0);
            e.pinned.extend(v.syms().iter());
        }
        let given: Vec<u32> = args.iter().flat_map(|a| a.syms().iter().copied()).collect();
        for h in HAS {
            st.set(h, boolv(false));
        }
        for g in G_ALL {
            st.set(g, unit());
        }
        let mut most = None;
        st.set(SENDS, int(0));
        if prop == "C25" {
            let (ins, _) = sig_of(d);
            let l: Vec<V> = args.iter().zip(&ins).flat_map(|(a, t)| {
                let v = e.snap(&st, *a, 0);
                struct_fields(peel(*t)).into_iter().enumerate().filter(|x| x.1.1 == interp::usize_ty().unwrap()).map(move |(k, x)| field(v, STRUCT, k as u32, Some(x.1))).collect::<Vec<_>>()
            }).collect();
            if l.len() != 1 {
                r.error("how often a request may be sent was not found");
                return;
            }
            e.pinned.extend(l[0].syms().iter());
            most = Some(l[0]);
        }
        st.set(DIRECT, boolv(false));
        st.set(OVER, boolv(false));
        st.set(SENT_ID, int(-1));
        st.set(GOT_ID, int(-2));
        e.hooks = Some(Box::new(U { enc: enc.clone(), dec: dec.clone(), sockets: sockets.clone(), msg, header, given: given.clone(), n: [0; 4], most }));
        let rets = e.root(inst, args.clone(), st);
        r.roots.push(path_of(d));
        let h = e.hooks.take().map(|h| unsafe { Box::from_raw(Box::into_raw(h) as *mut U) }).unwrap();
        for i in 0..4 {
            total[i] += h.n[i];
        }
        let mut used = 0;
        for (s, v) in &rets {
            let v = e.snap(s, *v, 0);
            if std::env::var("SA_DBG").is_ok() {
                eprintln!("RET {v:?}\n CONN {:?} SENT {:?} TO {:?} SRC {:?} GOT {:?}\n {}", s.get(CONN), s.get(SENT), s.get(TO), s.get(SRC), s.get(GOT), s.facts.show());
            }
            if s.query(is_var(v, 0)) == Some(false) {
                continue;
            }
            used += 1;
            if prop != "C23" {
                continue;
            }
            rob(r, "C23", d, "a reply is used only if one was received", s, flag(s, 3));
            let g = Lin::of(s.get(SENT_ID)).sub(&Lin::of(s.get(GOT_ID)));
            rob(r, "C23", d, "the reply has the id of the query", s, s.query(eq0(&g)) == Some(true));
            let (to, src) = (s.get(TO), s.get(SRC));
            let from = s.get(DIRECT).as_bool() == Some(true) || to == src || same(&mut e, s, to, src);
            rob(r, "C23", d, "the reply came from where the query was sent", s, from);
            // to a server the caller named
            let named = !to.syms().is_empty() && given.iter().any(|g| to.has_any_sym(&[*g]));
            rob(r, "C23", d, "the query was sent to an address of the server asked", s, named);
        }
        if used == 0 {
            r.error(format!("{} never uses a reply", path_of(d)));
        }
        if prop != "C23" {
            e.obligations.retain(|k, _| k.starts_with("no more queries"));
        }
        keep(&mut e, prop);
        r.take(&mut e);
    }
    if total.iter().skip(1).any(|n| *n == 0) {
        r.error("no query is sent, received or decoded");
    }
}
