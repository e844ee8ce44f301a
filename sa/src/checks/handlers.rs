//! Request handlers of both servers: what is handed to the transport, how often, and from which
//! data (C10 for replies, C11, C12, C13, C14, C15, C26 hand-over, C36).
use super::base::*;
use super::*;
use crate::models;

const G_READ: Loc = Loc(0, 2);
const G_ONE: Loc = Loc(0, 3);
const G_MANY: Loc = Loc(0, 4);
const G_FOUND: Loc = Loc(0, 5);
const G_UP: Loc = Loc(0, 6);
const G_DOWN: Loc = Loc(0, 7);
const G_LOOK: Loc = Loc(0, 8);

pub struct H {
    pub prop: &'static str,
    pub ns: bool,
    pub replies: usize,
    pub reads: usize,
    msg_ty: Ty,
    hdr_ty: Ty,
    zone_ty: Option<Ty>,
    rec_ty: Ty,
    rt_ty: Ty,
    rc_ty: Ty,
    q_ty: Ty,
}
fn g(st: &State, l: Loc) -> bool {
    st.get(l).as_bool().unwrap_or(true)
}
impl H {
    pub fn new(prop: &'static str, ns: bool) -> Option<H> {
        Some(H {
            prop,
            ns,
            replies: 0,
            reads: 0,
            msg_ty: find_ty("dns::message::Message")?,
            hdr_ty: find_ty("dns::header::Header")?,
            zone_ty: find_ty("zones::parser::Zone"),
            rec_ty: find_ty("dns::records::Record")?,
            rt_ty: find_ty("dns::types::RecordType")?,
            rc_ty: find_ty("dns::header::RespCode")?,
            q_ty: find_ty("dns::questions::Question")?,
        })
    }
    fn chk(&mut self, e: &mut Engine, st: &State, c: &Call, prop: &str, what: &str, ok: bool) {
        if prop != self.prop {
            return;
        }
        e.oblig(c.frame, c.span, what, ok);
        if !ok {
            if std::env::var("SA_DBG").is_ok() {
                eprintln!("{what}: {}", show(e.snap(st, c.args[1], 0)));
            }
            e.fail(st, c.frame, c.span, prop, what);
        }
    }
    fn f(&self, st: &State, v: V, t: Ty, name: &str) -> V {
        getf(st, v, t, STRUCT, name)
    }
    fn variant(&self, t: Ty, n: &str) -> u32 {
        variant_index(t, n).unwrap_or(62)
    }
    fn is_code(&self, st: &State, code: V, n: &str) -> bool {
        st.query(is_var(code, self.variant(self.rc_ty, n))) == Some(true)
    }
    fn empty(&self, st: &State, v: V) -> bool {
        st.query(eq0(&Lin::of(models::coll_len(v)))) == Some(true)
    }
    fn kind(&self, n: &str) -> V {
        adt(self.variant(self.rt_ty, n), vec![], Some(self.rt_ty))
    }
    fn on_reply(&mut self, e: &mut Engine, st: &State, c: &Call) -> State {
        self.replies += 1;
        let m = e.snap(st, c.args[1], 0);
        let mut out = st.clone();
        if g(st, G_ONE) {
            out.set(G_MANY, boolv(true));
        }
        out.set(G_ONE, boolv(true));
        let rd = st.get(G_READ);
        let (k, rf) = match rd.fields() {
            Some(x) => x,
            None => {
                self.chk(e, st, c, "C11", "a reply is sent only after the request was read", false);
                return out;
            }
        };
        let h = self.f(st, m, self.msg_ty, "header");
        let secs = ["questions", "answers", "authorities", "additionals"];
        let vals: Vec<V> = secs.iter().map(|s| self.f(st, m, self.msg_ty, s)).collect();
        // C10: counts
        for (i, s) in secs.iter().enumerate() {
            let cnt = self.f(st, h, self.hdr_ty, &format!("{s}_count"));
            let len = models::coll_len(vals[i]);
            let ok = count_ok(e, st, cnt, len);
            self.chk(e, st, c, "C10", &format!("the {s} count of the reply equals the number of {s} it carries"), ok);
        }
        // C12: echo
        let (rh, req) = match k {
            0 => (self.f(st, rf[0], self.msg_ty, "header"), Some(rf[0])),
            1 => (rf[0], None),
            _ => {
                self.chk(e, st, c, "C11", "nothing is sent when the request could not be read", false);
                return out;
            }
        };
        for n in ["id", "op_code", "recursion_desired"] {
            let (a, b) = (self.f(st, h, self.hdr_ty, n), self.f(st, rh, self.hdr_ty, n));
            let ok = same(e, st, a, b);
            self.chk(e, st, c, "C12", &format!("the reply carries the {n} of the request"), ok);
        }
        let qr = self.f(st, h, self.hdr_ty, "query_resp");
        let ok = st.query(qr) == Some(true);
        self.chk(e, st, c, "C12", "the reply has the response flag set", ok);
        if let Some(req) = req {
            let q = self.f(st, req, self.msg_ty, "questions");
            let mut ok = same(e, st, vals[0], q);
            if !ok {
                // the same questions one by one
                if let N::Seq(x) = vals[0].n() {
                    ok = st.query(eq0(&Lin::of(models::coll_len(q)).plus(-(x.len() as i128)))) == Some(true);
                    for (i, v) in x.iter().enumerate() {
                        let qe = elem(q, int(i as i128), Some(self.q_ty));
                        ok &= same_struct(e, st, *v, qe, self.q_ty);
                    }
                }
            }
            self.chk(e, st, c, "C12", "the reply carries the questions of the request", ok);
        }
        // C14: flags
        let aa = self.f(st, h, self.hdr_ty, "auth_answer");
        let ra = self.f(st, h, self.hdr_ty, "recursion_available");
        if self.ns {
            let ok = st.query(ra) == Some(false);
            self.chk(e, st, c, "C14", "the nameserver does not advertise recursion", ok);
        } else {
            let ok = st.query(ra) == Some(true);
            self.chk(e, st, c, "C14", "the resolver advertises recursion", ok);
            let ok = st.query(aa) == Some(false);
            self.chk(e, st, c, "C14", "the resolver does not claim authority", ok);
        }
        let code = self.f(st, h, self.hdr_ty, "resp_code");
        let nodata = self.empty(st, vals[1]) && self.empty(st, vals[2]) && self.empty(st, vals[3]);
        let Some(req) = req else {
            // header only
            let inner = inner_err(st, rf[1]);
            let mask = inner.map(|x| st.facts.mask(x)).unwrap_or(u64::MAX);
            let pt = inner.and_then(|x| x.ty());
            let mut uns = 0u64;
            if let Some(t) = pt {
                for n in ["UnsupportedOpCode", "UnsupportedClass", "UnsupportedType"] {
                    if let Some(k) = variant_index(t, n) {
                        uns |= 1 << k;
                    }
                }
            }
            let ok = (mask & !uns == 0 && self.is_code(st, code, "NotImp")) || (mask & uns == 0 && self.is_code(st, code, "FormErr"));
            self.chk(e, st, c, "C13", "an undecodable request is answered not-implemented for unsupported features and format-error otherwise", ok);
            self.chk(e, st, c, "C15", "a request that was not decoded is answered without data", nodata);
            return out;
        };
        // validity of the request
        let rqs = self.f(st, req, self.msg_ty, "questions");
        let flag = self.f(st, rh, self.hdr_ty, "query_resp");
        let an = Lin::of(self.f(st, rh, self.hdr_ty, "answers_count"));
        let au = Lin::of(self.f(st, rh, self.hdr_ty, "authorities_count"));
        let ql = Lin::of(models::coll_len(rqs)).plus(-1);
        let conds = [st.query(not(flag)), st.query(eq0(&an)), st.query(eq0(&au)), st.query(eq0(&ql))];
        let valid = if conds.iter().all(|x| *x == Some(true)) {
            Some(true)
        } else if conds.contains(&Some(false)) {
            Some(false)
        } else {
            None
        };
        if valid != Some(true) {
            let ok = self.is_code(st, code, "FormErr") && valid == Some(false);
            self.chk(e, st, c, "C13", "an invalid request, and only an invalid request, is answered with format-error", ok);
            self.chk(e, st, c, "C15", "an invalid request is answered without data", nodata);
            return out;
        }
        let q = elem(rqs, int(0), Some(self.q_ty));
        let node = self.f(st, q, self.q_ty, "node");
        let qt = self.f(st, q, self.q_ty, "record_type");
        if self.ns {
            self.ns_reply(e, st, c, h, code, aa, &vals, node, qt, nodata);
        } else {
            self.rs_reply(e, st, c, code, &vals);
        }
        out
    }
    fn ns_reply(&mut self, e: &mut Engine, st: &State, c: &Call, _h: V, code: V, aa: V, vals: &[V], node: V, qt: V, nodata: bool) {
        let Some((auth, zt)) = self.auth_zone(st) else {
            self.chk(e, st, c, "C15", "the served zone is found", false);
            return;
        };
        let azone = self.f(st, auth, zt, "zone");
        let inz = st.query(in_zone(node, azone));
        if inz == Some(false) {
            let ok = self.is_code(st, code, "Refused");
            self.chk(e, st, c, "C13", "a name outside the served zone is refused", ok);
            self.chk(e, st, c, "C15", "a name outside the served zone gets no data", nodata);
            return;
        }
        if inz.is_none() {
            self.chk(e, st, c, "C15", "whether the name is in the served zone is decided before replying", false);
            self.chk(e, st, c, "C13", "whether the name is in the served zone is decided before replying", false);
            return;
        }
        // in a subzone: some sub zone element is known to contain the name
        let sub = self.containing_sub(st, node, azone);
        if let Some((sub, szone)) = sub {
            let ok = self.is_code(st, code, "NoError");
            self.chk(e, st, c, "C13", "a referral carries no-error", ok);
            let ok = st.query(aa) == Some(false);
            self.chk(e, st, c, "C14", "a referral is not authoritative", ok);
            let nsid = zone_recs(sub, szone, self.kind("NS"));
            let ok = self.empty(st, vals[1]);
            self.chk(e, st, c, "C15", "a name in a delegated subzone gets no answer from authoritative data", ok);
            self.chk(e, st, c, "C36", "a referral carries no answer", ok);
            let ok = whole(vals[2], nsid) || self.all_from(st, vals[2], &|x| from_coll(x, nsid));
            self.chk(e, st, c, "C15", "the authorities of a referral are the subzone's name servers", ok && !self.empty(st, vals[2]));
            self.chk(e, st, c, "C36", "the authorities of a referral are NS records of the subzone", ok);
            let want = app("len", vec![nsid], usize_ty());
            let ok = st.query(eq0(&Lin::of(models::coll_len(vals[2])).sub(&Lin::of(want)))) == Some(true);
            self.chk(e, st, c, "C36", "a referral carries as many NS records as the subzone has", ok);
            let ka = self.kind("A");
            let rec_ty = self.rec_ty;
            let nsk = self.variant(self.rt_ty, "NS");
            let _ = nsk;
            let ok = self.all_from(st, vals[3], &|x| match coll_of(x).and_then(recs_parts) {
                Some((_, n, k)) => k == ka && ns_target(n, rec_ty).map(|r| from_coll(r, nsid)).unwrap_or(false),
                None => false,
            });
            if !ok && std::env::var("SA_DBG").is_ok() { eprintln!("ADD {}", show(vals[3])); for a in alts_of(vals[3], st) { eprintln!("  ALT {}", show(a.t)); } }
            self.chk(e, st, c, "C36", "the additionals of a referral are address records of the subzone's name servers", ok);
            return;
        }
        // authoritative data
        let seen = |l: Loc| self.subs().map(|x| st.query(ge0(&Lin::of(st.get(l)).sub(&Lin::of(models::coll_len(x))))) == Some(true)).unwrap_or(false);
        let done = !g(st, G_FOUND) && (seen(G_UP) || seen(G_DOWN));
        self.chk(e, st, c, "C15", "a reply from authoritative data is given only after every delegated subzone was excluded", done);
        let first = is_var(zone_get(auth, node, qt), 1);
        let second = is_var(zone_get(auth, node, self.kind("CNAME")), 1);
        let (a, b) = (st.query(first), st.query(second));
        let ok = st.query(aa) == Some(true);
        self.chk(e, st, c, "C14", "a reply from the zone's own data is authoritative", ok);
        let r1 = zone_recs(auth, node, qt);
        let r2 = zone_recs(auth, node, self.kind("CNAME"));
        let len1 = st.query(ge0(&Lin::of(app("len", vec![r1], usize_ty())).plus(-1)));
        let _ = len1;
        if a == Some(true) || (a == Some(false) && b == Some(true)) {
            let want = if a == Some(true) { r1 } else { r2 };
            let ok = self.is_code(st, code, "NoError");
            self.chk(e, st, c, "C13", "a name with data is answered with no-error", ok);
            let ok = (whole(vals[1], want) || self.all_from(st, vals[1], &|x| from_coll(x, want))) && st.query(eq0(&Lin::of(models::coll_len(vals[1])).sub(&Lin::of(app("len", vec![want], usize_ty()))))) == Some(true);
            self.chk(e, st, c, "C15", "the answers are the zone's records of the queried name and type, or its alias", ok);
            let ok = self.empty(st, vals[2]) && self.empty(st, vals[3]);
            self.chk(e, st, c, "C15", "an authoritative answer carries nothing else", ok);
        } else if a == Some(false) && b == Some(false) {
            let ok = self.is_code(st, code, "NxDomain");
            self.chk(e, st, c, "C13", "a name without data in the authoritative zone is answered with name-error", ok);
            let ok = self.empty(st, vals[1]) && self.empty(st, vals[3]);
            self.chk(e, st, c, "C15", "a name error carries no records besides the zone's SOA", ok);
            let soa = zone_recs(auth, azone, self.kind("SOA"));
            let ok = whole(vals[2], soa) || self.all_from(st, vals[2], &|x| from_coll(x, soa));
            self.chk(e, st, c, "C15", "the authority of a name error is the SOA of the zone", ok);
        } else {
            self.chk(e, st, c, "C13", "whether the name has data is decided before replying", false);
            self.chk(e, st, c, "C15", "whether the name has data is decided before replying", false);
        }
    }
    fn rs_reply(&mut self, e: &mut Engine, st: &State, c: &Call, code: V, vals: &[V]) {
        let l = st.get(G_LOOK);
        let Some((k, f)) = l.fields() else {
            self.chk(e, st, c, "C13", "a valid request is answered after its resolution", false);
            self.chk(e, st, c, "C26", "a valid request is answered after its resolution", false);
            return;
        };
        if k == 1 {
            let ok = self.is_code(st, code, "ServFail");
            self.chk(e, st, c, "C13", "a failed resolution is answered with server-failure", ok);
            return;
        }
        let res = f[0];
        let Some(t) = res.ty() else { return };
        let fl = getf(st, res, t, STRUCT, "3");
        match st.query(fl) {
            Some(true) => {
                let ok = self.is_code(st, code, "NxDomain");
                self.chk(e, st, c, "C13", "a name that does not exist is answered with name-error", ok);
            }
            Some(false) => {
                let ok = self.is_code(st, code, "NoError");
                self.chk(e, st, c, "C13", "an answered resolution carries no-error", ok);
                for (i, n) in [(1, "answers"), (2, "authorities"), (3, "additionals")] {
                    let w = getf(st, res, t, STRUCT, &format!("{}", i - 1));
                    let ok = same(e, st, vals[i], w);
                    self.chk(e, st, c, "C26", &format!("the {n} of the reply are those of the resolution, in the same order"), ok);
                }
            }
            None => self.chk(e, st, c, "C13", "whether the name exists is decided before replying", false),
        }
    }
    fn all_from(&self, st: &State, v: V, p: &dyn Fn(V) -> bool) -> bool {
        alts_of(v, st).iter().all(|a| p(a.t))
    }
    /// the zone the server is authoritative for
    fn auth_zone(&self, st: &State) -> Option<(V, Ty)> {
        let zt = self.zone_ty?;
        let mz = find_ty("zones::parser::ManagedZone")?;
        let ht = find_ty("nameserver::handler::NameserverHandler")?;
        let m = getf(st, sym("self", ht), ht, STRUCT, "0");
        Some((getf(st, m, mz, STRUCT, "auth_zone"), zt))
    }
    /// an element of the subzone list was compared with the queried name: `up` elements from the
    /// front and `down` from the back have been seen so far
    fn scanned(&self, s: &mut State, z: V, hit: bool) {
        if hit {
            s.set(G_FOUND, boolv(true));
        }
        let N::App(f, a) = z.n() else { return };
        if *f != "elem" || Some(a[0]) != self.subs() {
            return;
        }
        let (i, len) = (Lin::of(a[1]), Lin::of(models::coll_len(a[0])));
        let (up, down) = (Lin::of(s.get(G_UP)), Lin::of(s.get(G_DOWN)));
        if s.query(eq0(&i.sub(&up))) == Some(true) {
            s.set(G_UP, up.plus(1).v());
        }
        if s.query(eq0(&len.plus(-1).sub(&i).sub(&down))) == Some(true) {
            s.set(G_DOWN, down.plus(1).v());
        }
    }
    fn subs(&self) -> Option<V> {
        let mz = find_ty("zones::parser::ManagedZone")?;
        let ht = find_ty("nameserver::handler::NameserverHandler")?;
        let st = State::default();
        let m = getf(&st, sym("self", ht), ht, STRUCT, "0");
        Some(getf(&st, m, mz, STRUCT, "sub_zones"))
    }
    fn containing_sub(&self, st: &State, node: V, azone: V) -> Option<(V, V)> {
        let zt = self.zone_ty?;
        let zi = field_index(zt, STRUCT, "zone")?;
        for (p, t) in st.facts.list() {
            if let (N::App(f, a), true) = (p.n(), t) {
                if *f == "in_zone" && a[0] == node && a[1] != azone {
                    if let N::Field(z, _, i) = a[1].n() {
                        if *i == zi && z.ty() == Some(zt) && is_elem(*z) {
                            return Some((*z, a[1]));
                        }
                    }
                }
            }
        }
        None
    }
    fn zone_get_hook(&mut self, e: &mut Engine, st: &State, c: &Call) -> Vec<(State, V)> {
        let zt = self.zone_ty.unwrap();
        let z = e.snap(st, c.args[0], 0);
        let n = e.snap(st, c.args[1], 0);
        let k = e.snap(st, c.args[2], 0);
        let ret = peel(c.ret_ty);
        let p = is_var(zone_get(z, n, k), 1);
        let zone_of = getf(st, z, zt, STRUCT, "zone");
        let mut out = vec![];
        // invariants of loaded zones (C32)
        let top = same(e, st, n, zone_of);
        let sure = top && ((k == self.kind("NS") && is_elem(z)) || (k == self.kind("SOA") && !is_elem(z)));
        let (x, y) = models::split(st, p);
        if let Some(mut s) = x {
            let id = zone_recs(z, n, k);
            let len = app("len", vec![id], usize_ty());
            s.assume(ge0(&Lin::of(len).plus(-1)), true);
            let b = intern(N::Bvar(sym_str("rec")), Some(self.rec_ty));
            let mut facts = vec![];
            if let Some((kk, _)) = k.fields() {
                let name = variant_name(Some(self.rt_ty), kk);
                if let Some(v) = variant_index(self.rec_ty, &name) {
                    facts.push((is_var(b, v), true));
                }
            }
            let v = summ(id, len, vec![Alt { t: b, facts }]);
            out.push((s, adt(1, vec![v], Some(ret))));
        }
        if let (Some(s), false) = (y, sure) {
            out.push((s, adt(0, vec![], Some(ret))));
        }
        out
    }
}
pub fn is_elem(v: V) -> bool {
    match v.n() {
        N::App(f, _) => *f == "elem" || *f == "inst",
        N::Field(a, _, _) => is_elem(*a),
        _ => false,
    }
}
pub fn zone_get(z: V, n: V, k: V) -> V {
    app("zone_get", vec![z, n, k], opt_ty())
}
fn opt_ty() -> Option<Ty> {
    thread_local! { static T: std::cell::Cell<Option<Ty>> = const { std::cell::Cell::new(None) }; }
    if let Some(t) = T.with(|t| t.get()) {
        return Some(t);
    }
    let d = tcx().lang_items().option_type()?;
    let t = ty::Ty::new_adt(tcx(), tcx().adt_def(d), tcx().mk_args(&[tcx().types.unit.into()]));
    T.with(|c| c.set(Some(t)));
    Some(t)
}
pub fn zone_recs(z: V, n: V, k: V) -> V {
    app("zone_recs", vec![z, n, k], None)
}
/// the collection an element term was taken from
pub fn coll_of(x: V) -> Option<V> {
    match x.n() {
        N::App(f, a) if *f == "inst" => Some(a[1]),
        N::App(f, a) if *f == "elem" => Some(match a[0].n() {
            N::Summ(id, _, _) => *id,
            _ => a[0],
        }),
        N::Bvar(_) => None,
        _ => None,
    }
}
fn from_coll(x: V, id: V) -> bool {
    if let N::Bvar(_) = x.n() {
        return false;
    }
    coll_of(x) == Some(id)
}
/// the collection itself
fn whole(v: V, id: V) -> bool {
    matches!(v.n(), N::Summ(i, _, _) if *i == id)
}
fn recs_parts(v: V) -> Option<(V, V, V)> {
    match v.n() {
        N::App(f, a) if *f == "zone_recs" => Some((a[0], a[1], a[2])),
        _ => None,
    }
}
/// the record whose NS target the name is
fn ns_target(n: V, rec_ty: Ty) -> Option<V> {
    let k = variant_index(rec_ty, "NS")?;
    let i = field_index(rec_ty, k, "name")?;
    match n.n() {
        N::Field(r, kk, j) if *kk == k && *j == i => Some(*r),
        _ => None,
    }
}
/// the parsing error inside a message error
fn inner_err(st: &State, m: V) -> Option<V> {
    let t = m.ty()?;
    let mask = st.facts.mask(m);
    if mask.count_ones() != 1 {
        return None;
    }
    let k = mask.trailing_zeros();
    let d = t.ty_adt_def()?;
    let vd = d.variants().iter().nth(k as usize)?;
    for i in 0..vd.fields.len() as u32 {
        let ft = field_ty(t, k, i)?;
        if is_enum(ft) {
            return Some(field(m, k, i, Some(ft)));
        }
    }
    None
}
/// `cnt` (a 16 bit count) equals `len`; sections never have more than 65535 entries
pub fn count_ok(e: &mut Engine, st: &State, cnt: V, len: V) -> bool {
    let mut s = st.clone();
    if !s.assume(ge0(&Lin::of(len).scale(-1).plus(65535)), true) {
        return true;
    }
    if s.query(eq0(&Lin::of(cnt).sub(&Lin::of(len)))) == Some(true) {
        return true;
    }
    let t = e.cast_int(st, len, tcx().types.usize, tcx().types.u16);
    st.query(eq0(&Lin::of(cnt).sub(&Lin::of(t)))) == Some(true)
}

impl Hooks for H {
    fn call(&mut self, e: &mut Engine, st: &State, c: &Call) -> Option<Vec<(State, V)>> {
        if c.tm.map_or(false, |t| t.ends_with("traits::DnsRead::read")) {
            self.reads += 1;
            let t = peel(c.ret_ty);
            let mut out = vec![];
            for k in 0..4u32 {
                let mut s = st.clone();
                let mut fs = vec![];
                let n = t.ty_adt_def().map(|d| d.variant(rustc_abi::VariantIdx::from_u32(k)).fields.len()).unwrap_or(0);
                for i in 0..n as u32 {
                    let ft = field_ty(t, k, i)?;
                    fs.push(sym(&format!("read.{}.{i}", variant_name(Some(t), k)), peel(ft)));
                }
                if variant_name(Some(t), k) == "FullMessage" {
                    // established for every decoded message (C10)
                    let h = self.f(&s, fs[0], self.msg_ty, "header");
                    for x in ["questions", "answers", "authorities", "additionals"] {
                        let cn = self.f(&s, h, self.hdr_ty, &format!("{x}_count"));
                        let v = self.f(&s, fs[0], self.msg_ty, x);
                        s.assume(eq0(&Lin::of(cn).sub(&Lin::of(models::coll_len(v)))), true);
                    }
                }
                let v = adt(k, fs, Some(t));
                s.set(G_READ, v);
                out.push((s, v));
            }
            return Some(out);
        }
        if c.tm.map_or(false, |t| t.ends_with("traits::DnsWrite::reply")) {
            let s = self.on_reply(e, st, c);
            let v = e.fresh(&s, c.frame, c.bb, "reply_result", Some(c.ret_ty));
            return Some(vec![(s, v)]);
        }
        if self.ns {
            if c.name.ends_with("zones::parser::Zone::get") && c.args.len() == 3 {
                return Some(self.zone_get_hook(e, st, c));
            }
            if c.name.ends_with("dns::name::Name::is_in_zone") && c.args.len() == 2 {
                let a = e.snap(st, c.args[0], 0);
                let b = e.snap(st, c.args[1], 0);
                if let (N::Field(z, _, _), N::Field(q, _, _)) = (b.n(), a.n()) {
                    if z.ty() == self.zone_ty && is_elem(*z) && q.ty() == Some(self.q_ty) {
                        let p = in_zone(a, b);
                        let (x, y) = models::split(st, p);
                        let mut out = vec![];
                        for (s, t) in [(x, true), (y, false)] {
                            if let Some(mut s) = s {
                                self.scanned(&mut s, *z, t);
                                out.push((s, boolv(t)));
                            }
                        }
                        return Some(out);
                    }
                }
            }
        } else if let Some(i) = c.inst {
            // the resolver's lookup
            if local_crate(i.def_id()) {
                if let ty::Tuple(ts) = c.ret_ty.kind() {
                    let rt = ts.first().copied().map(norm);
                    if let Some(rt) = rt {
                        if let ty::Adt(_, ga) = rt.kind() {
                            if adt_path(rt).as_deref() == Some("std::result::Result") && adt_path(ga.type_at(0)).map(|p| p.ends_with("LookupResponse")).unwrap_or(false) {
                                return Some(self.lookup(e, st, c, rt, ts[1]));
                            }
                        }
                    }
                }
            }
        }
        base_call(e, st, c)
    }
}
impl H {
    fn lookup(&mut self, e: &mut Engine, st: &State, c: &Call, rt: Ty, tt: Ty) -> Vec<(State, V)> {
        // what is looked up is what was asked
        if let (Some(lt), Some((0, rf))) = (find_adt("recursive::Lookup"), st.get(G_READ).fields()) {
            let l = e.snap(st, c.args[0], 0);
            let q = elem(self.f(st, rf[0], self.msg_ty, "questions"), int(0), Some(self.q_ty));
            let node = self.f(st, q, self.q_ty, "node");
            let qt = self.f(st, q, self.q_ty, "record_type");
            let ltt = l.ty().unwrap_or(lt);
            let ok = same(e, st, getf(st, l, ltt, STRUCT, "searched_node"), node) && same(e, st, getf(st, l, ltt, STRUCT, "searched_kind"), qt);
            self.chk(e, st, c, "C26", "the name and type looked up are those asked for", ok);
            let ok = self.empty(st, getf(st, l, ltt, STRUCT, "previous_cnames"));
            self.chk(e, st, c, "C26", "a resolution starts with no aliases collected", ok);
            let ok = self.empty(st, getf(st, l, ltt, STRUCT, "previous_zones"));
            self.chk(e, st, c, "C25", "a resolution starts with no zones visited", ok);
        }
        let ty::Adt(_, ga) = rt.kind() else { return vec![] };
        let (okt, ert) = (ga.type_at(0), ga.type_at(1));
        let mut out = vec![];
        for k in 0..2u32 {
            let mut s = st.clone();
            let f = e.fresh(st, c.frame, c.bb, if k == 0 { "lookup_ok" } else { "lookup_err" }, Some(if k == 0 { okt } else { ert }));
            let r = adt(k, vec![f], Some(rt));
            s.set(G_LOOK, r);
            let tr = e.fresh(st, c.frame, c.bb, "lookup_trace", Some(tt));
            let v = adt(0, vec![r, tr], Some(peel(c.ret_ty)));
            out.push((s, v));
        }
        out
    }
}
/// analyse the handler(s) of this crate for one property
pub fn run(r: &mut Report, prop: &'static str, which: &[bool]) {
    if crate_name() != "ariadne_dns" {
        return;
    }
    for ns in which {
        let ty = if *ns { "NameserverHandler" } else { "ResolverHandler" };
        let roots: Vec<DefId> = local_fns().into_iter().filter(|(p, _)| p.ends_with("net::traits::DnsHandler>::handle_request") && p.contains(&format!("::{ty} "))).map(|x| x.1).collect();
        if roots.len() != 1 {
            r.error(format!("request handler of {ty} not found"));
            continue;
        }
        let Some(h) = H::new(prop, *ns) else {
            r.error("message types not found");
            continue;
        };
        let mut e = Engine::new();
        e.hooks = Some(Box::new(h));
        let mut st = State::default();
        for l in [G_ONE, G_MANY, G_FOUND] {
            st.set(l, boolv(false));
        }
        st.set(G_UP, int(0));
        st.set(G_DOWN, int(0));
        st.set(G_READ, adt(0, vec![], None));
        st.set(G_LOOK, adt(0, vec![], None));
        let inst = concrete_instance(roots[0]);
        let args = sym_args(inst, &mut st);
        let rets = e.root(inst, args, st);
        r.roots.push(path_of(roots[0]));
        if rets.is_empty() {
            r.error("no path through the handler");
        }
        if prop == "C11" {
            for (s, _) in &rets {
                let name = s.get(G_READ).fields().map(|(k, _)| variant_name(s.get(G_READ).ty(), k)).unwrap_or_default();
                let want = name == "FullMessage" || name == "HeaderOnly";
                let ok = s.get(G_MANY).as_bool() == Some(false) && s.get(G_ONE).as_bool() == Some(want);
                let k = format!("exactly {} repl{} on every path for outcome {name} [{}]", want as u32, if want { "y" } else { "ies" }, path_of(roots[0]));
                let x = r.obligations.entry(k.clone()).or_insert((0, true));
                x.0 += 1;
                x.1 &= ok;
                if !ok {
                    r.findings.push(Finding { func: path_of(roots[0]), kind: "C11".into(), detail: k, line: e.span_str(tcx().def_span(roots[0])), trace: vec![], facts: s.facts.show() });
                }
            }
        }
        r.take(&mut e);
    }
    if prop == "C16" || prop == "C17" {
        r.findings.retain(|f| is_panic_ob(&f.kind));
        r.obligations.retain(|k, _| is_panic_ob(k));
        return;
    }
    r.findings.retain(|f| f.kind == prop);
    r.obligations.retain(|k, _| !is_panic_ob(k));
}
