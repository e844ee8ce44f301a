#![allow(dead_code, unused_imports, unused_macros)]
use ariadne_dns::nameserver::*;
use ariadne_dns::resolver::*;
use ariadne_dns::shared::buffer::*;
use ariadne_dns::shared::dns::*;
use ariadne_dns::shared::net::*;
use std::cell::RefCell;
use std::io;
use std::rc::Rc;
use std::sync::Arc;
use std::time::{Duration, Instant};

pub struct In(pub DnsReadResult);
impl DnsRead for In {
    fn read(self) -> DnsReadResult {
        self.0
    }
}
#[derive(Clone)]
pub struct Out(pub Rc<RefCell<Vec<Message>>>);
impl DnsWrite for Out {
    fn reply(self, m: Message) -> io::Result<()> {
        self.0.borrow_mut().push(m);
        Ok(())
    }
}
pub fn name(s: &str) -> Name {
    Name::from_string(s).unwrap()
}
pub fn header() -> Header {
    Header {
        id: 77,
        query_resp: false,
        op_code: OpCode::STD,
        auth_answer: false,
        truncated: false,
        recursion_desired: true,
        recursion_available: false,
        z: 0,
        resp_code: RespCode::NoError,
        questions_count: 1,
        answers_count: 0,
        authorities_count: 0,
        additionals_count: 0,
    }
}
pub fn query(n: &str, t: RecordType) -> Message {
    Message { header: header(), questions: vec![Question { node: name(n), record_type: t, class: Class::IN }], answers: vec![], authorities: vec![], additionals: vec![] }
}
pub fn ask<H: DnsHandler>(h: &H, r: DnsReadResult) -> Vec<Message> {
    let o = Out(Rc::new(RefCell::new(vec![])));
    h.handle_request(In(r), o.clone());
    let v = std::mem::take(&mut *o.0.borrow_mut());
    v
}
pub fn a(n: &str, ip: [u8; 4]) -> Record {
    Record::A { node: name(n), class: Class::IN, ttl: 600, data_len: 0, address: ip }
}
pub fn ns(n: &str, t: &str) -> Record {
    Record::NS { node: name(n), class: Class::IN, ttl: 600, data_len: 0, name: name(t) }
}
pub fn cname(n: &str, t: &str) -> Record {
    Record::CNAME { node: name(n), class: Class::IN, ttl: 600, data_len: 0, name: name(t) }
}
pub fn soa(n: &str) -> Record {
    Record::SOA { node: name(n), class: Class::IN, ttl: 600, data_len: 0, ns_name: name(n), ml_name: name(n), serial: 1, refresh: 1, retry: 1, expire: 1, minimum: 1 }
}
pub fn zone(n: &str, rs: Vec<Record>) -> Zone {
    let mut z = Zone::new(&name(n));
    for r in rs {
        z.insert(r);
    }
    z
}
/// example.org. with two delegated subzones
pub fn nameserver() -> NameserverHandler {
    NameserverHandler(ManagedZone {
        auth_zone: zone(
            "example.org.",
            vec![soa("example.org."), ns("example.org.", "ns.example.org."), a("ns.example.org.", [1, 1, 1, 1]), a("www.example.org.", [1, 1, 1, 2]), a("www.example.org.", [1, 1, 1, 3]), cname("alias.example.org.", "www.example.org.")],
        ),
        sub_zones: vec![
            zone("s1.example.org.", vec![ns("s1.example.org.", "ns.s1.example.org."), ns("s1.example.org.", "ns.s2.example.org."), a("ns.s1.example.org.", [2, 2, 2, 1])]),
            zone("s2.example.org.", vec![ns("s2.example.org.", "ns.s2.example.org."), ns("s2.example.org.", "ns.elsewhere.net."), a("ns.s2.example.org.", [2, 2, 2, 2]), a("ns.s2.example.org.", [2, 2, 2, 3])]),
        ],
    })
}
/// a resolver with an empty cache and short time-outs
pub fn resolver() -> (Arc<RecordsCache>, ResolverHandler) {
    let cache = Arc::new(Cache::new(CacheConf { clean_period: Duration::from_secs(3600), max_cleaned: 100 }));
    let p = ResolverParams { read_timeout: Duration::from_millis(200), write_timeout: Duration::from_millis(200), ..Default::default() };
    let r = Resolver::new(&cache, p, TraceParams { verbose: false, silent: true, color: false });
    (cache, ResolverHandler(r))
}
