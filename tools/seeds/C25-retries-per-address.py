property = "C25"
needs = 'a name server with several addresses that does not answer'
breaks = 'a server is sent as many queries as configured for every address it has, instead of as many as configured'
edits = [('src/resolver/back_end/recursive.rs', 'retries: self.conf.max_upd_retries,', 'retries: self.conf.max_upd_retries * next_ns.addrs().len(),')]
demo = r'''
static COUNT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
fn count() -> usize {
    COUNT.load(std::sync::atomic::Ordering::SeqCst)
}
// a name server on its own loopback address, giving what is told for each question
fn serve(ip: [u8; 4], f: impl Fn(&Question) -> (Vec<Record>, Vec<Record>, Vec<Record>) + Send + 'static) {
    let s = std::net::UdpSocket::bind((std::net::Ipv4Addr::from(ip), 53)).unwrap();
    std::thread::spawn(move || loop {
        let mut b = [0; 512];
        let Ok((n, from)) = s.recv_from(&mut b) else { return };
        let mut r = Message::decode_from_bytes(&b[..n]).unwrap();
        r.header.query_resp = true;
        COUNT.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        (r.answers, r.authorities, r.additionals) = f(&r.questions[0]);
        if r.answers.is_empty() && r.authorities.is_empty() {
            r.header.auth_answer = true;
            r.header.resp_code = RespCode::NxDomain;
        }
        r.header.answers_count = r.answers.len() as u16;
        r.header.authorities_count = r.authorities.len() as u16;
        r.header.additionals_count = r.additionals.len() as u16;
        s.send_to(&r.encode_to_bytes().unwrap(), from).unwrap();
    });
}
fn cache_with(zones: &[(&str, &str, [u8; 4])]) -> Arc<RecordsCache> {
    let cache: Arc<RecordsCache> = Arc::new(Cache::new(CacheConf { clean_period: Duration::from_secs(60), max_cleaned: 10 }));
    for (z, h, ip) in zones {
        cache.set((name(z), RecordType::NS), Duration::from_secs(600), vec![ns(z, h)]);
        cache.set((name(h), RecordType::A), Duration::from_secs(600), vec![a(h, *ip)]);
    }
    cache
}
fn look(cache: &Arc<RecordsCache>, n: &str, t: RecordType) -> Result<LookupResponse, String> {
    let p = ResolverParams { read_timeout: Duration::from_millis(300), write_timeout: Duration::from_millis(300), max_upd_retries: 1, ..Default::default() };
    let r = Resolver::new(cache, p, TraceParams { verbose: false, silent: true, color: false });
    r.new_lookup(&name(n), t).perform().0.map_err(|e| format!("{e:?}"))
}

fn main() {
    // one that never answers
    let s = std::net::UdpSocket::bind((std::net::Ipv4Addr::from([127, 0, 84, 1]), 53)).unwrap();
    let c = cache_with(&[("example.org.", "ns.example.org.", [127, 0, 84, 1])]);
    let l = (1..4).map(|k| a("ns.example.org.", [127, 0, 84, k])).collect();
    c.set((name("ns.example.org."), RecordType::A), Duration::from_secs(600), l);
    assert!(look(&c, "www.example.org.", RecordType::A).is_err());
    s.set_nonblocking(true).unwrap();
    let mut n = 0;
    while s.recv_from(&mut [0; 512]).is_ok() {
        n += 1;
    }
    assert_eq!(n + count(), 1, "queries sent to one server, one is configured");
}
'''
