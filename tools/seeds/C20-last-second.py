property = "C20"
needs = "an entry with less than a second left when it is looked up"
breaks = "the TTL of records from the cache is never below 1, so records in their last second are given for longer than they may live"
edits = [("src/resolver/back_end/recursive.rs", "record.set_ttl(remaining_ttl);", "record.set_ttl(remaining_ttl.max(1));")]
demo = r'''
// a name server on its own loopback address, giving what is told for each question
fn serve(ip: [u8; 4], f: impl Fn(&Question) -> (Vec<Record>, Vec<Record>, Vec<Record>) + Send + 'static) {
    let s = std::net::UdpSocket::bind((std::net::Ipv4Addr::from(ip), 53)).unwrap();
    std::thread::spawn(move || loop {
        let mut b = [0; 512];
        let Ok((n, from)) = s.recv_from(&mut b) else { return };
        let mut r = Message::decode_from_bytes(&b[..n]).unwrap();
        r.header.query_resp = true;
        (r.answers, r.authorities, r.additionals) = f(&r.questions[0]);
        r.header.answers_count = r.answers.len() as u16;
        r.header.authorities_count = r.authorities.len() as u16;
        r.header.additionals_count = r.additionals.len() as u16;
        s.send_to(&r.encode_to_bytes().unwrap(), from).unwrap();
    });
}
fn cache_with(zones: &[(&str, &str, [u8; 4])]) -> Arc<RecordsCache> {
    let cache: Arc<RecordsCache> = Arc::new(Cache::new(CacheConf { clean_period: Duration::from_secs(60), max_cleaned: 10 }));
    for (z, h, ip) in zones {
        cache.set((name(z), RecordType::NS), Duration::from_secs(600), vec![ns(z, h)]);
        cache.set((name(h), RecordType::A), Duration::from_secs(600), vec![a(h, *ip)]);
    }
    cache
}
fn look(cache: &Arc<RecordsCache>, n: &str, t: RecordType) -> Result<LookupResponse, String> {
    let p = ResolverParams { read_timeout: Duration::from_millis(300), write_timeout: Duration::from_millis(300), max_upd_retries: 1, ..Default::default() };
    let r = Resolver::new(cache, p, TraceParams { verbose: false, silent: true, color: false });
    r.new_lookup(&name(n), t).perform().0.map_err(|e| format!("{e:?}"))
}

fn main() {
    let c = cache_with(&[]);
    c.set((name("www.example.org."), RecordType::A), Duration::from_millis(900), vec![a("www.example.org.", [9, 9, 9, 9])]);
    let r = look(&c, "www.example.org.", RecordType::A).unwrap();
    assert_eq!(r.0.len(), 1);
    assert_eq!(*r.0[0].ttl(), 0, "given for longer than it is left");
}
'''
