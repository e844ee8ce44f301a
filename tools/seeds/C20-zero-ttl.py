property = "C20"
needs = "a reply with several records for the question, of which some but not all have a TTL of 0"
breaks = "records with a TTL of 0 are left out of the minimum, and are served from the cache for the TTL of the others"
edits = [("src/resolver/back_end/recursive.rs", "let min_ttl = *records.iter().map(|rec| rec.ttl()).min().unwrap();", "let min_ttl = records.iter().map(|rec| *rec.ttl()).filter(|ttl| *ttl > 0).min().unwrap_or(0);")]
demo = r'''
// a name server on its own loopback address, giving what is told for each question
fn serve(ip: [u8; 4], f: impl Fn(&Question) -> (Vec<Record>, Vec<Record>, Vec<Record>) + Send + 'static) {
    let s = std::net::UdpSocket::bind((std::net::Ipv4Addr::from(ip), 53)).unwrap();
    std::thread::spawn(move || loop {
        let mut b = [0; 512];
        let Ok((n, from)) = s.recv_from(&mut b) else { return };
        let mut r = Message::decode_from_bytes(&b[..n]).unwrap();
        r.header.query_resp = true;
        (r.answers, r.authorities, r.additionals) = f(&r.questions[0]);
        r.header.answers_count = r.answers.len() as u16;
        r.header.authorities_count = r.authorities.len() as u16;
        r.header.additionals_count = r.additionals.len() as u16;
        s.send_to(&r.encode_to_bytes().unwrap(), from).unwrap();
    });
}
fn cache_with(zones: &[(&str, &str, [u8; 4])]) -> Arc<RecordsCache> {
    let cache: Arc<RecordsCache> = Arc::new(Cache::new(CacheConf { clean_period: Duration::from_secs(60), max_cleaned: 10 }));
    for (z, h, ip) in zones {
        cache.set((name(z), RecordType::NS), Duration::from_secs(600), vec![ns(z, h)]);
        cache.set((name(h), RecordType::A), Duration::from_secs(600), vec![a(h, *ip)]);
    }
    cache
}
fn look(cache: &Arc<RecordsCache>, n: &str, t: RecordType) -> Result<LookupResponse, String> {
    let p = ResolverParams { read_timeout: Duration::from_millis(300), write_timeout: Duration::from_millis(300), max_upd_retries: 1, ..Default::default() };
    let r = Resolver::new(cache, p, TraceParams { verbose: false, silent: true, color: false });
    r.new_lookup(&name(n), t).perform().0.map_err(|e| format!("{e:?}"))
}

fn main() {
    serve([127, 0, 79, 2], |q| {
        let (mut x, mut y) = (a(q.node.as_ref(), [9, 9, 9, 9]), a(q.node.as_ref(), [9, 9, 9, 8]));
        x.set_ttl(0);
        y.set_ttl(300);
        (vec![x, y], vec![], vec![])
    });
    let c = cache_with(&[("example.org.", "ns.example.org.", [127, 0, 79, 2])]);
    assert!(look(&c, "www.example.org.", RecordType::A).is_ok());
    let left = c.get_clone(&(name("www.example.org."), RecordType::A)).map(|e| e.0.saturating_duration_since(std::time::Instant::now()));
    assert!(left.unwrap_or_default() < Duration::from_secs(1), "cached for longer than the smallest TTL");
}
'''
