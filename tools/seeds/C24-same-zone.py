property = "C24"
needs = "a referral whose zone is the one whose servers were asked, to another server"
breaks = "a referral to a zone of the same length as the current one, which is the current one itself, is followed"
edits = [("src/resolver/back_end/requests.rs", "if ns_zone.as_ref().len() <= current_zone.len() {", "if ns_zone.as_ref().len() < current_zone.len() {")]
demo = r'''
// a name server on its own loopback address, giving what is told for each question
fn serve(ip: [u8; 4], f: impl Fn(&Question) -> (Vec<Record>, Vec<Record>, Vec<Record>) + Send + 'static) {
    let s = std::net::UdpSocket::bind((std::net::Ipv4Addr::from(ip), 53)).unwrap();
    std::thread::spawn(move || loop {
        let mut b = [0; 512];
        let Ok((n, from)) = s.recv_from(&mut b) else { return };
        let mut r = Message::decode_from_bytes(&b[..n]).unwrap();
        r.header.query_resp = true;
        (r.answers, r.authorities, r.additionals) = f(&r.questions[0]);
        r.header.answers_count = r.answers.len() as u16;
        r.header.authorities_count = r.authorities.len() as u16;
        r.header.additionals_count = r.additionals.len() as u16;
        s.send_to(&r.encode_to_bytes().unwrap(), from).unwrap();
    });
}
fn cache_with(zones: &[(&str, &str, [u8; 4])]) -> Arc<RecordsCache> {
    let cache: Arc<RecordsCache> = Arc::new(Cache::new(CacheConf { clean_period: Duration::from_secs(60), max_cleaned: 10 }));
    for (z, h, ip) in zones {
        cache.set((name(z), RecordType::NS), Duration::from_secs(600), vec![ns(z, h)]);
        cache.set((name(h), RecordType::A), Duration::from_secs(600), vec![a(h, *ip)]);
    }
    cache
}
fn look(cache: &Arc<RecordsCache>, n: &str, t: RecordType) -> Result<LookupResponse, String> {
    let p = ResolverParams { read_timeout: Duration::from_millis(300), write_timeout: Duration::from_millis(300), max_upd_retries: 1, ..Default::default() };
    let r = Resolver::new(cache, p, TraceParams { verbose: false, silent: true, color: false });
    r.new_lookup(&name(n), t).perform().0.map_err(|e| format!("{e:?}"))
}

fn main() {
    // deeper: followed
    serve([127, 0, 78, 1], |_| (vec![], vec![ns("sub.example.org.", "other.example.net.")], vec![a("other.example.net.", [127, 0, 78, 2])]));
    // no deeper: not followed
    serve([127, 0, 78, 3], |_| (vec![], vec![ns("example.org.", "other.example.net.")], vec![a("other.example.net.", [127, 0, 78, 2])]));
    serve([127, 0, 78, 2], |q| (vec![a(q.node.as_ref(), [9, 9, 9, 9])], vec![], vec![]));
    let c = cache_with(&[("example.org.", "ns.example.org.", [127, 0, 78, 1])]);
    assert!(look(&c, "www.sub.example.org.", RecordType::A).is_ok());
    let c = cache_with(&[("example.org.", "ns.example.org.", [127, 0, 78, 3])]);
    let r = look(&c, "www.sub.example.org.", RecordType::A);
    assert!(r.is_err(), "{}", "a server sent the resolver to others of its own zone");
}
'''
