property = "C21"
needs = "a reply that answers the question, and holds records of the same type under another name after it"
breaks = "the answers taken from a reply are chosen by type only, and cached under the name of the first"
edits = [("src/resolver/back_end/requests.rs", "let answers = extract_records(&mut dns_resp.answers, *searched_type, searched_node);", "let mut answers = mem::take(&mut dns_resp.answers);\n    match answers.first() {\n        Some(rec) if rec.node() == searched_node => answers.retain(|rec| rec.record_type() == *searched_type),\n        _ => dns_resp.answers = mem::take(&mut answers),\n    }")]
demo = r'''
// a name server on its own loopback address, giving what is told for each question
fn serve(ip: [u8; 4], f: impl Fn(&Question) -> (Vec<Record>, Vec<Record>, Vec<Record>) + Send + 'static) {
    let s = std::net::UdpSocket::bind((std::net::Ipv4Addr::from(ip), 53)).unwrap();
    std::thread::spawn(move || loop {
        let mut b = [0; 512];
        let Ok((n, from)) = s.recv_from(&mut b) else { return };
        let mut r = Message::decode_from_bytes(&b[..n]).unwrap();
        r.header.query_resp = true;
        (r.answers, r.authorities, r.additionals) = f(&r.questions[0]);
        r.header.answers_count = r.answers.len() as u16;
        r.header.authorities_count = r.authorities.len() as u16;
        r.header.additionals_count = r.additionals.len() as u16;
        s.send_to(&r.encode_to_bytes().unwrap(), from).unwrap();
    });
}
fn cache_with(zones: &[(&str, &str, [u8; 4])]) -> Arc<RecordsCache> {
    let cache: Arc<RecordsCache> = Arc::new(Cache::new(CacheConf { clean_period: Duration::from_secs(60), max_cleaned: 10 }));
    for (z, h, ip) in zones {
        cache.set((name(z), RecordType::NS), Duration::from_secs(600), vec![ns(z, h)]);
        cache.set((name(h), RecordType::A), Duration::from_secs(600), vec![a(h, *ip)]);
    }
    cache
}
fn look(cache: &Arc<RecordsCache>, n: &str, t: RecordType) -> Result<LookupResponse, String> {
    let p = ResolverParams { read_timeout: Duration::from_millis(300), write_timeout: Duration::from_millis(300), max_upd_retries: 1, ..Default::default() };
    let r = Resolver::new(cache, p, TraceParams { verbose: false, silent: true, color: false });
    r.new_lookup(&name(n), t).perform().0.map_err(|e| format!("{e:?}"))
}

fn main() {
    serve([127, 0, 79, 1], |q| (vec![a(q.node.as_ref(), [9, 9, 9, 9]), a("elsewhere.example.org.", [6, 6, 6, 6]), a(q.node.as_ref(), [9, 9, 9, 8])], vec![], vec![]));
    let c = cache_with(&[("example.org.", "ns.example.org.", [127, 0, 79, 1])]);
    assert!(look(&c, "www.example.org.", RecordType::A).is_ok());
    let (_, l) = c.get_clone(&(name("www.example.org."), RecordType::A)).unwrap();
    assert!(l.iter().all(|r| *r.node() == name("www.example.org.") && r.record_type() == RecordType::A), "records of another name under this one");
    assert!(!l.is_empty());
}
'''
