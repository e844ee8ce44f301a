property = "C26"
needs = "a name that is an alias of an alias (two redirections or more)"
breaks = "each alias followed is put before the ones followed earlier, so the answer lists the chain backwards"
edits = [("src/resolver/back_end/recursive.rs", "self.previous_cnames.push(cname_record.clone());", "self.previous_cnames.insert(0, cname_record.clone());")]
demo = r'''
// a name server on its own loopback address, giving what is told for each question
fn serve(ip: [u8; 4], f: impl Fn(&Question) -> (Vec<Record>, Vec<Record>, Vec<Record>) + Send + 'static) {
    let s = std::net::UdpSocket::bind((std::net::Ipv4Addr::from(ip), 53)).unwrap();
    std::thread::spawn(move || loop {
        let mut b = [0; 512];
        let Ok((n, from)) = s.recv_from(&mut b) else { return };
        let mut r = Message::decode_from_bytes(&b[..n]).unwrap();
        r.header.query_resp = true;
        (r.answers, r.authorities, r.additionals) = f(&r.questions[0]);
        if r.answers.is_empty() && r.authorities.is_empty() {
            r.header.auth_answer = true;
            r.header.resp_code = RespCode::NxDomain;
        }
        r.header.answers_count = r.answers.len() as u16;
        r.header.authorities_count = r.authorities.len() as u16;
        r.header.additionals_count = r.additionals.len() as u16;
        s.send_to(&r.encode_to_bytes().unwrap(), from).unwrap();
    });
}
fn cache_with(zones: &[(&str, &str, [u8; 4])]) -> Arc<RecordsCache> {
    let cache: Arc<RecordsCache> = Arc::new(Cache::new(CacheConf { clean_period: Duration::from_secs(60), max_cleaned: 10 }));
    for (z, h, ip) in zones {
        cache.set((name(z), RecordType::NS), Duration::from_secs(600), vec![ns(z, h)]);
        cache.set((name(h), RecordType::A), Duration::from_secs(600), vec![a(h, *ip)]);
    }
    cache
}
fn look(cache: &Arc<RecordsCache>, n: &str, t: RecordType) -> Result<LookupResponse, String> {
    let p = ResolverParams { read_timeout: Duration::from_millis(300), write_timeout: Duration::from_millis(300), max_upd_retries: 1, ..Default::default() };
    let r = Resolver::new(cache, p, TraceParams { verbose: false, silent: true, color: false });
    r.new_lookup(&name(n), t).perform().0.map_err(|e| format!("{e:?}"))
}

fn main() {
    serve([127, 0, 81, 1], |q| match q.node.as_ref() {
        "a.example.org." => (vec![cname("a.example.org.", "b.example.org.")], vec![], vec![]),
        "b.example.org." => (vec![cname("b.example.org.", "c.example.org.")], vec![], vec![]),
        _ => (vec![a(q.node.as_ref(), [9, 9, 9, 9])], vec![], vec![]),
    });
    let c = cache_with(&[("example.org.", "ns.example.org.", [127, 0, 81, 1])]);
    let r = look(&c, "a.example.org.", RecordType::A).unwrap();
    let names: Vec<&str> = r.0.iter().map(|x| x.node().as_ref()).collect();
    assert_eq!(names, ["a.example.org.", "b.example.org.", "c.example.org."]);
}
'''
