property = "C25"
needs = 'zones whose only server has a name in a further such zone, a dozen deep'
breaks = 'the zones visited are no longer passed on complete: only the nearest is kept, and nested resolutions go as deep as the zones lead'
edits = [('src/resolver/back_end/recursive.rs', '        let mut zones = self.previous_zones.clone();\n        zones.push(zone.clone());\n', '        let mut zones = self.previous_zones.clone();\n        zones.retain(|z| z.is_in_zone(zone) || zone.is_in_zone(z));\n        zones.push(zone.clone());\n')]
demo = r'''
static COUNT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
fn count() -> usize {
    COUNT.load(std::sync::atomic::Ordering::SeqCst)
}
// a name server on its own loopback address, giving what is told for each question
fn serve(ip: [u8; 4], f: impl Fn(&Question) -> (Vec<Record>, Vec<Record>, Vec<Record>) + Send + 'static) {
    let s = std::net::UdpSocket::bind((std::net::Ipv4Addr::from(ip), 53)).unwrap();
    std::thread::spawn(move || loop {
        let mut b = [0; 512];
        let Ok((n, from)) = s.recv_from(&mut b) else { return };
        let mut r = Message::decode_from_bytes(&b[..n]).unwrap();
        r.header.query_resp = true;
        COUNT.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        (r.answers, r.authorities, r.additionals) = f(&r.questions[0]);
        if r.answers.is_empty() && r.authorities.is_empty() {
            r.header.auth_answer = true;
            r.header.resp_code = RespCode::NxDomain;
        }
        r.header.answers_count = r.answers.len() as u16;
        r.header.authorities_count = r.authorities.len() as u16;
        r.header.additionals_count = r.additionals.len() as u16;
        s.send_to(&r.encode_to_bytes().unwrap(), from).unwrap();
    });
}
fn cache_with(zones: &[(&str, &str, [u8; 4])]) -> Arc<RecordsCache> {
    let cache: Arc<RecordsCache> = Arc::new(Cache::new(CacheConf { clean_period: Duration::from_secs(60), max_cleaned: 10 }));
    for (z, h, ip) in zones {
        cache.set((name(z), RecordType::NS), Duration::from_secs(600), vec![ns(z, h)]);
        cache.set((name(h), RecordType::A), Duration::from_secs(600), vec![a(h, *ip)]);
    }
    cache
}
fn look(cache: &Arc<RecordsCache>, n: &str, t: RecordType) -> Result<LookupResponse, String> {
    let p = ResolverParams { read_timeout: Duration::from_millis(300), write_timeout: Duration::from_millis(300), max_upd_retries: 1, ..Default::default() };
    let r = Resolver::new(cache, p, TraceParams { verbose: false, silent: true, color: false });
    r.new_lookup(&name(n), t).perform().0.map_err(|e| format!("{e:?}"))
}

fn main() {
    // the zones z0.org, z1.org, .. each have one server, named in the next one
    serve([127, 0, 86, 1], |q| {
        let z = q.node.as_ref().trim_end_matches(".org.").rsplit('.').next().unwrap().to_string();
        let k: u32 = z[1..].parse().unwrap();
        if k > 30 {
            return (vec![], vec![], vec![]);
        }
        (vec![], vec![ns(&format!("{z}.org."), &format!("ns.z{}.org.", k + 1))], vec![])
    });
    let c = cache_with(&[("org.", "top.org.", [127, 0, 86, 1])]);
    let r = look(&c, "www.z0.org.", RecordType::A);
    assert!(r.is_err());

    assert!(count() < 20, "{} zones were asked for, one inside the other", count());
}
'''
