property = "C23"
needs = "a reply whose id agrees with the query's in the low byte only"
breaks = "only the low byte of the reply's id is compared"
edits = [("src/resolver/back_end/requests.rs", "if response.header.id != request.header.id {", "if (response.header.id ^ request.header.id) & 0xff != 0 {")]
demo = '''
// a name server on its own loopback address, which changes the ids of its replies
fn serve(ip: [u8; 4], mask: u16) {
    let s = std::net::UdpSocket::bind((std::net::Ipv4Addr::from(ip), 53)).unwrap();
    std::thread::spawn(move || loop {
        let mut b = [0; 512];
        let Ok((n, from)) = s.recv_from(&mut b) else { return };
        let mut r = Message::decode_from_bytes(&b[..n]).unwrap();

        r.header.id ^= mask;
        r.header.query_resp = true;
        r.header.answers_count = 1;
        r.answers = vec![Record::A { node: r.questions[0].node.clone(), class: Class::IN, ttl: 60, data_len: 0, address: [9, 9, 9, 9] }];
        s.send_to(&r.encode_to_bytes().unwrap(), from).unwrap();
    });
}
fn look(ip: [u8; 4]) -> bool {
    let cache: Arc<RecordsCache> = Arc::new(Cache::new(CacheConf { clean_period: Duration::from_secs(60), max_cleaned: 10 }));
    cache.set((name("example.org."), RecordType::NS), Duration::from_secs(600), vec![ns("example.org.", "ns.example.org.")]);
    cache.set((name("ns.example.org."), RecordType::A), Duration::from_secs(600), vec![a("ns.example.org.", ip)]);
    let p = ResolverParams { read_timeout: Duration::from_millis(300), write_timeout: Duration::from_millis(300), max_upd_retries: 2, ..Default::default() };
    let r = Resolver::new(&cache, p, TraceParams { verbose: false, silent: true, color: false });
    r.new_lookup(&name("www.example.org."), RecordType::A).perform().0.is_ok()
}
fn main() {
    for (i, mask) in [0u16, 1, 0x80, 0x100, 0x8000, 0xff00].into_iter().enumerate() {
        let ip = [127, 0, 77, 1 + i as u8];
        serve(ip, mask);
        assert_eq!(look(ip), mask == 0, "reply with its id changed by {mask:#x}");
    }
}
'''
