property = "C13"
needs = "a request that carries authorities but no answers"
breaks = "a request with authorities is served instead of being refused as malformed"
edits = [("src/resolver/handler.rs", "    if dns_req.header.authorities_count != 0 {", "    if dns_req.header.answers_count != 0 && dns_req.header.authorities_count != 0 {")]
demo = '''
fn main() {
    let (c, h) = resolver();
    c.set((name("www.example.org."), RecordType::A), Duration::from_secs(100), vec![a("www.example.org.", [1, 2, 3, 4])]);
    let mut q = query("www.example.org.", RecordType::A);
    q.authorities = vec![ns("example.org.", "ns.example.org.")];
    q.header.authorities_count = 1;
    let r = ask(&h, DnsReadResult::FullMessage(q));
    assert!(matches!(r[0].header.resp_code, RespCode::FormErr));
}
'''
