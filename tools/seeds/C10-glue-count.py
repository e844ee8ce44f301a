property = "C10"
needs = "a referral to a subzone where the number of glue addresses differs from the number of name servers"
breaks = "the header of a referral announces one additional record per name server instead of one per address"
edits = [("src/nameserver/handler.rs", "    resp_header.additionals_count = additionals.len() as u16;\n    let response = dns::Message {\n        header: resp_header,\n        questions: request.questions,\n        answers: vec![],\n        authorities,", "    resp_header.additionals_count = ns_records.len() as u16;\n    let response = dns::Message {\n        header: resp_header,\n        questions: request.questions,\n        answers: vec![],\n        authorities,")]
demo = '''
fn main() {
    let h = nameserver();
    for n in ["x.s1.example.org.", "x.s2.example.org.", "www.example.org."] {
        for m in ask(&h, DnsReadResult::FullMessage(query(n, RecordType::A))) {
            assert_eq!(m.header.additionals_count as usize, m.additionals.len());
            assert_eq!(m.header.authorities_count as usize, m.authorities.len());
            assert_eq!(m.header.answers_count as usize, m.answers.len());
        }
    }
    // one name server, two addresses
    let h = NameserverHandler(ManagedZone {
        auth_zone: zone("example.org.", vec![soa("example.org.")]),
        sub_zones: vec![zone("s.example.org.", vec![ns("s.example.org.", "ns.s.example.org."), a("ns.s.example.org.", [1, 2, 3, 4]), a("ns.s.example.org.", [1, 2, 3, 5])])],
    });
    let m = ask(&h, DnsReadResult::FullMessage(query("x.s.example.org.", RecordType::A)));
    assert_eq!(m[0].header.additionals_count as usize, m[0].additionals.len());
}
'''
