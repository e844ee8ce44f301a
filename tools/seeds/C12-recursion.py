property = "C12"
needs = "a request that asks for recursion, for a name that does not exist in the zone"
breaks = "the name-error reply carries recursion-desired cleared although the request had it set"
edits = [("src/nameserver/handler.rs", "        z: 0,\n        resp_code,\n", "        z: 0, recursion_desired: req_header.recursion_desired && !matches!(resp_code, dns::RespCode::NxDomain),\n        resp_code,\n")]
demo = '''
fn main() {
    let h = nameserver();
    for n in ["x.s1.example.org.", "nothing.example.org.", "www.example.org.", "elsewhere.com."] {
        for rd in [true, false] {
            let mut q = query(n, RecordType::A);
            q.header.recursion_desired = rd;
            let r = ask(&h, DnsReadResult::FullMessage(q));
            assert_eq!(r[0].header.recursion_desired, rd);
            assert_eq!(r[0].id(), 77);
        }
    }
}
'''
