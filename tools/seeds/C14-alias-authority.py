property = "C14"
needs = "a query for a name that has only an alias record in the authoritative zone"
breaks = "answers taken from the zone through an alias are not marked authoritative"
edits = [("src/nameserver/handler.rs", "    let mut resp_header = resp_header_from_req_header(&request.header, dns::RespCode::NoError);\n    resp_header.auth_answer = true;", "    let mut resp_header = resp_header_from_req_header(&request.header, dns::RespCode::NoError);\n    resp_header.auth_answer = searched_records[0].record_type() == *record_type;")]
demo = '''
fn main() {
    let h = nameserver();
    for (n, t) in [("www.example.org.", RecordType::A), ("alias.example.org.", RecordType::A), ("alias.example.org.", RecordType::CNAME)] {
        let r = ask(&h, DnsReadResult::FullMessage(query(n, t)));
        assert!(!r[0].answers.is_empty() && r[0].header.auth_answer);
    }
}
'''
