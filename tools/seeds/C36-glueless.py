property = "C36"
needs = "a subzone with a name server for which the zone has no address"
breaks = "name servers without a glue address are left out of the referral"
edits = [("src/nameserver/handler.rs", "        authorities.push(ns_record.clone());\n        additionals.extend(glue_records);", "        let before = additionals.len();\n        additionals.extend(glue_records);\n        if additionals.len() > before || authorities.is_empty() {\n            authorities.push(ns_record.clone());\n        }")]
demo = '''
fn main() {
    let h = nameserver();
    for n in ["x.s1.example.org.", "x.s2.example.org."] {
        let r = ask(&h, DnsReadResult::FullMessage(query(n, RecordType::A)));
        assert_eq!(r[0].authorities.len(), 2);
    }
}
'''
