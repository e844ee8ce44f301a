property = "C15"
needs = "more than eight delegated subzones and a query for a name in a later one"
breaks = "names in later subzones are answered from the authoritative zone (name error) instead of being referred"
edits = [("src/nameserver/handler.rs", "    for subzone in &zones.sub_zones {\n        if node", "    for subzone in zones.sub_zones.iter().take(8) {\n        if node")]
demo = '''
fn main() {
    let sub: Vec<Zone> = (0..12).map(|i| { let z = format!("s{i}.example.org."); zone(&z, vec![ns(&z, "ns.elsewhere.net.")]) }).collect();
    let h = NameserverHandler(ManagedZone { auth_zone: zone("example.org.", vec![soa("example.org.")]), sub_zones: sub });
    for i in 0..12 {
        let r = ask(&h, DnsReadResult::FullMessage(query(&format!("x.s{i}.example.org."), RecordType::A)));
        assert!(!r[0].header.auth_answer && r[0].authorities.len() == 1);
        assert!(matches!(r[0].authorities[0], Record::NS { .. }));
    }
}
'''
