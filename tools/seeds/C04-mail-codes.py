property = "C04"
needs = "a query for one of the two obsolete mail types (which are answered as not supported)"
breaks = "the codes of MAILA and MAILB are exchanged, consistently in the reader and the writer"
edits = [("src/shared/dns/types.rs", "            253 => Ok(RecordType::MAILB),\n            254 => Ok(RecordType::MAILA),", "            253 => Ok(RecordType::MAILA),\n            254 => Ok(RecordType::MAILB),"),
         ("src/shared/dns/types.rs", "            RecordType::MAILB => 253,\n            RecordType::MAILA => 254,", "            RecordType::MAILB => 254,\n            RecordType::MAILA => 253,")]
demo = '''
fn main() {
    assert_eq!(RecordType::from_num(253).unwrap().to_str(), "MAILB");
    assert_eq!(RecordType::from_num(254).unwrap().to_str(), "MAILA");
    for i in 0..=65535u16 {
        if let Ok(t) = RecordType::from_num(i) {
            assert_eq!(t.to_num(), i);
        }
    }
}
'''
