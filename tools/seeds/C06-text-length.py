property = "C06"
needs = "a TXT record with characters outside ASCII"
breaks = "the data length of the record counts characters, not bytes"
edits = [("src/shared/dns/records.rs", """        len += bytes.len();
""", """        len += str.chars().count() + 1;
""")]
demo = '''
fn main() {
    for t in ["abc", "h\\u{e9}llo"] {
        let r = Record::TXT { node: Name::from_string("a.b.").unwrap(), class: Class::IN, ttl: 1, data_len: 0, txts: vec![t.to_string(), "z".to_string()] };
        let mut b = BitsBuf::new();
        r.encode_to_buf(&mut b).unwrap();
        let v = b.into_vec();
        let head = 5 + 2 + 2 + 4;
        assert_eq!(u16::from_be_bytes([v[head], v[head + 1]]) as usize, v.len() - head - 2);
    }
}
'''
