property = "C05"
needs = "a header whose recursion-desired and recursion-available flags differ"
breaks = "the reader and the writer agree with each other but both have the two recursion flags the wrong way round on the wire"
edits = [("src/shared/dns/header.rs", """        let recursion_desired = check_end(buffer.read_bits(1))? == 1;
        let recursion_available = check_end(buffer.read_bits(1))? == 1;
""", """        let recursion_available = check_end(buffer.read_bits(1))? == 1;
        let recursion_desired = check_end(buffer.read_bits(1))? == 1;
"""), ("src/shared/dns/header.rs", """        buffer.write_bits(self.recursion_desired as u8, 1);
        buffer.write_bits(self.recursion_available as u8, 1);
""", """        buffer.write_bits(self.recursion_available as u8, 1);
        buffer.write_bits(self.recursion_desired as u8, 1);
""")]
demo = '''
fn main() {
    let h = Header { recursion_desired: true, recursion_available: false, ..Header::default() };
    let mut b = BitsBuf::new();
    h.encode_to_buf(&mut b);
    let v = b.into_vec();
    assert_eq!((v[2] & 1, v[3] & 0x80), (1, 0));
    let h = Header::decode_from_bytes(&v).unwrap();
    assert!(h.recursion_desired && !h.recursion_available);
}
'''
