property = "C01"
needs = "a WKS record cut off exactly after its address"
breaks = "decoding aborts the thread instead of reporting that the bytes ended"
edits = [("src/shared/dns/records.rs", "    let protocol = buffer.read_u8().ok_or(ParsingErr::BytesEnd)?;", "    // The data length was checked above.\n    let protocol = buffer.read_u8().expect(\"protocol follows address\");")]
demo = '''
fn main() {
    // a response with one WKS answer, cut at every length
    let mut b = vec![0, 1, 0x80, 0, 0, 0, 0, 1, 0, 0, 0, 0];
    b.extend([1, b'a', 0, 0, 11, 0, 1, 0, 0, 0, 9, 0, 6, 1, 2, 3, 4, 6, 0x80]);
    for n in 0..=b.len() {
        let c = b[..n].to_vec();
        assert!(std::panic::catch_unwind(move || Message::decode_from_bytes(&c).is_ok()).is_ok(), "aborted at {n}");
    }
}
'''
