property = "C07"
needs = "a record of an unknown type with at least 256 bytes of data"
breaks = "only the low byte of the data length is skipped, so the next record is read from the middle of the data"
edits = [("src/shared/dns/records.rs", """            check_end(buffer.read_bytes_vec(data_len as usize))?;
            Err(ParsingErr::UnknownType(n))""", """            check_end(buffer.read_bytes_vec((data_len as u8) as usize))?;
            Err(ParsingErr::UnknownType(n))""")]
demo = '''
fn main() {
    for len in [0usize, 3, 255, 256, 300] {
        let mut v = vec![1, b'a', 0, 0, 99, 0, 1, 0, 0, 0, 5];
        v.extend((len as u16).to_be_bytes());
        v.extend(vec![7u8; len]);
        let total = v.len();
        v.extend([0u8; 8]);
        let mut b = BitsBuf::from_raw_bytes(&v);
        assert!(Record::decode_from_buf(&mut b).is_err());
        assert_eq!(b.read_pos(), total * 8);
    }
}
'''
