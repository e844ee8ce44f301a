property = "C34"
needs = "a read of several bytes of which only some are left"
breaks = "the refused read consumes the bytes that were left"
edits = [("src/shared/buffer/buffer.rs", """        if self.r_pos + N * 8 > self.last {
            return None;
        }
        let mut buf = [0; N];
        for i in 0..N {
            let byte = self.read_u8().unwrap();
            buf[i] = byte;
        }""", """        let mut buf = [0; N];
        for i in 0..N {
            let byte = self.read_u8()?;
            buf[i] = byte;
        }""")]
demo = '''
fn main() {
    for len in 0..6usize {
        let mut b = BitsBuf::from_raw_bytes(&vec![7; len]);
        let r = b.read_bytes::<4>();
        assert_eq!(r.is_some(), len >= 4);
        assert_eq!(b.read_pos(), if len >= 4 { 32 } else { 0 });
    }
}
'''
