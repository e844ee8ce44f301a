property = "C08"
needs = "a reply whose answers and authorities fit in 512 bytes and whose additional records do not"
breaks = "additional records that do not fit are dropped without the truncation flag"
edits = [("src/shared/dns/message.rs", """                Err(err) => return Err(MessageErr::AdditionalErr(i, err)),
                Ok(v) => v,
            };
            if buffer.write_pos() / 8 > MAX_UDP_LEN_BYTES {
                buffer.set_write_pos(0);
                header.truncated = true;
""", """                Err(err) => return Err(MessageErr::AdditionalErr(i, err)),
                Ok(v) => v,
            };
            if buffer.write_pos() / 8 > MAX_UDP_LEN_BYTES {
                buffer.set_write_pos(0);
                header.truncated = self.header.truncated;
""")]
demo = '''
fn main() {
    for n in 0..40u8 {
        for ans in [1u8, 12, 30] {
            let mut m = query("www.example.org.", RecordType::A);
            for i in 0..ans {
                m.answers.push(a("www.example.org.", [1, 1, 1, i]));
            }
            for i in 0..n {
                m.additionals.push(a("ns.example.org.", [1, 1, 2, i]));
            }
            m.header.answers_count = ans as u16;
            m.header.additionals_count = n as u16;
            let whole = m.encode_to_bytes().unwrap();
            let b = m.encode_to_bytes_trunc().unwrap();
            assert!(b.len() <= 512);
            let tc = b[2] & 2 != 0;
            assert_eq!(tc, b.len() < whole.len());
        }
    }
}
'''
