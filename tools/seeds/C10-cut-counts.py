property = "C10"
needs = "a reply over UDP that is cut inside its authority section"
breaks = "the record that was dropped is still counted in the header of the cut reply"
edits = [("src/shared/dns/message.rs", """                Err(err) => return Err(MessageErr::AuthorityErr(i, err)),
                Ok(v) => v,
            }
            if buffer.write_pos() / 8 > MAX_UDP_LEN_BYTES {
                buffer.set_write_pos(0);
                header.truncated = true;
                header.encode_to_buf(&mut buffer);
                buffer.truncate(w_pos);
                return Ok(buffer.into_vec());
            } else {
                header.authorities_count += 1;
            }
""", """                Err(err) => return Err(MessageErr::AuthorityErr(i, err)),
                Ok(v) => v,
            }
            header.authorities_count += 1;
            if buffer.write_pos() / 8 > MAX_UDP_LEN_BYTES {
                buffer.set_write_pos(0);
                header.truncated = true;
                header.encode_to_buf(&mut buffer);
                buffer.truncate(w_pos);
                return Ok(buffer.into_vec());
            }
""")]
demo = '''
fn main() {
    for n in 0..40u8 {
        let mut m = query("www.example.org.", RecordType::A);
        for i in 0..n {
            m.authorities.push(ns("example.org.", &format!("ns{i}.example.org.")));
        }
        m.header.authorities_count = n as u16;
        let b = m.encode_to_bytes_trunc().unwrap();
        let d = Message::decode_from_bytes(&b).unwrap();
        assert_eq!(d.header.authorities_count as usize, d.authorities.len());
        assert!(d.authorities.len() == n as usize || d.header.truncated);
    }
}
'''
