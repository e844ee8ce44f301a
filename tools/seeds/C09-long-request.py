property = "C09"
needs = "a TCP request of 32768 bytes or more"
breaks = "the top bit of the length prefix is ignored, so only a part of a long request is read"
edits = [("src/shared/net/tcp_server.rs", "let req_len = ((buf[0] as u16) << 8) | (buf[1] as u16);", "let req_len = (((buf[0] & 0x7f) as u16) << 8) | (buf[1] as u16);")]
demo = '''
use std::io::{Read, Write};
struct H;
impl DnsHandler for H {
    fn handle_request<R: DnsRead, W: DnsWrite>(&self, req: R, resp: W) {
        match req.read() {
            DnsReadResult::FullMessage(mut m) => {
                m.header.id = m.answers.len() as u16;
                m.answers.clear();
                m.header.answers_count = 0;
                let _ = resp.reply(m);
            }
            _ => {
                let _ = resp.reply(query("error.", RecordType::A));
            }
        }
    }
}
fn main() {
    let port = std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
    std::thread::spawn(move || {
        let u = UdpParams { address: "127.0.0.1".into(), port, write_timeout: Duration::from_secs(5), threads: 1 };
        let t = TcpParams { address: "127.0.0.1".into(), port, write_timeout: Duration::from_secs(5), read_timeout: Duration::from_secs(5), threads: 2 };
        start_servers(Arc::new(H), u, t);
    });
    for n in [1usize, 9, 200, 1000, 2000] {
        let mut m = query("a.", RecordType::A);
        m.answers = (0..n).map(|_| a("a.", [1, 2, 3, 4])).collect();
        m.header.answers_count = n as u16;
        let b = m.encode_to_bytes().unwrap();
        let mut s = loop {
            match std::net::TcpStream::connect(("127.0.0.1", port)) {
                Ok(s) => break s,
                Err(_) => std::thread::sleep(Duration::from_millis(20)),
            }
        };
        let _ = s.write_all(&(b.len() as u16).to_be_bytes());
        let _ = s.write_all(&b);
        let mut l = [0u8; 2];
        s.read_exact(&mut l).unwrap();
        let mut r = vec![0u8; u16::from_be_bytes(l) as usize];
        s.read_exact(&mut r).unwrap();
        assert_eq!(Message::decode_from_bytes(&r).unwrap().header.id, n as u16, "{n} records");
    }
    std::process::exit(0);
}
'''
