property = "C16"
needs = "a TCP request whose length prefix announces less than two bytes"
breaks = "the id of a request is looked at before its length is checked, so a request of one byte ends the worker"
edits = [("src/shared/net/tcp_server.rs", "        let req = dns::Message::decode_from_bytes(&buf);\n", "        let id = u16::from_be_bytes([buf[0], buf[1]]);\n        log::trace!(\"[{}] Read request.\", id);\n        let req = dns::Message::decode_from_bytes(&buf);\n")]
demo = '''
use std::io::{Read, Write};
struct H;
impl DnsHandler for H {
    fn handle_request<R: DnsRead, W: DnsWrite>(&self, req: R, resp: W) {
        if let DnsReadResult::FullMessage(m) = req.read() {
            let _ = resp.reply(m);
        }
    }
}
fn main() {
    let port = std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
    std::thread::spawn(move || {
        let u = UdpParams { address: "127.0.0.1".into(), port, write_timeout: Duration::from_secs(5), threads: 1 };
        let t = TcpParams { address: "127.0.0.1".into(), port, write_timeout: Duration::from_secs(5), read_timeout: Duration::from_secs(5), threads: 1 };
        start_servers(Arc::new(H), u, t);
    });
    let connect = || loop {
        match std::net::TcpStream::connect(("127.0.0.1", port)) {
            Ok(s) => break s,
            Err(_) => std::thread::sleep(Duration::from_millis(20)),
        }
    };
    for len in [0usize, 1, 2, 3, 12] {
        let mut s = connect();
        s.write_all(&(len as u16).to_be_bytes()).unwrap();
        s.write_all(&vec![7u8; len]).unwrap();
        drop(s);
    }
    let b = query("a.", RecordType::A).encode_to_bytes().unwrap();
    let mut s = connect();
    s.set_read_timeout(Some(Duration::from_secs(10))).unwrap();
    let _ = s.write_all(&(b.len() as u16).to_be_bytes());
    let _ = s.write_all(&b);
    let mut l = [0u8; 2];
    assert!(s.read_exact(&mut l).is_ok(), "no worker is left");
    std::process::exit(0);
}
'''
