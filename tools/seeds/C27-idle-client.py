property = "C27"
needs = "a TCP client that connects and sends nothing"
breaks = "the server waits for the first byte before the time-outs are set, so an idle client holds a worker for ever"
edits = [("src/shared/net/tcp_server.rs", "            let setup_ok = setup_connection(&mut tcp_stream, (params.read_timeout, params.write_timeout));\n", "            let setup_ok = tcp_stream\n                .peek(&mut [0])\n                .and_then(|_| setup_connection(&mut tcp_stream, (params.read_timeout, params.write_timeout)));\n")]
demo = '''
use std::io::{Read, Write};
use std::net::TcpStream;
struct H;
impl DnsHandler for H {
    fn handle_request<R: DnsRead, W: DnsWrite>(&self, req: R, resp: W) {
        if let DnsReadResult::FullMessage(m) = req.read() {
            let _ = resp.reply(m);
        }
    }
}
fn connect(port: u16) -> TcpStream {
    loop {
        match TcpStream::connect(("127.0.0.1", port)) {
            Ok(s) => return s,
            Err(_) => std::thread::sleep(Duration::from_millis(20)),
        }
    }
}
fn main() {
    let port = std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
    std::thread::spawn(move || {
        let u = UdpParams { address: "127.0.0.1".into(), port, write_timeout: Duration::from_secs(1), threads: 1 };
        let t = TcpParams { address: "127.0.0.1".into(), port, write_timeout: Duration::from_secs(1), read_timeout: Duration::from_secs(1), threads: 2 };
        start_servers(Arc::new(H), u, t);
    });
    let _idle: Vec<TcpStream> = (0..2).map(|_| connect(port)).collect();
    std::thread::sleep(Duration::from_millis(2500));
    let mut s = connect(port);
    s.set_read_timeout(Some(Duration::from_secs(5))).unwrap();
    let b = query("a.", RecordType::A).encode_to_bytes().unwrap();
    s.write_all(&(b.len() as u16).to_be_bytes()).unwrap();
    s.write_all(&b).unwrap();
    let mut l = [0u8; 2];
    s.read_exact(&mut l).expect("no reply: idle clients hold every worker");
    std::process::exit(0);
}
'''
