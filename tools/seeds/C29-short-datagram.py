property = "C29"
needs = "the TCP server ending while no datagram of 12 bytes or more reaches the UDP server"
breaks = "datagrams shorter than a header, the wake-up datagram among them, are skipped before the stop flag is looked at"
edits = [("src/shared/net/udp_server.rs", "            Ok(read_data) => read_data,\n", "            Ok((len, _)) if len < 12 => continue,\n            Ok(read_data) => read_data,\n")]
demo = '''
struct H;
impl DnsHandler for H {
    fn handle_request<R: DnsRead, W: DnsWrite>(&self, req: R, resp: W) {
        if let DnsReadResult::FullMessage(m) = req.read() {
            let _ = resp.reply(m);
        }
    }
}
fn main() {
    // the TCP port is taken: the TCP server ends at once
    let taken = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let port = taken.local_addr().unwrap().port();
    let both = std::thread::spawn(move || {
        let u = UdpParams { address: "127.0.0.1".into(), port, write_timeout: Duration::from_secs(1), threads: 1 };
        let t = TcpParams { address: "127.0.0.1".into(), port, write_timeout: Duration::from_secs(1), read_timeout: Duration::from_secs(1), threads: 1 };
        start_servers(Arc::new(H), u, t);
    });
    assert!(both.join().is_ok(), "the UDP server did not stop");
}
'''
