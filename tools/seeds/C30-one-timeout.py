property = "C30"
needs = "a configuration where exactly one of the resolver's two time-outs is zero"
breaks = "the configuration is refused only when both time-outs are zero"
edits = [("src/resolver/conf.rs", "self.resolver.read_timeout == 0 || self.resolver.write_timeout == 0", "self.resolver.read_timeout == 0 && self.resolver.write_timeout == 0")]
demo = '''
fn conf(r: u64, w: u64) -> String {
    format!(r#"{{"log_level":"INFO","udp_server":{{"address":"127.0.0.1","port":53,"write_timeout":1,"threads":1}},
    "tcp_server":{{"address":"127.0.0.1","port":53,"read_timeout":1,"write_timeout":1,"threads":1}},
    "resolver":{{"max_ns_queried":1,"max_ns_retries":1,"max_cname_redir":1,"read_timeout":{r},"write_timeout":{w},
    "cache_conf":{{"clean_period":1,"entries_cleaned":1}},"trace_conf":{{"verbose":false,"silent":true,"color":false}}}}}}"#)
}
fn main() {
    let p = std::env::temp_dir().join(format!("ariadne-demo-{}.json", std::process::id()));
    let mut load = |r, w| {
        std::fs::write(&p, conf(r, w)).unwrap();
        let v = ariadne_dns::resolver::conf::Conf::from_file(p.to_str().unwrap());
        std::fs::remove_file(&p).unwrap();
        v.map(|_| ())
    };
    assert_eq!(load(2, 3), Ok(()));
    assert!(load(0, 0).is_err());
    assert!(load(2, 0).is_err(), "write time-out 0 accepted");
    assert!(load(0, 2).is_err(), "read time-out 0 accepted");
}
'''
