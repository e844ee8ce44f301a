property = "C35"
needs = "tracing on, and a name server that cannot be reached (as opposed to one that replies badly)"
breaks = "a request that fails for want of a connection is not recorded as failed"
edits = [("src/resolver/back_end/recursive.rs", "                self.trace.t_ns_err(&err);\n", "                if !matches!(err, LookupErr::IO(..)) {\n                    self.trace.t_ns_err(&err);\n                }\n")]
demo = '''
fn trace(silent: bool) -> String {
    let cache: Arc<RecordsCache> = Arc::new(Cache::new(CacheConf { clean_period: Duration::from_secs(60), max_cleaned: 10 }));
    cache.set((name("example.org."), RecordType::NS), Duration::from_secs(600), vec![ns("example.org.", "ns.example.org.")]);
    // nothing listens there
    cache.set((name("ns.example.org."), RecordType::A), Duration::from_secs(600), vec![a("ns.example.org.", [127, 0, 0, 211])]);
    let p = ResolverParams { read_timeout: Duration::from_millis(200), write_timeout: Duration::from_millis(200), ..Default::default() };
    let r = Resolver::new(&cache, p, TraceParams { verbose: false, silent, color: false });
    let (res, t) = r.new_lookup(&name("www.example.org."), RecordType::A).perform();
    assert!(res.is_err());
    assert_eq!(t.is_empty(), silent);
    t.to_string()
}
fn main() {
    trace(true);
    let t = trace(false);
    assert_eq!(t.matches("Asking to nameserver failed").count(), 1, "{t}");
}
'''
