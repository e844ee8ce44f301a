property = "C19"
needs = "a read of an entry in the last second of its life"
breaks = "remaining lifetimes are compared in whole seconds, so an entry with less than a second left is dropped"
edits = [("src/resolver/back_end/cache.rs", "    instant <= &time::Instant::now()\n", "    instant.saturating_duration_since(time::Instant::now()).as_secs() == 0\n")]
demo = '''
fn main() {
    let c: Cache<String, u32> = Cache::new(CacheConf { clean_period: Duration::from_secs(60), max_cleaned: 10 });
    c.set("long".into(), Duration::from_secs(60), 1);
    c.set("short".into(), Duration::from_millis(900), 2);
    assert_eq!(c.get_clone(&"long".to_string()).unwrap().1, 1);
    c.clean();
    assert_eq!(c.get_clone(&"short".to_string()).unwrap().1, 2, "live entry lost");
    std::thread::sleep(Duration::from_millis(1000));
    assert!(c.get_clone(&"short".to_string()).is_none());
}
'''
