property = "C39"
needs = "a cache that is found empty by one turn of the cleaner and filled later"
breaks = "the cleaning thread ends as soon as a turn leaves the cache empty"
edits = [("src/resolver/back_end/cache.rs", """            cache.clean();
            log::info!("Cache cleaned.")
""", """            cache.clean();
            log::info!("Cache cleaned.");
            if cache.data.lock().unwrap().is_empty() {
                break;
            }
""")]
demo = '''
fn main() {
    let c: Arc<Cache<String, u32>> = Arc::new(Cache::new(CacheConf { clean_period: Duration::from_millis(100), max_cleaned: 10 }));
    c.start_clean_routine();
    std::thread::sleep(Duration::from_millis(600));
    c.set("a".into(), Duration::from_millis(100), 1);
    c.set("b".into(), Duration::from_millis(100), 2);
    let t0 = Instant::now();
    while !format!("{c:?}").is_empty() {
        assert!(t0.elapsed() < Duration::from_secs(10), "expired entries stay: {c:?}");
        std::thread::sleep(Duration::from_millis(50));
    }
}
'''
