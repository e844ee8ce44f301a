property = "C28"
needs = "dropping a pool of several workers, when another worker than the one waited for takes the stop message"
breaks = "workers are told to stop one at a time and waited for in order, so the pool waits for a worker whose stop message another one took"
edits = [("src/shared/thread_pool.rs", """        for _ in &self.workers {
            self.sender.send(WorkerMessage::Stop).unwrap();
        }
        for worker in &mut self.workers {
""", """        for worker in &mut self.workers {
            self.sender.send(WorkerMessage::Stop).unwrap();
""")]
demo = '''
use std::sync::mpsc;
fn main() {
    for n in 0..40 {
        let (done, end) = mpsc::channel::<()>();
        std::thread::spawn(move || {
            let pool = ariadne_dns::shared::thread_pool::ThreadPool::new(8, "demo");
            for _ in 0..n {
                pool.execute(|| std::thread::sleep(Duration::from_millis(1)));
            }
            drop(pool);
            done.send(()).unwrap();
        });
        assert!(end.recv_timeout(Duration::from_secs(5)).is_ok(), "the pool never shut down ({n} jobs)");
    }
    std::process::exit(0);
}
'''
