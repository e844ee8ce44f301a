property = "C22"
needs = "two jobs of one pool that overlap in time"
breaks = "the guard of the job queue lives until the end of the match, so the queue is locked while a job runs and jobs run one at a time"
edits = [("src/shared/thread_pool.rs", """            let receiver_guard = receiver.lock().unwrap();
            let worker_message = receiver_guard.recv().unwrap();
            drop(receiver_guard);
            match worker_message {
""", """            match receiver.lock().unwrap().recv().unwrap() {
""")]
demo = '''
use std::sync::mpsc;
fn main() {
    let pool = ariadne_dns::shared::thread_pool::ThreadPool::new(4, "demo");
    // the first job waits for the second
    let (tx, rx) = mpsc::channel::<()>();
    let (done, end) = mpsc::channel::<bool>();
    pool.execute(move || {
        done.send(rx.recv_timeout(Duration::from_secs(5)).is_ok()).unwrap();
    });
    pool.execute(move || {
        let _ = tx.send(());
    });
    assert!(end.recv().unwrap(), "the second job did not run while the first did");
    std::process::exit(0);
}
'''
