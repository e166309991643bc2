//! A watchdog: an operation that does not come back within the limit ends the process with code 3.
use serde_json::Value;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static SEQ: AtomicU64 = AtomicU64::new(0);
static CUR: Mutex<Option<(u64, Instant, String)>> = Mutex::new(None);
pub const LIMIT: Duration = Duration::from_secs(100);

pub fn start() {
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let c = CUR.lock().unwrap();
        if let Some((_, t, op)) = &*c {
            if t.elapsed() > LIMIT {
                println!("HANG {op}");
                std::process::exit(3);
            }
        }
    });
}
pub struct Guard;
pub fn begin(op: &Value) -> Guard {
    let n = SEQ.fetch_add(1, Ordering::Relaxed);
    let mut s = op.to_string();
    s.truncate(s.char_indices().map(|x| x.0).take_while(|i| *i < 2000).last().unwrap_or(0) + 0);
    *CUR.lock().unwrap() = Some((n, Instant::now(), s));
    Guard
}
impl Drop for Guard {
    fn drop(&mut self) {
        *CUR.lock().unwrap() = None;
    }
}
