//! Minimal work-sharing map over OS threads.
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;

pub fn threads() -> usize {
    std::env::var("AMUCK_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4))
}

pub fn map<T: Sync, R: Send>(v: &[T], f: impl Fn(&T) -> R + Sync) -> Vec<R> {
    let next = AtomicUsize::new(0);
    let out: Mutex<Vec<(usize, R)>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..threads().min(v.len().max(1)) {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= v.len() {
                        break;
                    }
                    let r = f(&v[i]);
                    out.lock().unwrap().push((i, r));
                })
                .unwrap();
        }
    });
    let mut o = out.into_inner().unwrap();
    o.sort_by_key(|x| x.0);
    o.into_iter().map(|x| x.1).collect()
}

/// Set while this process uses so much memory that explorations are cut short.
static FULL: AtomicBool = AtomicBool::new(false);

/// Out of time or memory: an exploration stops and reports itself as capped.
pub fn past(deadline: std::time::Instant) -> bool {
    FULL.load(Ordering::Relaxed) || std::time::Instant::now() > deadline
}

/// Watch the resident set from a thread of its own.
pub fn watch_memory() {
    let limit: u64 = std::env::var("AMUCK_MEM_GB").ok().and_then(|x| x.parse().ok()).unwrap_or(18) << 18; // in pages
    std::thread::spawn(move || loop {
        let t = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
        let rss: u64 = t.split(' ').nth(1).and_then(|x| x.parse().ok()).unwrap_or(0);
        FULL.store(rss > limit, Ordering::Relaxed);
        std::thread::sleep(std::time::Duration::from_millis(200));
    });
}
