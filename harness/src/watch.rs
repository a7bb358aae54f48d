//! Watchdog: a case which makes no progress for a while, or aborts, is written to a file.
use std::cell::RefCell;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const N: usize = 64;
static TICKS: [AtomicU64; N] = [const { AtomicU64::new(0) }; N];
static CASES: [Mutex<Option<(String, String)>>; N] = [const { Mutex::new(None) }; N];
static NEXT: AtomicUsize = AtomicUsize::new(0);

thread_local! { static ID: RefCell<usize> = RefCell::new(NEXT.fetch_add(1, Ordering::Relaxed) % N); }

pub fn tick() {
    crate::tag::clear();
    ID.with(|i| TICKS[*i.borrow()].fetch_add(1, Ordering::Relaxed));
}
pub fn begin(desc: impl FnOnce() -> String) {
    tick();
    ID.with(|i| *CASES[*i.borrow()].lock().unwrap() = Some((desc(), String::new())));
}
pub fn sched(s: String) {
    tick();
    ID.with(|i| if let Some(c) = CASES[*i.borrow()].lock().unwrap().as_mut() { c.1 = s; });
}
pub fn end() {
    tick();
    ID.with(|i| *CASES[*i.borrow()].lock().unwrap() = None);
}
fn dump(path: &str, why: &str, only: Option<usize>) {
    let mut s = String::new();
    for i in 0..N {
        if only.is_some() && only != Some(i) { continue; }
        if let Ok(c) = CASES[i].try_lock() {
            if let Some((d, sc)) = &*c {
                s.push_str(&format!("{{\"why\":\"{why}\",\"sched\":\"{sc}\",\"case\":{d}}}\n"));
            }
        }
    }
    let _ = std::fs::write(path, s);
}
pub fn start(path: String, limit: Duration) {
    std::thread::spawn(move || {
        let mut last = [(0u64, Instant::now()); N];
        loop {
            std::thread::sleep(Duration::from_millis(250));
            for i in 0..N {
                let t = TICKS[i].load(Ordering::Relaxed);
                if t != last[i].0 { last[i] = (t, Instant::now()); }
                let busy = CASES[i].try_lock().map_or(true, |c| c.is_some());
                if busy && last[i].1.elapsed() > limit {
                    dump(&path, "hang", Some(i));
                    std::process::exit(3);
                }
            }
        }
    });
}
extern "C" fn on_abort(_: i32) {
    unsafe {
        if let Some(p) = ABORT_PATH.as_ref() { dump(p, "abort", None); }
        _exit(4);
    }
}
static mut ABORT_PATH: Option<String> = None;
extern "C" { fn signal(s: i32, h: extern "C" fn(i32)) -> usize; fn _exit(c: i32) -> !; }
/// Not async-signal-safe in general, but the process is lost anyway.
pub fn on_signals(path: String) {
    unsafe {
        #[allow(static_mut_refs)]
        { ABORT_PATH = Some(path); }
        for s in [6, 11, 7, 8, 4] { signal(s, on_abort); }
    }
}
